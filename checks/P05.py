"""Non-relativistic fields (complex Naxion, split Paxion) against Evolve.tla."""
from evo import *

def case(rnd, i, ft, prec, ng, ranks):
    rng = np.random.default_rng(rnd.randrange(2**31))
    lx, lz = geometry(rnd, ft, prec, ng, ranks)
    n = lx*lx*lz*ranks
    pot = V_PQ1 + rnd.choice([1, 2, 8, 16, 32])
    d = bg(rnd, 1, frw=rnd.choice([0, 1, 1, 1.5, 0.5]))
    z = rnd.uniform(0.8, 2.0)
    a = rnd.uniform(0.5, 1.0)
    d["L"], d["zi"], d["beta"] = a*lx, z, rnd.choice([0.0, 1.0, -0.7])
    d["indi3"], d["nqcd"] = rnd.uniform(2.0, 6.0), rnd.choice([0, 2.0, 7.0, 0.01])
    mA, R = d["indi3"]*(z**d["frw"])**(d["nqcd"]/2), z**d["frw"]
    dz0 = 0.3*2*mA*R*a*a/12
    dz0 = min(dz0, 0.3*z)
    if d["frw"] > 0 and rnd.random() < 0.6:
        d["zthres"] = (z + dz0*rnd.uniform(0.1, 0.9))**d["frw"]
        if rnd.random() < 0.4:
            d["zrestore"] = (z + dz0*rnd.uniform(0.9, 1.6))**d["frw"]
            d["nqcdr"] = rnd.choice([2.0, 4.0])
    elif rnd.random() < 0.3:
        d["zthres"] = R*0.5
    new = [f"scalar {lx} {lz} {prec} 1 0 0 {ng}", "setfield 2", "setfield 512"] if ft == NAXION else [f"scalar {lx} {lz} {prec} 1024 0 0 {ng}"]
    if ft == NAXION:
        files = {"m": rng.standard_normal(2*n)}
        load, dumps = ["load m @m@"], ["fold unfold", "dump m"]
    else:
        files = {"m": rng.standard_normal(n), "v": rng.standard_normal(n)}
        load, dumps = ["load m @m@", "load v @v@"], ["fold unfold", "dump m", "dump v"]
    s = lines(d, pot) + new + load + [f"initprop 136 {pot} {ng}"]
    for _ in range(2):
        s += rnd.choice([[], ["fold unfold"], ["fold fold"]]) + [f"propagate {dz0*rnd.choice([1, 1, 0.5, 0.1, 2]):.17g} {rnd.choice([1, 1, 2])}"] + dumps
    return Case(f"n{ft}-p{prec}-g{ng}-r{ranks}-{i}", "\n".join(s) + "\n", cli(lx, lz, ranks, "double" if prec == 8 else "single", ng), ranks,
                {"eps": "1e-12" if prec == 8 else "4e-6"}, files, omp=rnd.choice([1, 2, 3]))

def build(seed, reps):
    rnd = random.Random(seed)
    out, i = [], 0
    for r in range(reps):
        for ft in (NAXION, PAXION):
            for p in (4, 8):
                for ng in (1, 2, 1, 2, 3, 4) if r % 2 == 0 else (1, 2, 1, 2):
                    out.append(case(rnd, i, ft, p, ng, rnd.choice([1, 2, 3]) if ng < 3 else 1)); i += 1
    return out

def run(chk):
    chk.conform("EvolveTrace", build(SEED, 6 if THOROUGH else 1), tlc_timeout=800)
