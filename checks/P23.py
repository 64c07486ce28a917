"""WKB continuation of the angle field against WKB.tla."""
from evo import *

def case(rnd, i, prec, lx, ranks):
    rng = np.random.default_rng(rnd.randrange(2**31))
    lz, n = lx//ranks, lx**3
    d = bg(rnd, 1, frw=1)
    z1 = rnd.uniform(1.0, 2.5)
    z2 = z1*rnd.choice([1.05, 1.3, 2.0, 3.0])
    d["L"], d["zi"] = rnd.uniform(2.0, 8.0), z1
    d["indi3"], d["nqcd"] = rnd.choice([0.5, 2.0, 4.0]), rnd.choice([0, 2.0, 3.3, 7.0])
    d["zthres"] = rnd.choice([1e3, 0.8*z1, z1 + 0.4*(z2 - z1), z1 + 0.4*(z2 - z1)])
    pot = V_PQ1 + 2
    R = z1
    files = {"m": R*rng.uniform(-1, 1, n), "v": rng.standard_normal(n)}
    dumps = ["dump m", "dump v"]
    s = lines(d, pot) + [f"scalar {lx} {lz} {prec} 2 0 0 1", "load m @m@", "load v @v@", f"initprop 136 {pot} 1"]
    s += rnd.choice([[], ["fold fold"]]) + [f"wkb {z2:.17g}"] + dumps
    if rnd.random() < 0.4:
        s += rnd.choice([[], ["fold fold"]]) + [f"wkb {z2*1.2:.17g}"] + dumps
    if rnd.random() < 0.3:
        s += [f"propagate {0.02*d['L']/lx:.17g} 1", "fold unfold"] + dumps
    # rounding: of the field, and of the phase (mass phases are long)
    mA = d["indi3"]*min(z2*1.2, d["zthres"])**(d["nqcd"]/2)*z2*z2
    e = (1e-11 + 1e-14*mA) if prec == 8 else (2e-5)
    return Case(f"p{prec}-l{lx}-r{ranks}-{i}", "\n".join(s) + "\n", cli(lx, lz, ranks, "double" if prec == 8 else "single", 1), ranks,
                {"eps": "1e-12" if prec == 8 else "4e-6", "weps": f"{e:.3g}", "phase": "0.1"}, files, omp=rnd.choice([1, 2, 3]))

def build(seed, reps):
    rnd = random.Random(seed)
    out, i = [], 0
    for r in range(reps):
        for prec in (8, 4):
            for lx, ranks in [(8, 1), (8, 2), (8, 1), (8, 2), (8, 4)] if prec == 8 else [(16, 1), (16, 2)]:
                out.append(case(rnd, i, prec, lx, ranks)); i += 1
    return out

def run(chk):
    chk.model("WKBMC")
    chk.conform("WKBTrace", build(SEED, 6 if THOROUGH else 1), tlc_timeout=800)
