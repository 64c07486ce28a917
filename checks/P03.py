"""Complex field step against Evolve.tla: every compiled potential and damping mode, stencil, precision and rank count."""
from evo import *

MODES = [0, THETA, RHO, DRHO, DRHO+RHO, DALL, DALL+THETA]
QCDS = [1, 2, 8, 32]

def case(rnd, i, qcd, mode, prec, ng, ranks, low=0):
    rng = np.random.default_rng(rnd.randrange(2**31))
    lx, lz = geometry(rnd, SAXION, prec, ng, ranks)
    n = lx*lx*lz*ranks
    pot = V_PQ1 + qcd + mode
    d = bg(rnd, 1)
    z = rnd.uniform(0.8, 2.0)
    R = z**d["frw"]
    a = rnd.uniform(0.5, 1.0)
    d["L"], d["zi"] = a*lx, z
    d["gamma"] = rnd.uniform(0.3, 2.0) if mode & (DRHO | DALL) else rnd.choice([0.0, 0.7])
    d["dectime"] = rnd.choice([-1.0, -1.0, 2.5])
    dz0 = 0.4*a/math.sqrt(12+8*d["lam"]*a*a*R*R)*1.0
    if d["frw"] > 0 and rnd.random() < 0.5:              # a threshold of the mass inside the first steps
        d["zthres"] = (z + dz0*rnd.uniform(0.1, 0.9))**d["frw"]
        if rnd.random() < 0.5:
            d["zrestore"] = (z + dz0*rnd.uniform(0.9, 1.6))**d["frw"]
            d["nqcdr"] = rnd.choice([2.0, 4.0])
        elif rnd.random() < 0.3:
            d["zrestore"] = 0.5*d["zthres"]
    files = {"m": complex_field(rng, n, R), "v": rng.standard_normal(2*n)*R}
    s = lines(d, pot) + [f"scalar {lx} {lz} {prec} 1 0 {low} {ng}", "load m @m@", "load v @v@", f"initprop 136 {pot} {ng}"]
    s += steps(rnd, dz0, 2)
    return Case(f"{'low-' if low else ''}q{qcd}-m{mode}-p{prec}-g{ng}-r{ranks}-{i}", "\n".join(s) + "\n", cli(lx, lz, ranks, "double" if prec == 8 else "single", ng), ranks,
                {"eps": "1e-12" if prec == 8 else "4e-6"}, files, omp=rnd.choice([1, 2, 3]))

def build(seed, reps):
    rnd = random.Random(seed)
    out, i = [], 0
    for _ in range(reps):
        combos = [(q, m, p) for q in QCDS for m in MODES for p in (4, 8)]
        rnd.shuffle(combos)
        for q, m, p in combos:
            ng = [1, 2, 3, 4][i % 4] if p == 8 else [1, 2, 1, 3][i % 4]
            ranks = 1 if ng > 2 else rnd.choice([1, 1, 2, 3])
            out.append(case(rnd, i, q, m, p, ng, ranks)); i += 1
        for q in QCDS:                                   # the variant without a second copy of the field
            for m in MODES:
                if reps > 1 or rnd.random() < 0.5:
                    out.append(case(rnd, i, q, m, rnd.choice([4, 8]), rnd.choice([1, 2]), rnd.choice([1, 2]), 1)); i += 1
    return out

def run(chk):
    chk.conform("EvolveTrace", build(SEED, 6 if THOROUGH else 1), tlc_timeout=800)
