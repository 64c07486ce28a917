"""Angle field step against Evolve.tla: free, cosine and quadratic potentials, wrapped or not, stencil, precision, ranks."""
from evo import *

QCDS = [1, 2, 16, 32]

def case(rnd, i, qcd, ft, prec, ng, ranks, beta=0.0):
    rng = np.random.default_rng(rnd.randrange(2**31))
    lx, lz = geometry(rnd, AXION, prec, ng, ranks)
    n = lx*lx*lz*ranks
    pot = V_PQ1 + qcd + rnd.choice([0, 0, DALL, RHO, DRHO])      # damping and projection belong to the complex field
    d = bg(rnd, 1)
    z = rnd.uniform(0.8, 2.0)
    R = z**d["frw"]
    a = rnd.uniform(0.5, 1.0)
    d["L"], d["zi"], d["beta"] = a*lx, z, beta if qcd == 16 else rnd.choice([0.0, 1.0])
    d["indi3"] = rnd.uniform(0.5, 2.0)
    dz0 = 0.4*a/math.sqrt(12 + d["indi3"]**2*R**(d["nqcd"]+2)*a*a)
    if d["frw"] > 0 and rnd.random() < 0.6:
        d["zthres"] = (z + dz0*rnd.uniform(0.1, 0.9))**d["frw"]
        if rnd.random() < 0.5:
            d["zrestore"] = (z + dz0*rnd.uniform(0.9, 1.6))**d["frw"]
            d["nqcdr"] = rnd.choice([2.0, 4.0])
        elif rnd.random() < 0.3:
            d["zrestore"] = 0.5*d["zthres"]
    amp = math.pi*R*(0.95 if ft == AXMOD else rnd.choice([0.9, 2.7]))
    m = rng.uniform(-amp, amp, n)
    if ft == AXMOD and rnd.random() < 0.5:                        # mostly near the branch cut
        m = np.where(rng.random(n) < 0.7, math.pi*R*np.sign(m)*rng.uniform(0.93, 0.999, n), m)
    files = {"m": m, "v": rng.standard_normal(n)*R*rnd.choice([0.3, 3.0])}
    s = lines(d, pot) + [f"scalar {lx} {lz} {prec} {ft} 0 0 {ng}", "load m @m@", "load v @v@", f"initprop 136 {pot} {ng}"]
    s += steps(rnd, dz0, 2)
    return Case(f"{'beta-' if beta else ''}t{ft}-q{qcd}-p{prec}-g{ng}-r{ranks}-{i}", "\n".join(s) + "\n", cli(lx, lz, ranks, "double" if prec == 8 else "single", ng), ranks,
                {"eps": "1e-12" if prec == 8 else "4e-6"}, files, omp=rnd.choice([1, 2, 3]))

def build(seed, reps):
    rnd = random.Random(seed)
    out, i = [], 0
    for r in range(reps):
        combos = [(q, f, p, g) for q in QCDS for f in (AXION, AXMOD) for p in (4, 8) for g in ([1, 2] if r % 2 == 0 else [3, 4])]
        rnd.shuffle(combos)
        for q, f, p, g in combos:
            if r == 0 and g == 2 and rnd.random() < 0.35:
                g = rnd.choice([3, 4])
            out.append(case(rnd, i, q, f, p, g, rnd.choice([1, 1, 2, 3]) if g < 3 else 1)); i += 1
    # self-interactions do not enter the linear equation of motion
    out += [case(rnd, i, 16, f, p, 1, 1, 1.0) for f in (AXION, AXMOD) for p in (4, 8)]
    return out

def run(chk):
    chk.conform("EvolveTrace", build(SEED, 6 if THOROUGH else 1), tlc_timeout=800)
