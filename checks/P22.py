"""The gravitational potential and runs under gravity against Gravity.tla and Evolve.tla."""
from evo import *

def params(rnd, lx):
    d = bg(rnd, 1, frw=rnd.choice([0, 1, 1, 1.5, 0.5]))
    z, a = rnd.uniform(0.8, 2.0), rnd.uniform(0.5, 1.0)
    d["L"], d["zi"], d["beta"] = a*lx, z, rnd.choice([0.0, 1.0, -0.7])
    d["indi3"], d["nqcd"] = rnd.uniform(2.0, 6.0), rnd.choice([0, 2.0, 7.0])
    mA, R = d["indi3"]*(z**d["frw"])**(d["nqcd"]/2), z**d["frw"]
    return d, z, a, mA, min(0.3*2*mA*R*a*a/12, 0.3*z)

def shape(rnd, rng, n, lx, kind):
    """amplitudes of a pair field, or an angle field: noise, one clump, a wave on top of a uniform field"""
    if kind == "noise": return rng.standard_normal(n), rng.standard_normal(n)
    if kind == "clump":
        m, v = 0.02*rng.standard_normal(n), 0.02*rng.standard_normal(n)
        c = rnd.randrange(n); m[c] += 3; v[c] -= 1
        return m, v
    s = np.arange(n); x, y, z = s % lx, s//lx % lx, s//lx//lx
    k = [rnd.randrange(-lx//2 + 1, lx//2) for _ in range(3)]
    w = 2*np.pi*(k[0]*x + k[1]*y + k[2]*z)/lx
    return 1 + 0.4*np.cos(w + 0.3) + 0.01*rng.standard_normal(n), 0.5 + 0.2*np.sin(w) + 0.01*rng.standard_normal(n)

def case(rnd, i, ft, prec, ng, lx, ranks):
    rng = np.random.default_rng(rnd.randrange(2**31))
    lz, n = lx//ranks, lx**3
    d, z, a, mA, dz0 = params(rnd, lx)
    pot = (V_PQ1 + rnd.choice([1, 2, 8, 32])) if ft == PAXION else (V_PQ1 + 2)
    m, v = shape(rnd, rng, n, lx, rnd.choice(["noise", "clump", "wave"]))
    run = ft == PAXION
    if run:
        dens = float(np.mean(m*m + v*v))
        # the phase a potential turns in a step stays of order one: potential ~ contrast/(k0^2)
        k0 = 2*np.pi/d["L"]
        con = float(np.std(m*m + v*v))/dens + 0.1
        d["grav"] = rnd.choice([0.2, 1.0, 2.0])*k0*k0/(con*mA*dz0)
        d["beta"] /= dens
    s = lines(d, pot) + ([f"cosmos grav {d['grav']:.17g}"] if run else []) + [f"scalar {lx} {lz} {prec} {ft} 0 0 {ng}", "load m @m@", "load v @v@", f"initprop 136 {pot} {ng}"]
    dumps = ["fold unfold", "dump m", "dump v"]
    start = run and rnd.random() < 0.75
    s += rnd.choice([[], ["fold fold"]])
    s += ["gravity start" if start else "gravity init"] + dumps
    for _ in range(2):
        s += rnd.choice([[], ["fold unfold"], ["fold fold"]]) + ["gravity potential"] + dumps
        if start:
            s += rnd.choice([[], ["fold fold"]]) + [f"propagate {dz0*rnd.choice([1, 1, 0.5, 0.1]):.17g} {rnd.choice([1, 1, 2])}"] + dumps
    return Case(f"n{ft}-p{prec}-g{ng}-l{lx}-r{ranks}-{i}", "\n".join(s) + "\n", cli(lx, lz, ranks, "double" if prec == 8 else "single", ng), ranks,
                {"eps": "2e-12" if prec == 8 else "1e-5"}, {"m": m, "v": v}, omp=rnd.choice([1, 2, 3]))

def build(seed, reps):
    rnd = random.Random(seed)
    out, i = [], 0
    for r in range(reps):
        for ft in (PAXION, AXION):
            for prec in (4, 8):
                boxes = [(8, 1), (8, 2), (8, 4), (16, 2)] if prec == 8 else [(16, 1), (16, 2), (16, 4)]
                for lx, ranks in boxes[:4 if ft == PAXION else 2]:
                    ng = rnd.choice([1, 2]) if lx//ranks > 2 and lx*prec >= 128 else 1     # see evo.geometry
                    out.append(case(rnd, i, ft, prec, ng, lx, ranks)); i += 1
    return out

def run(chk):
    chk.model("GravityMC")
    chk.conform("GravityTrace", build(SEED, 6 if THOROUGH else 1), tlc_timeout=800)
