"""Fields kept in Fourier space and the spectral integrators, against Momentum.tla."""
from evo import *
from P08 import phases

def cells(rnd, ft, prec, ranks):
    sh = shift(ft, prec)
    ok = [(n, z) for n in (4, 6, 8, 12, 16) for z in (2, 3, 4, 5, 6, 8) if n % ranks == 0 and n % sh == 0 and n//sh >= 2 and fft_ok(n, z, ranks, 1) and z <= n and n*n*z*ranks <= 2100]
    return rnd.choice(ok)

def ops(rnd, mode, length):
    """a walk over what may happen to a field that lies anywhere"""
    s, steps = [], 0
    for _ in range(length):
        r = rnd.random()
        if r < 0.55: s.append(f"ft {rnd.choice(['m', 'v', 'mv', 'mv'])} {rnd.choice(['fwd', 'bck'])}")
        elif r < 0.65: s.append("ft mv bck\nfold fold")
        elif r < 0.78 and mode == SAXION: s += ["strings map", "fold unfold", "dump m", "dump v"]
        elif r < 0.9: s += ["writeconf 3 0", "h5data axion.00003 /m", "h5data axion.00003 /v"]
        else: s += ["ft mv bck", "fold unfold", "dump m", "dump v"]
    return s

def one(rnd, i, ft, prec, kind, pot):
    rng = np.random.default_rng(rnd.randrange(2**31))
    ranks = rnd.choice([1, 1, 2, 4])
    n, lz = cells(rnd, ft, prec, ranks)
    N = n*n*lz*ranks
    z = rnd.uniform(0.8, 2.0)
    a = rnd.uniform(0.5, 1.0)
    d = bg(rnd, 1, zi=z, L=a*n)
    damp = pot & (DRHO | DALL)
    if damp: d["frw"], d["gamma"] = (1 if pot & DRHO else d["frw"]), rnd.uniform(0.3, 2.0)
    R = z**d["frw"]
    s = lines(d, pot) + [f"scalar {n} {lz} {prec} {ft} 1 0 1", "outdir .", "load m @m@", "load v @v@"]
    files = {"m": complex_field(rng, N, R) if ft == SAXION else rng.uniform(-3, 3, N)*R, "v": rng.standard_normal(N*COMPS[ft])*R}
    if kind == "moves":
        s += ops(rnd, ft, rnd.choice([6, 8, 10]))
    else:
        s += [f"initprop {130 if kind == 'spectral' else 132} {pot} 1"]
        dz0 = 0.3*a/math.sqrt(30 + 8*d["lam"]*a*a*R*R)
        for _ in range(2):
            r = rnd.random()
            if r < 0.3: s.append("fold fold")
            elif r < 0.5 and kind == "fourier": s.append("ft mv fwd")
            s.append(f"propagate {dz0*rnd.choice([1, 1, 0.5, 0.1, 2]):.17g} {rnd.choice([1, 1, 2])}")
            if kind == "fourier": s.append(rnd.choice(["ft mv bck", "writeconf 3 0", "ft v bck\nft m bck"]))
            s += ["fold unfold", "dump m", "dump v"]
    s += ["ft mv bck", "fold unfold", "dump m", "dump v"]
    return Case(f"{kind}-t{ft}-q{pot & 63}-m{pot & ~2047}-p{prec}-n{n}x{lz}-r{ranks}-{i}", "\n".join(s) + "\n",
                cli(n, lz, ranks, "double" if prec == 8 else "single", None, fspec=""), ranks,
                {"eps": "1e-12" if prec == 8 else "3e-6", "kind": kind}, files, omp=rnd.choice([1, 2, 4]))

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    for r in range(reps):
        for prec in (4, 8):
            for q in (1, 2, 8, 32): out.append(one(rnd, len(out), SAXION, prec, "spectral", V_PQ1 + q + rnd.choice([0, 0, DRHO, DALL, RHO])))
            out.append(one(rnd, len(out), SAXION, prec, "spectral", V_PQ1 + RHO + rnd.choice([2, 8])))
            out += [one(rnd, len(out), ft, prec, "moves", V_PQ1 + 2) for ft in (SAXION, AXION) for _ in range(4)]
            out += [one(rnd, len(out), AXION, prec, "spectral", V_PQ1 + 2) for _ in range(3)]
        out += [one(rnd, len(out), AXION, 4, "fourier", V_PQ1 + 2) for _ in range(5)]
    return out

def run(chk):
    chk.model("MomentumMC")
    chk.conform("MomentumTrace", build(SEED*20011, 8 if THOROUGH else 1), tlc_timeout=800)
