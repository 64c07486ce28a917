"""Coarser and finer lattices: Reduce.tla."""
from evo import *
from P08 import phases
from runner import MultiCase

def sizes(rnd, ft, prec, ng, fine, ranks, evolve):
    """a lattice and a coarser one, both within what the library supports"""
    sh = shift(ft, prec)
    for _ in range(400):
        small = [x for x in range(2, 25, 2)] if not evolve else [x for x in range(2*ng*sh, 2*ng*sh + 17, sh) if x % 2 == 0]
        a = rnd.choice(small)
        b = rnd.choice([x for x in (range(a, 3*a + 1) if not evolve else range(a + sh, 3*a + 1, sh)) if x % sh == 0 and x % 2 == 0] or [0])
        if not b: continue
        c = rnd.randrange(ng, 6)
        d = rnd.choice([c*2, c*3, c + 1, c + rnd.randrange(1, 6)])
        if b % ranks or (evolve and a % ranks) or b*b*d*ranks > 3000 or d > ng*b: continue
        if not (fft_ok(b, d, ranks, ng) and (not evolve or fft_ok(a, c, ranks, ng))): continue
        return (b, d), (a, c)
    return None

def start(rnd, rng, ft, n, tz, d, z):
    N, R = n*n*tz, z**d["frw"]
    if ft == SAXION:
        th = phases(rnd.choice(["smooth", "gentle", "random"]), rng, n, tz)
        rho = R*rng.uniform(0.6, 1.4, N)
        return {"m": np.column_stack([rho*np.cos(th), rho*np.sin(th)]).ravel(), "v": rng.standard_normal(2*N)*R}
    return {"m": rng.uniform(-1, 1, N)*R, "v": rng.standard_normal(N)}

def direct(rnd, i, ft, prec, what):
    rng = np.random.default_rng(rnd.randrange(2**31))
    got = None
    while not got:
        ng, ranks = rnd.choice([1, 1, 2]), rnd.choice([1, 2, 3, 4])
        got = sizes(rnd, ft, prec, ng, False, ranks, False)
    (lx, lz), (nx, nz) = got
    if rnd.random() < 0.15: nx, nz = lx, lz
    z = rnd.uniform(0.8, 2.0)
    d = bg(rnd, 1, zi=z, L=rnd.uniform(0.3, 1.5)*lx)
    files = start(rnd, rng, ft, lx, lz*ranks, d, z)
    s = lines(d, V_PQ1 + 1) + [f"scalar {lx} {lz} {prec} {ft} 1 0 {ng}", "load m @m@", "load v @v@"]
    if rnd.random() < 0.4 and lx//shift(ft, prec) >= 2*ng: s.append("fold fold")
    a = [rnd.choice([0, rnd.uniform(0, 0.3)]) for _ in range(3)]
    if rnd.random() < 0.2: a = [0, 0, 0]
    inplace = rnd.choice([0, 1])
    if what == "m2":
        files["e"] = np.exp(rng.standard_normal(lx*lx*lz*ranks)*rnd.choice([0.1, 1.0]))
        s += ["load er @e@", "setm2 0"]
    s += [f"reduce {what} {nx} {nz} {inplace} {a[0]:.17g} {a[1]:.17g} {a[2]:.17g}"]
    if what == "m2" or not inplace: s += ["fold unfold"]
    s += ["dump m", "dump v"]
    return Case(f"{what}-t{ft}-p{prec}-g{ng}-r{ranks}-{lx}x{lz}to{nx}x{nz}-i{inplace}-{i}", "\n".join(s) + "\n", cli(lx, lz, ranks, "double" if prec == 8 else "single", ng), ranks,
                {"eps": "1e-12" if prec == 8 else "2e-5"}, files, omp=rnd.choice([1, 2, 4]))

def reread(rnd, i, ft, prec, finer):
    rng = np.random.default_rng(rnd.randrange(2**31))
    while True:
        ng = rnd.choice([1, 1, 2])
        r0, ranks = rnd.choice([1, 2]), rnd.choice([1, 2, 3])
        got = sizes(rnd, ft, prec, ng, finer, ranks, True)
        if not got: continue
        big, small = got
        x0, z0 = small if finer else big
        if (z0*ranks) % r0 == 0 and (z0*ranks)//r0 >= ng: break
    (lx, lz), (nx, nz) = (small, big) if finer else (big, small)
    tz = lz*ranks
    z = rnd.uniform(0.8, 2.0)
    d = bg(rnd, 1, zi=z, L=rnd.uniform(0.5, 1.0)*max(lx, nx))
    d["zi"], d["beta"] = z, 0.0
    files = start(rnd, rng, ft, lx, tz, d, z)
    pr = "double" if prec == 8 else "single"
    idx = rnd.randrange(40)
    pot = V_PQ1 + rnd.choice([1, 2])
    dz = 0.02*z
    show = ["fold unfold", "dump m", "dump v"]
    opt = {k: None for k in ("msa", "lsize", "qcd", "zi", "zf")}
    opt.update(ftype={SAXION: "saxion", AXION: "axion"}[ft], index=str(idx))
    threads = lambda r: rnd.choice([x for x in (1, 2, 4) if x*r <= 8])
    runs = [Case("0-write", "\n".join(lines(d, pot) + [f"global zinit {z:.17g}", "global zfinl 9", "outdir @shared", f"scalar {lx} {tz//r0} {prec} {ft} 1 0 {ng}", f"setz {z:.17g}",
                 "load m @m@", "load v @v@", f"writeconf {idx} 0"]) + "\n", cli(lx, tz//r0, r0, pr, ng), r0, files=files, omp=threads(r0)),
            Case("1-read", "\n".join(["cosmos beta 0", "cosmos dectime -1", "outdir @shared", f"readconf {idx} 0"] + show + [f"writeconf {idx} 0"]
                 + [f"initprop 136 -1 {ng}", f"propagate {dz:.17g} {rnd.choice([1, 2])}"] + show) + "\n",
                 cli(nx, nz, ranks, pr, ng, **opt), ranks, omp=threads(ranks)),
            Case("2-again", "\n".join(["cosmos beta 0", "cosmos dectime -1", "outdir @shared", f"readconf {idx} 0"] + show) + "\n", cli(nx, nz, ranks, pr, ng, **opt), ranks, omp=threads(ranks))]
    return MultiCase(f"read-t{ft}-p{prec}-g{ng}-r{r0}to{ranks}-{lx}x{tz}to{nx}x{nz*ranks}-{i}", runs, {"eps": "1e-11" if prec == 8 else "2e-5"}, shared=True)

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    for r in range(reps):
        for ft in (SAXION, AXION):
            for prec in (4, 8):
                for w in ("mv", "mv", "mv", "m2", "m2"): out.append(direct(rnd, len(out), ft, prec, w))
                for fin in (False, True, True): out.append(reread(rnd, len(out), ft, prec, fin))
    return out

def energies(seed, reps):
    """reduced energy maps of a measurement"""
    import meas
    rnd = random.Random(seed + 77)
    what = lambda r, ft: [(meas.RED | r.choice([0, meas.EMAP, meas.PSP, meas.CON]), 0, 0, 0)] + ([(meas.EMAP, 0, 0, 0)] if r.random() < 0.5 else [])
    return [meas.one(rnd, r, ft, prec, what, cubic=True) for r in range(reps) for ft in (SAXION, AXION) for prec in (4, 8)]

def run(chk):
    chk.model("ReduceMC")
    chk.conform("ReduceTrace", build(SEED, 8 if THOROUGH else 1), tlc_timeout=800)
    chk.conform("MeasureTrace", energies(SEED, 8 if THOROUGH else 1), tlc_timeout=800)
