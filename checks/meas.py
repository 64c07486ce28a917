"""Cases of measurements: a field, measured one or more times with any request, the files read back whole."""
from evo import *
from P08 import phases
from P14 import decided
from P16 import cube, vacuum, resolved
T, RHO_, LOG, CON, STRS, SMAP, SCOO, EN, EMAP, RED, PSP, NSPA, NSPS, NN, MULTI = 1, 2, 4, 8, 32, 64, 128, 256, 512, 1024, 16384, 65536, 131072, 262144, 524288
XY, YZ, PE, PE2, XYE = 5, 48, 1024, 2048, 65536

def some(rnd, bits, k=None):
    n = 0
    for b in rnd.sample(bits, k if k is not None else rnd.randrange(len(bits) + 1)): n |= b
    return n

def one(rnd, i, ft, prec, request, cubic=False, ranks=None, ng=None, ordered=0):
    """request(rnd, ft) -> list of (what, maps, nrt, strmeas); ordered is how often the values rise or fall along the lattice"""
    rng = np.random.default_rng(rnd.randrange(2**31))
    while True:
        ng_, ranks_, fold = ng or rnd.choice([1, 1, 2]), ranks or rnd.choice([1, 1, 2, 3, 4]), rnd.random() < 0.4
        if cubic:
            n = cube(rnd, ft, prec, ng_, ranks_, True)
            if n is None: continue
            lx, lz = n, n//ranks_
        else: lx, lz = geometry(rnd, ft, prec, ng_, ranks_, 900)
        break
    ng, ranks = ng_, ranks_
    N, tz = lx*lx*lz*ranks, lz*ranks
    z = rnd.uniform(0.8, 2.5)
    reqs = request(rnd, ft)
    pot = V_PQ1 + rnd.choice([1, 2, 2, 32])
    d = bg(rnd, 1, zi=z, L=rnd.uniform(0.5, 1.5)*lx)
    R = z**d["frw"]
    if pot & 63 == 2: d["indi3"] = math.sqrt(rnd.uniform(0.01, 3.0)*d["lam"]/R**d["lz2e"]/min(R, d["zthres"])**d["nqcd"])
    s = lines(d, pot) + ["outdir .", f"global zinit {z:.17g}", f"global zfinl {3*z:.17g}", f"global nsteps {rnd.randrange(1, 500)}", f"global dump {rnd.randrange(1, 50)}",
                         f"scalar {lx} {lz} {prec} {SAXION if ft == NAXION else ft} 1 0 {ng}", *([f"setfield 2", "setfield 512"] if ft == NAXION else []), "load m @m@", "load v @v@"]
    files, omp = {}, rnd.choice([1, 2, 4])
    corrected = any(r[0] & (NSPA | NSPS) and r[2] & 3 for r in reqs)
    def draw(tag):
        """another field, under another name"""
        way = rnd.choice([1, -1]) if ordered and rnd.random() < ordered else 0
        own = N//ranks - 1                # the rise starts where a thread of some rank takes up its part
        t = rnd.randrange(omp)
        at = rnd.randrange(ranks)*(own + 1) + rnd.choice([0] + [1 + t*(own//omp) + min(t, own % omp)]*3)
        if ft in (SAXION, NAXION):
            while True:
                kind = rnd.choice(["gentle", "gentle", "smooth"] if corrected else ["random", "strings", "gentle", "smooth"])
                th = phases(kind, rng, lx, tz) + rng.uniform(-3, 3)
                rho = R*(1 + 0.2*np.cos(phases("gentle", rng, lx, tz)) if corrected else rng.uniform(0.4, 1.6, N))
                if way: rho, th = np.roll(np.sort(rho)[::way], at), np.roll(np.sort(rng.uniform(-3.1, 3.1, N))[::way], at)
                m = np.column_stack([rho*np.cos(th), rho*np.sin(th)]).ravel()
                if prec == 4: m = m.astype(np.float32).astype(float)
                if decided(m, lx, tz) and (not corrected or resolved(m, lx, vacuum(d, pot, R))): break
            files["m" + tag], files["v" + tag] = m, rng.standard_normal(2*N)*R
        else:
            files["m" + tag] = (phases("smooth", rng, lx, tz) if rnd.random() < 0.5 else rng.uniform(-3.1, 3.1, N))*R
            if way: files["m" + tag] = np.roll(np.sort(files["m" + tag])[::way], at)
            files["v" + tag] = rng.standard_normal(N)*R
    draw("")
    used = []
    for j, (what, maps, nrt, sm) in enumerate(reqs):
        if maps: what |= 2048
        idx = rnd.choice([j, j, 10*j + rnd.randrange(1, 9), 100*j + 7]) if rnd.random() < 0.8 else j
        while idx in used: idx += 1
        used.append(idx)
        sl = rnd.randrange(lx if maps & YZ and not maps & (XY | XYE) else min(lx, tz))
        nb = -1 if rnd.random() < 0.7 else rnd.randrange(3, 20)
        if rnd.random() < 0.3: s.append("fold fold") if fold else None
        red = rnd.choice([r for r in range(2, lx + 1) if lz*r//lx > 0]) if what & RED else 0
        s.append(f"measure {idx} {what} {maps} 1 {nrt} {sm} {sl} {red} {nb}")
        if what: s.append(f"h5all axion.m.{idx:05d}")
        if j < len(reqs) - 1 and rnd.random() < 0.6:
            draw(str(j)); s += ["fold unfold", f"load m @m{j}@", f"load v @v{j}@"]
        if rnd.random() < 0.5 or j == len(reqs) - 1: s += ["fold unfold", "dump m", "dump v"]
    return Case(f"t{ft}-p{prec}-q{pot & 63}-n{lx}x{tz}-g{ng}-r{ranks}-{'_'.join(f'{w}.{mp}' for w, mp, *_ in reqs)}-{i}", "\n".join(s) + "\n",
                cli(lx, lz, ranks, "double" if prec == 8 else "single", ng), ranks,
                {"eps": "1e-10" if prec == 8 else "1e-4", "abs": "1e-13" if prec == 8 else "2e-6"}, files, omp=omp)
