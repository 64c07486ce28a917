"""Spectra and smoothing in Fourier space against Spectra.tla."""
from evo import *
from P08 import phases

def vacuum(d, pot, R):
    """displacement of the origin by the QCD potential"""
    if pot & 63 != 2: return 0.0
    a = d["indi3"]**2*min(R, d["zthres"])**d["nqcd"]/(d["lam"]/R**d["lz2e"])
    x = 1 + a
    for _ in range(100):
        if pot & 2048: x -= (2*(x**7 - x**3) - a)/(14*x**6 - 6*x**2)
        else: x -= (x**3 - x - a)/(3*x*x - 1)
    return (x - 1)*R

def resolved(m, n, shift):
    """no site near enough to a zero of the field for the tabulated correction"""
    c = m.reshape(n, n, n, 2) - [shift, 0]
    ok = np.zeros((n, n, n), bool)
    for a in range(3):
        ok |= (np.abs(c) > 1.2*np.abs(np.roll(c, -1, a) - np.roll(c, 1, a))).any(-1)
    return ok.all()

def cube(rnd, ft, prec, ng, ranks, fold):
    sh = shift(AXION if ft != SAXION else SAXION, prec)
    ok = [x for x in (6, 8, 10, 12, 16) if x % ranks == 0 and x//ranks >= ng and fft_ok(x, x//ranks, ranks, ng) and x % sh == 0 and (not fold or x//sh >= 2*ng)]
    return rnd.choice(ok) if ok else None

def shells(rnd, n):
    nat = int(math.sqrt(3)*(n//2)) + 1
    return rnd.choice([-1, -1, -1, nat, 2*nat, next(x for x in rnd.sample(range(3, 3*nat), 3*nat - 3) if math.gcd(x, nat) == 1)])

def one(rnd, i, op, ft, prec, mask, what, pot):
    rng = np.random.default_rng(rnd.randrange(2**31))
    ng, ranks, fold = rnd.choice([1, 1, 2]), rnd.choice([1, 1, 2, 3, 4]), rnd.random() < 0.4
    n = None
    while n is None:
        n = cube(rnd, ft, prec, ng, ranks, fold)
        if n is None: ranks, fold, ng = rnd.choice([1, 2]), fold and rnd.random() < 0.7, 1
    N = n**3
    z = rnd.uniform(0.8, 2.5)
    d = bg(rnd, 1, zi=z, L=rnd.uniform(0.3, 1.5)*n)
    if rnd.random() < 0.3: d["zthres"] = (0.8*z)**d["frw"] if d["frw"] > 0 else 100.0
    R = z**d["frw"]
    if pot & 63 == 2: d["indi3"] = math.sqrt(rnd.uniform(0.01, 3.0)*d["lam"]/R**d["lz2e"]/min(R, d["zthres"])**d["nqcd"])
    nb = shells(rnd, n)
    s = lines(d, pot) + [f"scalar {n} {n//ranks} {prec} {ft} 1 0 {ng}", "load m @m@", "load v @v@"]
    files = {}
    if ft == SAXION:
        while True:
            kind = rnd.choice(["random", "strings", "gentle"]) if not (op == "axion" and what & 3) else rnd.choice(["gentle", "gentle", "smooth"])
            th = phases(kind, rng, n, n) + rng.uniform(-3, 3)
            rho = R*(rng.uniform(0.4, 1.6, N) if kind not in ("gentle", "smooth") else 1 + 0.2*np.cos(phases("gentle", rng, n, n)))
            files["m"] = np.column_stack([rho*np.cos(th), rho*np.sin(th)]).ravel()
            if not (op == "axion" and what & 3) or resolved(files["m"], n, vacuum(d, pot, R)): break
        files["v"] = rng.standard_normal(2*N)*R
    else:
        files["m"] = (phases("smooth", rng, n, n) if rnd.random() < 0.5 else rng.uniform(-3.1, 3.1, N))*R
        files["v"] = rng.standard_normal(N)*R
    if mask in (8, 1024) and op in ("axion", "saxion"):
        files["str"] = np.where(rng.random(N) < rnd.choice([0.02, 0.3]), 128, 0) + rng.integers(0, 128, N)
        s += ["loadstr @str@", f"setsd {4 if ft == SAXION else 8}"]
    if op in ("power", "smooth"):
        files["m2"] = np.exp(rng.standard_normal(N)*rnd.choice([0.1, 1.0]))
        s += ["load er @m2@", "setm2 0"]
    if fold: s.append("fold fold")
    if op == "smooth":
        k0 = 2*math.pi/d["L"]
        what = math.sqrt(rnd.randrange(1, 3*(n//2)**2) + 0.5)/1.0 if mask == 2 else None    # the cut falls between two wave numbers
        what = 1/(k0*what) if mask == 2 else rnd.uniform(0.05, 1.5)/k0
    for j in range(rnd.choice([1, 2])): s.append(f"spec {op} {mask} {what if op != 'smooth' else repr(what)} {nb} {rnd.choice([0, 1])}")
    s += ["fold unfold", "dump m", "dump v"]
    return Case(f"{op}-t{ft}-m{mask}-w{what if op != 'smooth' else ''}-q{pot & 63}-p{prec}-n{n}-b{nb}-g{ng}-r{ranks}-{i}", "\n".join(s) + "\n",
                cli(n, n//ranks, ranks, "double" if prec == 8 else "single", ng), ranks,
                {"eps": "1e-10" if prec == 8 else "2e-5", "nb": nb}, files, omp=rnd.choice([1, 2, 4]))

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    for r in range(reps):
        for prec in (4, 8):
            pots = [V_PQ1 + 2, 2048 + 1, V_PQ1 + 1, 512 + 2, V_PQ1 + 32, V_PQ1 + 8]
            rnd.shuffle(pots)
            pot = lambda: pots[rnd.randrange(len(pots))]
            for mask in (1, 2, 4, 8):
                out.append(one(rnd, r, "axion", SAXION, prec, mask, rnd.choice([7, 7, 1, 2, 4]), pot()))
                out.append(one(rnd, r, "axion", SAXION, prec, mask, rnd.choice([112, 112, 16, 32, 64]), pot()))
                out.append(one(rnd, r, "saxion", SAXION, prec, mask, rnd.choice([7, 7, 1, 2, 4]), pot()))
            for ft in (AXION, AXMOD):
                for mask in (1, 1024):
                    out.append(one(rnd, r, "axion", ft, prec, mask, rnd.choice([15, 7, 1, 2, 8, 240]), V_PQ1 + rnd.choice([1, 2, 32])))
            ft = rnd.choice([SAXION, AXION])
            for op in ("modes", "avek", "power", "power"): out.append(one(rnd, r, op, rnd.choice([SAXION, AXION]), prec, 0, 0, V_PQ1 + 2))
            for mask in (0, 1, 2): out.append(one(rnd, r, "smooth", rnd.choice([SAXION, AXION]), prec, mask, 0, V_PQ1 + 2))
    return out

def run(chk):
    chk.model("SpectraMC")
    chk.conform("SpectraTrace", build(SEED, 8 if THOROUGH else 1), tlc_timeout=800)
