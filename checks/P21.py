"""Initial configurations, against Initial.tla."""
from evo import *

def cells(rnd, prec, ranks, cap=1100):
    sh = shift(SAXION, prec)
    ok = [(n, z) for n in (4, 6, 8, 10, 12) for z in (2, 3, 4, 5, 6, 8) if n % ranks == 0 and n % sh == 0 and n//sh >= 2 and fft_ok(n, z, ranks, 1) and z <= n and n*n*z*ranks <= cap]
    return rnd.choice(ok)

TAIL = ["fold unfold", "dump m", "dump v"]

def case(rnd, i, name, prec, body, meta=None, files=None, mink=None, ranks=None, frw=None, cap=1100, cells_=None, size=(0.5, 1.0)):
    ranks = ranks or rnd.choice([1, 1, 2, 4])
    n, lz = cells_ or cells(rnd, prec, ranks, cap)
    z = rnd.uniform(0.8, 2.0)
    d = bg(rnd, 1, zi=z, L=rnd.uniform(*size)*n)
    if mink is not None: d["mink"] = mink
    if frw is not None: d["frw"] = frw
    s = lines(d, V_PQ1 + 2) + [f"scalar {n} {lz} {prec} 1 1 0 1"] + (body(n, lz*ranks, d, z) if callable(body) else body)
    return Case(f"{name}-p{prec}-n{n}x{lz}-r{ranks}-{i}", "\n".join(s) + "\n", cli(n, lz, ranks, "double" if prec == 8 else "single", None), ranks,
                {"eps": "1e-6" if prec == 8 else "2e-5", **(meta or {})}, files, omp=rnd.choice([1, 2, 4]))

def shape(rnd, i, prec, kind):
    """a configuration that leaves nothing to chance"""
    q = {"kmax": rnd.choice([1, 2, 3]), "mode0": rnd.choice([0.3, 1.0, 2.2, -0.7]), "kcr": rnd.uniform(0.1, 1.2)}
    meta, files = {}, {}
    if kind in (1, 2): q["mode0"] = rnd.choice([0, 0.2501, 0.3077] if prec == 8 else [0.3077, 0.2813])     # (far enough from any site for single precision)
    if kind in (1, 2) and prec == 4: meta["eps"] = "2e-4"                  # (the loop's formula cancels near the string)
    if kind == 10: q["kmax"] = rnd.choice([1, 2])                          # (string axes exactly on sites or well away from them)
    def body(n, T, d, z):
        if kind == 1: q["kcr"] = rnd.choice([0, 1, 2, T//2, T - 1]) + rnd.choice([0, 0.37])
        if kind == 8: q["kcr"] = rnd.uniform(0.5, 1.5)
        o = " ".join(f"{k} {v:.17g}" for k, v in q.items())
        return [f"genconf ctype 1 smvar {kind} {o} siter {rnd.choice([0, 0, 1, 3])} alpha {rnd.choice([0.143, 0.5, 0.9])} kick {rnd.choice([0, 0, 0.25])} normcore {rnd.choice([0, 0, 1]) if kind not in (8,) else 0}"] + TAIL
    if kind in (8, 10) and rnd.random() < 0.6:
        w = [rnd.randrange(-2, 4) for _ in range(3)]
        files["kkk.dat"] = " ".join(map(str, w)) + "\n"; meta["wave"] = [str(x) for x in w]
    return case(rnd, i, f"shape{kind}", prec, body, meta, files, frw=rnd.choice([1, 1, 2, 0.5]))

def noise(rnd, i, prec, kind):
    q = f"mode0 {rnd.choice([0.4, 1.1, -2.0])} kcr {rnd.choice([0.1, 0.5, 0.9])}"
    return case(rnd, i, f"noise{kind}", prec, [f"genconf ctype 1 smvar {kind} {q} siter {rnd.choice([0, 0, 2])} kick {rnd.choice([0, 0.25])}"] + TAIL, frw=rnd.choice([1, 2]))

def modes(rnd, i, prec, ctype):
    core = rnd.choice([0, 1]) if ctype != 32 else 0
    q = f"kmax {rnd.choice([2, 3])} kcr {rnd.choice([1.0, 1.5])} logi {rnd.uniform(1.5, 3):.3f} moco {rnd.choice([0, 1, 4, 8, 16])} kick {rnd.choice([0, 0.25]) if ctype in (4, 128, 256) else 0} normcore {core}"
    meta = {"into": 1}
    if ctype == 32: q = f"kmax 2 kcr {rnd.choice([1e-4, 1e-3, 1e-2])} normcore 0"; meta["kmax"] = 2
    if ctype == 256: q += " kcr %.3f" % rnd.uniform(0.5, 1.0) + " normcore 0"
    if ctype == 256 and rnd.random() < 0.6: meta["extrav"] = "%.3f" % rnd.uniform(0.2, 1); q += " extrav " + meta["extrav"]
    return case(rnd, i, f"modes{ctype}", prec, [f"genconf ctype {ctype} {q}"] + TAIL, meta, mink=0, frw=1, size=(0.15, 0.3) if ctype in (4, 128) else (0.5, 1.0))

def spectrum(rnd, i, prec, into):
    t = [rnd.uniform(0.1, 1) for _ in range(40)]; v = [rnd.uniform(0.1, 1) for _ in range(40)]
    txt = "".join(f"{a:.17g} {b:.17g}\n" for a, b in zip(t, v))
    return case(rnd, i, f"spectrum{into}", prec, [f"genconf ctype 512 ftype {into} randommom 0 kmax 2 kcr 1 logi 2 siter 1"] + TAIL,
                {"into": into, "table": [f"{a:.17g}" for a in t], "vtable": [f"{a:.17g}" for a in v]}, {"initialspectrum.dat": txt}, mink=0, frw=1)

def smoothing(rnd, i, prec):
    rng = np.random.default_rng(rnd.randrange(2**31))
    n, lz, r = rnd.choice([(4, 3, 1), (8, 2, 2), (8, 5, 1), (4, 2, 4), (12, 3, 2)] if prec == 8 else [(8, 2, 2), (8, 5, 1), (8, 2, 4), (16, 2, 1)])
    a = rng.standard_normal(2*n*n*lz*r)
    return case(rnd, i, "smooth", prec, ["load m @m@", f"smooth {rnd.choice([1, 2, 5])} {rnd.choice([0, 0.143, 0.5, 1, 1.3])}", "dump m"], {"eps": "1e-12" if prec == 8 else "2e-6"},
                {"m": a if prec == 8 else np.float32(a)}, ranks=r, cells_=(n, lz))

def momenta(rnd, i, prec, moco):
    cplx = 1 if moco in (2, 8) else 0 if moco == 2048 else rnd.choice([0, 1])
    z0 = rnd.choice([10, 10, 0.7, 2.5])
    return case(rnd, i, f"mom{moco}", prec, [f"momconf {moco} {rnd.choice([1, 2, 3, 100])} {rnd.uniform(0.8, 3):.3f} {cplx} {rnd.choice([0, 0, 1])} {z0}"], {"eps": "1e-6" if prec == 8 else "1e-5"})

def pre(rnd, i, prec, kind):
    """made earlier and relaxed up to zi"""
    q = {"kmax": rnd.choice([1, 2]), "mode0": rnd.choice([0.3, 1.0, 2.2, -0.7]), "kcr": rnd.uniform(0.1, 1.2)}
    if kind in (1, 2): q["mode0"] = 0.3077
    if kind == 8: q["kcr"] = rnd.uniform(0.5, 1.5)
    pot = V_PQ1 + rnd.choice([1, 2, 8, 32]) + rnd.choice([0, THETA, RHO, DRHO, DRHO + RHO, DALL])
    def body(n, T, d, z):
        if kind == 1: q["kcr"] = rnd.choice([0, 1, T//2]) + 0.37
        o = " ".join(f"{k} {v:.17g}" for k, v in q.items())
        return [f"genconf ctype 1 smvar {kind} {o} siter {rnd.choice([0, 1, 2])} alpha {rnd.choice([0.143, 0.5])} normcore {rnd.choice([0, 1])} preprop 1 prepcoe {rnd.uniform(1.05, 1.25):.6g} "
                f"prelz2e {rnd.choice([0, 1, 2, 4])} pregam {rnd.choice([0, 0.3, 2])} prevtype {pot}"] + TAIL
    return pcase(rnd, i, f"pre{kind}", prec, body)

def prerandom(rnd, i, prec, ctype):
    q = f"kmax 2 kcr 1 logi 2.5 moco {rnd.choice([0, 1, 4])} normcore {rnd.choice([0, 1])} preprop 1 prepcoe {rnd.choice([1.5, 2])} prelz2e {rnd.choice([0, 2])} pregam {rnd.choice([0, 0.3])} prevtype {V_PQ1 + 2 + RHO + DRHO}"
    return pcase(rnd, i, f"pre-modes{ctype}", prec, [f"genconf ctype {ctype} {q}"] + TAIL, mink=0, frw=1, size=(0.15, 0.3))

def pcase(*a, **k):
    c = case(*a, cap=520, **k)
    c.module = "PreTrace"
    return c

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    for r in range(reps):
        for prec in (4, 8):
            out += [shape(rnd, len(out) + j, prec, k) for j, k in enumerate((1, 2, 3, 4, 7, 8, 9, 10))]
            out += [noise(rnd, len(out) + j, prec, k) for j, k in enumerate((0, 5, 6))]
            out += [modes(rnd, len(out) + j, prec, k) for j, k in enumerate((2, 4, 32, 128, 256))]
            out += [spectrum(rnd, len(out) + j, prec, t) for j, t in enumerate((1, 2))]
            out += [smoothing(rnd, len(out) + j, prec) for j in range(2)]
            out += [momenta(rnd, len(out) + j, prec, k) for j, k in enumerate((0, 1, 2, 4, 8, 16, 1040, 2048))]
            out += [pre(rnd, len(out) + j, prec, rnd.choice([1, 2, 3, 4, 7, 8, 9, 10])) for j in range(4)]
            out += [prerandom(rnd, len(out) + j, prec, k) for j, k in enumerate((4, 128))]
    return out

def run(chk):
    chk.model("InitialMC")
    chk.model("PreMC")
    chk.conform("InitialTrace", build(SEED*21011, 8 if THOROUGH else 1), tlc_timeout=800)
