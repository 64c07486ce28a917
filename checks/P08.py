"""Conversions between field representations and pointwise operations against Convert.tla."""
from evo import *

def smooth_phase(rng, lx, tz, amp, k=None):
    """sum of a few long plane waves: single-valued, larger than a turn, small steps between neighbours"""
    z, y, x = np.meshgrid(np.arange(tz), np.arange(lx), np.arange(lx), indexing="ij")
    th = np.zeros((tz, lx, lx))
    for _ in range(3):
        kx, ky = rng.integers(-1, 2), rng.integers(-1, 2)
        kz = rng.integers(-1, 2) if tz >= 8 else 0
        if kx == ky == kz == 0: kx = 1
        th += rng.uniform(0.5, 1)*np.cos(2*np.pi*(kx*x/lx + ky*y/lx + kz*z/tz) + rng.uniform(0, 6.28))
    step = max(np.abs(np.roll(th, 1, a) - th).max() for a in range(3))
    th *= rng.uniform(0.55, 0.9)*np.pi/step*amp
    return (th + rng.uniform(-3, 3)).ravel()

def strings(rng, lx, tz):
    """a pair of straight strings along z, a loop-like perturbation and noise"""
    z, y, x = np.meshgrid(np.arange(tz), np.arange(lx), np.arange(lx), indexing="ij")
    a = np.arctan2(np.sin(2*np.pi*(y - lx/2 + 0.3)/lx), np.sin(np.pi*(x - lx/4 + 0.2)/lx))
    b = np.arctan2(np.sin(2*np.pi*(y - lx/2 + 0.3)/lx), np.sin(np.pi*(x - 3*lx/4 + 0.2)/lx))
    return (a - b + 0.2*np.cos(2*np.pi*z/tz) + 0.1*rng.standard_normal(a.shape)).ravel()

def phases(kind, rng, lx, tz):
    if kind == "smooth": return smooth_phase(rng, lx, tz, 1.0)
    if kind == "gentle": return smooth_phase(rng, lx, tz, 0.3)
    if kind == "strings": return strings(rng, lx, tz)
    if kind == "random": return rng.uniform(-np.pi, np.pi, lx*lx*tz)
    raise KeyError(kind)

def setup(rnd, ft, prec, ng, ranks, low=0, big=1200, minlx=None):
    lx, lz = geometry(rnd, ft, prec, ng, ranks, big)
    if minlx:
        sh = shift(AXION, prec)
        lx = rnd.choice([x for x in range(minlx, 25, sh)][:2])
        lz = rnd.choice([4, 6, 8, 9]) if ranks == 1 else rnd.choice([z for z in (3, 4, 5) if fft_ok(lx, z, ranks, ng)] or [2])
    z = rnd.uniform(0.8, 2.5)
    d = bg(rnd, 1, zi=z, L=rnd.uniform(0.5, 1.5)*lx)
    if d["frw"] > 0 and rnd.random() < 0.4:
        d["zthres"] = (z*rnd.choice([0.8, 1.2]))**d["frw"]
        if rnd.random() < 0.6:
            d["zrestore"], d["nqcdr"] = d["zthres"]*rnd.choice([1.05, 3.0]), rnd.choice([0.0, 4.0])
    return lx, lz, z, d, lines(d, V_PQ1 + 1) + [f"scalar {lx} {lz} {prec} {ft} 1 {low} {ng}"]

def finish(name, s, files, lx, lz, ranks, prec, ng, rnd):
    return Case(name, "\n".join(s) + "\n", cli(lx, lz, ranks, "double" if prec == 8 else "single", ng), ranks,
                {"eps": "1e-11" if prec == 8 else "1e-5"}, files, omp=rnd.choice([1, 2, 3]))

MV = ["dump m", "dump v"]

def to_theta(rnd, i, kind, prec, ng, ranks, low, mod):
    rng = np.random.default_rng(rnd.randrange(2**31))
    sh = shift(AXION, prec)
    lx, lz, z, d, s = setup(rnd, SAXION, prec, ng, ranks, low, minlx=max(8, 2*ng*sh))
    R = z**d["frw"]
    n = lx*lx*lz*ranks
    th = phases(kind, rng, lx, lz*ranks)
    sft = rnd.choice([0.0, 0.0, 0.05, 0.2])*R
    rho = R*rng.uniform(0.6, 1.4, n) if kind != "smooth" else R*np.ones(n)
    # the phase is the one seen from the shifted origin
    m = np.column_stack([rho*np.cos(th) + sft, rho*np.sin(th)]).ravel()
    s += ["load m @m@", "load v @v@"]
    if rnd.random() < 0.4: s.append("fold fold")
    s += [f"conv cmplx2theta {sft:.17g} {int(mod)}", "fold unfold"] + MV
    if not mod:
        if rnd.random() < 0.5: s.append("fold fold")
        s += ["conv mend", "fold unfold"] + MV
        if kind in ("smooth", "gentle"):
            s += ["conv mend", "fold unfold"] + MV
    return finish(f"theta-{kind}-p{prec}-g{ng}-r{ranks}-{i}" + ("-low" if low else "") + ("-mod" if mod else ""), s,
                  {"m": m, "v": rng.standard_normal(2*n)*R}, lx, lz, ranks, prec, ng, rnd)

def mend(rnd, i, kind, prec, ng, ranks):
    rng = np.random.default_rng(rnd.randrange(2**31))
    sh = shift(AXION, prec)
    lx, lz, z, d, s = setup(rnd, AXION, prec, ng, ranks, 0, minlx=max(8, 2*ng*sh))
    R = z**d["frw"]
    n = lx*lx*lz*ranks
    th = phases(kind, rng, lx, lz*ranks)
    wrapped = th - 2*np.pi*np.round(th/(2*np.pi))
    if kind in ("smooth", "gentle") and rnd.random() < 0.6:   # whole turns anywhere, not only where the phase crosses
        wrapped += 2*np.pi*rng.integers(-2, 3, n)
    s += ["load m @m@", "load v @v@", "conv mend", "fold unfold"] + MV + ["conv mend", "fold unfold"] + MV
    return finish(f"mend-{kind}-p{prec}-g{ng}-r{ranks}-{i}", s, {"m": wrapped*R, "v": rng.standard_normal(n)*R}, lx, lz, ranks, prec, ng, rnd)

def amplitude(rnd, i, op, prec, ng, ranks):
    rng = np.random.default_rng(rnd.randrange(2**31))
    lx, lz, z, d, s = setup(rnd, AXION if op == "paxion" else SAXION, prec, ng, ranks)
    n = lx*lx*lz*ranks
    if op == "naxion": s.append("setfield 2")            # reached from a field that had room for complex numbers
    s += ["load m @m@", "load v @v@"]
    if rnd.random() < 0.4: s.append("fold fold")
    s += [f"conv {op}", "fold unfold", "dump m"] + (["dump v"] if op == "paxion" else [])
    return finish(f"{op}-p{prec}-g{ng}-r{ranks}-{i}", s, {"m": rng.standard_normal(n), "v": rng.standard_normal(n)}, lx, lz, ranks, prec, ng, rnd)

def complexify(rnd, i, op, prec, ng, ranks):
    rng = np.random.default_rng(rnd.randrange(2**31))
    lx, lz, z, d, s = setup(rnd, SAXION, prec, ng, ranks)
    n = lx*lx*lz*ranks
    c = 2 if op == "theta2cmplx" else 1
    s += ["load m @m@", "load v @v@"] if c == 2 else ["load mr @m@", "load vr @v@"]
    s += [f"conv {op}"] + MV
    if rnd.random() < 0.5:
        s += ["conv cmplx2theta 0 0", "fold unfold"] + MV
    return finish(f"{op}-p{prec}-g{ng}-r{ranks}-{i}", s, {"m": 2*rng.standard_normal(c*n), "v": rng.standard_normal(c*n)}, lx, lz, ranks, prec, ng, rnd)

def pointwise(rnd, i, op, ft, prec, ng, ranks):
    rng = np.random.default_rng(rnd.randrange(2**31))
    lx, lz, z, d, s = setup(rnd, ft, prec, ng, ranks)
    R, c = z**d["frw"], COMPS[ft]
    n = lx*lx*lz*ranks
    files = {"m": complex_field(rng, n, R) if c == 2 else rng.standard_normal(n), "v": rng.standard_normal(c*n), "w": rng.standard_normal(c*n)}
    s += ["load m @m@", "load v @v@", "load m2 @w@"]
    if op == "scale":
        for w in rnd.sample(["m", "v", "m2"], 3):
            if rnd.random() < 0.3: s.append("fold fold")
            s += [f"conv scale {w} {rnd.choice([0.5, -1.25, 3.0, rnd.uniform(0.1, 4)]):.17g}", "fold unfold"] + MV + ["dump m2"]
    else:
        s += [f"conv {op}"] + MV
    return finish(f"{op}-{ft}-p{prec}-g{ng}-r{ranks}-{i}", s, files, lx, lz, ranks, prec, ng, rnd)

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    nr = lambda: rnd.choice([1, 1, 2, 3])
    for r in range(reps):
        for kind in ("smooth", "gentle", "strings", "random"):
            for prec in (4, 8):
                ng, ranks = rnd.choice([1, 1, 2]) if prec == 8 else 1, nr()
                out.append(to_theta(rnd, r, kind, prec, ng, ranks, rnd.choice([0, 1]), False))
                out.append(mend(rnd, r, kind, prec, rnd.choice([1, 2]) if prec == 8 else 1, nr()))
        for prec in (4, 8):
            out.append(to_theta(rnd, r, "random", prec, 1, nr(), rnd.choice([0, 1]), True))
            for op in ("naxion", "paxion"):
                for j in range(2):
                    out.append(amplitude(rnd, f"{r}.{j}", op, prec, 1 if op == "paxion" else rnd.choice([1, 2]), nr()))
            for op in ("theta2cmplx", "ctheta2cmplx"):
                out.append(complexify(rnd, r, op, prec, rnd.choice([1, 2]), nr()))
            for op in ("norm", "core"):
                out.append(pointwise(rnd, r, op, SAXION, prec, rnd.choice([1, 2]), nr()))
            for ft in (SAXION, AXION, PAXION):
                out.append(pointwise(rnd, r, "scale", ft, prec, rnd.choice([1, 2, 3]) if ft == SAXION else 1, nr()))
    return out

def run(chk):
    chk.conform("ConvertTrace", build(SEED, 8 if THOROUGH else 1), tlc_timeout=800)
