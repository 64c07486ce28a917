"""Strings and walls of a complex field against Strings.tla."""
from evo import *
from P08 import phases

def turns(rng, lx, tz, name):
    """several kinds of phase with strings in them"""
    z, y, x = np.meshgrid(np.arange(tz), np.arange(lx), np.arange(lx), indexing="ij")
    if name == "pair": return phases("strings", rng, lx, tz)
    if name == "random": return phases("random", rng, lx, tz)
    if name == "waves":                         # a few random complex modes: smooth loops
        c = np.zeros((tz, lx, lx), complex)
        for _ in range(5):
            k = rng.integers(-2, 3, 3)
            c += (rng.standard_normal() + 1j*rng.standard_normal())*np.exp(2j*np.pi*(k[0]*x/lx + k[1]*y/lx + k[2]*z/tz))
        return np.angle(c).ravel()
    if name == "none": return phases("gentle", rng, lx, tz)*0.2
    if name == "along":                         # one straight pair along x or y
        a, b = (z/tz, y/lx) if rng.random() < 0.5 else (x/lx, z/tz)
        q = lambda u0: np.arctan2(np.sin(2*np.pi*(a - 0.37)), np.sin(np.pi*(b - u0)))
        return (q(0.27) - q(0.71)).ravel()
    raise KeyError(name)

def decided(m, lx, tz, t=1e-5):
    c = (m[0::2] + 1j*m[1::2]).reshape(tz, lx, lx)
    ph = np.angle(c)
    if (np.abs(np.abs(ph) - np.pi) < t).any() or (np.abs(ph) < t).any(): return False
    return all((np.abs(np.abs(np.angle(np.roll(c, -1, a)/c)) - np.pi) > t).all() for a in range(3))

def one(rnd, i, kind, prec, ng, ranks, low, big):
    rng = np.random.default_rng(rnd.randrange(2**31))
    lx, lz = geometry(rnd, SAXION, prec, ng, ranks, big)
    z = rnd.uniform(0.8, 2.5)
    d = bg(rnd, 1, zi=z, L=rnd.uniform(0.5, 1.5)*lx)
    R, n, tz = z**d["frw"], lx*lx*lz*ranks, lz*ranks
    files, s = {}, lines(d, V_PQ1 + 1) + [f"scalar {lx} {lz} {prec} 1 1 {low} {ng}"]
    for j, kd in enumerate((kind, "random") if rnd.random() < 0.4 else (kind,)):     # a second search sees nothing of the first
        while True:
            th = turns(rng, lx, tz, kd) + rng.uniform(-3, 3)
            rho = R*rng.uniform(0.3, 1.4, n)*(1 if rnd.random() < 0.7 else 1e-3)
            m = np.column_stack([rho*np.cos(th), rho*np.sin(th)]).ravel()
            if prec == 4: m = m.astype(np.float32).astype(float)
            if decided(m, lx, tz): break
        files[f"m{j}"], files["v"] = m, rng.standard_normal(2*n)*R
        s += [f"load m @m{j}@", "load v @v@"]
        if rnd.random() < 0.4: s.append("fold fold")
        coords = rnd.random() < 0.5 and not (low and kd == "random")    # a low-memory field has room for few coordinates
        s.append(f"strings {'coords' if coords else 'map'} {0 if coords and low else rnd.choice([0, 1, 2, 3, 3])}")
        if not (coords and low): s.append("dumpstr")
        s += ["fold unfold", "dump m", "dump v"]
    return Case(f"{kind}-p{prec}-g{ng}-r{ranks}-{i}" + ("-low" if low else ""), "\n".join(s) + "\n", cli(lx, lz, ranks, "double" if prec == 8 else "single", ng), ranks,
                {"eps": "1e-9" if prec == 8 else "2e-4"}, files, omp=rnd.choice([1, 2, 3]))

def lowcoords():
    """length asked for after the coordinates of a low-memory field"""
    rnd = random.Random(5)
    rng = np.random.default_rng(5)
    lx, lz, n = 12, 4, 12*12*4
    d = bg(rnd, 1, zi=1.0, L=12.0)
    th = turns(rng, lx, lz, "pair") + 0.5
    m = np.column_stack([np.cos(th), np.sin(th)]).ravel()
    s = lines(d, V_PQ1 + 1) + [f"scalar {lx} {lz} 8 1 1 1 1", "load m @m@", "load v @v@", "strings coords 1"]
    return Case("lowcoords-length", "\n".join(s) + "\n", cli(lx, lz, 1, "double", 1), 1, {"eps": "1e-9"}, {"m": m, "v": 0*m})

def absent(rnd, i, prec, ranks):
    rng = np.random.default_rng(rnd.randrange(2**31))
    lx, lz = geometry(rnd, AXION, prec, 1, ranks)
    n = lx*lx*lz*ranks
    d = bg(rnd, 1, zi=1.0, L=2.0)
    s = lines(d, V_PQ1 + 1) + [f"scalar {lx} {lz} {prec} 2 1 0 1", "load m @m@", "strings map 3", "strings coords 0", "fold unfold", "dump m"]
    return Case(f"axion-p{prec}-r{ranks}-{i}", "\n".join(s) + "\n", cli(lx, lz, ranks, "double" if prec == 8 else "single", 1), ranks, {"eps": "0"},
                {"m": 4*rng.standard_normal(n)})

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    for r in range(reps):
        for kind in ("pair", "random", "waves", "along", "none"):
            for prec in (4, 8):
                for ng in (1, 2) if kind != "none" else (1,):
                    out.append(one(rnd, r, kind, prec, ng, rnd.choice([1, 2, 3, 4]), rnd.choice([0, 0, 1]), 900 if not THOROUGH else rnd.choice([512, 900, 2500])))
        out.append(absent(rnd, r, rnd.choice([4, 8]), rnd.choice([1, 2])))
    return out + [lowcoords()]

def run(chk):
    chk.model("StringsMC")
    chk.conform("StringsTrace", build(SEED, 8 if THOROUGH else 1), tlc_timeout=800)
