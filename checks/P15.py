"""Energies and energy maps against Energy.tla."""
from evo import *
from P08 import phases

NAX = 1024

def one(rnd, i, ft, prec, ng, ranks, pot, what, low=0):
    rng = np.random.default_rng(rnd.randrange(2**31))
    lx, lz = geometry(rnd, AXION if ft != SAXION else SAXION, prec, ng, ranks, 512 if not THOROUGH else rnd.choice([512, 1500]))
    n, tz = lx*lx*lz*ranks, lz*ranks
    z = rnd.uniform(0.8, 2.5)
    d = bg(rnd, 1, zi=z, L=rnd.uniform(0.3, 1.5)*lx)
    if ft == NAX or (pot & 63) != 1: d["indi3"] = rnd.uniform(0.5, 2.0)
    if rnd.random() < 0.3: d["zthres"] = (0.8*z)**d["frw"] if d["frw"] > 0 else 100.0
    R = z**d["frw"]
    s = lines(d, pot) + [f"scalar {lx} {lz} {prec} {ft} 1 {low} {ng}", "load m @m@", "load v @v@"]
    files = {}
    if ft == SAXION:
        kind = rnd.choice(["random", "strings", "smooth"])
        th = phases(kind, rng, lx, tz) + rng.uniform(-3, 3)
        rho = R*rng.uniform(0.3, 1.6, n)
        files["m"] = np.column_stack([rho*np.cos(th), rho*np.sin(th)]).ravel()
        files["v"] = rng.standard_normal(2*n)*R*rnd.choice([0.3, 3.0])
    else:
        files["m"] = rng.uniform(-1, 1, n)*R*math.pi*(rnd.choice([1, 3]) if ft == AXION else 0.99)
        files["v"] = rng.standard_normal(n)*R*rnd.choice([0.3, 3.0])
    if what & 4:
        ins = rng.random(n) < rnd.choice([0.02, 0.3, 0.9])
        ins[rng.integers(n)] = True
        files["str"] = np.where(ins, 128, 0) + rng.integers(0, 128, n)
        s += ["loadstr @str@", "setsd 4"]
    for j in range(1 if rnd.random() < 0.7 else 2):      # asking twice gives the same
        if rnd.random() < 0.4: s.append(rnd.choice(["fold fold", "fold unfold"]))
        s.append(f"energy {what} {0 if rnd.random() < 0.4 or ft != SAXION else rnd.uniform(-0.2, 0.2)*R:.17g}")
        if what & 4: s.append("setsd 4")
    s += ["fold unfold", "dump m", "dump v"]
    return Case(f"t{ft}-w{what}-q{pot & 63}-h{pot & 3584}-p{prec}-g{ng}-r{ranks}-{i}" + ("-low" if low else ""), "\n".join(s) + "\n",
                cli(lx, lz, ranks, "double" if prec == 8 else "single", ng), ranks,
                {"eps": "1e-10" if prec == 8 else "1e-4", "abs": "1e-14" if prec == 8 else "2e-6"}, files, omp=rnd.choice([1, 2, 4]))

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    ranks = lambda: rnd.choice([1, 1, 2, 3])
    for r in range(reps):
        hats, tilts = [1024, 2048, 512], [1, 2, 4, 8, 32]
        rnd.shuffle(hats); rnd.shuffle(tilts)
        pots = [hats[j % 3] + tilts[j % 5] for j in range(15)]; rnd.shuffle(pots)
        todo = iter(pots*3)
        for prec in (4, 8):
            for what in (1, 3, 3, 4, 5, 6, 7):
                out.append(one(rnd, r, SAXION, prec, rnd.choice([1, 1, 2]), ranks(), next(todo), what))
            out.append(one(rnd, r, SAXION, prec, rnd.choice([1, 2]), ranks(), next(todo), rnd.choice([1, 4]), 1))
            for ft in (AXION, AXMOD):
                for what in (1, 3):
                    out.append(one(rnd, r, ft, prec, rnd.choice([1, 1, 2, 3]), ranks(), V_PQ1 + rnd.choice([1, 2, 32]), what))
            out.append(one(rnd, r, NAX, prec, rnd.choice([1, 2]), ranks(), V_PQ1 + 2, 3))
    return out

def run(chk):
    chk.model("EnergyMC")
    chk.conform("EnergyTrace", build(SEED, 8 if THOROUGH else 2), tlc_timeout=800)
