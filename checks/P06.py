"""The result of a history does not depend on ranks, threads, tuning, storage order or memory saving: Twin.tla."""
from evo import *
from runner import MultiCase

def sizes(rnd, ft, prec, ng):
    sh = shift(ft, prec)
    tz = rnd.choice([12, 24] if ng < 3 else [12])
    lx = sh*rnd.choice([x for x in (2, 3, 4, 5, 6, 8) if x >= 2*ng and (x*sh) % 2 == 0 and x*sh*x*sh*tz <= 40000] or [2*ng])
    return lx, tz

def case(rnd, i, ft, prec, ng):
    rng = np.random.default_rng(rnd.randrange(2**31))
    lx, tz = sizes(rnd, ft, prec, ng)
    n = lx*lx*tz
    mode = rnd.choice([0, DRHO, DALL]) if ft == SAXION else 0
    pot = V_PQ1 + (rnd.choice([1, 2, 8, 32]) if ft == SAXION else rnd.choice([1, 2, 16])) + mode
    d = bg(rnd, 1, zthres=rnd.choice([100.0, 2.0]))
    z, a = rnd.uniform(0.8, 2.0), rnd.uniform(0.5, 1.0)
    R = z**d["frw"]
    d["L"], d["zi"], d["beta"] = a*lx, z, 0.0
    d["gamma"] = rnd.uniform(0.3, 2.0) if mode else 0.0
    mA = d["indi3"]*min(R, d["zthres"])**(d["nqcd"]/2)
    dz0 = 0.3*2*mA*R*a*a/12 if ft in (NAXION, PAXION) else 0.4*a/math.sqrt(12+8*d["lam"]*a*a*R*R)
    dz0 = min(dz0, 0.2*z)
    if ft == SAXION:
        files = {"m": complex_field(rng, n, R), "v": rng.standard_normal(2*n)*R}
    elif ft == NAXION:
        files = {"m": rng.standard_normal(2*n)}
    else:
        files = {"m": rng.uniform(-math.pi, math.pi, n)*R, "v": rng.standard_normal(n)}
    def script(lz, low, tune, fold):
        s = lines(d, pot)
        s += [f"scalar {lx} {lz} {prec} 1 0 0 {ng}", "setfield 2", "setfield 512"] if ft == NAXION else [f"scalar {lx} {lz} {prec} {ft} 0 {low} {ng}"]
        s += ["load m @m@"] + ([] if ft == NAXION else ["load v @v@"]) + ([f"fold {fold}"] if fold else []) + [f"initprop 136 {pot} {ng}"]
        if tune:
            s += ["tune"]
        s += ["fold unfold", "dump m"] + ([] if ft == NAXION else ["dump v"])
        for b in range(2):
            s += [f"propagate {dz0:.17g} {2+b}"] + (["tune"] if tune and b == 0 and rnd.random() < 0.3 else [])
            s += ["fold unfold", "dump m"] + ([] if ft == NAXION else ["dump v"])
        return "\n".join(s) + "\n"
    runs = []
    divs = [r for r in (1, 2, 3, 4, 6) if tz % r == 0 and tz//r >= max(ng, 1) and fft_ok(lx, tz//r, r, ng)]
    threads = lambda r: rnd.choice([x for x in (1, 2, 3, 5, 8) if x*r <= 8])
    plan = [(1, 1, 0, 0)]
    for t, f in rnd.sample([(0, 1), (1, 0), (1, 1), (0, 0)], 3):
        r = rnd.choice(divs)
        plan.append((r, threads(r), t, f))
    if rnd.random() < 0.4:                               # once more, the tuning remembered
        plan.append((plan[-1][0], plan[-1][1], 1, 0))
    else:
        r = rnd.choice(divs[1:] or divs)
        plan.append((r, threads(r), rnd.choice([0, 1]), 0))
    # block sizes remembered from runs of other precisions, which need not divide this lattice
    yc = lx//shift(ft, prec)
    cache = ""
    if rnd.random() < 0.6:
        ty = {SAXION: 0, AXION: 1, AXMOD: 1, NAXION: 2, PAXION: 3}[ft]
        for r, t, tune, _ in plan:
            if tune:
                cache += f"Cpu {r} {t} {lx} {tz//r} {ty} {lx*shift(ft, prec)} {rnd.randint(1, yc)} {rnd.randint(1, tz//r)} {ng}\n"
    for j, (r, t, tune, fold) in enumerate(plan):
        low = 1 if ft == SAXION and j > 0 and rnd.random() < 0.3 and not tune else 0
        runs.append(Case(f"{j}-r{r}-t{t}{'-tune' if tune else ''}{'-low' if low else ''}", script(tz//r, low, tune, rnd.choice(["fold", "unfold"]) if fold else ""),
                         cli(lx, tz//r, r, "double" if prec == 8 else "single", ng), r, {}, files, omp=t))
    return MultiCase(f"f{ft}-p{prec}-g{ng}-x{lx}-z{tz}-m{mode}-{i}", runs, {"eps": "1e-12" if prec == 8 else "4e-6"}, shared=True, text={"tuneCache.dat": cache} if cache else {})

def build(seed, reps):
    rnd = random.Random(seed)
    out, i = [], 0
    for _ in range(reps):
        for ft in (SAXION, SAXION, AXION, AXMOD, NAXION, PAXION):
            for p in (4, 8):
                ng = rnd.choice([1, 1, 2, 3])
                if ft == NAXION and ng > 1: ng = rnd.choice([1, 2])
                out.append(case(rnd, i, ft, p, ng)); i += 1
    return out

def run(chk):
    chk.conform("Twin", build(SEED, 8 if THOROUGH else 3), tlc_timeout=600)
