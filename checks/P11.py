"""A run that is stopped and continued is the run that was not stopped: Resume.tla."""
from evo import *
from runner import MultiCase

FTN = {SAXION: "saxion", AXION: "axion", AXMOD: "axionmod", PAXION: "Paxion"}
POTS = {SAXION: [1, 2, 8, 32], AXION: [1, 2, 16], AXMOD: [1, 2], PAXION: [1, 2]}

def case(rnd, i, ft, prec):
    rng = np.random.default_rng(rnd.randrange(2**31))
    ng = 1 if ft == PAXION else rnd.choice([1, 1, 2])
    sh = shift(ft, prec)
    tz = rnd.choice([6, 12])
    lx = sh*max(2*ng, rnd.choice([2, 3, 4]))
    lx += lx % 2
    n = lx*lx*tz
    divs = [r for r in (1, 2, 3, 4, 6) if tz % r == 0 and tz//r >= ng]
    mode = rnd.choice([0, DRHO, DALL, THETA, RHO]) if ft == SAXION else 0
    pot = 1024 + rnd.choice(POTS[ft]) + mode
    lt = rnd.choice([0, 1]) if ft == SAXION else 0
    d = bg(rnd, 1, zthres=rnd.choice([100.0, 1.6, 1.2]), zrestore=rnd.choice([1e6, 1e6, 1.8]), lz2e=rnd.choice([2.0, 1.0]) if lt else 0.0)
    z, a = rnd.uniform(0.8, 1.5), rnd.uniform(0.5, 1.0)
    d["nqcdr"] = rnd.choice([d["nqcd"], 3.0])
    d["L"], d["zi"], d["beta"] = a*lx, rnd.uniform(0.4, z), 0.0
    d["gamma"] = rnd.uniform(0.3, 2.0) if mode in (DRHO, DALL) else 0.0
    d["dectime"] = rnd.choice([-1.0, 2.0])
    R = z**d["frw"]
    dz = min(0.3*a/math.sqrt(12+8*d["lam"]*a*a*R*R*9), 0.1*z)
    if ft == PAXION: dz = min(0.05*z, 0.3*2*d["indi3"]*R*a*a/12)
    if ft == SAXION: files = {"m": complex_field(rng, n, R), "v": rng.standard_normal(2*n)*R}
    elif ft == PAXION: files = {"m": 0.2*rng.standard_normal(n), "v": 0.2*rng.standard_normal(n)}
    else: files = {"m": rng.uniform(-math.pi, math.pi, n)*R, "v": rng.standard_normal(n)}
    total = rnd.randint(4, 9)
    auto = rnd.random() < 0.5 and ft != PAXION
    step = "stepdz" if auto else f"propagate {dz:.17g}"
    show = ["clock", "fold unfold", "dump m", "dump v"]
    def walk(p, stop, saves, looks, rnd_):
        """Steps p..stop; saves: position -> list of files to write there; looks: where to dump."""
        s = []
        while True:
            if p in looks: s += show
            for x in saves.get(p, []):
                s += [f"fold {rnd_.choice(['fold', 'unfold'])}"] if ft != PAXION and rnd_.random() < 0.6 else []
                s += [f"writeconf {x[0]} {x[1]}"]
            if p == stop: return s
            s += [step] if auto else [step + " 1"]
            p += 1
    pre = lines(d, pot) + [f"global zinit {d['zi']:.17g}", "global zfinl 9", "outdir @shared"]
    def fresh(r, low):
        return pre + [f"scalar {lx} {tz//r} {prec} {ft} {lt} {low} {ng}", f"setz {z:.17g}", "load m @m@", "load v @v@", f"initprop 136 -1 {ng}"]
    threads = lambda r: rnd.choice([x for x in (1, 2, 4) if x*r <= 8])
    pr = "double" if prec == 8 else "single"
    cuts = sorted(rnd.sample(range(0, total), rnd.choice([1, 2, 3]) if total > 3 else 1))
    looks = set(rnd.sample(range(total+1), 2)) | {total}
    low = lambda: rnd.choice([0, 0, 1]) if ft == SAXION else 0
    r = rnd.choice(divs)
    runs = [Case(f"0-whole-r{r}", "\n".join(fresh(r, 0) + walk(0, total, {}, looks | set(cuts), rnd)) + "\n", cli(lx, tz//r, r, pr, ng), r, files=files, omp=threads(r))]
    p, name = 0, None
    for j, c in enumerate(cuts + [total]):
        r = rnd.choice(divs)
        restart = rnd.random() < 0.5
        idx = rnd.randint(0, 50)
        saves, stop = {}, c
        if j < len(cuts):
            saves.setdefault(c, []).append((idx, int(restart)))
            if c > p and rnd.random() < 0.5: saves.setdefault(rnd.randint(p, c-1), []).append((idx, int(restart)))      # overwritten later
            stop = rnd.randint(c, total)                       # goes on after the save, then is lost
        if j == 0:
            s, opt = fresh(r, low()), {}
        else:
            s = ["cosmos beta 0", f"cosmos dectime {d['dectime']:.17g}", "outdir @shared", f"readconf {name[0]} {name[1]}", f"initprop 136 -1 {ng}"]
            opt = {k: None for k in ("msa", "lsize", "qcd", "zi", "zf")}
            opt.update(ftype=FTN[ft], index=str(name[0]))
            if restart_of: opt["restart"] = ""
            if low(): opt["lowmem"] = ""
        s += walk(p, stop, saves, looks | {p}, rnd)
        runs.append(Case(f"{j+1}-part-r{r}", "\n".join(s) + "\n", cli(lx, tz//r, r, pr, ng, **opt), r, files=files if j == 0 else {}, omp=threads(r)))
        p, name, restart_of = c, (idx, int(restart)), restart
    return MultiCase(f"f{ft}-p{prec}-x{lx}-z{tz}-m{mode}-{i}", runs, {"eps": "1e-13" if prec == 8 else "1e-6"}, shared=True)

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    for _ in range(reps):
        for ft in (SAXION, SAXION, SAXION, AXION, AXMOD, PAXION):
            for p in (4, 8):
                out.append(case(rnd, len(out), ft, p))
    return out

def run(chk):
    chk.model("ResumeMC")
    chk.conform("ResumeTrace", build(SEED, 10 if THOROUGH else 2))
