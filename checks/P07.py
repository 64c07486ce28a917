"""Background quantities, step sizes and the start of a run against Background.tla."""
from evo import *

def times(rnd, d):
    """Times in every region of the mass, on its borders and around the threshold at the step scale."""
    f = d["frw"]
    inv = (lambda R: R**(1/f)) if f else (lambda R: rnd.uniform(0.5, 5))
    t = [rnd.uniform(0.3, 8.0) for _ in range(4)]
    for b in ("zthres", "zrestore"):
        if d[b] < 50:
            c = inv(d[b])
            t += [c*(1-rnd.choice([1e-2, 1e-3, 0.1])), c*(1+rnd.choice([1e-2, 1e-6])), c*rnd.uniform(0.5, 0.99)]
            if f in (0, 1):
                t.append(c)
    return t

def case(rnd, i, ft, qcd, pq):
    prec, lx = 8, 8
    pot = pq + qcd + rnd.choice([0, 4096, 8192, 16384, 32768])
    d = bg(rnd, 1, frw=rnd.choice([0, 1, 1, 0.5, 1.5, 2]), nqcd=rnd.choice([0, 2.0, 7.0, 3.36]), lz2e=rnd.choice([0, 2.0, 1.0, 4.0]))
    d["L"], d["zi"] = rnd.uniform(2, 12), rnd.uniform(0.3, 2.0)
    d["lam"] = 10**rnd.uniform(-1, 3)
    d["indi3"] = 10**rnd.uniform(-1, 0.7)
    if rnd.random() < 0.8:
        d["zthres"] = rnd.uniform(1.2, 4.0)
        if rnd.random() < 0.6:
            d["zrestore"] = d["zthres"]*rnd.choice([1.0, 1.5, 2.0, 0.5, 0.9])
            d["nqcdr"] = rnd.choice([2.0, 4.0, 0.0])
    if pq == 2048:                                       # the fit is good for moderate mass ratios
        d["indi3"], d["nqcd"], d["lz2e"], d["lam"] = rnd.uniform(0.05, 0.5), 0, 0, rnd.uniform(0.5, 50)
        d["zrestore"], d.get("nqcdr")
        d.pop("nqcdr", None); d["zrestore"] = 1e6
    o = lines(d, pot)
    if d["frw"] == 1 and rnd.random() < 0.25:
        o.append(f"cosmos grav {rnd.uniform(0.1, 2.0):.17g}")
    new = [f"scalar {lx} {lx} {prec} {1 if ft == NAXION else ft} 0 0 1"] + (["setfield 2", "setfield 512"] if ft == NAXION else [])
    t = times(rnd, d)
    s = o + new + [f"background {len(t)} " + " ".join(f"{x:.17g}" for x in t), f"setz {d['zi']:.17g}", "steps 40" if ft in (SAXION, AXION, AXMOD) else "steps 3"]
    if d["zthres"] < 50 and d["frw"]:                    # start shortly before the threshold: the step across it is cut
        s[-1:] = [f"setz {d['zthres']**(1/d['frw'])*(1-rnd.choice([0.1, 0.01, 0.3])):.17g}", "steps 25" if ft in (SAXION, AXION, AXMOD) else "steps 2"]
    return Case(f"b{ft}-q{qcd}-{pq}-{i}", "\n".join(s) + "\n", cli(lx, lx, 1, "double", 1, wDz=rnd.choice(["0.8", "0.3", "1.5"])), 1, {"opt": {}})

def parsed(rnd, i):
    lx, R = rnd.choice([16, 32, 64]), rnd.choice([1, 2])
    lz = rnd.choice([16, 32])
    opt = dict(size=str(lx), depthtot=str(lz*R), lsize=f"{rnd.uniform(2, 12):.6f}", zf=f"{rnd.uniform(3, 9):.6f}", frw=rnd.choice(["0", "1", "1", "0.5", "2"]),
               qcd=rnd.choice(["0", "2.5", "7"]), ind3=rnd.choice(["", "0.7", "2"]), wDz=f"{rnd.uniform(0.2, 2):.4f}", gam=rnd.choice(["0", "0.4"]), msa="", llcf="", lz2e="", zi="", logi="")
    if rnd.random() < 0.7:
        opt["msa"] = f"{rnd.uniform(0.5, 2):.4f}"
        opt["lz2e"] = rnd.choice(["", "0", "1", "2", "3", "4"])
    else:
        opt["llcf"] = f"{10**rnd.uniform(0, 4):.4f}"
    if rnd.random() < 0.5:
        opt["logi"] = f"{rnd.uniform(0.5, 4):.5f}"
    else:
        opt["zi"] = f"{rnd.uniform(0.2, 2):.5f}"
    kw = {k: v or None for k, v in opt.items() if k not in ("size", "depthtot")}
    a = cli(lx, lz, R, "double", 1, index=None, **{k: None for k in kw})
    for k, v in kw.items():
        if v:
            a += [f"--{k}", v]
    return Case(f"cli-{i}", "parsed\n", a, R, {"opt": opt})

def build(seed, reps):
    rnd = random.Random(seed)
    out, i = [], 0
    for r in range(reps):
        for ft in (SAXION, AXION, AXMOD, NAXION, PAXION):
            for q in ([1, 2, 8, 32] if ft == SAXION else rnd.sample([1, 2, 16, 32], 2)):
                for pq in ([512, 1024, 2048] if ft == SAXION else [1024]):
                    out.append(case(rnd, i, ft, q, pq)); i += 1
    return out + [parsed(rnd, j) for j in range(16*reps)]

def run(chk):
    chk.conform("BackgroundTrace", build(SEED, 12 if THOROUGH else 3))
