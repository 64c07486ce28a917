"""A saved configuration reads back as the same state: Checkpoint.tla."""
from evo import *
from runner import MultiCase

QCDS = {1: "--vqcd0", 4: "--vqcdV", 16: "--vqcdL", 8: "--N2", 32: "--vqcdC"}

def setup(d, pot, g):
    return lines(d, pot) + [f"cosmos nqcdr {d['nqcdr']:.17g}"] + [f"global {k} {x:.17g}" for k, x in g.items()]

def options(rnd, ft, saved):
    """A handful of things to override when reading: command line, and the names in the specification."""
    o, over = {}, []
    pick = lambda p: rnd.random() < p
    if pick(0.3): o["zf"] = f"{rnd.uniform(5, 9):.6g}"; over.append("zf")
    if pick(0.2): o["lsize"] = f"{rnd.uniform(2, 9):.6g}"; over.append("L")
    if pick(0.2): o["qcd"] = f"{rnd.uniform(0, 7):.3g}"; over.append("nqcd")
    if pick(0.25): o["ind3"] = f"{rnd.uniform(0.1, 3):.5g}"; over.append("indi3")
    if pick(0.25): o["frw"] = rnd.choice(["0.5", "1.0", "2"]); over.append("frw")
    if pick(0.2): o["zi"] = f"{rnd.uniform(0.3, 3):.5g}"; over.append("zi")
    if pick(0.25): o["llcf"] = f"{rnd.uniform(100, 3000):.5g}"; over += ["lambda", "lz2e"]
    if pick(0.25): o[rnd.choice(["gam", "gamall"])] = f"{rnd.uniform(0.1, 2):.4g}"; over += ["gamma", "damp"]
    if pick(0.25): o[rnd.choice(["vPQ1", "vPQ2", "vPQ3"])] = ""; over.append("pqtype")
    if pick(0.25): o[rnd.choice(["vqcdC", "vqcdV", "vqcdL", "N2"])] = ""; over.append("qcdtype")
    if pick(0.2): o[rnd.choice(["onlyrho", "onlytheta"])] = ""; over.append("evol")
    return o, over

def case(rnd, i, ft, prec):
    rng = np.random.default_rng(rnd.randrange(2**31))
    sh = shift(ft, prec)
    lx = sh*rnd.choice([2, 3, 4, 5]) if ft != NAXION else sh*rnd.choice([2, 3, 4])
    lx += lx % 2
    tz = rnd.choice([6, 12])
    n = lx*lx*tz
    divs = [r for r in (1, 2, 3, 4, 6) if tz % r == 0]
    wr = rnd.choice(divs)
    ng = rnd.choice([1, 1, 2, 3])
    ng = min(ng, tz//wr) if ft != PAXION else 1
    pot = rnd.choice([2, 4, 8, 16, 32, 2, 8]) + rnd.choice([1024, 2048, 512]) + rnd.choice([0, 0, 4096, 8192]) + rnd.choice([0, 16384, 32768])
    d = bg(rnd, 1, zthres=rnd.choice([100.0, 1.5]), zrestore=rnd.choice([1e6, 3.0]), lz2e=0.0)
    lt = rnd.choice([0, 1])
    d["lz2e"] = 0.0 if lt == 0 else rnd.choice([2.0, 1.0, 0.5])
    d["nqcdr"] = rnd.choice([d["nqcd"], 3.0]); d["L"], d["zi"], d["gamma"] = rnd.uniform(2, 9), rnd.uniform(0.7, 2.5), rnd.uniform(0, 2)
    d["beta"] = 0.0
    g = dict(zinit=rnd.uniform(0.2, 0.7), zfinl=rnd.uniform(3, 5), nsteps=rnd.randint(1, 500), dump=rnd.randint(1, 30), mode0=rnd.uniform(-1, 4))
    ctype = rnd.choice([("none", "")])
    z = rnd.uniform(0.75, 2.9)
    lz = tz//wr
    s = setup(d, pot, g)
    if ft == NAXION: s += [f"scalar {lx} {lz} {prec} 1 {lt} 0 {ng}", "setfield 2", "setfield 512"]
    elif ft == PAXION: s += [f"scalar {lx} {lz} {prec} {ft} {lt} 0 {ng}"]
    else: s += [f"scalar {lx} {lz} {prec} {ft} {lt} {rnd.choice([0, 0, 1]) if ft == SAXION else 0} {ng}"]
    s += [f"setz {z:.17g}", "load m @m@"] + ([] if ft == NAXION else ["load v @v@"])
    if rnd.random() < 0.5 and ft not in (NAXION, PAXION): s += ["fold fold"]
    restart = rnd.random() < 0.4
    idx = rnd.randint(0, 99999)
    other = (idx + 1) % 100000
    s += ["outdir @shared", f"writeconf {idx} {int(restart)}", "dump m"] + ([] if ft == NAXION else ["dump v"])
    fn = "axion.restart" if restart else f"axion.{idx:05d}"
    s += [f"h5 {fn}", f"h5data {fn} /m"] + ([] if ft == NAXION else [f"h5data {fn} /v"])
    fx = rng.standard_normal(n*COMPS[ft])
    if ft == SAXION: files = {"m": complex_field(rng, n, 1.0), "v": rng.standard_normal(2*n)}
    else: files = {"m": fx, "v": rng.standard_normal(n*COMPS[ft])}
    runs = [Case(f"0-write-r{wr}", "\n".join(s) + "\n", cli(lx, lz, wr, "double" if prec == 8 else "single", ng), wr, files=files, omp=1)]
    over, fnames = [[]], {("restart" if restart else str(idx)): fn, str(other): f"axion.{other:05d}"}
    drop = {k: None for k in ("prec", "msa", "lsize", "qcd", "zi", "zf")}
    ftn = {SAXION: "saxion", AXION: "axion", AXMOD: "axionmod", PAXION: "Paxion"}
    for j in range(2 if ft != NAXION else 0):
        rr = rnd.choice(divs)
        o, ov = options(rnd, ft, d) if j else ({}, [])
        pp = None
        if j and rnd.random() < 0.5:
            pp = 12 - prec; ov = ov + ["prec"]
        if pp: o["prec"] = "double" if pp == 8 else "single"
        name = ftn[ft]
        t = ["outdir @shared", "parsed", f"readconf {idx} {int(restart)}", "dump m", "dump v"]
        if j == 0:                                        # and once more: what was read is saved and compared
            t += [f"writeconf {other} 0", f"h5 axion.{other:05d}", f"h5data axion.{other:05d} /m", f"h5data axion.{other:05d} /v"]
        opt = {**drop, "ftype": name, "index": str(idx), **o}
        runs.append(Case(f"{j+1}-read-r{rr}", "\n".join(t) + "\n", cli(lx, tz//rr, rr, ng=ng, **opt), rr, omp=1))
        over.append(ov)
    return MultiCase(f"f{ft}-p{prec}-x{lx}-z{tz}-w{wr}-{i}", runs, {"over": over, "file": fnames}, shared=True)

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    for i in range(reps):
        for ft in (SAXION, SAXION, AXION, AXMOD, PAXION, NAXION):
            for p in (4, 8):
                out.append(case(rnd, len(out), ft, p))
    return out

def run(chk):
    chk.conform("CheckpointTrace", build(SEED, 8 if THOROUGH else 2))
