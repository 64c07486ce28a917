"""Whole simulations with the program itself, against Run.tla."""
from evo import *
from runner import MultiCase
import os

class Program(Case):
    """One process of the simulation program; its trace is its command line."""
    def __init__(self, name, o, args, np_, omp):
        super().__init__(name, "", args, np_, omp=omp, exe="vaxion3d")
        self.o = o

    def execute(self):
        top = self.env["SHARED"]
        os.makedirs(f"{top}/out/m", exist_ok=True)
        open(self.trace, "w").write(json.dumps({"e": "Program", "o": self.o}) + "\n")
        cmd = ["mpirun", "-np", str(self.np), f"{runner.BUILD}/bin/{self.exe}", *map(str, self.args)]
        env = dict(OMP_NUM_THREADS=str(self.omp), AXIONS_OUTPUT=f"{top}/out/m", AXIONS_WISDOM=top)
        open(f"{self.dir}/cmd.sh", "w").write(f"cd {top}\n" + " ".join(f"{k}={v}" for k, v in {**runner.MPIENV, **env}.items()) + " " + " ".join(cmd) + "\n")
        self.rc, self.out = runner.run(cmd, top, self.timeout, env)
        open(f"{self.dir}/log.txt", "w").write(self.out)
        return self.rc == 0

LAWS = [(None, False), (2, True), (3, False), (1, True), (None, True), (2, False), (0, True), (3, True), (1, False), (2, False), (0, False)]     # lz2e with msa, starting time as a logarithm

def case(rnd, i, kind, prec):
    sh = shift(SAXION, prec)
    theta = kind in ("switch", "wkb")
    ok = []
    while not ok:
        ranks = rnd.choice([1, 2, 2, 4])
        ng = rnd.choice([1, 1, 2]) if not theta else 1
        lo = 2*ng*(sh if not theta else 2*sh)
        ok = [(n, z) for n in (8, 12, 16) for z in (2, 3, 4, 6, 8, 16) if n >= lo and z >= ng and fft_ok(n, z, ranks, ng) and n % ranks == 0
              and n*n*z*ranks <= (1200 if not theta else 4200) and (kind != "wkb" or z*ranks == n)]
    n, lz = rnd.choice(ok)
    frw = rnd.choice([1, 1, 2, 0.5]) if kind != "wkb" else 1
    o = dict(size=n, depth=lz, ranks=ranks, ng=ng, lsize=0, zi=0, logi=0, zf=0, frw=frw, qcd=rnd.choice([0, 4, 7]), ind3=rnd.uniform(0.1, 1.0), llcf=0, msa=0, lz2e=2, gam=0, pot=V_PQ1 + 2,
             steps=rnd.randint(4, 9), wdz=0, dump=rnd.choice([1, 2, 3, 4]), list=[], theta=theta, sst0=0, calm=False, p3d=rnd.choice([3, 3, 3, 1, 2]), wkb=0, halt=False, restart=False)
    delta = rnd.uniform(0.3, 0.6)
    o["lsize"] = float(f"{delta*n:.6g}")
    z0 = rnd.uniform(0.7, 1.4)
    zf = z0 + rnd.uniform(0.2, 0.5)*delta*o["steps"]/4
    o["zf"] = float(f"{zf:.6g}")
    lz2e, withlog = LAWS[(i + SEED) % len(LAWS)]
    if lz2e is not None: o["msa"], o["lz2e"] = float(f"{rnd.uniform(0.4, 1.2):.4g}"), lz2e
    else: o["llcf"] = float(f"{rnd.uniform(0.1, 0.6)/(delta*zf**frw)**2:.5g}")
    if o["qcd"] == 0 and not (o["msa"] and o["lz2e"]): o["qcd"] = rnd.choice([4, 7])      # (a constant ratio of masses is the case "flat")
    if withlog:
        lam = o["msa"]**2/(2*(o["lsize"]/n)**2*o["zf"]**(frw*(2 - lz2e))) if lz2e is not None else o["llcf"]
        o["logi"] = float(f"{math.log(2*lam*z0**(2 + frw*(2 - (lz2e or 0))))/2 if (lz2e or 0) <= 2 else math.log(z0*o['msa']*n/o['lsize']):.6g}")
    if not o["logi"]: o["zi"] = float(f"{z0:.6g}")
    if rnd.random() < 0.4: o["wdz"], o["steps"] = float(f"{rnd.uniform(0.3, 1.0):.3g}"), rnd.choice([12, 12, 5])
    o["ind3"] = rnd.uniform(0.2, 0.8)/delta/zf**(frw*(o["qcd"] + 2)/2)
    args = {"lsize": o["lsize"], "zf": o["zf"], "frw": frw, "qcd": o["qcd"], "ind3": f"{o['ind3']:.6g}", "steps": o["steps"], "dump": o["dump"], "p3D": o["p3d"]}
    o["ind3"] = float(args["ind3"])
    args["logi" if o["logi"] else "zi"] = o["logi"] or o["zi"]
    if o["wdz"]: args["wDz"] = o["wdz"]
    if o["msa"]: args["msa"], args["lz2e"] = o["msa"], o["lz2e"]
    else: args["llcf"] = o["llcf"]
    q = rnd.random()
    if q < 0.2: args["vqcdC"] = ""; o["pot"] = V_PQ1 + 32
    elif q < 0.3 and kind != "wkb": args["N2"] = ""; o["pot"] = V_PQ1 + 8
    if rnd.random() < 0.25 and not theta:
        g = float(f"{rnd.uniform(0.2, 1):.3g}"); key = rnd.choice(["gam", "gamall"])
        args[key] = g; o["gam"] = g; o["pot"] += DRHO if key == "gam" else DALL
    site = rnd.randrange(n*n*lz*ranks)
    args["idxprint"] = site
    text = {}
    if kind in ("list", "cut"):
        if kind == "cut": o["wdz"], o["steps"] = 0, rnd.randint(7, 12); args["steps"] = o["steps"]; args.pop("wDz", None)
        ts = sorted(rnd.uniform(z0, zf) for _ in range(rnd.choice([2, 3, 4])))
        if rnd.random() < 0.4: ts.insert(1, ts[0])
        if rnd.random() < 0.3: ts.insert(0, z0*0.8)
        if rnd.random() < 0.3 and not o["logi"]: ts.insert(0 if ts[0] >= z0 else 1, o["zi"])
        if kind == "cut":                  # not onto a listed time: the case "onlisted"
            if o["logi"]: z0 = float(o["zf"])*0.6; o["logi"] = 0; o["zi"] = float(f"{z0:.6g}"); args.pop("logi"); args["zi"] = o["zi"]
            ts = [t for t in ts if not z0*0.99 <= t <= z0 + 1.05*(ts[-1] - z0)/o["steps"]] or [zf]
        o["list"] = [f"{t:.5f}" for t in ts]
        old = rnd.random() < 0.4
        text["measfile.dat"] = ("" if old else rnd.choice(["ct meas map\n", "ct meas\n"])) + "".join(f"{t} {rnd.choice([32, 288, 256])}" + ("" if old else "") + "\n" for t in o["list"])
        if "map\n" in text["measfile.dat"]: text["measfile.dat"] = text["measfile.dat"].replace("\n", " 0\n").replace("map 0\n", "map\n")
    if theta:
        o["calm"], o["sst0"] = True, rnd.choice([0, 1, 2])
        args["sst0"] = o["sst0"]
        args.update(ctype="smooth", smvar=rnd.choice(["mc0", "ax1mode"]), mode0=rnd.choice([0.4, 1.0]), kmax=1, kcr=0.3, sIter=0)
    else:
        args.update(notheta="", ctype=rnd.choice(["smooth", "kmax"]), sIter=rnd.choice([1, 3]), alpha=rnd.choice([0.143, 0.4]), kmax=2, kcr=1)
    if kind == "wkb":
        o["wkb"] = float(f"{o['zf']*rnd.uniform(1.05, 1.4):.6g}"); o["p3d"] = rnd.choice([6, 2, 4]); args["p3D"] = o["p3d"]
    args["meas"] = args["meas2theta"] = rnd.choice([32, 256, 32 + 256])
    halts = rnd.choice([1, 1, 2]) if kind == "halt" else int(kind == "cut")
    runs = []
    low = rnd.random() < 0.3 and not theta and args["ctype"] == "kmax"      # (smoothing without the second buffer: the case "lowmem")
    for j in range(halts + 1):
        a = dict(args)
        if kind == "wkb": a["wkb"] = o["wkb"]
        if low: a["lowmem"] = ""
        oj = {**{x: (f"{y:.17g}" if isinstance(y, (int, float)) and x in ("lsize", "zi", "logi", "zf", "frw", "qcd", "ind3", "llcf", "msa", "lz2e", "gam", "wdz", "wkb") else y) for x, y in o.items()},
              "halt": j < halts, "restart": j > 0}
        if j < halts: a["wTime"] = 0
        if j: a["restart"] = ""
        opt = {"index": None, "msa": None, "zi": None, **a}
        runs.append(Program(f"{j}-program-r{ranks}", oj, cli(n, lz, ranks, "double" if prec == 8 else "single", ng, **opt), ranks, rnd.choice([1, 2, 4])))
    runs.append(Case("9-look", "outdir @shared/out/m\noutputs\nsamples @shared/out/sample.txt\n", cli(n, lz*ranks, 1, "double" if prec == 8 else "single", ng), 1, omp=1))
    follow = o["p3d"] & 3 == 3 and not theta
    return MultiCase(f"{kind}-p{prec}-n{n}x{lz}-g{ng}-r{ranks}-{i}", runs, {"follow": follow, "site": site, "halts": halts, "eps": "1e-9" if prec == 8 else "3e-4"}, shared=True, text=text)

def special(name):
    """Fixed runs on which the program is known to fail (KNOWN_FINDINGS.txt)."""
    o = dict(size=8, depth=8, ranks=1, ng=1, lsize=4.0, zi=1.0, logi=0, zf=1.4, frw=1, qcd=4, ind3=0.3, llcf=0.5, msa=0, lz2e=2, gam=0, pot=V_PQ1 + 2,
             steps=8, wdz=0, dump=3, list=[], theta=False, sst0=0, calm=False, p3d=3, wkb=0, halt=False, restart=False)
    text = {}
    if name == "flat": o["qcd"] = 0
    if name == "onlisted":
        o["list"] = ["1.04500", "1.08000", "1.40000"]
        text["measfile.dat"] = "ct meas\n" + "".join(f"{t} 32\n" for t in o["list"])
    args = {x: o[x] for x in ("lsize", "zi", "zf", "frw", "qcd", "ind3", "steps", "dump", "llcf")}
    args.update(p3D=3, meas=32, meas2theta=32, notheta="", idxprint=5, ctype="smooth", sIter=1, msa=None)
    if name == "lowmem": args["lowmem"] = ""
    runs = []
    halts = int(name == "onlisted")
    for j in range(halts + 1):
        oj = {**{x: (f"{y:.17g}" if isinstance(y, (int, float)) and x in ("lsize", "zi", "logi", "zf", "frw", "qcd", "ind3", "llcf", "msa", "lz2e", "gam", "wdz", "wkb") else y) for x, y in o.items()},
              "halt": j < halts, "restart": j > 0}
        a = {"index": None, **args, **({"wTime": 0} if j < halts else {}), **({"restart": ""} if j else {})}
        q = Program(f"{j}-program-r1", oj, cli(8, 8, 1, "double", 1, **a), 1, 2)
        if name == "flat": q.timeout = 6
        runs.append(q)
    runs.append(Case("9-look", "outdir @shared/out/m\noutputs\nsamples @shared/out/sample.txt\n", cli(8, 8, 1, "double", 1), 1, omp=1))
    return MultiCase(name, runs, {"follow": True, "site": 5, "halts": halts, "eps": "1e-9"}, shared=True, text=text)

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    for _ in range(reps):
        for prec in (4, 8):
            for kind in ("plain", "plain", "halt", "halt", "cut", "list", "list", "switch", "switch", "wkb"):
                out.append(case(rnd, len(out), kind, prec))
    return out + [special(x) for x in ("flat", "lowmem", "onlisted")]

def run(chk):
    chk.model("RunMC")
    chk.conform("RunTrace", build(SEED*30011, 6 if THOROUGH else 1), tlc_timeout=800)
