"""Ghost exchange: the message-level model Halo, and histories of exchanges, writes and layout changes against Store."""
import random
from common import *

def history(rnd, ft, prec, lx, lz, ranks, ng, n):
    s = []
    if ft == NAXION:
        s += [f"scalar {lx} {lz} {prec} {SAXION} 1 0 {ng}", "setfield 2", "setfield 512"]
    else:
        s += [f"scalar {lx} {lz} {prec} {ft} 1 0 {ng}"]
    bufs = ["m", "m2"] + (["v"] if ft == PAXION else [])
    off = 1
    for w in ("m", "v", "m2"):
        s.append(f"code {w} {off}"); off += 1000
    for i in range(n):
        w = rnd.choice(bufs)
        e = rnd.choice([ng, ng, rnd.randint(1, ng)])
        call = rnd.choice(["sdrv", "split", "split2", "stagger"] + (["ex", "ex", "old"] if e == ng else []))
        s += [f"ghosts {call} {w} {e}", "dump " + w.upper()]
        if rnd.random() < 0.4:                  # other content: a stale layer would show
            off += 137
            s.append(f"code {w} {off}")
            if rnd.random() < 0.5:
                e2 = rnd.randint(1, ng)
                s += [f"ghosts {rnd.choice(['sdrv', 'split'])} {w} {e2}", "dump " + w.upper()]
        if rnd.random() < 0.3 and lx % shift(ft, prec) == 0:
            s.append("fold " + rnd.choice(["fold", "unfold"]) if w != "m2" else "fold " + rnd.choice(["foldm2", "unfoldm2"]))
            if w == "v":
                pass
    return "\n".join(s) + "\n"

def build(chk, n):
    rnd = random.Random(1000 + SEED)
    cases = []
    for i in range(n):
        ft = [SAXION, AXION, AXMOD, PAXION, NAXION, SAXION][i % 6]
        prec = [4, 8][(i//6) % 2]
        ranks = [1, 2, 3, 4][(i//3) % 4]
        ng = rnd.choice([1, 2, 3, 4])
        sh = shift(ft, prec)
        lx = sh*rnd.choice([1, 2, 3] if sh > 2 else [2, 3, 4])
        lz = rnd.randint(ng, ng + 3)
        if i % 17 == 5:                         # messages beyond the eager limit
            lx, lz, ng = 32, 2, rnd.choice([1, 2])
        lz = max(2, lz)
        cases.append(Case(f"g{i}-t{ft}-p{prec}-r{ranks}-g{ng}-{lx}x{lz}", history(rnd, ft, prec, lx, lz, ranks, ng, 4 if lx == 32 else 8),
                          cli(lx, lz, ranks, "double" if prec == 8 else "single", ng), ranks, {"lx": lx, "lz": lz, "ft": ft}, omp=1))
    return cases

def run(chk):
    for i in (1, 2, 3):
        chk.model("Halo", f"Halo{i}")
    chk.conform("StoreTrace", build(chk, 200 if THOROUGH else 48))
