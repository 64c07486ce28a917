"""Storage layouts: random and model-generated call sequences of the field store against Store.tla."""
import random
from common import *

def script(rnd, ops, ft, prec, lx, lz, ranks, ng):
    c = COMPS[ft]
    s = [f"scalar {lx} {lz} {prec} {ft} 1 0 {ng}"]
    for i, w in enumerate(("m", "v", "m2")):
        s.append(f"code {w} {(i+1)*100000}")
    s.append("code m 7")
    dump_all = ["dump m", "dump v", "dump m2"]
    for o in ops:
        op, a = o["op"], o["a"]
        if op in ("fold", "unfold"):
            s += [f"fold {op}", "dump m", "dump v"]
        elif op in ("foldm2", "unfoldm2"):
            s += [f"fold {op}", "dump m2"]
        elif op == "slice":
            z = rnd.choice([0, lz - 1, rnd.randrange(lz)])
            s += [f"fold slice {z}", "dump slm", "dump slv"]
        elif op == "sliceyz":
            x = rnd.choice([0, lx - 1, rnd.randrange(lx)])
            s += [f"fold sliceyz {x}", f"dumpreals slm {lz*lx*c}", f"dumpreals slv {lz*lx*c}"]
        elif op == "slicem2":
            z = rnd.choice([0, lz - 1, rnd.randrange(lz)])
            s += [f"fold slicem2 {z}", "dump slm2"]
        elif op.startswith("ghosts-"):
            w = op[7:]
            n = min(a, ng)
            call = rnd.choice(["sdrv", "split", "split2", "stagger"] + (["ex", "old"] if n == ng else []))
            s += [f"ghosts {call} {w} {n}", "dump " + ("M" if w == "m" else "M2")]
    s += ["fold unfold", "fold unfoldm2"] + dump_all
    return "\n".join(s) + "\n"

def geometries(rnd):
    """every field type and precision, odd and even depths, several vector-length multiples"""
    out = []
    for ft in (SAXION, AXION, AXMOD, PAXION, NAXION):
        for prec in (4, 8):
            sh = shift(ft, prec)
            for ranks in ((1, 2) if not THOROUGH else (1, 2, 3, 4)):
                lx = sh*rnd.choice([2, 3, 4] if sh <= 4 else [1, 2])
                if lx < 4: lx = 4
                ng = rnd.choice([1, 1, 2])
                lz = rnd.randint(max(2, ng), min(6, lx*ng))
                out.append((ft, prec, lx, lz, ranks, ng))
    return out

def build(chk, seed, n):
    rnd = random.Random(seed)
    seqs = model_sequences(chk, "StoreMC", "StoreGen", n, 12, seed)
    cases = []
    gs = []
    while len(gs) < len(seqs):
        g = geometries(rnd); rnd.shuffle(g); gs += g
    for i, ops in enumerate(seqs):
        ft, prec, lx, lz, ranks, ng = gs[i]
        ty = ft
        pre = ""
        if ft == NAXION:                       # reached from the axion type only
            ty = AXION
        body = script(rnd, ops, ft, prec, lx, lz, ranks, ng)
        if ft == NAXION:
            body = body.replace(f"scalar {lx} {lz} {prec} {ft} 1 0 {ng}\n", f"scalar {lx} {lz} {prec} {SAXION} 1 0 {ng}\nsetfield 2\nsetfield 512\n")
        if ft == PAXION:
            body = body.replace(f"scalar {lx} {lz} {prec} {ft} 1 0 {ng}\n", f"scalar {lx} {lz} {prec} {AXION} 1 0 {ng}\n") if rnd.random() < 0.0 else body
        cases.append(Case(f"s{seed}-{i}-t{ft}-p{prec}-r{ranks}-g{ng}-{lx}x{lz}", body, cli(lx, lz, ranks, "double" if prec == 8 else "single", ng),
                          ranks, {"lx": lx, "lz": lz, "ft": ft}))
    return cases

def run(chk):
    chk.model("StoreMC", "StoreMC")
    chk.conform("StoreTrace", build(chk, SEED, 240 if THOROUGH else 40))
