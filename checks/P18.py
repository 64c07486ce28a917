"""Slices, maps and projections in measurement files against Measure.tla."""
from meas import *

def maps(rnd, ft):
    out = []
    if ft == NAXION: return [(0, rnd.choice([XY, XY | YZ]), 0, 0)]
    for _ in range(rnd.choice([1, 2])):
        mp = some(rnd, [XY, YZ, PE, PE2, XYE], rnd.choice([1, 2, 3]))
        out.append((some(rnd, [EMAP, EN], rnd.choice([0, 0, 1, 2])), mp, 0, 0))
    return out

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    for r in range(reps):
        for ft in (SAXION, AXION):
            for prec in (4, 8):
                for ng in (1, 2):
                    for ranks in (1, rnd.choice([2, 3, 4])): out.append(one(rnd, r, ft, prec, maps, ng=ng, ranks=ranks))
    for ng in (1, 2): out.append(one(rnd, 99, NAXION, rnd.choice([4, 8]), maps, ng=ng))
    return out

def run(chk):
    chk.conform("MeasureTrace", build(SEED, 6 if THOROUGH else 1), tlc_timeout=800)
