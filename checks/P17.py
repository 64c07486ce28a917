"""Histograms in measurement files against Measure.tla."""
from meas import *

def histograms(rnd, ft):
    if ft == NAXION: return [(T, 0, 0, 0)]
    return [(some(rnd, [T, RHO_, LOG, CON], rnd.choice([2, 3, 4])) if ft == SAXION else some(rnd, [T, LOG, CON], rnd.choice([2, 3])), 0, 0, 0) for _ in range(rnd.choice([1, 2]))]

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    for r in range(reps):
        for ft in (SAXION, AXION):
            for prec in (4, 8):
                for ng in (1, 2):
                    for _ in range(3): out.append(one(rnd, r, ft, prec, histograms, ng=ng, ordered=0.7))
    for ng in (1, 2): out.append(one(rnd, 99, NAXION, rnd.choice([4, 8]), histograms, ng=ng, ordered=0.7))
    return out

def run(chk):
    chk.conform("MeasureTrace", build(SEED, 6 if THOROUGH else 1), tlc_timeout=800)
