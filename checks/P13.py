"""A measurement answers everything it was asked, nothing else, and leaves the field alone: Measure.tla."""
from meas import *

def anything(rnd, ft):
    out = []
    for _ in range(rnd.choice([1, 2])):
        what = some(rnd, [T, LOG, CON, EN, EMAP, PSP] + ([RHO_, STRS, SMAP, SCOO] if ft == SAXION else []), rnd.choice([0, 1, 2, 3, 4]))
        nrt = 0
        if rnd.random() < 0.5:
            what |= NSPA | (NSPS if ft == SAXION and rnd.random() < 0.5 else 0)
            nrt = some(rnd, [1, 4, 16, 64] + ([32] if ft == SAXION else [2, 8, 32, 128]))
        if rnd.random() < 0.3: what |= NN
        if rnd.random() < 0.3: what |= rnd.choice([RED, MULTI])
        mp = some(rnd, [XY, YZ, PE, PE2, XYE], rnd.choice([0, 0, 1, 2]))
        if not what and not mp: what = EN
        out.append((what, mp, nrt, rnd.choice([0, 1])))
    return out

def defects(rnd, ft):
    """the string analyses together: numbers, map and coordinates"""
    return [(SCOO | some(rnd, [STRS, SMAP, EN]), 0, 0, 0)]

def kept(rnd, ft):
    """twice what goes through a transform kept in the second half of m2"""
    return [(MULTI | PSP | some(rnd, [RED, EN, EMAP, CON]), 0, 0, 0)]*2

def build(seed, reps):
    rnd = random.Random(seed)
    out = []
    for r in range(reps):
        for ft in (SAXION, AXION):
            for prec in (4, 8):
                if ft == SAXION: out.append(one(rnd, r, ft, prec, defects, ranks=2 if prec == 4 else rnd.choice([2, 3, 4])))
                out.append(one(rnd, r, ft, prec, kept, cubic=True))
                for _ in range(4): out.append(one(rnd, r, ft, prec, anything, cubic=True))
    return out

def run(chk):
    chk.model("MeasureMC")
    chk.conform("MeasureTrace", build(SEED, 6 if THOROUGH else 1), tlc_timeout=800)
