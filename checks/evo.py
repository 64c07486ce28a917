"""Cases of the time evolution: a random field, stepped by the library."""
import math, random
from common import *
V_PQ1 = 1024
THETA, RHO, DRHO, DALL = 4096, 8192, 16384, 32768

def bg(rnd, R, **over):
    """Background parameters, a line each."""
    d = dict(frw=rnd.choice([0, 1, 1, 0.5, 1.5]), L=None, indi3=rnd.uniform(0.3, 1.2), nqcd=rnd.choice([0, 2.0, 7.0]), zthres=100.0, zrestore=1e6,
             lam=rnd.uniform(0.2, 2.0), lz2e=rnd.choice([0, 2.0, 1.0]), gamma=0.0, dectime=-1.0)
    d.update(over)
    return d

def lines(d, pot):
    o = [f"cosmos {k} {d[a]:.17g}" for k, a in (("frw", "frw"), ("L", "L"), ("indi3", "indi3"), ("nqcd", "nqcd"), ("zthres", "zthres"), ("zrestore", "zrestore"),
                                               ("lambda", "lam"), ("lz2e", "lz2e"), ("gamma", "gamma"), ("dectime", "dectime"))]
    if "nqcdr" in d:
        o.append(f"cosmos nqcdr {d['nqcdr']:.17g}")
    if "beta" in d:
        o.append(f"cosmos beta {d['beta']:.17g}")
    o += [f"cosmos zi {d['zi']:.17g}", f"cosmos pot {pot}"]
    return o

def complex_field(rng, n, R):
    rho, th = R*rng.uniform(0.5, 1.5, n), rng.uniform(-math.pi, math.pi, n)
    return np.column_stack([rho*np.cos(th), rho*np.sin(th)]).ravel()

def geometry(rnd, ft, prec, ng, ranks, big=512):
    sh = shift(ft, prec)
    lx = max(4, 2*ng*sh)
    ok = [x for x in range(lx, lx+3*sh, sh) if x % 2 == 0 and x*x*max(ng, 2)*ranks <= max(big, lx*lx*max(ng, 2)*ranks)]
    ok = [x for x in ok if fft_ok(x, max(ng, 2), ranks, ng)] or [lx]
    lx = rnd.choice(ok)
    lzs = [z for z in range(max(ng, 2), 7+ng) if lx*lx*z*ranks <= max(big, lx*lx*max(ng, 2)*ranks) and fft_ok(lx, z, ranks, ng)]
    return lx, rnd.choice(lzs or [max(ng, 2)])

def steps(rnd, dz0, n):
    s = []
    for _ in range(n):
        r = rnd.random()
        if r < 0.15: s.append("tune" if False else "fold unfold")
        elif r < 0.25: s.append("fold fold")
        dz = dz0*rnd.choice([1, 1, 0.5, 0.1, 2])
        s.append(f"propagate {dz:.17g} {rnd.choice([1, 1, 1, 2])}")
        s += ["fold unfold", "dump m", "dump v"]
    return s
