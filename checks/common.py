"""Generators shared by the checks."""
import json, random, re, subprocess
import numpy as np
import runner
from runner import Case, cli, THOROUGH, SEED, ROOT, CP

SAXION, AXION, AXMOD, WKB, NAXION, PAXION = 1, 2, 130, 6, 512, 1024
COMPS = {SAXION: 2, AXION: 1, AXMOD: 1, WKB: 1, NAXION: 2, PAXION: 1}


def fft_ok(lx, lz, ranks, ng):
    """The transposed transform of lx rows over the ranks needs ceil(lx/ranks) rows of every plane on each of them: lattices
    for which that exceeds the field's own storage are outside what the library supports (its plans would overrun)."""
    return -(-lx//ranks)*ranks*lz <= lx*(lz + 2*ng)


def shift(ftype, prec):
    return 32 // (prec * COMPS[ftype])


def model_sequences(chk, module, cfg, num, depth, seed=SEED, timeout=120):
    """Behaviours of a specification, as the call sequences its generator configuration prints (OPS lines)."""
    cmd = ["java", "-XX:+UseSerialGC", "-cp", CP, f"-DTLA-Library={ROOT}/spec", "tlc2.TLC", "-metadir", f"{chk.top}/gen.meta", "-nowarning", "-noGenerateSpecTE",
           "-simulate", f"num={num}", "-depth", str(depth + 1), "-seed", str(seed), "-workers", "1", "-config", f"{ROOT}/spec/{cfg}.cfg", f"{ROOT}/spec/{module}.tla"]
    rc, out = runner.run(cmd, chk.top, timeout)
    seen, res = set(), []
    for m in re.finditer(r'^"OPS (.*)"$', out, re.M):
        ops = json.loads(m.group(1).replace('\\"', '"'))
        key = json.dumps(ops[:-1])
        if key in seen:
            continue
        seen.add(key); res.append(ops)
    if not res:
        chk.errors.append(f"generator {cfg} printed nothing: {out[-800:]}")
    chk.cov["model_generated_sequences"] = chk.cov.get("model_generated_sequences", 0) + len(res)
    return res


def field(rng, n, kind="smooth", scale=1.0):
    return scale*rng.standard_normal(n)
