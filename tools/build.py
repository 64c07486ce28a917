#!/usr/bin/env python3
"""Builds the library, the programs and the harness drivers from /repo's current working tree.

Objects are cached by the hash of their *preprocessed* text (comments and line numbers removed), so a change
to one source recompiles only what it really changes, and no time stamp is ever trusted.
Everything is written under /verif/build (ignored by git)."""
import hashlib, json, os, re, subprocess, sys, time, concurrent.futures as cf, fcntl

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", f"{ROOT}/build")
CACHE = f"{BUILD}/cache"
OPT = os.environ.get("VERIF_OPT", "-O1")
INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
       "-I/usr/include/hdf5/openmpi"]
BASE = ["-fopenmp", "-mavx2", "-mfma", "-mcmodel=medium", "-std=gnu++14", *OPT.split(), "-w", "-fPIC"]
# the shipped configuration (RKN4 only), as the default build has it
PROPS = ["-DUSE_PROP_RKN4"]
LIBS = ["-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openmpi/lib:/usr/lib/x86_64-linux-gnu/hdf5/openmpi",
        "/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi_cxx.so", "/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so",
        "-lfftw3", "-lfftw3f", "-lfftw3_omp", "-lfftw3f_omp", "-lfftw3_mpi", "-lfftw3f_mpi",
        "/usr/lib/x86_64-linux-gnu/hdf5/openmpi/libhdf5.so", "-lcrypto", "-lcurl", "-lsz", "-lz", "-ldl", "-lm",
        "-lgsl", "-lgslcblas"]
# programs of /repo/test that the checks run
PROGRAMS = {"vaxion3d": "vaxions.cpp", "WKVaxion": "WKVaxion.cpp", "paxion3d": "Paxions.cpp",
            "redu": "reduce.cpp", "gravi3": "gravi3.cpp", "gadgetme": "gadgetme.cpp"}


def flags():
    return BASE + PROPS + [f"-I{REPO}/lib", f"-I{REPO}/include", f"-I{ROOT}/harness"] + INC


def lib_sources():
    txt = open(f"{REPO}/lib/CMakeLists.txt").read()
    m = re.search(r"set\s*\(\s*OBJS(.*?)\)", txt, re.S)
    return [f"{REPO}/lib/{s}" for s in m.group(1).split() if s.endswith((".cpp", ".c"))]


def tree_hash():
    h = hashlib.sha256()
    for top in (f"{REPO}/lib", f"{REPO}/include", f"{REPO}/test", f"{ROOT}/harness"):
        for d, ds, fs in os.walk(top):
            ds.sort()
            if "/cub" in d:
                continue
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) and not os.path.exists(p):
                    continue
                h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read()); h.update(OPT.encode())
    return h.hexdigest()


class BuildError(Exception):
    pass


def obj(src):
    fl = flags()
    pre = subprocess.run(["g++", *fl, "-E", "-P", src], capture_output=True)
    if pre.returncode:
        raise BuildError(f"{src}: {pre.stderr.decode(errors='replace')[-2000:]}")
    key = hashlib.sha256(pre.stdout + " ".join(BASE).encode()).hexdigest()
    o = f"{CACHE}/{key[:2]}/{key}.o"
    if os.path.exists(o):
        return o, False
    os.makedirs(os.path.dirname(o), exist_ok=True)
    tmp = f"{o}.{os.getpid()}.tmp"
    r = subprocess.run(["g++", *fl, "-c", src, "-o", tmp], capture_output=True)
    if r.returncode:
        raise BuildError(f"{src}: {r.stderr.decode(errors='replace')[-2000:]}")
    os.rename(tmp, o)
    return o, True


def link(target, main_o, lib_os):
    key = hashlib.sha256("\n".join([main_o, *lib_os, *LIBS]).encode()).hexdigest()
    stamp = f"{BUILD}/bin/.{target}.key"
    out = f"{BUILD}/bin/{target}"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    r = subprocess.run(["g++", *BASE, "-rdynamic", main_o, *lib_os, "-o", out + ".tmp", *LIBS], capture_output=True)
    if r.returncode:
        raise BuildError(f"link {target}: {r.stderr.decode(errors='replace')[-2000:]}")
    os.rename(out + ".tmp", out)
    open(stamp, "w").write(key)


def build(drivers=None, programs=None, verbose=False):
    """drivers: names of harness/*.cpp to build (None: all); programs: names of PROGRAMS (None: all)."""
    os.makedirs(f"{BUILD}/bin", exist_ok=True)
    lock = open(f"{BUILD}/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    if drivers is None:
        drivers = sorted(f[:-4] for f in os.listdir(f"{ROOT}/harness") if f.endswith(".cpp"))
    if programs is None:
        programs = sorted(PROGRAMS)
    th = tree_hash()
    stamp = f"{BUILD}/stamp.json"
    want = set(drivers) | set(programs)
    try:
        old = json.load(open(stamp))
        if old["tree"] == th and want <= set(old["targets"]):
            return {"wall_s": time.time() - t0, "compiled": 0, "fresh": True}
        if old["tree"] != th:
            old = {"targets": []}
    except (OSError, ValueError, KeyError):
        old = {"targets": []}
    jobs = {}
    # biggest first
    big = ("spectrum.cpp", "propagator.cpp", "vaxions.cpp", "measa.cpp", "Paxions.cpp", "WKVaxion.cpp", "gravi3.cpp", "reduce.cpp", "energy.cpp", "potential.cpp")
    libs = lib_sources()
    for s in libs:
        jobs[s] = None
    for d in drivers:
        jobs[f"{ROOT}/harness/{d}.cpp"] = None
    for p in programs:
        jobs[f"{REPO}/test/{PROGRAMS[p]}"] = None
    order = sorted(jobs, key=lambda j: (-(os.path.basename(j) in big), -os.path.getsize(j)))
    compiled = 0
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        fut = {ex.submit(obj, j): j for j in order}
        for f in cf.as_completed(fut):
            o, new = f.result()
            jobs[fut[f]] = o
            compiled += new
            if verbose and new:
                print(f"[{time.time()-t0:6.1f}] {fut[f]}", flush=True)
        lib_os = [jobs[s] for s in libs]
        fs = [ex.submit(link, d, jobs[f"{ROOT}/harness/{d}.cpp"], lib_os) for d in drivers]
        fs += [ex.submit(link, p, jobs[f"{REPO}/test/{PROGRAMS[p]}"], lib_os) for p in programs]
        for f in fs:
            f.result()
    json.dump({"tree": th, "targets": sorted(want | set(old["targets"]))}, open(stamp, "w"))
    return {"wall_s": time.time() - t0, "compiled": compiled, "fresh": False}


if __name__ == "__main__":
    print(build(verbose=True))
