#!/usr/bin/env python3-vt
"""Runs one check: builds, drives the library over generated cases, validates the recorded traces with TLC."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{ROOT}/tools")
import build as builder

BUILD = builder.BUILD
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CP = f"{BUILD}/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
              OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
              OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1", OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def classes():
    """Compiles the Java side of Real64 when it is missing or old."""
    src = f"{ROOT}/spec/java/tlc2/module/Real64.java"
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = f"{BUILD}/classes/.key"
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    os.makedirs(f"{BUILD}/classes", exist_ok=True)
    subprocess.run(["javac", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", f"{BUILD}/classes", src], check=True)
    open(stamp, "w").write(key)


def run(cmd, cwd, timeout, env=None, log=None):
    """Runs cmd in its own process group; returns (rc, output); rc -999 on timeout."""
    e = dict(os.environ); e.update(MPIENV); e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        rc = -999
    try:                                           # stray ranks of a run that died
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    return rc, out.decode(errors="replace")


class Case:
    """One recorded run of the driver (or of anything that leaves a trace at self.trace)."""
    def __init__(self, name, script, args, np_=1, meta=None, files=None, omp=2, timeout=60, env=None, exe="jaxdrv", module=None):
        self.name, self.script, self.args, self.np, self.meta = name, script, args, np_, meta or {}
        self.files, self.omp, self.timeout, self.env, self.exe, self.module = files or {}, omp, timeout, env or {}, exe, module
        self.dir = self.trace = None
        self.rc, self.out = None, ""

    def prepare(self, top):
        self.dir = f"{top}/{self.name}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(f"{self.dir}/out/m", exist_ok=True)
        for n, a in self.files.items():
            if isinstance(a, str): open(f"{self.dir}/{n}", "w").write(a)
            else: np.asarray(a, dtype="<f8").tofile(f"{self.dir}/{n}.in")
        txt = re.sub(r"@(\w+)@", lambda m: f"{self.dir}/{m.group(1)}.in", self.script)
        open(f"{self.dir}/script.txt", "w").write(txt)
        self.trace = f"{self.dir}/t.ndjson"

    def execute(self):
        cmd = ["mpirun", "-np", str(self.np), f"{BUILD}/bin/{self.exe}", f"{self.dir}/script.txt", f"{self.dir}/t", *map(str, self.args)]
        env = {**dict(OMP_NUM_THREADS=str(self.omp), AXIONS_OUTPUT=f"{self.dir}/out/m", AXIONS_WISDOM=f"{self.dir}"), **self.env}
        open(f"{self.dir}/cmd.sh", "w").write("cd " + self.dir + "\n" + " ".join(f"{k}={v}" for k, v in {**MPIENV, **env}.items()) + " " + " ".join(cmd) + "\n")
        self.rc, self.out = run(cmd, self.dir, self.timeout, env)
        open(f"{self.dir}/log.txt", "w").write(self.out)
        ok = self.rc == 0 and os.path.exists(self.trace)
        if ok:
            with open(self.trace, "rb") as fh:
                fh.seek(0, 2); n = fh.tell(); fh.seek(max(0, n - 200)); ok = b'"e":"End"' in fh.read()
        return ok


class MultiCase(Case):
    """Several runs one after another; the trace is theirs in sequence, each opened by a Run event."""
    def __init__(self, name, runs, meta=None, module=None, shared=False, text=None):
        super().__init__(name, "\n".join(f"== {r.name}\n{r.script}" for r in runs), [], max(r.np for r in runs), meta, module=module)
        self.runs, self.shared, self.text = runs, shared, text or {}      # shared: the runs see each other's files

    def prepare(self, top):
        self.dir = f"{top}/{self.name}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        for n, x in self.text.items():
            open(f"{self.dir}/{n}", "w").write(x)
        self.trace = f"{self.dir}/t.ndjson"

    def execute(self):
        open(self.trace, "w").close()
        for n, r in enumerate(self.runs):
            if self.shared:
                r.env = {**r.env, "AXIONS_WISDOM": self.dir, "SHARED": self.dir}
                r.script = r.script.replace("@shared", self.dir)
            r.prepare(self.dir)
            ok = r.execute()
            self.rc, self.out = r.rc, f"{r.name}: {r.out}"
            if not ok:
                return False
            last = n == len(self.runs) - 1
            with open(self.trace, "a") as o:
                o.write(json.dumps({"e": "Run", "i": n + 1, "ranks": r.np, "threads": r.omp, "run": r.name}) + "\n")
                for ln in open(r.trace):
                    if last or '"e":"End"' not in ln:
                        o.write(ln)
        return True


def tlc(module, cases, cwd, tag, timeout=600, extra=(), cfg=None, heap="2g"):
    """Validates the traces of cases; returns dict(accepted, rejects{name: [lines]}, states, distinct, error)."""
    cfile = f"{cwd}/{tag}.cases"
    with open(cfile, "w") as o:
        for c in cases:
            o.write(json.dumps({**c.meta, "name": c.name, "trace": c.trace}) + "\n")
    meta = f"{cwd}/{tag}.meta"
    cmd = ["java", "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss64m", "-cp", CP, f"-DTLA-Library={ROOT}/spec", "tlc2.TLC", "-metadir", meta, "-nowarning", "-noGenerateSpecTE",
           "-deadlock", "-workers", "1", *extra, "-config", cfg or f"{ROOT}/spec/{module}.cfg", f"{ROOT}/spec/{module}.tla"]
    rc, out = run(cmd, cwd, timeout, {"CASES": cfile})
    open(f"{cwd}/{tag}.tlc", "w").write(out)
    shutil.rmtree(meta, ignore_errors=True)
    res = {"accepted": set(), "rejects": {}, "states": 0, "distinct": 0, "rc": rc, "error": None}
    flat = re.sub(r"\n\s*", " ", out)
    # labels may be tuples of strings: <<"a", "b">> reads as "a.b"
    flat = re.sub(r'("REJECT",\s*"[^"]*",\s*\d+,\s*"[^"]*",\s*)<<([^<>]*)>>', lambda m: m.group(1) + '"' + ".".join(re.sub(r'["\s]', "", x) for x in m.group(2).split(",")) + '"', flat)
    for m in re.finditer(r'<<\s*"ACCEPT",\s*"([^"]*)"\s*>>', flat):
        res["accepted"].add(m.group(1))
    for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",\s*"([^"]*)",\s*(.*?)>>(?=\s*(?:<<\s*"(?:REJECT|ACCEPT|KNOWN|INFO)"|[A-Z0-9]|$))', flat):
        res["rejects"].setdefault(m.group(1), []).append({"line": int(m.group(2)), "event": m.group(3), "label": m.group(4), "info": m.group(5)[:600]})
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if m:
        res["states"], res["distinct"] = (int(x.replace(",", "")) for x in m.groups())
    if rc != 0:
        e = re.search(r"(Error: .*)", out, re.S)
        res["error"] = (e.group(1) if e else out)[:1500]
    return res


def known_findings(pid):
    out = []
    p = f"{ROOT}/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) label=(\S+)\s+(.*)", ln)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.top = f"{BUILD}/run/{pid}"
        shutil.rmtree(self.top, ignore_errors=True)
        os.makedirs(self.top, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol, self.known, self.errors, self.assume = [], [], [], []
        self.events = 0
        classes()
        try:
            self.cov["build"] = builder.build()
        except builder.BuildError as e:
            print(f"build failed: {e}")
            sys.exit(2)

    # ---- design-level model checking
    def model(self, module, cfg=None, timeout=600, workers=4, extra=(), expect_states=True):
        """TLC on a design model; a violation here means the specification itself is wrong (error), never the code."""
        meta = f"{self.top}/{cfg or module}.meta"
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp", CP, f"-DTLA-Library={ROOT}/spec", "tlc2.TLC", "-metadir", meta, "-nowarning", "-noGenerateSpecTE", "-workers", str(workers),
               *extra, "-config", f"{ROOT}/spec/{cfg or module}.cfg", f"{ROOT}/spec/{module}.tla"]
        rc, out = run(cmd, self.top, timeout)
        shutil.rmtree(meta, ignore_errors=True)
        open(f"{self.top}/{cfg or module}.tlc", "w").write(out)
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        st, di = (int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
        self.cov["states"] += di; self.cov["transitions"] += st
        self.cov.setdefault("models", []).append({"model": cfg or module, "states": di, "generated": st, "rc": rc, "exhaustive": rc == 0})
        if rc != 0:
            self.errors.append(f"model {cfg or module}: rc={rc}: {out[-1500:]}")
        return out

    # ---- conformance
    def conform(self, module, cases, tlc_timeout=400, batches=None, heap="2g"):
        if os.environ.get("VERIF_ONLY"):
            cases = [c for c in cases if re.search(os.environ["VERIF_ONLY"], c.name)]
        by = {}
        for c in cases:
            c.module = c.module or module
            c.prepare(self.top)
        t = time.time()
        # wide runs first; the slots a run takes are its ranks
        good, bad = [], []
        with cf.ThreadPoolExecutor(max_workers=max(1, JOBS - 1)) as ex:
            fut = {ex.submit(c.execute): c for c in sorted(cases, key=lambda c: -c.np)}
            for f in cf.as_completed(fut):
                (good if f.result() else bad).append(fut[f])
        self.cov["drive_s"] = round(self.cov.get("drive_s", 0) + time.time() - t, 1)
        t = time.time()
        good.sort(key=lambda c: c.name)
        for c in good:
            by.setdefault(c.module, []).append(c)
        jobs = []
        for mod, cs in by.items():
            nb = min(len(cs), batches or max(1, round(JOBS*len(cs)/max(1, len(good)))))
            for i in range(nb):
                jobs.append((mod, cs[i::nb], f"{mod}.b{i}"))
        again, alone = [], []
        with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
            for (mod, cs, tag), r in zip(jobs, ex.map(lambda j: tlc(j[0], j[1], self.top, j[2], tlc_timeout, heap=heap), jobs)):
                self.count(r, cs)
                for c in cs:
                    c.first = r["rejects"].get(c.name, [None])[0] or r["error"]
                    if c.name not in r["accepted"]:
                        (again if len(cs) == 1 or c.name in r["rejects"] or not r["error"] else alone).append(c)
        # an evaluation error ends the whole batch: the others of that batch once more, each by itself
        if alone:
            with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
                for c, r in zip(alone, ex.map(lambda c: tlc(c.module, [c], self.top, f"one.{c.name}", tlc_timeout, heap=heap), alone)):
                    self.count(r, [c])
                    c.first = r["rejects"].get(c.name, [None])[0] or r["error"]
                    if c.name not in r["accepted"]:
                        again.append(c)
        self.cov["tlc_s"] = round(self.cov.get("tlc_s", 0) + time.time() - t, 1)
        self.confirm(again, bad)
        if cases and len(self.cov["samples"]) < 3:
            for c in cases[:2]:
                self.cov["samples"].append({"case": c.name, "ranks": c.np, "script": c.script[:400].split("\n"), "meta": {k: v for k, v in c.meta.items() if len(str(v)) < 200}})

    def count(self, r, cs):
        self.cov["states"] += r["distinct"]; self.cov["transitions"] += r["states"]
        self.cov["traces_validated_against_impl"] += len(r["accepted"] & {c.name for c in cs})

    def confirm(self, rejected, crashed):
        """A rejection or a crash counts when it repeats."""
        def again(c):
            tries = []
            for n in range(5):
                if n or c in crashed:
                    c.prepare(self.top)
                    ok = c.execute()
                else:
                    ok = True
                if not ok:
                    if len(tries) == 2 and all(t[0] == "crash" for t in tries):
                        tries.append(("crash", tries[0][1]))
                        break
                    tries.append(("crash", {"line": 0, "event": "run", "label": "run-fails", "info": f"rc={c.rc} {c.out[-300:]}"}))
                    continue
                r = tlc(c.module, [c], self.top, f"re.{c.name}")
                if c.name in r["accepted"]:
                    tries.append(("ok", None)); continue
                rj = r["rejects"].get(c.name)
                if rj:
                    tries.append(("reject", rj[0]))
                elif r["rc"] in (-9, 137, -999) or (r["error"] and ("OutOfMemory" in r["error"] or "Parsing or semantic" in r["error"])):
                    tries.append(("tool", {"line": 0, "event": "tlc", "label": "tool", "info": r["error"] or ""}))
                else:
                    tries.append(("reject", {"line": 0, "event": "?", "label": "unexplained", "info": (r["error"] or "no action of the specification explains the event")[:900]}))
                if len([t for t in tries if t[0] == "reject"]) >= 2:
                    break
                if n >= 2 and not any(t[0] == "reject" for t in tries):
                    break
            return c, tries
        todo = sorted(rejected, key=lambda c: not isinstance(c.first, dict)) + crashed
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            done = []
            for i in range(0, len(todo), 4):
                if len(self.viol) >= 2 or len(done) > 40:
                    self.cov["unconfirmed"] = len(todo) - i
                    break
                for c, tries in ex.map(again, todo[i:i+4]):
                    done.append(c)
                    self.judge(c, tries)

    def judge(self, c, tries):
        rej = [t[1] for t in tries if t[0] == "reject"]
        cr = [t[1] for t in tries if t[0] == "crash"]
        ok = [t for t in tries if t[0] == "ok"]
        tool = [t[1] for t in tries if t[0] == "tool"]
        if len(rej) >= 2 or (rej and cr and not ok):
            self.violation(c, rej[0])
        elif len(cr) >= 3 and not ok:
            self.violation(c, cr[0])
        elif tool and not ok:
            self.errors.append(f"{c.name}: {tool[0]}")
        else:
            self.cov["traces_validated_against_impl"] += 1
            self.cov.setdefault("unrepeated", []).append({"case": c.name, "tries": [t[0] for t in tries], "first": str((rej + cr + [getattr(c, "first", None)])[0])[:300]})

    def violation(self, c, why):
        for pat, lab, txt in known_findings(self.pid):
            if pat.fullmatch(c.name) and lab.fullmatch(why["label"]):
                self.known.append(f"{txt} [{c.name}]")
                return
        rp = f"{BUILD}/replay/{self.pid}/{c.name}"
        shutil.rmtree(rp, ignore_errors=True)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        shutil.copytree(c.dir, rp, symlinks=True)
        json.dump({"property": self.pid, "case": c.name, "module": c.module, "why": why, "meta": c.meta}, open(f"{rp}/violation.json", "w"), indent=1)
        self.viol.append((rp, c.name, why))

    def fail(self, name, why, data=None):
        """A violation found outside a trace case."""
        for pat, lab, txt in known_findings(self.pid):
            if pat.fullmatch(name) and lab.fullmatch(why):
                self.known.append(f"{txt} [{name}]")
                return
        rp = f"{BUILD}/replay/{self.pid}/{name}"
        os.makedirs(rp, exist_ok=True)
        json.dump({"property": self.pid, "case": name, "why": why, "data": data}, open(f"{rp}/violation.json", "w"), indent=1, default=str)
        self.viol.append((rp, name, {"label": why, "info": str(data)[:300], "line": 0, "event": ""}))

    def done(self):
        wall = round(time.time() - self.t0, 2)
        os.makedirs(f"{ROOT}/evidence", exist_ok=True)
        if not self.cov["samples"]:
            self.cov["samples"].append("none")
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assume, "wall_s": wall, "violations": len(self.viol)}
        json.dump(ev, open(f"{ROOT}/evidence/{self.pid}.json", "w"), indent=1, default=str)
        for k in sorted(set(self.known)):
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        for rp, name, why in self.viol[:5]:
            print(f"  {name}: event {why['line']} {why['event']}: {why['label']} {why['info'][:400]}")
        print(f"{self.pid}: {self.cov['traces_validated_against_impl']} traces, {self.cov['states']} states, {wall} s, {len(self.viol)} violations, {len(self.errors)} errors")
        if self.viol:
            print(f"VIOLATION property={self.pid} replay={self.viol[0][0]}")
            sys.exit(1)
        if self.errors:
            for e in self.errors[:5]:
                print("ERROR:", e[:1500])
            sys.exit(2)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.top, ignore_errors=True)
        sys.exit(0)


def cli(lx=16, lz=16, ranks=1, prec="double", ng=1, **kw):
    """The command line of a run; lz is the depth of one rank."""
    a = {"size": lx, "depth": lz, "zgrid": ranks, "prec": prec, "device": "cpu", "prop": "rkn4", "msa": "1.0", "lsize": "4.0", "qcd": "4.0",
         "zi": "0.5", "zf": "4.0", "lap": ng, "steps": "1", "verbose": "0", "index": "0", "ctype": None}
    a.update(kw)
    out = []
    for k, v in a.items():
        if v is None:
            continue
        out.append(f"--{k}")
        if v != "":
            out.append(str(v))
    return out + ["--nologmpi"]
