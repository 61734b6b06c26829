"""Shared machinery of the checks: scratch directories, running the harness programs on scenarios, TLC runs
(model checking and trace validation), violations and evidence."""

import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

import fbuild

VERIF = fbuild.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def nml(d):
    def f(v):
        if isinstance(v, bool):
            return ".TRUE." if v else ".FALSE."
        if isinstance(v, (list, tuple)):
            return ",".join(f(x) for x in v)
        return repr(v)

    return "&cfg\n" + "\n".join("%s = %s" % (k, f(v)) for k, v in d.items()) + "\n/\n"


class Scen:
    """One scenario for the real code: a namelist configuration, a script of commands and a number of ranks."""

    def __init__(self, name, cfg=None, script=(), n=1, timeout=40, **info):
        self.name, self.cfg, self.script, self.n, self.timeout, self.info = name, cfg, list(script), n, timeout, info


class TLCResult:
    pass


class ModelError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.wd = os.path.join(VERIF, "build", "run", "%s_%d" % (prop, os.getpid()))
        shutil.rmtree(self.wd, ignore_errors=True)
        os.makedirs(self.wd)
        self.replay_dir = os.path.join(VERIF, "build", "replay", prop)
        self.violations = []
        self.states = self.transitions = self.traces = self.events = self.samples = 0
        self.models, self.sample_list, self.assumptions, self.notes = [], [], [], []
        self.lock = threading.Lock()
        self.n = 0
        self.tlc_timeout = 300

    # ---- running the real code -------------------------------------------------------------------------
    def dir(self, name):
        with self.lock:
            self.n += 1
            d = os.path.join(self.wd, "%04d_%s" % (self.n, re.sub(r"\W+", "_", name)[:40]))
        os.makedirs(d)
        return d

    def run_one(self, exe, sc, conv, args=("cfg", "script", "out")):
        """Runs one scenario; returns (events, directory), or (None, directory) when the program did not end well."""
        out = ""
        for attempt in range(3):
            d = self.dir(sc.name)
            if sc.cfg is not None:
                with open(os.path.join(d, "cfg"), "w") as f:
                    f.write(nml(sc.cfg))
            with open(os.path.join(d, "script"), "w") as f:
                f.write("\n".join(sc.script) + "\n")
            for k, v in sc.info.get("files", {}).items():
                with open(os.path.join(d, k), "w") as f:
                    f.write(v)
            if sc.n == 0:
                rc, out = run_plain([exe] + list(sc.info.get("args", args)), d, sc.timeout, sc.info.get("env"))
            else:
                rc, out = fbuild.mpirun(exe, sc.n, sc.info.get("args", args), cwd=d, timeout=sc.timeout * (attempt + 1), extra_env=sc.info.get("env"))
            with open(os.path.join(d, "output"), "w") as f:
                f.write("exit code %d\n" % rc + out)
            if rc == 0:
                logs = []
                for r in range(max(sc.n, 1)):
                    p = os.path.join(d, "out.%d" % r)
                    logs.append([l.split() for l in open(p, errors="replace")] if os.path.exists(p) else [])
                return conv(sc, logs, d), d
            if rc == -99 and attempt >= 1:
                break  # a hang, twice
            time.sleep(0.5 * attempt)
        return None, d

    def run_all(self, exe, scens, conv, args=("cfg", "script", "out"), par=None):
        """Runs the scenarios, several at a time; returns [(scenario, events)], reporting those that crash or hang."""
        res = []

        def job(sc):
            if len(self.violations) >= 3:
                return sc, None
            ev, d = self.run_one(sc.info.get("exe", exe), sc, conv, args)
            if ev is None:
                tail = open(os.path.join(d, "output")).read()[-600:]
                self.violation("the program crashed, stopped or hung on scenario %s (repeatedly): %s" % (sc.name, tail), [d])
            else:
                shutil.rmtree(d, ignore_errors=True)
            return sc, ev

        big = max([s.n for s in scens] + [1])
        with ThreadPoolExecutor(par or max(1, min(8, 16 // big))) as ex:
            for sc, ev in ex.map(job, scens):
                if ev is not None:
                    res.append((sc, ev))
        return res

    # ---- TLC --------------------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, workers=1, env=None, timeout=800, heap="3g", extra=()):
        md = self.dir("tlc")
        cfg = os.path.join(SPEC, cfg or module + ".cfg")
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-cp", JAR + ":" + fbuild.java(), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md]
        cmd += ["-workers", str(workers), "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        r = TLCResult()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            r.out, r.rc = p.stdout.decode("utf-8", "replace"), p.returncode
        except subprocess.TimeoutExpired as x:
            r.out, r.rc = (x.stdout or b"").decode("utf-8", "replace"), -99
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
        r.gen, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The depth of the complete state graph search is (\d+)", r.out)
        r.depth = int(m.group(1)) if m else None
        r.ok = r.rc == 0 and "No error has been found" in r.out
        return r

    def model(self, module, cfg=None, workers=4, timeout=600, heap="4g"):
        """Exhaustive model checking of the specification itself: its failure is an error of the check, since it
        does not depend on the code."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, extra=("-deadlock",))
        if not r.ok:
            raise ModelError("model checking %s/%s failed (rc %d)\n%s" % (module, cfg, r.rc, r.out[-3000:]))
        with self.lock:
            self.states += r.distinct
            self.transitions += r.gen
            self.models.append("%s: %d distinct states, %d generated, depth %s" % (cfg or module, r.distinct, r.gen, r.depth))
        return r

    def validate(self, module, runs, cfg=None, rerun=None, chunks=4, timeout=400, describe=None, heap="3g"):
        """Trace validation: runs = [(scenario, events)].  The traces go through TLC in a few batches.  A scenario whose trace
        the specification rejects is run again (rerun(scenario) -> events); a rejection that a new run repeats is a violation."""
        runs = [x for x in runs if x[1]]
        if not runs:
            return
        size = [(sum(len(json.dumps(e)) for e in ev), i) for i, (sc, ev) in enumerate(runs)]
        groups = [[0, []] for _ in range(max(1, min(chunks, len(runs))))]
        for s, i in sorted(size, reverse=True):
            g = min(groups, key=lambda g: g[0])
            g[0] += s
            g[1].append(i)

        def work(g):
            idx = sorted(g[1])
            while idx:
                acc, bad, r = self._accept(module, cfg, [runs[i] for i in idx], timeout, heap)
                with self.lock:
                    self.states += r.distinct
                    self.transitions += r.gen
                if bad is None:
                    self._count(runs, idx)
                    return
                # the scenario that holds the rejected line, alone
                self._count(runs, idx[:bad])
                self._confirm(module, cfg, runs[idx[bad]], rerun, timeout, heap, describe)
                idx = idx[bad + 1 :]
                if len(self.violations) >= 3:
                    return

        with ThreadPoolExecutor(len(groups)) as ex:
            for f in [ex.submit(work, g) for g in groups]:
                f.result()

    def _count(self, runs, idx):
        with self.lock:
            for i in idx:
                self.traces += 1
                self.events += len(runs[i][1])
                if len(self.sample_list) < 4:
                    self.sample_list.append({"scenario": runs[i][0].name, "events": len(runs[i][1]), "first": json.dumps(runs[i][1][0])[:300]})

    def _accept(self, module, cfg, runs, timeout, heap):
        d = self.dir("trace")
        p = os.path.join(d, "trace.ndjson")
        ends, n = [], 0
        with open(p, "w") as f:
            for sc, ev in runs:
                for e in ev:
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
                n += len(ev)
                ends.append(n)
        r = self.tlc(module, cfg, env={"TRACE": p}, timeout=timeout, heap=heap)
        shutil.rmtree(d, ignore_errors=True)
        if r.ok:
            return True, None, r
        if r.rc == -99:
            raise ModelError("trace validation with %s ran out of time" % module)
        if r.depth is not None and re.search(r"Postcondition \w+ .*is (false|violated)", r.out):
            line = r.depth - 1  # lines consumed: the next one is rejected
        elif "Parsing or semantic analysis failed" in r.out:
            raise ModelError("TLC cannot read %s: %s" % (module, r.out[-1500:]))
        else:
            # an invariant is violated, or the evaluation of a line failed: the state printed last tells the position
            m = re.findall(r"^/\\ l = (\d+)", r.out, re.M)
            if not m or not re.search(r"Invariant \w+ is violated|The error occurred when|Attempted to|evaluat|The first argument", r.out):
                raise ModelError("TLC failed on %s (rc %d)\n%s" % (module, r.rc, r.out[-3000:]))
            line = int(m[-1]) - (2 if "Invariant" in r.out else 1)
        for k, e in enumerate(ends):
            if line < e:
                r.line = line - (ends[k - 1] if k else 0)
                return False, k, r
        return False, len(ends) - 1, r

    def _confirm(self, module, cfg, run, rerun, timeout, heap, describe):
        sc, ev = run
        last = None
        for attempt in range(3):
            acc, bad, r = self._accept(module, cfg, [(sc, ev)], timeout, heap)
            if bad is not None:
                if attempt > 0 or rerun is None:
                    last = (ev, r)
                    break
            ev2 = rerun(sc) if rerun else ev
            if ev2 is None:
                break
            ev = ev2
        if last is None:
            self.notes.append("one rejection of scenario %s was not repeated by 3 runs" % sc.name)
            return
        ev, r = last
        d = self.dir("rej_" + sc.name)
        with open(os.path.join(d, "trace.ndjson"), "w") as f:
            for e in ev:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        with open(os.path.join(d, "tlc.txt"), "w") as f:
            f.write(r.out)
        line = getattr(r, "line", 0)
        e = ev[min(line, len(ev) - 1)]
        if sc.cfg is not None:
            open(os.path.join(d, "cfg"), "w").write(nml(sc.cfg))
        open(os.path.join(d, "script"), "w").write("\n".join(sc.script) + "\n")
        txt = describe(sc, ev, line) if describe else json.dumps(e)[:400]
        self.violation("%s rejects event %d of scenario %s (%d ranks): %s" % (module, line + 1, sc.name, sc.n, txt), [d])

    # ---- results ----------------------------------------------------------------------------------------
    def violation(self, msg, paths=()):
        with self.lock:
            k = len(self.violations)
            d = os.path.join(self.replay_dir, "v%d" % k)
            self.violations.append((msg, d))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for p in paths:
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(d, os.path.basename(p)), ignore=shutil.ignore_patterns("*.mod"))
            elif os.path.exists(p):
                shutil.copy(p, d)
        with open(os.path.join(d, "README"), "w") as f:
            f.write(msg + "\n\nRun again: python3 /verif/check.py %s --tier %s --seed %d\n" % (self.prop, self.tier, self.seed))

    def evidence(self):
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_validated": self.events,
                "models": self.models,
                "samples": self.sample_list,
            },
            "wall_s": round(time.time() - self.t0, 1),
            "assumptions": self.assumptions,
            "violations": len(self.violations),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.rename(p + ".tmp", p)


def run_plain(cmd, cwd, timeout, extra_env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(fbuild.env(), **(extra_env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("utf-8", "replace")[-20000:]
    except subprocess.TimeoutExpired as e:
        return -99, "timeout\n"


def main(prop, fn, tier, seed):
    ctx = Ctx(prop, tier, seed)
    rc = 2
    try:
        fn(ctx)
        rc = 0
    except (fbuild.BuildError, ModelError) as e:
        print("ERROR property=%s %s" % (prop, e))
    except Exception:
        traceback.print_exc(file=sys.stdout)
    if ctx.violations:
        rc = 1
        for m, d in ctx.violations:
            print(m.replace("\n", " | ")[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, d))
    elif rc == 0:
        print("OK property=%s %d traces, %d events, %d states, %.0f s" % (prop, ctx.traces, ctx.events, ctx.states, time.time() - ctx.t0))
    ctx.evidence()
    shutil.rmtree(ctx.wd, ignore_errors=True)
    return rc
