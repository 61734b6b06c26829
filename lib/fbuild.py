"""Builds the Fortran sources of /repo's working tree, as they are now, into a static library in a scratch
directory under /verif/build, and links the harness programs of /verif/harness against it.

The scratch directory is named after a hash of the sources and flags, so nothing stale is ever reused."""

import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import threading
import fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PICSAR_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
FC = ["mpif90", "-fallow-argument-mismatch"]
FLAGS = ["-O1", "-g0", "-cpp", "-D", "FFTW=1", "-I/usr/include", "-w", "-finit-real=snan", "-finit-integer=-987654321"]
LINK = ["-lgomp", "-lfftw3_mpi", "-lfftw3", "-lfftw3_omp", "-lm"]
FIELD = ["pxh_core.F90", "pxh_diag.F90", "pxh_stubs.F90"]  # what pxh_field needs
SKIP = {"src/main.F90"}


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(LC_ALL="C", OMPI_FC="gfortran", OMPI_CC="gcc", OMP_NUM_THREADS="1")
    e.update(
        OMPI_ALLOW_RUN_AS_ROOT="1",
        OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_rmaps_base_oversubscribe="1",
        OMPI_MCA_btl="self,vader",
        OMPI_MCA_btl_vader_single_copy_mechanism="none",
        OMPI_MCA_plm_rsh_agent="false",
        OMPI_MCA_hwloc_base_binding_policy="none",
        OMPI_MCA_mpi_yield_when_idle="1",
    )
    return e


def sources():
    res = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        if "multi_physics" in dirs:
            dirs.remove("multi_physics")
        dirs.sort()
        for f in sorted(files):
            r = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith((".F90", ".f90", ".h", ".inc")) and r not in SKIP:
                res.append(r)
    return res


def digest(extra):
    h = hashlib.sha256()
    h.update(repr(extra).encode())
    for r in sources():
        h.update(r.encode() + b"\0")
        with open(os.path.join(REPO, r), "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def run(cmd, cwd, what):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(what + "\n" + p.stdout.decode("utf-8", "replace")[-3000:])
    return p.stdout.decode("utf-8", "replace")


def prune(keep):
    """Drops the oldest scratch builds, beyond the six most recent."""
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("f_")]
    ds = sorted((d for d in ds if d != keep), key=os.path.getmtime)
    for d in ds[:-5]:
        shutil.rmtree(d, ignore_errors=True)


def lib(flags=FLAGS):
    """Returns the directory of the compiled library for these flags."""
    key = digest([FC, flags])
    top = os.path.join(BUILD, "f_" + key)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock_" + key), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(top, "libpicsar.a")):
            os.utime(top)
            return top
        shutil.rmtree(top, ignore_errors=True)
        os.makedirs(os.path.join(top, "o"))
        _compile(top, flags)
        prune(top)
    os.remove(os.path.join(BUILD, "lock_" + key))
    return top


def _compile(top, flags):
    src = [s for s in sources() if s.endswith((".F90", ".f90"))]
    odir = os.path.join(top, "o")

    def scan(f):
        p = subprocess.run(
            ["gfortran"] + flags + ["-E", "-P", os.path.join(REPO, f)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env()
        )
        t = p.stdout.decode("utf-8", "replace").lower()
        mods = set(re.findall(r"^\s*module\s+(?!procedure\b)(\w+)\s*(?:!.*)?$", t, re.M))
        uses = set(re.findall(r"^\s*use\s*(?:,\s*\w+\s*::)?\s*(\w+)", t, re.M))
        return mods, uses

    with ThreadPoolExecutor(8) as ex:
        info = dict(zip(src, ex.map(scan, src)))
    where = {}
    for f in src:
        for m in info[f][0]:
            where[m] = f
    deps = {f: {where[u] for u in info[f][1] if u in where} - {f} for f in src}
    obj = {f: os.path.join(odir, f.replace("/", "__").rsplit(".", 1)[0] + ".o") for f in src}
    done, started, errs = set(), set(), []
    cv = threading.Condition()

    def job(f):
        try:
            run(FC + flags + ["-J", odir, "-I", odir, "-c", os.path.join(REPO, f), "-o", obj[f]], odir, "compiling " + f)
        except BuildError as e:
            with cv:
                errs.append(str(e))
        with cv:
            done.add(f)
            cv.notify_all()

    size = {f: os.path.getsize(os.path.join(REPO, f)) for f in src}
    with ThreadPoolExecutor(8) as ex:
        with cv:
            while len(done) < len(src) and not errs:
                ready = [f for f in src if f not in started and deps[f] <= done]
                for f in sorted(ready, key=lambda f: -size[f]):
                    started.add(f)
                    ex.submit(job, f)
                if not ready and started == done:
                    errs.append("circular module dependencies")
                    break
                cv.wait()
    if errs:
        raise BuildError(errs[0])
    tmp = os.path.join(top, "tmp.a")
    run(["ar", "rcs", tmp] + sorted(obj.values()), odir, "ar")
    os.rename(tmp, os.path.join(top, "libpicsar.a"))


def harness(name, top=None, flags=FLAGS, extra=(), link=()):
    """Links /verif/harness/<name>.F90 (and the helper sources in extra) against the library."""
    top = top or lib(flags)
    srcs = [os.path.join(VERIF, "harness", x) for x in list(extra) + [name + ".F90"]]
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, "rb").read())
    h.update(repr((flags, link)).encode())
    exe = os.path.join(top, name + "_" + h.hexdigest()[:12])
    if not os.path.exists(exe):
        md = exe + ".mod"
        os.makedirs(md, exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        run(
            FC + flags + ["-ffree-line-length-none", "-J", md, "-I", os.path.join(top, "o")] + srcs + ["-o", tmp, os.path.join(top, "libpicsar.a")] + list(link) + LINK,
            md,
            "building harness " + name,
        )
        os.rename(tmp, exe)
    return exe


def mpirun(exe, n, args=(), cwd=None, timeout=120, extra_env=None):
    """Runs a program on n ranks; returns (exit code, output), -99 after a time-out."""
    cmd = ["mpirun", "-np", str(n), "--oversubscribe", exe] + [str(a) for a in args]
    e = env()
    e.update(extra_env or {})
    with tempfile.TemporaryFile() as out:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = -99
            p.terminate()  # mpirun ends its ranks
            try:
                p.wait(timeout=10)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
        out.seek(0)
        return rc, out.read()[-20000:].decode("utf-8", "replace")


if __name__ == "__main__":
    import time

    t = time.time()
    print(lib(), time.time() - t)


# ---- the QED library (C++ headers) and the compiled TLC module overrides ------------------------------------------
QED = os.path.join("src", "multi_physics", "QED", "src")


def cxx(name, src, flags=()):
    """Compiles harness/<src> against the QED headers of the working tree; returns the program."""
    h = hashlib.sha256(repr(list(flags)).encode())
    q = os.path.join(REPO, QED)
    for p in sorted(os.path.join(d, f) for d, _, fs in os.walk(q) for f in fs) + [os.path.join(VERIF, "harness", src)]:
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    top = os.path.join(BUILD, "cxx")
    os.makedirs(top, exist_ok=True)
    exe = os.path.join(top, "%s_%s" % (name, h.hexdigest()[:16]))
    if not os.path.exists(exe):
        for o in os.listdir(top):
            try:
                if o.startswith(name + "_") and time.time() - os.path.getmtime(os.path.join(top, o)) > 3600:
                    os.remove(os.path.join(top, o))
            except OSError:
                pass  # another check was faster
        tmp = "%s.%d.%d" % (exe, os.getpid(), threading.get_ident())
        run(["g++", "-w", "-I" + q] + list(flags) + [os.path.join(VERIF, "harness", src), "-o", tmp], VERIF, "compiling the QED library with " + src)
        os.rename(tmp, exe)
    return exe


def java():
    """Compiles the TLC module overrides of spec/java."""
    d = os.path.join(VERIF, "spec", "java")
    h = hashlib.sha256()
    fs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".java"))
    for p in fs:
        with open(p, "rb") as f:
            h.update(f.read())
    top = os.path.join(BUILD, "java_" + h.hexdigest()[:16])
    if not os.path.exists(top):
        tmp = "%s.%d" % (top, os.getpid())
        os.makedirs(tmp, exist_ok=True)
        run(["javac", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", tmp] + fs, VERIF, "compiling the TLC module overrides")
        try:
            os.rename(tmp, top)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return top
