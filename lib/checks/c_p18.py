"""P18: the result does not depend on the OpenMP threads."""
import copy
import hashlib
import random

import fbuild
from vf import ModelError, Scen
from checks import c_p02, c_p03, c_p08, c_p10, part, pic

OMP = fbuild.FLAGS + ["-fopenmp"]


def digest(sc, logs, d):
    """Signature of what each log of a run holds; the particles in any order, since a tile may keep them in any."""
    tags, parts = {}, {}
    for r, ls in enumerate(logs):
        for l in ls:
            if l[0] == "S":
                tags.setdefault(l[1], []).append([r] + l[2:])
            elif l[0] == "p":
                parts.setdefault(l[1], []).append([str(r)] + l[2:])
    for t, x in parts.items():
        tags[t] = sorted(x)
    return {t: hashlib.sha256(repr(x).encode()).hexdigest()[:12] for t, x in sorted(tags.items())}


def stress(ctx):
    rg = random.Random(1800 + ctx.seed)
    plan = [(3, o, cd, rd) for o, cd, rd in ((1, 0, 0), (2, 1, 1), (3, 2, 2), (1, 2, 1), (3, 0, 0), (2, 3, 2), (1, 4, 0), (2, 5, 0))]
    plan += [(2, 1, 0, 0), (2, 2, 0, 0), (2, 3, 2, 0)]
    if ctx.thorough:
        plan *= 4
    scens = []
    for k, (dim, o, cd, rd) in enumerate(plan):
        n = 24 if dim == 3 else 64
        nt = rg.choice([4, 5, 6]) if dim == 3 else 8
        cfg = dict(dimn=dim, nxc=n, nyc=n if dim == 3 else 2, nzc=n, px=1, py=1, pz=1, topo=0, sp=2, npids=2, ngx=3, ngy=3, ngz=3, njx=3, njy=3, njz=3)
        cfg.update(hx=1.0, hy=1.0, hz=1.0, x0=0.0, y0=0.0, z0=0.0, ntx=nt, nty=nt if dim == 3 else 1, ntz=nt, ox=o, oy=o, oz=o)
        cfg.update(cdepo=cd, rdepo=rd, lvc=8, lvr=8, lvf=64, cdt=0.5, fgath=k % 3, pusher=k % 2, sepfg=k % 3 if dim == 3 else 0, lowv=bool(k % 2))
        cfg.update(pcom=k % 3, mcom=k % 3)
        sc = ["decomp D", "species 1 1.0 1e-15 1 0", "species 2 -2.0 5e-16 1 0", "pscale 1000 1000 1000", "units 1e4 1e4", "famp 0.3", "fill %d 1" % k]
        for i in range(4000):
            x = [rg.randrange(0, n * 1000) / 1000 + 0.00037 for _ in range(3)]
            if dim == 2:
                x[1] = 0.25
            sc.append("addu %d %d %r %r %r %r %r %r 1" % (rg.choice([1, 2]), i, *x, *[rg.uniform(-1, 1) for _ in range(3)]))
        sc += ["ebcs", "bbcs", "pushb", "pushe", "pushb", "log f", "frange 1", "fill %d 1" % k]
        for t in range(3):
            sc += ["gpush", "ppart p%d 1000.0" % t, "pbcs", "ppart q%d 1000.0" % t]
            for m in range(6):
                sc += ["jdep", "log j%d%d" % (t, m)]
                if dim == 3 or m == 0:
                    sc += ["rdep", "log r%d%d" % (t, m)]
        scens.append(Scen("threads%d" % k, cfg, sc, 1, nt=nt))
    return scens


def run(ctx):
    ctx.assumptions = [
        "the OpenMP runs see schedules the machine makes: 1 to 8 threads, many small tiles, the calls repeated; the model covers every schedule of 2 or 3 threads",
        "equality to the last logged digit (1e-4 of a particle's charge, 1e-3 of a cell)",
    ]
    ctx.model("Threads")
    ctx.model("Threads", "Threads3.cfg")
    if ctx.thorough:
        ctx.model("Threads", "Threads9.cfg")
    bad = ctx.tlc("Threads", "ThreadsRace.cfg")
    if "RaceFree is violated" not in bad.out:
        raise ModelError("without the lock, the model must have a race\n" + bad.out[-2000:])
    fbuild.lib()
    try:
        exe = fbuild.harness("pxh_field", extra=fbuild.FIELD, flags=OMP)
    except fbuild.BuildError as e:
        ctx.violation("the code compiles, but not with OpenMP: %s" % e)
        return

    def one(sc, nt, schedule="static"):
        s = copy.copy(sc)
        s.info = dict(sc.info, env={"OMP_NUM_THREADS": str(nt), "OMP_SCHEDULE": schedule})
        return ctx.run_one(exe, s, digest)[0]

    def series(sc):
        ref = one(sc, 1)
        if ref is None:
            return None
        ev = [dict(ev="cfg", tiles=sc.info["nt"]), dict(ev="ref", nt=1, logs=ref)]
        # as many threads as tiles along an axis: neighbours in x, in y and in z are dealt with at the same time
        n = sc.info["nt"]
        for nt, schedule in ((n, "static,1"), (n, "static,%d" % n), (n, "static"), (8, "dynamic,1")):
            x = one(sc, nt, schedule)
            if x is None:
                return None
            ev.append(dict(ev="run", nt=nt, schedule=schedule, logs=x))
        return ev

    runs = []
    for sc in stress(ctx):
        ev = series(sc)
        if ev is None:
            ctx.violation("the program crashed or hung on scenario %s with OpenMP threads" % sc.name)
            return
        runs.append((sc, ev))
    ctx.validate("TraceThreads", runs, rerun=series, describe=describe, chunks=1)

    # the values themselves, with threads: the specifications of P02, P03, P08 and P10
    pexe = fbuild.harness("pxh_part", extra=["pxh_core.F90"], flags=OMP)
    for mod, x, spec, conv, desc in (
        (c_p08, exe, "TracePic", c_p08.conv, pic.describe),
        (c_p10, exe, "TracePic", pic.conv, pic.describe),
        (c_p02, pexe, "TracePart", part.conv, part.describe),
        (c_p03, pexe, "TracePart", part.conv, part.describe),
    ):
        scens = mod.scenarios(ctx)
        scens = scens if ctx.thorough else scens[(ctx.seed % 2) :: 2]
        for sc in scens:
            sc.info["env"] = {"OMP_NUM_THREADS": "3"}
        rs = ctx.run_all(x, scens, conv, par=2)
        ctx.validate(spec, rs, rerun=lambda sc: ctx.run_one(x, sc, conv)[0], describe=desc, chunks=6)


def describe(sc, ev, line):
    e = ev[line]
    diff = [t for t in e.get("logs", {}) if ev[1]["logs"].get(t) != e["logs"][t]]
    return "with %s threads (%s) the logs %s differ from those of one thread (dimension %d, %d tiles per axis, order %d, current algorithm %d, charge algorithm %d)" % (
        e.get("nt"), e.get("schedule"), ", ".join(diff[:8]), sc.cfg["dimn"], sc.info["nt"], sc.cfg["ox"], sc.cfg["cdepo"], sc.cfg["rdepo"])
