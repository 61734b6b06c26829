"""P08: charge conservation of the deposition over steps of the particles."""
import random

import fbuild
from vf import Scen
from checks import pic


def run(ctx):
    ctx.assumptions = [
        "periodic box; charge-conserving (Esirkepov) deposition, which is the default; a step moves a particle by less than a cell",
        "equality up to 6 units of the last logged digit (1e-6 of one particle's charge)",
    ]
    ctx.model("Deposit", "Deposit5.cfg" if ctx.thorough else "Deposit2.cfg")
    ctx.model("Deposit", "Deposit4.cfg" if ctx.thorough else "Deposit3.cfg")
    exe = fbuild.harness("pxh_field", extra=fbuild.FIELD)
    scens = scenarios(ctx)
    runs = ctx.run_all(exe, scens, conv)
    ctx.validate("TracePic", runs, rerun=lambda sc: ctx.run_one(exe, sc, conv)[0], describe=pic.describe, chunks=4)


def conv(sc, logs, d):
    return setonly(pic.conv(sc, logs, d))


def scenarios(ctx):
    rg = random.Random(800 + ctx.seed)
    plan = []
    for o in (1, 2, 3):
        for cd in (0, 1, 2):
            plan.append((3, (o, o, o), cd, (cd + o) % 3))
    plan += [(3, (1, 2, 3), 0, 0), (3, (3, 1, 2), 2, 1), (3, (2, 3, 1), 3, 2), (3, (1, 3, 3), 5, 1), (3, (2, 2, 1), 4, 0)]
    plan += [(2, (o, o, o), 0, 0) for o in (1, 2, 3)] + [(2, (2, 2, 2), 2, 0), (2, (1, 1, 3), 0, 0), (2, (3, 1, 2), 2, 0)]
    if ctx.thorough:
        plan *= 5
    scens = []
    for k, (dim, o, cd, rd) in enumerate(plan):
        cfg = pic.grid(rg, k, o, dims=(dim,), maxranks=6)
        h = min(cfg["hx"], cfg["hy"] if dim == 3 else 99, cfg["hz"])
        cfg.update(cdepo=cd, rdepo=rd, lvc=8, lvr=rg.choice([8, 64]), cdt=h * 0.9, fgath=k % 3, pusher=k % 2, sepfg=k % 3, pcom=0, mcom=rg.choice([0, 1, 2]))
        U = 1000
        n = rg.choice([20, 40, 60])
        sc = ["decomp D", "species 1 1.0 1e-15 1 0", "species 2 -2.0 5e-16 1 0", "species 3 1.0 1e-15 0 0", "pscale %d 1000 1000" % U, "units 1e6 1e6", "famp %r" % rg.choice([0.0, 0.3, 1.0]), "fill %d 1" % k]
        for i, p in enumerate(pic.clusters(rg, cfg, n, U)):
            u = [rg.uniform(-1, 1) * rg.choice([0.1, 1, 3]) for _ in range(3)]
            sc.append("addu %d %d %r %r %r %r %r %r %d" % (rg.choice([1, 1, 2, 2, 3]), i, *[x / U for x in p], *u, rg.choice([1, 1, 2])))
        sc += ["log a j r", "rdep", "rbcs", "log b r", "keep"]
        for step in range(3):
            sc += ["gpush", "pbcs", "jdep", "jbcs", "log c%d j" % step, "rdep", "rbcs", "log d%d r" % step, "cont", "keep"]
        scens.append(Scen("cont%d" % k, cfg, sc, cfg["px"] * cfg["py"] * cfg["pz"], U=U, alg="esir", seton=True))
    return scens


def setonly(ev):
    """The logged arrays are those after several calls: they are taken as they are."""
    for e in ev:
        if e["ev"] in ("jdep", "rdep", "jbcs", "rbcs"):
            e["ev"] = "set"
    return ev
