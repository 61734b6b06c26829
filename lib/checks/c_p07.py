"""P07: deposited charge and current."""
import random

import fbuild
from vf import Scen
from checks import pic


def run(ctx):
    ctx.assumptions = [
        "a particle moves by less than one cell in the step and lies in its tile when it deposits",
        "guard cells: as many as the particle shape needs (3 per axis); every process has more cells than guard cells",
    ]
    ctx.model("Deposit", "Deposit1.cfg")
    ctx.model("Deposit", "Deposit5.cfg" if ctx.thorough else "Deposit2.cfg")
    exe = fbuild.harness("pxh_field", extra=fbuild.FIELD)
    rg = random.Random(700 + ctx.seed)
    scens = []
    # (dimension, orders, current algorithm selector, charge algorithm selector)
    plan = []
    for o in (1, 2, 3):
        for cd in (0, 1, 2, 3, 4, 5):
            plan.append((3, (o, o, o), cd, cd % 3))
    plan += [(3, (1, 2, 3), c, c % 2) for c in (0, 2, 5)] + [(3, (3, 1, 2), 1, 2), (3, (2, 3, 1), 3, 0), (3, (1, 1, 2), 4, 1)]
    for o in (1, 2, 3):
        plan += [(2, (o, o, o), c, 0) for c in (0, 2)]
    plan += [(2, (1, 1, 3), 0, 0), (2, (2, 1, 1), 2, 1), (2, (3, 2, 2), 1, 2)]
    if ctx.thorough:
        plan = plan * 4
    for k, (dim, o, cd, rd) in enumerate(plan):
        U = {1: 8, 2: 8, 3: 4}[max(o)]
        if dim == 3 and max(o) == 2:
            U = 4 if len(set(o)) > 1 else 8
        cfg = pic.grid(rg, k, o, dims=(dim,))
        same = len(set(o)) == 1
        direct = dim == 3 and same and cd in (3, 4, 5)
        cfg.update(cdepo=cd, rdepo=rd, lvc=rg.choice([4, 8, 16]), lvr=rg.choice([4, 8, 64]), nodal=direct and k % 5 == 4)
        if cd == 3:
            # the grouped algorithm: every tile must hold its cells only
            cfg["lvc"] = 8
        big = DENBIG(o, U, dim)
        n = rg.choice([14, 24, 40]) if not big else rg.choice([10, 16])
        sc = ["decomp D"]
        qs = [(1.0, 1), (-2.0, 1), (3.0, 0)]
        for s, (q, dep) in enumerate(qs, 1):
            sc.append("species %d %r 1.0 %d 0" % (s, q, dep))
        sc.append("pscale %d 1 1" % U)
        ids = 0
        for p in pic.clusters(rg, cfg, n, U):
            ids += 1
            dd = [rg.randrange(-(U // 2) + 1, U // 2) * 2 for _ in range(3)]
            s = rg.choice([1, 1, 2, 2, 3])
            sc.append("add %d %d %r %r %r %r %r %r %r %d" % (s, ids, *[x / U for x in p], *[x / U for x in dd], rg.choice([0.5, 0.25, 1.0]), rg.choice([1, 1, 2]) if not big else 1))
        kj, kr = pic.scale(cfg, U, direct)
        sc += ["units %r %r" % (float(kj), float(kr)), "ppart A 1", "log a j r"]
        t = 0
        for op in ["jdep", "jbcs", "rdep", "rbcs"]:
            t += 1
            sc += [op, "log b%d %s" % (t, pic.LOGS[op])]
        if dim == 3 and same:
            for a in ([2, 3] if direct else [1, 0]):
                t += 1
                sc += ["jalgo %d" % a, "log b%d j" % t]
            for kk in [["s1", "v1"], ["s2", "v2"], ["s3", "v3"]][o[0] - 1]:
                t += 1
                sc += ["rkern %s" % kk, "log b%d r" % t]
        scens.append(Scen("dep%d" % k, cfg, sc, cfg["px"] * cfg["py"] * cfg["pz"], U=U, alg="dir" if direct else "esir", dep=(1, 2)))
    runs = ctx.run_all(exe, scens, pic.conv)
    ctx.validate("TracePic", runs, rerun=lambda sc: ctx.run_one(exe, sc, pic.conv)[0], describe=pic.describe, chunks=6)


def DENBIG(o, U, dim):
    p = 6
    for a in range(3):
        if dim == 3 or a != 1:
            p *= pic.DEN[o[a]](U)
    return p > 5e7
