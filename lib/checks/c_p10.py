"""P10: field gathering."""
import random

import fbuild
from vf import Scen
from checks import pic


def run(ctx):
    ctx.assumptions = [
        "particles lie in their tile; guard cells: as many as the particle shape needs (3 per axis)",
        "with reduced order and linear shape, particles not exactly on a node (the nearest node of a component is then ambiguous)",
    ]
    ctx.model("Deposit", "Deposit1.cfg")
    exe = fbuild.harness("pxh_field", extra=fbuild.FIELD)
    runs = ctx.run_all(exe, scenarios(ctx), pic.conv)
    ctx.validate("TracePic", runs, rerun=lambda sc: ctx.run_one(exe, sc, pic.conv)[0], describe=pic.describe, chunks=6)


def scenarios(ctx):
    rg = random.Random(1000 + ctx.seed)
    plan = []
    for o in (1, 2, 3):
        for fg in (0, 1, 2):
            for low in (True, False):
                plan.append((3, (o, o, o), fg, low))
    plan += [(3, (1, 2, 3), 0, True), (3, (3, 1, 2), 1, False), (3, (2, 3, 1), 2, True), (3, (1, 1, 2), 0, False)]
    plan += [(2, (o, o, o), fg, True) for o in (1, 2, 3) for fg in (0, 1, 2)] + [(2, (1, 1, 3), 0, True), (2, (3, 2, 2), 1, True)]
    if ctx.thorough:
        plan *= 4
    scens = []
    for k, (dim, o, fg, low) in enumerate(plan):
        U = {1: 8, 2: 8, 3: 4}[max(o)]
        cfg = pic.grid(rg, k, o, dims=(dim,))
        nodal = k % 7 == 5
        cfg.update(fgath=fg, lowv=low, lvf=rg.choice([4, 8, 256]), sepfg=(k // 2) % 3, nodal=nodal, pusher=k % 2)
        sc = ["decomp D", "species 1 1.0 1.0 1 0", "species 2 -2.0 3.0 1 0", "species 3 1.0 1.0 1 1", "pscale %d 1 1" % U]
        for i, p in enumerate(pic.clusters(rg, cfg, rg.choice([12, 30, 50]), U)):
            p = [x // 2 * 2 + 1 for x in p]
            sc.append("add %d %d %r %r %r 0.0 0.0 0.0 1.0 1" % (rg.choice([1, 1, 2, 2, 3]), i, *[x / U for x in p]))
        _, K = pic.scale(cfg, U, False)
        fs = float(K)
        r = 200 if 200 * K < 2**31 else 20 if 20 * K < 2**31 else 5
        sc += ["frange %d" % r, "fill %d 0" % k, "log a e b j r", "ppart P0 %r" % fs]
        if dim == 3:
            sc += ["gather", "ppart P1 %r" % fs, "fill %d 0" % (k + 999), "log b e b j r"]
        sc += ["gpush", "ppart P2 %r" % fs, "log c"]
        scens.append(Scen("gat%d" % k, cfg, sc, cfg["px"] * cfg["py"] * cfg["pz"], U=U, lowv=low, frozen=(3,), all=True))
    return scens
