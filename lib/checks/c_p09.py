"""P09: the Maxwell update (Maxwell.tla, TraceField.tla)."""
import random

import fbuild
from checks import field
from vf import Scen


def scenarios(ctx):
    rg = random.Random(ctx.seed + 9)
    res = []
    for k in range(96 if ctx.thorough else 20):
        cfg = field.grid(rg, k, 4 if k % 8 else 8)
        cfg["mcom"] = [0, 1, 2][(k // 3) % 3]
        v = k % 4
        S = 1024.0
        if v == 1:
            cfg.update(ordx=4, ordy=4, ordz=4)
        elif v == 3:
            o = [rg.choice([2, 4]) for _ in range(3)]
            o[rg.choice([0, 2])] = 4
            if rg.random() < 0.4:
                cfg.update(ordx=4, ordy=4, ordz=4, nodal=True)
            else:
                cfg.update(ordx=o[0], ordy=o[1], ordz=o[2])
        if v in (1, 3):
            S = 64.0
        if k % 16 == 9:
            cfg = field.grid(rg, k // 3 % 2, 4, g=[3, 3, 3])
            cfg.update(ordx=6, ordy=6, ordz=rg.choice([2, 6]))
            S = 16.0
        cfg.update(cdt=rg.choice([0.125, 0.25]), fs=S)
        s = ["decomp d", "coef", "fill %d 1" % rg.randrange(10**6), "log a e b j"]
        for st in range(2):
            field.ops(s, ["pushb", "bbcs", "pushe", "ebcs", "pushb", "bbcs"])
        name = "k%d_d%d_p%d%d%d_o%d%d%d%s" % (k, cfg["dimn"], cfg["px"], cfg["py"], cfg["pz"], cfg.get("ordx", 2), cfg.get("ordy", 2), cfg.get("ordz", 2), "n" if cfg.get("nodal") else "")
        res.append(Scen(name, cfg, s, cfg["px"] * cfg["py"] * cfg["pz"], maxwell=True))
    return res


def run(ctx):
    exe = fbuild.harness("pxh_field", extra=fbuild.FIELD)
    for c in ("Maxwell2.cfg", "Maxwell4.cfg", "MaxwellN.cfg"):
        ctx.model("MCMaxwell", c)
    runs = ctx.run_all(exe, scenarios(ctx), field.conv)
    ctx.validate("TraceField", runs, rerun=lambda sc: ctx.run_one(exe, sc, field.conv)[0], describe=field.describe)
    ctx.assumptions += ["stencils of order 2 and 4 (staggered) and 4 (nodal); time steps that are dyadic fractions of dx/c"]
