"""P03: boundary conditions of the particles (PartExchange.tla, TracePart.tla)."""
import random

import fbuild
from checks import part
from vf import Scen


def scenarios(ctx):
    rg = random.Random(ctx.seed)
    res = []
    for k in range(160 if ctx.thorough else 40):
        cfg = part.base_cfg(rg, k, 8)
        pb = []
        for a in range(3):
            pb += rg.choice([[0, 0], [1, 1], [2, 2], [3, 3], [1, 2], [2, 1], [3, 1], [1, 3], [2, 3]]) if a != k % 3 else [[1, 1], [2, 2], [3, 3], [2, 1], [1, 3]][(k // 3) % 5]
        if cfg["dimn"] == 2:
            pb[2:4] = [0, 0]
        cfg["pb"] = pb
        off = [0.0] * 6
        if rg.random() < 0.5:
            h = [cfg["hx"], cfg["hy"], cfg["hz"]]
            for f in range(6):
                if pb[f] in (1, 3) and rg.random() < 0.7:
                    off[f] = rg.choice([1, 2, 2.5]) * h[f // 2] * (1 if f % 2 == 0 else -1)
        cfg["off"] = off
        sc = part.script(rg, cfg, rg.choice([12, 24, 40]), 4)
        res.append(Scen("k%d_d%d_p%d%d%d_pc%d_mc%d" % (k, cfg["dimn"], cfg["px"], cfg["py"], cfg["pz"], cfg["pcom"], cfg["mcom"]), cfg, sc, cfg["px"] * cfg["py"] * cfg["pz"]))
    return res


def run(ctx):
    exe = fbuild.harness("pxh_part", extra=["pxh_core.F90"])
    ctx.model("PartExchange", "PartExchange.cfg")
    ctx.model("PartExchange", "PartExchange2.cfg")
    runs = ctx.run_all(exe, scenarios(ctx), part.conv)
    ctx.validate("TracePart", runs, rerun=lambda sc: ctx.run_one(exe, sc, part.conv)[0], describe=part.describe)
    ctx.assumptions += ["particles move less than one cell per step", "positions are multiples of 1/8 cell; ranks run in one node (shared memory MPI)"]
