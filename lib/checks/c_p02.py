"""P02: delivery of particles between ranks and tiles, periodic box (PartExchange.tla, TracePart.tla)."""
import random

import fbuild
from checks import part
from vf import Scen


def scenarios(ctx):
    rg = random.Random(ctx.seed)
    res = []
    for k in range(160 if ctx.thorough else 40):
        cfg = part.base_cfg(rg, k, 12 if k % 10 == 0 else 8)
        sc = part.script(rg, cfg, rg.choice([12, 24, 40]), 4)
        res.append(Scen("k%d_d%d_p%d%d%d_pc%d_mc%d" % (k, cfg["dimn"], cfg["px"], cfg["py"], cfg["pz"], cfg["pcom"], cfg["mcom"]), cfg, sc, cfg["px"] * cfg["py"] * cfg["pz"]))
    return res


def run(ctx):
    exe = fbuild.harness("pxh_part", extra=["pxh_core.F90"])
    ctx.model("PartExchange", "PartExchange.cfg")
    ctx.model("PartExchange", "PartExchange2.cfg")
    runs = ctx.run_all(exe, scenarios(ctx), part.conv)
    ctx.validate("TracePart", runs, rerun=lambda sc: ctx.run_one(exe, sc, part.conv)[0], describe=part.describe)
    ctx.assumptions += ["particles move less than one cell per step", "positions are multiples of 1/8 cell; ranks run in one node (shared memory MPI)"]
