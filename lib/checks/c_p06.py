"""P06: summation of the guard cells of currents and charge (FieldSync.tla, TraceField.tla)."""
import random

import fbuild
from checks import field
from vf import Scen


def scenarios(ctx):
    rg = random.Random(ctx.seed + 6)
    res = []
    for k in range(72 if ctx.thorough else 24):
        cfg = field.grid(rg, k, 12 if k % 9 == 0 else 6)
        cfg["mcom"] = [0, 1, 2][(k // 3) % 3]
        if k % 4 == 2:  # currents with other guards than the fields
            for a in ("x", "y", "z"):
                cfg["nj" + a] = 2 if cfg["ng" + a] == 3 else 1
        if k % 5 == 4:
            cfg.update(absx=rg.random() < 0.6, absz=True, absy=cfg["dimn"] == 3 and rg.random() < 0.3, spectral=True)
        s = ["decomp d"] + (["ebcs"] if k % 3 else []) + ["fill %d 0" % rg.randrange(10**6), "log a j r"]
        field.ops(s, ["jbcs", "rbcs"])
        s += ["ebcs", "bbcs"] if k % 2 else []
        # the sources of the next step are deposited on top of nothing, and exchanged again
        s += ["it 1", "fill %d 0" % rg.randrange(10**6), "log b j r"]
        field.ops(s, ["rbcs", "jbcs"])
        res.append(Scen("k%d_d%d_p%d%d%d_mc%d" % (k, cfg["dimn"], cfg["px"], cfg["py"], cfg["pz"], cfg["mcom"]), cfg, s, cfg["px"] * cfg["py"] * cfg["pz"]))
    return res


def run(ctx):
    exe = fbuild.harness("pxh_field", extra=fbuild.FIELD)
    ctx.model("MCFieldSync", "FSum1.cfg")
    ctx.model("MCFieldSync", "FSum2.cfg")
    runs = ctx.run_all(exe, scenarios(ctx), field.conv)
    ctx.validate("TraceField", runs, rerun=lambda sc: ctx.run_one(exe, sc, field.conv)[0], describe=field.describe)
    ctx.assumptions += ["every rank has more cells than guard cells on each axis"]
