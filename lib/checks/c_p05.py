"""P05: exchange of the guard cells of the fields (FieldSync.tla, TraceField.tla)."""
import random

import fbuild
from checks import field
from vf import Scen


def scenarios(ctx):
    rg = random.Random(ctx.seed + 5)
    res = []
    for k in range(90 if ctx.thorough else 30):
        cfg = field.grid(rg, k, 12 if k % 9 == 0 else 8)
        cfg["mcom"] = [0, 1, 2][(k // 3) % 3]
        split = k % 5 == 3
        if split:
            ab = rg.choice([(1, 0, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1)])
            cfg.update(absx=bool(ab[0]), absy=bool(ab[1]) and cfg["dimn"] == 3, absz=bool(ab[2]), spectral=True)
        s = ["decomp d", "fill %d 0" % rg.randrange(10**6), "log a e b" + (" s" if split else "")]
        field.ops(s, ["ebcs", "bbcs"], split)
        if k % 4 == 1:
            s += ["jbcs", "rbcs"]
        s += ["it 1", "fill %d 0" % rg.randrange(10**6), "log b e b" + (" s" if split else "")]
        field.ops(s, ["bbcs", "ebcs"], split)
        res.append(Scen("k%d_d%d_p%d%d%d_mc%d%s" % (k, cfg["dimn"], cfg["px"], cfg["py"], cfg["pz"], cfg["mcom"], "_split" if split else ""), cfg, s, cfg["px"] * cfg["py"] * cfg["pz"]))
    return res


def run(ctx):
    exe = fbuild.harness("pxh_field", extra=fbuild.FIELD)
    ctx.model("MCFieldSync", "FSync1.cfg")
    ctx.model("MCFieldSync", "FSync2.cfg")
    runs = ctx.run_all(exe, scenarios(ctx), field.conv)
    ctx.validate("TraceField", runs, rerun=lambda sc: ctx.run_one(exe, sc, field.conv)[0], describe=field.describe)
    ctx.assumptions += ["every rank has more cells than guard cells on each axis"]
