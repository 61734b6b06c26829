"""P25: optical depths (QedOps.tla: RateIv, EvolveOK)."""
import math
import random

import qed
from qed import cmd


def script(rg, u, kind, k):
    s = []
    ct = qed.ctrl(rg, u, kind)
    s.append(qed.ctrl_cmd(kind, ct))
    tab = qed.rate_table(rg, kind, ct)
    s.append(cmd("t1new 0", ct["tn"], tab[0], tab[1]))
    s += ["t1def 1"]
    for _ in range(4):
        s.append(cmd("od", rg.choice([0.0, 0.5, rg.random(), 1e-7 * rg.random(), 1 - 2.0**-24, 1 - 2.0**-24 * rg.randrange(1, 500)])))
    for _ in range(24):
        lm = qed.lam(rg, u)
        chi = qed.some_chi(rg, ct["tmin"], ct["tmax"]) if rg.random() < 0.85 else qed.logu(rg, 1e-4, ct["cmin"] * 2)
        if rg.random() < 0.15:
            chi = rg.choice([ct["tmin"], ct["tmax"], ct["cmin"]])
        p, e, b = qed.peb(rg, u, chi, lm, 1.0 if rg.random() < 0.3 else 10.0, 1e4)
        if rg.random() < 0.05:
            e, b = [0.0] * 3, [0.0] * 3
        r = qed.rate(u, kind, ct, tab, qed.energy(u, p), chi, lm)
        if kind == "bw" and rg.random() < 0.15 and not (u.real == "float" and not u.norm):  # about the threshold
            p = [x / qed.energy(u, p) * 2 * u.mc2 * rg.choice([0.5, 0.999, 1 - 1e-5, 1 + 1e-5, 1.001, 1.3]) for x in p]
            e, b = qed.fields(rg, u, p, chi, lm)
        r = qed.rate(u, kind, ct, tab, qed.energy(u, p), chi, lm)
        opt = rg.choice([rg.expovariate(1), rg.expovariate(1), 1e-6, 0.0, 20.0, 1e3])
        if r > 0 and opt > 0:
            dt = opt / r * rg.choice([1e-6, 0.01, 0.5, 0.999, 1.001, 1.5, 3.0, 100.0, 1e4, 1e6])
        else:
            dt = 1e-3 / max(r, 1e-20)
        dt = min(dt, 1e30)
        if rg.random() < 0.05:
            dt = 0.0
        s.append(cmd(kind + "evo", p, e, b, dt, opt, lm, 0 if rg.random() < 0.93 else 1))
    return s


def engine(rg, u, kind):
    """The same through an engine, before and after it has its table."""
    ct = qed.ctrl(rg, u, kind, tn=rg.randrange(2, 6), pn=2, fn=3)
    ct["tmin"] = max(ct["tmin"], 0.06)
    lm = qed.lam(rg, u)
    s = [qed.ctrl_cmd(kind, ct), cmd(kind, "new", 0, 7, lm)]
    for has in (False, True):
        if has:
            s.append(cmd(kind, "t1", 0, 1))
        for i in range(4 if not has else 8):
            if i % 3 == 2:
                lm = qed.lam(rg, u)
                s.append(cmd(kind, "lam", 0, lm))
            p, e, b = qed.peb(rg, u, qed.logu(rg, 0.05, 100), lm if u.norm else 1.0, 3, 1e4)
            s += ["%s od 0" % kind, cmd(kind, "evo", 0, p, e, b, qed.logu(rg, 1e-3, 10) * (1.0 if u.norm else 1e-15), rg.expovariate(1))]
    return s


def scenarios(ctx):
    rg = random.Random(ctx.seed * 100 + 25)
    res = []
    us = qed.units(True) + qed.units(False)
    for k in range(800 if ctx.thorough else 160):
        res.append(qed.scen("od%d" % k, us[k % 8], script(rg, us[k % 8], "bw" if k // 8 % 2 else "qs", k)))
    us = qed.units(False)
    for k in range(120 if ctx.thorough else 32):
        res.append(qed.scen("eng%d" % k, us[k % 4], engine(rg, us[k % 4], "bw" if k // 4 % 2 else "qs")))
    return res


def run(ctx):
    ctx.model("OptDepth", workers=4)
    qed.check(ctx, scenarios(ctx))
    ctx.assumptions += ["the rate at chi within rounding of the interval that the fields and the momentum give"]
