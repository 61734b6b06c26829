"""P27 and P28: the products of an event, from tables made by hand and from those of an engine."""
import math
import random

import qed
from qed import cmd


def draws(rg, n, fn):
    u = []
    for _ in range(n):
        k = rg.randrange(8)
        u.append(0.0 if k == 0 else 0.5 if k == 1 else 1 - 2.0**-24 if k == 2 else qed.f32(rg.randrange(fn) / (fn - 1)) % 1.0 if k == 3 else qed.f32(0.5 - 2.0**-25) if k == 4 else qed.f32(rg.random()) % 1.0)
    return u


def event(rg, u, kind, ct, lm):
    lo = 2.5 if kind == "bw" else 0.5
    chi = qed.some_chi(rg, ct["pmin"], ct["pmax"])
    if rg.random() < 0.1:
        chi = rg.choice([ct["pmin"], ct["pmax"]])
    return qed.peb(rg, u, chi, lm, lo, 1e4)


def by_hand(rg, u, kind):
    s = []
    for t in range(2):
        ct = qed.ctrl(rg, u, kind)
        s.append(qed.ctrl_cmd(kind, ct))
        c1, c2, d = qed.cum_table(rg, kind, ct)
        s.append(cmd("t2new", t, ct["pn"], ct["fn"], c1, c2, d))
        for _ in range(10):
            lm = qed.lam(rg, u)
            p, e, b = event(rg, u, kind, ct, lm)
            n = rg.choice([1, 1, 2, 3, 5, 8, 17, 40] * 2 + [130])
            s.append(cmd("bwpair" if kind == "bw" else "qsphot", p, e, b, rg.choice([1.0, 7.0, qed.logu(rg, 1e-3, 1e9)]), lm, t, n, draws(rg, n, ct["fn"])))
    return s


def by_engine(rg, u, kind):
    s = []
    ct = qed.ctrl(rg, u, kind, tn=2, pn=rg.randrange(2, 4), fn=rg.randrange(3, 6))
    ct["pmin"] = max(ct["pmin"], 0.06)
    s.append(qed.ctrl_cmd(kind, ct))
    s.append(cmd(kind, "new 0", rg.randrange(1, 99999), qed.lam(rg, u)))
    s += [kind + " t1 0 0", kind + " t2 0 0"]
    for k in range(10):
        lm = qed.lam(rg, u)
        s.append(cmd(kind, "lam 0", lm))
        p, e, b = event(rg, u, kind, ct, lm)
        n = rg.choice([1, 1, 2, 3, 5, 12, 33] * 2 + [150])
        if k % 3 == 0:
            s.append(cmd(kind, "pre 0", n, draws(rg, n, ct["fn"])))
        s.append(cmd(kind, "gen 0", p, e, b, rg.choice([1.0, 7.0, qed.logu(rg, 1e-3, 1e9)]), n))
    return s


def run(ctx, pid, kind):
    rg = random.Random(ctx.seed * 100 + pid)
    res = []
    us = qed.units(True) + qed.units(False)
    for k in range(640 if ctx.thorough else 128):
        res.append(qed.scen("hand%d" % k, us[k % 8], by_hand(rg, us[k % 8], kind)))
    us = qed.units(False)
    for k in range(120 if ctx.thorough else 24):
        res.append(qed.scen("eng%d" % k, us[k % 4], by_engine(rg, us[k % 4], kind)))
    qed.check(ctx, res)
    ctx.assumptions += ["tables of 2 to 6 values of chi and 3 to 8 (at times up to 50) fractions or probabilities, one to forty samples, " + ("photons of 2.5 to 1e4 m c" if kind == "bw" else "leptons of 0.5 to 1e4 m c") + " (single precision, SI units: from 500 m c)"]
