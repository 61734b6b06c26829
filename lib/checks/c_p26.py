"""P26: rates and the tables of the engines (QedOps.tla: RateIv, ExactRateIv; TraceQed.tla: Table1OK, Table2OK)."""
import math
import random

import qed
from qed import cmd


def by_hand(rg, u, kind):
    """Rates from tables made by hand."""
    s = []
    for t in range(2):
        ct = qed.ctrl(rg, u, kind)
        s.append(qed.ctrl_cmd(kind, ct))
        tab = qed.rate_table(rg, kind, ct)
        s.append(cmd("t1new", t, ct["tn"], tab[0], tab[1]))
        for _ in range(14):
            chi = qed.some_chi(rg, ct["tmin"], ct["tmax"])
            if rg.random() < 0.3:
                chi = math.exp(rg.choice(tab[0]))
            if rg.random() < 0.2:
                chi = rg.choice([ct["tmin"], ct["tmax"], 0.0])
            en = rg.choice([qed.logu(rg, 2, 1e5) * u.mc2] * 9 + [0.0])
            s.append(cmd(kind + "rate", en, chi, qed.lam(rg, u), t))
    return s


def some(rg, a, b):
    """A number of this range, a round one at times."""
    r = rg.choice([0.1, 0.5, 1.0, 1.0, 2.0, 3.0, 10.0, 100.0])
    return r if rg.random() < 0.25 and a <= r <= b else qed.logu(rg, a, b)


def by_engine(rg, u, kind, big):
    """What an engine computes: rates and cumulative probabilities, and its tables."""
    s = []
    ct = qed.ctrl(rg, u, kind, tn=rg.randrange(2, 9), pn=rg.randrange(2, 5) if kind == "bw" or big else rg.randrange(2, 4), fn=rg.randrange(3, 7))
    if rg.random() < 0.3:
        ct.update(tmin=qed.logu(rg, 0.005, 0.02), tn=rg.choice([12, 30]) if kind == "bw" else 12)
    if rg.random() < 0.3:
        ct["pmin"] = qed.logu(rg, 0.005, 0.02)
    if u.real == "float":
        ct["tmin"] = max(ct["tmin"], 0.06)
        ct["pmin"] = max(ct["pmin"], 0.06)
    faint = kind == "bw" and rg.random() < 0.4  # rates of pairs that underflow
    low = (0.01, 0.06) if u.real == "float" else (0.001, 0.006)
    if faint:
        ct["pmin"] = qed.logu(rg, *low)
    s.append(qed.ctrl_cmd(kind, ct))
    lm = qed.lam(rg, u)
    s.append(cmd(kind, "new 0", rg.randrange(1, 99999), lm))
    for _ in range(8 if kind == "bw" else 5):
        chi = some(rg, 0.06 if u.real == "float" else 0.005, 500)
        s.append(cmd(kind, "dir 0", rg.choice([qed.logu(rg, 2, 1e5) * u.mc2] * 5 + [0.0]), rg.choice([chi] * 5 + [0.0])))
    for _ in range(4):
        chi = some(rg, 0.06 if u.real == "float" else 0.005, 500)
        s.append(cmd(kind, "cum 0", chi, chi * rg.choice([0.5, 1.0, rg.random(), rg.random(), 0.01])))
    for _ in range(4 if faint else 0):
        chi = qed.logu(rg, *low)
        s.append(cmd(kind, "cum 0", chi, chi * rg.choice([0.5, 0.25, 0.75, rg.random()])))
    s.append(cmd(kind, "t1 0", rg.randrange(2)))
    for _ in range(8):
        chi = qed.some_chi(rg, ct["tmin"], ct["tmax"])
        s.append(cmd(kind, "rate 0", qed.logu(rg, 2, 1e5) * u.mc2, chi))
    s.append(cmd(kind, "t2 0", rg.randrange(2)))
    s.append(cmd(kind, "lam 0", qed.lam(rg, u)))
    s.append(cmd(kind, "dir 0", qed.logu(rg, 2, 1e5) * u.mc2, qed.logu(rg, 0.1, 100)))
    s.append(cmd(kind, "rate 0", qed.logu(rg, 2, 1e5) * u.mc2, qed.logu(rg, 0.1, 100)))
    s.append(kind + " get 0")
    return s


def scenarios(ctx):
    rg = random.Random(ctx.seed * 100 + 26)
    res = []
    us = qed.units(True) + qed.units(False)
    for k in range(320 if ctx.thorough else 96):
        res.append(qed.scen("rate%d" % k, us[k % 8], by_hand(rg, us[k % 8], "bw" if k // 8 % 2 else "qs")))
    us = qed.units(False)
    for k in range(160 if ctx.thorough else 32):
        res.append(qed.scen("eng%d" % k, us[k % 4], by_engine(rg, us[k % 4], "bw" if k // 4 % 2 else "qs", ctx.thorough)))
    return res


def run(ctx):
    qed.check(ctx, scenarios(ctx))
    ctx.assumptions += ["tables of 2 to 30 (2D: up to 4 by 6) points, chi from 0.005 to 500, single precision from 0.06: below, rates leave the range of the type"]
