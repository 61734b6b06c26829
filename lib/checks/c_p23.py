"""P23: numeric helpers: spaced points, upper bound, Poisson numbers, roots, quadratures, Bessel functions, messages, random numbers."""
import math
import random

import qed
from qed import cmd


def spaced(rg):
    kind = rg.choice(["lin", "log", "lll"])
    if kind == "lin":
        a = rg.choice([0.0, -1.0, rg.uniform(-100, 100)])
        b = rg.choice([a, a - 1.0, a + 1.0, a + qed.logu(rg, 1e-3, 1e4), a + 7.5])
        n = rg.choice([0, 1, 2, 3, 5, 10, 33, 130, 300])
    elif kind == "log":
        a = rg.choice([0.0, -1.0, 1e-3, 0.1, qed.logu(rg, 1e-6, 10)])
        b = rg.choice([a, a / 2, max(a, 1e-3) * qed.logu(rg, 1.01, 1e6), 500.0, -2.0])
        n = rg.choice([0, 1, 2, 3, 5, 16, 40, 257])
    else:
        a = qed.logu(rg, 1e-5, 1e-1)
        b = rg.choice([1.0, qed.logu(rg, 2.0, 1e3)])
        n = rg.choice([6, 7, 8, 9, 20, 31, 100])
    return cmd("spaced", kind, a, b, n)


def seed64(rg):
    return rg.choice([0, 1, 2**32, 2**64 - 1, rg.randrange(2**31), rg.randrange(2**64), rg.randrange(2**64)])


def upper(rg):
    n = rg.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 64, 150] * 4 + [257, 1025, 3000])
    if rg.random() < 0.2:
        x = [rg.choice([0.0, 1.0, -2.5])] * n
    elif rg.random() < 0.2:
        x = sorted(rg.choice([-1, 1]) * qed.logu(rg, 1e-20, 1e20) for _ in range(n))
    else:
        x = sorted(rg.choice([rg.randrange(6) * 1.0, rg.uniform(-3, 9)]) for _ in range(n))
    v = rg.choice(x + [-10.0, 20.0, rg.uniform(-4, 10)] + x[:1] * 3 + x[-1:] * 3)
    return cmd("ub", v, n, x)


def scenarios(ctx):
    rg = random.Random(ctx.seed * 100 + 23)
    res = []
    n = 18 if ctx.thorough else 3
    for u in qed.units(True):
        if u.norm:
            continue
        for k in range(4 * n):
            s = [spaced(rg) for _ in range(40)] + [upper(rg) for _ in range(60)]
            for _ in range(120):
                m = rg.choice([0.0, 1e-6, qed.logu(rg, 1e-4, 1), qed.logu(rg, 0.1, 60), qed.logu(rg, 60, 2000)])
                t = rg.choice([0.0, 1 - 2.0**-24, rg.random(), rg.random(), qed.logu(rg, 1e-12, 1), 1 - qed.logu(rg, 1e-6, 1), 1 - qed.logu(rg, 1e-16, 1e-3), 1 - qed.logu(rg, 1e-16, 1e-3)])
                s.append(cmd("poi", m, t))
            res.append(qed.scen("core%d" % k, u, s))
    for u in qed.units(False):
        if u.norm:
            continue
        for k in range(3 * n):
            s = []
            for _ in range(60):
                v = rg.choice([1 / 3, 2 / 3, 5 / 3, 0.0, 0.5, 1.0, rg.uniform(0, 3)])
                x = rg.choice([qed.logu(rg, 1e-3, 50), qed.logu(rg, 1e-6, 1), 80.0, 1000.0, 2e5, 1e10, 1e20])
                s.append(cmd("kv", v, x))
            for _ in range(40):
                kind = rg.choice(["ab", "abs", "inf"])
                a = rg.choice([0.0, rg.uniform(0, 2)])
                b = a + rg.uniform(0.1, 4)
                s.append(cmd("quad", kind, rg.choice([1.0, rg.uniform(0.5, 4)]), a, b, rg.randrange(3)))
            for _ in range(20):
                m = rg.choice([1, 2, 3, 5])
                s.append(cmd("root", m, qed.logu(rg, 1e-3, 1e3), qed.logu(rg, 1e-2, 1e2), 1 if rg.random() < 0.7 else 0))
            for _ in range(12):
                a = rg.choice([0.0, rg.uniform(-5, 5)])
                s.append(cmd("rng", seed64(rg), rg.choice([16, 16, 40, 700]), a, a + rg.uniform(0.1, 10), rg.choice([1.0, rg.uniform(0.2, 5)])))
            s += ["msg hello", "msg x_%d" % k, "msg " + "long" * 200, "msg %d%%s"]
            res.append(qed.scen("full%d" % k, u, s))
    return res


def run(ctx):
    qed.check(ctx, scenarios(ctx))
    ctx.assumptions += ["integrands exp(-k t) t^m, roots of monotone powers", "Poisson means up to 2000"]
