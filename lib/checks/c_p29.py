"""P29: the Schwinger effect (QedOps.tla: SwIv, PoissonOK)."""
import math
import random

import qed
from qed import cmd

SW = (qed.QE * qed.ES) ** 2 / (4 * math.pi**2 * qed.HB**2 * qed.C)


def about(u, e, b, lm):
    """About the rate (only to choose volumes and steps that matter)."""
    l = lm if u.norm else 1.0
    es = u.es * l
    c = u.c
    ff = (sum(x * x for x in e) - c * c * sum(x * x for x in b)) / (2 * es * es)
    gg = c * sum(x * y for x, y in zip(e, b)) / es**2
    i = math.hypot(ff, gg)
    a, h = math.sqrt(max(i + ff, 0)), math.sqrt(max(i - ff, 0))
    if not a > 5e-3:
        return 0.0
    f = a * a / math.pi if h < 1e-4 * a else a * h / math.tanh(math.pi * h / a)
    k = SW * l**4 / ((2 * math.pi) ** 4 * qed.C) if u.norm else SW
    return k * f * math.exp(-math.pi / a)


def field(rg, u, lm):
    es = u.es * (lm if u.norm else 1.0)
    a = qed.logu(rg, 0.03, 0.08 if u.real == "float" and not u.norm else 1.5) * es
    d, t = qed.direction(rg), qed.direction(rg)
    if rg.random() < 0.15:  # weak fields, down to ones whose squares underflow
        a = qed.logu(rg, 1e-17, 0.03) * es
    k = rg.randrange(8)
    z = [0.0] * 3
    if k == 7:
        return z, z
    e = [a * x for x in d]
    if k == 0:
        return e, z
    if k == 1:
        return z, [x / u.c for x in e]  # a magnetic field alone does nothing
    if k == 2:
        return e, [rg.uniform(0.1, 2) * x / u.c for x in e]  # parallel
    if k == 3:
        n = qed.cross(d, t)
        return e, [rg.choice([0.5, 1.0, 1.5]) * a / u.c * x for x in n]  # perpendicular, plane wave at times
    if k == 4:
        return e, [1e-5 * a / u.c * x for x in t]
    return e, [a * rg.uniform(0.1, 1.3) / u.c * x for x in t]


def cell(rg, u, e, b, lm):
    """Cell and step such that the expected number of pairs matters."""
    while True:
        r = about(u, e, b, lm)
        want = qed.logu(rg, 1e-3, 30) if rg.random() < 0.8 else qed.logu(rg, 30, 1500)
        L = 1.0 if u.norm else 1e-6
        v = [L * rg.uniform(0.05, 2) for _ in range(3)]
        if r > 1e37 and u.real == "float":
            e, b = field(rg, u, lm)
            continue
        dt = want / (max(r, 1e-30) * v[0] * v[1] * v[2])
        return e, b, v, min(dt, 1e20)


def draw(rg):
    return rg.choice([0.0, 1 - 2.0**-24, 1 - qed.logu(rg, 1e-16, 1e-3), rg.random(), rg.random(), rg.random()])


def lam(rg, u):
    return qed.logu(rg, 1e-7, 1e-5) if u.norm and u.real == "float" else qed.lam(rg, u)


def script(rg, u, eng):
    s = []
    lm = lam(rg, u)
    if eng:
        s.append(cmd("swe new 0", rg.randrange(1, 9999), lm))
    nxt = 1
    live = [[0, lm]]
    for _ in range(30):
        if not eng:
            lm = lam(rg, u)
            e, b = field(rg, u, lm)
            e, b, v, dt = cell(rg, u, e, b, lm)
            s.append(cmd("sw", e, b, v, dt, lm, draw(rg)))
            continue
        g = rg.choice(live)
        e, b = field(rg, u, g[1])
        e, b, v, dt = cell(rg, u, e, b, g[1])
        op = rg.choice(["pos", "rate", "one", "one", "many", "many", "lam", "copy", "move"])
        if op == "pos":
            s.append("swe pos %d" % g[0])
        elif op == "rate":
            s.append(cmd("swe rate", g[0], e, b))
        elif op in ("one", "many"):
            s.append(cmd("swe", op, g[0], e, b, v, dt))
        elif op == "lam":
            g[1] = lam(rg, u)
            s.append(cmd("swe lam", g[0], g[1]))
        elif op == "copy":
            s.append("swe copy %d %d" % (nxt, g[0]))
            live.append([nxt, g[1]])
            nxt += 1
        else:
            s.append("swe move %d %d" % (nxt, g[0]))
            g[0] = nxt
            nxt += 1
    return s


def scenarios(ctx):
    rg = random.Random(ctx.seed * 100 + 29)
    res = []
    for k in range(480 if ctx.thorough else 144):
        us = qed.units(k % 3 != 0)
        u = us[k % 4]
        res.append(qed.scen("sw%d" % k, u, script(rg, u, not u.core)))
    return res


def run(ctx):
    qed.check(ctx, scenarios(ctx))
    ctx.assumptions += ["fields of 1e-17 to 1.5 times the critical one; expected numbers of pairs up to 1500"]
