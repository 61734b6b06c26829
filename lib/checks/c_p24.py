"""P24: vectors and the quantum parameter chi (QedOps.tla, TraceQed.tla)."""
import math
import random

import qed
from qed import cmd


def special(rg, u):
    """Momenta and fields in special positions: parallel, perpendicular, crossed fields, zero."""
    p = qed.momentum(rg, u, 0.01, 1e5 if u.real == "float" else 1e6)
    n = math.sqrt(sum(x * x for x in p))
    k = [x / n for x in p]
    lm = qed.lam(rg, u)
    s = u.es * (lm if u.norm else 1) * qed.logu(rg, 1e-8, 1e-2)
    t = qed.cross(k, qed.direction(rg))
    q = rg.randrange(7)
    z = [0.0] * 3
    if q == 0:
        return p, [s * x for x in k], z, lm  # along E
    if q == 1:
        return p, z, [s / u.c * x for x in k], lm  # along B
    if q == 2:
        return p, [s * x for x in t], [s / u.c * x for x in qed.cross(k, t)], lm  # plane wave, with the wave
    if q == 3:
        return p, [s * x for x in t], [-s / u.c * x for x in qed.cross(k, t)], lm  # against it
    if q == 4:
        return z, [s * x for x in t], [s / u.c * x for x in k], lm
    if q == 5:
        return p, z, z, lm
    return p, [s * x for x in qed.direction(rg)], [s / u.c * x for x in qed.direction(rg)], lm


def scenarios(ctx):
    rg = random.Random(ctx.seed * 100 + 24)
    res = []
    for k in range(480 if ctx.thorough else 96):
        u = qed.units(True)[k % 4]
        s = []
        for _ in range(30):
            lm = qed.lam(rg, u)
            p, e, b = qed.peb(rg, u, qed.logu(rg, 1e-6, 1e3), lm, 0.01, 1e5)
            s.append(cmd("chi", p, e, b, lm))
            s.append(cmd("chi", *special(rg, u)))
        if not (u.real == "float" and not u.norm):
            for _ in range(20):
                a = [x * qed.logu(rg, 1e-3, 1e3) for x in qed.direction(rg)]
                b = [x * qed.logu(rg, 1e-3, 1e3) for x in qed.direction(rg)]
                s.append(cmd("vec", a, rg.choice([a, b, [-x for x in a], b]), rg.choice([0.5, -2.0, rg.uniform(0.1, 10)])))
        res.append(qed.scen("chi%d" % k, u, s))
    return res


def run(ctx):
    qed.check(ctx, scenarios(ctx))
    ctx.assumptions += ["momenta from 0.01 to 1e5 m c; in single precision and SI units fields up to 5 critical ones (squares of larger ones leave the range of the type)"]
