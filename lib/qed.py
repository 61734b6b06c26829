"""Scenarios for the QED library: harness/qed.cpp replays them on the real code, TraceQed.tla checks what it recorded."""
import json
import math
import struct
from concurrent.futures import ThreadPoolExecutor

import fbuild
from vf import Scen

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
C = 299792458.0
ME = 9.10938356e-31
QE = 1.6021766208e-19
HB = 1.0545718e-34
ES = ME * ME * C**3 / (QE * HB)
ESN = ME * C / (HB * 2 * math.pi)


class Unit:
    """A build of the library: precision, units, with or without the parts that need Boost."""

    def __init__(self, real, norm, core):
        self.real, self.norm, self.core = real, norm, core
        self.name = "%s_%s%s" % (real, "norm" if norm else "si", "_core" if core else "")
        self.mc = 1.0 if norm else ME * C
        self.mc2 = 1.0 if norm else ME * C * C
        self.c = 1.0 if norm else C
        self.es = ESN if norm else ES

    def exe(self):
        f = ["-std=c++17", "-O1", "-DREAL=" + self.real] + (["-DPXRMP_USE_NORMALIZED_UNITS"] if self.norm else [])
        f += ["-DPXRMP_CORE_ONLY"] + SAN if self.core else ["-fsanitize=address"]
        return fbuild.cxx("qed_" + self.name, "qed.cpp", f)


def units(core, floats=True, doubles=True):
    return [Unit(r, n, core) for r in (["double"] if doubles else []) + (["float"] if floats else []) for n in (False, True)]


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def num(x):
    return x if isinstance(x, str) else str(x) if isinstance(x, int) else "inf" if x == math.inf else "-inf" if x == -math.inf else "%.17g" % x


def cmd(*a):
    r = []
    for x in a:
        r += [num(y) for y in x] if isinstance(x, (list, tuple)) else [num(x)]
    return " ".join(r)


def logu(rg, a, b):
    return math.exp(rg.uniform(math.log(a), math.log(b)))


def direction(rg):
    """A direction: often one of the axes, or in one of the planes."""
    k = rg.randrange(8)
    if k < 2:
        v = [0.0, 0.0, 0.0]
        v[rg.randrange(3)] = rg.choice([-1.0, 1.0])
        return v
    v = [rg.gauss(0, 1) for _ in range(3)]
    if k == 2:
        v[rg.randrange(3)] = 0.0
    elif k == 3:  # close to an axis, or to a plane
        v[rg.randrange(3)] *= logu(rg, 1e-9, 0.1)
        if rg.random() < 0.5:
            v[rg.randrange(3)] *= logu(rg, 1e-9, 0.1)
    n = math.sqrt(sum(x * x for x in v)) or 1.0
    return [x / n for x in v]


def momentum(rg, u, lo=0.1, hi=1e4):
    m = logu(rg, lo, hi) * u.mc
    return [m * x for x in direction(rg)]


def lam(rg, u):
    return rg.choice([1.0, logu(rg, 1e-8, 1e-5)]) if u.norm else rg.choice([1.0, 1.0, 8e-7])


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def fields(rg, u, p, chi, lm):
    """Fields that give about this chi to a particle of momentum p (for a photon, and for fast leptons)."""
    g = math.sqrt(sum(x * x for x in p)) / u.mc
    s = chi * u.es * (lm if u.norm else 1.0) / max(g, 1e-30)
    n = [x / (g * u.mc) for x in p]
    k = rg.randrange(4)
    t = direction(rg)
    perp = cross(n, t)
    if sum(x * x for x in perp) < 1e-3:
        perp = cross(n, [0.48, 0.6, 0.64])
    q = math.sqrt(sum(x * x for x in perp)) or 1.0
    perp = [x / q for x in perp]
    if k == 0:
        return [s * x for x in perp], [0.0] * 3
    if k == 1:
        return [0.0] * 3, [s / u.c * x for x in perp]
    if k == 2:  # a field along the momentum as well, which does not count
        return [s * x + 0.5 * s * y for x, y in zip(perp, n)], [0.3 * s / u.c * y for y in n]
    e = [s * (0.4 * x + 0.1 * y) for x, y in zip(perp, t)]
    return e, [s / u.c * z for z in [0.5 * a + 0.1 * b for a, b in zip(cross(n, perp), t)]]


def peb(rg, u, chi, lm, lo=0.1, hi=1e4):
    if u.real == "float" and not u.norm:
        lo, hi = max(lo, chi / 5), max(hi, chi)  # squares of fields beyond 10 critical ones leave the range of single precision
    p = momentum(rg, u, lo, hi)
    e, b = fields(rg, u, p, chi, lm)
    return p, e, b


def table1(rg, n, a, b, f):
    c = [a + (b - a) * i / (n - 1) for i in range(n)]
    return c, [f(x) for x in c]


def conv(sc, logs, d):
    return [json.loads(" ".join(t)) for t in logs[0]]


def describe(sc, ev, line):
    e = json.dumps(ev[min(line, len(ev) - 1)])
    return e if len(e) < 900 else e[:900] + "..."


def check(ctx, scens, extra=()):
    """scens: scenarios with info["unit"]; runs them on the builds they ask for and validates the traces."""
    us = {s.info["unit"].name: s.info["unit"] for s in scens}
    with ThreadPoolExecutor(8) as ex:
        exes = dict(zip(us, ex.map(lambda u: u.exe(), us.values())))
    for s in scens:
        s.info["exe"] = exes[s.info["unit"].name]
    runs = ctx.run_all(None, scens, conv, par=8)
    ctx.validate("TraceQed", runs, rerun=lambda sc: ctx.run_one(sc.info["exe"], sc, conv)[0], describe=describe, chunks=8)
    return runs


def scen(name, unit, script):
    return Scen("%s_%s" % (name, unit.name), None, script, 0, timeout=120, unit=unit)


# ---------------------------------------------------------------- tables and controls made by hand
ALPHA = 0.0072973525664
TAUE = QE * QE / (4 * math.pi * 8.854187817e-12 * ME * C**3)


def coeff(u, kind):
    k = ALPHA * ME * C * C / HB if kind == "bw" else ALPHA * ALPHA / TAUE
    return k / (2 * math.pi * C) if u.norm else k * ME * C * C


def ctrl(rg, u, kind, tn=None, pn=None, fn=None):
    """Controls of an engine: mostly small tables over a random range of chi."""
    if rg.random() < 0.15:
        tn, pn, fn = tn or rg.randrange(13, 200), pn or rg.randrange(2, 20), fn or rg.randrange(9, 50)
    tmin = logu(rg, 0.02, 0.3) if kind == "bw" else logu(rg, 1e-3, 0.1)
    pmin = logu(rg, 0.02, 0.3)
    return dict(cmin=logu(rg, 1e-3, 1e-2) if rg.random() < 0.7 else logu(rg, 0.05, 0.5), tmin=tmin, tmax=logu(rg, 20, 500), tn=tn or rg.randrange(2, 13),
                pmin=pmin, pmax=logu(rg, 20, 500), pn=pn or rg.randrange(2, 7), fn=fn or rg.randrange(3, 9))


def ctrl_cmd(kind, c):
    return cmd(kind + "ctrl", *[c[k] for k in ("cmin", "tmin", "tmax", "tn", "pmin", "pmax", "pn", "fn")])


def logs(a, b, n):
    a, b = math.log(a), math.log(b)
    return [a + (b - a) * i / (n - 1) for i in range(n)]


def rate_table(rg, kind, ct):
    """Logarithms of rates against logarithms of chi: like the true ones, or anything."""
    # slightly wider than the range that the controls give: the ends of that range must not fall beyond the table by rounding
    c = logs(ct["tmin"] * (1 - 1e-5), ct["tmax"] * (1 + 1e-5), ct["tn"])
    k = rg.randrange(3)
    if k == 0:
        d = [rg.uniform(-6, 3) for x in c]
    elif kind == "bw":
        d = [math.log(0.16) + 1.6 * x - 8 / 3 * math.exp(-x) for x in c]
    else:
        d = [math.log(1.44) + x - 0.33 * math.log(1 + math.exp(x)) for x in c]
    return c, d


def interp(c, d, x):
    x = min(max(x, c[0]), c[-1])
    i = max(i for i in range(len(c) - 1) if c[i] <= x or i == 0)
    return d[i] + (d[i + 1] - d[i]) * (x - c[i]) / (c[i + 1] - c[i])


def rate(u, kind, ct, tab, en, chi, lm):
    """About the rate (only to choose steps that matter)."""
    l = lm if u.norm else 1.0
    if kind == "bw":
        if chi <= ct["tmin"]:
            t = math.pi * 0.16 / (2 * 4 / 3) * chi * chi * math.exp(-8 / 3 / chi)
        elif chi >= ct["tmax"]:
            t = 0.16 * chi * (2.678938534707747 / 2) ** 2 * (1.5 * chi) ** (2 / 3)
        else:
            t = math.exp(interp(*tab, math.log(chi)))
        return coeff(u, kind) * l / (chi * en) * t
    return coeff(u, kind) * l / en * math.exp(interp(*tab, math.log(chi)))


def cum_table(rg, kind, ct):
    """Breit-Wheeler: logarithms of cumulative probabilities of the fractions 0 to 1/2 (zero to one half); synchrotron: logarithms of
    the fractions of the energy for the probabilities 0 to 1."""
    c1 = logs(ct["pmin"], ct["pmax"], ct["pn"])
    n = ct["fn"]
    d = []
    c2 = [0.5 * j / (n - 1) if kind == "bw" else j / (n - 1) for j in range(n)]
    for i in range(len(c1)):
        if kind == "bw":
            w = [rg.uniform(0.05, 1) for _ in range(n - 1)]
            if rg.random() < 0.3:
                w[0] = 1e-9
            d.append(-math.inf)
            for j in range(1, n - 1):
                d.append(math.log(0.5 * sum(w[:j]) / sum(w)))
            d.append(math.log(0.5))
        else:
            x = sorted(logu(rg, 1e-6, 1) for _ in range(n))
            d += [math.log(y) for y in x]
    return c1, c2, d


def some_chi(rg, lo, hi):
    """Anywhere; at times below or above the range of the tables."""
    k = rg.randrange(6)
    return logu(rg, lo / 20, lo) if k == 0 else logu(rg, hi, hi * 20) if k == 1 else logu(rg, lo, hi)


def energy(u, p):
    return math.sqrt(sum(x * x for x in p)) * u.c
