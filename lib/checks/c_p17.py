"""P17: the plasma and the laser antennas a run starts with (Load.tla, TraceLoad.tla)."""
import random

import fbuild
from vf import Scen
from checks import c_p16
from checks.c_p16 import num

C = 299792458.0


def edges(rg, m, a, lim):
    """Limits of a species along a: nodes or anything in between that is not halfway."""
    lo, hi, n = m[a + "min"], m[a + "max"], m["n" + a] - 1
    d = (hi - lo) / n
    far = 2.0 * (hi - lo)
    at = lambda i: lo + d * (i + rg.choice([0, 0, rg.uniform(-0.45, 0.45)]))
    if rg.random() < lim:
        return lo - far, hi + far
    i = rg.randrange(-1, n + 1)
    return at(i), at(rg.randrange(i, n + 3))


def plasma(rg, sec):
    m = sec["main"]
    sec["plasma"]["nlab"] = rg.choice([1e23, 10 ** rg.uniform(20, 27)])
    p = rg.choice([1, 1, 2, 2, 3, 3])
    sec["plasma"]["pdistr"] = p
    late = []
    for i in range(rg.choice([1, 2, 3])):
        s = dict(name="s%d" % i, nppcell=rg.choice([1, 1, 2, 3]), mass=rg.choice([1.0, 1836.0]), charge=rg.choice([-1.0, 1.0]))
        lim = rg.choice([0.2, 0.6, 1])
        for a in "xyz":
            s[a + "_min"], s[a + "_max"] = edges(rg, m, a, lim)
            if m["c_dim"] == 2 and a == "y":
                s["y_min"], s["y_max"] = rg.choice([(-1e9, 1e9), (0.0, 0.0)])
            if rg.random() < 0.5:
                s["vdrift_" + a] = rg.choice([0.1, -0.3, 0.5])
            if rg.random() < 0.6:
                s["vth_" + a] = rg.choice([0.01, 0.03, 1e-4])
        late.append(("species", s))
    return late + [x for x in laser(rg, sec) if rg.random() < 0.3]


def laser(rg, sec):
    m = sec["main"]
    late = []
    for _ in range(rg.choice([1, 1, 2])):
        two = m["c_dim"] == 2
        v = rg.choice([(0, 0, 1), (0, 0, -2), (1, 0, 0), (1, 0, 1), (-1, 0, 3)] + ([] if two else [(0, 1, 0), (0, 1, 2), (1, 2, 0), (1, 2, 3)]))
        u = rg.choice([(0, 1, 0), (1, 0, 0), (0, 0, 1)] if not two else [(0, 1, 0), (v[2], 0, -v[0])])
        if not two or u != (0, 1, 0):
            w = lambda a, b: (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
            u2 = w(v, u) if not two else u
            u = u2 if any(u2) else rg.choice([x for x in [(0, 1, 0), (1, 0, 0), (0, 0, 1)] if not any(a * b for a, b in zip(x, v))])
        s = dict(zip(("vector_x", "vector_y", "vector_z"), map(float, v)), lambda_laser=rg.choice([0.8e-6, 1e-5]))
        s.update(zip(("pvec_x", "pvec_y", "pvec_z"), map(float, u)))
        for a in "xyz":
            s["spot_" + a] = m[a + "min"] + (m[a + "max"] - m[a + "min"]) * rg.uniform(0.02, 0.98)
        s.update(laser_ctau=3e-6, t_peak=1e-14, laser_a_1=rg.choice([0.0, 1.0, 2.5]), laser_a_2=rg.choice([0.0, 1.0, 0.3]), laser_w0=rg.uniform(1e-6, 9e-6))
        late.append(("antenna", s))
    return late


def scens(ctx, rg):
    res = []
    for k in range(250 if ctx.thorough else 48):
        t, ev, n = c_p16.real(rg, laser if k % 3 == 2 else plasma)
        res.append(Scen("load%d" % k, None, [], n, args=["run.pixr"], files={"run.pixr": t}, ev=ev))
    return res


def conv(sc, logs, d):
    ev = c_p16.conv(sc, logs, d)
    n = sc.n
    opens = [e["s"] for e in sc.info["ev"] if e.get("k") == "open"]
    kinds = [k for o in opens for k in (["species"] if o == "species" else ["antenna"] * 2 if o == "antenna" else [])]
    box, npart, parts, fld = [], [], [], []
    for l in logs[:n]:
        g = [list(map(int, x[1:])) for x in l if x[0] == "G"][0]
        box.append([g[3:6], g[:3]])
        npart.append([int(x[2]) for x in l if x[0] == "N"])
        ps = [[] for _ in kinds]
        for x in l:
            if x[0] == "P":
                ps[int(x[1]) - 1].append([num(v) for v in x[2:]])
        parts.append(ps)
        fld.append([{x[1]: num(x[2]) for x in l if x[0] == "L%d" % (i + 1)} for i in range(len(kinds))])
    for i, k in enumerate(kinds):
        e = dict(ev="plasma" if k == "species" else "antenna", s=i + 1, parts=[p[i] for p in parts], box=box, npart=[p[i] for p in npart])
        if k == "antenna":
            e["par"] = fld[0][i]
        ev.append(e)
    tot = [x[2] for x in logs[0] if x[:2] == ["I", "ntot"]][0]
    ev.append(dict(ev="total", ntot=int(tot), npart=[v for i, k in enumerate(kinds) if k == "species" for v in [p[i] for p in npart]] or [0]))
    return ev


def describe(sc, ev, line):
    e = ev[line]
    if e["ev"] in ("plasma", "antenna"):
        return "the particles of species %d (%s) are not those the input file asks for" % (e["s"], e["ev"])
    if e["ev"] == "total":
        return "the number of particles reported is not the number loaded"
    return c_p16.describe(sc, ev, line)


def run(ctx):
    ctx.assumptions = ["thermal velocities below a tenth of c and sums of drift and thermal part below c", "limits of a species not halfway between nodes; antenna planes inside the box"]
    ctx.model("Load", "Load5.cfg" if ctx.thorough else "Load.cfg")
    exe = fbuild.harness("pxh_deck", extra=["pxh_stubs.F90"])
    runs = ctx.run_all(exe, scens(ctx, random.Random(ctx.seed * 7919 + 17)), conv, par=4)
    ctx.validate("TraceLoad", runs, rerun=lambda sc: ctx.run_one(exe, sc, conv)[0], describe=describe, chunks=8)
