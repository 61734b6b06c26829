"""P12: the diagnostics (Diags.tla, TraceDiag.tla)."""
import math
import random

import fbuild
from vf import Scen
from checks import pic
from checks.c_p11 import C, ME, QE, direction, logu

FIELDS = "ex ey ez bx by bz jx jy jz rho".split()


def boxes(ctx, rg):
    """Grids with fields and particles: reductions, divergences, norms, the arrays of particle quantities."""
    res = []
    for k in range(48 if ctx.thorough else 12):
        cfg = pic.grid(rg, k, (1, 1, 1), dims=(3, 2, 3))
        cfg.update(npids=2, sp=3, cdt=0.3)
        for a in "xyz":
            cfg["h" + a] = rg.choice([1e-6, 3.7e-7, 2.0])
        dim = cfg["dimn"]
        if dim == 2:
            cfg["nyc"] = 1
        n = [cfg["nxc"], cfg["nyc"], cfg["nzc"]]
        sc = ["flat"] if dim == 2 else []
        sc += ["species %d %r %r 1 0" % (s + 1, q, m) for s, (q, m) in enumerate([(-QE, ME), (QE, 1836.15 * ME), (2 * QE, 7344 * ME)])]
        tot = rg.choice([0, 7, 60])
        for i in range(tot):
            u = 0.0 if rg.random() < 0.1 else logu(rg, 1e-3, 1e3)
            x = [rg.uniform(0, v) for v in n]
            if dim == 2:
                x[1] = 0.0
            sc.append("addu %d %d %s %s %r" % (rg.choice([1, 1, 2]), i + 1, " ".join(map(repr, x)), " ".join(repr(u * v) for v in direction(rg)), logu(rg, 1e3, 1e9)))
        for r in range(2):
            sc += ["fill %d 1" % (100 * k + r), "amp %r" % logu(rg, 1e-3, 1e3)]
            if tot:
                sc.append("gather")
            sc += ["dstate s", "dparts s", "dcount c"] + ["dquant q %d" % s for s in (1, 2, 3)]
            sc += ["denergy e"] + (["ddiv d", "dnorm n"] if r == 0 else [])
            if r == 0 and tot:
                sc += ["pbcs"]
        res.append(Scen("box%d" % k, cfg, sc, cfg["px"] * cfg["py"] * cfg["pz"]))
    return res


def planes(ctx, rg):
    """A cloud of particles and a plane that moves over them for several steps; some are exactly on it at times."""
    res = []
    for k in range(12 if ctx.thorough else 3):
        sc = []
        for r in range(6):
            n = rg.choice([1, 5, 40])
            nv = direction(rg) if r % 2 else [[1.0, 0, 0], [0, 0, 1.0], [0, -1.0, 0]][rg.randrange(3)]
            if rg.random() < 0.3:
                nv = [3 * x for x in nv]
            scale = rg.choice([1.0, 1e-6])
            xs = [[rg.choice([rg.uniform(-2, 2), float(rg.randrange(-2, 3))]) for _ in range(3)] for _ in range(n)]
            w = [rg.uniform(-1, 1) * 1e6 for _ in range(n)]
            p = [rg.choice([rg.uniform(-2, 2), float(rg.randrange(-2, 3))]) for _ in range(3)]
            for step in range(4):
                xn = [[v + rg.choice([0.0, 1.0, -1.0, rg.uniform(-1, 1)]) for v in x] for x in xs]
                wn = [v * rg.uniform(0.5, 1.5) for v in w]
                pn = [v + rg.choice([0.0, 0.0, 1.0, rg.uniform(-1, 1)]) for v in p]
                sc.append("dpclear")
                for a, b, c, d in zip(xn, xs, wn, w):
                    sc.append("dp " + " ".join(repr(v) for v in [scale * v for v in a + b] + [c, d]))
                sc.append("dplane p " + " ".join(repr(v) for v in [scale * v for v in pn + p] + nv))
                xs, w, p = xn, wn, pn
        res.append(Scen("plane%d" % k, dict(nxc=8, nyc=8, nzc=8, sp=1), sc, 1))
    return res


def frames(ctx, rg):
    res = []
    for k in range(12 if ctx.thorough else 3):
        sc = []
        for r in range(8):
            sc.append("lvclear")
            g = rg.choice([1.0, 1 + logu(rg, 1e-3, 1), logu(rg, 2, 50)])
            be = math.sqrt(1 - 1 / g**2)
            if r < 4:
                n = rg.choice([1, 6, 12])
                for _ in range(n):
                    e = logu(rg, 1e6, 1e13)
                    j = logu(rg, 1e3, 1e15)
                    v = [e * x for x in direction(rg)] + [e / C * x for x in direction(rg)] + [j * x for x in direction(rg)] + [j / C * rg.uniform(-1, 1)]
                    sc.append("lv " + " ".join(map(repr, v + [0.0] * 16)))
                sc.append("lor2 %r %r" % (g, be) if r % 2 else "lor3 %d %r %r" % (rg.choice([d for d in (1, 2, 3) if n % d == 0]), g, be))
                continue
            t, dt = logu(rg, 1e-15, 1e-11), logu(rg, 1e-17, 1e-15)
            z0 = rg.uniform(-1, 1) * 1e-4
            tl = None
            for _ in range(rg.choice([1, 7])):
                u = logu(rg, 1e-3, 100)
                un = [u * C * x for x in direction(rg)]
                up = [x * rg.uniform(0.9, 1.1) for x in un]
                gn, gp = [math.sqrt(1 + sum(x * x for x in q) / C**2) for q in (un, up)]
                z = z0 + rg.uniform(-1, 1) * 0.1 * C * dt
                x = [z, z - un[2] / gn * dt]
                xy = [rg.uniform(-1, 1) * 1e-5 for _ in range(4)]
                e = logu(rg, 1e6, 1e12)
                en, bn = [e * q for q in direction(rg)], [e / C * q for q in direction(rg)]
                pr = lambda a: [w for q in a for w in (q, q * rg.uniform(0.8, 1.2))]
                sc.append("lv " + " ".join(map(repr, xy + x + [w for q in zip(un, up) for w in q] + [gn, gp] + pr(en) + pr(bn))))
                if tl is None:  # the time of the snapshot is within the step for the first particle
                    tl = g * (t + be * x[0] / C) - rg.random() * (g * (dt + be * (x[0] - x[1]) / C))
            sc.append("lorp %d %r %r %r %r %r" % (r % 2, g, be, t, dt, tl))
        res.append(Scen("frames%d" % k, dict(nxc=8, nyc=8, nzc=8, sp=1), sc, 1))
    return res


def conv(sc, logs, d):
    n = len(logs)
    # the events, in the order of the commands that produced them; the lines of a rank are consumed one command at a time
    pos = [0] * n
    dim = sc.cfg.get("dimn", 3)
    sp = sc.cfg.get("sp", 1)

    def take(r, kinds):
        ls = logs[r]
        while pos[r] < len(ls) and ls[pos[r]][0] not in kinds:
            pos[r] += 1
        res = []
        while pos[r] < len(ls) and ls[pos[r]][0] in kinds:
            res.append(ls[pos[r]])
            pos[r] += 1
        return res

    ev, state = [], None
    for s in sc.script:
        k = s.split()
        if k[0] == "dstate":
            state = dict(ev="state", dim=dim, n=[], g=[], f=[], p=[])
            for r in range(n):
                h = take(r, ("DH",))[0]
                v = [int(x) for x in h[3:]]
                state["n"].append(v[:3])
                state["g"].append(v[3:6])
                state["N"] = v[6:9]
                state["v"] = take(r, ("DV",))[0][3:]
                state["f"].append({l[1]: l[3:] for l in take(r, ("DA",))})
                q = take(r, ("DQ",))
                state["sp"] = [l[3:] for l in q]
        elif k[0] == "dparts":
            for r in range(n):
                take(r, ("DPH",))
                state["p"].append([[int(l[1]), int(l[2]), l[3:]] for l in (take(r, ("DP",)) if pos[r] < len(logs[r]) and logs[r][pos[r]][0] == "DP" else [])])
            ev.append(state)
        elif k[0] == "dcount":
            ev.append(dict(ev="count", c=[[[int(l[4]), int(l[5])] + l[6:] for l in take(r, ("DC",))] for r in range(n)]))
        elif k[0] == "dquant":
            q = []
            for r in range(n):
                a = [[] for _ in range(14)]
                for _ in range(12 - (dim == 2) + 2):
                    while logs[r][pos[r]][0] != "DG":
                        pos[r] += 1
                    l = logs[r][pos[r]]
                    pos[r] += 1
                    assert l[3] == k[2]
                    a[int(l[4]) - 1] = l[6:]
                q.append(a)
            ev.append(dict(ev="quant", s=int(k[2]), q=q))
        elif k[0] == "denergy":
            ev.append(dict(ev="energy", e=[take(r, ("DE",))[0][3:] for r in range(n)]))
            ev.append(dict(ev="em", e=[take(r, ("DM",))[0][3:] for r in range(n)]))
        elif k[0] == "ddiv":
            ev.append(dict(ev="div", f=[{l[1]: l[3:] for l in take(r, ("DB",))} for r in range(n)]))
        elif k[0] == "dnorm":
            e, dv = [], []
            for r in range(n):
                e.append(take(r, ("DN",))[0][3:])
                dv.append(take(r, ("DA",))[0][3:])
            ev.append(dict(ev="norm", e=e, d=dv))
        elif k[0] == "dplane":
            h = take(0, ("PH",))[0]
            x = [[int(l[1])] + l[2:] for l in take(0, ("PI",))]
            c = [l[1:] for l in (take(0, ("PC",)) if pos[0] < len(logs[0]) and logs[0][pos[0]][0] == "PC" else [])]
            ev.append(dict(ev="plane", m=int(h[3]), p=h[4:7], po=h[7:10], v=h[10:13], x=x, c=c))
        elif k[0] in ("lor2", "lor3", "lorp"):
            b, a = take(0, ("LB",)), take(0, ("LA",))
            ev.append(dict(ev="lor", how=k[0], b=[l[1:] for l in b], a=[l[1:] for l in a], par=take(0, ("LE",))[0][2:]))
    return ev


def describe(sc, ev, line):
    e = ev[line]
    if e["ev"] == "plane":
        return "plane at %s (before %s), normal %s: %d caught, marked %s of %d" % (e["p"], e["po"], e["v"], e["m"], sum(x[0] for x in e["x"]), len(e["x"]))
    if e["ev"] == "lor":
        return "%s with %s: before %s, after %s" % (e["how"], e["par"], e["b"][:1], e["a"][:1])
    s = {k: sc.cfg.get(k) for k in ("dimn", "nxc", "nyc", "nzc", "px", "py", "pz", "ntx", "nty", "ntz")}
    return "%s: %s with settings %s" % (e["ev"], str({k: v for k, v in e.items() if k in ("c", "e")})[:600], s)


def run(ctx):
    ctx.assumptions = [
        "fields that agree at the nodes two domains share, as after any exchange of guard cells; periodic boxes",
        "inverse gammas as stored",
    ]
    ctx.model("Diags", "Diags.cfg")
    exe = fbuild.harness("pxh_field", extra=fbuild.FIELD)
    rg = random.Random(1200 + ctx.seed)
    runs = ctx.run_all(exe, boxes(ctx, rg) + planes(ctx, rg) + frames(ctx, rg), conv)
    ctx.validate("TraceDiag", runs, rerun=lambda sc: ctx.run_one(exe, sc, conv)[0], describe=describe, chunks=6)
