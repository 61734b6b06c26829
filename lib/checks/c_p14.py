"""P14: load balancing (BalOps.tla, Balance.tla, TraceBal.tla)."""
import random

import fbuild
from checks import part
from vf import Scen

S = part.S


def conv(sc, logs, d):
    c = sc.cfg
    dim = c["dimn"]
    n = [c["nxc"], c["nyc"], c["nzc"]]
    tags = {}
    for r, ls in enumerate(logs):
        for l in ls:
            t = tags.setdefault(l[1], dict(list=[], count=[], S={}, M={}, F={}, Q={}, D={}))
            if l[0] == "N":
                t["count"].append([r, int(l[2]), int(l[3])])
            elif l[0] == "P":
                v = [int(x) for x in l[2:]]
                t["list"].append(dict(sp=v[0], r=r, x=v[4:7], u=v[7:10], a=v[10:]))
            elif l[0] == "F":
                v = [int(x) for x in l[3:]]
                t["F"][r] = dict(g=[-v[1], -v[3], -v[5]], v=v[7:])
            elif l[0] == "Q":
                t["Q"].setdefault(r, []).append([l[3]] + [int(x) for x in l[4:]])
            elif l[0] in "SMD":
                t[l[0]][r] = [int(x) for x in l[2:]]
    p = [c["px"], c["py"], c["pz"]]
    D = tags["d"]["D"]
    cuts = [[None] * k for k in p]
    for v in D.values():
        for a in range(3):
            cuts[a][v[1 + a]] = [v[7 + 2 * a], v[8 + 2 * a] - 1]
    R = range(len(logs))
    props = [tuple(["sp%d" % (s + 1), 1, 1, 0, 0, 0, 1, 0, 0, 0]) for s in range(c["sp"])]
    props = [list(x) for x in props]
    for s in sc.script:
        w = s.split()
        if w[0] == "props":
            f, v = int(w[4]), int(w[5])
            q = props[int(w[1]) - 1]
            q[1:3] = [int(float(w[2])), int(float(w[3]))]
            q[5:8] = [f // 4 % 2, f % 2, f // 2 % 2]
            q[8] = v if f // 4 % 2 else 0
            q[9] = v % 3
        elif w[0] == "sortp":
            props[int(w[1]) - 1][3:5] = [int(w[2]), int(w[3])]
    ev = [dict(ev="cfg", dim=dim, n=n, np=p, h=[int(c["h" + a] * S) for a in "xyz"], x0=[int(c[a + "0"] * S) for a in "xyz"], at=[D[r][1:4] for r in R], cuts=cuts, props=props)]
    for i, s in enumerate(sc.script):
        w = s.split()
        if w[0] == "part" and not sc.script[i - 1].startswith("remap"):
            ev.append(dict(ev="part", list=tags.get(w[1], {}).get("list", [])))
        elif w[0] == "timing":
            ev.append(dict(ev="timing", t=int(w[1]), c=int(w[2]), m=[tags[w[3]]["M"][r] for r in R]))
        elif w[0] == "split":
            new = []
            for r in R:
                v, o = tags[w[3]]["S"][r], []
                for a in range(3):
                    o.append([list(x) for x in zip(v[: p[a]], v[p[a] : 2 * p[a]])])
                    v = v[2 * p[a] :]
                new.append(o)
            ev.append(dict(ev="split", tpp=int(w[1]), tpc=int(w[2]), new=new))
        elif w[0] == "cuts":
            a, lo = int(w[1]), [int(x) for x in w[2:]]
            ev.append(dict(ev="cuts", axis=a, new=[[x, y - 1] for x, y in zip(lo, lo[1:] + [n[a - 1]])]))
        elif w[0] == "remap":
            t = tags[w[2]]
            ev.append(dict(ev="remap", list=t["list"], count=t["count"], f=[t["F"][r] for r in R], props=[t["Q"].get(r, []) for r in R]))
    return ev


def scenarios(ctx):
    rg = random.Random(ctx.seed * 5 + 14)
    res = []
    for k in range(120 if ctx.thorough else 36):
        dim = 3 if k % 3 else 2
        while True:
            p = [rg.choice([1, 2, 3, 4]) for _ in range(3)]
            if dim == 2:
                p[1] = 1
            if p[0] * p[1] * p[2] <= 6 and (k % 9 == 0 or p[0] * p[1] * p[2] > 1):
                break
        n = [rg.randrange(3 * x, 3 * x + 6) for x in p]
        if dim == 2:
            n[1] = 2
        cfg = dict(dimn=dim, nxc=n[0], nyc=n[1], nzc=n[2], px=p[0], py=p[1], pz=p[2], topo=0, ntx=1, nty=1, ntz=1, ngx=2, ngy=rg.choice([1, 2]), ngz=rg.choice([2, 3]))
        cfg.update(zip(("hx", "hy", "hz"), [rg.choice([0.5, 1.0, 2.0]) for _ in range(3)]))
        cfg.update(zip(("x0", "y0", "z0"), [rg.choice([0.0, -8.0, 4.0]) for _ in range(3)]))
        if dim == 2:
            cfg["y0"] = 0.0
        cfg.update(sp=rg.choice([1, 2, 3]), npids=rg.choice([1, 2, 3]))
        ax = [1, 3] if dim == 2 else [1, 2, 3]
        sc = ["decomp d"]
        for s in range(cfg["sp"]):
            sc.append("props %d %d %d %d %d" % (s + 1, rg.choice([-1, 1, 4]), rg.choice([1, 1836]), rg.randrange(8), rg.randrange(1, 9)))
            sc.append("sortp %d %d %d" % (s + 1, rg.randrange(9), rg.randrange(9)))
        # crowds anywhere, also none at all, or all at one end
        npart = rg.choice([0, 5, 30, 60, 60])
        how = rg.choice(["flat", "low", "high", "spot", "spot"])
        spot = [rg.randrange(8 * m) for m in n]
        for i in range(1, npart + 1):
            q = []
            for a in range(3):
                m = 8 * n[a]
                w = rg.randrange(m)
                if how == "low":
                    w = min(w, rg.randrange(m))
                elif how == "high":
                    w = m - 1 if rg.random() < 0.5 else max(w, rg.randrange(m))
                elif how == "spot" and rg.random() < 0.8:
                    w = min(max(spot[a] + rg.randrange(-9, 9), 0), m - 1)
                q.append(cfg["xyz"[a] + "0"] + w * cfg["h" + "xyz"[a]] / 8)
            if dim == 2:
                q[1] = 0.0
            sc.append("add %d %d %r %r %r %d %d %d" % (1 + i % cfg["sp"], i, q[0], q[1], q[2], i + 100, -i - 200, i + 300))
        sc.append("part p0")
        for m in range(rg.choice([1, 2, 3])):
            sc.append("timing %d %d m%d" % (rg.randrange(1, 9), rg.randrange(1, 9), m))
            if rg.random() < 0.6:
                sc.append("split %d %d s%d" % (rg.choice([(1, 0), (1, 1), (50, 1), (0, 1), (200, 1)]) + (m,)))
            else:
                for a in ax:
                    sc.append("cuts %d %s" % (a, " ".join(map(str, [0] + sorted(rg.sample(range(1, n[a - 1]), p[a - 1] - 1))))))
            sc += ["remap %d r%d" % (rg.randrange(2), m), "part r%d" % m]
        res.append(Scen("k%d_d%d_p%d%d%d_s%d" % (k, dim, p[0], p[1], p[2], cfg["sp"]), cfg, sc, p[0] * p[1] * p[2]))
    return res


def describe(sc, ev, line):
    e = dict(ev[line])
    out = ["event %s after %s" % (e["ev"], [(x["ev"], x.get("axis", ""), x.get("new", "")) for x in ev[:line] if x["ev"] in ("split", "cuts")][-3:])]
    if e["ev"] == "remap":
        key = lambda q: (q["sp"], tuple(q["x"]), tuple(q["u"]), tuple(q["a"]))
        old = [x for x in ev[:line] if "list" in x][-1]["list"]
        a, b = {key(q) for q in old}, {key(q) for q in e["list"]}
        out.append("%d particles before, %d after; lost %s, new %s; counts %s; properties %s, expected %s" % (len(old), len(e["list"]), sorted(a - b)[:3], sorted(b - a)[:3], e["count"], e["props"], ev[0]["props"]))
    else:
        out.append(repr(e)[:500])
    return "; ".join(out)[:1500]


def run(ctx):
    exe = fbuild.harness("pxh_part", extra=["pxh_core.F90"])
    ctx.model("Balance", "Balance.cfg")
    ctx.model("Balance", "Balance5.cfg")
    runs = ctx.run_all(exe, scenarios(ctx), conv)
    ctx.validate("TraceBal", runs, rerun=lambda sc: ctx.run_one(exe, sc, conv)[0], describe=describe)
    ctx.assumptions += ["the driver follows the order of Warp's load balancing (limits, fields, tiles, particles)", "one thread (one tile per process after the move)"]
