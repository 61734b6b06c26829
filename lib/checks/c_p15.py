"""P15: sorting of the particles of a tile (SortOps.tla, Sorting.tla, TraceSort.tla)."""
import random

import fbuild
from checks import part
from vf import Scen

S = part.S


def conv(sc, logs, d):
    c = sc.cfg
    dim = c["dimn"]
    tiles, tags = [], {}
    keys = {}
    for r, ls in enumerate(logs):
        for l in ls:
            if l[0] == "T":
                v = [int(x) for x in l[2:]]
                k = [r] + v[3:6]
                keys[tuple(k)] = 1
                tiles.append(dict(k=k, lo=v[12:18:2], hi=v[13:18:2]))
            elif l[0] == "P":
                v = [int(x) for x in l[2:]]
                q = dict(x=v[4:7] if dim == 3 else [v[4], 0, v[6]], a=v[7:])
                tags.setdefault(l[1], {}).setdefault((r, v[1], v[2], v[3], v[0]), []).append(q)
    ax = ("x", "y", "z")
    ev = [dict(ev="cfg", dim=dim, tiles=tiles, d=[int(c["sd" + a] * S) for a in ax], shift=[int(c["ss" + a] * S) for a in ax])]
    ns = c["sp"]
    per, st = [0] * ns, [0] * ns
    it, due = 0, False
    for s in sc.script:
        w = s.split()
        if w[0] == "sortp":
            per[int(w[1]) - 1], st[int(w[1]) - 1] = int(w[2]), int(w[3])
        elif w[0] == "it":
            it = int(w[1])
        elif w[0] == "sort":
            due = True
        elif w[0] == "part":
            t = tags.get(w[1], {})
            lst = [dict(k=list(k), sp=sp + 1, q=t.get(k + (sp + 1,), [])) for k in sorted(keys) for sp in range(ns)]
            ev.append(dict(ev="sort", on=c["sorton"], it=it, period=list(per), start=list(st), list=lst) if due else dict(ev="part", list=lst))
            due = False
    return ev


def scenarios(ctx):
    rg = random.Random(ctx.seed * 7 + 15)
    res = []
    for k in range(160 if ctx.thorough else 40):
        cfg = part.base_cfg(rg, k, 4, dims=(3, 2))
        cfg["npids"] = [1, 2, 4, 3][k // 2 % 4]
        cfg["sorton"] = 0 if k % 12 == 11 else 1
        for a in "xyz":
            cfg["sd" + a] = cfg["h" + a] * rg.choice([0.25, 0.5, 1, 1, 2, 4])
            cfg["ss" + a] = cfg["h" + a] * rg.choice([0, 0, -0.5, -1, -1.25, 0.5, 1, 1.5, 3])
        pb = []
        for a in range(3):
            pb += rg.choice([[0, 0], [1, 1], [2, 2]])
        if k % 4 in (1, 2):
            # particles put back by a wall while they change tile on another axis
            pb = [2 if b or rg.random() < 0.7 else 0 for b in pb[::2] for _ in (0, 1)]
            cfg.update(ntx=3, nty=3, ntz=3, nxc=cfg["px"] * 12, nzc=cfg["pz"] * 12)
        if cfg["dimn"] == 2:
            pb[2:4] = [0, 0]
            cfg["nty"] = 1
        cfg["pb"] = pb
        npart, nstep = rg.choice([(8, 3), (40, 4), (90, 3)]) if k % 4 not in (1, 2) else (150, 5)
        sc = part.script(rg, cfg, npart, nstep, edge=0.9 if k % 4 in (1, 2) else None)
        sc.insert(1, "tiles t")
        # sort after each exchange, and sometimes after particles have moved without one
        out, it, m = [], rg.choice([0, 6, 17]), 0
        pre = []
        for s in range(cfg["sp"]):
            pre.append("sortp %d %d %d" % (s + 1, rg.choice([1, 1, 2, 3, 0]), rg.choice([0, 0, it + 1, it, 100])))
        for s in sc:
            out.append(s)
            if s.startswith("decomp"):
                out += pre
            elif s.startswith("part"):
                out += ["it %d" % it, "sort", "part s%d" % m]
                it += 1
                m += 1
        res.append(Scen("k%d_d%d_s%d_np%d" % (k, cfg["dimn"], cfg["sp"], cfg["npids"]), cfg, out, cfg["px"] * cfg["py"] * cfg["pz"]))
    return res


def describe(sc, ev, line):
    e = ev[line]
    if e["ev"] != "sort" or ev[line - 1].get("list") is None:
        return repr(e)[:300]
    out = []
    for o, n in zip(ev[line - 1]["list"], e["list"]):
        if o["q"] != n["q"]:
            w = "reordered" if sorted(map(repr, o["q"])) == sorted(map(repr, n["q"])) else "not the same particles"
            i = next((j for j, (p, q) in enumerate(zip(o["q"], n["q"])) if p != q), None)
            out.append("species %d tile %s: %d particles, %s (first change at %s: %s -> %s)" % (o["sp"], o["k"], len(o["q"]), w, i, o["q"][i] if i is not None else "", n["q"][i] if i is not None else ""))
    return "grid step %s shift %s, iteration %d, periods %s, starts %s: %s" % (ev[0]["d"], ev[0]["shift"], e["it"], e["period"], e["start"], " ; ".join(out)[:900])


def run(ctx):
    exe = fbuild.harness("pxh_part", extra=["pxh_core.F90"])
    ctx.model("Sorting", "Sorting.cfg")
    ctx.model("Sorting", "Sorting5.cfg")
    runs = ctx.run_all(exe, scenarios(ctx), conv)
    ctx.validate("TraceSort", runs, rerun=lambda sc: ctx.run_one(exe, sc, conv)[0], describe=describe)
    ctx.assumptions += ["steps of the sorting grid are powers of two of the cell, positions multiples of 1/8 cell (no rounding at the edges of bins)"]
