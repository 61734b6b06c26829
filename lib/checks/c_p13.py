"""P13: the files of a run (Output.tla, TraceOut.tla)."""
import os
import random
import struct

import fbuild
from vf import Scen
from checks import pic
from checks.c_p11 import C, ME, QE, direction, logu

OUT = "ex ey ez bx by bz jx jy jz rho dive divj divb".split()
# Open MPI's own implementation of collective file access (4.1.6, four processes) now and then writes garbage; ROMIO does not
MPIIO = dict(OMPI_MCA_io="romio321")
TEMP = "kinE exE eyE ezE bxE byE bzE divE-rho rho divE".split()


def scens(ctx, rg):
    res = []
    for k in range(60 if ctx.thorough else 15):
        cfg = pic.grid(rg, k, (1, 1, 1), dims=(3, 2, 3))
        cfg.update(npids=2, sp=3, cdt=0.3)
        for a in "xyz":
            cfg["h" + a] = rg.choice([1e-6, 3.7e-7, 2.0])
        dim = cfg["dimn"]
        if dim == 2:
            cfg["nyc"] = 1
        n = [cfg["nxc"], cfg["nyc"], cfg["nzc"]]
        sc = ["flat"] if dim == 2 else []
        sc += ["species %d %r %r 1 0" % (s + 1, q, m) for s, (q, m) in enumerate([(-QE, ME), (QE, 1836.15 * ME), (2 * QE, 7344 * ME)])]
        out = [x for x in OUT if rg.random() < rg.choice([0.1, 0.3, 0.5])]
        fr = [rg.choice([-1, 1, 1, 2, 3]), rg.choice([0, 1, 2]), rg.choice([3, 4, 100])]
        td = [x for x in TEMP if rg.random() < rg.choice([0.1, 0.4, 1.0])]
        tp = rg.choice([0, 1, 1, 2])
        if tp == 0:
            td = []
        fmt = rg.choice([0, 1])
        sp0 = rg.choice([0, 1, 2])
        sc += ["cout %s %d %d %d" % (" ".join("1" if x in out else "0" for x in OUT), *fr), "tdiag %d %d %s" % (tp, fmt, " ".join("1" if x in td else "0" for x in TEMP))]
        if sp0:
            sc.append("tstat %d %d %d" % (sp0, rg.choice([1, 2, 3, 8]), rg.choice([0, 1000])))
        tot = rg.choice([0, 7, 60])
        ids = []

        def add(m):
            for i in range(m):
                ids.append(0)
                u = logu(rg, 1e-3, 1e3)
                x = [rg.uniform(0, v) for v in n]
                if dim == 2:
                    x[1] = 0.0
                sc.append("addu %d %d %s %s %r" % (rg.choice([1, 1, 2]), len(ids), " ".join(map(repr, x)), " ".join(repr(u * v) for v in direction(rg)), logu(rg, 1e3, 1e9)))

        add(tot)
        for s in rg.sample([1, 2, 3], rg.choice([0, 1, 2, 2])):
            b = []
            for v in n:
                b += rg.choice([[-1.0, v + 1.0], [-1.0, v + 1.0], [0.3 * v, v + 1.0], [-1.0, 0.6 * v]])
            for v in range(3):
                b += rg.choice([[-1e9, 1e9], [-1e9, 1e9], [0.0, 1e9], [-1.0, 2.0]])
            sc.append("pdump %d %d %s" % (s, rg.choice([0, 1, 1, 2]), " ".join(map(repr, b))))
        sc.append("initdiags")
        for it in range(rg.choice([0, 1]), 5):
            sc += ["newstep %d" % it, "fill %d 1" % (100 * k + it), "amp %r" % logu(rg, 1e-3, 1e3)]
            add(rg.choice([0, 0, 3]))
            if rg.random() < 0.2:
                sc.append("pbcs")
            sc += ["times %d" % it, "dstate s", "dparts s", "out"]
        sc += ["fstat"] + ["closeall"]
        res.append(Scen("out%d" % k, cfg, sc, cfg["px"] * cfg["py"] * cfg["pz"], out=out, fr=fr, td=td, tp=tp, fmt=fmt, sp0=sp0, env=MPIIO))
    return res


def doubles(b):
    n = len(b) // 8
    r = ["%.17g" % x for x in struct.unpack("<%dd" % n, b[: 8 * n])]
    return r + ["nan"] * (len(b) % 8 > 0)


def read(d, sc):
    res = {}
    top = os.path.join(d, "RESULTS")
    for f in sorted(os.listdir(top)):
        with open(os.path.join(top, f), "rb") as h:
            b = h.read()
        if f.endswith(".pxr"):
            h, n = [], []
            for a in range(3):
                t = b[20 * a : 20 * a + 20]
                if len(t) == 20:
                    x0, x1, m = struct.unpack("<ddi", t)
                    h += ["%.17g" % x0, "%.17g" % x1]
                    n.append(str(m))
            res[f] = dict(h=h + n, a=doubles(b[60:]))
        elif f in TEMP and sc.info["fmt"] == 1:
            v = b.decode().split()
            res[f] = dict(h=v[:2], a=v[2:])
        elif f in TEMP or f == "time_stat":
            m, x = struct.unpack("<id", b[:12]) if len(b) >= 12 else (-1, 0.0)
            res[f] = dict(h=[str(m), "%.17g" % x], a=doubles(b[12:]))
        else:
            res[f] = dict(h=[], a=doubles(b))
    for f in os.listdir(d):
        if f.startswith("fort."):
            res[f] = dict(h=[], a=[])
    return res


def conv(sc, logs, d):
    n, i = len(logs), sc.info
    dim = sc.cfg.get("dimn", 3)
    at = [dict() for _ in range(n)]

    def lines(r, k):
        return [l for l in logs[r] if l[0] == k]

    dh = [lines(r, "DH")[0] for r in range(n)]
    cf = dict(ev="conf", dim=dim, n=[[int(x) for x in h[3:6]] for h in dh], g=[[int(x) for x in h[6:9]] for h in dh], N=[int(x) for x in dh[0][9:12]], v=lines(0, "DV")[0][3:])
    cf.update(out=i["out"], fr=i["fr"], td=i["td"], tp=i["tp"], sp0=i["sp0"], sp=[[l[1]] + l[3:] for l in lines(0, "DQ")[:3]])
    cf["dumps"] = [[int(l[1]), int(l[2]), l[3:]] for l in lines(0, "DU")]
    ev = [cf, dict(ev="init")]
    steps = [int(s.split()[1]) for s in sc.script if s.startswith("newstep")]
    per = []
    for r in range(n):
        cur, res = None, []
        for l in logs[r]:
            if l[0] == "DT":
                cur = dict(t=l[1:], f={}, p=[])
                res.append(cur)
            elif l[0] == "DA":
                cur["f"][l[1]] = l[3:]
            elif l[0] == "DP":
                v = l[3:]
                cur["p"].append([int(l[1]), v[:6] + v[12:14]])
        per.append(res)
    for j, it in enumerate(steps):
        ev.append(dict(ev="state", it=it, f=[p[j]["f"] for p in per], p=[p[j]["p"] for p in per], t=[p[j]["t"] for p in per]))
    ev.append(dict(ev="done", files=read(d, sc)))
    return ev


def describe(sc, ev, line):
    c, e = ev[0], ev[line]
    return "the files in RESULTS (%s) are not those of steps %s with %s; grid %s on cells %s" % (
        sorted(e.get("files", {})), [x["it"] for x in ev if x["ev"] == "state"], {k: c[k] for k in ("out", "fr", "td", "tp", "sp0")}, c["N"], c["n"])


def run(ctx):
    ctx.assumptions = ["fields that agree at the nodes two domains share; periodic boxes; output at the calls a run makes, in steps below 100000"]
    ctx.model("Output", "Output.cfg")
    exe = fbuild.harness("pxh_field", extra=fbuild.FIELD)
    rg = random.Random(1300 + ctx.seed)
    runs = ctx.run_all(exe, scens(ctx, rg), conv)
    ctx.validate("TraceOut", runs, rerun=lambda sc: ctx.run_one(exe, sc, conv)[0], describe=describe, chunks=6)
