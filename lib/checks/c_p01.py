"""P01: division of the grid between ranks and of a domain between tiles (Decomp.tla, TraceDecomp.tla)."""
import random

import fbuild
from vf import Scen


def to_events(sc, logs, d):
    """Log lines D, DX, DY, DZ and T of every rank -> events."""
    c = sc.cfg
    S = 64
    h = [int(c.get(k, 1) * S) for k in ("hx", "hy", "hz")]
    x0 = [int(c.get(k, 0) * S) for k in ("x0", "y0", "z0")]
    dim = c.get("dimn", 3)
    n = [c["nxc"], c["nyc"], c["nzc"]]
    ev = [
        dict(ev="cfg", n=n, p=[c.get("px", 1), c.get("py", 1), c.get("pz", 1)], t=[c.get("ntx", 1), c.get("nty", 1), c.get("ntz", 1)], h=h, x0=x0, dim=dim,
             open=[int(c.get(k, False)) for k in ("absx", "absy", "absz")])
    ]
    place, ranks, tiles = [], [], []
    cuts = None
    for r, ls in enumerate(logs):
        e = {}
        for l in ls:
            v = l[0:2] + [int(x) for x in l[2:]]
            if l[0] == "D":
                v = v[2:]
                place.append(dict(ev="place", r=v[0], c=v[1:4]))
                e = dict(ev="rank", r=v[0], c=v[1:4], nl=v[4:7], gmin=v[7:13:2], gmax=v[8:13:2], lo=v[13:19:2], hi=v[14:19:2], nb=v[19:46], pr=v[46:52],
                         bd=v[52:58], np=v[58:61], nproc=v[61], cell=[], edge=[])
            elif l[0] in ("DX", "DY", "DZ"):
                v = v[2:]
                q = [v[i : i + 4] for i in range(0, len(v), 4)]
                # the chunks must be contiguous: a gap shows as an impossible cut
                cut = [q[0][0]] + [x[1] + 1 for x in q]
                if any(a[1] + 1 != b[0] for a, b in zip(q, q[1:])):
                    cut = [-1] * (len(q) + 1)
                e["cell"].append(cut)
                e["edge"].append([x[2:4] for x in q])
            elif l[0] == "T":
                v = v[2:]
                tiles.append(dict(ev="tile", r=r, k=v[0:3], i=v[3:6], first=v[6:12:2], last=v[7:12:2], lo=v[12:18:2], hi=v[13:18:2], nn=v[18:21], nc=v[21:24],
                                  glo=v[24:30:2], ghi=v[25:30:2], edge=v[30]))
        if e:
            ranks.append(e)
            cuts = cuts or e["cell"]
        mine = [t for t in tiles if t["r"] == r]
        if mine:
            tiles.append(dict(ev="tiles", r=-1, k=mine[0]["k"], count=len({tuple(t["i"]) for t in mine})))
    return ev + place + [dict(ev="cut", a=a + 1, cut=cuts[a]) for a in range(3)] + ranks + tiles


def scenarios(ctx):
    rg = random.Random(ctx.seed)
    res = []
    for k in range(150 if ctx.thorough else 44):
        dim = 3 if rg.random() < 0.75 else 2
        for _ in range(1000):
            p = [rg.choice([1, 1, 2, 2, 3, 4]) for _ in range(3)]
            if dim == 2:
                p[1] = 1
            if p[0] * p[1] * p[2] <= (16 if k % 8 == 0 else 8):
                break
        n = [rg.randrange(max(4 * x, 4), 4 * x + 17) for x in p]
        topo = [0, 1, 2, 0][k % 4]
        cfg = dict(dimn=dim, nxc=n[0], nyc=n[1] if dim == 3 else 2, nzc=n[2], px=p[0], py=p[1], pz=p[2], topo=topo)
        cfg.update(zip(("ntx", "nty", "ntz"), [rg.choice([1, 2, 3, 4, 5]) for _ in range(3)]))
        cfg.update(zip(("hx", "hy", "hz"), [rg.choice([0.5, 1.0, 2.0, 0.25]) for _ in range(3)]))
        cfg.update(zip(("x0", "y0", "z0"), [rg.choice([0.0, -3.5, 8.0, -16.0]) for _ in range(3)]))
        cfg.update(zip(("ngx", "ngy", "ngz"), [rg.choice([2, 3]) for _ in range(3)]))
        res.append(Scen("d%d_t%d_%s" % (dim, topo, "x".join(map(str, p))), cfg, ["decomp d", "tiles t"], p[0] * p[1] * p[2]))
    return res


def run(ctx):
    exe = fbuild.harness("pxh_part", extra=["pxh_core.F90"])
    ctx.model("Decomp", "DecompBig.cfg" if ctx.thorough else "Decomp.cfg")
    runs = ctx.run_all(exe, scenarios(ctx), to_events)
    ctx.validate("TraceDecomp", runs, rerun=lambda sc: ctx.run_one(exe, sc, to_events)[0])
    ctx.assumptions += ["grids of 4 to 33 cells per axis, up to 16 ranks; every rank's own report of its domain is what is checked"]
