"""Particle exchange scenarios: the pxh_part harness and its conversion to events of TracePart.tla."""
import random

from vf import Scen

S = 64


def conv(sc, logs, d):
    c = sc.cfg
    dim = c.get("dimn", 3)
    ax = [0, 2] if dim == 2 else [0, 1, 2]
    h = [int(c.get(k, 1) * S) for k in ("hx", "hy", "hz")]
    x0 = [int(c.get(k, 0) * S) for k in ("x0", "y0", "z0")]
    n = [c["nxc"], c["nyc"], c["nzc"]]
    kind = list(c.get("pb", [0] * 6))
    off = c.get("off", [0] * 6)
    plo = [x0[a] + (int(off[2 * a] * S) if kind[2 * a] in (1, 3) else 0) for a in range(3)]
    phi = [x0[a] + n[a] * h[a] + (int(off[2 * a + 1] * S) if kind[2 * a + 1] in (1, 3) else 0) for a in range(3)]
    lo, hi = [], []
    tags = {}
    for r, ls in enumerate(logs):
        for l in ls:
            if l[0] == "D":
                v = [int(x) for x in l[2:]]
                lo.append(v[13:19:2])
                hi.append(v[14:19:2])
            elif l[0] == "N":
                tags.setdefault(l[1], ([], []))[1].append([r, int(l[2]), int(l[3])])
            elif l[0] == "P":
                v = [int(x) for x in l[2:]]
                q = dict(sp=v[0], id=v[11] // 10, r=r, t=v[1:4], x=v[4:7], u=v[7:10], a=v[10:])
                tags.setdefault(l[1], ([], []))[0].append(q)
    ev = [dict(ev="cfg", dim=dim, h=h, kind=kind, plo=plo, phi=phi, lo=lo, hi=hi, nt=[c.get(k, 1) for k in ("ntx", "nty", "ntz")], strict=1)]
    last = None
    for s in sc.script:
        w = s.split()
        if w[0] == "add":
            i = int(w[2])
            x = [round(float(v) * S) for v in w[3:6]]
            ev.append(dict(ev="add", sp=int(w[1]), id=i, x=x, u=[int(float(v)) for v in w[6:9]], a=[i] + [i * 10 + k for k in range(c.get("npids", 1))]))
        elif w[0] == "move":
            ev.append(dict(ev="move", id=int(w[1]), d=[round(float(v) * S) for v in w[2:5]]))
        elif w[0] == "bcs":
            last = "bcs"
        elif w[0] == "part":
            p, nn = tags.get(w[1], ([], []))
            ev.append(dict(ev=last or "part", list=p, count=nn))
            last = None
    return ev


def script(rg, cfg, npart, nstep, edge=None):
    """Particles near the faces of ranks, tiles and the box, moved by less than a cell per step; positions in 1/8 cell."""
    dim = cfg.get("dimn", 3)
    n = [cfg["nxc"], cfg["nyc"], cfg["nzc"]]
    h = [cfg.get(k, 1) for k in ("hx", "hy", "hz")]
    x0 = [cfg.get(k, 0) for k in ("x0", "y0", "z0")]
    off = cfg.get("off", [0] * 6)
    kind = cfg.get("pb", [0] * 6)
    p = [cfg.get(k, 1) for k in ("px", "py", "pz")]
    lo = [x0[a] + (off[2 * a] if kind[2 * a] in (1, 3) else 0) for a in range(3)]
    hi = [x0[a] + n[a] * h[a] + (off[2 * a + 1] if kind[2 * a + 1] in (1, 3) else 0) for a in range(3)]
    s = ["decomp d"]
    pos = {}
    for i in range(1, npart + 1):
        q = []
        for a in range(3):
            w = (hi[a] - lo[a]) / h[a]
            k = rg.randrange(int(8 * w))
            if rg.random() < (0.5 if edge is None else edge):
                # near a rank face, or a face of the box
                b = round(n[a] * rg.randrange(p[a] + 1) / p[a]) * 8 + rg.choice([-8, -4, -1, 0, 1, 3, 4, 7])
                b -= round((lo[a] - x0[a]) / h[a] * 8)
                k = rg.choice([b, b, 0, int(8 * w) - 1])
                k = min(max(k, 0), int(8 * w) - 1)
            q.append(lo[a] + k * h[a] / 8)
        if dim == 2:
            q[1] = 0.0
        pos[i] = q
        s.append("add %d %d %r %r %r %d %d %d" % (1 + i % cfg.get("sp", 1), i, q[0], q[1], q[2], i + 100, -i - 200, i + 300))
    s.append("part p0")
    for st in range(nstep):
        drift = [rg.choice([-1, 0, 1]) for _ in range(3)] if rg.random() < 0.5 else None
        for i in pos:
            d = [rg.choice([0, 0, 1, -1, 4, -4, 7, -7]) for a in range(3)]
            if drift and rg.random() < 0.8:
                d = [7 * x for x in drift]
            d = [d[a] * h[a] / 8 for a in range(3)]
            if dim == 2:
                d[1] = 0.0
            if any(d):
                s.append("move %d %r %r %r" % (i, *d))
        s += ["bcs", "part q%d" % (st + 1)]
    return s


VARIANTS = [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1)]  # partcom, mpicom_curr


def base_cfg(rg, k, maxranks=8, dims=(3, 3, 3, 2)):
    dim = dims[k % len(dims)]
    while True:
        p = [rg.choice([1, 2, 2, 3]) for _ in range(3)]
        if dim == 2:
            p[1] = 1
        if p[0] * p[1] * p[2] <= maxranks:
            break
    n = [rg.randrange(6 * x, 6 * x + 8) for x in p]
    if dim == 2:
        n[1] = 2
    pc, mc = VARIANTS[(k // len(dims) + k) % len(VARIANTS)]
    cfg = dict(dimn=dim, nxc=n[0], nyc=n[1], nzc=n[2], px=p[0], py=p[1], pz=p[2], pcom=pc, mcom=mc, topo=rg.choice([0, 0, 1, 2]))
    cfg.update(zip(("ntx", "nty", "ntz"), [rg.choice([1, 1, 2, 3]) for _ in range(3)]))
    cfg.update(zip(("hx", "hy", "hz"), [rg.choice([0.5, 1.0, 2.0]) for _ in range(3)]))
    cfg.update(zip(("x0", "y0", "z0"), [rg.choice([0.0, -8.0, 4.0]) for _ in range(3)]))
    cfg.update(sp=rg.choice([1, 1, 2]), npids=rg.choice([1, 1, 2]), mbuf=rg.choice([2, 4, 2000]))
    return cfg


def describe(sc, ev, line):
    """Names the particles of the rejected event that look wrong (only for the message; TLC has decided)."""
    cfg = ev[0]
    ax = [0, 2] if cfg["dim"] == 2 else [0, 1, 2]
    held = {}
    for k, e in enumerate(ev[: line + 1]):
        if e["ev"] == "add":
            held[e["sp"], e["id"]] = dict(x=e["x"], u=e["u"], a=e["a"])
        elif e["ev"] == "move":
            for q, h in held.items():
                if q[1] == e["id"]:
                    h["x"] = [x + y for x, y in zip(h["x"], e["d"])]
        elif k < line:
            if e["ev"] == "bcs":
                held = {(q["sp"], q["id"]): dict(x=q["x"], u=q["u"], a=q["a"]) for q in e["list"]}
    e = ev[line]
    if "list" not in e:
        return repr(e)[:300]
    got = {}
    for q in e["list"]:
        got.setdefault((q["sp"], q["id"]), []).append(q)
    out = []
    for k, h in sorted(held.items()):
        g = got.pop(k, [])
        kinds = set()
        for a in ax:
            if h["x"][a] < cfg["plo"][a]:
                kinds.add((a, "lower", cfg["kind"][2 * a]))
            if h["x"][a] >= cfg["phi"][a]:
                kinds.add((a, "upper", cfg["kind"][2 * a + 1]))
        ks = {x[2] for x in kinds}
        if len(g) != 1:
            if len(g) or 1 not in ks:
                out.append("particle %s at %s crossing %s: found %d times" % (k, h["x"], sorted(kinds), len(g)))
            continue
        g = g[0]
        lo, hi = cfg["lo"][g["r"]], cfg["hi"][g["r"]]
        bad = []
        if ks == {1} or (1 in ks and 3 not in ks):
            bad.append("should be gone")
        if any(not lo[a] <= g["x"][a] < hi[a] for a in ax):
            bad.append("outside its rank's box")
        for a in ax:
            m = (hi[a] - lo[a]) // cfg["h"][a] + 1
            t = cfg["nt"][a] if m // cfg["nt"][a] >= 4 else 1
            i = min((2 * (g["x"][a] - lo[a]) + cfg["h"][a]) // (2 * cfg["h"][a]) // (m // t) + 1, t)
            if i != g["t"][a]:
                bad.append("tile %d on axis %d, not %d" % (g["t"][a], a, i))
        if not ks and (g["x"] != h["x"] or g["u"] != h["u"] or g["a"] != h["a"]):
            bad.append("changed")
        for a in ax:
            k = [x[2] for x in kinds if x[0] == a]
            k = k[0] if k else -1
            x, q, w = h["x"][a], g["x"][a], cfg["h"][a]
            L, H = cfg["plo"][a], cfg["phi"][a]
            if 3 in ks:
                ok = len(kinds) > 1 or L <= q <= H and (q < H or x == H) and (k != 3 or (q <= L + 2 * w if x < L else q >= H - 2 * w)) and (k != -1 or abs(q - x) <= 2 * w)
            else:
                ok = q == x if k == -1 else q == L + (x - L) % (H - L) if k == 0 else (L <= q <= L + w if x < L else H - w <= q < H)
            if not ok:
                bad.append("position on axis %d, box %d..%d, cell %d" % (a, L, H, w))
        if bad:
            out.append("particle %s at %s u %s crossing %s -> rank %d tile %s x %s u %s: %s" % (k, h["x"], h["u"], sorted(kinds), g["r"], g["t"], g["x"], g["u"], ", ".join(bad)))
    for k in got:
        out.append("particle %s appeared" % (k,))
    for r, sp, n in e["count"]:
        m = sum(1 for q in e["list"] if q["r"] == r and q["sp"] == sp)
        if m != n:
            out.append("rank %d species %d holds %d particles and counts %d" % (r, sp, m, n))
    return " ; ".join(out)[:1200]
