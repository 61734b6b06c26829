"""Deposition, gathering and pushing scenarios: the pxh_field harness with particles, events of TracePic.tla."""
from vf import Scen
from checks import field

DEN = {0: lambda U: 1, 1: lambda U: U, 2: lambda U: 2 * U * U, 3: lambda U: 6 * U**3}
LOGS = dict(field.LOGS, jdep="j", jalgo="j", rdep="r", rkern="r", rdepold="r")


def conv(sc, logs, d):
    i = sc.info
    base = field.conv(sc, logs, d)
    cfg = base[0]
    cfg.update(U=i["U"], ord=[sc.cfg.get(k, 1) for k in ("ox", "oy", "oz")], lowv=1 if i.get("lowv", True) else 0, ctol=6, nodal=1 if sc.cfg.get("nodal") else 0)
    parts = {}
    for r, ls in enumerate(logs):
        for l in ls:
            if l[0] == "PP":
                parts.setdefault(l[1], {})[r] = []
            elif l[0] == "p":
                v = [int(x) for x in l[2:]]
                s, id = v[0], v[1]
                # sp id tile(3) x y z u(3) gi d(3) q fields(6)
                parts[l[1]][r].append((s, [id] + v[5:8] + v[12:15] + [v[15]] + v[16:22] + [0 if s in i.get("frozen", ()) else 1]))
    dep = i.get("dep", (1,))
    evs = iter(e for e in base[1:] if e["ev"] != "coef")
    ev = [cfg]
    pend = None
    for s in sc.script:
        k = s.split()
        if k[0] in LOGS:
            pend = k
        elif k[0] in ("gather", "gpush"):
            pend = k
        elif k[0] == "log":
            e = next(evs)
            if pend and pend[0] in ("jdep", "jalgo", "rdep", "rkern", "rdepold"):
                e["ev"] = "jdep" if pend[0][0] == "j" else "rdep"
                if e["ev"] == "jdep":
                    e["alg"] = i["alg"] if pend[0] == "jdep" else ("dir" if pend[1] in "23" else "esir")
            if not k[2:] and not e["f"]:
                e = dict(ev="same", sig=e["sig"])
            ev.append(e)
            pend = None
        elif k[0] in ("ppart", "qpart"):  # qpart: not an event of its own
            pp = parts[k[1]]
            n = len(pp)
            if pend and pend[0] in ("gather", "gpush"):
                ev.append(dict(ev="gath", p=[[q for s_, q in sorted(pp[r], key=lambda t: t[1][0])] for r in range(n)]))
            else:
                ev.append(dict(ev="part", p=[[q for s_, q in sorted(pp[r], key=lambda t: t[1][0]) if i.get("all") or s_ in dep] for r in range(n)]))
            pend = None
        elif k[0] in ("keep", "cont"):
            ev.append(dict(ev=k[0]))
    return ev


def scale(cfg, U, dir_):
    dim = cfg["dimn"]
    o = [cfg["ox"], cfg["oy"], cfg["oz"]]
    p = 1
    for a in range(3):
        if dim == 3 or a != 1:
            p *= DEN[o[a]](U)
    kj = p * U if dir_ else p * 6 * (U if dim == 2 else 1)
    return kj, p


def grid(rg, k, order, dims=(3, 3, 2), maxranks=4, minc=None):
    """A grid whose domains are wide enough for the guard cells of these orders."""
    dim = dims[k % len(dims)]
    g = [3, 3, 3]
    while True:
        p = [rg.choice([1, 1, 2, 2, 3]) for _ in range(3)]
        if dim == 2:
            p[1] = 1
        if 1 <= p[0] * p[1] * p[2] <= maxranks:
            break
    m = [5 if q > 1 else 4 for q in p]
    n = [q * mm + rg.randrange(0, 4) for q, mm in zip(p, m)]
    if dim == 2:
        n = [x + rg.randrange(0, 5) for x in n]
        n[1] = 2
    cfg = dict(dimn=dim, nxc=n[0], nyc=n[1], nzc=n[2], px=p[0], py=p[1], pz=p[2], topo=rg.choice([0, 0, 1, 2]), sp=3, npids=2)
    cfg.update(zip(("ngx", "ngy", "ngz"), g))
    cfg.update(zip(("njx", "njy", "njz"), g))
    cfg.update(zip(("hx", "hy", "hz"), [rg.choice([0.5, 1.0, 2.0]) for _ in range(3)]))
    cfg.update(zip(("x0", "y0", "z0"), [rg.choice([0.0, -4.0, 8.0, -0.5]) for _ in range(3)]))
    cfg.update(zip(("ntx", "nty", "ntz"), [rg.choice([1, 1, 2, 3]) for _ in range(3)]))
    cfg.update(ox=order[0], oy=order[1], oz=order[2])
    return cfg


def clusters(rg, cfg, n, U):
    """Positions (in 1/U of a cell): some crowded in one or two cells, some anywhere."""
    N = [cfg["nxc"], cfg["nyc"], cfg["nzc"]]
    hot = [[rg.randrange(x) for x in N] for _ in range(2)]
    res = []
    for i in range(n):
        c = rg.choice(hot) if rg.random() < 0.6 else [rg.randrange(x) for x in N]
        res.append([x * U + rg.randrange(U) for x in c])
    return res


def describe(sc, ev, line):
    e = ev[line]
    c = ev[0]
    return "%s (%s) with orders %s, dimension %d on %d ranks, cuts %s; settings %s; call %s" % (
        e["ev"], e.get("alg", ""), c["ord"], c["dim"], len(c["pos"]), c["cut"],
        {k: sc.cfg.get(k) for k in ("cdepo", "rdepo", "fgath", "lvc", "lvr", "lvf", "ntx", "nty", "ntz", "nodal", "pusher", "sepfg", "lowv")},
        [s for s in sc.script if s.split()[0] in ("jdep", "jalgo", "rdep", "rkern", "gather", "gpush")])
