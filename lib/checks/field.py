"""Field scenarios: the pxh_field harness and its conversion to events of TraceField.tla."""
from vf import Scen

GRP = dict(ex=("e", 0), ey=("e", 1), ez=("e", 2), bx=("b", 0), by=("b", 1), bz=("b", 2), jx=("j", 0), jy=("j", 1), jz=("j", 2), rho=("r", 0), rhoo=("o", 0))
for i, f in enumerate("exy exz eyx eyz ezx ezy bxy bxz byx byz bzx bzy".split()):
    GRP[f] = ("s", i)
SIZE = dict(e=3, b=3, j=3, r=1, o=1, s=12)
STEN = {(2, False): ([1], 1), (4, False): ([27, -1], 24), (4, True): ([8, -1], 12), (2, True): ([1], 2), (6, False): ([2250, -125, 9], 1920)}


def conv(sc, logs, d):
    c = sc.cfg
    n = len(logs)
    dim = c.get("dimn", 3)
    pos, size = [], []
    arr, sig, order, coef = {}, {}, [], []
    g = gj = None
    for r, ls in enumerate(logs):
        for l in ls:
            if l[0] == "D":
                v = [int(x) for x in l[2:]]
                pos.append(v[1:4])
                size.append(v[4:7])
            elif l[0] == "G":
                v = [int(x) for x in l[1:]]
                g, gj = v[:3], v[3:]
            elif l[0] == "C" and r == 0:
                coef.append(dict(o=int(l[1]), nod=int(l[2]), c=[int(x) for x in l[3:]]))
            elif l[0] == "S":
                gr, k = GRP[l[2]]
                if l[1] not in sig:
                    sig[l[1]] = {}
                    order.append(l[1])
                sig[l[1]].setdefault(gr, [[0] * n for _ in range(SIZE[gr])])[k][r] = int(l[4])
            elif l[0] == "F":
                gr, k = GRP[l[2]]
                sh = [int(x) for x in l[4:7]]
                a = [int(x) for x in l[7:]]
                if dim == 2:  # only the plane y = 0 is used
                    nx, ny = sh[0], sh[1]
                    a = [x for i, x in enumerate(a) if (i // nx) % ny == 0]
                arr.setdefault(l[1], {}).setdefault(gr, [[None] * n for _ in range(SIZE[gr])])[k][r] = a
    cut = []
    for a in range(3):
        w = {}
        for p, s in zip(pos, size):
            w[p[a]] = s[a]
        t = [0]
        for k in range(len(w)):
            t.append(t[-1] + w[k])
        cut.append(t)
    ab = [c.get(k, False) for k in ("absx", "absy", "absz")]
    q, st, w, tol = 1, [[1]] * 3, [0] * 3, 0
    if sc.info.get("maxwell"):
        orders = [c.get(k, 2) for k in ("ordx", "ordy", "ordz")]
        nod = c.get("nodal", False)
        den = 1
        if orders != [2, 2, 2] and not (dim == 2 and orders[0] == orders[2] == 2):
            den = 12 if nod else 1920 if 6 in orders else 24
            st = []
            for o in orders:
                cc, dd = STEN[o, nod]
                st.append([x * den // dd for x in cc])
        else:
            nod = False
        w = [round(32 * c.get("cdt", 0.25) / h) for h in (c.get("hx", 1), c.get("hy", 1), c.get("hz", 1))]
        q = 64 * den
        tol = q + 8 * sum(abs(x) for s in st for x in s) * max(w)
    else:
        nod = False
    ev = [dict(ev="cfg", dim=dim, cut=cut, per=[0 if x else 1 for x in ab], abs=1 if any(ab) else 0, pos=pos, g=g, gj=gj, q=q, stencil=st, w=w, nodal=1 if nod else 0, tol=tol)]
    what = "set"
    for s in sc.script:
        k = s.split()
        if k[0] in ("ebcs", "bbcs", "jbcs", "rbcs", "merge", "pushb", "pushe"):
            what = k[0]
        elif k[0] == "fill":
            what = "set"
        elif k[0] == "coef":
            ev.append(dict(ev="coef", list=coef))
        elif k[0] == "log":
            ev.append(dict(ev=what, f=arr.get(k[1], {}), sig=sig[k[1]]))
            what = "set"
    return ev


LOGS = dict(ebcs="e", bbcs="b", jbcs="j", rbcs="r", merge="e b", pushb="b", pushe="e")


def ops(script, names, split=False):
    """Appends the calls and their logs to a script."""
    for k in names:
        t = "t%d" % len(script)
        script += [k, "log %s %s" % (t, LOGS[k] + (" s" if split and k in ("ebcs", "bbcs") else ""))]
    return script


def grid(rg, k, maxranks=8, dims=(3, 3, 2), minlen=None, g=None):
    dim = dims[k % len(dims)]
    while True:
        p = [rg.choice([1, 1, 2, 2, 3]) for _ in range(3)]
        if dim == 2:
            p[1] = 1
        if 1 <= p[0] * p[1] * p[2] <= maxranks:
            break
    g = g or [rg.choice([2, 2, 3]) for _ in range(3)]
    n = [x * (gg + 1) + rg.randrange(0, 3) for x, gg in zip(p, g)]
    if dim == 2:
        n[1] = 2
        n = [x + rg.randrange(0, 4) if i != 1 else x for i, x in enumerate(n)]
    cfg = dict(dimn=dim, nxc=n[0], nyc=n[1], nzc=n[2], px=p[0], py=p[1], pz=p[2], topo=rg.choice([0, 0, 1, 2]), sp=0)
    cfg.update(zip(("ngx", "ngy", "ngz"), g))
    cfg.update(zip(("njx", "njy", "njz"), g))
    cfg.update(zip(("hx", "hy", "hz"), [rg.choice([0.5, 1.0, 2.0]) for _ in range(3)]))
    return cfg


def describe(sc, ev, line):
    e = ev[line]
    c = ev[0]
    if e["ev"] == "coef":
        return "stencil coefficients (times 1e7): %s" % e["list"]
    return "call %s on %d ranks, dimension %d, cuts %s, guards %s (currents %s), communication mode %s" % (
        e["ev"], len(c["pos"]), c["dim"], c["cut"], c["g"], c["gj"], sc.cfg.get("mcom", 1))
