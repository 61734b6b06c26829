"""P11: the particle pushers (PushOps.tla, TracePush.tla)."""
import math
import random

import fbuild
from vf import Scen
from checks import pic

C = 299792458.0
QE, ME = 1.6021764620000001e-19, 9.10938291e-31
PUSH = ("boris", "borisb", "vay", "vay1", "vay2", "epush", "bpush", "gamma", "s09", "b08", "ll", "xyz", "xz", "2dxz")
QM = [(-QE, ME), (QE, 1836.15 * ME), (-QE, ME), (1.0, 1.0), (-30 * QE, ME)]


def logu(rg, a, b):
    return math.exp(rg.uniform(math.log(a), math.log(b)))


def direction(rg):
    k = rg.randrange(6)
    if k == 0:  # along an axis
        v = [0.0, 0.0, 0.0]
        v[rg.randrange(3)] = rg.choice([1.0, -1.0])
        return v
    while True:
        v = [rg.gauss(0, 1) for _ in range(3)]
        if k == 1:
            v[rg.randrange(3)] = 0.0
        n = math.sqrt(sum(x * x for x in v))
        if n > 1e-3:
            return [x / n for x in v]


def particle(rg, name, q, m, dt):
    """u, 1/gamma, E, B, position, previous E and B; kicks and rotation angles from negligible to large."""
    k = abs(q * dt / m)
    rr = name in ("s09", "b08", "ll")
    u = 0.0 if rg.random() < 0.1 else logu(rg, 1e-4, 1e3)
    d = direction(rg)
    u = [u * C * x for x in d]
    un = math.sqrt(sum(x * x for x in u))
    z = [0.0] * 3
    if rr:
        e = logu(rg, 3e-3, 0.3) * (un or C) / k
        b = logu(rg, 3e-3, 0.3) * math.hypot(1, un / C) / k
    else:
        e = logu(rg, 1e-5, 10) * max(un, 0.01 * C) / k
        b = logu(rg, 1e-4, 30) * math.hypot(1, un / C) / k
    e = z if rg.random() < 0.12 else [e * x for x in (d if rg.random() < 0.15 else direction(rg))]
    b = z if rg.random() < 0.12 else [b * x for x in (d if rg.random() < 0.15 else direction(rg))]
    g = 1 / math.sqrt(1 + (un / C) ** 2)
    x = [rg.uniform(-1, 1) * 1e-5 for _ in range(3)]
    f = rg.choice([0.0, 0.5, 0.9, 1.0, 1.1])
    return u + [g] + e + b + x + [f * y for y in e] + [(2 - f) * y for y in b]


def kernels(ctx, rg):
    res = []
    for k in range(24 if ctx.thorough else 6):
        sc = []
        for name in PUSH:
            q, m = rg.choice(QM)
            dt = logu(rg, 1e-18, 1e-10)
            if name in ("s09", "b08", "ll"):
                q, m = rg.choice([(-QE, ME), (-30 * QE, ME)])
                # the reaction is the larger the shorter the step is against the rotation: pushed up to some per cent of the momentum
                dt = q * q / (6 * math.pi * 8.854e-12 * m * C**3) / logu(rg, 1e-3, 3) * 0.3
            n = rg.choice([0, 1, 3, 7, 12])
            sc.append("kclear")
            for _ in range(n + 2):
                sc.append("kb " + " ".join(repr(x) for x in particle(rg, name, q, m, dt)))
            sc.append("kern %s %d %d %r %r %r" % (name, n, rg.choice([1, 2, 3, 4, 8, 64]), q, m, dt))
        res.append(Scen("kern%d" % k, dict(nxc=8, nyc=8, nzc=8, sp=1), sc, 1))
    return res


def pushes(ctx, rg):
    res = []
    plan = []
    for dim in (3, 2):
        for pu in range(5):
            for sep in (0, 1, 2) if dim == 3 else (0,):
                plan.append((dim, pu, sep, "full"))
        plan += [(dim, 0, 0, "parts"), (dim, 1, 0, "parts")]
    if ctx.thorough:
        plan *= 4
    for k, (dim, pu, sep, how) in enumerate(plan):
        o = rg.choice([1, 2, 3])
        o = (o, o, o) if k % 3 else rg.choice([(1, 2, 3), (2, 1, 1), (3, 3, 1)])
        cfg = pic.grid(rg, k, o, dims=(dim,))
        cfg.update(fgath=rg.randrange(3), lowv=rg.random() < 0.7, lvf=rg.choice([4, 8, 256]), sepfg=sep, pusher=pu, npids=8, sp=4, cdt=0.3 * min(cfg["hx"], cfg["hz"]))
        nd = [cfg["nxc"], cfg["nyc"], cfg["nzc"]]
        qm = [(-QE, ME), (QE, 1836 * ME), (-QE, ME), (2 * QE, 5 * ME)]
        dt = cfg["cdt"] / C
        if pu >= 2:  # charges for which the reaction matters
            qm = [(-x[0] * 5e8, x[1] * 1e5) for x in qm]
        kk = abs(qm[0][0]) * dt / qm[0][1]
        moves = [1, 1, 0, 0]
        sc = ["decomp D", "oldpid"] + ["species %d %r %r 1 %d" % (s + 1, qm[s][0], qm[s][1], 1 if s == 2 else 0) for s in range(4)] + ["antenna 4"]
        for i in range(rg.choice([15, 40])):
            u = logu(rg, 1e-3, 30 if pu < 2 else 3)
            x = [rg.uniform(0, v) for v in nd]
            if rg.random() < 0.1:
                u = 0.0
            sc.append("addu %d %d %s %s 1.0" % (rg.choice([1, 1, 2, 3, 4]), i, " ".join(repr(v) for v in x), " ".join(repr(u * v) for v in direction(rg))))
        sc += ["zero", "frange 100"]
        for step in range(3):
            # mean kick of 0.1 to 10 mc; the first field of all is zero at times: nothing must happen then
            amp = (0.0 if step == 0 and k % 4 == 0 else logu(rg, 0.1, 10 if pu < 2 else 1)) * C / kk / 100
            sc += ["famp %r" % amp, "fill %d 0" % (1000 * k + step), "fpart h%d" % step]
            if how == "full":
                sc += ["gpush", "fpart p%d" % step]
            else:
                sc += ["part1", "fpart a%d" % step, "part2", "fpart b%d" % step]
            sc += ["pbcs", "fpart x%d" % step]
        res.append(Scen("push%d_%dd_%d_%d" % (k, dim, pu, sep), cfg, sc, cfg["px"] * cfg["py"] * cfg["pz"], sp=[[repr(a), repr(b), mv] for (a, b), mv in zip(qm, moves)], kind=pu))
    return res


def conv(sc, logs, d):
    if "sp" not in sc.info:
        ev, cur = [], None
        for l in logs[0]:
            if l[0] == "KB":
                cur = dict(ev="kern", name=l[1], n=int(l[2]), q=l[3], m=l[4], dt=l[5], a=[], b=[])
                side = "a"
            elif l[0] == "KA":
                side = "b"
                ev.append(cur)
            elif l[0] == "k":
                cur[side].append(l[1:])
        return ev
    tags, parts, dt = [], {}, None
    for ls in logs:
        for l in ls:
            if l[0] == "FP":
                if l[1] not in parts:
                    parts[l[1]] = []
                    tags.append(l[1])
                dt = l[2]
            elif l[0] == "f":
                parts[l[1]].append([int(l[2]), int(l[3]), l[4:]])
    ev = []
    for t in tags:
        p = sorted(parts[t], key=lambda x: x[:2])
        if t[0] == "h":
            ev.append(dict(ev="hold", p=p))
        elif t[0] == "x":
            ev.append(dict(ev="exch", p=p))
        else:
            ev.append(dict(ev="push", p=p, how={"p": "full", "a": "part1", "b": "part2"}[t[0]], kind=sc.info["kind"], dim=sc.cfg["dimn"], dt=dt, sp=sc.info["sp"]))
    return ev


def describe(sc, ev, line):
    e = ev[line]
    if e["ev"] == "kern":
        return "kernel %s on %d of %d particles, q %s, m %s, dt %s: before %s, after %s" % (e["name"], e["n"], len(e["a"]), e["q"], e["m"], e["dt"], e["a"][:2], e["b"][:2])
    return "%s (%s) with settings %s" % (e["ev"], e.get("how", ""), {k: sc.cfg.get(k) for k in ("dimn", "pusher", "sepfg", "fgath", "ox", "oy", "oz", "lvf", "ntx", "nty", "ntz")})


def run(ctx):
    ctx.assumptions = [
        "consistent inverse gammas; rotation angles of a step up to 30, kicks up to ten times the momentum",
        "with radiation reaction, fields that change the momentum by at least 1e-3 (differences are what the force is made of)",
    ]
    ctx.model("Push", "Push.cfg")
    exe = fbuild.harness("pxh_field", extra=fbuild.FIELD)
    rg = random.Random(1100 + ctx.seed)
    runs = ctx.run_all(exe, kernels(ctx, rg) + pushes(ctx, rg), conv)
    ctx.validate("TracePush", runs, rerun=lambda sc: ctx.run_one(exe, sc, conv)[0], describe=describe, chunks=6)
