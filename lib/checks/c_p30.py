"""P30: engines as values: construction, copies, views, files, wavelength, random numbers (TraceQed.tla: Engine)."""
import random

import qed
from qed import cmd


class Eng:
    def __init__(self, n, lm, t1=False, t2=False):
        self.n, self.lm, self.t1, self.t2, self.pinned = n, lm, t1, t2, False


def script(rg, u, kind, length):
    s = []
    ct = qed.ctrl(rg, u, kind, tn=rg.randrange(2, 5), pn=2, fn=3)
    ct["tmin"] = max(ct["tmin"], 0.06)
    ct["pmin"] = max(ct["pmin"], 0.06)
    s.append(qed.ctrl_cmd(kind, ct))
    live, nxt = [], 0
    files = [None, None]

    def q(g):
        """Use engine g: what it does must follow from its state."""
        op = rg.choice(["od", "od", "pre", "gen", "gen", "evo", "rate", "get"])
        if op == "od":
            s.append("%s od %d" % (kind, g.n))
        elif op == "get":
            s.append("%s get %d" % (kind, g.n))
        elif op == "pre":
            s.append(cmd(kind, "pre", g.n, 2, qed.f32(rg.random() * 0.99), 0.25))
        elif op == "rate":
            if g.t1:
                s.append(cmd(kind, "rate", g.n, qed.logu(rg, 3, 1e5) * u.mc2, qed.logu(rg, ct["tmin"] / 2, ct["tmax"] * 2)))
        else:
            if op == "gen" and not g.t2:
                op = "evo"
            p, e, b = qed.peb(rg, u, qed.logu(rg, 0.05, 100), g.lm, 3, 1e4)
            if op == "gen":
                s.append(cmd(kind, "gen", g.n, p, e, b, 3.0, rg.randrange(1, 4)))
            else:
                s.append(cmd(kind, "evo", g.n, p, e, b, qed.logu(rg, 1e-3, 10) * (1.0 if u.norm else 1e-15), rg.expovariate(1)))

    def new():
        nonlocal nxt
        lm = qed.lam(rg, u)
        if nxt and rg.random() < 0.7:  # tables of another size (and the same range)
            ct.update(tn=rg.randrange(2, 9), pn=rg.randrange(2, 4) if kind == "bw" else 2, fn=rg.randrange(3, 7) if kind == "bw" else rg.randrange(3, 5), cmin=qed.logu(rg, 1e-3, 1e-1))
            s.append(qed.ctrl_cmd(kind, ct))
        s.append(cmd(kind, "new", nxt, rg.choice([1, 7, 2**32 + 1, rg.randrange(1, 9999), rg.randrange(2**64)]), lm))
        live.append(Eng(nxt, lm if u.norm else 1.0))
        nxt += 1

    new()
    for g in live:
        s += [cmd(kind, "t1", g.n, rg.randrange(2)), cmd(kind, "t2", g.n, rg.randrange(2))]
        g.t1 = g.t2 = True
    for _ in range(length):
        g = rg.choice(live)
        op = rg.choice(["new", "new0", "copy", "copy", "move", "asg", "asg", "selfasg", "inn", "lam", "t1", "t2", "wr", "wr", "rd", "rd", "rd", "free", "q", "q", "q", "q"])
        if op == "new" and len(live) < 5:
            new()
        elif op == "new0":
            s.append(cmd(kind, "new0", nxt, rg.choice([1, 7, 2**32 + 1, 12345])))
            s.append("%s od %d" % (kind, nxt))
            s.append("%s get %d" % (kind, nxt))
            s.append("%s free %d" % (kind, nxt))
            nxt += 1
        elif op == "copy":
            s.append("%s copy %d %d" % (kind, nxt, g.n))
            c = Eng(nxt, g.lm, g.t1, g.t2)
            live.append(c)
            nxt += 1
            q(c)
            q(g)
        elif op == "move" and not g.pinned:
            s.append("%s move %d %d" % (kind, nxt, g.n))
            g.n = nxt
            nxt += 1
            q(g)
        elif op in ("asg", "selfasg") and kind == "bw":
            t = g if op == "selfasg" else rg.choice(live)
            if t.pinned:
                continue
            s.append("%s asg %d %d" % (kind, t.n, g.n))
            t.lm, t.t1, t.t2 = g.lm, g.t1, g.t2
            q(t)
        elif op == "inn" and g.t1 and g.t2:
            s.append("%s inn %d %d" % (kind, nxt, g.n))
            g.pinned = True
            v = Eng(nxt, g.lm, True, True)
            v.pinned = True
            live.append(v)
            nxt += 1
            q(v)
            q(g)
        elif op == "lam":
            lm = qed.lam(rg, u)
            s.append(cmd(kind, "lam", g.n, lm))
            g.lm = lm if u.norm else 1.0
            q(g)
        elif op == "t1" and not g.pinned and rg.random() < 0.5:
            s.append("%s t1 %d 0" % (kind, g.n))
            g.t1 = True
        elif op == "t2" and not g.pinned and (kind == "bw" or rg.random() < 0.2):
            s.append("%s t2 %d 0" % (kind, g.n))
            g.t2 = True
        elif op == "wr":
            w = rg.randrange(2)
            if g.t2 if w else g.t1:
                s.append("%s wr%d %d f%d" % (kind, w + 1, g.n, w))
                files[w] = True
        elif op == "rd" and not g.pinned:
            w = rg.randrange(2)
            if files[w]:
                s.append("%s rd%d %d f%d" % (kind, w + 1, g.n, w))
                if w:
                    g.t2 = True
                else:
                    g.t1 = True
                q(g)
        elif op == "free" and not g.pinned and len(live) > 2:
            s.append("%s free %d" % (kind, g.n))
            live.remove(g)
        else:
            q(g)
    for g in live:
        s.append("%s get %d" % (kind, g.n))
        s.append("%s od %d" % (kind, g.n))
    return s


def scenarios(ctx):
    rg = random.Random(ctx.seed * 100 + 30)
    res = []
    us = qed.units(False)
    for k in range(320 if ctx.thorough else 64):
        res.append(qed.scen("eng%d" % k, us[k % 4], script(rg, us[k % 4], "bw" if k // 4 % 2 else "qs", 60 if ctx.thorough else 40)))
    return res


def run(ctx):
    qed.check(ctx, scenarios(ctx))
    ctx.assumptions += ["up to about 25 engines, tables of a few points; the owner of a view is not changed while the view lives, as the interface asks"]
