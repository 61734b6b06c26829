"""P22: lookup tables (QedOps.tla, TraceQed.tla)."""
import math
import random

import qed
from qed import cmd


def points(rg, n, equi, real):
    a = rg.choice([0.0, 1.0, -3.5, rg.uniform(-50, 50), math.log(1e-3)])
    w = rg.choice([1.0, 10.0, rg.uniform(0.1, 30)])
    c = [a + w * i / (n - 1) for i in range(n)] if equi else sorted(set([a, a + w] + [a + w * rg.random() for _ in range(n - 2)]))
    if not equi:  # apart from each other
        d = [c[0]]
        for x in c[1:]:
            if x - d[-1] > 1e-3 * w:
                d.append(x)
        c = d
    c = [qed.f32(x) for x in c]
    return c


def where(rg, c):
    """A place within the table: anywhere, on a point, next to one, at the ends."""
    k = rg.randrange(8)
    i = rg.randrange(len(c))
    if k == 0:
        return c[i]
    if k == 1:
        return min(c[-1], math.nextafter(c[i], math.inf))
    if k == 2:
        return max(c[0], math.nextafter(c[i], -math.inf))
    if k == 3:
        return c[-1]
    if k == 4:
        return c[0]
    return rg.uniform(c[0], c[-1])


def value(rg, kind):
    return rg.choice([0.0, 1.0, -1.0]) if kind == 0 else rg.uniform(-100, 100) if kind == 1 else qed.logu(rg, 1e-6, 1e6)


class Slot:
    """What the specification will hold for a slot: own storage, or a view of another slot's; the coordinates; is it initialised."""

    def __init__(self, cs, view=None, init=True):
        self.cs, self.view, self.init = cs, view, init


def sizes(rg, dim):
    if dim == 1:
        return [rg.choice([2, 3, 4, 7, 12, 12, 33, 130] * 3 + [260, 1030])]
    return [rg.choice([2, 3, 5, 6, 6, 20]), rg.choice([2, 3, 4, 7, 7, 33, rg.choice([33, 140])])]


def work(rg, u, dim, equi, length, f0):
    """Tables of different sizes: made, copied, moved, assigned, viewed, changed, written, read, asked."""
    s = []
    T = "t%d" % dim
    slots, files, pos = {}, {}, {}
    nxt = 0

    def new():
        nonlocal nxt
        kind = rg.randrange(3)
        cs = [points(rg, n, equi, u.real) for n in sizes(rg, dim)]
        n = math.prod(len(c) for c in cs)
        s.append(cmd(T + "new", nxt, *[len(c) for c in cs], *cs, [qed.f32(value(rg, kind)) for _ in range(n)]))
        slots[nxt] = Slot(cs)
        nxt += 1

    def ask(o):
        cs = slots[o].cs
        if not slots[o].init:
            return
        if dim == 1:
            s.append(cmd("t1q" if equi else "t1g", o, where(rg, cs[0])))
            return
        k = rg.randrange(4)
        if k < 2:
            s.append(cmd("t2q" if equi else "t2g", o, where(rg, cs[0]), where(rg, cs[1])))
        elif k == 2:
            s.append(cmd("t2f" if equi else "t2fg", o, where(rg, cs[0]), rg.randrange(len(cs[1]))))
        else:
            s.append(cmd("t2at", o, rg.randrange(len(cs[0])), rg.randrange(len(cs[1]))))
        if equi and rg.random() < 0.3:
            c = cs[0]
            x = rg.choice([c[0] - 1.5, c[-1] + 2.25, math.nextafter(c[-1], math.inf), math.nextafter(c[0], -math.inf), c[0] - 1e4, c[-1] + 1e4])
            s.append(cmd("t2fe", o, x, rg.choice([0, len(cs[1]) - 1, rg.randrange(len(cs[1]))])))

    new()
    for _ in range(10):
        ask(0)
    new()
    for _ in range(length):
        if len(slots) > 12:
            break
        o = rg.choice(sorted(slots))
        free = [x for x in slots if not any(y.view == x for y in slots.values())]  # not looked at by a view
        op = rg.choice(["new", "copy", "move", "asg", "asg", "asg", "self", "raw", "set", "set", "q", "q", "q", "q", "get", "wr", "wr", "rd", "rd", "rd", "def", "defasg", "rew"])
        if op in ("wr", "rd", "rew") and u.core:
            op = "asg"
        if op == "new":
            new()
        elif op == "copy":
            s.append("%scopy %d %d" % (T, nxt, o))
            slots[nxt] = Slot(slots[o].cs, None, slots[o].init)
            ask(nxt)
            nxt += 1
        elif op == "raw" and slots[o].view is None and slots[o].init:
            s.append("%sraw %d %d" % (T, nxt, o))
            slots[nxt] = Slot(slots[o].cs, o)
            ask(nxt)
            nxt += 1
        elif op == "move":
            s.append("%smove %d %d" % (T, nxt, o))
            slots[nxt] = slots.pop(o)
            for x in slots.values():  # the views of o are now views of nxt
                if x.view == o:
                    x.view = nxt
            ask(nxt)
            nxt += 1
        elif op == "self" and o in free:
            s.append("%sasg %d %d" % (T, o, o))
            s.append("%sget %d" % (T, o))
            ask(o)
        elif op == "asg" and free:
            t = rg.choice(free)
            if t != o:
                s.append("%sasg %d %d" % (T, t, o))
                slots[t] = Slot(slots[o].cs, None, slots[o].init)
                ask(t)
        elif op in ("def", "defasg"):
            s.append("%sdef %d" % (T, nxt))
            slots[nxt] = Slot([[] for _ in range(dim)], None, False)
            if op == "defasg":
                s.append("%sasg %d %d" % (T, nxt, o))
                slots[nxt] = Slot(slots[o].cs, None, slots[o].init)
                ask(nxt)
            nxt += 1
        elif op == "set" and slots[o].init:
            s.append(cmd(T + "set", o, rg.randrange(math.prod(len(c) for c in slots[o].cs)), qed.f32(value(rg, 1))))
            if dim == 1 and rg.random() < 0.3:
                s.append(cmd("t1setc", o, rg.randrange(len(slots[o].cs[0])), 0.25))
        elif op == "wr" and slots[o].init:
            f = f0 + rg.choice("ab")
            s.append("%swr %d %s" % (T, o, f))
            files.setdefault(f, []).append(slots[o].cs)
            pos.setdefault(f, 0)
        elif op == "rd" and files:
            f = rg.choice(sorted(files))
            t = rg.choice([x for x in free if slots[x].view is None] or [None])
            if t is None or pos[f] >= len(files[f]):
                continue
            s.append("%srd %d %s" % (T, t, f))
            slots[t] = Slot(files[f][pos[f]])
            pos[f] += 1
            ask(t)
        elif op == "rew" and files:
            f = rg.choice(sorted(files))
            s.append("rewind " + f)
            pos[f] = 0
        elif op == "get":
            for x in slots:
                s.append("%sget %d" % (T, x))
        else:
            ask(o)
    for x in slots:
        s.append("%sget %d" % (T, x))
    return s


def scenario(rg, u, k):
    equi = k % 3 != 2
    s = work(rg, u, 1, equi, 24, "f")
    s += work(rg, u, 2, equi, 30, "g")
    if not u.core:  # tables of both kinds one after the other in one file
        c1, c2, c3 = (points(rg, n, equi, u.real) for n in (3, 5, 2))
        s += [cmd("t1new 100", len(c1), c1, [qed.f32(value(rg, 1)) for _ in c1]), cmd("t2new 100", len(c3), len(c2), c3, c2, [qed.f32(value(rg, 2)) for _ in range(len(c2) * len(c3))])]
        s += ["t2wr 100 h", "t1wr 100 h", "t2wr 100 h", "t2def 101", "t1def 101", "t2rd 101 h", "t1rd 101 h", "t2rd 101 h", "t2get 101", "t1get 101"]
    # logarithms of probabilities: -inf where they vanish
    if equi:
        n, m = sizes(rg, 2)
        c1, c2 = points(rg, n, equi, u.real), points(rg, m, equi, u.real)
        d = [qed.f32(value(rg, 1)) for _ in range(n * m)]
        for i in range(n):
            d[i * m] = -math.inf
            if m > 2 and i < n - 1:
                d[i * m + 1] = -math.inf
        s.append(cmd("t2new 108", n, m, c1, c2, d))
        for _ in range(10):
            s.append(cmd("t2fe 108", where(rg, c1), rg.randrange(min(m, 3))))
    return s


def scenarios(ctx):
    rg = random.Random(ctx.seed * 100 + 22)
    res = []
    for k in range(720 if ctx.thorough else 144):
        u = (qed.units(True) + qed.units(False))[k % 8]
        if u.norm:
            u = qed.Unit(u.real, False, u.core)
        res.append(qed.scen("tab%d" % k, u, scenario(rg, u, k)))
    return res


def run(ctx):
    qed.check(ctx, scenarios(ctx))
    ctx.assumptions += ["tables of 2 to 12 (2D: up to 6 by 7) points; places within the table, except where the equispaced form defines the values beyond the ends"]
