"""P21: the containers of the QED library (QedVec.tla, QedVecOps.tla, TraceQedVec.tla)."""
import random

import fbuild
import qed
from vf import Scen


def script(rg, n, big):
    sizes = [0, 1, 2, 5, rg.randrange(60)] + ([rg.choice([16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200]), rg.randrange(300)] if big else [])
    s = ["mkraw 1 5 6 7 8", "mkraw 2 9", "mkraw 3 " + " ".join(str(i % 90) for i in range(70))]
    kind = {}  # slot -> [size, is it a view]
    arrs = set()
    raws = {1: 4, 2: 1, 3: 70}
    for _ in range(n):
        op = rg.choice(["size", "empty", "stl", "list", "raw", "copy", "copy", "move", "asg", "asg", "asg", "masg", "masg", "tasg", "resize", "resize", "set", "set", "iset", "free", "array"])
        t = rg.randrange(1, 7)
        o = rg.choice(sorted(kind)) if kind else None
        v = rg.randrange(100)
        if op == "size":
            m = rg.choice(sizes)
            s.append("size %d %d" % (t, m))
            kind[t] = [m, False]
        elif op == "empty":
            s.append("empty %d" % t)
            kind[t] = [0, False]
        elif op == "stl":
            x = [rg.randrange(100) for _ in range(rg.choice([0, 1, 2, 3, 4, 5] + sizes[5:]))]
            s.append("stl %d %s" % (t, " ".join(map(str, x))))
            kind[t] = [len(x), False]
        elif op == "list":
            m = rg.randrange(1, 6)
            s.append("list %d %s" % (t, " ".join(str(v + i) for i in range(m))))
            kind[t] = [m, False]
        elif op == "raw":
            r = rg.choice([1, 1, 2, 3] if big else [1, 1, 2])
            m = rg.randrange(0, raws[r] + 1)
            s.append("raw %d %d %d" % (t, r, m))
            kind[t] = [m, True]
        elif op == "array":
            t += 100
            q = rg.choice(["anew", "adef", "acopy", "aasg", "aset", "aset", "afree"])
            o = rg.choice(sorted(arrs)) if arrs else None
            if q == "anew":
                s.append("anew %d %d %d %d" % (t, v, v + 2, v + 5))
                arrs.add(t)
            elif q == "adef":
                s.append("adef %d" % t)
                arrs.add(t)
            elif o and q == "acopy" and o != t:
                s.append("acopy %d %d" % (t, o))
                arrs.add(t)
            elif o and q == "aasg":
                s.append("aasg %d %d" % (rg.choice(sorted(arrs)), o))
            elif o and q == "aset":
                s.append("aset %d %d %d" % (o, rg.randrange(3), v))
            elif o and q == "afree":
                s.append("afree %d" % o)
                arrs.remove(o)
        elif o is None:
            continue
        elif op in ("copy", "move") and t != o:
            s.append("%s %d %d" % (op, t, o))
            kind[t] = [kind[o][0], False] if op == "copy" else kind[o]
            if op == "move":
                kind[o] = [0, False]
        elif op in ("asg", "masg"):
            d = rg.choice(sorted(kind))
            s.append("%s %d %d" % (op, d, o))
            if d != o:
                kind[d] = [kind[o][0], False] if op == "asg" else kind[o]
                if op == "masg":
                    kind[o] = [0, False]
        elif op == "tasg":
            s.append("tasg %d %d %d" % (o, v, v + 1))
            kind[o] = [2, False]
        elif op == "resize":
            m = rg.choice([0, 1, 3, 6, kind[o][0], kind[o][0] + 1, max(kind[o][0] - 1, 0), 2 * kind[o][0] if kind[o][0] < 100 else 7, rg.choice(sizes)])
            s.append("resize %d %d" % (o, m))
            if not kind[o][1]:
                kind[o][0] = m
        elif op in ("set", "iset") and kind[o][0]:
            s.append("%s %d %d %d" % (op, o, rg.randrange(kind[o][0]), v))
        elif op == "free":
            s.append("free %d" % o)
            del kind[o]
    return s


def run(ctx):
    ctx.model("QedVec", "QedVecBig" if ctx.thorough else "QedVec", workers=8, timeout=850)
    exe = [fbuild.cxx("qedvec" + n, "qedvec.cpp", ["-std=c++17", "-O1"] + f + qed.SAN) for n, f in (("", []), ("_pod", ["-DPOD"]))]
    rg = random.Random(ctx.seed * 100 + 21)
    scens = [Scen("vec%d" % k, None, script(rg, 60, k % 4 == 3), 0, timeout=60, exe=exe[k % 3 == 2]) for k in range(800 if ctx.thorough else 200)]
    runs = ctx.run_all(None, scens, qed.conv, par=8)
    ctx.validate("TraceQedVec", runs, rerun=lambda sc: ctx.run_one(sc.info["exe"], sc, qed.conv)[0], describe=qed.describe, chunks=8)
    ctx.assumptions += ["up to six vectors and six arrays at a time; memory errors and leaks through the sanitizers and the count of elements"]
