"""P16: input files and command lines (Deck.tla, TraceDeck.tla)."""
import random

import fbuild
from vf import Scen
from checks.c_p11 import C, ME, QE

EPS0 = 8.854187817620389e-12
# keywords of every section (of the command line: "cl"), by the kind of value they take
I, R, L = "int", "real", "bool"


def table():
    t = {}

    def kw(sec, kind, names):
        for n in names.split():
            t.setdefault(sec, {})[n] = kind

    kw("main", I, "c_dim nx ny nz nsteps ntilex ntiley ntilez nguardsx nguardsy nguardsz njguardsx njguardsy njguardsz ngguards_x ngguards_y ngguards_z")
    kw("main", R, "dx dy dz xmin ymin zmin xmax ymax zmax t_max dtcoef")
    kw("main", L, "l_plasma")
    kw("cpusplit", I, "nprocx nprocy nprocz topology mpicom_curr partcom fg_p_pp_separated particle_pusher lvec_curr_depo lvec_charge_depo lvec_fieldgathe mpi_buf_size c_dim")
    kw("plasma", I, "pdistr particle_pusher")
    kw("plasma", R, "nlab gamma0")
    kw("solver", I, "norderx nordery norderz nox noy noz nx_pml ny_pml nz_pml currdepo fieldgathe rhodepo partcom mpi_buf_size lvec_curr_depo lvec_charge_depo lvec_fieldgathe nb_group_z fg_p_pp_separated")
    kw("solver", L, "l_spectral absorbing_bcs_x absorbing_bcs_y absorbing_bcs_z g_spectral l_staggered fftw_with_mpi fftw_hybrid fftw_mpi_transpose p3dfft_flag p3dfft_stride")
    kw("sorting", I, "activation")
    kw("sorting", R, "dx dy dz shiftx shifty shiftz")
    kw("sorting", L, "verbose")
    kw("timestat", I, "activation period it_start per_it buffersize")
    kw("output", I, "output_frequency output_step_min output_step_max ex ey ez bx by bz jx jy jz rho dive divj divb")
    kw("temporal", I, "frequency format kinE exE eyE ezE bxE byE bzE divE-rho rho divE")
    kw("species", "name", "name")
    kw("species", R, "mass charge x_min x_max y_min y_max z_min z_max vdrift_x vdrift_y vdrift_z vth_x vth_y vth_z")
    kw("species", I, "nppcell sorting_period sorting_start")
    kw("antenna", R, "vector_x vector_y vector_z spot_x spot_y spot_z lambda_laser pvec_x pvec_y pvec_z laser_ctau t_peak laser_a_1 laser_a_2 laser_w0 polangle")
    kw("antenna", I, "temporal_order window")
    kw("particle_dump", "known", "species_name")
    kw("particle_dump", R, " ".join("dump_%s_%s" % (a, m) for a in "x y z ux uy uz".split() for m in ("min", "max")))
    kw("particle_dump", I, "diag_period")
    kw("cl", I, "ntilex ntiley ntilez distr nprocx nprocy nprocz nox noy noz nsteps nx ny nz fieldgathe currdepo rhodepo partcom particle_pusher sorting lvec_curr_depo lvec_charge_depo lvec_fieldgathe mpicom_curr mpi_buf_size nguardsx nguardsy nguardsz ngguards_x ngguards_y ngguards_z nxpml nypml nzpml nb_group_z c_dim")
    kw("cl", R, "tmax dtcoef")
    kw("cl", L, "l_plasma l_spectral absorbing_bcs_x absorbing_bcs_y absorbing_bcs_z g_spectral fftw_with_mpi fftw_hybrid p3dfft_flag p3dfft_stride fftw_mpi_transpose")
    return t


KEYS = table()
PLAIN = "main cpusplit plasma solver sorting timestat output temporal".split()


def value(rg, kind):
    """The text of a value, and what it is."""
    if kind == I:
        v = rg.choice([0, 1, 2, 3, 7, 12, 100, 9999, 1234567])
        return rg.choice(["%d", "%d", "+%d", "%02d"]) % v if v else "0", str(v)
    if kind == L:
        v = rg.random() < 0.5
        return rg.choice([[".FALSE.", "F", ".false."], [".TRUE.", "T", ".true."]][v]), "FT"[v]
    v = rg.choice([0.0, 1.0, -1.0, 2.5, 0.1, -3e-6, 1.1e25, 6.02e-23, rg.uniform(-10, 10), rg.gauss(0, 1) * 10 ** rg.randrange(-20, 20)])
    s = rg.choice(["%r", "%.17g", "%.16e", "d"])
    s = ("%.16e" % v).replace("e", "d") if s == "d" else s % v
    return s, "%.17g" % float(s.replace("d", "e"))


def layout(rg, k, v):
    pad = lambda m: " " * rg.choice([0, 0, 1, 1, 2, m])
    return pad(6) + k + pad(12) + "=" + pad(15) + v + pad(4)


def clean(sec, text):
    """Whether no keyword of the section is part of the text."""
    return not any(k in text for k in KEYS.get(sec, {})) and not any("end::" + s in text for s in KEYS)


NOTES = ["", "   ", "# a note", "  # nx = 5", "#end::main", "# section::output", "!", "! speeds below, in units of c", "    #nsteps = 12"]


def deck(rg, few=False):
    """A random input file: its text and its lines as events."""
    text, ev, names = [], [], []

    def put(tx, **e):
        text.append(tx)
        ev.append(dict(dict(ev="line", k="skip", s="", key="", v=""), **e))

    def note(sec):
        while rg.random() < 0.25:
            c = rg.choice(NOTES)
            if "#" in c or clean(sec, c):
                put(c)

    secs = [s for s in PLAIN for _ in range(rg.choice([0, 1, 1, 1, 2]))]
    secs += rg.choice([[], ["species"], ["species"] * 3]) + rg.choice([[], [], ["antenna"], ["antenna"] * 2])
    rg.shuffle(secs)
    late = ["particle_dump"] * rg.choice([0, 0, 1, 2]) if "species" in secs else []
    for sec in secs + late:
        note("")
        if rg.random() < 0.15:  # outside any section, nothing is a keyword
            put("nsteps = 77")
        if rg.random() < 0.1:
            put("section::nosuch")
            put(" nx = 31")
            put("end::nosuch")
        put(rg.choice(["", "", "  "]) + "section::" + sec + rg.choice(["", "", "  "]), k="open", s=sec)
        ks = list(KEYS[sec])
        some = [rg.choice(ks) for _ in range(rg.choice([0, 1, 3, len(ks), 2 * len(ks)]))]
        if sec == "species" and "name" not in some:
            some.append("name")
        if sec == "particle_dump" and "species_name" not in some:
            some.append("species_name")
        for k in some:
            note(sec)
            kind = KEYS[sec][k]
            if kind == "name":
                nm = rg.choice(["electron", "electrons", "proton", "He2", "ion", "e"]) + rg.choice(["", "", str(len(names))])
                s, v = rg.choice([nm, "'%s'" % nm]), nm
                names.append(nm)
            elif kind == "known":
                v = rg.choice(NAMES(ev))
                s = rg.choice([v, '"%s"' % v])
            elif sec == "main" and k == "c_dim" or sec == "cpusplit" and k == "c_dim":
                s = v = rg.choice(["2", "3"])
            else:
                s, v = value(rg, kind)
            put(layout(rg, k, s), k="key", s=sec, key=k, v=v)
            if rg.random() < 0.05:
                o = rg.choice([x for x in KEYS if x != "cl"])
                f = rg.choice(list(KEYS[o]))
                if clean(sec, f):
                    put("%s = %s" % (f, value(rg, R)[0]), k="key", s=sec, key=f, v="1")
        note(sec)
        put(rg.choice(["", "", " "]) + "end::" + sec + rg.choice(["", " "]), k="close", s=sec)
    note("")
    return "\n".join(text) + rg.choice(["", "\n", "\n\n"]), ev


def NAMES(ev):
    """The names species have, the last given to each."""
    res, cur = [], None
    for e in ev:
        if e["k"] == "open" and e["s"] == "species":
            cur = None
        elif e["k"] == "key" and e["s"] == "species" and e["key"] == "name":
            cur = e["v"]
        elif e["k"] == "close" and e["s"] == "species" and cur:
            res.append(cur)
    return res


def arguments(rg):
    args, ev = [], []
    for _ in range(rg.choice([0, 0, 1, 2, 5, 12])):
        k = rg.choice(list(KEYS["cl"]))
        s, v = value(rg, KEYS["cl"][k])
        if k == "c_dim":
            s = v = rg.choice(["2", "3"])
        args += [rg.choice(["-", "--", ""]) + k, s]
        ev.append(dict(ev="arg", key=k, v=v))
    return args, ev


def real(rg, more=None):
    """An input file from which a run can start: text, lines as events, processes.  more(rg, sec) may add to the sections and
    give others to put after them."""
    text, ev = [], []
    dim = rg.choice([3, 3, 2])
    procs = rg.choice([[1, 1, 1], [2, 1, 1], [1, 1, 2], [2, 1, 2], [1, 2, 1]] if dim == 3 else [[1, 1, 1], [2, 1, 1], [1, 1, 2], [2, 1, 2]])
    n = [procs[a] * rg.choice([4, 5, 7]) + rg.choice([1, 2]) for a in range(3)]
    if dim == 2:
        n[1] = rg.choice([2, 5])
    sec = dict(cpusplit={}, main={}, solver={}, plasma={}, sorting={}, output={}, timestat={}, temporal={})
    if rg.random() < 0.5:
        sec["cpusplit"].update(zip(("nprocx", "nprocy", "nprocz"), procs))
    elif dim == 2 and procs != [1, 1, 1]:
        sec["cpusplit"].update(zip(("nprocx", "nprocy", "nprocz"), procs))
    else:
        n = [max(x, procs[0] * procs[1] * procs[2] * 4 + 1) for x in n] if dim == 3 else n
    sec["cpusplit"]["mpicom_curr"] = rg.choice([0, 1])
    m = sec["main"]
    m["c_dim"] = dim
    m.update(zip(("nx", "ny", "nz"), n))
    for a in "xyz":
        lo = rg.choice([0.0, -20e-6, 3e-6])
        m[a + "min"] = lo
        m[a + "max"] = lo + rg.choice([1e-6, 40e-6, rg.uniform(1e-6, 1e-4)])
    if rg.random() < 0.5:
        m["t_max"] = rg.choice([0.0, 1.0, rg.uniform(0, 50)])
    if rg.random() < 0.5:
        m["nsteps"] = rg.choice([0, 1, 30])
    if rg.random() < 0.6:
        m["dtcoef"] = rg.choice([1.0, 0.5, rg.uniform(0.1, 1)])
    if rg.random() < 0.5:
        for a in "xyz"[: 3]:
            m["ntile" + a] = rg.choice([1, 2, 3])
    s = sec["solver"]
    s["norderz"] = s["norderx"] = s["nordery"] = 2
    if rg.random() < 0.3:
        s["lvec_fieldgathe"] = rg.choice([64, 512])
    p = sec["plasma"]
    if rg.random() < 0.8:
        p["nlab"] = rg.choice([1e23, 1.1e25, 10 ** rg.uniform(20, 27)])
    if rg.random() < 0.5:
        p["gamma0"] = rg.choice([1.0, 1.5, rg.uniform(1, 20)])
    t = sec["sorting"]
    for k in ("dx", "dy", "dz", "shiftx", "shifty", "shiftz"):
        if rg.random() < 0.5:
            t[k] = rg.choice([0.5, 1.0, -0.5 if "shift" in k else 2.0])
    late = more(rg, sec) if more else []
    order = [x for x in sec if sec[x]]
    rg.shuffle(order)
    order = [(x, sec[x]) for x in order]
    for x in late:
        order.insert(rg.randrange(len(order) + 1), x)

    def put(tx, **e):
        text.append(tx)
        ev.append(dict(dict(ev="line", k="skip", s="", key="", v=""), **e))

    for x, d in order:
        put("section::" + x, k="open", s=x)
        ks = list(d)
        rg.shuffle(ks)
        for k in ks:
            v = d[k]
            put(layout(rg, k, v if isinstance(v, str) else repr(v)), k="key", s=x, key=k, v=v if isinstance(v, str) else "%.17g" % v)
        put("end::" + x, k="close", s=x)
    return "\n".join(text) + "\n", ev, procs[0] * procs[1] * procs[2]


def scens(ctx, rg):
    res = []
    for k in range(2000 if ctx.thorough else 300):
        t, ev = deck(rg)
        a, ev2 = arguments(rg)
        f = rg.choice(["a.pixr", "deck_1.pixr", None])
        res.append(Scen("deck%d" % k, None, [], 0, args=([f] if f else []) + a, files={f or "input_file.pixr": t}, env=dict(PXH_STAGE="deck"), ev=ev + ev2))
    for k in range(120 if ctx.thorough else 24):
        t, ev, n = real(rg)
        res.append(Scen("start%d" % k, None, [], n, args=["run.pixr"], files={"run.pixr": t}, ev=ev))
    return res


def num(v):
    if v in ("T", "F") or v.lstrip("-").isdigit():
        return v
    try:
        return "%.17g" % float(v)
    except ValueError:
        return v


def conv(sc, logs, d):
    rec = {}
    for l in logs[0]:
        if l[0] in ("G", "P", "N"):
            continue
        v = " ".join(l[2:])
        rec.setdefault(l[0], {})[l[1]] = v if l[1] == "name" else num(v)
    many = lambda c: [rec[c + str(i)] for i in range(1, 1 + sum(1 for k in rec if k[0] == c and k[1:].isdigit()))]
    ev = [dict(ev="conf", base=rec["B"], c=["%.17g" % x for x in (ME, QE, C, EPS0)])] + sc.info["ev"]
    ev.append(dict(ev="read", par=rec["K"], sp=many("S"), dump=many("D")))
    if "I" in rec:
        g = [l for l in logs[0] if l[0] == "G"][0][1:]
        rec["I"].update(zip(("nx_global", "ny_global", "nz_global"), g[6:9]))
        ev.append(dict(ev="start", par=rec["I"], np=sc.n, n=dict(zip("xyz", map(int, g[:3])))))
    return ev


def describe(sc, ev, line):
    e = ev[line]
    if e["ev"] == "conf":
        return "a parameter does not start with its documented default"
    f = list(sc.info["files"])[0]
    what = "what was read" if e["ev"] == "read" else "what the run starts with"
    return "%s is not what the input file %s and the arguments %s say" % (what, f, " ".join(sc.info["args"]))


def run(ctx):
    ctx.assumptions = ["input files of the documented form: one keyword = value per line, sections closed, comment lines marked by #", "a particle dump names a species defined above it, and comes after the main section"]
    ctx.model("Deck", "Deck6.cfg" if ctx.thorough else "Deck.cfg")
    exe = fbuild.harness("pxh_deck", extra=["pxh_stubs.F90"])
    runs = ctx.run_all(exe, scens(ctx, random.Random(ctx.seed * 7919 + 16)), conv, par=8)
    ctx.validate("TraceDeck", runs, rerun=lambda sc: ctx.run_one(exe, sc, conv)[0], describe=describe, chunks=8)
