// Drives the QED library of PICSAR (header only) from a script, one command per line, and logs one JSON object per command.
// Compiled with -DREAL=double or float, with or without PXRMP_USE_NORMALIZED_UNITS, with or without PXRMP_CORE_ONLY.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "breit_wheeler_engine.hpp"
#include "quantum_sync_engine.hpp"
#include "schwinger_pair_engine.hpp"
#include "chi_functions.hpp"
#include "lookup_tables.hpp"
#include "rng_wrapper.hpp"
#include "utilities.hpp"
#include "vec_functions.hpp"
#ifndef PXRMP_CORE_ONLY
#include "quadrature.hpp"
#include "special_functions.hpp"
#include "msg.hpp"
#endif

namespace px = picsar::multi_physics;
typedef REAL R;
using px::picsar_vector;

// ---- the random numbers: preset ones first, then the library's wrapper ----
static std::string draws;  // those made by the current command
static std::string num(double x);
static R drawn(char kind, R a, R b, R v) {
    draws += std::string(draws.empty() ? "" : ",") + "[\"" + kind + "\"," + num(a) + "," + num(b) + "," + num(v) + "]";
    return v;
}
struct Rng {
    std::deque<R> preset;
    px::stl_rng_wrapper<R> base;
    explicit Rng(uint64_t seed) : base(seed) {}
    R unf(R a, R b) {
        if (!preset.empty()) {
            R u = preset.front();
            preset.pop_front();
            return drawn('U', a, b, a + (b - a) * u);
        }
        return drawn('u', a, b, base.unf(a, b));
    }
    R exp(R l) {
        if (!preset.empty()) {
            R u = preset.front();
            preset.pop_front();
            return drawn('E', l, l, -std::log(R(1) - u) / l);
        }
        return drawn('e', l, l, base.exp(l));
    }
};

typedef px::breit_wheeler_engine<R, Rng> BW;
typedef px::quantum_synchrotron_engine<R, Rng> QS;
typedef px::schwinger_pair_engine<R, Rng> SW;

static FILE* out;

// ---- input ----
struct In {
    std::istringstream is;
    explicit In(const std::string& l) : is(l) {}
    std::string s() {
        std::string t;
        if (!(is >> t)) {
            fprintf(stderr, "missing argument\n");
            exit(3);
        }
        return t;
    }
    R r() { return static_cast<R>(strtod(s().c_str(), nullptr)); }
    long i() { return atol(s().c_str()); }
    uint64_t u() { return strtoull(s().c_str(), nullptr, 10); }
    std::vector<R> v(size_t n) {
        std::vector<R> x;
        for (size_t k = 0; k < n; k++) x.push_back(r());
        return x;
    }
};

// ---- output ----
static std::string num(double x) {
    char b[64];
    if (std::isnan(x)) return "\"nan\"";
    if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
    snprintf(b, sizeof b, "\"%.17g\"", x);
    return b;
}
template <class V> static std::string arr(const V& v, size_t n) {
    std::string s = "[";
    for (size_t k = 0; k < n; k++) s += (k ? "," : "") + num(v[k]);
    return s + "]";
}
static std::string arr(const std::vector<R>& v) { return arr(v, v.size()); }
static std::string arr(const picsar_vector<R>& v) { return arr(v.data(), v.size()); }
struct Ev {
    std::string t;
    explicit Ev(const std::string& ev) : t("{\"ev\":\"" + ev + "\"") {}
    Ev& raw(const std::string& k, const std::string& v) {
        t += ",\"" + k + "\":" + v;
        return *this;
    }
    Ev& s(const std::string& k, const std::string& v) { return raw(k, "\"" + v + "\""); }
    Ev& n(const std::string& k, double v) { return raw(k, num(v)); }
    Ev& i(const std::string& k, long v) { return raw(k, std::to_string(v)); }
    Ev& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
    template <class V> Ev& a(const std::string& k, const V& v) { return raw(k, arr(v)); }
    ~Ev() {
        fprintf(out, "%s}\n", t.c_str());
        fflush(out);
    }
};

// ---- state ----
static std::map<int, std::unique_ptr<px::lookup_1d<R>>> T1;
static std::map<int, std::unique_ptr<px::lookup_2d<R>>> T2;
static std::map<std::string, std::unique_ptr<std::ifstream>> streams;
static std::ifstream& stream(const std::string& f) {
    auto& p = streams[f];
    if (!p) p.reset(new std::ifstream(f, std::ios::binary));
    return *p;
}
static px::breit_wheeler_engine_ctrl<R> bwc;
static px::quantum_synchrotron_engine_ctrl<R> qsc;

static Ev& table(Ev& e, px::lookup_1d<R>& t) {
    return e.b("init", t.is_init()).a("c", t.ref_coords()).a("d", t.ref_data());
}
static Ev& table(Ev& e, px::lookup_2d<R>& t) {
    return e.b("init", t.is_init()).a("c1", t.ref_coords()[0]).a("c2", t.ref_coords()[1]).a("d", t.ref_data());
}

static void vecs(In& in) {
    px::vec3<R> a{R(0), R(0), R(0)}, b{R(0), R(0), R(0)};
    for (int k = 0; k < 3; k++) a[k] = in.r();
    for (int k = 0; k < 3; k++) b[k] = in.r();
    R s = in.r();
    Ev e("vec");
    using namespace px;
    e.raw("a", arr(a, 3)).raw("b", arr(b, 3)).n("s", s);
    e.n("norm2", norm2<R>(a)).n("norm", norm<R>(a)).n("dot", dot<R>(a, b)).raw("cross", arr(cross<R>(a, b), 3));
    e.raw("add", arr(a + b, 3)).raw("sub", arr(a - b, 3)).raw("vs", arr(a * s, 3)).raw("sv", arr(s * a, 3)).raw("div", arr(a / s, 3));
    // the container itself
    R sum = 0;
    const px::vec3<R>& ca = a;
    int k = 0;
    for (const auto& x : ca) sum += x * R(++k);
    for (auto& x : b) x = x + R(1);
    e.i("size", ca.size()).n("iter", sum).raw("plus1", arr(b.data(), 3)).i("span", ca.end() - ca.begin());
}

static void spaced(In& in) {
    std::string kind = in.s();
    R a = in.r(), b = in.r();
    size_t n = in.i();
    std::vector<R> v;
    if (kind == "lin") v = px::generate_lin_spaced_vec<R>(a, b, n);
    else if (kind == "log") v = px::generate_log_spaced_vec<R>(a, b, n);
    else v = px::generate_log_lin_log_spaced_vec<R>(a, b, n);
    Ev("spaced").s("kind", kind).n("min", a).n("max", b).i("n", n).a("v", v);
}

static void tab1(const std::string& op, In& in) {
    int s = in.i();
    auto& t = T1[s];
    Ev e(op);
    e.i("s", s);
    if (op == "t1new") {
        size_t n = in.i();
        std::vector<R> c = in.v(n), d = in.v(n);
        e.a("ic", c).a("id", d);
        t.reset(new px::lookup_1d<R>(c, d));
    } else if (op == "t1def") {
        t.reset(new px::lookup_1d<R>());
    } else if (op == "t1copy" || op == "t1move" || op == "t1asg" || op == "t1raw") {
        int o = in.i();
        e.i("o", o);
        auto& x = T1.at(o);
        if (op == "t1copy") t.reset(new px::lookup_1d<R>(*x));
        else if (op == "t1move") t.reset(new px::lookup_1d<R>(std::move(*x)));
        else if (op == "t1asg") {
            px::lookup_1d<R>& r = (*t = *x);
            e.b("self", &r == t.get());
        } else t.reset(new px::lookup_1d<R>(x->ref_coords().size(), x->ref_coords().data(), x->ref_data().data()));
    } else if (op == "t1set") {
        size_t i = in.i();
        R v = in.r();
        e.i("i", i).n("v", v);
        t->ref_data()[i] = v;
    } else if (op == "t1setc") {  // the copy of the coordinates is a copy
        size_t i = in.i();
        R v = in.r();
        e.i("i", i).n("v", v);
        picsar_vector<R> c = t->get_coords();
        c[i] = v;
        e.a("c", c);
        return;
    } else if (op == "t1q" || op == "t1g") {  // t1g: the points are not equispaced
        R x = in.r();
        const px::lookup_1d<R>& k = *t;
        e.n("x", x).n("gen", k.interp_linear(x));
        if (op == "t1q") e.n("eq", k.interp_linear_equispaced(x));
        return;
    }
#ifndef PXRMP_CORE_ONLY
    else if (op == "t1wr") {
        std::string f = in.s();
        e.s("f", f);
        std::ofstream o(f, std::ios::binary | std::ios::app);
        t->write_on_stream_bin(o);
    } else if (op == "t1rd") {
        std::string f = in.s();
        e.s("f", f);
        std::ifstream& i = stream(f);
        t->read_from_stream_bin(i);
        e.b("good", i.good());
    }
#endif
    else if (op == "t1free") {
        t.reset();
        return;
    } else if (op != "t1get") {
        fprintf(stderr, "unknown command %s\n", op.c_str());
        exit(3);
    }
    table(e, *t);
}

static void tab2(const std::string& op, In& in) {
    int s = in.i();
    auto& t = T2[s];
    Ev e(op);
    e.i("s", s);
    typedef px::lookup_2d<R> L;
    if (op == "t2new") {
        size_t n = in.i(), m = in.i();
        std::vector<R> c1 = in.v(n), c2 = in.v(m), d = in.v(n * m);
        e.a("ic1", c1).a("ic2", c2).a("id", d);
        t.reset(new L(px::picsar_array<picsar_vector<R>, 2>{picsar_vector<R>(c1), picsar_vector<R>(c2)}, d));
    } else if (op == "t2def") {
        t.reset(new L());
    } else if (op == "t2copy" || op == "t2move" || op == "t2asg" || op == "t2raw") {
        int o = in.i();
        e.i("o", o);
        auto& x = T2.at(o);
        if (op == "t2copy") t.reset(new L(*x));
        else if (op == "t2move") t.reset(new L(std::move(*x)));
        else if (op == "t2asg") {
            L& r = (*t = *x);
            e.b("self", &r == t.get());
        } else t.reset(new L(x->ref_coords()[0].size(), x->ref_coords()[0].data(), x->ref_coords()[1].size(), x->ref_coords()[1].data(), x->ref_data().data()));
    } else if (op == "t2set") {
        size_t i = in.i();
        R v = in.r();
        e.i("i", i).n("v", v);
        t->ref_data()[i] = v;
    } else if (op == "t2q" || op == "t2g") {  // t2g: the points are not equispaced
        R x = in.r(), y = in.r();
        const L& k = *t;
        e.n("x", x).n("y", y).n("gen", k.interp_linear(x, y));
        if (op == "t2q") e.n("eq", k.interp_linear_equispaced(x, y));
        return;
    } else if (op == "t2f" || op == "t2fg" || op == "t2fe") {  // t2fe: beyond the ends as well
        R x = in.r();
        size_t j = in.i();
        const L& k = *t;
        e.n("x", x).i("j", j);
        if (op != "t2fe") e.n("gen", k.interp_linear_first(x, j));
        if (op != "t2fg") e.n("eq", k.interp_linear_first_equispaced(x, j));
        return;
    } else if (op == "t2at") {
        size_t i = in.i(), j = in.i();
        const L& k = *t;
        e.i("i", i).i("j", j).n("v", k.data_at_coords(i, j)).n("c1", k.ref_coords()[0][i]).n("c2", k.ref_coords()[1][j]);
        return;
    }
#ifndef PXRMP_CORE_ONLY
    else if (op == "t2wr") {
        std::string f = in.s();
        e.s("f", f);
        std::ofstream o(f, std::ios::binary | std::ios::app);
        t->write_on_stream_bin(o);
    } else if (op == "t2rd") {
        std::string f = in.s();
        e.s("f", f);
        std::ifstream& i = stream(f);
        t->read_from_stream_bin(i);
        e.b("good", i.good());
    }
#endif
    else if (op == "t2free") {
        t.reset();
        return;
    } else if (op != "t2get") {
        fprintf(stderr, "unknown command %s\n", op.c_str());
        exit(3);
    }
    table(e, *t);
}

static void ctrl(Ev& e, const px::breit_wheeler_engine_ctrl<R>& c) {
    e.n("cmin", c.chi_phot_min).n("tmin", c.chi_phot_tdndt_min).n("tmax", c.chi_phot_tdndt_max).i("tn", c.chi_phot_tdndt_how_many);
    e.n("pmin", c.chi_phot_tpair_min).n("pmax", c.chi_phot_tpair_max).i("pn", c.chi_phot_tpair_how_many).i("fn", c.chi_frac_tpair_how_many);
}
static void ctrl(Ev& e, const px::quantum_synchrotron_engine_ctrl<R>& c) {
    e.n("cmin", c.chi_part_min).n("tmin", c.chi_part_tdndt_min).n("tmax", c.chi_part_tdndt_max).i("tn", c.chi_part_tdndt_how_many);
    e.n("pmin", c.chi_part_tem_min).n("pmax", c.chi_part_tem_max).i("pn", c.chi_part_tem_how_many).i("fn", c.prob_tem_how_many);
}

struct PEB {
    std::vector<R> p, e, b;
    explicit PEB(In& in) : p(in.v(3)), e(in.v(3)), b(in.v(3)) {}
    void log(Ev& ev) { ev.a("p", p).a("e", e).a("b", b); }
};
#define EB(x) x.e[0], x.e[1], x.e[2], x.b[0], x.b[1], x.b[2]
#define P3(x) x.p[0], x.p[1], x.p[2]

// ---- the functions meant for GPUs: static, tables and controls given ----
static void core(const std::string& op, In& in) {
    if (op == "od") {
        R u = in.r();
        Ev("od").n("u", u).n("bw", BW::internal_get_optical_depth(u)).n("qs", QS::internal_get_optical_depth(u));
    } else if (op == "bwrate" || op == "qsrate") {
        R en = in.r(), chi = in.r(), lam = in.r();
        int s = in.i();
        Ev e(op);
        e.n("en", en).n("chi", chi).n("lam", lam).i("s", s);
        if (op == "bwrate") e.n("r", BW::internal_interp_dN_dt(en, chi, *T1.at(s), bwc, lam));
        else e.n("r", QS::internal_interp_dN_dt(en, chi, *T1.at(s), qsc, lam));
    } else if (op == "bwevo" || op == "qsevo") {
        PEB x(in);
        R dt = in.r(), opt = in.r(), lam = in.r();
        int s = in.i();
        Ev e(op);
        x.log(e);
        e.n("dt", dt).n("opt", opt).n("lam", lam).i("s", s);
        bool has = true;
        R ev = R(-7), o = opt;
        bool ok;
        if (op == "bwevo") ok = BW::internal_evolve_opt_depth_and_determine_event(P3(x), EB(x), dt, o, has, ev, lam, *T1.at(s), bwc);
        else ok = QS::internal_evolve_opt_depth_and_determine_event(P3(x), EB(x), dt, o, has, ev, lam, *T1.at(s), qsc);
        e.b("ok", ok).n("nopt", o).b("has", has).n("edt", ev);
    } else if (op == "bwpair") {
        PEB x(in);
        R w = in.r(), lam = in.r();
        int s = in.i();
        size_t n = in.i();
        std::vector<R> u = in.v(n);
        std::vector<std::vector<R>> o(8, std::vector<R>(n + 1, R(-77)));
        bool ok = BW::internal_generate_breit_wheeler_pairs(P3(x), EB(x), w, n, o[0].data(), o[1].data(), o[2].data(), o[3].data(), o[4].data(), o[5].data(), o[6].data(), o[7].data(), lam, *T2.at(s), bwc, u.data());
        Ev e(op);
        x.log(e);
        e.n("w", w).n("lam", lam).i("s", s).i("n", n).a("u", u).b("ok", ok);
        bool guard = true;
        for (auto& v : o) guard = guard && v[n] == R(-77);
        std::string el = "[", po = "[";
        for (size_t k = 0; k < n; k++) {
            el += std::string(k ? "," : "") + "[" + num(o[0][k]) + "," + num(o[1][k]) + "," + num(o[2][k]) + "," + num(o[6][k]) + "]";
            po += std::string(k ? "," : "") + "[" + num(o[3][k]) + "," + num(o[4][k]) + "," + num(o[5][k]) + "," + num(o[7][k]) + "]";
        }
        e.raw("ele", el + "]").raw("pos", po + "]").b("guard", guard);
    } else if (op == "qsphot") {
        PEB x(in);
        R w = in.r(), lam = in.r();
        int s = in.i();
        size_t n = in.i();
        std::vector<R> u = in.v(n);
        std::vector<std::vector<R>> o(4, std::vector<R>(n + 1, R(-77)));
        std::vector<R> q = x.p;
        bool ok = QS::internal_generate_photons_and_update_momentum(q[0], q[1], q[2], EB(x), w, n, o[0].data(), o[1].data(), o[2].data(), o[3].data(), lam, *T2.at(s), qsc, u.data());
        Ev e(op);
        x.log(e);
        e.n("w", w).n("lam", lam).i("s", s).i("n", n).a("u", u).b("ok", ok).a("q", q);
        bool guard = true;
        for (auto& v : o) guard = guard && v[n] == R(-77);
        std::string ph = "[";
        for (size_t k = 0; k < n; k++) ph += std::string(k ? "," : "") + "[" + num(o[0][k]) + "," + num(o[1][k]) + "," + num(o[2][k]) + "," + num(o[3][k]) + "]";
        e.raw("ph", ph + "]").b("guard", guard);
    } else if (op == "sw") {
        std::vector<R> E = in.v(3), B = in.v(3), d = in.v(3);
        R dt = in.r(), lam = in.r(), u = in.r();
        R rate = SW::internal_compute_schwinger_pair_production_rate(E[0], E[1], E[2], B[0], B[1], B[2], lam);
        bool has = false;
        R w1 = -7, wm = -7;
        size_t m = size_t(-1);
        SW::internal_generate_pairs_single(E[0], E[1], E[2], B[0], B[1], B[2], d[0], d[1], d[2], dt, &has, &w1, lam, u);
        if (rate * d[0] * d[1] * d[2] * dt < R(2000)) SW::internal_generate_pairs_multiple(E[0], E[1], E[2], B[0], B[1], B[2], d[0], d[1], d[2], dt, &m, &wm, lam, u);
        else wm = w1;
        Ev("sw").a("e", E).a("b", B).a("d", d).n("dt", dt).n("lam", lam).n("u", u).n("rate", rate).b("has", has).n("w1", w1).i("m", m).n("wm", wm);
    }
}

#ifndef PXRMP_CORE_ONLY
// ---- whole engines ----
static std::map<int, std::unique_ptr<BW>> B;
static std::map<int, std::unique_ptr<QS>> Q;
static std::map<int, std::unique_ptr<SW>> S;

template <class I> static void innards(Ev& e, I in, R* c, size_t nc, R* d, size_t nd, bool bw) {
    e.n("lam", in.lambda).raw("t1c", arr(c, nc)).raw("t1d", arr(d, nd));
    e.raw("t2c1", arr(in.cum_distrib_table_coords_1_ptr, in.cum_distrib_table_coords_1_how_many));
    e.raw("t2c2", arr(in.cum_distrib_table_coords_2_ptr, in.cum_distrib_table_coords_2_how_many));
    e.raw("t2d", arr(in.cum_distrib_table_data_ptr, in.cum_distrib_table_data_how_many));
}
static void logeng(Ev& e, BW& x) {
    auto in = x.export_innards();
    innards(e, in, in.TTfunc_table_coords_ptr, in.TTfunc_table_coords_how_many, in.TTfunc_table_data_ptr, in.TTfunc_table_data_how_many, true);
    ctrl(e, in.bw_ctrl);
}
static void logeng(Ev& e, QS& x) {
    auto in = x.export_innards();
    innards(e, in, in.KKfunc_table_coords_ptr, in.KKfunc_table_coords_how_many, in.KKfunc_table_data_ptr, in.KKfunc_table_data_how_many, false);
    ctrl(e, in.qs_ctrl);
}
static Rng* rngptr(BW& x) { return x.export_innards().rng_ptr; }
static Rng* rngptr(QS& x) { return x.export_innards().rng_ptr; }

static void assign(std::unique_ptr<BW>& t, std::unique_ptr<BW>& x, Ev& e) {
    BW& r = (*t = *x);
    e.b("self", &r == t.get());
}
static void assign(std::unique_ptr<QS>& t, std::unique_ptr<QS>& x, Ev& e) {}
static void tab2of(BW& x, std::ostream* o) { x.compute_cumulative_pair_table(o); }
static void tab2of(QS& x, std::ostream* o) { x.compute_cumulative_phot_em_table(o); }
static void wr2(BW& x, const std::string& f) { x.write_cumulative_pair_table(f); }
static void wr2(QS& x, const std::string& f) { x.write_cumulative_phot_em_table(f); }
static void rd2(BW& x, const std::string& f) { x.read_cumulative_pair_table(f); }
static void rd2(QS& x, const std::string& f) { x.read_cumulative_phot_em_table(f); }
static R cum(BW& x, R chi, R part) { return x.compute_cumulative_pair(chi, part); }
static R cum(QS& x, R chi, R part) { return x.compute_cumulative_phot_em(part, chi); }

static std::string parts(picsar_vector<std::pair<px::vec3<R>, R>>& v) {
    std::string s = "[";
    for (size_t k = 0; k < v.size(); k++) s += std::string(k ? "," : "") + "[" + num(v[k].first[0]) + "," + num(v[k].first[1]) + "," + num(v[k].first[2]) + "," + num(v[k].second) + "]";
    return s + "]";
}
static void generate(BW& x, PEB& a, R w, size_t n, Ev& e) {
    auto all = x.generate_breit_wheeler_pairs(P3(a), EB(a), w, n);
    e.raw("ele", parts(all[0])).raw("pos", parts(all[1]));
}
static void generate(QS& x, PEB& a, R w, size_t n, Ev& e) {
    std::vector<R> q = a.p;
    auto all = x.generate_photons_and_update_momentum(q[0], q[1], q[2], EB(a), w, n);
    e.raw("ph", parts(all)).a("q", q);
}

template <class E, class C> static void engine(const std::string& kind, std::map<int, std::unique_ptr<E>>& M, C& c, In& in) {
    std::string op = in.s();
    int s = in.i();
    auto& t = M[s];
    Ev e("e_" + op);
    e.s("k", kind).i("s", s);
    draws.clear();
    if (op == "new") {
        uint64_t seed = in.u();
        R lam = in.r();
        e.s("seed", std::to_string(seed)).n("lam0", lam);
        t.reset(new E(Rng(seed), lam, c));
    } else if (op == "new0") {  // default lambda and controls
        uint64_t seed = in.u();
        e.s("seed", std::to_string(seed));
        t.reset(new E(Rng(seed)));
    } else if (op == "copy" || op == "move" || op == "asg" || op == "inn") {
        int o = in.i();
        e.i("o", o);
        auto& x = M.at(o);
        if (op == "copy") t.reset(new E(*x));
        else if (op == "move") t.reset(new E(std::move(*x)));
        else if (op == "asg") assign(t, x, e);
        else t.reset(new E(x->export_innards()));
        if (op == "move") M.erase(o);
    } else if (op == "lam") {
        R lam = in.r();
        t->set_lambda(lam);
        e.n("v", lam);
    } else if (op == "t1") {
        std::ostringstream os;
        t->compute_dN_dt_lookup_table(in.i() ? &os : nullptr);
    } else if (op == "t2") {
        std::ostringstream os;
        tab2of(*t, in.i() ? &os : nullptr);
    } else if (op == "wr1" || op == "wr2" || op == "rd1" || op == "rd2") {
        std::string f = in.s();
        e.s("f", f);
        if (op == "wr1") t->write_dN_dt_table(f);
        if (op == "rd1") t->read_dN_dt_table(f);
        if (op == "wr2") wr2(*t, f);
        if (op == "rd2") rd2(*t, f);
    } else if (op == "free") {
        M.erase(s);
        return;
    } else {
        if (op == "rate") {  // from the table
            R en = in.r(), chi = in.r();
            e.n("en", en).n("chi", chi).n("r", t->interp_dN_dt(en, chi));
        } else if (op == "dir") {  // computed
            R en = in.r(), chi = in.r();
            e.n("en", en).n("chi", chi).n("lam", t->get_lambda()).n("r", t->compute_dN_dt(en, chi));
        } else if (op == "cum") {
            R chi = in.r(), x = in.r();
            e.n("chi", chi).n("x", x).n("r", cum(*t, chi, x));
        } else if (op == "od") {
            e.n("r", t->get_optical_depth());
        } else if (op == "pre") {
            size_t n = in.i();
            std::vector<R> u = in.v(n);
            for (R x : u) rngptr(*t)->preset.push_back(x);
            e.a("u", u);
        } else if (op == "evo") {
            PEB x(in);
            R dt = in.r(), opt = in.r(), o = opt;
            std::streambuf* old = std::cerr.rdbuf();
            std::ostringstream es;
            std::cerr.rdbuf(es.rdbuf());
            auto r = t->evolve_opt_depth_and_determine_event(P3(x), EB(x), dt, o);
            std::cerr.rdbuf(old);
            x.log(e);
            e.n("dt", dt).n("opt", opt).n("nopt", o).b("has", r.first).n("edt", r.second).b("err", !es.str().empty());
        } else if (op == "gen") {
            PEB x(in);
            R w = in.r();
            size_t n = in.i();
            x.log(e);
            e.n("w", w).i("n", n);
            generate(*t, x, w, n, e);
        } else if (op != "get") {
            fprintf(stderr, "unknown engine command %s\n", op.c_str());
            exit(3);
        }
        e.raw("dr", "[" + draws + "]");
        if (op != "get") return;
    }
    logeng(e, *t);
    e.n("glam", t->get_lambda());
}

static void schwinger(In& in) {
    std::string op = in.s();
    int s = in.i();
    auto& t = S[s];
    Ev e("s_" + op);
    e.i("s", s);
    draws.clear();
    if (op == "new") {
        uint64_t seed = in.u();
        R lam = in.r();
        e.s("seed", std::to_string(seed)).n("lam0", lam);
        t.reset(new SW(Rng(seed), lam));
    } else if (op == "copy") {
        int o = in.i();
        e.i("o", o);
        t.reset(new SW(*S.at(o)));
    } else if (op == "move") {
        int o = in.i();
        e.i("o", o);
        t.reset(new SW(std::move(*S.at(o))));
        S.erase(o);
    } else if (op == "lam") {
        R lam = in.r();
        e.n("v", lam);
        t->set_lambda(lam);
    } else if (op == "pos") {
        e.raw("r", arr(t->get_new_pair_position(), 3));
    } else if (op == "rate") {
        std::vector<R> E = in.v(3), Bf = in.v(3);
        e.a("e", E).a("b", Bf).n("r", t->compute_schwinger_pair_production_rate(E[0], E[1], E[2], Bf[0], Bf[1], Bf[2]));
    } else if (op == "one") {
        std::vector<R> E = in.v(3), Bf = in.v(3), d = in.v(3);
        R dt = in.r();
        auto r = t->generate_pairs_single(E[0], E[1], E[2], Bf[0], Bf[1], Bf[2], d[0], d[1], d[2], dt);
        e.a("e", E).a("b", Bf).a("d", d).n("dt", dt).b("has", r.first).n("w", r.second);
    } else if (op == "many") {
        std::vector<R> E = in.v(3), Bf = in.v(3), d = in.v(3);
        R dt = in.r();
        auto r = t->generate_pairs_multiple(E[0], E[1], E[2], Bf[0], Bf[1], Bf[2], d[0], d[1], d[2], dt);
        e.a("e", E).a("b", Bf).a("d", d).n("dt", dt).i("m", r.first).n("w", r.second);
    } else {
        fprintf(stderr, "unknown command\n");
        exit(3);
    }
    e.n("glam", t->get_lambda()).raw("dr", "[" + draws + "]");
}

// the wrapper against the standard library's generator
static void rng(In& in) {
    uint64_t seed = in.u();
    long n = in.i();
    R a = in.r(), b = in.r(), l = in.r();
    px::stl_rng_wrapper<R> w(seed);
    std::mt19937_64 g(seed), g2(seed);
    px::stl_rng_wrapper<R> v(std::move(g2));
    px::stl_rng_wrapper<R> c(12345);
    std::vector<R> x, y, z, k, f;
    for (long i = 0; i < n; i++) {
        bool un = (seed >> (i % 7)) & 1;
        x.push_back(un ? w.unf(a, b) : w.exp(l));
        y.push_back(un ? std::uniform_real_distribution<R>(a, b)(g) : std::exponential_distribution<R>(l)(g));
        z.push_back(un ? v.unf(a, b) : v.exp(l));
        k.push_back(un ? 1 : 0);
        if (i == n / 2) c = w;
    }
    for (long i = n / 2 + 1; i < n; i++) f.push_back(k[i] == R(1) ? c.unf(a, b) : c.exp(l));
    px::stl_rng_wrapper<R> w2(w), w3(std::move(w2));
    R n1 = w.unf(a, b), n3 = w3.unf(a, b);
    Ev("rng").s("seed", std::to_string(seed)).n("a", a).n("b", b).n("l", l).a("k", k).a("x", x).a("y", y).a("z", z).a("f", f).n("n1", n1).n("n3", n3);
}

static void misc(const std::string& op, In& in) {
    if (op == "kv") {
        R v = in.r(), x = in.r();
        Ev("kv").n("v", v).n("x", x).n("r", px::k_v(v, x));
    } else if (op == "quad") {  // exp(-k t) t^m over [a,b] or [a,inf)
        std::string kind = in.s();
        R k = in.r(), a = in.r(), b = in.r();
        int m = in.i();
        std::function<R(R)> f = [=](R t) { return static_cast<R>(std::exp(-k * t) * std::pow(t, m)); };
        R r = kind == "ab" ? px::quad_a_b<R>(f, a, b) : kind == "abs" ? px::quad_a_b_s<R>(f, a, b) : px::quad_a_inf<R>(f, a);
        Ev("quad").s("kind", kind).n("kk", k).n("a", a).n("b", b).i("m", m).n("r", r);
    } else if (op == "root") {  // the root of +-(x^m - c)
        int m = in.i();
        R c = in.r(), guess = in.r();
        bool rising = in.i();
        std::function<R(R)> f = [=](R x) { R y = static_cast<R>(std::pow(x, m)) - c; return rising ? y : -y; };
        Ev("root").i("m", m).n("c", c).n("guess", guess).b("rising", rising).n("r", px::bracket_and_solve_root<R>(f, guess, rising));
    } else if (op == "msg") {
        std::ostringstream a, b;
        std::string t = in.s();
        px::msg(t, &a);
        px::msg(t, nullptr);
        std::streambuf* old = std::cerr.rdbuf();
        std::cerr.rdbuf(b.rdbuf());
        px::err(t);
        std::cerr.rdbuf(old);
        Ev("msg").s("t", t).s("a", a.str()).s("b", b.str());
    }
}
#endif

int main(int argc, char** argv) {
    std::ifstream f(argv[2]);
    out = fopen((std::string(argv[3]) + ".0").c_str(), "w");
    {
        Ev e("hdr");
        e.b("float", sizeof(R) == 4);
#ifdef PXRMP_WITH_NORMALIZED_UNITS
        e.b("norm", true);
#else
        e.b("norm", false);
#endif
#ifdef PXRMP_CORE_ONLY
        e.b("core", true);
#else
        e.b("core", false);
#endif
    }
    std::string line;
    while (std::getline(f, line)) {
        if (line.empty()) continue;
        In in(line);
        std::string op = in.s();
        if (op == "vec") vecs(in);
        else if (op == "chi") {
            PEB x(in);
            R lam = in.r();
            Ev e("chi");
            x.log(e);
            e.n("lam", lam).n("ph", px::chi_photon<R>(P3(x), EB(x), lam)).n("le", px::chi_lepton<R>(P3(x), EB(x), lam));
            if (lam == R(1)) e.n("ph1", px::chi_photon<R>(P3(x), EB(x))).n("le1", px::chi_lepton<R>(P3(x), EB(x)));
        } else if (op == "spaced") spaced(in);
        else if (op == "ub") {
            R v = in.r();
            size_t n = in.i();
            std::vector<R> x = in.v(n);
            Ev("ub").n("v", v).a("x", x).i("r", px::picsar_upper_bound<R>(x.data(), x.data() + n, v) - x.data());
        } else if (op == "poi") {
            R l = in.r(), u = in.r();
            Ev("poi").n("lam", l).n("u", u).i("r", px::poisson_distrib<R>(l, u));
        } else if (op.substr(0, 2) == "t1") tab1(op, in);
        else if (op.substr(0, 2) == "t2") tab2(op, in);
        else if (op == "bwctrl") {
            bwc.chi_phot_min = in.r(), bwc.chi_phot_tdndt_min = in.r(), bwc.chi_phot_tdndt_max = in.r(), bwc.chi_phot_tdndt_how_many = in.i();
            bwc.chi_phot_tpair_min = in.r(), bwc.chi_phot_tpair_max = in.r(), bwc.chi_phot_tpair_how_many = in.i(), bwc.chi_frac_tpair_how_many = in.i();
            Ev e("bwctrl");
            ctrl(e, bwc);
        } else if (op == "qsctrl") {
            qsc.chi_part_min = in.r(), qsc.chi_part_tdndt_min = in.r(), qsc.chi_part_tdndt_max = in.r(), qsc.chi_part_tdndt_how_many = in.i();
            qsc.chi_part_tem_min = in.r(), qsc.chi_part_tem_max = in.r(), qsc.chi_part_tem_how_many = in.i(), qsc.prob_tem_how_many = in.i();
            Ev e("qsctrl");
            ctrl(e, qsc);
        }
#ifndef PXRMP_CORE_ONLY
        else if (op == "rewind") {
            std::string f = in.s();
            streams.erase(f);
            Ev("rewind").s("f", f);
        } else if (op == "bw") engine("bw", B, bwc, in);
        else if (op == "qs") engine("qs", Q, qsc, in);
        else if (op == "swe") schwinger(in);
        else if (op == "rng") rng(in);
        else if (op == "kv" || op == "quad" || op == "root" || op == "msg") misc(op, in);
#endif
        else core(op, in);
    }
    fclose(out);
    return 0;
}
