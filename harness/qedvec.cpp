// Drives picsar_vector and picsar_array from a script (one command per line) and logs, after each command, what every object
// holds and how many elements live.
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "picsar_array.hpp"
#include "picsar_vector.hpp"

namespace px = picsar::multi_physics;

static long live = 0;
#ifdef POD
struct Elt {  // a plain type: new elements hold anything
    int v;
    Elt() = default;
    Elt(int x) : v(x) {}
};
static bool whole(const Elt&) { return true; }
#else
struct Elt {  // an element that counts those that live, and knows where it is
    int v;
    const Elt* me;
    Elt() : v(0), me(this) { live++; }
    Elt(int x) : v(x), me(this) { live++; }
    Elt(const Elt& o) : v(o.v), me(this) { live++; }
    Elt& operator=(const Elt& o) { v = o.v; return *this; }
    ~Elt() { v = -999; me = nullptr; live--; }
};
static bool whole(const Elt& e) { return e.me == &e; }
#endif
typedef px::picsar_vector<Elt> V;
typedef px::picsar_array<Elt, 3> A;

static std::map<int, std::unique_ptr<V>> obj;
static std::map<int, std::unique_ptr<A>> arr;
static std::map<int, std::vector<Elt>> raw;  // storage of the user
static FILE* out;

static long counted() {
#ifdef POD
    return -1000000;  // not known
#else
    return live;
#endif
}
template <class It> static std::string seq(It a, It b) {
    std::string s = "[";
    for (It i = a; i != b; ++i) s += (i == a ? "" : ",") + std::to_string(whole(*i) ? i->v : -998);
    return s + "]";
}
static std::string content(const V& v) {  // the ways to read agree
    std::string s = seq(v.begin(), v.end()), t = "[";
    for (size_t i = 0; i < v.size(); i++) t += (i ? "," : "") + std::to_string(v[i].v);
    t += "]";
    std::string d = seq(v.data(), v.data() + v.size());
    V& m = const_cast<V&>(v);
    std::string n = seq(m.begin(), m.end());
    bool ends = true;
    if (v.size()) ends = &v.front() == v.data() && &v.back() == v.data() + v.size() - 1 && &m.front() == v.data() && &m.back() == v.data() + v.size() - 1 && &m[0] == v.data();
    if (s != t || s != d || s != n || !ends) return "[-1,-1,-1]";
    return s;
}
static std::string content(const A& v) {
    A& m = const_cast<A&>(v);
    std::string s = seq(v.begin(), v.end());
    bool same = s == seq(m.begin(), m.end()) && s == seq(v.data(), v.data() + v.size()) && &m[2] == v.data() + 2 && &v[1] == v.data() + 1 && v.size() == 3;
    return same ? s : "[-1,-1,-1]";
}
template <class C> static void plain(C& c, size_t from) {  // gives the new elements of a plain type a value
#ifdef POD
    for (size_t i = from; i < c.size(); i++) c[i].v = 0;
#endif
}
static void log(const std::string& ev, bool thrown) {
    std::string s;
    for (auto& o : obj) s += std::string(s.empty() ? "" : ",") + "[" + std::to_string(o.first) + "," + content(*o.second) + "]";
    for (auto& o : arr) s += std::string(s.empty() ? "" : ",") + "[" + std::to_string(o.first) + "," + content(*o.second) + "]";
    std::string r;
    for (auto& o : raw) r += std::string(r.empty() ? "" : ",") + "[" + std::to_string(o.first) + "," + seq(o.second.begin(), o.second.end()) + "]";
    fprintf(out, "{%s,\"thrown\":%s,\"live\":%ld,\"all\":[%s],\"raw\":[%s]}\n", ev.c_str(), thrown ? "true" : "false", counted(), s.c_str(), r.c_str());
    fflush(out);
}

int main(int argc, char** argv) {
    std::ifstream f(argv[2]);
    out = fopen((std::string(argv[3]) + ".0").c_str(), "w");
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string op;
        int s = 0, a = 0, b = 0;
        if (!(is >> op)) continue;
        is >> s;
        std::vector<int> x;
        for (int y; is >> y;) x.push_back(y);
        if (x.size() > 0) a = x[0];
        if (x.size() > 1) b = x[1];
        bool thrown = false, self = true;
        try {
            if (op == "size") {
                obj[s].reset(new V(static_cast<size_t>(a)));
                plain(*obj[s], 0);
            }
            else if (op == "empty") obj[s].reset(new V());
            else if (op == "stl") {
                std::vector<Elt> t;
                for (int y : x) t.push_back(Elt(y));
                obj[s].reset(new V(t));
            } else if (op == "list") {
                if (x.size() == 1) obj[s].reset(new V(Elt(a)));
                else if (x.size() == 2) obj[s].reset(new V(Elt(a), Elt(b)));
                else if (x.size() == 3) obj[s].reset(new V(Elt(a), Elt(b), Elt(x[2])));
                else if (x.size() == 4) obj[s].reset(new V{Elt(a), Elt(b), Elt(x[2]), Elt(x[3])});
                else obj[s].reset(new V{Elt(a), Elt(b), Elt(x[2]), Elt(x[3]), Elt(x.at(4))});
            }
            else if (op == "raw") {  // user storage a, its first b elements
                obj[s].reset(new V(static_cast<size_t>(b), raw.at(a).data()));
            } else if (op == "mkraw") {
                raw[s].clear();
                for (int y : x) raw[s].push_back(Elt(y));
            } else if (op == "copy") obj[s].reset(new V(*obj.at(a)));
            else if (op == "move") obj[s].reset(new V(std::move(*obj.at(a))));
            else if (op == "asg") {
                V& r = (*obj.at(s) = *obj.at(a));
                self = &r == obj.at(s).get();
            } else if (op == "masg") {
                V& r = (*obj.at(s) = std::move(*obj.at(a)));
                self = &r == obj.at(s).get();
            } else if (op == "tasg") {  // from a temporary
                *obj.at(s) = V(Elt(a), Elt(b));
            } else if (op == "resize") {
                size_t n = obj.at(s)->size();
                obj.at(s)->resize(a);
                plain(*obj.at(s), n);
            }
            else if (op == "set") (*obj.at(s))[a].v = b;
            else if (op == "iset") *(obj.at(s)->begin() + a) = Elt(b);
            else if (op == "free") obj.erase(s);
            else if (op == "anew") arr[s].reset(new A(Elt(a), Elt(b), Elt(x[2])));
            else if (op == "adef") {
                arr[s].reset(new A());
                plain(*arr[s], 0);
            }
            else if (op == "acopy") { const A& o = *arr.at(a); arr[s].reset(new A(o)); }
            else if (op == "aasg") *arr.at(s) = *arr.at(a);
            else if (op == "aset") (*arr.at(s))[a] = Elt(b);
            else if (op == "afree") arr.erase(s);
            else {
                fprintf(stderr, "unknown command %s\n", op.c_str());
                return 3;
            }
        } catch (std::logic_error&) {
            thrown = true;
        }
        std::string xs = "[";
        for (size_t i = 0; i < x.size(); i++) xs += (i ? "," : "") + std::to_string(x[i]);
        log("\"ev\":\"" + op + "\",\"s\":" + std::to_string(s) + ",\"x\":" + xs + "],\"self\":" + (self ? "true" : "false"), thrown);
    }
    arr.clear();
    obj.clear();
    raw.clear();
    log("\"ev\":\"end\",\"s\":0,\"x\":[],\"self\":true", false);
    fclose(out);
    return 0;
}
