// ChunkContainer against std::vector, with an element type that tracks construction and destruction.
// usage: chunk NHIST SEED [only]
#include <XAD/ChunkContainer.hpp>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <vector>
struct Fail { std::string m; };
static std::set<const void*> g_live;
static bool g_bad = false;
struct Obj {
    int v;
    void in() { if (!g_live.insert(this).second) g_bad = true; }
    explicit Obj(int x = 0) : v(x) { in(); }
    Obj(int x, int y) : v(x * 10 + y) { in(); }
    Obj(const Obj& o) : v(o.v) { if (!g_live.count(&o)) g_bad = true; in(); }
    Obj(Obj&& o) : v(o.v) { if (!g_live.count(&o)) g_bad = true; in(); }
    Obj& operator=(const Obj& o) { if (!g_live.count(this) || !g_live.count(&o)) g_bad = true; v = o.v; return *this; }
    Obj& operator=(Obj&& o) { if (!g_live.count(this) || !g_live.count(&o)) g_bad = true; v = o.v; return *this; }
    ~Obj() { if (!g_live.erase(this)) g_bad = true; v = -777; }
};
static int val(const Obj& o) { return o.v; }
static int val(double o) { return int(o); }
static int val(const std::pair<unsigned, unsigned>& o) { return int(o.first); }
template <class T> T mk(int i) { return T(i); }
template <> std::pair<unsigned, unsigned> mk(int i) { return std::make_pair(unsigned(i), unsigned(i + 1)); }
struct Log { std::vector<std::string> l; };
static Log L;
static long g_checks = 0;
static void ck(bool b, const std::string& m) { ++g_checks; if (!b) throw Fail{m}; }
template <class C> void uninit_fix(C&, std::vector<int>&, size_t, std::false_type) {}

template <class T, size_t B> struct Run {
    typedef xad::ChunkContainer<T, B> C;
    std::mt19937 rng;
    std::unique_ptr<C> c, d;
    std::vector<int> m, dm;
    bool cm = false;  // c is moved-from
    int n = 100;
    explicit Run(unsigned s) : rng(s), c(new C) {}
    int rnd(int k) { return int(rng() % unsigned(k)); }
    size_t len() { return rnd(4) == 0 ? size_t(B) * size_t(rnd(5)) : size_t(rnd(int(4 * B + 3))); }
    void log(const std::string& s) { L.l.push_back(s); if (getenv("ECHO")) { printf("%s; ", s.c_str()); fflush(stdout); } }
    void check() {
        ck(c->size() == m.size(), "size is " + std::to_string(c->size()) + ", expected " + std::to_string(m.size()));
        ck(c->empty() == m.empty(), "empty() is wrong");
        for (size_t i = 0; i < m.size(); ++i) ck(val((*c)[i]) == m[i], "element " + std::to_string(i) + " is " + std::to_string(val((*c)[i])) + ", expected " + std::to_string(m[i]));
        const C& k = *c;
        for (size_t i = 0; i < m.size(); i += 3) ck(val(k[i]) == m[i], "const element " + std::to_string(i));
        ck(c->capacity() >= m.size(), "capacity below the size");
        typename C::iterator it = c->iterator_at(0), e = c->iterator_at(m.size());
        size_t q = 0;
        for (; it != e && q < m.size(); ++q) { ck(val(*it) == m[q], "iterator at " + std::to_string(q)); if (rnd(2)) ++it; else it++; }
        ck(it == e && q == m.size(), "iterator range");
        size_t left = m.size(), at = 0;
        for (auto b = c->chunk_begin(), be = c->chunk_end(); b != be && left; ++b) { size_t z = left < B ? left : B; for (size_t i = 0; i < z; ++i) ck(val((*b)[i]) == m[at + i], "block element"); at += z; left -= z; }
        ck(left == 0, "blocks do not cover the elements");
        if (std::is_same<T, Obj>::value) {
            ck(!g_bad, "an element is used while not alive, constructed twice or destroyed twice");
            ck(g_live.size() == m.size() + dm.size(), std::to_string(g_live.size()) + " live elements, expected " + std::to_string(m.size() + dm.size()));
        }
    }
    void step() {
        int k = rnd(16);
        int x = ++n;
        size_t s = len();
        switch (k) {
        case 0: case 1: log("push_back"); { T t = mk<T>(x); c->push_back(t); } m.push_back(x); break;
        case 2: log("emplace_back"); { T t = mk<T>(x); c->emplace_back(t); } m.push_back(x); break;
        case 3: case 4: {
            log("append " + std::to_string(s));
            std::vector<T> v; for (size_t i = 0; i < s; ++i) { v.push_back(mk<T>(++n)); m.push_back(n); }
            c->append(v.begin(), v.end()); break; }
        case 5: { log("append from array " + std::to_string(s)); std::vector<T> v; for (size_t i = 0; i < s; ++i) { v.push_back(mk<T>(++n)); m.push_back(n); } const T* p = v.data(); c->append(p, p + s); break; }
        case 6: case 7: { log("resize " + std::to_string(s)); T t = mk<T>(x); c->resize(s, t); m.resize(s, x); break; }
        case 8: { log("resize default " + std::to_string(s)); c->resize(s); m.resize(s, 0); break; }
        case 9: { log("assign " + std::to_string(s)); T t = mk<T>(x); c->assign(s, t); m.assign(s, x); break; }
        case 10: { log("reserve " + std::to_string(s * 2)); c->reserve(s * 2); ck(c->capacity() >= s * 2, "capacity after reserve"); break; }
        case 11: if (rnd(3) == 0) { log("clear"); c->clear(); m.clear(); } break;
        case 12: { log("move construct"); std::unique_ptr<C> e(new C(std::move(*c))); ck(c->size() == 0 || true, ""); if (rnd(2)) c->clear(); c = std::move(e); break; }
        case 13: {
            log("move assign to a filled container, destroying the source");
            std::unique_ptr<C> e(new C); size_t z = len(); std::vector<T> v; for (size_t i = 0; i < z; ++i) v.push_back(mk<T>(7)); e->append(v.begin(), v.end()); v.clear();
            *e = std::move(*c);
            if (rnd(2)) { c->resize(3, mk<T>(9)); }   // the source may be refilled
            c = std::move(e); break; }
        case 14: {
            log("swap roles with a second container");
            if (!d) { d.reset(new C); }
            std::swap(c, d); std::swap(m, dm); break; }
        case 15: {
            if (std::is_same<T, Obj>::value) { if (!m.empty()) { size_t i = rng() % m.size(); log("write element " + std::to_string(i)); (*c)[i] = mk<T>(x); m[i] = x; } }
            else {
                log("uninitialized_extend " + std::to_string(s));
                size_t o = m.size(); c->uninitialized_extend(s);
                for (size_t i = 0; i < s; ++i) { ++n; new (&(*c)[o + i]) T(mk<T>(n)); m.push_back(n); }
            }
            break; }
        }
        if (rnd(6) == 0 && std::is_same<T, Obj>::value == false) {}
        check();
    }
    void go() {
        check();
        int k = 2 + rnd(30);
        for (int i = 0; i < k; ++i) { step(); if (m.size() > 60 * B + 60) { log("clear"); c->clear(); m.clear(); check(); } }
        log("destroy");
        c.reset(); d.reset(); m.clear(); dm.clear();
        if (std::is_same<T, Obj>::value) { ck(!g_bad, "destruction of elements"); ck(g_live.empty(), std::to_string(g_live.size()) + " elements not destroyed"); }
    }
};
template <class T, size_t B> bool one(const char* nm, long i, unsigned seed) {
    L.l.clear(); g_live.clear(); g_bad = false;
    Run<T, B>* r = new Run<T, B>(seed * 7919u + unsigned(i));
    try { r->go(); delete r; return true; }
    catch (Fail& f) {
        printf("FAIL %s block size %zu history %ld seed %u: %s | ", nm, B, i, seed, f.m.c_str());
        for (auto& s : L.l) printf("%s; ", s.c_str());
        printf("\n"); fflush(stdout);
        return false;
    }
}
static FILE* progress() { static FILE* f = getenv("PROGRESS") ? fopen(getenv("PROGRESS"), "w") : nullptr; return f; }
int main(int argc, char** argv) {
    long n = argc > 1 ? atol(argv[1]) : 500; unsigned seed = argc > 2 ? unsigned(atol(argv[2])) : 1; long only = argc > 3 ? atol(argv[3]) : -1;
    long fails = 0, runs = 0;
    for (long i = 0; i < n && fails < 3; ++i) {
        if (only >= 0 && i != only) continue;
        bool ok = true;
        if (FILE* pf = progress()) { rewind(pf); fprintf(pf, "%ld ", i); fflush(pf); }
        switch (i % 10) {
        case 0: case 1: ok = one<Obj, 4>("Obj", i, seed); break;
        case 2: ok = one<Obj, 1>("Obj", i, seed); break;
        case 3: ok = one<Obj, 2>("Obj", i, seed); break;
        case 4: ok = one<Obj, 3>("Obj", i, seed); break;
        case 5: ok = one<Obj, 8>("Obj", i, seed); break;
        case 6: ok = one<double, 4>("double", i, seed); break;
        case 7: ok = one<double, 2>("double", i, seed); break;
        case 8: ok = one<std::pair<unsigned, unsigned>, 4>("pair", i, seed); break;
        case 9: ok = one<std::pair<unsigned, unsigned>, 16>("pair", i, seed); break;
        }
        ++runs; if (!ok) ++fails;
    }
    printf("DONE histories %ld checks %ld fails %ld other 0\n", runs, g_checks, fails);
    return fails ? 1 : 0;
}
