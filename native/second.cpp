// Second-order modes on random polynomial programs against exact second-order jets (bounded supplement; never counted
// as proof). usage: second N SEED [only]
#include "Tape.cpp"
#include <XAD/XAD.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>
#include <vector>
struct Jet {  // value, gradient, Hessian
    double v; std::vector<double> g; std::vector<std::vector<double>> h;
    explicit Jet(double x = 0, int n = 0) : v(x), g(n, 0.), h(n, std::vector<double>(n, 0.)) {}
};
static Jet lin(const Jet& a, double ca, const Jet& b, double cb) {
    Jet r = a; int n = int(a.g.size()); r.v = ca * a.v + cb * b.v;
    for (int i = 0; i < n; ++i) { r.g[i] = ca * a.g[i] + cb * b.g[i]; for (int j = 0; j < n; ++j) r.h[i][j] = ca * a.h[i][j] + cb * b.h[i][j]; }
    return r;
}
static Jet mul(const Jet& a, const Jet& b) {
    Jet r = a; int n = int(a.g.size()); r.v = a.v * b.v;
    for (int i = 0; i < n; ++i) {
        r.g[i] = a.v * b.g[i] + b.v * a.g[i];
        for (int j = 0; j < n; ++j) r.h[i][j] = a.v * b.h[i][j] + b.v * a.h[i][j] + a.g[i] * b.g[j] + a.g[j] * b.g[i];
    }
    return r;
}
static Jet un(const Jet& a, double f, double d1, double d2) {
    Jet r = a; int n = int(a.g.size()); r.v = f;
    for (int i = 0; i < n; ++i) { r.g[i] = d1 * a.g[i]; for (int j = 0; j < n; ++j) r.h[i][j] = d1 * a.h[i][j] + d2 * a.g[i] * a.g[j]; }
    return r;
}
struct Op { int k, a, b; double c; };
struct Prog { int n; std::vector<double> x; std::vector<Op> ops; };
static Jet jmake(double c, const Jet& like) { return Jet(c, int(like.g.size())); }
template <class T> T step(const Op& o, const std::vector<T>& v) {
    using std::sin; using std::exp;
    const T &a = v[o.a], &b = v[o.b];
    switch (o.k) {
    case 0: return a + b;
    case 1: return a - b;
    case 2: return a * b;
    case 3: return a * o.c;
    case 4: return a * a * b;
    case 5: return sin(a);
    case 6: return exp(a * 0.25);
    case 7: return (a - b) * (a + b);
    case 8: { T t = a; t *= b; return t; }
    case 9: { T t = a; t += b; t -= a; return t; }
    default: return a + o.c;
    }
}
static Jet jstep(const Op& o, const std::vector<Jet>& v) {
    const Jet &a = v[o.a], &b = v[o.b];
    switch (o.k) {
    case 0: return lin(a, 1, b, 1);
    case 1: return lin(a, 1, b, -1);
    case 2: case 8: return mul(a, b);
    case 3: return lin(a, o.c, a, 0);
    case 4: return mul(mul(a, a), b);
    case 5: return un(a, std::sin(a.v), std::cos(a.v), -std::sin(a.v));
    case 6: return un(a, std::exp(a.v * .25), .25 * std::exp(a.v * .25), .0625 * std::exp(a.v * .25));
    case 7: return mul(lin(a, 1, b, -1), lin(a, 1, b, 1));
    case 9: return b;
    default: { Jet r = a; r.v += o.c; return r; }
    }
}
template <class T> void eval(const Prog& p, std::vector<T>& v) { for (auto& o : p.ops) { T t = step<T>(o, v); v.push_back(t); } }
static std::string show(const Prog& p) {
    std::string s; char b[96];
    for (double x : p.x) { snprintf(b, 96, "x=%g ", x); s += b; }
    for (auto& o : p.ops) { snprintf(b, 96, "op%d(%d,%d,%g) ", o.k, o.a, o.b, o.c); s += b; }
    return s;
}
// rounding and overflow are not the subject: programs whose intermediate results are large are left out
static bool tame(const std::vector<Jet>& v)
{
    for (auto& j : v) {
        if (!(std::fabs(j.v) < 1e5)) return false;
        for (auto& g : j.g) if (!(std::fabs(g) < 1e5)) return false;
        for (auto& r : j.h) for (auto& h : r) if (!(std::fabs(h) < 1e5)) return false;
    }
    return true;
}
static long checks = 0, hist = 0;
static bool bad(const char* mode, const Prog& p, const char* what, int i, int j, double got, double want) {
    ++checks;
    if (std::fabs(got - want) <= 1e-8 * (1 + std::fabs(want))) return false;
    printf("FAIL %s history %ld: %s[%d,%d] is %.17g, expected %.17g: %s\n", mode, hist, what, i, j, got, want, show(p).c_str());
    return true;
}
template <class F> static bool run(const Prog& p, const Jet& J) {
    int n = p.n;
    { typedef typename xad::fwd_adj<F> M; typedef typename M::active_type A;
      for (int d = 0; d < n; ++d) {
        typename M::tape_type tape;
        std::vector<A> v; v.reserve(p.n + p.ops.size() + 1);
        for (int i = 0; i < n; ++i) { v.push_back(A(p.x[i])); xad::derivative(xad::value(v[i])) = F(i == d); tape.registerInput(v[i]); }
        tape.newRecording();
        eval(p, v);
        A y = v.back();
        tape.registerOutput(y); xad::value(xad::derivative(y)) = F(1); tape.computeAdjoints();
        for (int i = 0; i < n; ++i) {
            if (bad("fwd_adj", p, "gradient", i, d, xad::value(xad::derivative(v[i])), J.g[i])) return false;
            if (bad("fwd_adj", p, "Hessian", i, d, xad::derivative(xad::derivative(v[i])), J.h[i][d])) return false;
        } } }
    { typedef typename xad::adj_adj<F> M; typedef typename M::active_type A; 
      for (int d = 0; d < n; ++d) {
        typename M::inner_tape_type itape; typename M::outer_tape_type otape;
        std::vector<A> v; v.reserve(p.n + p.ops.size() + 1);
        for (int i = 0; i < n; ++i) { v.push_back(A(p.x[i])); itape.registerInput(xad::value(v[i])); otape.registerInput(v[i]); }
        otape.newRecording(); itape.newRecording();
        eval(p, v);
        A y = v.back();
        otape.registerOutput(y); xad::value(xad::derivative(y)) = F(1); otape.computeAdjoints();
        typename std::remove_reference<decltype(xad::derivative(v[d]))>::type gd = xad::derivative(v[d]);
        if (bad("adj_adj", p, "gradient", d, d, xad::value(gd), J.g[d])) return false;
        itape.registerOutput(gd);
        xad::derivative(gd) = F(1); itape.computeAdjoints();
        for (int i = 0; i < n; ++i) if (bad("adj_adj", p, "Hessian", d, i, xad::derivative(xad::value(v[i])), J.h[d][i])) return false;
      } }
    { typedef typename xad::adj_fwd<F> M; typedef typename M::active_type A;
      for (int d = 0; d < n; ++d) {
        typename M::tape_type tape;
        std::vector<A> v; v.reserve(p.n + p.ops.size() + 1);
        for (int i = 0; i < n; ++i) { v.push_back(A(p.x[i])); tape.registerInput(xad::value(v[i])); }
        tape.newRecording();
        for (int i = 0; i < n; ++i) xad::derivative(v[i]) = F(i == d);
        eval(p, v);
        A y = v.back();
        if (bad("adj_fwd", p, "gradient", d, d, xad::value(xad::derivative(y)), J.g[d])) return false;
        tape.registerOutput(xad::derivative(y));
        xad::derivative(xad::derivative(y)) = F(1); tape.computeAdjoints();
        for (int i = 0; i < n; ++i) if (bad("adj_fwd", p, "Hessian", d, i, xad::derivative(xad::value(v[i])), J.h[d][i])) return false;
      } }
    { typedef typename xad::fwd_fwd<F> M; typedef typename M::active_type A;
      for (int d = 0; d < n; ++d) for (int e = 0; e < n; ++e) {
        std::vector<A> v; v.reserve(p.n + p.ops.size() + 1);
        for (int i = 0; i < n; ++i) { v.push_back(A(p.x[i])); xad::value(xad::derivative(v[i])) = F(i == d); xad::derivative(xad::value(v[i])) = F(i == e); }
        eval(p, v);
        if (bad("fwd_fwd", p, "Hessian", d, e, xad::derivative(xad::derivative(v.back())), J.h[d][e])) return false;
      } }
    return true;
}
int main(int argc, char** argv) {
    long N = argc > 1 ? atol(argv[1]) : 100; unsigned seed = argc > 2 ? unsigned(atoi(argv[2])) : 1; long only = argc > 3 ? atol(argv[3]) : -1;
    int nf = 0;
    for (hist = 0; hist < N; ++hist) {
        if (only >= 0 && hist != only) continue;
        std::mt19937 g(seed * 1000003u + unsigned(hist));
        Prog p; p.n = 1 + int(g() % 3);
        static const double xs[] = {0, 0, 0, 1, -1, 0.5, 2};
        for (int i = 0; i < p.n; ++i) p.x.push_back(xs[g() % 7]);
        int m = 1 + int(g() % 6);
        for (int i = 0; i < m; ++i) { int c = p.n + i; p.ops.push_back(Op{int(g() % 11), int(g() % c), int(g() % c), xs[g() % 7]}); }
        std::vector<Jet> v;
        for (int i = 0; i < p.n; ++i) { Jet j(p.x[i], p.n); j.g[i] = 1; v.push_back(j); }
        for (auto& o : p.ops) v.push_back(jstep(o, v));
        if (!tame(v)) continue;
        try { if (!run<double>(p, v.back())) if (++nf > 3) break; }
        catch (const std::exception& e) { printf("FAIL history %ld: exception %s: %s\n", hist, e.what(), show(p).c_str()); if (++nf > 3) break; }
    }
    printf("DONE histories %ld checks %ld\n", hist, checks);
    return nf != 0;
}
