// C14/C15 native supplement: the drivers of jac_drivers.hpp with random function tables (exact arithmetic on small dyadic
// numbers), then random programs against exact second-order jets. usage: jac N SEED [only]; PART 1: Jacobian, 2: Hessian
#include "jac_drivers.hpp"
#define main second_main
#include "second.cpp"
#undef main
static double Tv[16], Td[16][16], Th[16][16], Tw[16], Ta[64];
extern "C" {
double u_v(int k, const double* x, int n) { double s = Tv[k]; for (int j = 0; j < n; ++j) s += Tw[j] * x[j]; return s; }
double u_d(int k, int i, const double* x, int n) { double s = Td[k][i]; for (int j = 0; j < n; ++j) s += Tw[(j + i + k) % 16] * x[j]; return s; }
double u_h(int k, int i, int j, const double* x, int n)
{ double s = Th[i < j ? i : j][i < j ? j : i]; for (int q = 0; q < n; ++q) s += Tw[(q + i + j + k) % 16] * x[q]; return s; }
double u_any(int i) { return Ta[i]; }
}
namespace
{
using namespace jd;
int nf = 0;
double rnd(std::mt19937& g) { return (int(g() % 65) - 32) / 8.0; }
double sparse(std::mt19937& g) { return g() % 3 ? rnd(g) : 0.0; }
void tables(std::mt19937& g)
{
    for (int i = 0; i < 16; ++i) { Tv[i] = rnd(g); Tw[i] = g() % 2 ? 0 : (int(g() % 5) - 2) / 2.0; for (int j = 0; j < 16; ++j) { Td[i][j] = sparse(g); Th[i][j] = sparse(g); } }
    for (int i = 0; i < 64; ++i) Ta[i] = rnd(g);
}
enum Kind { GEN, IDN, CST };
template <class DRV> void go(const char* name, Kind kind, bool hess, int comps, int N, int M, std::mt19937& g)
{
    if (nf > 3) return;
    std::vector<double> in(4 * N + 4), out((M + 2) * N + 4 * N + 4), o0;
    for (auto& x : in) x = sparse(g);
    for (auto& x : out) x = rnd(g) + 1000;
    tables(g);
    o0 = out;
    double a[16];
    for (int j = 0; j < N; ++j) a[j] = in[4 * j];
    try { DRV::run(in.data(), out.data()); }
    catch (const std::exception& e) { printf("FAIL %s history %ld: exception %s\n", name, hist, e.what()); ++nf; return; }
    auto no = [&](const char* what, int i, int j, double got, double want) {
        ++checks;
        if (got == want) return;
        if (++nf > 3) return;
        std::string s;
        char b[64];
        for (int q = 0; q < N; ++q) { snprintf(b, 64, " x%d=%g", q, a[q]); s += b; }
        printf("FAIL %s history %ld: %s[%d][%d] is %.17g, expected %.17g; point%s\n", name, hist, what, i, j, got, want, s.c_str());
    };
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j)
            no(hess ? "Hessian" : "Jacobian", i, j, out[(i + 1) * N + j], kind == CST ? 0. : kind == IDN ? double(i == j) : hess ? u_h(0, i, j, a, N) : u_d(i, j, a, N));
    for (int j = 0; j < N; ++j) {
        no("storage before the result", 0, j, out[j], o0[j]);
        no("storage after the result", 0, j, out[(M + 1) * N + j], o0[(M + 1) * N + j]);
        for (int c = 0; c < comps; ++c) no("component of the caller's input", j, c, out[(M + 2) * N + 4 * j + c], in[4 * j + c]);
    }
}
template <class DRV> void rejected(const char* name, int cells, std::mt19937& g)
{
    if (nf > 3) return;
    std::vector<double> in(64), out(cells), o0;
    for (auto& x : in) x = rnd(g);
    for (auto& x : out) x = rnd(g);
    tables(g);
    o0 = out;
    ++checks;
    try { DRV::run(in.data(), out.data()); printf("FAIL %s history %ld: a result of the wrong shape is accepted\n", name, hist); ++nf; }
    catch (const xad::OutOfRange&) {}
    if (out != o0) { printf("FAIL %s history %ld: storage of a rejected result is written\n", name, hist); ++nf; }
}
#define JF(FN, K, CT, N, M) go<JacF<FN<F, N, M>, CT, N, M> >("JacF " #FN " " #CT " " #N "x" #M, K, false, 2, N, M, g);
#define JA(FN, K, CT, S, N, M, D) go<JacA<FN<A, N, M>, CT, S, N, M, D> >("JacA " #FN " " #CT " " #S " " #N "x" #M " default=" #D, K, false, 1, N, M, g);
#define HF(FN, K, CT, N) go<HesF<FN<FF, N, 1>, CT, N> >("HesF " #FN " " #CT " " #N, K, true, 4, N, N, g);
#define HA(FN, K, CT, S, N, D) go<HesA<FN<AF, N, 1>, CT, S, N, D> >("HesA " #FN " " #CT " " #S " " #N " default=" #D, K, true, 2, N, N, g);
#define BJ(X, N, M, R, B, L) rejected<X<N, M, R, B, L> >(#X " " #N "x" #M " rows " #R " row " #B " has length " #L, 8 * (R + 1), g);
#define BH(X, N, R, B, L) rejected<X<N, R, B, L> >(#X " " #N " rows " #R " row " #B " has length " #L, 8 * (R + 1), g);
void tablesuite(std::mt19937& g)
{
#if PART == 1
    JF(Gen, GEN, RA, 1, 1) JF(Gen, GEN, RA, 1, 4) JF(Gen, GEN, RA, 4, 1) JF(Gen, GEN, RA, 2, 3) JF(Gen, GEN, RA, 3, 2) JF(Gen, GEN, RA, 5, 8) JF(Gen, GEN, RA, 8, 5) JF(Gen, GEN, RA, 6, 6)
    JF(Gen, GEN, VV, 2, 0) JF(Gen, GEN, VV, 0, 2) JF(Gen, GEN, RV, 0, 2) JF(Gen, GEN, RV, 2, 0) JF(Gen, GEN, VV, 4, 3) JF(Gen, GEN, LV, 3, 4) JF(Gen, GEN, VL, 4, 3) JF(Gen, GEN, DA, 3, 4) JF(Gen, GEN, VA, 4, 3) JF(Gen, GEN, RV, 4, 3) JF(Gen, GEN, RV, 3, 4)
    JF(Stp, GEN, RA, 3, 4) JF(Idn, IDN, RA, 3, 3) JF(Cst, CST, RV, 3, 3)
    JA(Gen, GEN, RA, NoTape, 1, 1, false) JA(Gen, GEN, RA, Fresh, 1, 4, false) JA(Gen, GEN, RA, Used, 4, 1, false) JA(Gen, GEN, RA, Swept, 2, 3, false) JA(Gen, GEN, RA, Used, 3, 2, false)
    JA(Gen, GEN, RA, Used, 5, 8, false) JA(Gen, GEN, RA, Swept, 8, 5, false) JA(Gen, GEN, RA, NoTape, 6, 6, false)
    JA(Gen, GEN, VV, Used, 4, 3, false) JA(Gen, GEN, LV, Swept, 3, 4, false) JA(Gen, GEN, VL, NoTape, 4, 3, false) JA(Gen, GEN, DA, Fresh, 3, 4, false) JA(Gen, GEN, VA, Used, 4, 3, false)
    JA(Gen, GEN, RV, Used, 4, 3, false) JA(Gen, GEN, RV, NoTape, 3, 4, false) JA(Gen, GEN, RV, Used, 3, 4, true) JA(Gen, GEN, RA, Swept, 4, 3, true) JA(Gen, GEN, RV, NoTape, 3, 4, true)
    JA(Stp, GEN, RA, Used, 3, 4, false) JA(Idn, IDN, RA, Swept, 3, 3, false) JA(Cst, CST, RV, Used, 3, 3, false) JA(Gen, GEN, RV, Used, 0, 2, false) JA(Gen, GEN, RV, Used, 2, 0, false) JA(Gen, GEN, VV, NoTape, 0, 2, false)
    BJ(BadJF, 2, 2, 1, -1, 0) BJ(BadJF, 2, 2, 3, -1, 0) BJ(BadJF, 2, 2, 2, 1, 1) BJ(BadJF, 2, 2, 2, 1, 3) BJ(BadJF, 3, 4, 4, 3, 2) BJ(BadJF, 3, 4, 4, 2, 4) BJ(BadJF, 3, 4, 5, -1, 0) BJ(BadJF, 3, 4, 3, -1, 0)
    BJ(BadJA, 2, 2, 1, -1, 0) BJ(BadJA, 2, 2, 3, -1, 0) BJ(BadJA, 2, 2, 2, 1, 1) BJ(BadJA, 2, 2, 2, 1, 3) BJ(BadJA, 3, 4, 4, 3, 2) BJ(BadJA, 3, 4, 4, 2, 4) BJ(BadJA, 3, 4, 5, -1, 0) BJ(BadJA, 3, 4, 3, -1, 0)
#else
    HF(Gen, GEN, RA, 1) HF(Gen, GEN, RA, 2) HF(Gen, GEN, RA, 3) HF(Gen, GEN, RA, 5) HF(Gen, GEN, RV, 8) HF(Gen, GEN, VV, 3) HF(Gen, GEN, LV, 3) HF(Gen, GEN, VL, 3) HF(Gen, GEN, DA, 3) HF(Gen, GEN, VA, 4) HF(Gen, GEN, RV, 0) HF(Cst, CST, RA, 3)
    HA(Gen, GEN, RA, NoTape, 1, false) HA(Gen, GEN, RA, Used, 1, false) HA(Gen, GEN, RA, Used, 2, false) HA(Gen, GEN, RA, Swept, 3, false) HA(Gen, GEN, RA, Fresh, 5, false) HA(Gen, GEN, RV, Used, 8, false)
    HA(Gen, GEN, VV, Used, 3, false) HA(Gen, GEN, LV, Swept, 3, false) HA(Gen, GEN, VL, NoTape, 3, false) HA(Gen, GEN, DA, Fresh, 3, false) HA(Gen, GEN, VA, Used, 4, true) HA(Gen, GEN, RV, Swept, 4, true) HA(Gen, GEN, RV, NoTape, 3, true)
    HA(Gen, GEN, RV, Used, 0, false) HA(Cst, CST, RA, Used, 3, false)
    BH(BadHF, 2, 1, -1, 0) BH(BadHF, 2, 3, -1, 0) BH(BadHF, 2, 2, 1, 1) BH(BadHF, 2, 2, 0, 3) BH(BadHF, 4, 4, 3, 3) BH(BadHF, 4, 5, -1, 0)
    BH(BadHA, 2, 1, -1, 0) BH(BadHA, 2, 3, -1, 0) BH(BadHA, 2, 2, 1, 1) BH(BadHA, 2, 2, 0, 3) BH(BadHA, 4, 4, 3, 3) BH(BadHA, 4, 5, -1, 0)
#endif
}
// random programs
Prog P;
int outs;
template <class X> std::vector<X> prog(std::vector<X>& x)
{
    std::vector<X> v(x);
    v.reserve(x.size() + P.ops.size());
    eval(P, v);
    std::vector<X> y;
    for (int k = 0; k < outs; ++k) y.push_back(v[v.size() - 1 - k]);
    for (auto& z : x) z = z * 3.0 + 1.0;
    return y;
}
template <class X> X prog1(std::vector<X>& x) { return prog(x)[0]; }
void progsuite(std::mt19937& g)
{
    if (nf > 3) return;
    Prog p;
    p.n = 1 + int(g() % 5);
    static const double xs[] = {0, 0, 1, -1, 0.5, 2, -0.25};
    for (int i = 0; i < p.n; ++i) p.x.push_back(xs[g() % 7]);
    int m = 1 + int(g() % 8);
    for (int i = 0; i < m; ++i) { int c = p.n + i; p.ops.push_back(Op{int(g() % 11), int(g() % c), int(g() % c), xs[g() % 7]}); }
    std::vector<Jet> v;
    for (int i = 0; i < p.n; ++i) { Jet j(p.x[i], p.n); j.g[i] = 1; v.push_back(j); }
    for (auto& o : p.ops) v.push_back(jstep(o, v));
    if (!tame(v)) return;
    P = p;
    outs = 1 + int(g() % (p.n + m));
    std::vector<double> in(4 * p.n);
    for (int j = 0; j < p.n; ++j) { in[4 * j] = p.x[j]; for (int c = 1; c < 4; ++c) in[4 * j + c] = sparse(g); }
    tables(g);
    typedef std::vector<std::vector<double> > Mat;
    auto cmp = [&](const char* mode, const Mat& r, bool hess) {
        std::size_t rows = hess ? std::size_t(p.n) : std::size_t(outs);
        bool shape = r.size() == rows;
        for (auto& q : r) shape = shape && int(q.size()) == p.n;
        if (!shape) { printf("FAIL %s history %ld: wrong shape: %s\n", mode, hist, show(p).c_str()); ++nf; return; }
        for (std::size_t k = 0; k < rows; ++k)
            for (int j = 0; j < p.n; ++j)
                if (bad(mode, p, hess ? "Hessian" : "Jacobian", int(k), j, r[k][j], hess ? v.back().h[k][j] : v[v.size() - 1 - k].g[j])) { ++nf; return; }
    };
#if PART == 1
    cmp("forward Jacobian", xad::computeJacobian<double>(inputs<F>(p.n, in.data()), prog<F>), false);
    { NoTape::S<A> e(p.n, in.data()); cmp("adjoint Jacobian", xad::computeJacobian<double>(e.v, prog<A>), false); }
    { Used::S<A> e(p.n, in.data()); cmp("adjoint Jacobian on a used tape", xad::computeJacobian<double>(e.v, prog<A>), false); cmp("second adjoint Jacobian", xad::computeJacobian<double>(e.v, prog<A>, &e.t), false); }
    { Swept::S<A> e(p.n, in.data()); cmp("adjoint Jacobian after a sweep", xad::computeJacobian<double>(e.v, prog<A>), false); }
#else
    cmp("forward Hessian", xad::computeHessian<double>(inputs<FF>(p.n, in.data()), prog1<FF>), true);
    { NoTape::S<AF> e(p.n, in.data()); cmp("adjoint Hessian", xad::computeHessian<double>(e.v, prog1<AF>), true); }
    { Used::S<AF> e(p.n, in.data()); cmp("adjoint Hessian on a used tape", xad::computeHessian<double>(e.v, prog1<AF>), true); cmp("second adjoint Hessian", xad::computeHessian<double>(e.v, prog1<AF>, &e.t), true); }
    { Swept::S<AF> e(p.n, in.data()); cmp("adjoint Hessian after a sweep", xad::computeHessian<double>(e.v, prog1<AF>), true); }
#endif
}
}  // namespace
int main(int argc, char** argv)
{
    long N = argc > 1 ? atol(argv[1]) : 10, only = argc > 3 ? atol(argv[3]) : -1;
    unsigned seed = argc > 2 ? unsigned(atoi(argv[2])) : 1;
    const char* pf = getenv("PROGRESS");
    for (hist = 0; hist < N; ++hist) {
        if (only >= 0 && hist != only) continue;
        if (pf) { if (FILE* f = fopen(pf, "w")) { fprintf(f, "%ld\n", hist); fclose(f); } }
        std::mt19937 g(seed * 1000003u + unsigned(hist));
        tablesuite(g);
        for (int r = 0; r < 8; ++r) {
            try { progsuite(g); }
            catch (const std::exception& e) { printf("FAIL program history %ld: exception %s: %s\n", hist, e.what(), show(P).c_str()); ++nf; }
        }
        if (nf > 3) break;
    }
    printf("DONE histories %ld checks %ld\n", hist, checks);
    return nf != 0;
}
