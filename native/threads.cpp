// C20 supplement: the same random program run by several threads at once, each with its own tapes and variables, must give
// bit for bit what it gives when it runs alone (and, built with the thread sanitizer, must not race).
// usage: threads ROUNDS SEED
#ifdef SMALL_CHUNK
#include <XAD/ChunkContainer.hpp>
#include <XAD/TapeContainer.hpp>
namespace xad {
template <> struct TapeContainerTraits<double> { typedef ChunkContainer<double, 64> type; };
template <> struct TapeContainerTraits<float> { typedef ChunkContainer<float, 64> type; };
template <> struct TapeContainerTraits<unsigned> { typedef ChunkContainer<unsigned, 64> type; };
template <> struct TapeContainerTraits<std::pair<unsigned, unsigned>> { typedef ChunkContainer<std::pair<unsigned, unsigned>, 64> type; };
}
#endif
#include "Tape.cpp"
#include <XAD/XAD.hpp>
#include <XAD/Complex.hpp>
#include <XAD/Hessian.hpp>
#include <XAD/Jacobian.hpp>
#include <XAD/StdCompatibility.hpp>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <random>
#include <string>
#include <thread>
#include <vector>
struct Out {
    std::vector<uint64_t> w; std::string bad;
    void d(double x) { uint64_t b; if (x != x) b = 1; else memcpy(&b, &x, 8); w.push_back(b); }
    void u(uint64_t x) { w.push_back(x); }
    void ck(bool ok, const char* m) { if (!ok && bad.empty()) bad = m; }
};
static std::atomic<int> g_live(0);
static bool g_par = false;
static void pause(std::mt19937& g) { if (g() % 3 == 0 && g_par) std::this_thread::yield(); }

template <class T> T fn(int k, const T& a, const T& b) {
    using namespace std; using namespace xad;
    switch (k % 30) {
    case 0: return a + b; case 1: return a * b; case 2: return a - 2.0 * b; case 3: return a / (b * b + 1.0);
    case 4: return sin(a) * b; case 5: return exp(a * 0.1); case 6: return log(a * a + 1.0); case 7: return sqrt(a * a + 2.0);
    case 8: return pow(a * a + 1.0, b * 0.1); case 9: return max(a, b); case 10: return min(a, b * 2.0); case 11: return atan2(a, b + 3.0);
    case 12: return tanh(a); case 13: return erf(a); case 14: return abs(a); case 15: return fmod(a, 3.5);
    case 16: { T t(a); t += b; t *= a; return t; } case 17: { T t(b); t = t / 3.0; t -= a; return t; }
    case 18: return cbrt(a); case 19: return hypot(a, b); case 20: return cos(a) + sin(b); case 21: return asinh(a); case 22: return expm1(a * 0.2);
    case 23: return log1p(a * a); case 24: return smooth_abs(a); case 25: return atan(a); case 26: return cosh(a * 0.1);
    case 27: return a * b + sin(a * b); case 28: return -a + b * b * 0.01; default: return a * 0.5 + 1.0;
    }
}
static bool tame(double x) { return std::fabs(x) < 1e6; }
template <class T> double pv(const xad::AReal<T>& x); template <class T> double pv(const xad::FReal<T>& x);
template <class X> double pv(const X& x) { return double(x); }
template <class T> double pv(const xad::AReal<T>& x) { return pv(xad::value(x)); }
template <class T> double pv(const xad::FReal<T>& x) { return pv(xad::value(x)); }

template <class Tp> struct Cb : xad::CheckpointCallback<Tp> {
    typename Tp::slot_type in, out; double f; long* calls;
    Cb() { ++g_live; } ~Cb() { --g_live; }
    void computeAdjoint(Tp* t) override { ++*calls; auto a = t->getAndResetOutputAdjoint(out); t->incrementAdjoint(in, a * f); }
};

template <class T> static void adjoint(std::mt19937& g, Out& o) {
    typedef xad::AReal<T> A; typedef typename A::tape_type Tp;
    o.ck(Tp::getActive() == nullptr, "a thread without a tape sees an active tape");
    try { A z = 1.0; (void)xad::derivative(z); o.ck(false, "reading an adjoint without a tape of its own must fail"); } catch (xad::NoTapeException&) {}
    Tp tape; pause(g);
    o.ck(Tp::getActive() == &tape, "the active tape of the thread changed");
    { Tp second(false); try { second.activate(); o.ck(false, "two active tapes in a thread"); } catch (xad::TapeAlreadyActive&) {} }
    long calls = 0;
    for (int rec = 0; rec < 2; ++rec) {
        std::vector<A> x; int n = 2 + g() % 4;
        for (int i = 0; i < n; ++i) { A xi = (int(g() % 200) - 100) / 17.0; x.push_back(xi); }
        tape.registerInputs(x); tape.newRecording();
        std::vector<A> v(x); auto mid = tape.getPosition();
        for (int i = 0; i < 60; ++i) {
            pause(g);
            A r = fn(g(), v[g() % v.size()], v[g() % v.size()]);
            if (!tame(pv(r))) r = r * 0.0;
            if (g() % 4) v.push_back(r); else v[g() % v.size()] = r;
            if (i == 20) mid = tape.getPosition();
            if (i == 30) {  // rolled back again
                auto p = tape.getPosition(); { A s = v[0] * v[1] + 1.0; s += v[0]; } tape.resetTo(p);
            }
            if (i == 40) {
                A cin = v[0] * 1.0, cout = 2.0 * pv(cin);
                tape.registerOutput(cout);
                auto* cb = new Cb<Tp>; cb->in = cin.getSlot(); cb->out = cout.getSlot(); cb->f = 2.0; cb->calls = &calls;
                tape.pushCallback(cb); tape.insertCallback(cb); v.push_back(cin); v.push_back(cout);
            }
            if (i == 50) {
                xad::ScopedNestedRecording<Tp> ns(&tape); A a = v[0] + v[1]; A b = a * a; ns.incrementAdjoint(b.getSlot(), T(1.0)); ns.computeAdjoints();
                o.d(pv(tape.getDerivative(v[0].getSlot())));
            }
        }
        tape.clearDerivatives();
        A y = v.back() * v[v.size() / 2] + v[0];
        tape.registerOutput(y); xad::derivative(y) = 1.0; pause(g);
        if (rec) tape.computeAdjointsTo(mid);
        tape.computeAdjoints();
        o.ck(Tp::getActive() == &tape, "the active tape of the thread changed");
        for (auto& xi : x) o.d(pv(xad::derivative(xi)));
        o.d(pv(y)); o.u(tape.getNumStatements()); o.u(tape.getNumOperations()); o.u(tape.getNumVariables()); o.u(tape.getPosition());
        for (auto& s : v) o.u(s.getSlot());
        o.u(calls);
        if (rec == 0) { Tp moved(std::move(tape)); o.ck(Tp::getActive() == &moved, "moving a tape did not carry the activity"); pause(g); tape = std::move(moved); o.ck(Tp::getActive() == &tape, "moving a tape did not carry the activity"); }
    }
    tape.deactivate(); pause(g);
    o.ck(Tp::getActive() == nullptr, "a thread without an active tape sees one");
    tape.activate(); Tp::deactivateAll(); o.ck(!tape.isActive(), "deactivation of all tapes of the thread");
}
template <class F> static void forward(std::mt19937& g, Out& o) {
    std::vector<F> v; for (int i = 0; i < 3; ++i) { F x = (int(g() % 200) - 100) / 17.0; xad::derivative(x) = i + 1.0; v.push_back(x); }
    for (int i = 0; i < 60; ++i) { pause(g); F r = fn(g(), v[g() % v.size()], v[g() % v.size()]); if (!tame(pv(r))) r = r * 0.0; v.push_back(r); }
    for (auto& x : v) { o.d(pv(x)); o.d(pv(xad::derivative(x))); }
    o.u(std::hash<F>{}(v.back()));
}
static void matrices(std::mt19937& g, Out& o) {
    typedef xad::AReal<double> A; typedef xad::AReal<xad::FReal<double>> AF; typedef xad::FReal<double> F; typedef xad::FReal<F> FF;
    std::vector<int> ks; for (int i = 0; i < 6; ++i) ks.push_back(g());
    double c = (g() % 100) / 25.0;
    std::vector<A> x{A(1.0 + c), A(0.5), A(c)}; std::vector<F> xf{F(1.0 + c), F(0.5), F(c)};
    for (auto& row : xad::computeJacobian<double>(x, [&](std::vector<A>& v) { std::vector<A> y; for (int i = 0; i < 3; ++i) { pause(g); y.push_back(fn(ks[i], v[i % 3], v[(i + 1) % 3])); } return y; })) for (double d : row) o.d(d);
    for (auto& row : xad::computeJacobian<double>(xf, [&](std::vector<F>& v) { std::vector<F> y; for (int i = 0; i < 3; ++i) { pause(g); y.push_back(fn(ks[i], v[i % 3], v[(i + 1) % 3])); } return y; })) for (double d : row) o.d(d);
    std::vector<AF> a; std::vector<FF> f; for (double q : {1.0 + c, 0.5, c}) { AF p = q; a.push_back(p); FF r = q; f.push_back(r); }
    for (auto& row : xad::computeHessian<double>(a, [&](std::vector<AF>& v) -> AF { pause(g); AF t = v[0] * v[1] * c + v[2] * v[2]; return t + xad::sin(v[0]); })) for (double d : row) o.d(d);
    for (auto& row : xad::computeHessian<double>(f, [&](std::vector<FF>& v) -> FF { pause(g); FF t = v[0] * v[1] * c + v[2] * v[2]; return t + xad::sin(v[0]); })) for (double d : row) o.d(d);
}
static void complexes(std::mt19937& g, Out& o) {
    typedef xad::AReal<double> A; xad::Tape<double> t; A re = 0.3 + (g() % 50) / 30.0, im = 0.2 + (g() % 50) / 40.0; t.registerInput(re); t.registerInput(im); t.newRecording();
    std::complex<A> z(re, im), w = z;
    for (int i = 0; i < 8; ++i) { pause(g); switch (g() % 6) { case 0: w = w * z; break; case 1: w = exp(w * 0.1); break; case 2: w = sqrt(w); break; case 3: w = w / (z + 1.0); break; case 4: w = sin(w * 0.2); break; default: w = log(w + 2.0); } }
    A y = abs(w) + w.imag(); t.registerOutput(y); xad::derivative(y) = 1.0; t.computeAdjoints();
    o.d(pv(y)); o.d(xad::derivative(re)); o.d(xad::derivative(im));
}
static void program(unsigned seed, Out& o) {
    std::mt19937 pick(seed ^ 0x5bd1e995u);
    for (int i = 0; i < 4; ++i) {
        std::mt19937 h(pick()); unsigned k = pick() % 8;
        switch (k) {
        case 0: case 1: adjoint<double>(h, o); break; case 2: adjoint<float>(h, o); break; case 3: adjoint<xad::FReal<double>>(h, o); break;
        case 4: forward<xad::FReal<double>>(h, o); break; case 5: forward<xad::FReal<float>>(h, o); break; case 6: matrices(h, o); break; default: complexes(h, o);
        }
    }
}
int main(int argc, char** argv) {
    long rounds = argc > 1 ? atol(argv[1]) : 10; unsigned seed = argc > 2 ? atol(argv[2]) : 1; long checks = 0, hist = 0; const int N = 6;
    for (long r = 0; r < rounds; ++r, ++hist) {
        std::vector<Out> a(N), b(N); std::vector<unsigned> s; for (int i = 0; i < N; ++i) s.push_back(seed * 7919u + unsigned(r) * 31u + (i % 4));
        // together first, alone afterwards: anything initialised once is initialised by the threads
        g_par = true; std::atomic<int> go(0);
        { std::vector<std::thread> ts; for (int i = 0; i < N; ++i) ts.emplace_back([&, i] { ++go; while (go < N) std::this_thread::yield(); program(s[i], a[i]); }); for (auto& t : ts) t.join(); }
        g_par = false;
        for (int i = 0; i < N; ++i) program(s[i], b[i]);
        for (int i = 0; i < N; ++i) {
            checks += long(b[i].w.size()) + 1;
            if (!a[i].bad.empty()) printf("FAIL round %ld seed %u program %u: %s (in a thread)\n", r, seed, s[i], a[i].bad.c_str());
            if (!b[i].bad.empty()) printf("FAIL round %ld seed %u program %u: %s (alone)\n", r, seed, s[i], b[i].bad.c_str());
            if (a[i].w != b[i].w) { size_t k = 0; while (k < a[i].w.size() && k < b[i].w.size() && a[i].w[k] == b[i].w[k]) ++k;
                printf("FAIL round %ld seed %u program %u: result %zu of %zu differs from the one the program gives when it runs alone\n", r, seed, s[i], k, b[i].w.size()); }
        }
        if (g_live) { printf("FAIL round %ld: %d callbacks are not destroyed\n", r, int(g_live)); break; }
    }
    printf("DONE histories %ld checks %ld\n", hist, checks);
}
