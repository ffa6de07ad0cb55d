// C14/C15: drivers around the real computeJacobian / computeHessian, shared by the symbolic runs (vc/jac.py: in and the
// u_* functions are arbitrary) and the native supplement (native/jac.cpp: in and u_* are random tables).
// Every driver reads its inputs from in[], and writes what it observes to out[]; the layout is in vc/jac.py and in jac.cpp.
#pragma once
#include <XAD/XAD.hpp>
#include <XAD/Hessian.hpp>
#include <XAD/Jacobian.hpp>
#include <array>
#include <deque>
#include <list>
#include <vector>
extern "C" {
// value, gradient and second derivative of component k of the unknown function at the point x[0..n)
double u_v(int k, const double* x, int n);
double u_d(int k, int i, const double* x, int n);
double u_h(int k, int i, int j, const double* x, int n);
double u_any(int i);  // what the function leaves in its argument
}
namespace jd
{
typedef xad::FReal<double> F;
typedef xad::AReal<double> A;
typedef xad::FReal<F> FF;
typedef xad::AReal<F> AF;
inline double pv(double x) { return x; }
template <class X> double pv(const X& x) { return pv(xad::value(x)); }

template <class X, int J> struct Lin {
    static auto get(int k, const std::vector<X>& x, const double* a, int n) { return Lin<X, J - 1>::get(k, x, a, n) + u_d(k, J - 1, a, n) * (x[J - 1] - a[J - 1]); }
};
template <class X> struct Lin<X, 1> {
    static auto get(int k, const std::vector<X>& x, const double* a, int n) { return u_v(k, a, n) + u_d(k, 0, a, n) * (x[0] - a[0]); }
};
// term number P = i*(i+1)/2 + j of the second order part, j <= i
template <class X, int I, int J> struct Sec {
    static auto get(int k, const std::vector<X>& x, const double* a, int n)
    { return ((I == J ? 0.5 : 1.0) * u_h(k, I, J, a, n)) * ((x[I] - a[I]) * (x[J] - a[J])); }
};
template <class X, int I, int J> struct Quad {
    static auto get(int k, const std::vector<X>& x, const double* a, int n) { return Quad<X, I, J - 1>::get(k, x, a, n) + Sec<X, I, J>::get(k, x, a, n); }
};
template <class X, int I> struct Quad<X, I, 0> {
    static auto get(int k, const std::vector<X>& x, const double* a, int n) { return Quad<X, I - 1, I - 1>::get(k, x, a, n) + Sec<X, I, 0>::get(k, x, a, n); }
};
template <class X> struct Quad<X, 0, 0> {
    static auto get(int k, const std::vector<X>& x, const double* a, int n) { return Sec<X, 0, 0>::get(k, x, a, n); }
};
template <class X> void overwrite(std::vector<X>& x)
{
    for (std::size_t j = 0; j < x.size(); ++j) x[j] = x[j] * u_any((int)j) + u_any((int)j + 16);
}
// GEN: the unknown function, one statement per output
template <class X, int N, int M> struct Gen {
    static std::vector<X> f(std::vector<X>& x)
    {
        double a[N];
        for (int j = 0; j < N; ++j) a[j] = pv(x[j]);
        std::vector<X> y(M);
        for (int k = 0; k < M; ++k) y[k] = Lin<X, N>::get(k, x, a, N);
        overwrite(x);
        return y;
    }
    static X f2(std::vector<X>& x)
    {
        double a[N];
        for (int j = 0; j < N; ++j) a[j] = pv(x[j]);
        X y = Lin<X, N>::get(0, x, a, N) + Quad<X, N - 1, N - 1>::get(0, x, a, N);
        overwrite(x);
        return y;
    }
};
template <class X, int M> struct Gen<X, 0, M> {
    static std::vector<X> f(std::vector<X>& x)
    {
        double a[1] = {0};
        std::vector<X> y(M);
        for (int k = 0; k < M; ++k) y[k] = u_v(k, a, 0);
        return y;
    }
    static X f2(std::vector<X>& x) { double a[1] = {0}; return X(u_v(0, a, 0)); }
};
// STP: the same function in several statements, with intermediate variables and in-place updates
template <class X, int N, int M> struct Stp {
    static std::vector<X> f(std::vector<X>& x)
    {
        double a[N];
        for (int j = 0; j < N; ++j) a[j] = pv(x[j]);
        std::vector<X> y;
        for (int k = 0; k < M; ++k) {
            X s = u_v(k, a, N);
            for (int j = 0; j < N; ++j) s += u_d(k, j, a, N) * (x[j] - a[j]);
            y.push_back(s);
        }
        overwrite(x);
        return y;
    }
};
// IDN: returns its argument;  CST: outputs without any dependency on the inputs
template <class X, int N, int M> struct Idn {
    static std::vector<X> f(std::vector<X>& x) { return x; }
};
template <class X, int N, int M> struct Cst {
    static std::vector<X> f(std::vector<X>& x)
    {
        double a[N > 0 ? N : 1];
        for (int j = 0; j < N; ++j) a[j] = pv(x[j]);
        std::vector<X> y;
        for (int k = 0; k < M; ++k) y.push_back(X(u_v(k, a, N)));
        return y;
    }
    static X f2(std::vector<X>& x) { return f(x)[0]; }
};

// ---------------------------------------------------------------- inputs: 4 components per input (missing ones unused)
inline F mk(F*, const double* c) { return F(c[0], c[1]); }
inline FF mk(FF*, const double* c)
{
    FF x;
    xad::value(x) = F(c[0], c[1]);
    xad::derivative(x) = F(c[2], c[3]);
    return x;
}
inline A mk(A*, const double* c) { return A(c[0]); }
inline AF mk(AF*, const double* c)
{
    AF x;
    xad::value(x) = F(c[0], c[1]);
    return x;
}
inline void show(const F& x, double* o) { o[0] = xad::value(x); o[1] = xad::derivative(x); o[2] = o[3] = 0; }
inline void show(const FF& x, double* o)
{ o[0] = xad::value(xad::value(x)); o[1] = xad::derivative(xad::value(x)); o[2] = xad::value(xad::derivative(x)); o[3] = xad::derivative(xad::derivative(x)); }
inline void show(const A& x, double* o) { o[0] = xad::value(x); o[1] = o[2] = o[3] = 0; }
inline void show(const AF& x, double* o) { o[0] = xad::value(xad::value(x)); o[1] = xad::derivative(xad::value(x)); o[2] = o[3] = 0; }
template <class X> std::vector<X> inputs(int n, const double* in)
{
    std::vector<X> v;
    v.reserve(n);
    for (int j = 0; j < n; ++j) v.push_back(mk((X*)0, in + 4 * j));
    return v;
}

// ---------------------------------------------------------------- result containers
// out[0 .. (M+2)*(N)) is the storage: a row before, M rows, a row after; then 4*N for the caller's inputs after the call
struct VV {  // rows are vectors inside a larger vector
    template <int N> struct C { typedef std::vector<std::vector<double> > type; typedef std::vector<double> row; };
};
struct LV { template <int N> struct C { typedef std::list<std::vector<double> > type; typedef std::vector<double> row; }; };
struct VL { template <int N> struct C { typedef std::vector<std::list<double> > type; typedef std::list<double> row; }; };
struct DA { template <int N> struct C { typedef std::deque<std::array<double, N> > type; typedef std::array<double, N> row; }; };
struct VA { template <int N> struct C { typedef std::vector<std::array<double, N> > type; typedef std::array<double, N> row; }; };
template <class R> void grow(R& r, int n) { r.resize(n); }
template <std::size_t N> void grow(std::array<double, N>&, int) {}
template <class CT, int N, int M> struct Store {
    typename CT::template C<N>::type c;
    explicit Store(const double* out)
    {
        for (int i = 0; i < M + 2; ++i) {
            typename CT::template C<N>::row r;
            grow(r, N);
            int j = 0;
            for (auto it = r.begin(); it != r.end(); ++it, ++j) *it = out[i * N + j];
            c.push_back(r);
        }
    }
    typename CT::template C<N>::type::iterator first() { auto i = c.begin(); ++i; return i; }
    typename CT::template C<N>::type::iterator last() { auto i = c.end(); --i; return i; }
    void dump(double* out) const
    {
        int i = 0;
        for (auto r = c.begin(); r != c.end(); ++r, ++i) {
            int j = 0;
            for (auto it = r->begin(); it != r->end(); ++it, ++j) out[i * N + j] = *it;
        }
    }
};
struct RA {};  // the rows are std::array objects lying directly in out[], everything around them is someone else's storage
template <int N, int M> struct Store<RA, N, M> {
    std::array<double, N>* p;
    explicit Store(double* out) : p(reinterpret_cast<std::array<double, N>*>(out)) {}
    std::array<double, N>* first() { return p + 1; }
    std::array<double, N>* last() { return p + 1 + M; }
    void dump(double*) const {}
};
struct RV {};  // the returned matrix
inline void dumpm(const std::vector<std::vector<double> >& m, double* out, int N, int M)
{
    // shape errors are visible: the entries stay as they were
    if ((int)m.size() != M) return;
    for (int i = 0; i < M; ++i) {
        if ((int)m[i].size() != N) return;
        for (int j = 0; j < N; ++j) out[(i + 1) * N + j] = m[i][j];
    }
}

// ---------------------------------------------------------------- tape situations (adjoint modes)
struct NoTape {
    template <class X> struct S {
        typedef typename X::tape_type T;
        std::vector<X> v;
        S(int n, const double* in) : v(inputs<X>(n, in)) {}
        T* tape() { return 0; }
    };
};
struct Fresh {
    template <class X> struct S {
        typedef typename X::tape_type T;
        T t;
        std::vector<X> v;
        S(int n, const double* in) : v(inputs<X>(n, in)) {}
        T* tape() { return &t; }
    };
};
struct Used {  // inputs registered, a recording, adjoints of everything set, some propagated; more statements after that
    template <class X> struct S {
        typedef typename X::tape_type T;
        T t;
        std::vector<X> v;
        X w, z;
        S(int n, const double* in) : v(inputs<X>(n, in)), w(u_any(40)), z(u_any(41))
        {
            if (n > 0) t.registerInputs(v);
            t.registerInput(w);
            t.newRecording();
            z = w * u_any(42);
            for (int j = 0; j < n; ++j) z = z + v[j] * u_any(43 + j);
            t.registerOutput(z);
            xad::derivative(z) = u_any(50);
            xad::derivative(w) = u_any(51);
            for (int j = 0; j < n; ++j) xad::derivative(v[j]) = u_any(52 + j);
            w = z * u_any(60);
        }
        T* tape() { return &t; }
    };
};
struct Swept {  // adjoints propagated, not cleared
    template <class X> struct S {
        typedef typename X::tape_type T;
        T t;
        std::vector<X> v;
        X z;
        S(int n, const double* in) : v(inputs<X>(n, in))
        {
            if (n > 0) t.registerInputs(v);
            t.newRecording();
            z = u_any(42);
            for (int j = 0; j < n; ++j) z = z + v[j] * u_any(43 + j);
            t.registerOutput(z);
            xad::derivative(z) = 1.0;
            t.computeAdjoints();
        }
        T* tape() { return &t; }
    };
};
}  // namespace jd

// ---------------------------------------------------------------- drivers
namespace jd
{
template <class X, int N> void after(const std::vector<X>& v, double* o) { for (int j = 0; j < N; ++j) show(v[j], o + 4 * j); }

// forward mode Jacobian
template <class FN, class CT, int N, int M> struct JacF {
    static void run(const double* in, double* out)
    {
        std::vector<F> v = inputs<F>(N, in);
        Store<CT, N, M> s(out);
        xad::computeJacobian<decltype(s.first()), double>(v, FN::f, s.first(), s.last());
        s.dump(out);
        after<F, N>(v, out + (M + 2) * N);
    }
};
template <class FN, int N, int M> struct JacF<FN, RV, N, M> {
    static void run(const double* in, double* out)
    {
        std::vector<F> v = inputs<F>(N, in);
        dumpm(xad::computeJacobian<double>(v, FN::f), out, N, M);
        after<F, N>(v, out + (M + 2) * N);
    }
};
// adjoint Jacobian. DEF: the tape comes from the default argument
template <class FN, class CT, class SIT, int N, int M, bool DEF = false> struct JacA {
    static void run(const double* in, double* out)
    {
        typename SIT::template S<A> e(N, in);
        Store<CT, N, M> s(out);
        if (DEF) xad::computeJacobian<decltype(s.first()), double>(e.v, FN::f, s.first(), s.last());
        else xad::computeJacobian<decltype(s.first()), double>(e.v, FN::f, s.first(), s.last(), e.tape());
        s.dump(out);
        after<A, N>(e.v, out + (M + 2) * N);
    }
};
template <class FN, class SIT, int N, int M, bool DEF> struct JacA<FN, RV, SIT, N, M, DEF> {
    static void run(const double* in, double* out)
    {
        typename SIT::template S<A> e(N, in);
        if (DEF) dumpm(xad::computeJacobian<double>(e.v, FN::f), out, N, M);
        else dumpm(xad::computeJacobian<double>(e.v, FN::f, e.tape()), out, N, M);
        after<A, N>(e.v, out + (M + 2) * N);
    }
};
template <class FN, class CT, int N> struct HesF {
    static void run(const double* in, double* out)
    {
        std::vector<FF> v = inputs<FF>(N, in);
        Store<CT, N, N> s(out);
        xad::computeHessian<decltype(s.first()), double>(v, FN::f2, s.first(), s.last());
        s.dump(out);
        after<FF, N>(v, out + (N + 2) * N);
    }
};
template <class FN, int N> struct HesF<FN, RV, N> {
    static void run(const double* in, double* out)
    {
        std::vector<FF> v = inputs<FF>(N, in);
        dumpm(xad::computeHessian<double>(v, FN::f2), out, N, N);
        after<FF, N>(v, out + (N + 2) * N);
    }
};
template <class FN, class CT, class SIT, int N, bool DEF = false> struct HesA {
    static void run(const double* in, double* out)
    {
        typename SIT::template S<AF> e(N, in);
        Store<CT, N, N> s(out);
        if (DEF) xad::computeHessian<decltype(s.first()), double>(e.v, FN::f2, s.first(), s.last());
        else xad::computeHessian<decltype(s.first()), double>(e.v, FN::f2, s.first(), s.last(), e.tape());
        s.dump(out);
        after<AF, N>(e.v, out + (N + 2) * N);
    }
};
template <class FN, class SIT, int N, bool DEF> struct HesA<FN, RV, SIT, N, DEF> {
    static void run(const double* in, double* out)
    {
        typename SIT::template S<AF> e(N, in);
        if (DEF) dumpm(xad::computeHessian<double>(e.v, FN::f2), out, N, N);
        else dumpm(xad::computeHessian<double>(e.v, FN::f2, e.tape()), out, N, N);
        after<AF, N>(e.v, out + (N + 2) * N);
    }
};
// results of the wrong shape: rows (views of out[], all of it someone else's storage if the call is rejected) of the given lengths
struct Row {
    double* p;
    int n;
    double* begin() const { return p; }
    double* end() const { return p + n; }
    const double* cbegin() const { return p; }
    const double* cend() const { return p + n; }
};
template <int ROWS> struct Rows {
    Row r[ROWS + 1];
    Rows(double* out, int n, int bad, int badlen)
    {
        for (int i = 0; i < ROWS; ++i) {
            r[i].p = out;
            r[i].n = i == bad ? badlen : n;
            out += r[i].n;
        }
    }
};
template <int N, int M, int ROWS, int BAD, int LEN> struct BadJF {
    static void run(const double* in, double* out)
    {
        std::vector<F> v = inputs<F>(N, in);
        Rows<ROWS> m(out, N, BAD, LEN);
        xad::computeJacobian<Row*, double>(v, Gen<F, N, M>::f, m.r, m.r + ROWS);
    }
};
template <int N, int M, int ROWS, int BAD, int LEN> struct BadJA {
    static void run(const double* in, double* out)
    {
        std::vector<A> v = inputs<A>(N, in);
        Rows<ROWS> m(out, N, BAD, LEN);
        xad::computeJacobian<Row*, double>(v, Gen<A, N, M>::f, m.r, m.r + ROWS);
    }
};
template <int N, int ROWS, int BAD, int LEN> struct BadHF {
    static void run(const double* in, double* out)
    {
        std::vector<FF> v = inputs<FF>(N, in);
        Rows<ROWS> m(out, N, BAD, LEN);
        xad::computeHessian<Row*, double>(v, Gen<FF, N, 1>::f2, m.r, m.r + ROWS);
    }
};
template <int N, int ROWS, int BAD, int LEN> struct BadHA {
    static void run(const double* in, double* out)
    {
        std::vector<AF> v = inputs<AF>(N, in);
        Rows<ROWS> m(out, N, BAD, LEN);
        xad::computeHessian<Row*, double>(v, Gen<AF, N, 1>::f2, m.r, m.r + ROWS);
    }
};
}  // namespace jd
