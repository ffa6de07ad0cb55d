// std::hash of every kind of active type: equal values give the hash of the number, whatever the derivatives are.
#include <XAD/XAD.hpp>
#include <XAD/StdCompatibility.hpp>
#include "Tape.cpp"
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <random>
#include <unordered_map>
static long checks = 0, hist = 0;
template <class A, class T>
static void eq(const char* kind, const A& x, T v, T d) {
    ++checks;
    std::size_t h = std::hash<A>{}(x), w = std::hash<T>{}(v);
    if (h != w) printf("FAIL hash of %s with value %a (derivative %a): %zu, the hash of the number is %zu\n", kind, double(v), double(d), h, w);
}
template <class T>
static void one(const char* t, T v, T d) {
    char b[64];
    auto nm = [&](const char* k) { snprintf(b, sizeof b, "%s of %s", k, t); return b; };
    typedef xad::FReal<T> F; typedef xad::AReal<T> A;
    { F x(v); xad::derivative(x) = d; eq(nm("FReal"), x, v, d); }
    { xad::FReal<F> x = v; xad::derivative(xad::value(x)) = d; xad::value(xad::derivative(x)) = d; xad::derivative(xad::derivative(x)) = d; eq(nm("FReal<FReal>"), x, v, d); }
    { A x(v); eq(nm("AReal"), x, v, d); }
    { typename A::tape_type tp; A x(v); tp.registerInput(x); xad::derivative(x) = d; eq(nm("registered AReal"), x, v, d);
      std::unordered_map<A, int> m; m[x] = 7; ++checks; A y(v); if (v == v && m.find(y) == m.end()) printf("FAIL a map with key %a of a registered AReal of %s does not find the equal key\n", double(v), t);
      xad::FReal<A> z = v; xad::value(z) = x; xad::derivative(z) = d; eq(nm("FReal<registered AReal>"), z, v, d); }
    { typename xad::AReal<F>::tape_type tp; xad::AReal<F> x = v; xad::derivative(xad::value(x)) = d; eq(nm("AReal<FReal>"), x, v, d); tp.registerInput(x); eq(nm("registered AReal<FReal>"), x, v, d); }
    { xad::AReal<A> x = v; eq(nm("AReal<AReal>"), x, v, d); }
}
int main(int argc, char** argv) {
    long n = argc > 1 ? atol(argv[1]) : 1000; std::mt19937_64 g(argc > 2 ? atol(argv[2]) : 1);
    const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, 3.25, -17.0, 1e30, -1e-30, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
    for (double v : sp) for (double d : sp) { one<double>("double", v, d); one<float>("float", float(v), float(d)); ++hist; }
    std::uniform_real_distribution<double> u(-100, 100);
    for (long i = 0; i < n; ++i, ++hist) { double v = u(g), d = u(g); one<double>("double", v, d); one<float>("float", float(v), float(d)); }
    printf("DONE histories %ld checks %ld\n", hist, checks);
}
