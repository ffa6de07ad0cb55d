"""C04: every operator and function applied to expressions of unknown class hands its operands the same factors, and has
the same value and tangent, as applied to variables (whose factors C01-C03 prove): the last step of the induction.

The unknown expression class is represented by its interface only (value, tangent, whether it records, calc_derivatives);
which factor it is handed is compared with the factor a variable in its place gets. Arithmetic is uninterpreted."""
import random
import z3
from . import sym, tapemodel as tm, ir, build, nat
from .sym import *
from .ir import DOUBLE, FLOAT, PTR
from .values import FPU
from .exprlayer import UNARY, BINARY, statements, PRE, LAY
from .nodes import ABS

FWD = r'''
template <class S> struct AbsF : xad::Expression<S, AbsF<S> > { const xad::FReal<S>* ref; S value() const; S derivative() const; };
namespace xad { template <class S> struct ExprTraits<AbsF<S> > : ExprTraits<BinaryExpr<S, add_op<S>, FReal<S>, FReal<S> > > {}; }
// a second unknown class: two operands of the same class are a special case (std::max takes the better match there)
template <class S> struct Ab2 : xad::Expression<S, Ab2<S> > { const xad::AReal<S>* ref; int kind; S value() const; bool shouldRecord() const; void calc_derivatives(xad::Tape<S>& t, const S& m) const; S derivative() const; };
template <class S> struct AbF2 : xad::Expression<S, AbF2<S> > { const xad::FReal<S>* ref; S value() const; S derivative() const; };
namespace xad { template <class S> struct ExprTraits<Ab2<S> > : ExprTraits<Abs<S> > {}; template <class S> struct ExprTraits<AbF2<S> > : ExprTraits<AbsF<S> > {}; }
extern "C" {
extern const unsigned long OFF_d_e_ref = __builtin_offsetof(Abs<double>, ref);
extern const unsigned long OFF_d_g_ref = __builtin_offsetof(AbsF<double>, ref);
extern const unsigned long OFF_d_fr_sizeof = sizeof(xad::FReal<double>);
extern const unsigned long OFF_d_fr_a = __builtin_offsetof(xad::FReal<double>, a_);
extern const unsigned long OFF_d_fr_der = __builtin_offsetof(xad::FReal<double>, der_);
}
'''


def combos():
    """(function, operand kinds with variables, the same with expressions)"""
    out = []
    for u in UNARY:
        out.append((u, ['a'], ['x']))
    for b in BINARY:
        for ks in (['x', 'x'], ['x', 'a'], ['a', 'x'], ['x', 'D'], ['D', 'x']):
            if b.name == 'copysign' and ks[0] == 'D':
                continue
            out.append((b, ['a' if k == 'x' else k for k in ks], ks))
    return out


TY = {'a': ('xad::AReal<double>', 'xad::FReal<double>'), 'x0': ('Abs<double>', 'AbsF<double>'), 'x1': ('Ab2<double>', 'AbF2<double>')}


def driver(fn, ks):
    s = ''
    i_ = '%s_%s' % (fn.name, ''.join(ks))
    for mode, res in (('A', 'xad::AReal<double>'), ('F', 'xad::FReal<double>')):
        ps = ''.join(', double p%d' % i if k == 'D' else ', const %s* a%d' % (TY[k if k == 'a' else 'x%d' % i][mode == 'F'], i) for i, k in enumerate(ks))
        e = fn.expr.format(*['p%d' % i if k == 'D' else '(*a%d)' % i for i, k in enumerate(ks)])
        s += 'extern "C" void K%s_%s(%s* r%s%s) { typedef double T; %snew (r) %s(%s); }\n' % (
            mode, i_, res, ps, ', int n' if fn.aux else '', ''.join('%s %s = 0; ' % o for o in fn.outs), res, e)
    return s


class Log(Exception):
    pass


def contracts(mod):
    er, gr = tm.off(mod, 'OFF_d_e_ref'), tm.off(mod, 'OFF_d_g_ref')
    fa, fd = tm.off(mod, 'OFF_d_fr_a'), tm.off(mod, 'OFF_d_fr_der')
    so = tm.off(mod, 'OFF_AR_d_slot')

    def value(ex, st, d, a, x):
        return ex.load(st, ex.load(st, ex.padd(a[0], er), PTR), DOUBLE)

    def should(ex, st, d, a, x):
        sl = ex.load(st, ex.padd(ex.load(st, ex.padd(a[0], er), PTR), so), tm.I32)
        return simp(bvz(sl, 32) != z3.BitVecVal(0xffffffff, 32))

    def calc(ex, st, d, a, x):
        # the factor is recorded as the factor of the variable the expression stands for
        sl = ex.load(st, ex.padd(ex.load(st, ex.padd(a[0], er), PTR), so), tm.I32)
        tape = ex.tape_k
        for g, v, ty in (('mult', ex.load(st, a[2], DOUBLE), DOUBLE), ('slot', sl, tm.I32)):
            vec = tape.vec(st, g)
            ex.store(st, Ptr(vec.reg, 0, vec.size), v, ty)
            tm.vset(ex, st, Ptr(tape.reg, tape.o(g)), VecVal(vec.reg, ibin('add', 64, vec.size, 1)))
        return None

    def fval(of):
        return lambda ex, st, d, a, x: ex.load(st, ex.padd(ex.load(st, ex.padd(a[0], gr), PTR), of), DOUBLE)
    return [(r'^(?:\w+ )*Ab(?:s|2)<.*>::value\(\) const', value), (r'^(?:\w+ )*Ab(?:s|2)<.*>::shouldRecord\(\) const', should), (r'^(?:\w+ )*Ab(?:s|2)<.*>::calc_derivatives', calc),
            (r'^(?:\w+ )*Ab(?:sF|F2)<.*>::value\(\) const', fval(fa)), (r'^(?:\w+ )*Ab(?:sF|F2)<.*>::derivative\(\) const', fval(fd))]


def run(ctx, mod, fn, ks, mode):
    ex = Exec(mod, FPU(), compile_contracts(contracts(mod) + tm.EXC + tm.SEQ))
    st = State()
    tp = None
    if mode == 'A':
        tp = tm.TapeM(ex, st, 'd', DOUBLE)
        tm.set_active(ex, st, 'd', tp.ptr())
        ex.tape_k = tp
    so, fa, fd = tm.off(mod, 'OFF_AR_d_slot'), tm.off(mod, 'OFF_d_fr_a'), tm.off(mod, 'OFF_d_fr_der')
    args, slots = [], []
    for i, k in enumerate(ks):
        if k == 'D':
            args.append(z3.FP('p%d' % i, FPU.S64))
            continue
        x = ex.dom.fresh('x%d' % i, DOUBLE)
        if mode == 'A':
            r = ex.new_region(st, 'a%d' % i, size=tm.off(mod, 'OFF_AR_d_sizeof'))
            ex.store(st, Ptr(r, 0), x, DOUBLE)
            sl = z3.BitVec('slot%d' % i, 32)
            ex.store(st, Ptr(r, so), sl, tm.I32)
            st.assume(z3.ULT(sl, tp.recv['ider']))
            for q in slots:
                st.assume(q != sl)
            slots.append(sl)
        else:
            r = ex.new_region(st, 'a%d' % i, size=tm.off(mod, 'OFF_d_fr_sizeof'))
            ex.store(st, Ptr(r, fa), x, DOUBLE)
            ex.store(st, Ptr(r, fd), ex.dom.fresh('d%d' % i, DOUBLE), DOUBLE)
        if k == 'x':
            e = ex.new_region(st, 'e%d' % i, size=16)
            ex.store(st, Ptr(e, tm.off(mod, 'OFF_d_e_ref' if mode == 'A' else 'OFF_d_g_ref')), Ptr(r, 0), PTR)
            r = e
        args.append(Ptr(r, 0))
    if fn.aux:
        args.append(z3.BitVec('n', 32))
    r = ex.new_region(st, 'res', size=16, undef=True)
    res = []
    for kind, s, v in ex.call_function(st, '@K%s_%s_%s' % (mode, fn.name, ''.join(ks)), [Ptr(r, 0)] + args):
        if kind != 'ret':
            res.append((list(s.pc), None))
            continue
        if mode == 'A':
            stm = collapse(ex, statements(ex, s, tp))
            res.append((list(s.pc), (ex.load(s, Ptr(r, 0), DOUBLE), stm)))
        else:
            res.append((list(s.pc), (ex.load(s, Ptr(r, fa), DOUBLE), ex.load(s, Ptr(r, fd), DOUBLE))))
    ctx.absorb(ex)
    return res


def collapse(ex, stm):
    """intermediate variables of one call eliminated: the last statement in terms of the variables before it"""
    defs, last = [], []
    for lhs, ops in stm:
        last = []
        for m, sl in ops:
            sub = [d for s, d in defs if lower(simp(bvz(s, 32))).eq(lower(simp(bvz(sl, 32))))]
            if not sub:
                last.append((m, sl))
            for m2, s2 in (sub[-1] if sub else []):
                last.append((ex.dom.bin('fmul', m, m2, DOUBLE), s2))
        defs.append((lhs, last))
    return [(None, last)] if stm else []


def equal(mode, a, b):
    """goals, or None if the outcomes have different shape"""
    g = [('value', a[0] == b[0])]
    if mode == 'F':
        return g + [('tangent', a[1] == b[1])]
    if len(a[1]) != len(b[1]):
        return None
    for (t1, o1), (t2, o2) in zip(a[1], b[1]):
        if len(o1) != len(o2):
            return None
        for (m1, s1), (m2, s2) in zip(sorted(o1, key=lambda o: str(o[1])), sorted(o2, key=lambda o: str(o[1]))):
            g.append(('operand', bvz(s1, 32) == bvz(s2, 32)))
            g.append(('factor', m1 == m2))
    return g


def task(ctx, mod, fn, ka, kx):
    name = '%s(%s)' % (fn.name, ', '.join({'x': 'expression', 'a': 'variable', 'D': 'number'}[k] for k in kx))
    for mode, mn in (('A', 'adjoint'), ('F', 'forward')):
        try:
            P, Q = run(ctx, mod, fn, ka, mode), run(ctx, mod, fn, kx, mode)
            ctx.cover('%s %s' % (name, mn), bool(Q))
            for i, (pq, q) in enumerate(Q):
                for pp, p in P:
                    pc = pp + pq
                    if contradictory(pc):
                        continue
                    gs = equal(mode, p, q) if p is not None and q is not None else ([] if p is None and q is None else None)
                    for nm, g in (gs if gs is not None else [('same outcome', z3.BoolVal(False))]):
                        prove(ctx, '%s %s, path %d: %s as for variables' % (name, mn, i, nm), fn.name, pc, g)
        except (Undecided, ir.IRError, KeyError) as e:
            ctx.fail_obl('%s %s' % (name, mn), repr(e)[:600], fn.name)


def contradictory(pc):
    ids = set()
    for c in pc:
        if z3.is_expr(c):
            ids.add(c.get_id())
    for c in pc:
        if z3.is_expr(c) and (z3.is_false(c) or (z3.is_not(c) and c.arg(0).get_id() in ids)):
            return True
    return False


def prove(ctx, name, fn, pc, goal):
    import time
    g = simp(goal)
    if z3.is_true(g):
        ctx.results.append(dict(name=name, fn=fn, status='proved', backend='z3-simplify', secs=0))
        return
    t = time.time()
    s = z3.Solver()
    s.set('timeout', 4000)
    s.add(*[c for c in pc if z3.is_expr(c)])
    s.add(z3.Not(g))
    r = s.check()
    ctx.solver_s += time.time() - t
    # arithmetic is uninterpreted: a model is no counterexample
    ctx.results.append(dict(name=name, fn=fn, status='proved' if r == z3.unsat else 'undecided', backend='z3-fp', secs=round(time.time() - t, 2), detail='' if r == z3.unsat else str(g)[:400]))


# ---- bounded supplement: random expressions, as one expression and split into intermediate variables
SAFE = {'tan': 'tan(0.3 * sin({0}))', 'asin': 'asin(0.9 * sin({0}))', 'acos': 'acos(0.9 * sin({0}))', 'acosh': 'acosh(({0}) * ({0}) + 1.5)', 'atanh': 'atanh(0.9 * sin({0}))',
        'sinh': 'sinh(sin({0}))', 'cosh': 'cosh(sin({0}))', 'exp': 'exp(sin({0}))', 'exp2': 'exp2(sin({0}))', 'expm1': 'expm1(sin({0}))', 'log': 'log(({0}) * ({0}) + 0.5)',
        'log2': 'log2(({0}) * ({0}) + 0.5)', 'log10': 'log10(({0}) * ({0}) + 0.5)', 'log1p': 'log1p(({0}) * ({0}))', 'sqrt': 'sqrt(({0}) * ({0}) + 0.25)', 'cbrt': 'cbrt({0})',
        'div': '({0}) / (({1}) * ({1}) + 0.5)', 'pow': 'pow(({0}) * ({0}) + 0.5, sin({1}))', 'fmod': 'fmod({0}, ({1}) * ({1}) + 0.7)', 'remainder': 'remainder({0}, ({1}) * ({1}) + 0.7)',
        'atan2': 'atan2({0}, ({1}) * ({1}) + 0.3)', 'hypot': 'hypot({0}, ({1}) + 2.5)'}
LEAVE = {'frexp', 'modf', 'remquo', 'ldexp', 'scalbn', 'pown', 'nextafter', 'degrees', 'radians', 'floor', 'ceil', 'trunc', 'round', 'copysign'}


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.un = [u for u in UNARY if u.name not in LEAVE]
        self.bi = [b for b in BINARY if b.name not in LEAVE]

    def leaf(self):
        return self.rng.choice('xyz')

    def num(self):
        return self.rng.choice(['0.75', '-1.5', '2.0', '0.0', '1.0', '0.25'])

    def apply(self, f, args):
        """expression text in which every operand occurs once; restrictions of the domain are met by the values"""
        return f.expr.format(*args)


def wrap(f, args):
    """tree nodes: (text template with {0},{1}, children)"""
    return (f, args)


def tree(g, depth, root=None):
    r = g.rng
    if depth == 0:
        return g.leaf()
    k = root or r.choice(['u', 'b', 'b', 'bs', 'sb'])
    if k == 'u':
        f = r.choice(g.un)
        return node(g, f, [tree(g, depth - 1)])
    f = r.choice(g.bi)
    a = tree(g, depth - 1)
    if k == 'b':
        return node(g, f, [a, tree(g, max(0, depth - 1 - r.randint(0, 1)))])
    return node(g, f, [a, g.num()] if k == 'bs' else [g.num(), a])


def isnum(t):
    return isinstance(t, str) and t not in 'xyz'


def node(g, f, args):
    """an application whose operands are brought into the domain by further nodes"""
    op = lambda name, *a: (OPS[name], list(a))
    dom = {'tan': lambda a: op('mul', op('sin', a), '0.3'), 'asin': lambda a: op('mul', op('sin', a), '0.9'), 'acos': lambda a: op('mul', '0.9', op('sin', a)),
           'atanh': lambda a: op('mul', op('sin', a), '0.9'), 'acosh': lambda a: op('add', op('mul', a, a), '1.5')}
    sq = lambda a, c: op('add', op('mul', a, a), c)
    if f.n == 1:
        a = args[0]
        if f.name in dom:
            a = dom[f.name](a)
        elif f.name in ('sinh', 'cosh', 'exp', 'exp2', 'expm1'):
            a = op('sin', a)
        elif f.name in ('log', 'log2', 'log10', 'log1p', 'sqrt', 'cbrt'):
            a = sq(a, '0.5')
        return (f, [a])
    a, b = args
    if f.name in ('div', 'fmod', 'remainder', 'atan2', 'hypot'):
        b = sq(b, '0.7') if not isnum(b) else '1.7'
    elif f.name == 'pow':
        a = sq(a, '0.5') if not isnum(a) else '1.3'
        b = op('sin', b) if not isnum(b) else b
    return (f, [a, b])


OPS = {f.name: f for f in UNARY + BINARY}


def text(t):
    if isinstance(t, str):
        return t
    return t[0].expr.format(*[text(c) for c in t[1]])


def count(t):
    return (1 if t in 'xyz' else 0) if isinstance(t, str) else sum(count(c) for c in t[1])


def occ(t, v):
    return (1 if t == v else 0) if isinstance(t, str) else sum(occ(c, v) for c in t[1])


def split(t, out):
    if isinstance(t, str):
        return t
    a = [split(c, out) for c in t[1]]
    n = 't%d' % len(out)
    out.append('A %s = %s;' % (n, t[0].expr.format(*a)))
    return n


def active(t):
    return t in 'xyz' if isinstance(t, str) else any(active(c) for c in t[1])


MAIN = r'''
#include <Tape.cpp>
#include <XAD/XAD.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <string>
#include <vector>
using namespace xad;
%s
struct Case { const char* name; int occ[3];
  AReal<double> (*a1)(const AReal<double>&, const AReal<double>&, const AReal<double>&); AReal<double> (*a2)(const AReal<double>&, const AReal<double>&, const AReal<double>&);
  FReal<double> (*f1)(const FReal<double>&, const FReal<double>&, const FReal<double>&); FReal<double> (*f2)(const FReal<double>&, const FReal<double>&, const FReal<double>&);
  AReal<FReal<double>> (*n1)(const AReal<FReal<double>>&, const AReal<FReal<double>>&, const AReal<FReal<double>>&); AReal<FReal<double>> (*n2)(const AReal<FReal<double>>&, const AReal<FReal<double>>&, const AReal<FReal<double>>&); };
static const Case CASES[] = {
%s
};
typedef FReal<double> F;
static bool near(double a, double b) { if (a != a && b != b) return true; return std::fabs(a - b) <= 1e-8 * (1 + std::fabs(a) + std::fabs(b)) || a == b; }
static long checks = 0;
int main(int argc, char** argv) {
  int n = atoi(argv[1]); unsigned seed = atoi(argv[2]); int part = 0, parts = 1; int only = argc > 3 ? atoi(argv[3]) : -1;
  const int N = sizeof(CASES) / sizeof(CASES[0]);
  for (int c = part; c < N; c += parts) {
    if (only >= 0 && c != only) continue;
    if (const char* p = getenv("PROGRESS")) { FILE* fp = fopen(p, "w"); if (fp) { fprintf(fp, "%%d\n", c); fclose(fp); } }
    std::mt19937 g(seed + 7919 * c);
    auto fail = [&](const std::string& w, const double* v, int reg) { printf("FAIL expression %%s at x=%%.17g y=%%.17g z=%%.17g (registered: %%d): %%s\n", CASES[c].name, v[0], v[1], v[2], reg, w.c_str()); exit(1); };
    const Case& C = CASES[c];
    for (int i = 0; i < n; ++i) {
      double v[3]; for (double& q : v) { int k = g() %% 8; q = k == 0 ? 0.0 : k == 1 ? 1.0 : (double(g()) / 4294967296.0 - 0.5) * 4; }
      if (g() %% 6 == 0) v[1] = v[0];
      int reg = i == 0 ? 7 : g() %% 8;
      double d1[3] = {0, 0, 0}, d2[3] = {0, 0, 0}, val1, val2;
      for (int sp = 0; sp < 2; ++sp) {
        Tape<double> t; AReal<double> x(v[0]), y(v[1]), z(v[2]); AReal<double>* in[3] = {&x, &y, &z};
        for (int q = 0; q < 3; ++q) if (reg >> q & 1) t.registerInput(*in[q]);
        t.newRecording();
        auto s0 = t.getNumStatements(), o0 = t.getNumOperations();
        AReal<double> r = (sp ? C.a2 : C.a1)(x, y, z);
        if (!sp) {
          unsigned want = 0; for (int q = 0; q < 3; ++q) if (reg >> q & 1) want += C.occ[q];
          if (t.getNumOperations() - o0 != want) fail("operands recorded: " + std::to_string(t.getNumOperations() - o0) + " expected " + std::to_string(want), v, reg);
          if (t.getNumStatements() - s0 != (want ? 1u : 0u)) fail("statements recorded: " + std::to_string(t.getNumStatements() - s0), v, reg);
        }
        (sp ? val2 : val1) = value(r);
        if (r.getSlot() != AReal<double>::INVALID_SLOT) {
          derivative(r) = 1.0; t.computeAdjoints();
          for (int q = 0; q < 3; ++q) if (reg >> q & 1) (sp ? d2 : d1)[q] = derivative(*in[q]);
        }
      }
      checks += 6;
      if (memcmp(&val1, &val2, 8) && !(val1 != val1 && val2 != val2)) fail("value differs when split: " + std::to_string(val1) + " " + std::to_string(val2), v, reg);
      bool big = !std::isfinite(val1); for (int q = 0; q < 3; ++q) if (!(std::fabs(d1[q]) < 1e5) || !(std::fabs(d2[q]) < 1e5)) big = true;
      if (big) continue;
      for (int q = 0; q < 3; ++q) if (!near(d1[q], d2[q])) fail("adjoint " + std::to_string(q) + " " + std::to_string(d1[q]) + ", split into intermediate variables " + std::to_string(d2[q]), v, reg);
      for (int q = 0; q < 3; ++q) {
        F x(v[0], q == 0), y(v[1], q == 1), z(v[2], q == 2); F r1 = C.f1(x, y, z), r2 = C.f2(x, y, z); checks += 3;
        if (value(r1) != val1) fail("forward value differs", v, reg);
        if (!near(derivative(r1), derivative(r2))) fail("tangent differs when split", v, reg);
        if ((reg >> q & 1) && !near(derivative(r1), d1[q])) fail("tangent " + std::to_string(derivative(r1)) + " differs from adjoint " + std::to_string(d1[q]), v, reg);
      }
      if (i %% 2 == 0) {
        F h1[3], h2[3];
        for (int sp = 0; sp < 2; ++sp) {
          Tape<F> t; AReal<F> x(v[0]), y(v[1]), z(v[2]); derivative(value(x)) = 0.5; derivative(value(y)) = -1.25; derivative(value(z)) = 2.0;
          t.registerInput(x); t.registerInput(y); t.registerInput(z); t.newRecording();
          AReal<F> r = (sp ? C.n2 : C.n1)(x, y, z);
          derivative(r) = 1.0; t.computeAdjoints(); (sp ? h2 : h1)[0] = derivative(x); (sp ? h2 : h1)[1] = derivative(y); (sp ? h2 : h1)[2] = derivative(z);
        }
        for (int q = 0; q < 3; ++q) { double a = derivative(h1[q]), b = derivative(h2[q]); checks += 1;
          if (std::fabs(a) < 1e5 && std::fabs(b) < 1e5 && !near(a, b)) fail("second derivative differs when split: " + std::to_string(a) + " " + std::to_string(b), v, reg); }
      }
    }
  }
  printf("DONE histories %%d checks %%ld\n", N, checks);
}
'''


def cases(rng, nrand):
    g = Gen(rng)
    out = []
    sub = [('x', 'y', 'mul'), ('y', 'z', 'sub'), ('z', 'x', 'add')]
    e1 = (OPS['mul'], ['x', 'y'])
    e2 = (OPS['sub'], ['z', 'x'])
    for f in g.un:
        out.append(node(g, f, [e1]))
    for f in g.bi:
        for args in ([e1, e2], ['x', e2], [e1, 'z'], [e1, '0.75'], ['0.75', e2], ['x', 'x'], [e1, e1]):
            out.append(node(g, f, args))
    while len(out) < nrand + 120:
        t = tree(g, rng.randint(2, 4))
        if active(t) and count(t) <= 24:
            out.append(t)
    return out


def native_source(seed, nrand):
    fs, tab = [], []
    for i, t in enumerate(cases(random.Random(seed), nrand)):
        body = []
        last = split(t, body)
        fs.append('template <class A> A one%d(const A& x, const A& y, const A& z) { return %s; }' % (i, text(t)))
        fs.append('template <class A> A two%d(const A& x, const A& y, const A& z) { %s return %s; }' % (i, ' '.join(body), last))
        ad = 'AReal<double>', 'FReal<double>', 'AReal<FReal<double>>'
        tab.append('  {"%s", {%d, %d, %d}, %s},' % (text(t), occ(t, 'x'), occ(t, 'y'), occ(t, 'z'), ', '.join('&%s%d<%s>' % (w, i, a) for a in ad for w in ('one', 'two'))))
    return MAIN % ('\n'.join(fs), '\n'.join(tab))


def setup(chk):
    cs = combos()
    body = 'using namespace xad;\n'
    seen = set()
    for fn, ka, kx in cs:
        for k in (ka, kx):
            if (fn.name, tuple(k)) not in seen:
                seen.add((fn.name, tuple(k)))
                body += driver(fn, k)
    src = chk.scratch.write('congr.cpp', PRE + LAY + ABS + FWD + body)
    mod = ir.load(chk.scratch.ll(src, 'congr.ll'))
    for fn, ka, kx in cs:
        chk.task('%s %s' % (fn.name, ''.join(kx)), task, mod, fn, ka, kx)
    th = chk.thorough
    s = chk.scratch.write('tree.cpp', native_source(chk.seed * 31, 300 if th else 40))
    chk.tasks.insert(0, ('trees', nat.compile_task, 'trees', s, [], None, '-O0', '', ['{n}', '{seed}'], 1, 400 if th else 30, chk.seed * 1000 + 5,
                         'fixed and random expression trees over three variables, registered or not: one expression against the same split into intermediate variables; adjoint, forward and nested modes', 900 if th else 200))
