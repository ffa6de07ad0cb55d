"""C04: the inductive step of the chain rule. Every expression node is proved against its contract for operand expressions
of unknown class (any shape and size) and for an unknown operator; the leaves and the active types themselves are the base
and the end of the induction. Together: the contract of an expression of any shape."""
import z3
from . import ir, sym
from .sym import *
from .ir import DOUBLE, FLOAT, PTR
from .contracts import Spec
from .tapemodel2 import *
from . import tapefn
from .areal import AB, Obj, d_add, d_neg, d_mul, d_inv, d_k, ONE, ZERO, BV32, K0, BIN, SRC as ASRC
from .tapefn import LIVE, J, J32, zx, INVALID, CONTRACTS, ELEM, NAME

K1 = z3.BitVec('kind1', 32)
OPID = z3.BitVec('operator_data', 32)
ABS = ASRC[:ASRC.index('#define AR(')]
SRC = ABS + r'''
template <class S, int K> struct UOp { int id; S operator()(const S&) const; S derivative(const S&) const; S derivative(const S&, const S&) const; };
template <class S, int K> struct BOp { int id; S operator()(const S&, const S&) const;
  S derivative_a(const S&, const S&) const; S derivative_a(const S&, const S&, const S&) const;
  S derivative_b(const S&, const S&) const; S derivative_b(const S&, const S&, const S&) const; };
namespace xad {
template <class S, int K> struct OperatorTraits<UOp<S, K> > { enum { useResultBasedDerivatives = K }; };
template <class S, int K> struct OperatorTraits<BOp<S, K> > { enum { useResultBasedDerivatives = K }; };
}
#define NODE(P, t, S, K, TY, ARGS, MAKE) \
  extern "C" { \
  void P##_##t##K##_calc(xad::Tape<S>* tp, ARGS, const S* m) { TY n MAKE; n.calc_derivatives(*tp, *m); } \
  void P##_##t##K##_calcb(xad::Tape<S>* tp, ARGS, const S* m) { TY n MAKE; const xad::Expression<S, TY>& b = n; b.calc_derivatives(*tp, *m); } \
  void P##_##t##K##_calc1(xad::Tape<S>* tp, ARGS) { TY n MAKE; const xad::Expression<S, TY>& b = n; b.calc_derivatives(*tp); } \
  void P##_##t##K##_calc1d(xad::Tape<S>* tp, ARGS) { TY n MAKE; n.calc_derivatives(*tp); } \
  void P##_##t##K##_value(ARGS, S* r) { TY n MAKE; *r = xad::value(n); } \
  void P##_##t##K##_getValue(ARGS, S* r) { TY n MAKE; const xad::Expression<S, TY>& b = n; *r = b.getValue(); } \
  void P##_##t##K##_copied(ARGS, S* r) { TY n MAKE; TY c(n); *r = c.value(); } \
  bool P##_##t##K##_should(ARGS) { TY n MAKE; const xad::Expression<S, TY>& b = n; return b.shouldRecord(); } \
  bool P##_##t##K##_bool(ARGS) { TY n MAKE; return static_cast<bool>(n); } \
  void P##_##t##K##_der(ARGS, S* r) { TY n MAKE; *r = xad::derivative(n); } \
  void P##_##t##K##_derb(ARGS, S* r) { TY n MAKE; const xad::Expression<S, TY>& b = n; *r = b.derivative(); } \
  }
#define UT(S, K) U_##K##_##S
#define COMMA ,
#define NODES(t, S) \
  typedef xad::AReal<S> A##t; typedef Abs<S> E##t; \
  extern "C" { \
  extern const unsigned long OFF_##t##_ar_sizeof = sizeof(A##t); \
  extern const unsigned long OFF_##t##_ar_a = __builtin_offsetof(A##t, a_); \
  extern const unsigned long OFF_##t##_ar_slot = __builtin_offsetof(A##t, slot_); \
  extern const unsigned long OFF_##t##_e_ref = __builtin_offsetof(E##t, ref); \
  extern const unsigned long OFF_##t##_e_kind = __builtin_offsetof(E##t, kind); \
  } \
  typedef xad::UnaryExpr<S, UOp<S, 0>, E##t> U0##t; typedef xad::UnaryExpr<S, UOp<S, 1>, E##t> U1##t; \
  typedef xad::BinaryExpr<S, BOp<S, 0>, E##t, E##t> B0##t; typedef xad::BinaryExpr<S, BOp<S, 1>, E##t, E##t> B1##t; \
  typedef UOp<S, 0> Q0##t; typedef UOp<S, 1> Q1##t; typedef BOp<S, 0> R0##t; typedef BOp<S, 1> R1##t; \
  NODE(U, t, S, 0, U0##t, const E##t* e COMMA int id, (*e COMMA Q0##t{id})) \
  NODE(U, t, S, 1, U1##t, const E##t* e COMMA int id, (*e COMMA Q1##t{id})) \
  NODE(B, t, S, 0, B0##t, const E##t* e COMMA const E##t* f COMMA int id, (*e COMMA *f COMMA R0##t{id})) \
  NODE(B, t, S, 1, B1##t, const E##t* e COMMA const E##t* f COMMA int id, (*e COMMA *f COMMA R1##t{id})) \
  typedef xad::ADVar<S> V##t; \
  extern "C" { \
  void L_##t##_calc(xad::Tape<S>* tp, const A##t* x, const S* m) { V##t v(*x); v.calc_derivatives(*tp, *m); } \
  void L_##t##_calcb(xad::Tape<S>* tp, const A##t* x, const S* m) { V##t v(*x); const xad::Expression<S, V##t>& b = v; b.calc_derivatives(*tp, *m); } \
  void L_##t##_calc1(xad::Tape<S>* tp, const A##t* x) { V##t v(*x); const xad::Expression<S, V##t>& b = v; b.calc_derivatives(*tp); } \
  void L_##t##_acalc(xad::Tape<S>* tp, const A##t* x, const S* m) { x->calc_derivatives(*tp, *m); } \
  void L_##t##_acalcb(xad::Tape<S>* tp, const A##t* x, const S* m) { const xad::Expression<S, A##t>& b = *x; b.calc_derivatives(*tp, *m); } \
  void L_##t##_acalc1(xad::Tape<S>* tp, const A##t* x) { const xad::Expression<S, A##t>& b = *x; b.calc_derivatives(*tp); } \
  void L_##t##_value(const A##t* x, S* r) { V##t v(*x); *r = xad::value(v); } \
  void L_##t##_getValue(const A##t* x, S* r) { V##t v(*x); *r = v.getValue(); } \
  bool L_##t##_should(const A##t* x) { V##t v(*x); const xad::Expression<S, V##t>& b = v; return b.shouldRecord(); } \
  bool L_##t##_ashould(const A##t* x) { const xad::Expression<S, A##t>& b = *x; return b.shouldRecord(); } \
  }
NODES(d, double) NODES(f, float) NODES(F, FD)

template <class S> struct AbsF : xad::Expression<S, AbsF<S> > {
  const xad::FReal<S>* ref;
  int kind;
  S value() const;
  S derivative() const;
};
namespace xad {
template <class S> struct ExprTraits<AbsF<S> > : ExprTraits<BinaryExpr<S, add_op<S>, FReal<S>, FReal<S> > > {};
}
#define FR(t, S, N) \
  typedef xad::FReal<S> F##t; typedef AbsF<S> G##t; \
  extern "C" { \
  extern const unsigned long OFF_##t##_fr_sizeof = sizeof(F##t); \
  extern const unsigned long OFF_##t##_fr_a = __builtin_offsetof(F##t, a_); \
  extern const unsigned long OFF_##t##_fr_der = __builtin_offsetof(F##t, der_); \
  extern const unsigned long OFF_##t##_g_ref = __builtin_offsetof(G##t, ref); \
  extern const unsigned long OFF_##t##_g_kind = __builtin_offsetof(G##t, kind); \
  void F_##t##_default(F##t* r) { new (r) F##t(); } \
  void F_##t##_fromvalue(F##t* r, N v) { new (r) F##t(v); } \
  void F_##t##_fromvaluedir(F##t* r, N v, N e) { new (r) F##t(v, e); } \
  void F_##t##_copy(F##t* r, const F##t* x) { new (r) F##t(*x); } \
  void F_##t##_move(F##t* r, F##t* x) { new (r) F##t(std::move(*x)); } \
  void F_##t##_expr(F##t* r, const G##t* e) { new (r) F##t(*e); } \
  void F_##t##_assign(F##t* x, const F##t* o) { *x = *o; } \
  void F_##t##_massign(F##t* x, F##t* o) { *x = std::move(*o); } \
  void F_##t##_eassign(F##t* x, const G##t* e) { *x = *e; } \
  void F_##t##_nassign(F##t* x, N v) { *x = v; } \
  void F_##t##_adde(F##t* x, const G##t* e) { *x += *e; } \
  void F_##t##_sube(F##t* x, const G##t* e) { *x -= *e; } \
  void F_##t##_mule(F##t* x, const G##t* e) { *x *= *e; } \
  void F_##t##_dive(F##t* x, const G##t* e) { *x /= *e; } \
  void F_##t##_adda(F##t* x, const F##t* o) { *x += *o; } \
  void F_##t##_suba(F##t* x, const F##t* o) { *x -= *o; } \
  void F_##t##_mula(F##t* x, const F##t* o) { *x *= *o; } \
  void F_##t##_diva(F##t* x, const F##t* o) { *x /= *o; } \
  void F_##t##_adds(F##t* x, const S* o) { *x += *o; } \
  void F_##t##_subs(F##t* x, const S* o) { *x -= *o; } \
  void F_##t##_getValue(const F##t* x, S* r) { *r = x->getValue(); } \
  void F_##t##_value(const F##t* x, S* r) { *r = xad::value(*x); } \
  S* F_##t##_valueref(F##t* x) { return &xad::value(*x); } \
  void F_##t##_getDerivative(const F##t* x, S* r) { *r = x->getDerivative(); } \
  void F_##t##_derivative(const F##t* x, S* r) { *r = xad::derivative(*x); } \
  S* F_##t##_derivativeref(F##t* x) { return &xad::derivative(*x); } \
  void F_##t##_setDerivative(F##t* x, const S* v) { x->setDerivative(*v); } \
  }
#define FS(t, S) extern "C" { \
  void F_##t##_muls(F##t* x, const S* o) { *x *= *o; } \
  void F_##t##_divs(F##t* x, const S* o) { *x /= *o; } \
  void F_##t##_addi(F##t* x, int o) { *x += o; } \
  void F_##t##_subi(F##t* x, int o) { *x -= o; } \
  void F_##t##_muli(F##t* x, int o) { *x *= o; } \
  void F_##t##_divi(F##t* x, int o) { *x /= o; } \
  void F_##t##_preinc(F##t* x) { ++*x; } \
  void F_##t##_predec(F##t* x) { --*x; } \
  void F_##t##_postinc(F##t* r, F##t* x) { new (r) F##t((*x)++); } \
  void F_##t##_postdec(F##t* r, F##t* x) { new (r) F##t((*x)--); } \
  }
FR(d, double, double) FR(f, float, float) FR(F, FD, double)
FS(d, double) FS(f, float)
'''

NSPECS = {}


def spec(name, *props, types='dfF', variants=(None,)):
    def deco(f):
        for v in variants:
            NSPECS[name if v is None else '%s [%s]' % (name, v)] = (props, types, f, v)
        return f
    return deco


class NB(AB):
    """adds operators of unknown class and forward variables"""

    def __init__(self, ex, st, t):
        AB.__init__(self, ex, st, t)
        self.use(self.op_contracts())
        self.active('this')

    def un(self, name, *vals, data=None):
        fs = self.T.fs
        args = [v[f] for v in vals for f in fs]
        return {f: z3.Function('%s_%d' % (name, f), BV32, *([self.rsort] * (len(args) + 1)))(OPID if data is None else data, *args) for f in fs}

    def op_contracts(self):
        T, el = self.T, ELEM[self.t][0]

        def c(nm):
            def f(ex, st, d, a, x):
                h = x[2][0] == 'void'
                b = a[1:] if h else a
                data = bvz(ex.load(st, b[0], I32), 32)
                vs = [{g: ex.zval(ex.load(st, ex.padd(p, g), el), el) for g in T.fs} for p in b[1:]]
                return self.ret(ex, st, a, x, self.un('%s%d' % (nm, len(vs)), *vs, data=data))
            return f
        p = r'^(?:\w+ )*[UB]Op<.*>::'
        out = [(p + r'operator\(\)\(', c('operator')), (p + r'derivative\(', c('partial')), (p + r'derivative_a\(', c('partial_a')), (p + r'derivative_b\(', c('partial_b'))]

        def ref(ex, st, q):
            o = ex.load(st, ex.padd(q, T.o('g_ref')), PTR)
            kind = bvz(ex.load(st, ex.padd(q, T.o('g_kind')), I32), 32)
            g = lambda of: {f: ex.zval(ex.load(st, ex.padd(o, of + f), el), el) for f in T.fs}
            return g(T.o('fr_a')), g(T.o('fr_der')), kind

        def fval(ex, st, d, a, x, der=False):
            va, vd, kind = ref(ex, st, a[1 if x[2][0] == 'void' else 0])
            return self.ret(ex, st, a, x, self.FT(va, vd, kind) if der else self.V(va, kind))
        out += [(r'^(?:\w+ )*AbsF<.*>::value\(\) const', fval), (r'^(?:\w+ )*AbsF<.*>::derivative\(\) const', lambda *z: fval(*z, der=True))]
        return out

    def FT(self, va, vd, kind):
        fs = self.T.fs
        return {f: z3.Function('tangent_%d' % f, BV32, *([self.rsort] * (2 * len(fs) + 1)))(kind, *([va[g] for g in fs] + [vd[g] for g in fs])) for f in fs}

    def fexpr(self, o, kind):
        reg = self.ex.new_region(self.st, 'fexpr', size=16)
        self.ex.store(self.st, Ptr(reg, self.T.o('g_ref')), o.ptr(), PTR)
        self.ex.store(self.st, Ptr(reg, self.T.o('g_kind')), kind, I32)
        return Ptr(reg, 0)


class FObj:
    def __init__(self, b, name, undef=False):
        ex, st, T = b.ex, b.st, b.T
        self.b, self.el = b, ELEM[b.t][0]
        self.reg = ex.new_region(st, name, size=T.o('fr_sizeof'), undef=undef)
        self.oa, self.od = T.o('fr_a'), T.o('fr_der')
        if undef:
            return
        self.a, self.d = {}, {}
        for f in T.fs:
            self.a[f], self.d[f] = [z3.Const('%s_%s%d' % (name, q, f), b.rsort) for q in 'ad']
            ex.store(st, Ptr(self.reg, self.oa + f), self.a[f], self.el)
            ex.store(st, Ptr(self.reg, self.od + f), self.d[f], self.el)

    def ptr(self):
        return Ptr(self.reg, 0)

    def get(self, s, of):
        return {f: self.b.ex.zval(self.b.ex.load(s, Ptr(self.reg, of + f), self.el), self.el) for f in self.b.T.fs}

    def goals(self, s, a, d, name='the variable'):
        ga, gd = self.get(s, self.oa), self.get(s, self.od)
        return [('%s has the value' % name, z3.And(*[ga[f] == a[f] for f in ga])), ('%s has the tangent' % name, z3.And(*[gd[f] == d[f] for f in gd]))]

    def same(self, s):
        return self.goals(s, self.a, self.d, 'the operand, unchanged,')


def eqd(b, x, y):
    return z3.And(*[x[f] == y[f] for f in b.T.fs])


# ---- nodes
def layout(b, s, parts):
    """parts: [(count, slot_k(j), factor_k(j))] appended one after the other"""
    T = b.T
    pos = T.size0('slot')
    g = []
    for n, sl, fac in parts:
        i = J - pos
        inr = z3.And(UE(pos, J), U(J, pos + n))
        w = fac(i)
        g.append(z3.Implies(inr, z3.And(T.sel(s, 'slot', J) == sl(i), *[T.sel(s, 'mult', J, f) == w[f] for f in T.fs])))
        pos = pos + n
    return z3.And(*g), pos


def node(P, K, member):
    def f(b, v):
        T = b.T
        y = Obj(b, 'y')
        objs, kinds = [y], [K0]
        es = [b.abs(y, K0)]
        if P == 'B':
            z = y if v == 'same variable' else Obj(b, 'z')
            objs.append(z)
            kinds.append(K1)
            es.append(b.abs(z, K1))
        marg, m = b.real(b.st, 'm')
        if 'calc1' in member:
            m = d_k(T.fs, 1)
        res, _ = b.real(b.st, 'res')
        T.snapshot(b.st)
        V = [b.V(o.a, k) for o, k in zip(objs, kinds)]
        val = b.un('operator%d' % len(V), *V)
        ext = [val] if K else []
        names = ['partial'] if P == 'U' else ['partial_a', 'partial_b']
        D = [b.un('%s%d' % (n, len(V) + len(ext)), *(V + ext)) for n in names]
        args = [x for x in es] + [OPID]
        if 'calc' in member:
            args = [T.ptr()] + args + ([] if 'calc1' in member else [marg])
        elif member not in ('should', 'bool'):
            args.append(res)

        def post(ex, k, s, r):
            if 'calc' not in member:
                g = T.frame(s) + [x for o in objs for x in o.same(s)]
            if member == 'should':
                return g + [('an expression is recorded if and only if an operand is', bz(r) == z3.Or(*[b.R(o.slot, q) for o, q in zip(objs, kinds)]))]
            if member == 'bool':
                return g + [('true if and only if the value is not zero', bz(r) == (val[0] != 0))]
            if member in ('value', 'getValue', 'copied'):
                return g + [('its value is that of the operator', eqd(b, b.realval(s, res), val))]
            if 'der' in member:
                t = [d_mul(d, b.V(o.a, q, 'tangent')) for d, o, q in zip(D, objs, kinds)]
                w = t[0] if P == 'U' else d_add(t[0], t[1])
                return g + [('its tangent is the sum of partial derivatives times tangents of the operands', eqd(b, b.realval(s, res), w))]
            g = T.frame(s, ['slot', 'mult']) + [('earlier operands are kept', z3.And(T.same_vec(s, 'slot', T.size0('slot')), T.same_vec(s, 'mult', T.size0('mult'))))]
            parts = [(b.N(o.slot, q), lambda i, o=o, q=q: b.S(i, o.slot, q), lambda i, o=o, q=q, d=d: b.M(i, o.slot, o.a, d_mul(m, d), q)) for o, q, d in zip(objs, kinds, D)]
            l1, n = layout(b, s, parts)
            l2, _ = layout(b, s, parts[::-1])
            return g + [('exactly the operands of the operands are appended', z3.And(T.size(s, 'slot') == n, T.size(s, 'mult') == n)),
                        ('every operand gets the factor handed in times the partial derivative', z3.Or(l1, l2) if P == 'B' else l1)]
        return Spec('@%s_%s%d_%s' % (P, b.t, K, member), args, post)
    return f


for _P in 'UB':
    for _K in (0, 1):
        for _m in ('calc', 'calcb', 'calc1', 'calc1d', 'value', 'getValue', 'copied', 'should', 'bool', 'der', 'derb'):
            spec('%s node (%s).%s' % ({'U': 'unary', 'B': 'binary'}[_P], ['derivative of operands', 'derivative of operands and result'][_K], _m), 'C04',
                 types='dfF' if _m != 'bool' else 'df', variants=(None,) if _P == 'U' else ('two variables', 'same variable'))(node(_P, _K, _m))


def leaf(member):
    def f(b, v):
        T = b.T
        x = Obj(b, 'x')
        marg, m = b.real(b.st, 'm')
        res, _ = b.real(b.st, 'res')
        T.snapshot(b.st)
        if 'calc1' in member:
            m = d_k(T.fs, 1)
        args = [x.ptr()]
        if 'calc' in member:
            args = [T.ptr(), x.ptr()] + ([] if 'calc1' in member else [marg])
        elif 'should' not in member:
            args.append(res)

        def post(ex, k, s, r):
            if 'calc' not in member:
                g = T.frame(s) + x.same(s)
                if 'should' in member:
                    return g + [('a variable is recorded if and only if it is registered', bz(r) == x.on)]
                return g + [('its value', eqd(b, b.realval(s, res), x.a))]
            n0 = T.size0('slot')
            n = z3.If(x.on, n0 + 1, n0)
            return T.frame(s, ['slot', 'mult']) + [('earlier operands are kept', z3.And(T.same_vec(s, 'slot', n0), T.same_vec(s, 'mult', n0))),
                ('one operand if registered, none otherwise', z3.And(T.size(s, 'slot') == n, T.size(s, 'mult') == n)),
                ('its slot and the factor handed in', z3.Implies(x.on, z3.And(T.sel(s, 'slot', n0) == x.slot, *[T.sel(s, 'mult', n0, f) == m[f] for f in T.fs])))]
        return Spec('@L_%s_%s' % (b.t, member), args, post)
    return f


for _m in ('calc', 'calcb', 'calc1', 'acalc', 'acalcb', 'acalc1', 'value', 'getValue', 'should', 'ashould'):
    spec('leaf.%s' % _m, 'C04')(leaf(_m))


# ---- forward variables
def fwd(name, *props, types='dfF', variants=(None,)):
    def deco(f):
        def g(b, v):
            args, post = f(b, v)
            b.T.snapshot(b.st)
            return Spec('@F_%s_%s' % (b.t, name), args, lambda ex, k, s, r: b.T.frame(s) + post(s, r))
        spec('FReal.' + name, *(props or ('C04',)), types=types, variants=variants)(g)
        return f
    return deco


def nested(b, n):
    return z3.Const(n, b.ex.dom.sort_of(FLOAT if b.t == 'f' else DOUBLE))


@fwd('default')
def f_default(b, v):
    r = FObj(b, 'r', True)
    return [r.ptr()], lambda s, q: r.goals(s, ZERO, ZERO)


@fwd('fromvalue')
def f_fromvalue(b, v):
    r, c = FObj(b, 'r', True), nested(b, 'c')
    return [r.ptr(), c], lambda s, q: r.goals(s, d_k(b.T.fs, c), ZERO)


@fwd('fromvaluedir')
def f_fromvaluedir(b, v):
    r, c, e = FObj(b, 'r', True), nested(b, 'c'), nested(b, 'e')
    return [r.ptr(), c, e], lambda s, q: r.goals(s, d_k(b.T.fs, c), d_k(b.T.fs, e))


def fcopy(name, into):
    @fwd(name)
    def f(b, v):
        r, x = FObj(b, 'r', into), FObj(b, 'x')
        return [r.ptr(), x.ptr()], lambda s, q: r.goals(s, x.a, x.d) + ([] if name.startswith('m') else x.same(s))


for _n, _i in (('copy', True), ('move', True), ('assign', False), ('massign', False)):
    fcopy(_n, _i)


def fexpr(name, into):
    @fwd(name)
    def f(b, v):
        r, x = FObj(b, 'r', into), FObj(b, 'x')
        return [r.ptr(), b.fexpr(x, K0)], lambda s, q: r.goals(s, b.V(x.a, K0), b.FT(x.a, x.d, K0)) + x.same(s)


fexpr('expr', True)
fexpr('eassign', False)


@fwd('nassign')
def f_nassign(b, v):
    x, c = FObj(b, 'x'), nested(b, 'c')
    return [x.ptr(), c], lambda s, q: x.goals(s, d_k(b.T.fs, c), ZERO)


def dual(op, b, xa, xd, ya, yd):
    """value and tangent of the compound result"""
    val, fac = BIN[op]
    fx, fy = fac(xa, ya, b.T.fs)
    return val(xa, ya), d_add(d_mul(fx, xd), d_mul(fy, yd))


def fcomp(op, kind):
    types = 'dfF' if kind in 'ea' or (kind == 's' and op in ('add', 'sub')) else 'df'

    @fwd(op + kind, types=types, variants=(None, 'self') if kind == 'a' else (None,))
    def f(b, v):
        x = FObj(b, 'x')
        if kind == 'e':
            y = FObj(b, 'y')
            ya, yd, arg = b.V(y.a, K0), b.FT(y.a, y.d, K0), b.fexpr(y, K0)
        elif kind == 'a':
            y = x if v else FObj(b, 'y')
            ya, yd, arg = y.a, y.d, y.ptr()
        elif kind == 's':
            y = None
            arg, ya = b.real(b.st, 'c')
            yd = d_k(b.T.fs, 0)
        else:
            y = None
            arg = z3.BitVec('i', 32)
            ya, yd = d_k(b.T.fs, b.ex.dom.from_int(arg, 32, True)), d_k(b.T.fs, 0)
        if op == 'div':
            b.st.assume(ya[0] != 0)
        wv, wd = dual(op, b, x.a, x.d, ya, yd)
        return [x.ptr(), arg], lambda s, q: x.goals(s, wv, wd) + (y.same(s) if y is not None and y is not x else [])


for _op in BIN:
    for _k in 'easi':
        fcomp(_op, _k)


def finc(name, sign, post):
    @fwd(name, types='df')
    def f(b, v):
        x = FObj(b, 'x')
        r = FObj(b, 'r', True) if post else None
        return ([r.ptr()] if post else []) + [x.ptr()], lambda s, q: x.goals(s, d_add(x.a, d_k(b.T.fs, sign)), x.d) + (r.goals(s, x.a, x.d, 'the result') if post else [])


for _n, _s, _p in (('preinc', 1, False), ('predec', -1, False), ('postinc', 1, True), ('postdec', -1, True)):
    finc(_n, _s, _p)


def fread(name, der, ref=False):
    @fwd(name, 'C04', 'C21')
    def f(b, v):
        x = FObj(b, 'x')
        res, _ = b.real(b.st, 'res')
        of = x.od if der else x.oa
        if ref:
            return [x.ptr()], lambda s, q: x.same(s) + [('refers to the stored number', z3.BoolVal(isinstance(q, Ptr) and q.reg is x.reg and q.off == of))]
        return [x.ptr(), res], lambda s, q: x.same(s) + [('what it reads', eqd(b, b.realval(s, res), x.d if der else x.a))]


for _n, _d, _r in (('getValue', False, False), ('value', False, False), ('valueref', False, True), ('getDerivative', True, False), ('derivative', True, False), ('derivativeref', True, True)):
    fread(_n, _d, _r)


@fwd('setDerivative', 'C04', 'C21')
def f_setder(b, v):
    x = FObj(b, 'x')
    arg, nv = b.real(b.st, 'nv')
    return [x.ptr(), arg], lambda s, q: x.goals(s, x.a, nv)


def task(ctx, mod, name, t):
    from .contracts import verify
    props, types, f, v = NSPECS[name]

    def make(ex, st):
        ex.vc_timeout = 10000
        return f(NB(ex, st, t), v)
    verify(ctx, '%s %s' % (NAME[t], name), mod, make, CONTRACTS, timeout=15000, budget=120)


def module(scr, defs=()):
    p = scr.write('nodedrv.cpp', tapefn.LAYOUT_SRC + SRC)
    return ir.load(scr.ll(p, 'nodedrv%d.ll' % len(defs), defs=defs, extra=['-fno-discard-value-names']))


def setup(chk, pid):
    mod = module(chk.scratch)
    for n, (props, types, f, v) in NSPECS.items():
        if pid in props:
            for t in types:
                chk.task('%s %s' % (n, t), task, mod, n, t)
