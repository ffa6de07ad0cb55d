"""Contracts of the members of AReal (C06, C12, C19): which statement each one records, for an arbitrary tape, any mix of
registered and unregistered operands, any values, and expressions of unknown class (any number of operands, possibly
containing the variable that is assigned)."""
import z3
from . import ir, sym
from .sym import *
from .ir import DOUBLE, FLOAT, PTR
from .contracts import Spec
from .tapemodel import vget, vset
from .tapemodel2 import *
from . import tapefn
from .tapefn import B, LIVE, J, J32, thrown, zx, INVALID, CONTRACTS, ELEM, NAME

SRC = r'''
#include <new>
template <class S> struct Abs : xad::Expression<S, Abs<S> > {
  const xad::AReal<S>* ref;
  int kind;
  S value() const;
  bool shouldRecord() const;
  void calc_derivatives(xad::Tape<S>& t, const S& m) const;
  S derivative() const;
};
namespace xad {
template <class S> struct ExprTraits<Abs<S> > : ExprTraits<BinaryExpr<S, add_op<S>, ADVar<S>, ADVar<S> > > {};
}
#define AR(t, S, N) \
  typedef xad::AReal<S> A##t; \
  typedef Abs<S> E##t; \
  extern "C" { \
  extern const unsigned long OFF_##t##_ar_sizeof = sizeof(A##t); \
  extern const unsigned long OFF_##t##_ar_a = __builtin_offsetof(A##t, a_); \
  extern const unsigned long OFF_##t##_ar_slot = __builtin_offsetof(A##t, slot_); \
  extern const unsigned long OFF_##t##_e_ref = __builtin_offsetof(E##t, ref); \
  extern const unsigned long OFF_##t##_e_kind = __builtin_offsetof(E##t, kind); \
  void A_##t##_default(A##t* r) { new (r) A##t(); } \
  void A_##t##_fromnested(A##t* r, N v) { new (r) A##t(v); } \
  void A_##t##_fromint(A##t* r, int v) { new (r) A##t(v); } \
  void A_##t##_copy(A##t* r, const A##t* o) { new (r) A##t(*o); } \
  void A_##t##_move(A##t* r, A##t* o) { new (r) A##t(std::move(*o)); } \
  void A_##t##_expr(A##t* r, const E##t* e) { new (r) A##t(*e); } \
  void A_##t##_dtor(A##t* x) { x->~A##t(); } \
  void A_##t##_assign(A##t* x, const A##t* o) { *x = *o; } \
  void A_##t##_massign(A##t* x, A##t* o) { *x = std::move(*o); } \
  void A_##t##_eassign(A##t* x, const E##t* e) { *x = *e; } \
  void A_##t##_nassign(A##t* x, N v) { *x = v; } \
  void A_##t##_adds(A##t* x, const S* v) { *x += *v; } \
  void A_##t##_subs(A##t* x, const S* v) { *x -= *v; } \
  void A_##t##_adda(A##t* x, const A##t* v) { *x += *v; } \
  void A_##t##_suba(A##t* x, const A##t* v) { *x -= *v; } \
  void A_##t##_mula(A##t* x, const A##t* v) { *x *= *v; } \
  void A_##t##_diva(A##t* x, const A##t* v) { *x /= *v; } \
  void A_##t##_adde(A##t* x, const E##t* v) { *x += *v; } \
  void A_##t##_sube(A##t* x, const E##t* v) { *x -= *v; } \
  void A_##t##_mule(A##t* x, const E##t* v) { *x *= *v; } \
  void A_##t##_dive(A##t* x, const E##t* v) { *x /= *v; } \
  void A_##t##_getValue(const A##t* x, S* r) { *r = x->getValue(); } \
  void A_##t##_value(const A##t* x, S* r) { *r = value(*x); } \
  S* A_##t##_valueref(A##t* x) { return &value(*x); } \
  unsigned A_##t##_getSlot(const A##t* x) { return x->getSlot(); } \
  bool A_##t##_shouldRecord(const A##t* x) { return x->shouldRecord(); } \
  void* A_##t##_getTape(const A##t* x) { return x->getTape(); } \
  S* A_##t##_derivative(A##t* x) { return &derivative(*x); } \
  void A_##t##_cderivative(const A##t* x, S* r) { *r = derivative(*x); } \
  void A_##t##_getDerivative(const A##t* x, S* r) { *r = x->getDerivative(); } \
  void A_##t##_getAdjoint(const A##t* x, S* r) { *r = x->getAdjoint(); } \
  void A_##t##_setDerivative(A##t* x, const S* v) { x->setDerivative(*v); } \
  void A_##t##_setAdjoint(A##t* x, const S* v) { x->setAdjoint(*v); } \
  void A_##t##_regIn(xad::Tape<S>* t, A##t* x) { t->registerInput(*x); } \
  void A_##t##_regOut(xad::Tape<S>* t, A##t* x) { t->registerOutput(*x); } \
  void A_##t##_pushAll(xad::Tape<S>* t, unsigned l, S* m, unsigned* s, unsigned n) { t->pushAll(l, m, s, n); } \
  }
#define AS(t, S) extern "C" { \
  void A_##t##_muls(A##t* x, const S* v) { *x *= *v; } \
  void A_##t##_divs(A##t* x, const S* v) { *x /= *v; } \
  void A_##t##_addi(A##t* x, int v) { *x += v; } \
  void A_##t##_subi(A##t* x, int v) { *x -= v; } \
  void A_##t##_muli(A##t* x, int v) { *x *= v; } \
  void A_##t##_divi(A##t* x, int v) { *x /= v; } \
  void A_##t##_preinc(A##t* x) { ++*x; } \
  void A_##t##_predec(A##t* x) { --*x; } \
  void A_##t##_postinc(A##t* r, A##t* x) { new (r) A##t((*x)++); } \
  void A_##t##_postdec(A##t* r, A##t* x) { new (r) A##t((*x)--); } \
  }
AR(d, double, double) AR(f, float, float) AR(F, FD, double)
AS(d, double) AS(f, float)
'''
BV32 = z3.BitVecSort(32)
K0 = z3.BitVec('kind0', 32)
ONE = {0: z3.RealVal(1), 8: z3.RealVal(0)}
ZERO = {0: z3.RealVal(0), 8: z3.RealVal(0)}


# dual numbers by field (element types with one field: only field 0)
def d_add(a, b):
    return {f: a[f] + b[f] for f in a}


def d_neg(a):
    return {f: -a[f] for f in a}


def d_mul(a, b):
    return {f: a[0] * b[0] if f == 0 else a[0] * b[8] + a[8] * b[0] for f in a}


def d_inv(a):
    return {f: 1 / a[0] if f == 0 else -a[8] / (a[0] * a[0]) for f in a}


def d_k(fs, v):
    return {f: (v if z3.is_expr(v) else z3.RealVal(v)) if f == 0 else z3.RealVal(0) for f in fs}


class Obj:
    """an AReal object: value fields and slot; registered or not"""

    def __init__(self, b, name, undef=False, registered=None):
        ex, st, T = b.ex, b.st, b.T
        self.b = b
        self.reg = ex.new_region(st, name, size=T.o('ar_sizeof'), undef=undef)
        self.el = ELEM[b.t][0]
        self.oa, self.os = T.o('ar_a'), T.o('ar_slot')
        if undef:
            return
        self.a = {}
        for f in T.fs:
            self.a[f] = z3.Const('%s_%d' % (name, f), ex.dom.sort_of(self.el))
            ex.store(st, Ptr(self.reg, self.oa + f), self.a[f], self.el)
        self.slot = z3.BitVec(name + '_slot', 32)
        ex.store(st, Ptr(self.reg, self.os), self.slot, I32)
        self.on = self.slot != INVALID
        # a registered variable: its slot is live and in use on the active tape
        st.assume(z3.Implies(self.on, z3.And(LIVE(self.slot), U(self.slot, T.r0('ider')))))

    def ptr(self):
        return Ptr(self.reg, 0)

    def aof(self, s):
        return {f: self.b.ex.zval(self.b.ex.load(s, Ptr(self.reg, self.oa + f), self.el), self.el) for f in self.b.T.fs}

    def slotof(self, s):
        return bvz(self.b.ex.load(s, Ptr(self.reg, self.os), I32), 32)

    def same(self, s, name='the operand'):
        a = self.aof(s)
        return [('%s keeps its value and slot' % name, z3.And(self.slotof(s) == self.slot, *[a[f] == self.a[f] for f in a]))]


class AB(B):
    def __init__(self, ex, st, t):
        B.__init__(self, ex, st, t)
        self.rsort = ex.dom.sort_of(ELEM[t][0])
        self.ghost = ex.new_region(st, 'released', size=16)
        ex.store(st, Ptr(self.ghost, 0), 0, I32)
        ex.store(st, Ptr(self.ghost, 8), 0, I32)
        self.use(self.abs_contracts() + [(r'^xad::Tape<.*>::unregisterVariable\(', self.c_unreg)])
        tapefn.live_inv(self, J32, self.T.r0('ider'), self.T.r0('maxd'))

    def fn(self, n):
        return '@A_%s_%s' % (self.t, n)

    def go(self, which):
        """the active tape; without one, nothing is registered"""
        self.active(which)

    def unregistered_if_none(self, which, *objs):
        if which == 'none':
            for o in objs:
                self.st.assume(z3.Not(o.on))

    def c_unreg(self, ex, st, d, a, x):
        ok = isinstance(a[0], Ptr) and a[0].reg is self.T.reg
        ex.oblige(st, z3.BoolVal(ok), 'a slot is released on the active tape')
        ex.store(st, Ptr(self.ghost, 0), ibin('add', 32, ex.load(st, Ptr(self.ghost, 0), I32), 1), I32)
        ex.store(st, Ptr(self.ghost, 8), a[1], I32)
        return None

    def released(self, s):
        return bvz(self.ex.load(s, Ptr(self.ghost, 0), I32), 32), bvz(self.ex.load(s, Ptr(self.ghost, 8), I32), 32)

    # ---- expressions of unknown class over one variable `ref`; `kind` stands for the class and its other data
    def abs(self, obj, kind=None):
        reg = self.ex.new_region(self.st, 'expr', size=16)
        kind = K0 if kind is None else kind
        self.ex.store(self.st, Ptr(reg, self.T.o('e_ref')), obj.ptr(), PTR)
        self.ex.store(self.st, Ptr(reg, self.T.o('e_kind')), kind, I32)
        self.st.assume(z3.Implies(z3.Not(self.R(obj.slot, kind)), self.N(obj.slot, kind) == 0))
        self.st.assume(U(self.N(obj.slot, kind), 1 << 31))
        return Ptr(reg, 0)

    def R(self, slot, kind=None):
        return z3.Function('records', BV32, BV32, z3.BoolSort())(K0 if kind is None else kind, slot)

    def N(self, slot, kind=None):
        return z3.Function('operands', BV32, BV32, BV)(K0 if kind is None else kind, slot)

    def V(self, a, kind=None, name='value'):
        fs = self.T.fs
        return {f: z3.Function('%s_%d' % (name, f), BV32, *([self.rsort] * (len(fs) + 1)))(K0 if kind is None else kind, *[a[g] for g in fs]) for f in fs}

    def M(self, k, slot, a, m, kind=None):
        """factor of the k-th operand: partial derivative times the factor handed in"""
        fs = self.T.fs
        return {f: z3.Function('factor_%d' % f, BV32, BV, BV32, *([self.rsort] * (2 * len(fs) + 1)))(K0 if kind is None else kind, k, slot, *([a[g] for g in fs] + [m[g] for g in fs])) for f in fs}

    def S(self, k, slot, kind=None):
        return z3.Function('operand_slot', BV32, BV, BV32, BV32)(K0 if kind is None else kind, k, slot)

    def ret(self, ex, st, a, x, v):
        """return an element value, directly or through the hidden result pointer; -> the other arguments"""
        if x[2][0] == 'void':
            for f in self.T.fs:
                ex.store(st, ex.padd(a[0], f), v[f], ELEM[self.t][0])
            return None
        return v[0] if len(self.T.fs) == 1 else tuple(v[f] for f in self.T.fs)

    def abs_contracts(self):
        T, el = self.T, ELEM[self.t][0]

        def ref(ex, st, p):
            q = ex.load(st, ex.padd(p, T.o('e_ref')), PTR)
            kind = bvz(ex.load(st, ex.padd(p, T.o('e_kind')), I32), 32)
            a = {f: ex.zval(ex.load(st, ex.padd(q, T.o('ar_a') + f), el), el) for f in T.fs}
            return a, bvz(ex.load(st, ex.padd(q, T.o('ar_slot')), I32), 32), kind

        def value(ex, st, d, a, x, name='value'):
            va, _, kind = ref(ex, st, a[1 if x[2][0] == 'void' else 0])
            return self.ret(ex, st, a, x, self.V(va, kind, name))

        def should(ex, st, d, a, x):
            _, slot, kind = ref(ex, st, a[0])
            return simp(self.R(slot, kind))

        def calc(ex, st, d, a, x):
            va, slot, kind = ref(ex, st, a[0])
            ok = isinstance(a[1], Ptr) and a[1].reg is T.reg and a[1].off == 0
            ex.oblige(st, z3.BoolVal(bool(ok)), 'operands are recorded on the active tape')
            m = {f: ex.zval(ex.load(st, ex.padd(a[2], f), el), el) for f in T.fs}
            n = self.N(slot, kind)
            for f in T.fs:
                v = T.vec(st, 'mult')
                ex.setarr(st, v.reg, f, AGen(st.mem[v.reg][f], v.size, simp(bv(v.size) + n), lambda i, f=f, b0=v.size: self.M(simp(bvz(i, 64) - bv(b0)), slot, va, m, kind)[f]))
            v = T.vec(st, 'slot')
            ex.setarr(st, v.reg, 0, AGen(st.mem[v.reg][0], v.size, simp(bv(v.size) + n), lambda i, b0=v.size: self.S(simp(bvz(i, 64) - bv(b0)), slot, kind)))
            for g in ('mult', 'slot'):
                v = T.vec(st, g)
                vset(ex, st, Ptr(T.reg, T.o(g)), VecVal(v.reg, simp(bv(v.size) + n)))
            return None
        return [(r'^(?:\w+ )*Abs<.*>::value\(\) const', value), (r'^(?:\w+ )*Abs<.*>::derivative\(\) const', lambda *z: value(*z, name='tangent')),
                (r'^Abs<.*>::shouldRecord\(\) const', should), (r'^(?:void )?Abs<.*>::calc_derivatives', calc)]

    # ---- goals
    def kept(self, s, registers=None, but=()):
        """everything but the recording is unchanged; registers: condition under which one new variable is registered"""
        T = self.T
        g = T.frame(s, ['mult', 'slot', 'stmt', 'rec.num', 'rec.ider', 'rec.maxd'] + list(but))
        reg = z3.BoolVal(False) if registers is None else registers
        g += [('earlier statements are kept', T.same_vec(s, 'stmt', T.size0('stmt'))),
              ('earlier operands are kept', z3.And(T.same_vec(s, 'slot', T.size0('slot')), T.same_vec(s, 'mult', T.size0('mult')))),
              ('a variable is registered exactly if one has to be', z3.And(T.r(s, 'num') == z3.If(reg, T.r0('num') + 1, T.r0('num')), z3.Implies(z3.Not(reg), T.same_rec(s)))),
              ('nothing is released', self.released(s)[0] == 0)]
        return g

    def fresh_slot(self, s, slot, cond):
        return ('a newly registered variable gets a slot of its own', z3.Implies(cond, z3.And(slot != INVALID, z3.Not(LIVE(slot)), UE(self.T.r0('first'), slot), U(slot, self.T.r(s, 'maxd')))))

    def statements(self, s, cond, exp):
        """exactly the statements exp = [(target, [(condition, slot, factor)])] are appended if cond, none otherwise"""
        from .tapemodel import nstatements
        T = self.T
        try:
            got = nstatements(self.ex, s, T, T.fs)
        except Undecided as e:
            if 'dangling' in str(e) or 'out of step' in str(e):
                return [('every operand belongs to a statement', z3.BoolVal(False))]
            raise
        g = [('exactly the statements asked for are recorded', cond if got else z3.Not(cond))]
        if not got:
            return g
        g.append(('the number of statements', z3.BoolVal(len(got) == len(exp))))
        for (tgt, ops), (et, eops) in zip(got, exp):
            g.append(('the target of the statement is the variable', bvz(tgt, 32) == et))
            g.append(('operands are registered variables', z3.And(*[bvz(sl, 32) != INVALID for _, sl in ops])))
            for i, f in enumerate(T.fs):
                lhs = z3.Sum(*([z3.If(bvz(sl, 32) == J32, self.ex.zval(m[i]), z3.RealVal(0)) for m, sl in ops] + [z3.RealVal(0)]))
                rhs = z3.Sum(*([z3.If(z3.And(c, sl == J32), m[f], z3.RealVal(0)) for c, sl, m in eops] + [z3.RealVal(0)]))
                g.append(('factors of the operands', z3.Implies(J32 != INVALID, lhs == rhs)))
            g.append(('no operand is recorded that is not registered', z3.Implies(z3.And(*[z3.Not(c) for c, _, _ in eops]), z3.BoolVal(not ops))))
        return g

    def abs_statement(self, s, cond, target, slot, a, m=None):
        """the statement of an expression of unknown class"""
        T = self.T
        n, n0 = T.size0('stmt'), T.size0('slot')
        N = self.N(slot)
        k = J - n0
        m = m or {f: ONE[f] for f in T.fs}
        want = self.M(k, slot, a, m)
        inr = z3.And(cond, UE(n0, J), U(J, n0 + N))
        return [('exactly the statement asked for is recorded', T.size(s, 'stmt') == z3.If(cond, n + 1, n)),
                ('its target is the variable', z3.Implies(cond, T.sel(s, 'stmt', n, 4) == target)),
                ('its operands are those of the expression', z3.And(T.size(s, 'slot') == z3.If(cond, n0 + N, n0), T.size(s, 'mult') == z3.If(cond, n0 + N, n0), z3.Implies(inr, T.sel(s, 'slot', J) == self.S(k, slot)))),
                ('its factors are those of the expression', z3.Implies(inr, z3.And(*[T.sel(s, 'mult', J, f) == want[f] for f in T.fs]))),
                ('its end is the number of operands', z3.Implies(cond, zx(T.sel(s, 'stmt', n, 0)) == T.size(s, 'slot')))]

    def val_goal(self, s, o, want, name='the variable'):
        a = o.aof(s)
        return ('%s gets the value' % name, z3.And(*[a[f] == want[f] for f in self.T.fs]))


ASPECS = {}
ACT = ('active', 'no active tape')


def spec(name, *props, types='dfF', variants=ACT):
    def deco(f):
        for v in variants:
            ASPECS[name if v is None else '%s [%s]' % (name, v)] = (props, types, f, v)
        return f
    return deco


def which(v):
    return 'none' if 'no active' in v else 'this'


def begin(b, v, *objs):
    w = which(v)
    b.unregistered_if_none(w, *objs)
    b.active(w)


def simple(name, args, post, kinds=('ret',)):
    return Spec(name, args, post, kinds=kinds)


@spec('AReal()', 'C06')
def s_default(b, v):
    r = Obj(b, 'r', True)
    begin(b, v)
    return simple(b.fn('default'), [r.ptr()], lambda ex, k, s, x: b.kept(s) + b.statements(s, z3.BoolVal(False), []) + [('zero, not registered', r.slotof(s) == INVALID), b.val_goal(s, r, ZERO)])


@spec('AReal(value)', 'C06')
def s_nested(b, v):
    r = Obj(b, 'r', True)
    begin(b, v)
    nt = FLOAT if b.t == 'f' else DOUBLE
    c = z3.Const('c', b.ex.dom.sort_of(nt))
    return simple(b.fn('fromnested'), [r.ptr(), c], lambda ex, k, s, x: b.kept(s) + b.statements(s, z3.BoolVal(False), []) + [('not registered', r.slotof(s) == INVALID), b.val_goal(s, r, d_k(b.T.fs, c))])


@spec('AReal(AReal const&)', 'C06')
def s_copy(b, v):
    r, o = Obj(b, 'r', True), Obj(b, 'o')
    begin(b, v, o)
    return simple(b.fn('copy'), [r.ptr(), o.ptr()], lambda ex, k, s, x: b.kept(s, o.on) + o.same(s) + b.statements(s, o.on, [(r.slotof(s), [(o.on, o.slot, ONE)])]) +
                  [b.fresh_slot(s, r.slotof(s), o.on), ('not registered otherwise', z3.Implies(z3.Not(o.on), r.slotof(s) == INVALID)), b.val_goal(s, r, o.a)])


@spec('AReal(AReal&&)', 'C06')
def s_move(b, v):
    r, o = Obj(b, 'r', True), Obj(b, 'o')
    begin(b, v, o)
    return simple(b.fn('move'), [r.ptr(), o.ptr()], lambda ex, k, s, x: b.kept(s) + b.statements(s, z3.BoolVal(False), []) +
                  [('identity is transferred', z3.And(r.slotof(s) == o.slot, o.slotof(s) == INVALID)), b.val_goal(s, r, o.a)])


@spec('AReal(expression)', 'C06', 'C04')
def s_expr(b, v):
    r, y = Obj(b, 'r', True), Obj(b, 'y')
    e = b.abs(y)
    begin(b, v, y)
    R = b.R(y.slot)
    if which(v) == 'none':
        b.st.assume(z3.Not(R))
    return simple(b.fn('expr'), [r.ptr(), e], lambda ex, k, s, x: b.kept(s, R) + y.same(s) + b.abs_statement(s, R, r.slotof(s), y.slot, y.a) +
                  [b.fresh_slot(s, r.slotof(s), R), ('not registered otherwise', z3.Implies(z3.Not(R), r.slotof(s) == INVALID)), b.val_goal(s, r, b.V(y.a))])


@spec('~AReal', 'C06', 'C09', variants=('active', 'no active tape', 'registered, no active tape'))
def s_dtor(b, v):
    o = Obj(b, 'o')
    if v.startswith('registered'):
        b.active('none')
    else:
        begin(b, v, o)

    def post(ex, k, s, x):
        n, sl = b.released(s)
        rel = z3.And(o.on, z3.BoolVal(v == 'active'))
        return b.T.frame(s) + [('its slot is released exactly once, if it has one on the active tape', n == z3.If(rel, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))), ('the slot released is its own', z3.Implies(rel, sl == o.slot))]
    return simple(b.fn('dtor'), [o.ptr()], post)


def target_goals(b, s, x, cond, others=()):
    """slot of the assigned variable: kept if registered, new if recorded, none otherwise"""
    new = z3.And(cond, z3.Not(x.on))
    return [('a registered variable keeps its slot', z3.Implies(x.on, x.slotof(s) == x.slot)), b.fresh_slot(s, x.slotof(s), new),
            ('an unregistered variable stays so unless it is recorded', z3.Implies(z3.And(z3.Not(x.on), z3.Not(cond)), x.slotof(s) == INVALID))]


@spec('operator=(AReal const&)', 'C06', variants=('active', 'no active tape', 'active, self', 'no active tape, self'))
def s_assign(b, v):
    x = Obj(b, 'x')
    o = x if 'self' in v else Obj(b, 'o')
    begin(b, v, x, o)
    cond = z3.Or(x.on, o.on)

    def post(ex, k, s, r):
        return b.kept(s, z3.And(cond, z3.Not(x.on))) + (o.same(s) if o is not x else []) + b.statements(s, cond, [(x.slotof(s), [(o.on, o.slot, ONE)])]) + target_goals(b, s, x, cond) + [b.val_goal(s, x, o.a)]
    return simple(b.fn('assign'), [x.ptr(), o.ptr()], post)


@spec('operator=(AReal&&)', 'C06', variants=('active', 'no active tape', 'active, self', 'no active tape, self'))
def s_massign(b, v):
    x = Obj(b, 'x')
    o = x if 'self' in v else Obj(b, 'o')
    begin(b, v, x, o)

    def post(ex, k, s, r):
        g = b.kept(s) + b.statements(s, z3.BoolVal(False), []) + [('identity is transferred', x.slotof(s) == o.slot), b.val_goal(s, x, o.a)]
        if o is not x:
            g.append(('the slot it had is left to be released', o.slotof(s) == x.slot))
        return g
    return simple(b.fn('massign'), [x.ptr(), o.ptr()], post)


@spec('operator=(expression)', 'C06', 'C04', variants=('active', 'no active tape', 'active, containing the variable', 'no active tape, containing the variable'))
def s_eassign(b, v):
    x = Obj(b, 'x')
    y = x if 'containing' in v else Obj(b, 'y')
    e = b.abs(y)
    begin(b, v, x, y)
    R = b.R(y.slot)
    if which(v) == 'none':
        b.st.assume(z3.Not(R))
    cond = z3.Or(R, x.on)
    return simple(b.fn('eassign'), [x.ptr(), e], lambda ex, k, s, r: b.kept(s, z3.And(cond, z3.Not(x.on))) + (y.same(s) if y is not x else []) + b.abs_statement(s, cond, x.slotof(s), y.slot, y.a) +
                  target_goals(b, s, x, cond) + [b.val_goal(s, x, b.V(y.a))])


@spec('operator=(value)', 'C06')
def s_nassign(b, v):
    x = Obj(b, 'x')
    begin(b, v, x)
    nt = FLOAT if b.t == 'f' else DOUBLE
    c = z3.Const('c', b.ex.dom.sort_of(nt))
    return simple(b.fn('nassign'), [x.ptr(), c], lambda ex, k, s, r: b.kept(s) + b.statements(s, x.on, [(x.slotof(s), [])]) + target_goals(b, s, x, x.on) + [b.val_goal(s, x, d_k(b.T.fs, c))])


BIN = {'add': (lambda x, y: d_add(x, y), lambda x, y, fs: (d_k(fs, 1), d_k(fs, 1))),
       'sub': (lambda x, y: d_add(x, d_neg(y)), lambda x, y, fs: (d_k(fs, 1), d_k(fs, -1))),
       'mul': (lambda x, y: d_mul(x, y), lambda x, y, fs: (y, x)),
       'div': (lambda x, y: d_mul(x, d_inv(y)), lambda x, y, fs: (d_inv(y), d_neg(d_mul(x, d_inv(d_mul(y, y))))))}


def scalar_op(op, integer):
    def f(b, v):
        x = Obj(b, 'x')
        T = b.T
        begin(b, v, x)
        if integer:
            i = z3.BitVec('i', 32)
            y, arg = d_k(T.fs, b.ex.dom.from_int(i, 32, True)), i
        else:
            arg, y = b.real(b.st, 'c')
            T.snapshot(b.st)
        val, fac = BIN[op]
        if op == 'div':
            b.st.assume(y[0] != 0)
        want = val(x.a, y)

        def post(ex, k, s, r):
            # adding a constant may be recorded as an identity statement or not at all
            g = [b.val_goal(s, x, want)] + target_goals(b, s, x, x.on) + b.kept(s)
            fx = fac(x.a, y, T.fs)[0]
            if op in ('add', 'sub') and simp(b.T.size(s, 'stmt') - b.T.size0('stmt')).eq(bv(0)):
                return g + [('nothing is recorded', z3.And(T.size(s, 'stmt') == T.size0('stmt'), T.size(s, 'slot') == T.size0('slot'), T.size(s, 'mult') == T.size0('mult')))]
            return g + b.statements(s, x.on, [(x.slotof(s), [(x.on, x.slot, fx)])])
        return simple(b.fn(op + ('i' if integer else 's')), [x.ptr(), arg], post)
    return f


def active_op(op):
    def f(b, v):
        x = Obj(b, 'x')
        y = x if 'self' in v else Obj(b, 'y')
        T = b.T
        begin(b, v, x, y)
        val, fac = BIN[op]
        if op == 'div':
            b.st.assume(y.a[0] != 0)
        cond = z3.Or(x.on, y.on)

        def post(ex, k, s, r):
            fx, fy = fac(x.a, y.a, T.fs)
            return [b.val_goal(s, x, val(x.a, y.a))] + target_goals(b, s, x, cond) + b.kept(s, z3.And(cond, z3.Not(x.on))) + (y.same(s) if y is not x else []) + \
                b.statements(s, cond, [(x.slotof(s), [(x.on, x.slot, fx), (y.on, y.slot, fy)])])
        return simple(b.fn(op + 'a'), [x.ptr(), y.ptr()], post)
    return f


def expr_op(op):
    """compound assignment of an expression of unknown class: one statement, operands of the variable and of the expression"""
    def f(b, v):
        x = Obj(b, 'x')
        y = x if 'containing' in v else Obj(b, 'y')
        T = b.T
        e = b.abs(y)
        begin(b, v, x, y)
        R = b.R(y.slot)
        if which(v) == 'none':
            b.st.assume(z3.Not(R))
        val, fac = BIN[op]
        V = b.V(y.a)
        if op == 'div':
            b.st.assume(V[0] != 0)
        cond = z3.Or(x.on, R)

        def post(ex, k, s, r):
            fx, fy = fac(x.a, V, T.fs)
            n, n0, N = T.size0('stmt'), T.size0('slot'), b.N(y.slot)
            one = z3.If(x.on, bv(1), bv(0))
            # operands: that of the variable first or last, those of the expression in their order
            def lay(first):
                kx, ke = (n0, n0 + one) if first else (n0 + N, n0)
                want = b.M(J - ke, y.slot, y.a, b.tomul(s, fy, J))
                gx = z3.Implies(z3.And(cond, x.on), z3.And(T.sel(s, 'slot', kx) == x.slot, *[T.sel(s, 'mult', kx, q) == fx[q] for q in T.fs]))
                inr = z3.And(cond, UE(ke, J), U(J, ke + N))
                return z3.And(gx, z3.Implies(inr, z3.And(T.sel(s, 'slot', J) == b.S(J - ke, y.slot), *[T.sel(s, 'mult', J, q) == want[q] for q in T.fs])))
            return [b.val_goal(s, x, val(x.a, V))] + target_goals(b, s, x, cond) + b.kept(s, z3.And(cond, z3.Not(x.on))) + (y.same(s) if y is not x else []) + [
                ('exactly the statement asked for is recorded', T.size(s, 'stmt') == z3.If(cond, n + 1, n)), ('its target is the variable', z3.Implies(cond, T.sel(s, 'stmt', n, 4) == x.slotof(s))),
                ('its operands are the variable and those of the expression', z3.And(T.size(s, 'slot') == z3.If(cond, n0 + N + one, n0), T.size(s, 'mult') == T.size(s, 'slot'))),
                ('operands and factors', z3.Or(lay(True), lay(False))), ('its end is the number of operands', z3.Implies(cond, zx(T.sel(s, 'stmt', n, 0)) == T.size(s, 'slot')))]
        return simple(b.fn(op + 'e'), [x.ptr(), e], post)
    return f


AB.tomul = lambda self, s, fy, j: fy
for _op in BIN:
    spec('operator %s=(scalar)' % _op, 'C06', types='dfF' if _op in ('add', 'sub') else 'df')(scalar_op(_op, False))
    spec('operator %s=(int)' % _op, 'C06', types='df')(scalar_op(_op, True))
    spec('operator %s=(AReal)' % _op, 'C06', variants=('active', 'no active tape', 'active, self', 'no active tape, self'))(active_op(_op))
    spec('operator %s=(expression)' % _op, 'C06', 'C04', variants=('active', 'no active tape', 'active, containing the variable', 'no active tape, containing the variable'))(expr_op(_op))


def incdec(name, sign, post_):
    def f(b, v):
        x = Obj(b, 'x')
        r = Obj(b, 'r', True) if post_ else None
        begin(b, v, x)
        T = b.T
        one = d_k(T.fs, sign)

        def post(ex, k, s, _):
            g = [b.val_goal(s, x, d_add(x.a, one))] + target_goals(b, s, x, x.on)
            if not post_:
                return g + b.kept(s) + b.statements(s, x.on, [(x.slotof(s), [(x.on, x.slot, ONE)])])
            return g + b.kept(s, x.on) + b.statements(s, x.on, [(r.slotof(s), [(x.on, x.slot, ONE)]), (x.slotof(s), [(x.on, x.slot, ONE)])]) + \
                [b.val_goal(s, r, x.a, 'the result'), b.fresh_slot(s, r.slotof(s), x.on), ('the result is not registered otherwise', z3.Implies(z3.Not(x.on), r.slotof(s) == INVALID))]
        return simple(b.fn(name), ([r.ptr()] if post_ else []) + [x.ptr()], post)
    return f


spec('++x', 'C06', types='df')(incdec('preinc', 1, False))
spec('--x', 'C06', types='df')(incdec('predec', -1, False))
spec('x++', 'C06', types='df')(incdec('postinc', 1, True))
spec('x--', 'C06', types='df')(incdec('postdec', -1, True))


# ---- reading
def reader(name, ok):
    def f(b, v):
        x = Obj(b, 'x')
        begin(b, v, x)
        res, _ = b.real(b.st, 'res')
        b.T.snapshot(b.st)
        args = [x.ptr()] + ([res] if name in ('getValue', 'value') else [])
        return simple(b.fn(name), args, lambda ex, k, s, r: b.T.frame(s) + x.same(s) + [('what it reads', ok(b, s, x, r, res, v))])
    return f


def vals(b, s, res, x):
    a = b.realval(s, res)
    return z3.And(*[a[f] == x.a[f] for f in b.T.fs])


spec('getValue', 'C06', 'C21')(reader('getValue', lambda b, s, x, r, res, v: vals(b, s, res, x)))
spec('value(x)', 'C06', 'C21')(reader('value', lambda b, s, x, r, res, v: vals(b, s, res, x)))
spec('value(x) reference', 'C06', 'C21')(reader('valueref', lambda b, s, x, r, res, v: z3.BoolVal(isinstance(r, Ptr) and r.reg is x.reg and r.off == x.oa)))
spec('getSlot', 'C06')(reader('getSlot', lambda b, s, x, r, res, v: bvz(r, 32) == x.slot))
spec('shouldRecord', 'C06')(reader('shouldRecord', lambda b, s, x, r, res, v: bz(r) == x.on))
spec('getTape', 'C06', 'C13')(reader('getTape', lambda b, s, x, r, res, v: z3.BoolVal(isinstance(r, Ptr) and r.reg is (None if which(v) == 'none' else b.T.reg))))


def deriv(name, takes):
    """access for writing: registers the variable if necessary"""
    def f(b, v):
        x = Obj(b, 'x')
        T = b.T
        none = which(v) == 'none'
        w = 'none' if none else 'this'
        b.active(w)
        arg, nv = b.real(b.st, 'newval')
        T.snapshot(b.st)
        args = [x.ptr()] + ([arg] if takes else [])
        # registered variables of the active tape have slots in range
        b.st.assume(z3.Implies(x.on, U(x.slot, T.r0('maxd'))))

        def post(ex, k, s, r):
            if k == 'throw':
                return [('the error is raised only without an active tape', z3.BoolVal(none)), ('the documented error type', thrown(k, r, 'notape'))] + T.frame(s) + x.same(s)
            sl = x.slotof(s)
            g = [('no error only with an active tape', z3.BoolVal(not none)), ('the value is kept', z3.And(*[x.aof(s)[q] == x.a[q] for q in T.fs]))]
            g += target_goals(b, s, x, z3.BoolVal(True)) + b.kept(s, z3.Not(x.on), ['der', 'rec.dinit']) [:-2] + b.statements(s, z3.Not(x.on), [(sl, [])])
            if not takes:
                g.append(('refers to the adjoint of the variable', z3.And(z3.BoolVal(isinstance(r, Ptr) and r.reg is T.vec(s, 'der').reg and r.off == 0), bv(r.idx) == zx(sl), U(zx(sl), T.size(s, 'der')))))
            for q in T.fs:
                want = b.adj_init(J, q)
                got = T.sel(s, 'der', J, q)
                if takes:
                    want = z3.If(J == zx(sl), nv[q], want)
                g.append(('adjoints: cleared if and only if they were not initialised in this recording', z3.Implies(U(J, T.size(s, 'der')), got == want)))
            g.append(('marked as initialised', T.r(s, 'dinit')))
            return g
        return simple(b.fn(name), args, post, kinds=('ret', 'throw'))
    return f


spec('derivative(x)', 'C12', 'C06', 'C19', 'C21')(deriv('derivative', False))
spec('setDerivative', 'C12', 'C06', 'C19', 'C21')(deriv('setDerivative', True))
spec('setAdjoint', 'C12', 'C06', 'C19', 'C21')(deriv('setAdjoint', True))


def cderiv(name):
    """access for reading: an unregistered variable has adjoint zero; adjoints may be initialised, but do not change"""
    def f(b, v):
        x = Obj(b, 'x')
        T = b.T
        none = which(v) == 'none'
        b.active('none' if none else 'this')
        res, _ = b.real(b.st, 'res')
        T.snapshot(b.st)
        b.st.assume(z3.Implies(x.on, U(x.slot, T.r0('maxd'))))

        def post(ex, k, s, r):
            if k == 'throw':
                return [('the error is raised only without an active tape', z3.BoolVal(none)), ('the documented error type', thrown(k, r, 'notape'))] + T.frame(s) + x.same(s)
            val = b.realval(s, res)
            g = [('no error only with an active tape', z3.BoolVal(not none))] + x.same(s) + T.frame(s, ['der', 'rec.dinit'])
            g.append(('the adjoint of the variable, zero if it is not registered', z3.And(*[val[q] == z3.If(x.on, b.adj_init(zx(x.slot), q), z3.RealVal(0)) for q in T.fs])))
            same = T.r(s, 'dinit') == T.r0('dinit')
            for q in T.fs:
                g.append(('no adjoint changes', z3.Implies(U(J, T.size(s, 'der')), T.sel(s, 'der', J, q) == z3.If(z3.And(same, U(J, T.size0('der'))), T.sel0('der', J, q), b.adj_init(J, q)))))
            g.append(('initialised adjoints stay so', z3.Implies(T.r0('dinit'), T.r(s, 'dinit'))))
            g.append(('adjoints that are marked as initialised cover all variables', z3.Implies(z3.And(x.on, T.r(s, 'dinit')), U(zx(x.slot), T.size(s, 'der')))))
            return g
        return simple(b.fn(name), [x.ptr(), res], post, kinds=('ret', 'throw'))
    return f


for _n in ('cderivative', 'getDerivative', 'getAdjoint'):
    spec(_n, 'C12', 'C06', 'C21')(cderiv(_n))


def register(name):
    def f(b, v):
        x = Obj(b, 'x')
        b.active('this')
        return simple(b.fn(name), [b.T.ptr(), x.ptr()], lambda ex, k, s, r: b.kept(s, z3.Not(x.on)) + b.statements(s, z3.Not(x.on), [(x.slotof(s), [])]) + target_goals(b, s, x, z3.BoolVal(True)) + [b.val_goal(s, x, x.a)])
    return f


spec('registerInput', 'C06', 'C09', variants=('active',))(register('regIn'))
spec('registerOutput', 'C06', 'C09', variants=('active',))(register('regOut'))


@spec('pushAll', 'C06', 'C10', variants=('active',))
def s_pushall(b, v):
    """one statement with n operands and their factors, in order"""
    ex, st, T = b.ex, b.st, b.T
    b.active('this')
    el, stride, sort = ELEM[b.t][0], T.vec(st, 'mult').reg.stride, b.rsort
    m = ex.arr_region(st, 'factors', stride, {f: (el, sort) for f in T.fs})
    sl = ex.arr_region(st, 'slots', 4, {0: (I32, BV32)})
    lhs, n = z3.BitVec('target', 32), z3.BitVec('n', 32)
    st.assume(lhs != INVALID)
    st.assume(U(n, 1 << 31))
    m0, s0 = {f: st.mem[m][f] for f in T.fs}, st.mem[sl][0]

    def post(ex, k, s, r):
        o = T.size0('slot')
        i = J - o
        inr = z3.And(UE(o, J), U(J, o + zx(n)))
        return T.frame(s, ['mult', 'slot', 'stmt']) + [
            ('exactly the operands given are appended', z3.And(T.size(s, 'slot') == o + zx(n), T.size(s, 'mult') == o + zx(n))), ('earlier operands are kept', z3.And(T.same_vec(s, 'slot', o), T.same_vec(s, 'mult', o))),
            ('their slots and factors, in order', z3.Implies(inr, z3.And(T.sel(s, 'slot', J) == ex.zval(s0.sel(i), I32), *[T.sel(s, 'mult', J, f) == ex.zval(m0[f].sel(i), el) for f in T.fs])))] + tapefn.one_stmt(b, s, lhs)
    return simple(b.fn('pushAll'), [T.ptr(), lhs, Ptr(m, 0, bv(0)), Ptr(sl, 0, bv(0)), n], post)


def task(ctx, mod, name, t):
    from .contracts import verify
    props, types, f, v = ASPECS[name]

    def make(ex, st):
        ex.vc_timeout = 10000
        return f(AB(ex, st, t), v)
    verify(ctx, 'AReal<%s>::%s' % (NAME[t], name), mod, make, CONTRACTS, timeout=15000, budget=120)


def module(scr, defs=()):
    p = scr.write('arealdrv.cpp', tapefn.LAYOUT_SRC + SRC)
    return ir.load(scr.ll(p, 'arealdrv%d.ll' % len(defs), defs=defs, extra=['-fno-discard-value-names']))


def setup(chk, pid):
    mod = module(chk.scratch)
    for n, (props, types, f, v) in ASPECS.items():
        if pid in props:
            for t in types:
                chk.task('%s %s' % (n, t), task, mod, n, t)
