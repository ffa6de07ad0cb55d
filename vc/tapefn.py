"""Contracts of the Tape members (C06, C09, C10, C11, C12, C13, C19), each proved on the real code for an arbitrary tape."""
import z3
from . import ir, sym, build
from .sym import *
from .ir import DOUBLE, FLOAT, PTR
from .dom import RealDom
from .loops import LoopSpec
from .contracts import Spec, verify
from .tapemodel import LAYOUT_CPP, get_active, vget, vset
from .tapemodel2 import *

LAYOUT_SRC = r'''
#include <Tape.cpp>
#include <XAD/XAD.hpp>
''' + LAYOUT_CPP + r'''
typedef xad::FReal<double> FD;
OFF_T(d, double)
OFF_T(f, float)
OFF_T(F, FD)
'''
SRC = LAYOUT_SRC + r'''
#define W(t, S) \
  typedef xad::Tape<S> T##t; \
  extern "C" { \
  void W_##t##_setActive(T##t* p) { T##t::setActive(p); } \
  void W_##t##_activate(T##t* p) { p->activate(); } \
  void W_##t##_deactivate(T##t* p) { p->deactivate(); } \
  bool W_##t##_isActive(const T##t* p) { return p->isActive(); } \
  T##t* W_##t##_getActive() { return T##t::getActive(); } \
  void W_##t##_deactivateAll() { T##t::deactivateAll(); } \
  S* W_##t##_derivative(T##t* p, unsigned s) { return &p->derivative(s); } \
  const S* W_##t##_cderivative(const T##t* p, unsigned s) { return &p->derivative(s); } \
  void W_##t##_getDerivative(const T##t* p, unsigned s, S* r) { *r = p->getDerivative(s); } \
  void W_##t##_setDerivative(T##t* p, unsigned s, const S* v) { p->setDerivative(s, *v); } \
  void W_##t##_incrementAdjoint(T##t* p, unsigned s, const S* v) { p->incrementAdjoint(s, *v); } \
  void W_##t##_takeAdjoint(T##t* p, unsigned s, S* r) { *r = p->getAndResetOutputAdjoint(s); } \
  void W_##t##_initDerivatives(T##t* p) { p->initDerivatives(); } \
  void W_##t##_clearDerivatives(T##t* p) { p->clearDerivatives(); } \
  void W_##t##_computeAdjoints(T##t* p) { p->computeAdjoints(); } \
  void W_##t##_computeAdjointsTo(T##t* p, unsigned pos) { p->computeAdjointsTo(pos); } \
  void* W_##t##_getLastCallback(T##t* p) { return p->getLastCallback(); } \
  void W_##t##_popCallback(T##t* p) { p->popCallback(); } \
  void W_##t##_pushCallback(T##t* p, void* c) { p->pushCallback((T##t::callback_type)c); } \
  bool W_##t##_haveCallbacks(T##t* p) { return p->haveCallbacks(); } \
  unsigned W_##t##_getNumCallbacks(T##t* p) { return p->getNumCallbacks(); } \
  void W_##t##_insertCallback(T##t* p, void* c) { p->insertCallback((T##t::callback_type)c); } \
  unsigned W_##t##_getPosition(T##t* p) { return p->getPosition(); } \
  unsigned W_##t##_getNumVariables(T##t* p) { return p->getNumVariables(); } \
  unsigned W_##t##_getNumOperations(T##t* p) { return p->getNumOperations(); } \
  unsigned W_##t##_getNumStatements(T##t* p) { return p->getNumStatements(); } \
  void W_##t##_resetTo(T##t* p, unsigned pos) { p->resetTo(pos); } \
  void W_##t##_clearDerivativesAfter(T##t* p, unsigned pos) { p->clearDerivativesAfter(pos); } \
  void W_##t##_newRecording(T##t* p) { p->newRecording(); } \
  void W_##t##_clearAll(T##t* p) { p->clearAll(); } \
  unsigned W_##t##_registerVariable(T##t* p) { return p->registerVariable(); } \
  unsigned W_##t##_registerVariableAtEnd(T##t* p) { return p->registerVariableAtEnd(); } \
  void W_##t##_unregisterVariable(T##t* p, unsigned s) { p->unregisterVariable(s); } \
  void W_##t##_newNested(T##t* p) { p->newNestedRecording(); } \
  void W_##t##_endNested(T##t* p) { p->endNestedRecording(); } \
  void W_##t##_fold(T##t* p) { p->foldSubrecording(); } \
  void W_##t##_foldAll(T##t* p) { p->foldSubrecordings(); } \
  void W_##t##_releaseOuter(T##t* p) { p->releaseOuter(); } \
  unsigned W_##t##_nextUnused(const T##t* p) { return p->nextUnusedSlot(); } \
  void W_##t##_runCallback(T##t* p, void* c) { p->runCallback((T##t::callback_type)c); } \
  void W_##t##_pushLhs(T##t* p, unsigned s) { p->pushLhs(s); } \
  void W_##t##_pushRhs(T##t* p, const S* m, unsigned s) { p->pushRhs(*m, s); } \
  void W_##t##_pushRhsMove(T##t* p, S* m, unsigned s) { p->pushRhs(std::move(*m), s); } \
  void W_##t##_ctor(T##t* p, bool a) { new (p) T##t(a); } \
  void W_##t##_dtor(T##t* p) { p->~T##t(); } \
  void W_##t##_movector(T##t* p, T##t* o) { new (p) T##t(std::move(*o)); } \
  void W_##t##_moveassign(T##t* p, T##t* o) { *p = std::move(*o); } \
  }
#include <new>
W(d, double) W(f, float) W(F, FD)
'''
J = z3.BitVec('j_any', 64)
EXCN = {'active': 'xad::TapeAlreadyActive', 'range': 'xad::OutOfRange', 'init': 'xad::DerivativesNotInitialized', 'notape': 'xad::NoTapeException'}


def zx(v):
    return z3.ZeroExt(32, bvz(v, 32))


class B:
    """helper handed to the specification functions"""

    def __init__(self, ex, st, t):
        self.ex, self.st, self.t = ex, st, t
        self.T = TapeX(ex, st, t)
        g = ex.global_ptr(st, active_global(t))
        ex.active_reg = g.reg
        self.other = ex.new_region(st, 'other_tape', size=self.T.o('sizeof'))
        self._nested = False
        self.rel_first = self.T.r0('first')

    def ghosts(self):
        """bounded search for counterexamples: the first instances of the ghost definitions"""
        if self.ex.unroll is None:
            return
        T, st, N = self.T, self.st, 6
        st.assume(z3.And(U(T.nchk0, 4), U(T.ncbs0, 4), U(T.size0('relo'), 4)))
        f = [T.sel0('chk', bv(i)) for i in range(4)]
        st.assume(z3.And(*[z3.Implies(U(bv(i + 1), T.size0('chk')), U(f[i], f[i + 1])) for i in range(3)]))
        st.assume(z3.And(*[z3.Implies(U(bv(i), T.size0('chk')), z3.And(UE(1, f[i]), U(zx(f[i]), T.size0('stmt')))) for i in range(4)]))
        # released slots are not live; how many belong further out is defined by the recording they are handed to
        relo = T.m0[T.relo][0]
        st.assume(ON(Z64) == 0)
        for i in range(4):
            q = relo.sel(bv(i))
            st.assume(z3.Implies(U(bv(i), T.size0('relo')), z3.And(z3.Not(LIVE(q)), U(q, 1 << 31), U(q, T.r0('first')) if self.nested else z3.BoolVal(True))))
            st.assume(ON(bv(i + 1)) == z3.If(U(q, self.rel_first), ON(bv(i)) + 1, ON(bv(i))))
        for i in range(4):
            st.assume(z3.Implies(U(bv(i), bv(T.ncbs0)), POS(self.ex.zval(T.m0[T.cbs][0].sel(bv(i)))) == i))
        tgt = lambda i: T.sel0('stmt', bv(i), 4)
        st.assume(MX(bv(1)) == T.r0('sslots'))
        for i in range(0, N):
            st.assume(z3.Implies(U(bv(i), T.size0('stmt')), z3.And(z3.Or(tgt(i) == INVALID, U(tgt(i), 1 << 31)), UE(zx(T.sel0('stmt', bv(i))), T.size0('slot')))))
            if i:
                st.assume(MX(bv(i + 1)) == z3.If(tgt(i) == INVALID, MX(bv(i)), z3.If(UE(MX(bv(i)), tgt(i) + 1), tgt(i) + 1, MX(bv(i)))))

    @property
    def nested(self):
        return self._nested

    def active(self, which):
        """which: 'this' | 'other' | 'none'"""
        p = {'this': self.T.ptr(), 'other': Ptr(self.other, 0), 'none': NULL}[which]
        self.ex.store(self.st, Ptr(self.ex.active_reg, 0), p, PTR)
        self.act0 = p
        self.T.snapshot(self.st)

    def get_active(self, s):
        return self.ex.load(s, Ptr(self.ex.active_reg, 0), PTR)

    def is_active(self, s, p):
        q = self.get_active(s)
        return z3.BoolVal((q.reg is None and p.reg is None) or (isinstance(q, Ptr) and q.reg is p.reg and p.reg is not None))

    def use(self, cts):
        from .contracts import compile_contracts
        self.ex.contracts = compile_contracts(cts) + list(self.ex.contracts)

    def fn(self, n):
        return '@W_%s_%s' % (self.t, n)

    def real(self, st, name):
        """a region holding one element value -> (ptr, {sub: value})"""
        reg = self.ex.new_region(st, name, size=16)
        v = {}
        el = ELEM[self.t][0]
        for sub in self.T.fs:
            v[sub] = z3.Const('%s_%d' % (name, sub), self.ex.dom.sort_of(el))
            self.ex.store(st, Ptr(reg, sub), v[sub], el)
        return Ptr(reg, 0), v

    def realval(self, s, p):
        el = ELEM[self.t][0]
        return {sub: self.ex.zval(self.ex.load(s, self.ex.padd(p, sub), el), el) for sub in self.T.fs}

    # adjoints as a mathematical function: what derivative access has to see
    def adj_init(self, j, sub, maxd=None, init=None):
        """value of adjoint j after initDerivatives"""
        T = self.T
        old = T.sel0('der', j, sub)
        zero = z3.RealVal(0)
        return z3.If(UE(T.size0('der'), bv(j)), zero, z3.If(z3.And(z3.Not(T.r0('dinit')), UE(zx(T.r0('sder')), bv(j))), zero, old))

    def init_goals(self, s, at=None, new=None):
        """initDerivatives has happened (and adjoint at was replaced by new)"""
        T = self.T
        g = []
        m = zx(T.r0('maxd'))
        g.append(('the adjoint vector covers every registered slot and never shrinks', T.size(s, 'der') == z3.If(U(T.size0('der'), m), m, T.size0('der'))))
        for sub in T.fs:
            want = self.adj_init(J, sub)
            if at is not None:
                want = z3.If(J == at, new[sub], want)
            g.append(('adjoints: cleared if and only if they were not initialised in this recording%s' % ('' if at is None else ', the one at the slot updated'),
                      z3.Implies(U(J, T.size(s, 'der')), T.sel(s, 'der', J, sub) == want)))
        g.append(('marked as initialised', T.r(s, 'dinit')))
        return g


# ------------------------------------------------------------------ the specifications: name -> builder(B) -> Spec
SPECS = {}


def spec(name, *props, types='dfF', variants=(None,)):
    def deco(f):
        for v in variants:
            SPECS[name if v is None else '%s [%s]' % (name, v)] = (props, types, f, v)
        return f
    return deco


def thrown(k, v, exc):
    return z3.BoolVal(k == 'throw' and v == EXCN[exc])


def guarded(b, cond, exc, ok):
    """throws exc exactly when cond holds, leaving everything as it is; otherwise ok(s, v)"""
    def post(ex, k, s, v):
        c = bz(cond)
        if k == 'throw':
            return [('the error is raised only when its condition holds (%s)' % EXCN[exc], c), ('the documented error type', thrown(k, v, exc))] + \
                [('failed call: ' + n, g) for n, g in b.T.frame(s)]
        return [('no error is raised only when its condition does not hold (%s)' % EXCN[exc], z3.Not(c))] + [('', z3.Or(c, g)) if False else (n, g) for n, g in ok(s, v)]
    return post


@spec('setActive', 'C12', 'C13', variants=('none active', 'other active', 'this active'))
def s_setActive(b, v):
    b.active(v.split()[0])
    p = b.T.ptr()
    return Spec(b.fn('setActive'), [p], guarded(b, v != 'none active', 'active', lambda s, r: b.T.frame(s, ['active']) + [('the tape is the active one', b.is_active(s, p))]), kinds=('ret', 'throw'))


@spec('setActive(nullptr)', 'C12', 'C13', variants=('none active', 'other active'))
def s_setActive0(b, v):
    b.active(v.split()[0])
    return Spec(b.fn('setActive'), [NULL], guarded(b, v != 'none active', 'active', lambda s, r: b.T.frame(s)), kinds=('ret', 'throw'))


@spec('activate', 'C12', 'C13', variants=('none active', 'other active', 'this active'))
def s_activate(b, v):
    b.active(v.split()[0])
    p = b.T.ptr()
    return Spec(b.fn('activate'), [p], guarded(b, v != 'none active', 'active', lambda s, r: b.T.frame(s, ['active']) + [('the tape is the active one', b.is_active(s, p))]), kinds=('ret', 'throw'))


@spec('deactivate', 'C13', variants=('none active', 'other active', 'this active'))
def s_deactivate(b, v):
    b.active(v.split()[0])
    keep = NULL if v == 'this active' else b.act0
    return Spec(b.fn('deactivate'), [b.T.ptr()], lambda ex, k, s, r: b.T.frame(s, ['active']) + [('only this tape is deselected', b.is_active(s, keep))])


@spec('isActive', 'C13', variants=('none active', 'other active', 'this active'))
def s_isActive(b, v):
    b.active(v.split()[0])
    return Spec(b.fn('isActive'), [b.T.ptr()], lambda ex, k, s, r: b.T.frame(s) + [('true exactly if it is the active one', bz(r) == z3.BoolVal(v == 'this active'))])


@spec('getActive', 'C13', variants=('none active', 'other active', 'this active'))
def s_getActive(b, v):
    b.active(v.split()[0])
    return Spec(b.fn('getActive'), [], lambda ex, k, s, r: b.T.frame(s) + [('the active tape', z3.BoolVal(same_ptr(r, b.act0)))])


@spec('deactivateAll', 'C13', variants=('none active', 'other active', 'this active'))
def s_deactivateAll(b, v):
    b.active(v.split()[0])
    return Spec(b.fn('deactivateAll'), [], lambda ex, k, s, r: b.T.frame(s, ['active']) + [('no tape is active', b.is_active(s, NULL))])


@spec('derivative', 'C12', 'C19')
def s_derivative(b, v):
    b.active('this')
    sl = z3.BitVec('slot', 32)

    def ok(s, r):
        return b.init_goals(s) + b.T.frame(s, ['der', 'rec.dinit']) + [
            ('refers to the adjoint of the slot', z3.And(z3.BoolVal(isinstance(r, Ptr) and r.reg is b.T.vec(s, 'der').reg and r.off == 0), bv(r.idx) == zx(sl), U(zx(sl), b.T.size(s, 'der'))))]
    return Spec(b.fn('derivative'), [b.T.ptr(), sl], guarded(b, UE(b.T.r0('maxd'), sl), 'range', ok), kinds=('ret', 'throw'))


@spec('derivative const', 'C12', 'C19')
def s_cderivative(b, v):
    b.active('this')
    T = b.T
    sl = z3.BitVec('slot', 32)
    out, uni = UE(T.r0('maxd'), sl), z3.Not(T.r0('dinit'))

    def post(ex, k, s, r):
        if k == 'throw':
            return [('the error is raised only when its condition holds', z3.If(z3.BoolVal(r == EXCN['range']), out, z3.And(thrown(k, r, 'init'), z3.Not(out), uni)))] + T.frame(s)
        val = b.realval(s, r)
        return [('no error is raised only when its condition does not hold', z3.Not(z3.Or(out, uni)))] + T.frame(s) + \
            [('the value is the adjoint of the slot', z3.And(*[val[f] == b.adj_init(zx(sl), f) for f in T.fs]))]
    return Spec(b.fn('cderivative'), [T.ptr(), sl], post, kinds=('ret', 'throw'))


@spec('setDerivative', 'C12', 'C19')
def s_setDerivative(b, v):
    b.active('this')
    sl = z3.BitVec('slot', 32)
    p, x = b.real(b.st, 'newval')
    b.T.snapshot(b.st)
    return Spec(b.fn('setDerivative'), [b.T.ptr(), sl, p], guarded(b, UE(b.T.r0('maxd'), sl), 'range', lambda s, r: b.init_goals(s, zx(sl), x) + b.T.frame(s, ['der', 'rec.dinit'])), kinds=('ret', 'throw'))


@spec('incrementAdjoint', 'C12', 'C11', 'C19')
def s_incr(b, v):
    b.active('this')
    sl = z3.BitVec('slot', 32)
    p, x = b.real(b.st, 'incr')
    b.T.snapshot(b.st)
    new = {f: b.adj_init(zx(sl), f) + x[f] for f in b.T.fs}
    return Spec(b.fn('incrementAdjoint'), [b.T.ptr(), sl, p], guarded(b, UE(b.T.r0('maxd'), sl), 'range', lambda s, r: b.init_goals(s, zx(sl), new) + b.T.frame(s, ['der', 'rec.dinit'])), kinds=('ret', 'throw'))


@spec('getAndResetOutputAdjoint', 'C12', 'C11', 'C19')
def s_take(b, v):
    b.active('this')
    sl = z3.BitVec('slot', 32)
    p, _ = b.real(b.st, 'res')
    b.T.snapshot(b.st)
    zero = {f: z3.RealVal(0) for f in b.T.fs}

    def ok(s, r):
        val = b.realval(s, p)
        return b.init_goals(s, zx(sl), zero) + b.T.frame(s, ['der', 'rec.dinit']) + [('the adjoint it had is returned', z3.And(*[val[f] == b.adj_init(zx(sl), f) for f in b.T.fs]))]
    return Spec(b.fn('takeAdjoint'), [b.T.ptr(), sl, p], guarded(b, UE(b.T.r0('maxd'), sl), 'range', ok), kinds=('ret', 'throw'))


@spec('initDerivatives', 'C19', 'C07')
def s_init(b, v):
    b.active('this')
    return Spec(b.fn('initDerivatives'), [b.T.ptr()], lambda ex, k, s, r: b.init_goals(s) + b.T.frame(s, ['der', 'rec.dinit']))


@spec('clearDerivatives', 'C19')
def s_clearder(b, v):
    b.active('this')
    return Spec(b.fn('clearDerivatives'), [b.T.ptr()], lambda ex, k, s, r: b.T.frame(s, ['rec.dinit']) + [('adjoints are to be cleared before their next use', z3.Not(b.T.r(s, 'dinit')))])


# ---- callbacks
@spec('getLastCallback', 'C12', 'C11')
def s_getLast(b, v):
    b.active('this')
    T = b.T
    return Spec(b.fn('getLastCallback'), [T.ptr()], guarded(b, T.size0('cbs') == 0, 'range', lambda s, r: T.frame(s) + [('the callback pushed last', b.ex.zval(r) == T.sel0('cbs', T.size0('cbs') - 1))]), kinds=('ret', 'throw'))


@spec('popCallback', 'C12', 'C11')
def s_pop(b, v):
    b.active('this')
    T = b.T
    return Spec(b.fn('popCallback'), [T.ptr()], guarded(b, T.size0('cbs') == 0, 'range', lambda s, r: T.frame(s, ['cbs']) + [
        ('one callback less', T.size(s, 'cbs') == T.size0('cbs') - 1), ('the others are kept', T.same_vec(s, 'cbs', T.size0('cbs') - 1))]), kinds=('ret', 'throw'))


def cbarg(b):
    return Ptr(b.ex.cbobj, 0, z3.BitVec('cb', 64))


@spec('pushCallback', 'C11')
def s_push(b, v):
    b.active('this')
    T, c = b.T, cbarg(b)
    return Spec(b.fn('pushCallback'), [T.ptr(), c], lambda ex, k, s, r: T.frame(s, ['cbs']) + [
        ('one callback more', T.size(s, 'cbs') == T.size0('cbs') + 1), ('the others are kept', T.same_vec(s, 'cbs', T.size0('cbs'))),
        ('the last one is the callback', T.sel(s, 'cbs', T.size0('cbs')) == c.idx)])


@spec('haveCallbacks', 'C11')
def s_have(b, v):
    b.active('this')
    return Spec(b.fn('haveCallbacks'), [b.T.ptr()], lambda ex, k, s, r: b.T.frame(s) + [('exactly if there is one', bz(r) == (b.T.size0('cbs') != 0))])


@spec('getNumCallbacks', 'C11')
def s_numcb(b, v):
    b.active('this')
    return Spec(b.fn('getNumCallbacks'), [b.T.ptr()], lambda ex, k, s, r: b.T.frame(s) + [('their number', zx(r) == b.T.size0('cbs'))])


@spec('insertCallback', 'C11', 'C10')
def s_insert(b, v):
    b.active('this')
    T, c = b.T, cbarg(b)
    n = T.size0('chk')
    return Spec(b.fn('insertCallback'), [T.ptr(), c], lambda ex, k, s, r: T.frame(s, ['chk', 'stmt']) + [
        ('one checkpoint more', T.size(s, 'chk') == n + 1), ('the others are kept', T.same_vec(s, 'chk', n)),
        ('the new one belongs to the callback', T.sel(s, 'chk', n, 8) == c.idx),
        ('the new one is at the position of the statement that stands for it', zx(T.sel(s, 'chk', n, 0)) == T.size0('stmt'))] + one_stmt(b, s, INVALID))


def one_stmt(b, s, target):
    T = b.T
    n = T.size0('stmt')
    return [('exactly one statement is appended', T.size(s, 'stmt') == n + 1), ('earlier statements are kept', T.same_vec(s, 'stmt', n)),
            ('its end is the number of operands', zx(T.sel(s, 'stmt', n, 0)) == T.size(s, 'slot')), ('its target', T.sel(s, 'stmt', n, 4) == bvz(target, 32))]


# ---- positions and counts
@spec('getPosition', 'C10')
def s_getpos(b, v):
    b.active('this')
    return Spec(b.fn('getPosition'), [b.T.ptr()], lambda ex, k, s, r: b.T.frame(s) + [('index of the last statement', zx(r) == b.T.size0('stmt') - 1)])


@spec('getNumVariables', 'C09')
def s_numvar(b, v):
    b.active('this')
    return Spec(b.fn('getNumVariables'), [b.T.ptr()], lambda ex, k, s, r: b.T.frame(s) + [('the number of live variables', bvz(r, 32) == b.T.r0('num'))])


@spec('getNumStatements', 'C10', 'C06')
def s_numstmt(b, v):
    b.active('this')
    return Spec(b.fn('getNumStatements'), [b.T.ptr()], lambda ex, k, s, r: b.T.frame(s) + [('all but the first', zx(r) == b.T.size0('stmt') - 1)])


@spec('getNumOperations', 'C10', 'C06')
def s_numop(b, v):
    b.active('this')
    return Spec(b.fn('getNumOperations'), [b.T.ptr()], lambda ex, k, s, r: b.T.frame(s) + [('the number of operands', zx(r) == b.T.size0('slot'))])


# ---- recording
@spec('pushLhs', 'C06', 'C10')
def s_pushlhs(b, v):
    b.active('this')
    sl = z3.BitVec('slot', 32)
    b.st.assume(sl != INVALID)
    return Spec(b.fn('pushLhs'), [b.T.ptr(), sl], lambda ex, k, s, r: b.T.frame(s, ['stmt']) + one_stmt(b, s, sl))


def rhs(name):
    def f(b, v):
        b.active('this')
        sl = z3.BitVec('slot', 32)
        b.st.assume(sl != INVALID)
        p, x = b.real(b.st, 'factor')
        b.T.snapshot(b.st)
        T = b.T
        n = T.size0('slot')
        return Spec(b.fn(name), [T.ptr(), p, sl], lambda ex, k, s, r: T.frame(s, ['mult', 'slot']) + [
            ('exactly one operand is appended', z3.And(T.size(s, 'slot') == n + 1, T.size(s, 'mult') == n + 1)), ('earlier operands are kept', z3.And(T.same_vec(s, 'slot', n), T.same_vec(s, 'mult', n))),
            ('its slot', T.sel(s, 'slot', n) == sl), ('its factor', z3.And(*[T.sel(s, 'mult', n, f) == x[f] for f in T.fs]))])
    return f


spec('pushRhs', 'C06', 'C10')(rhs('pushRhs'))
spec('pushRhs&&', 'C06', 'C10')(rhs('pushRhsMove'))



# ---- variables and slots (C09); live(j): slot j belongs to a live registered variable
LIVE = z3.Function('live', z3.BitVecSort(32), z3.BoolSort())
J32 = z3.BitVec('j_slot', 32)


def live_inv(b, *at):
    """the slots of live variables are below the next slot: instances"""
    for j in at:
        b.st.assume(z3.Implies(LIVE(j), U(j, b.T.r0('ider'))))


def reg_spec(name):
    def f(b, v):
        b.active('this')
        T = b.T
        b.st.assume(U(T.r0('num'), T.r0('ider') + 1))
        live_inv(b, J32, T.r0('ider'))
        cnt = 1 if name == 'registerVariable' else 0

        def post(ex, k, s, r):
            r = bvz(r, 32)
            return T.frame(s, ['rec.num', 'rec.ider', 'rec.maxd']) + [
                ('the slot handed out does not belong to a live variable', z3.Not(LIVE(r))),
                ('it belongs to the current recording', UE(T.r0('first'), r)),
                ('it has an adjoint', U(r, T.r(s, 'maxd'))),
                ('slots in range stay in range', z3.Implies(U(J32, T.r0('maxd')), U(J32, T.r(s, 'maxd')))),
                ('all live slots are below the next one', z3.Implies(z3.Or(LIVE(J32), J32 == r), U(J32, T.r(s, 'ider')))),
                ('the number of variables grows by one', T.r(s, 'num') == T.r0('num') + cnt)]
        return Spec(b.fn(name), [T.ptr()], post)
    return f


spec('registerVariable', 'C09')(reg_spec('registerVariable'))
spec('registerVariableAtEnd', 'C09')(reg_spec('registerVariableAtEnd'))


@spec('unregisterVariable', 'C09', variants=('of this recording', 'of an enclosing recording'))
def s_unreg(b, v):
    b.active('this')
    T = b.T
    sl = z3.BitVec('slot', 32)
    live_inv(b, J32, sl)
    b.st.assume(LIVE(sl))
    if v == 'of this recording':
        b.st.assume(UE(T.r0('first'), sl))
        b.st.assume(U(0, T.r0('num')))

        def post(ex, k, s, r):
            return T.frame(s, ['rec.num', 'rec.ider']) + [
                ('all slots still live are below the next one', z3.Implies(z3.And(LIVE(J32), J32 != sl), U(J32, T.r(s, 'ider')))),
                ('the next slot is not below the slots of the recording', UE(T.r0('first'), T.r(s, 'ider'))),
                ('the next slot does not grow', UE(T.r(s, 'ider'), T.r0('ider'))),
                ('the number of variables shrinks by one', T.r(s, 'num') == T.r0('num') - 1)]
    else:
        b.st.assume(U(sl, T.r0('first')))
        n = T.size0('relo')

        def post(ex, k, s, r):
            return T.frame(s, ['relo']) + [('it is noted for the enclosing recording', z3.And(T.size(s, 'relo') == n + 1, T.sel(s, 'relo', n) == sl)), ('earlier notes are kept', T.same_vec(s, 'relo', n))]
    return Spec(b.fn('unregisterVariable'), [T.ptr(), sl], post)


@spec('nextUnusedSlot', 'C09')
def s_next(b, v):
    b.active('this')
    T = b.T
    live_inv(b, J32)

    def post(ex, k, s, r):
        r = bvz(r, 32)
        return T.frame(s) + [('not below any live slot', z3.Implies(LIVE(J32), U(J32, r))), ('not below any slot in range', UE(T.r0('maxd'), r)), ('not below any adjoint', UE(T.size0('der'), zx(r))),
                             ('the smallest such', z3.Or(r == T.r0('ider'), r == T.r0('maxd'), zx(r) == T.size0('der')))]
    return Spec(b.fn('nextUnused'), [T.ptr()], post)


# ---- handing back the slots released in an inner recording
ON = z3.Function('handed_on', BV, BV)      # how many of the first i noted slots belong to recordings further out
K = z3.BitVec('k_any', 64)
Z64 = z3.BitVecVal(0, 64)


def release_loops(b):
    """loop of releaseOuter: the slots noted are handed back one by one"""
    T, ex = b.T, b.ex

    def inv(V):
        p, e = V.var('__begin'), V.var('__end')
        if not isinstance(p, Ptr) or not isinstance(e, Ptr) or p.reg is not e.reg:
            raise Undecided('release loop')
        s = V.st
        reg = T.cur(s)
        if isinstance(p.idx, int) and p.idx == 0:
            s.ghost['rel0'] = (T.rec_of(s, reg, 'num'), T.rec_of(s, reg, 'ider'), T.rec_of(s, reg, 'first'), bv(e.idx), p.reg, s.mem[p.reg][0])
        num0, ider0, first, n, lreg, larr = s.ghost['rel0']
        if lreg is not p.reg:
            raise Undecided('release loop')
        i = bv(p.idx)
        q = larr.sel(i)
        num, ider = T.rec_of(s, reg, 'num'), T.rec_of(s, reg, 'ider')
        qk = larr.sel(K)
        out = U(q, first)
        return [('position', z3.And(UE(i, n), bv(e.idx) == n, U(n, 1 << 31))),
                ('list', z3.BoolVal(s.mem[p.reg][0] is larr)),
                ('count', z3.And(UE(ON(i), i), num == num0 - z3.Extract(31, 0, i - ON(i)))),
                ('live slots are below the next one', z3.Implies(LIVE(J32), U(J32, ider))),
                ('next slot', z3.And(UE(ider, ider0), UE(first, ider))),
                ('noted for the enclosing recording', T.size(s, 'relo') == ON(i)),
                ('each outer one noted', z3.Implies(z3.And(U(K, i), U(qk, first)), z3.And(U(ON(K), ON(i)), T.sel(s, 'relo', ON(K)) == qk))),
                ('@next', z3.And(ON(Z64) == 0, z3.Implies(U(i, n), z3.And(ON(i + 1) == z3.If(out, ON(i) + 1, ON(i)), z3.Not(LIVE(q)), U(q, 1 << 31)))))]
    return [LoopSpec(r'releaseOuter\(', 0, inv, lambda V: bv(V.var('__end').idx) - bv(V.var('__begin').idx))]


def rel_goals(b, s, reg, num0, ider0, first, n, arr):
    """what releaseOuter guarantees"""
    T = b.T
    q = arr.sel(K)
    return [('the number of variables shrinks by the number of those handed back', T.rec_of(s, reg, 'num') == num0 - z3.Extract(31, 0, n - ON(n))),
            ('all live slots are below the next one', z3.Implies(LIVE(J32), U(J32, T.rec_of(s, reg, 'ider')))),
            ('the next slot does not grow', UE(T.rec_of(s, reg, 'ider'), ider0)),
            ('the next slot is not below the slots of the recording', UE(first, T.rec_of(s, reg, 'ider'))),
            ('those of recordings further out stay noted', z3.And(T.size(s, 'relo') == ON(n), UE(ON(n), n), z3.Implies(z3.And(U(K, n), U(q, first)), T.sel(s, 'relo', ON(K)) == q)))]


def c_release(b):
    """releaseOuter as its contract (proved on its own)"""
    def h(ex, st, d, a, x):
        T = b.T
        if a[0].reg is not T.reg:
            raise Undecided('another tape')
        reg = T.cur(st)
        num0, ider0, first = (T.rec_of(st, reg, f) for f in ('num', 'ider', 'first'))
        n, arr = T.size(st, 'relo'), st.mem[T.vec(st, 'relo').reg][0]
        pre = z3.And(U(n, 1 << 31), UE(first, ider0), z3.Implies(LIVE(J32), U(J32, ider0)))
        ex.oblige(st, pre, 'precondition of releaseOuter')
        st.assume(pre)
        new = ex.arr_region(st, 'relo', 4, {0: (I32, z3.BitVecSort(32))})
        vset(ex, st, Ptr(T.reg, T.o('relo')), VecVal(new, ex.fresh_bv('nrelo', 64)))
        for f in ('num', 'ider'):
            ex.store(st, Ptr(reg, T.o('rec_' + f)), ex.fresh_bv('rel_' + f, 32), I32)
        for nm, g in rel_goals(b, st, reg, num0, ider0, first, n, arr):
            st.assume(g)
        return None
    return [(r'^xad::Tape<.*>::releaseOuter\(\)', h)]


@spec('releaseOuter', 'C09')
def s_release(b, v):
    b.active('this')
    T = b.T
    live_inv(b, J32)
    b.st.assume(ON(Z64) == 0)
    arr = T.m0[T.relo][0]
    return Spec(b.fn('releaseOuter'), [T.ptr()], lambda ex, k, s, r: T.frame(s, ['relo', 'rec.num', 'rec.ider']) +
                rel_goals(b, s, T.rec, T.r0('num'), T.r0('ider'), T.r0('first'), T.size0('relo'), arr), release_loops(b))


# ---- nested recordings
@spec('newNestedRecording', 'C11', 'C09', variants=('in a recording', 'in a callback'))
def s_newnested(b, v):
    b.active('this')
    T = b.T
    live_inv(b, J32)
    inv = z3.BitVecVal(INVALID, 32)
    cb = v == 'in a callback'
    if cb:
        b.st.assume(T.r0('pmax') != inv)
        b.st.assume(U(T.r0('pmax'), 1 << 31))
    else:
        b.st.assume(T.r0('pmax') == inv)

    def post(ex, k, s, r):
        c = T.cur(s)
        S = T.stack(s)
        q = lambda f: T.rec_of(s, c, f)
        start = q('sder')
        g = T.frame(s, ['der', 'rec', 'stack']) + [
            ('one recording more', z3.And(bv(S.depth) == T.depth0 + 1, z3.BoolVal(len(S.known) >= 2 and S.known[-1] is c and S.known[-2] is T.rec))),
            ('the enclosing recording is kept', T.same_rec(s, ['maxd'] if cb else [])),
            ('it starts after the statements and operands recorded so far', z3.And(zx(q('sstart')) == T.size0('stmt'), zx(q('ostart')) == T.size0('mult'))),
            ('its adjoints are not initialised', z3.Not(q('dinit'))),
            ('its own slots start where its adjoints start', z3.And(q('first') == start, q('sslots') == start)),
            ('the adjoint vector ends where its adjoints start', T.size(s, 'der') == zx(start)),
            ('it is not a callback', q('pmax') == inv), ('same number of variables', q('num') == T.r0('num')),
            ('live slots are below its next one', z3.Implies(LIVE(J32), U(J32, q('ider'))))]
        n = zx(T.r0('first')) if cb else T.size0('der')
        g += [('adjoints of the enclosing recording are kept', z3.And(UE(n, T.size(s, 'der')), z3.And(*[z3.Implies(z3.And(U(J, n), U(J, T.size0('der'))), T.sel(s, 'der', J, f) == T.sel0('der', J, f)) for f in T.fs])))]
        if cb:
            g += [('the slots of the callback belong to it', z3.And(start == T.r0('first'), q('ider') == T.r0('ider'), q('maxd') == T.r0('maxd'))), ('the enclosing range of slots is restored', T.rec_of(s, T.rec, 'maxd') == T.r0('pmax'))]
        else:
            g += [('its slots are above all slots in use', z3.And(UE(T.r0('ider'), start), UE(T.r0('maxd'), start), UE(T.size0('der'), zx(start)), q('ider') == start, q('maxd') == start))]
        return g
    return Spec(b.fn('newNested'), [T.ptr()], post)


def bound_loop(b, which, key, js):
    """std::upper_bound / std::lower_bound on the checkpoint positions: the loop of the real library code.
    upper: elements before the result are <= key, the others > key;  lower: < key and >= key"""
    T = b.T
    up = which == 'upper'

    def inv(V):
        p = V.var('__first')
        if not isinstance(p, Ptr) or p.reg is not T.vec(V.st, 'chk').reg:
            raise Undecided('bound loop')
        n = T.size(V.st, 'chk')
        i, l = bv(p.idx), bv(V.var('__len'))
        k = key(V.st)
        f = lambda j: T.sel(V.st, 'chk', j)
        m = i + z3.LShR(l, 1)
        lo = (lambda x: UE(x, k)) if up else (lambda x: U(x, k))
        g = [('range', z3.And(UE(i, n), UE(l, n), UE(i + l, n)))]
        srt = []
        for j in js:
            g.append(('partition %s' % j, z3.And(z3.Implies(U(j, i), lo(f(j))), z3.Implies(z3.And(UE(i + l, j), U(j, n)), z3.Not(lo(f(j)))))))
            srt.append(z3.Implies(z3.And(UE(j, m), U(m, n)), UE(f(j), f(m))))
            srt.append(z3.Implies(z3.And(UE(m, j), U(j, n)), UE(f(m), f(j))))
        return g + [('@checkpoints are in the order of their positions', z3.And(*srt))]
    return LoopSpec(r'std::__%s_bound<' % which, 0, inv, lambda V: bv(V.var('__len')))


@spec('foldSubrecording', 'C11', 'C09')
def s_fold(b, v):
    return fold_spec(b, 'fold')


@spec('endNestedRecording', 'C11', 'C09')
def s_end(b, v):
    return fold_spec(b, 'endNested')


def fold_spec(b, name):
    b.active('this')
    T = b.T
    # the enclosing recording
    ex, st = b.ex, b.st
    outer = ex.new_region(st, 'outerrec', size=T.o('rec_sizeof'))
    ov = rec_fields(ex, st, outer, 'outer_')
    vset_stack(ex, st, T, (outer, T.rec))
    T.snapshot(st)
    st.assume(UE(2, T.depth0))
    # live variables (those of the inner recording are gone) are below the next slot of the enclosing one
    st.assume(z3.Implies(LIVE(J32), U(J32, ov['ider'])))
    b._nested, b.rel_first = True, ov['first']
    arr = T.m0[T.relo][0]
    ss, os, sd = zx(T.r0('sstart')), zx(T.r0('ostart')), zx(T.r0('sder'))
    mn = lambda a, c: z3.If(U(a, c), a, c)
    b.use(c_release(b))
    loops = [bound_loop(b, 'lower', lambda s: T.r0('sstart'), [J])]
    n0 = z3.If(U(T.r0('num'), ov['num']), T.r0('num'), ov['num'])

    def post(ex, k, s, r):
        S = T.stack(s)
        f = T.sel0('chk', J)
        nc = T.size(s, 'chk')
        g = [('back in the enclosing recording', z3.And(bv(S.depth) == T.depth0 - 1, z3.BoolVal(T.cur(s) is outer and bool(S.known) and S.known[-1] is outer)))]
        g += [('its state is kept: ' + q, T.rec_of(s, outer, q) == ov[q]) for q in REC if q not in ('num', 'ider')]
        g += [('statements end where the nested recording started', z3.And(T.size(s, 'stmt') == mn(T.size0('stmt'), ss), T.same_vec(s, 'stmt', T.size(s, 'stmt')))),
              ('operands end where the nested recording started', z3.And(T.size(s, 'slot') == mn(T.size0('slot'), os), T.size(s, 'mult') == mn(T.size0('mult'), os), T.same_vec(s, 'slot', T.size(s, 'slot')), T.same_vec(s, 'mult', T.size(s, 'mult')))),
              ('adjoints end where those of the nested recording started', z3.And(T.size(s, 'der') == mn(T.size0('der'), sd), T.same_vec(s, 'der', T.size(s, 'der')))),
              ('checkpoints of the enclosing recording are kept, others removed', z3.And(UE(nc, T.size0('chk')), T.same_vec(s, 'chk', nc), z3.Implies(U(J, T.size0('chk')), U(J, nc) == U(f, T.r0('sstart')))))]
        g += rel_goals(b, s, outer, n0, ov['ider'], ov['first'], T.size0('relo'), arr)
        g += [('owned callbacks are kept', T.same_vec(s, 'cbs')), ('active tape unchanged', T.same_active(s))]
        return g
    return Spec(b.fn(name), [T.ptr()], post, loops)


def vset_stack(ex, st, T, known):
    st.wcells(T.reg)[('s', T.o('nest'))] = StackVal(T.depth0, known)



def c_fold(b):
    """foldSubrecording as its contract (proved on its own)"""
    def h(ex, st, d, a, x):
        T = b.T
        S = T.stack(st)
        c = simp(UE(2, bv(S.depth)))
        ex.oblige(st, c, 'there is a nested recording to close')
        st.assume(c)
        inner = S.known[-1] if S.known else None
        if len(S.known) >= 2:
            outer, fresh = S.known[-2], False
            known = S.known[:-1]
            first, ider0 = T.rec_of(st, outer, 'first'), T.rec_of(st, outer, 'ider')
            for f in ('num', 'ider'):
                ex.store(st, Ptr(outer, T.o('rec_' + f)), ex.fresh_bv('fold_' + f, 32), I32)
            st.assume(z3.And(UE(first, T.rec_of(st, outer, 'ider')), UE(T.rec_of(st, outer, 'ider'), ider0)))
        else:
            outer = ex.new_region(st, 'outerrec', size=T.o('rec_sizeof'))
            rec_fields(ex, st, outer, 'outer%d_' % ex.nsym)
            known = (outer,)
        st.assume(z3.Implies(LIVE(J32), U(J32, T.rec_of(st, outer, 'ider'))))
        sset(ex, st, Ptr(T.reg, T.o('nest')), StackVal(ibin('sub', 64, S.depth, 1), known))
        ex.store(st, Ptr(T.reg, T.o('cur')), Ptr(outer, 0), PTR)
        new = {}
        for f in ('mult', 'slot', 'stmt', 'der', 'chk'):
            v = T.vec(st, f)
            new[f] = n = ex.fresh_bv('fold_n' + f, 64)
            st.assume(UE(n, bv(v.size)))
            vset(ex, st, Ptr(T.reg, T.o(f)), VecVal(v.reg, n))
        if inner is not None:
            # exact sizes where the start of the inner recording is known
            q = lambda f: zx(T.rec_of(st, inner, f))
            st.assume(z3.Implies(UE(q('sder'), T.size0('der')), z3.Or(new['der'] == q('sder'), U(new['der'], q('sder')))))
        rl = ex.arr_region(st, 'relo', 4, {0: (I32, z3.BitVecSort(32))})
        nr = ex.fresh_bv('fold_nrelo', 64)
        st.assume(U(nr, 1 << 31))
        vset(ex, st, Ptr(T.reg, T.o('relo')), VecVal(rl, nr))
        return None
    return [(r'^xad::Tape<.*>::foldSubrecording\(\)', h)]


def fold_all_loop(b):
    T, ex = b.T, b.ex

    def inv(V):
        s = V.st
        S = T.stack(s)
        c = s.mem[T.reg].get(T.o('cur'))
        top = top_region(ex, s, Ptr(T.reg, T.o('nest')))
        if c is None:           # arbitrary iteration: the current recording is the one on top of the stack
            s.wcells(T.reg)[T.o('cur')] = (Ptr(top, 0), PTR)
            c = s.mem[T.reg][T.o('cur')]
        S = T.stack(s)
        return [('the current recording is the innermost one', z3.BoolVal(isinstance(c[0], Ptr) and c[0].reg is top)),
                ('depth', z3.And(UE(1, bv(S.depth)), U(bv(S.depth), 1 << 31))),
                ('nothing is added', z3.And(*[UE(T.size(s, f), T.size0c(f)) for f in ('mult', 'slot', 'stmt', 'der', 'chk')] + [U(T.size(s, 'relo'), 1 << 31)])),
                ('state of the current recording', z3.And(*[rec_inv({f: T.rec_of(s, top, f) for f in REC}), z3.Implies(LIVE(J32), U(J32, T.rec_of(s, top, 'ider')))]))]
    return [LoopSpec(r'foldSubrecordings\(', 0, inv, lambda V: bv(T.stack(V.st).depth))]


@spec('foldSubrecordings', 'C11', 'C19')
def s_foldall(b, v):
    b.active('this')
    T = b.T
    live_inv(b, J32)
    b.use(c_fold(b))
    T.size0c = T.size0
    return Spec(b.fn('foldAll'), [T.ptr()], lambda ex, k, s, r: T.frame(s, ['rec', 'stack', 'mult', 'slot', 'stmt', 'der', 'chk', 'relo']) + [
        ('one recording is left', bv(T.stack(s).depth) == 1), ('nothing is added', z3.And(*[UE(T.size(s, f), T.size0(f)) for f in ('mult', 'slot', 'stmt', 'der', 'chk')]))], fold_all_loop(b))


@spec('newRecording', 'C19', 'C09', variants=('no nested recording', 'with nested recordings'))
def s_newrec(b, v):
    b.active('this')
    T = b.T
    live_inv(b, J32)
    b.st.assume(T.depth0 == 1 if v == 'no nested recording' else UE(2, T.depth0))
    b.use(c_fold(b))
    zero = {'mult', 'slot', 'stmt', 'chk'}
    T.size0c = lambda f: Z64 if f in zero else T.size0(f)

    def post(ex, k, s, r):
        c = T.cur(s)
        q = lambda f: T.rec_of(s, c, f)
        g = T.frame(s, ['rec', 'stack', 'mult', 'slot', 'stmt', 'der', 'chk'] + (['relo'] if v != 'no nested recording' else []))
        g += [('one recording is left', bv(T.stack(s).depth) == 1),
              ('no operands or checkpoints are left', z3.And(T.size(s, 'mult') == 0, T.size(s, 'slot') == 0, T.size(s, 'chk') == 0)),
              ('only the initial statement is left', z3.And(T.size(s, 'stmt') == 1, T.sel(s, 'stmt', Z64, 0) == 0, T.sel(s, 'stmt', Z64, 4) == INVALID)),
              ('adjoints are to be cleared before their next use', z3.Not(q('dinit'))),
              ('live variables keep their slots, in range', z3.Implies(LIVE(J32), z3.And(U(J32, q('ider')), U(J32, q('maxd'))))),
              ('the slots in use are those of the recording', q('sslots') == q('ider')),
              ('adjoints never grow', UE(T.size(s, 'der'), T.size0('der')))]
        if v == 'no nested recording':
            g += [('variables keep their number and slots', T.same_rec(s, ['maxd', 'sslots', 'dinit'])), ('stack unchanged', T.same_stack(s))]
        return g
    return Spec(b.fn('newRecording'), [T.ptr()], post, fold_all_loop(b))


FRESH = dict(num=0, ider=0, maxd=0, sstart=1, ostart=0, sder=0, sslots=0, pmax=INVALID, first=0)


def fresh_goals(b, s, T):
    c = T.cur(s)
    return [('like a new tape: one recording', z3.And(bv(T.stack(s).depth) == 1, z3.BoolVal(T.stack(s).known[-1:] == (c,)))),
            ('like a new tape: recording state', z3.And(*[T.rec_of(s, c, f) == v for f, v in FRESH.items()] + [z3.Not(T.rec_of(s, c, 'dinit'))])),
            ('like a new tape: nothing recorded', z3.And(*[T.size(s, f) == 0 for f in ('mult', 'slot', 'chk', 'der', 'relo')])),
            ('like a new tape: only the initial statement', z3.And(T.size(s, 'stmt') == 1, T.sel(s, 'stmt', Z64, 0) == 0, T.sel(s, 'stmt', Z64, 4) == INVALID))]


@spec('clearAll', 'C19')
def s_clearall(b, v):
    b.active('this')
    T = b.T

    def inv(V):
        return [('depth', U(bv(T.stack(V.st).depth), 1 << 31))]
    return Spec(b.fn('clearAll'), [T.ptr()], lambda ex, k, s, r: T.frame(s, ['rec', 'stack', 'mult', 'slot', 'stmt', 'der', 'chk', 'relo']) + fresh_goals(b, s, T),
                [LoopSpec(r'clearAll\(', 0, inv, lambda V: bv(T.stack(V.st).depth))])


class TapeR(TapeX):
    """a tape object under construction"""

    def __init__(self, ex, st, t):
        self.ex, self.t = ex, t
        self.o = lambda n: off(ex.mod, 'OFF_%s_%s' % (t, n))
        self.fs = sorted(ELEM[t][1])
        self.reg = ex.new_region(st, 'new_tape', size=self.o('sizeof'), undef=True)
        self.outer = []


@spec('Tape(bool)', 'C13', 'C19', 'C12', variants=('none active, activated', 'other active, activated', 'this active, activated', 'none active, not activated', 'other active, not activated'))
def s_ctor(b, v):
    who, act = v.split()[0], 0 if 'not' in v else 1
    b.active(who)       # 'this': the tape b.T, another one than the one constructed
    N = TapeR(b.ex, b.st, b.t)
    fails = act and who != 'none'

    def post(ex, k, s, r):
        g = b.T.frame(s, ['active'])
        if k == 'throw':
            return g + [('the documented error type', thrown(k, r, 'active')), ('only if a tape is active', z3.BoolVal(bool(fails))), ('active tape unchanged', b.T.same_active(s))]
        return g + [('no error only if no tape is active', z3.BoolVal(not fails)), ('active exactly if asked for', b.is_active(s, N.ptr() if act else b.act0)),
                    ('owns no callbacks', N.size(s, 'cbs') == 0)] + fresh_goals(b, s, N)
    return Spec(b.fn('ctor'), [N.ptr(), act], post, kinds=('ret', 'throw'))


POS = z3.Function('owner_index', BV, BV)


def deletion(b):
    """the virtual destructor of a callback: counted by the position in the list of owned callbacks"""
    ex, T = b.ex, b.T
    ex.delreg = ex.arr_region(b.st, 'deleted', 4, {0: (I32, z3.BitVecSort(32))})
    b.st.wcells(ex.delreg)[0] = ABase(z3.K(BV, z3.BitVecVal(0, 32)))

    def h(e, st, d, a, x):
        i = lower(simp(POS(bv(a[0].idx))))
        p = Ptr(ex.delreg, 0, i)
        e.store(st, p, ibin('add', 32, e.load(st, p, I32), 1), I32)
        return None
    b.use([(r'^@?__vc_callback_delete', h)])


def delete_loop(b, fn, T=None, ordinal=0):
    T = T or b.T
    ex = b.ex

    def inv(V):
        p, e = V.var('__begin'), V.var('__end')
        if not isinstance(p, Ptr) or p.reg is not T.cbs or not isinstance(e, Ptr) or e.reg is not T.cbs:
            raise Undecided('deletion loop')
        i, n = bv(p.idx), bv(e.idx)
        cnt = V.st.mem[ex.delreg][0].sel(J)
        own = lambda j: POS(ex.zval(V.st.mem[T.cbs][0].sel(j))) == j
        return [('position', z3.And(UE(i, n), n == bv(T.ncbs0))), ('each deleted once', bvz(cnt, 32) == z3.If(U(J, i), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))),
                ('@distinct callbacks', z3.And(z3.Implies(U(i, n), own(i))))]
    return [LoopSpec(fn, ordinal, inv, lambda V: bv(V.var('__end').idx) - bv(V.var('__begin').idx))]


def deleted_goal(b, s, T):
    cnt = bvz(s.mem[b.ex.delreg][0].sel(J), 32)
    return ('each owned callback is destroyed exactly once, no other', cnt == z3.If(U(J, bv(T.ncbs0)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


@spec('~Tape', 'C13', 'C11', variants=('none active', 'other active', 'this active'))
def s_dtor(b, v):
    b.active(v.split()[0])
    deletion(b)
    keep = NULL if v == 'this active' else b.act0
    return Spec(b.fn('dtor'), [b.T.ptr()], lambda ex, k, s, r: [('only this tape is deselected', b.is_active(s, keep)), deleted_goal(b, s, b.T)], delete_loop(b, r'::~Tape\('))


def moved_goals(b, s, D, S):
    """D holds what S held; S owns nothing any more"""
    ex = b.ex
    g = []
    for f in VECS:
        v, w = D.vec(s, f), S.m0[S.reg][('v', S.o(f))]
        j = J
        eqs = [bv(v.size) == bv(w.size)]
        for sub in w.reg.fields:
            x, y = ex.zval(s.mem[v.reg][sub].sel(j), w.reg.fields[sub]), ex.zval(S.m0[w.reg][sub].sel(j), w.reg.fields[sub])
            eqs.append(z3.Implies(U(j, bv(w.size)), x == y))
        g.append(('%s carried over' % LONG[f], z3.And(*eqs)))
    st = D.stack(s)
    g += [('nested recordings carried over', z3.And(bv(st.depth) == S.depth0, z3.BoolVal(st.known == (S.rec,) and D.cur(s) is S.rec))), ('recording state carried over', S.same_rec(s)),
          ('the source owns no callbacks any more', S.size(s, 'cbs') == 0), ('the source is not active', z3.Not(b.is_active(s, S.ptr())))]
    return g


@spec('Tape(Tape&&)', 'C13', 'C11', variants=('none active', 'other active', 'this active'))
def s_movector(b, v):
    b.active(v.split()[0])      # 'this': the source
    N = TapeR(b.ex, b.st, b.t)
    deletion(b)
    b.T.snapshot(b.st)
    want = N.ptr() if v == 'this active' else b.act0
    return Spec(b.fn('movector'), [N.ptr(), b.T.ptr()], lambda ex, k, s, r: moved_goals(b, s, N, b.T) + [
        ('activity carried over', b.is_active(s, want)), ('no callback is destroyed', z3.BoolVal(s.mem[ex.delreg][0] is b.T.m0[ex.delreg][0]))])


@spec('operator=(Tape&&)', 'C13', 'C11', variants=('none active', 'other active', 'this active', 'source active', 'self'))
def s_moveassign(b, v):
    ex, st = b.ex, b.st
    D = b.T
    S = TapeX(ex, st, b.t, pre='src_')
    ex.tape = D
    deletion(b)
    if v == 'self':
        b.active('this')
        return Spec(b.fn('moveassign'), [D.ptr(), D.ptr()], lambda e, k, s, r: D.frame(s) + [('no callback is destroyed', z3.BoolVal(s.mem[e.delreg][0] is D.m0[e.delreg][0]))], delete_loop(b, r'::operator=\('))
    b.active('none' if v == 'source active' else v.split()[0])
    if v == 'source active':
        ex.store(st, Ptr(ex.active_reg, 0), S.ptr(), PTR)
        b.act0 = S.ptr()
    D.snapshot(st)
    S.snapshot(st)
    want = {'source active': D.ptr(), 'this active': NULL}.get(v, b.act0)
    return Spec(b.fn('moveassign'), [D.ptr(), S.ptr()], lambda e, k, s, r: moved_goals(b, s, D, S) + [('activity carried over', b.is_active(s, want)), deleted_goal(b, s, D)], delete_loop(b, r'::operator=\('))


# ---- positions
@spec('resetTo', 'C10', 'C11')
def s_reset(b, v):
    b.active('this')
    T = b.T
    pos = z3.BitVec('pos', 32)
    p64 = zx(pos)
    # recordings are well formed: the end of a statement is an operand position
    b.st.assume(z3.Implies(U(p64, T.size0('stmt')), z3.And(UE(zx(T.sel0('stmt', p64)), T.size0('slot')), UE(zx(T.sel0('stmt', p64)), T.size0('mult')))))

    def post(ex, k, s, r):
        keep = UE(T.size0('stmt') - 1, p64)
        end = zx(T.sel0('stmt', p64))
        nc = T.size(s, 'chk')
        w = lambda a, c: z3.If(keep, a, c)
        return T.frame(s, ['stmt', 'mult', 'slot', 'chk']) + [
            ('statements up to the position are left', z3.And(T.size(s, 'stmt') == w(T.size0('stmt'), p64 + 1), T.same_vec(s, 'stmt', T.size(s, 'stmt')))),
            ('operands of the statements up to the position are left', z3.And(T.size(s, 'slot') == w(T.size0('slot'), end), T.same_vec(s, 'slot', T.size(s, 'slot')))),
            ('factors of the statements up to the position are left', z3.And(T.size(s, 'mult') == w(T.size0('mult'), end), T.same_vec(s, 'mult', T.size(s, 'mult')))),
            ('checkpoints up to the position are left, others removed', z3.And(T.same_vec(s, 'chk', nc), UE(nc, T.size0('chk')), z3.Implies(U(J, T.size0('chk')), U(J, nc) == z3.Or(keep, UE(T.sel0('chk', J), pos)))))]
    return Spec(b.fn('resetTo'), [T.ptr(), pos], post, [bound_loop(b, 'upper', lambda s: pos, [J])])


MX = z3.Function('max_slot_end', BV, z3.BitVecSort(32))


@spec('clearDerivativesAfter', 'C10')
def s_clearafter(b, v):
    b.active('this')
    T = b.T
    pos = z3.BitVec('pos', 32)
    n1 = T.size0('stmt') - 1
    last = z3.If(U(zx(pos), n1), zx(pos), n1)
    tgt = lambda i: T.sel0('stmt', i, 4)
    step = lambda i: z3.And(MX(bv(1)) == T.r0('sslots'), MX(i + 1) == z3.If(tgt(i) == INVALID, MX(i), z3.If(UE(MX(i), tgt(i) + 1), tgt(i) + 1, MX(i))))
    b.st.assume(MX(bv(1)) == T.r0('sslots'))
    b.st.assume(U(T.r0('sslots'), 1 << 31))
    wf = lambda i: z3.Or(tgt(i) == INVALID, U(tgt(i), 1 << 31))

    def inv(V):
        i, e = zx(V.var('i', 32)), bvz(V.var('end', 32), 32)
        return [('range', z3.And(UE(1, i), UE(i, last + 1))), ('largest slot so far', z3.And(e == MX(i), UE(T.r0('sslots'), e))),
                ('covers the targets so far', z3.Implies(z3.And(UE(1, K), U(K, i), tgt(K) != INVALID), U(tgt(K), e))), ('@statement', z3.And(step(i), wf(i), wf(K)))]

    def post(ex, k, s, r):
        e = T.r(s, 'maxd')
        m = zx(T.r0('maxd'))
        g = T.frame(s, ['der', 'rec.maxd']) + [
            ('the slots in range are those in use when the recording started and the targets up to the position', e == MX(last + 1)),
            ('targets up to the position stay in range', z3.Implies(z3.And(UE(1, K), UE(K, last), tgt(K) != INVALID), U(tgt(K), e))),
            ('slots in use when the recording started stay in range', UE(T.r0('sslots'), e)),
            ('the recording still finds adjoints for all its slots', T.size(s, 'der') == z3.If(U(T.size0('der'), m), m, T.size0('der')))]
        for f in T.fs:
            g.append(('adjoints in range are unchanged, all others zero', z3.Implies(U(J, T.size(s, 'der')), T.sel(s, 'der', J, f) == z3.If(z3.And(U(J, zx(e)), U(J, T.size0('der'))), T.sel0('der', J, f), z3.RealVal(0)))))
        return g
    return Spec(b.fn('clearDerivativesAfter'), [T.ptr(), pos], post, [LoopSpec(r'clearDerivativesAfter\(', 0, inv, lambda V: last + 1 - zx(V.var('i', 32)))])


# ---- propagation: which statements are swept, which callbacks are called, in which order
class Prop:
    """ghost state of a propagation: P position down to which everything is done, KK number of checkpoints not yet called,
    GD the adjoint vector the last step left"""

    def __init__(self, b, pos64):
        ex, st, T = b.ex, b.st, b.T
        self.b, self.pos = b, pos64
        self.reg = ex.new_region(st, 'ghost', size=64)
        ex.store(st, Ptr(self.reg, 0), simp(T.size0('stmt') - 1), I64)
        ex.store(st, Ptr(self.reg, 8), T.nchk0, I64)
        el = ELEM[b.t][0]
        rs = ex.dom.sort_of(el)
        self.gd = ex.arr_region(st, 'ghost_der', 8, {0: (el, rs)} if len(T.fs) == 1 else {0: (el, rs), 8: (el, rs)})
        self.D0 = z3.If(U(T.size0('der'), zx(T.r0('maxd'))), zx(T.r0('maxd')), T.size0('der'))
        for f in T.fs:
            st.wcells(self.gd)[f] = ABase(z3.Const('gd%d' % f, z3.ArraySort(BV, rs)))
            st.assume(z3.Implies(U(J, self.D0), st.mem[self.gd][f].sel(J) == b.adj_init(J, f)))
        ex.store(st, Ptr(self.reg, 24), lower(simp(self.D0)), I64)
        self.f0 = lambda j: T.sel0('chk', j)
        self.cb0 = lambda j: T.sel0('chk', j, 8)
        # checkpoints are in the order of their positions, which are those of recorded statements
        n = T.size0('chk')
        self.n = n
        self.wf = lambda j: z3.Implies(U(j, n), z3.And(UE(1, self.f0(j)), U(zx(self.f0(j)), T.size0('stmt'))))
        self.ordered = lambda i, j: z3.Implies(z3.And(U(i, j), U(j, n)), U(self.f0(i), self.f0(j)))

    def g(self, s, k):
        return bv(self.b.ex.load(s, Ptr(self.reg, k), I64))

    def P(self, s):
        return self.g(s, 0)

    def KK(self, s):
        return self.g(s, 8)

    def set(self, s, k, v):
        self.b.ex.store(s, Ptr(self.reg, k), v if isinstance(v, int) else lower(simp(v)), I64)

    def same_der(self, s):
        T = self.b.T
        return z3.And(T.size(s, 'der') == self.g(s, 24), *[z3.Implies(U(J, T.size(s, 'der')), T.sel(s, 'der', J, f) == self.b.ex.zval(s.mem[self.gd][f].sel(J))) for f in T.fs])

    def new_der(self, s, grow=False):
        """a step changes the adjoints"""
        b, T = self.b, self.b.T
        ex = b.ex
        v = T.vec(s, 'der')
        n = v.size
        if grow:
            n = ex.fresh_bv('nder', 64)
            s.assume(UE(bv(v.size), n))
        for f in T.fs:
            ex.nsym += 1
            a = z3.Const('der%d_%d' % (f, ex.nsym), z3.ArraySort(BV, ex.dom.sort_of(ELEM[b.t][0])))
            ex.setarr(s, v.reg, f, ABase(a))
            ex.setarr(s, self.gd, f, ABase(a))
        vset(ex, s, Ptr(T.reg, T.o('der')), VecVal(v.reg, n))
        self.set(s, 24, n)

    def chk_kept(self, s, *at):
        T = self.b.T
        return z3.And(*[z3.Implies(U(j, T.size(s, 'chk')), z3.And(T.sel(s, 'chk', j) == self.f0(j), T.sel(s, 'chk', j, 8) == self.cb0(j))) for j in at])

    def need(self, s, g, name):
        g = simp(g)
        self.b.ex.oblige(s, g, name)
        s.assume(g)

    # contracts of the steps
    def c_sweep(self, ex, st, d, a, x):
        T = self.b.T
        pos, start = zx(a[1]), zx(a[2])
        self.need(st, start == self.P(st), 'the sweep starts at the last statement not yet processed')
        self.need(st, UE(pos, start), 'the sweep goes backwards')
        self.need(st, U(start, T.size(st, 'stmt')), 'the sweep starts at a recorded statement')
        self.need(st, UE(zx(T.r0('maxd')), T.size(st, 'der')), 'all slots have adjoints')
        self.need(st, self.same_der(st), 'adjoints are those the last step left')
        self.set(st, 0, pos)
        k1 = self.KK(st) - 1
        self.need(st, z3.And(UE(self.pos, pos), z3.Implies(z3.And(self.KK(st) != 0), UE(zx(self.f0(k1)), pos))), 'the sweep goes neither past the requested position nor past a checkpoint not yet called')
        self.new_der(st)
        return None

    def c_reset(self, ex, st, d, a, x):
        """resetTo as its contract (proved on its own)"""
        T = self.b.T
        p = bvz(a[1], 32)
        p64 = zx(p)
        k1 = self.KK(st) - 1
        self.need(st, z3.Or(UE(self.P(st), p64), z3.And(self.KK(st) != 0, self.P(st) == zx(self.f0(k1)), UE(self.P(st) - 1, p64))), 'no statement that is still to be processed is removed')
        n, nc0 = T.size(st, 'stmt'), T.size(st, 'chk')
        keep = UE(n - 1, p64)
        for f, nm in (('stmt', 'n'), ('mult', 'o'), ('slot', 'o'), ('chk', 'c')):
            v = T.vec(st, f)
            if f == 'stmt':
                m = z3.If(keep, n, p64 + 1)
            elif f == 'chk':
                m = ex.fresh_bv('rchk', 64)
                st.assume(UE(m, nc0))
                for j in (J, self.KK(st), self.KK(st) - 1, self.KK(st) - 2):
                    st.assume(z3.Implies(U(j, nc0), U(j, m) == z3.Or(keep, UE(T.sel(st, 'chk', j), p))))
            else:
                m = z3.If(keep, bv(v.size), zx(T.sel(st, 'stmt', p64)))
            vset(ex, st, Ptr(T.reg, T.o(f)), VecVal(v.reg, lower(simp(m)) if not isinstance(m, int) else m))
        st.assume(z3.Implies(z3.Not(keep), z3.And(UE(T.size(st, 'slot'), 1 << 31), UE(T.size(st, 'mult'), 1 << 31))))
        return None

    def c_callback(self, ex, st, d, a, x):
        """runCallback as its contract (proved on its own)"""
        T = self.b.T
        k1 = self.KK(st) - 1
        self.need(st, self.KK(st) != 0, 'there is a checkpoint left')
        self.need(st, U(self.pos, zx(self.f0(k1))), 'only checkpoints after the position are called')
        self.need(st, self.P(st) == zx(self.f0(k1)), 'everything after the checkpoint has been propagated')
        c = a[1]
        if not (isinstance(c, Ptr) and c.reg is ex.cbobj):
            raise Undecided('callback argument')
        self.need(st, bv(c.idx) == self.cb0(k1), 'the callback called is that of the latest checkpoint left')
        self.need(st, T.size(st, 'stmt') == self.P(st), 'the statements up to the checkpoint are on the tape')
        self.need(st, T.size(st, 'chk') == k1, 'the checkpoints before it are on the tape')
        self.need(st, self.same_der(st), 'adjoints are those the last step left')
        self.need(st, z3.And(U(T.r(st, 'maxd'), 1 << 31), T.same_stack(st)), 'in the same recording')
        n = T.size(st, 'stmt')
        # effect: the tape may have grown; what was there is kept
        for f in ('stmt', 'mult', 'slot', 'chk'):
            v = T.vec(st, f)
            m = ex.fresh_bv('cb_n' + f, 64)
            st.assume(z3.And(UE(bv(v.size), m), U(m, 1 << 31)))
            for sub, ty in v.reg.fields.items():
                ex.nsym += 1
                z = st.mem[v.reg][sub].sel(J)
                z = z if z3.is_expr(z) else ex.zval(z, ty)
                tail = z3.Const('cb_tail%d' % ex.nsym, z3.ArraySort(BV, z.sort()))
                i = z3.Const('i', BV)
                old = st.mem[v.reg][sub]
                ex.setarr(st, v.reg, sub, AGen(old, v.size, m, lambda i, _t=tail: z3.Select(_t, i)))
            vset(ex, st, Ptr(T.reg, T.o(f)), VecVal(v.reg, m))
        for j in (J, k1, k1 - 1):
            st.assume(z3.Implies(z3.And(UE(k1, j), U(j, T.size(st, 'chk'))), z3.And(UE(n, zx(T.sel(st, 'chk', j))), U(zx(T.sel(st, 'chk', j)), T.size(st, 'stmt')))))
        self.new_der(st, True)
        for f in ('num', 'ider', 'maxd'):
            ex.store(st, Ptr(T.rec, T.o('rec_' + f)), ex.fresh_bv('cb_' + f, 32), I32)
        st.assume(rec_inv({f: T.rec_of(st, T.rec, f) for f in REC}))
        st.assume(UE(zx(T.rec_of(st, T.rec, 'maxd')), T.size(st, 'der') + (1 << 31)))
        rl = ex.arr_region(st, 'relo', 4, {0: (I32, z3.BitVecSort(32))})
        vset(ex, st, Ptr(T.reg, T.o('relo')), VecVal(rl, ex.fresh_bv('cb_nrelo', 64)))
        cs = ex.arr_region(st, 'cbs', 8, {0: (PTR, BV)}, tag=ex.cbtag)
        vset(ex, st, Ptr(T.reg, T.o('cbs')), VecVal(cs, ex.fresh_bv('cb_ncbs', 64)))
        th = st.fork()
        self.set(st, 8, k1)
        self.set(st, 0, self.P(st) - 1)
        return [('ret', st, None), ('throw', th, 'callback error')]

    def loop(self):
        T = self.b.T

        def inv(V):
            s = V.st
            i = zx(V.var('i', 32))
            k = self.KK(s)
            st = V.var('start', 32)
            return [('checkpoints left', z3.And(i == k, T.size(s, 'chk') == k, UE(k, self.n))),
                    ('statements left', z3.And(zx(st) == self.P(s), T.size(s, 'stmt') == self.P(s) + 1, U(self.P(s), T.size0('stmt')))),
                    ('the position is not passed', z3.Or(self.P(s) == T.size0('stmt') - 1, UE(self.pos, self.P(s)))),
                    ('the checkpoint called last', z3.If(k == self.n, self.P(s) == T.size0('stmt') - 1, z3.And(self.P(s) == zx(self.f0(k)) - 1))),
                    ('checkpoints called are after the position', z3.Implies(z3.And(UE(k, J), U(J, self.n)), U(self.pos, zx(self.f0(J))))),
                    ('same recording', T.same_stack(s)), ('slots', z3.And(rec_inv({f: T.rec_of(s, T.rec, f) for f in REC}))),
                    ('statements are kept', T.same_vec(s, 'stmt', T.size(s, 'stmt'))), ('checkpoints are kept', self.chk_kept(s, J)),
                    ('all slots have adjoints', UE(self.D0, T.size(s, 'der'))),
                    ('adjoints are those the last step left', self.same_der(s)),
                    ('recording state', T.same_rec(s, ['num', 'ider', 'maxd', 'dinit'])), ('adjoints initialised', T.r(s, 'dinit')),
                    ('active tape', T.same_active(s)),
                    ('@the next checkpoints', z3.And(self.chk_kept(s, k - 1, k - 2), self.ordered(k - 2, k - 1), self.ordered(k - 1, k), self.ordered(J, k - 1), z3.Implies(z3.And(U(k - 1, J)), self.ordered(k - 1, J)), self.wf(k - 1), self.wf(k - 2)))]
        return [LoopSpec(r'computeAdjointsTo\(', 0, inv, lambda V: zx(V.var('i', 32)))]


def prop_spec(name, takes_pos):
    def f(b, v):
        b.active('this')
        T, st = b.T, b.st
        if takes_pos:
            pos = z3.BitVec('pos', 32)
            p64 = zx(pos)
            args = [T.ptr(), pos]
        else:
            st.assume(UE(1, T.r0('sstart')))
            p64 = zx(T.r0('sstart') - 1)
            args = [T.ptr()]
        st.assume(UE(1, T.size0('stmt')))
        pr = Prop(b, p64)
        b.prop = pr
        T.snapshot(st)
        if b.ex.unroll is not None:
            for i in range(4):
                st.assume(pr.wf(bv(i)))
        st.assume(pr.wf(J))
        b.use([(r'^xad::Tape<.*>::computeAdjointsToImpl\(', pr.c_sweep), (r'^xad::Tape<.*>::resetTo\(', pr.c_reset), (r'^xad::Tape<.*>::runCallback\(', pr.c_callback)])

        def post(ex, k, s, r):
            if k == 'throw' and r == 'callback error':
                return [('an error of a callback comes from a callback in range', pr.KK(s) != 0)]
            if k == 'throw':
                return [('the error is raised only when adjoints were not initialised', z3.Not(T.r0('dinit'))), ('the documented error type', thrown(k, r, 'init'))] + T.frame(s) + \
                    [('nothing was propagated', z3.And(pr.KK(s) == pr.n, pr.P(s) == T.size0('stmt') - 1))]
            kk, n0 = pr.KK(s), T.size0('stmt') - 1
            return [('no error is raised only when adjoints were initialised', T.r0('dinit')),
                    ('everything after the position has been propagated, nothing before it', pr.P(s) == z3.If(UE(n0, p64), n0, p64)),
                    ('only checkpoints after the position have been called, each once, latest first', z3.Implies(z3.And(UE(kk, J), U(J, pr.n)), U(p64, zx(pr.f0(J))))),
                    ('every checkpoint after the position has been called', z3.Implies(z3.And(U(J, kk), U(J, pr.n)), UE(zx(pr.f0(J)), p64))),
                    ('adjoints are those the last step left', pr.same_der(s)),
                    ('the recording before the first checkpoint called is kept', z3.And(T.same_vec(s, 'stmt', T.size(s, 'stmt')), T.size(s, 'chk') == kk, pr.chk_kept(s, J))),
                    ('statements are removed only where a checkpoint was called', T.size(s, 'stmt') == z3.If(kk == pr.n, T.size0('stmt'), zx(pr.f0(kk)))),
                    ('same recording', T.same_stack(s)), ('active tape unchanged', T.same_active(s)), ('adjoints stay initialised', T.r(s, 'dinit'))]
        return Spec(b.fn(name), args, post, pr.loop(), kinds=('ret', 'throw'))
    return f


spec('computeAdjointsTo', 'C10', 'C11', 'C12')(prop_spec('computeAdjointsTo', True))
spec('computeAdjoints', 'C07', 'C11', 'C12')(prop_spec('computeAdjoints', False))


# ---- one callback
LIVE0 = z3.Function('live_before', z3.BitVecSort(32), z3.BoolSort())


def guard_loop(b):
    """recordings left open by the callback are closed"""
    T = b.T

    def inv(V):
        s = V.st
        return [('not below the depth at the start', z3.And(UE(T.depth0, bv(T.stack(s).depth)), U(bv(T.stack(s).depth), 1 << 31))),
                ('nothing to close after a balanced callback', z3.Implies(s.ghost['cb_depth'] == T.depth0, z3.And(bv(T.stack(s).depth) == T.depth0, T.size(s, 'der') == s.ghost['cb_nder'])))] + cb_state(b, s)
    return [LoopSpec(r'runCallback\(.*Guard::~Guard\(', 0, inv, lambda V: bv(T.stack(V.st).depth))]


def cb_state(b, s):
    """what holds for the recording from the end of the callback until the guard has done its work"""
    T = b.T
    q = lambda f: T.rec_of(s, T.rec, f)
    n = q('first')
    return [('recording state', z3.And(rec_inv({f: q(f) for f in REC}), T.same_rec(s, ['num', 'ider', 'maxd', 'pmax', 'first', 'dinit']))),
            ('slots of the callback', z3.And(n == b.cb_first, T.rec_of(s, T.rec, 'pmax') == T.r0('maxd'))),
            ('live slots are below the next one', z3.Implies(LIVE(J32), U(J32, q('ider')))),
            ('adjoints of the recording are not removed', UE(T.size0('der'), T.size(s, 'der'))),
            ('the recording is kept', z3.And(*[UE(T.size0(f), T.size(s, f)) for f in ('stmt', 'mult', 'slot')] + [T.same_vec(s, f, T.size0(f)) for f in ('stmt', 'mult', 'slot')])),
            ('its checkpoints are kept', z3.And(UE(T.size0('chk'), T.size(s, 'chk')), T.same_vec(s, 'chk', T.size0('chk')))),
            ('notes', U(T.size(s, 'relo'), 1 << 31)), ('active tape', T.same_active(s)),
            # variables are counted: as many as before means that none of those the callback registered is left
            ('@count', z3.Implies(q('num') == T.r0('num'), z3.Implies(LIVE(J32), U(J32, b.cb_first)))),
            ('@live variables: new ones have slots of the callback', z3.Implies(z3.And(LIVE(J32), U(J32, b.cb_first)), LIVE0(J32)))]


def c_fold_open(b):
    """foldSubrecording (contract proved on its own) closing a recording the callback left open; the one below may be
    another open one or that of the callback"""
    def h(ex, st, d, a, x):
        T = b.T
        S = T.stack(st)
        c = simp(U(T.depth0, bv(S.depth)))
        ex.oblige(st, c, 'only recordings the callback opened are closed')
        st.assume(c)
        known = (T.rec,) if S.known[:1] == (T.rec,) and S.depth is T.depth0 else ()
        sset(ex, st, Ptr(T.reg, T.o('nest')), StackVal(ibin('sub', 64, S.depth, 1), ()))
        st.wcells(T.reg).pop(T.o('cur'), None)
        for f in ('mult', 'slot', 'stmt', 'der', 'chk'):
            v = T.vec(st, f)
            n = ex.fresh_bv('fold_n' + f, 64)
            # it started when the recording had at least its present size
            st.assume(z3.And(UE(n, bv(v.size)), UE(T.size0(f), n)))
            vset(ex, st, Ptr(T.reg, T.o(f)), VecVal(v.reg, n))
        ider0 = T.rec_of(st, T.rec, 'ider')
        for f in ('num', 'ider'):
            ex.store(st, Ptr(T.rec, T.o('rec_' + f)), ex.fresh_bv('fold_' + f, 32), I32)
        ider = T.rec_of(st, T.rec, 'ider')
        st.assume(z3.And(UE(ider, ider0), UE(T.rec_of(st, T.rec, 'first'), ider), UE(T.rec_of(st, T.rec, 'num'), ider), z3.Implies(LIVE(J32), U(J32, ider))))
        rl = ex.arr_region(st, 'relo', 4, {0: (I32, z3.BitVecSort(32))})
        nr = ex.fresh_bv('fold_nrelo', 64)
        st.assume(U(nr, 1 << 31))
        vset(ex, st, Ptr(T.reg, T.o('relo')), VecVal(rl, nr))
        for nm, g in cb_state(b, st):
            if nm[0] == '@':
                st.assume(g)
        return None
    return [(r'^xad::Tape<.*>::foldSubrecording\(\)', h)]


@spec('runCallback', 'C11', 'C09')
def s_runcb(b, v):
    b.active('this')
    T, ex, st = b.T, b.ex, b.st
    c = cbarg(b)
    st.assume(z3.And(U(T.r0('num'), 1 << 31), UE(T.r0('num'), T.r0('ider'))))
    st.assume(z3.Implies(LIVE0(J32), U(J32, T.r0('ider'))))
    st.assume(U(T.size0('der'), 1 << 31))
    b.calls = ex.new_region(st, 'calls', size=8)
    ex.store(st, Ptr(b.calls, 0), 0, I64)
    m = lambda a, c: z3.If(U(a, c), c, a)
    b.cb_first = m(m(T.r0('ider'), T.r0('maxd')), z3.Extract(31, 0, T.size0('der')))
    T.base = (T.depth0, T.rec)
    T.snapshot(st)

    def callback(e, s, d, a, x):
        ex.oblige(s, bz(bv(e.load(s, Ptr(b.calls, 0), I64)) == 0), 'the callback is called once')
        e.store(s, Ptr(b.calls, 0), 1, I64)
        ok = isinstance(a[0], Ptr) and a[0].reg is c.reg and isinstance(a[1], Ptr) and a[1].reg is T.reg and a[1].off == 0
        ex.oblige(s, z3.BoolVal(ok) if not ok else bv(a[0].idx) == c.idx, 'the callback is called with this tape')
        for nm, g in T.frame(s, ['rec']) + [('recording state unchanged', T.same_rec(s, ['pmax', 'first', 'ider']))]:
            ex.oblige(s, g, 'when the callback is called: ' + nm)
        q = lambda f: T.rec_of(s, T.rec, f)
        for nm, g in [('slots of the callback start above all live ones', z3.Implies(LIVE0(J32), U(J32, q('first')))),
                      ('slots of the callback start above all with adjoints', z3.And(UE(T.r0('maxd'), q('first')), UE(T.size0('der'), zx(q('first'))))),
                      ('the next slot is the first of the callback', z3.And(q('ider') == q('first'), q('first') == b.cb_first)),
                      ('the range of slots of the recording is kept for recordings the callback opens', q('pmax') == T.r0('maxd'))]:
            ex.oblige(s, g, 'when the callback is called: ' + nm)
            s.assume(g)
        # effect: anything the members of the tape may do
        depth = s.ghost['cb_depth'] = e.fresh_bv('cb_depth', 64)
        sset(e, s, Ptr(T.reg, T.o('nest')), StackVal(depth, ()))
        s.wcells(T.reg).pop(T.o('cur'), None)
        s.assume(z3.And(UE(T.depth0, depth), U(depth, 1 << 31)))
        for f in VECS:
            w = T.vec(s, f)
            n = e.fresh_bv('cb_n' + f, 64)
            s.assume(U(n, 1 << 31))
            for sub, ty in w.reg.fields.items():
                e.nsym += 1
                srt = w.reg.sorts[sub] if hasattr(w.reg, 'sorts') else zsort(e, s, w.reg, sub)
                e.setarr(s, w.reg, sub, ABase(z3.Const('cb_%s%d' % (f, e.nsym), z3.ArraySort(BV, srt))))
            vset(e, s, Ptr(T.reg, T.o(f)), VecVal(w.reg, n))
        for f in ('num', 'ider', 'maxd'):
            e.store(s, Ptr(T.rec, T.o('rec_' + f)), e.fresh_bv('cb_' + f, 32), I32)
        di = e.fresh('cb_dinit', z3.BoolSort())
        e.store(s, Ptr(T.rec, T.o('rec_dinit')), simp(z3.If(di, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))), ('i', 8))
        for nm, g in cb_state(b, s):
            s.assume(g)
        s.ghost['cb_der'] = {f: (e.zval(s.mem[T.vec(s, 'der').reg][f].sel(J))) for f in T.fs}
        s.ghost['cb_nder'] = T.size(s, 'der')
        return [('ret', s, None), ('throw', s.fork(), 'callback error')]
    b.use([(r'^@?__vc_callback_run', callback)] + c_fold_open(b) + c_release(b))

    def post(e, k, s, r):
        q = lambda f: T.rec_of(s, T.rec, f)
        S = T.stack(s)
        allrel = LIVEB
        g = [('the callback is called exactly once', bv(e.load(s, Ptr(b.calls, 0), I64)) == 1),
             ('the error of the callback is passed on', z3.BoolVal(k == 'ret' or r == 'callback error')),
             ('recordings the callback left open are closed', z3.And(bv(S.depth) == T.depth0, z3.BoolVal(T.cur(s) is T.rec))),
             ('the slots of the recording are its own again', z3.And(q('first') == T.r0('first'), q('pmax') == T.r0('pmax'))),
             ('recording state', T.same_rec(s, ['num', 'ider', 'maxd', 'dinit'])),
             ('live slots are below the next one', z3.Implies(LIVE(J32), U(J32, q('ider')))),
             ('the recording is kept', z3.And(*[UE(T.size0(f), T.size(s, f)) for f in ('stmt', 'mult', 'slot')] + [T.same_vec(s, f, T.size0(f)) for f in ('stmt', 'mult', 'slot')])),
             ('its checkpoints are kept', z3.And(UE(T.size0('chk'), T.size(s, 'chk')), T.same_vec(s, 'chk', T.size0('chk')))),
             ('adjoints of the recording are not removed', UE(T.size0('der'), T.size(s, 'der'))),
             ('active tape unchanged', T.same_active(s))]
        if k == 'ret':
            g += [('adjoints are those the callback left', z3.Implies(z3.And(U(J, T.size(s, 'der')), U(J, z3.ZeroExt(32, b.cb_first))), z3.And(*[T.sel(s, 'der', J, f) == s.ghost['cb_der'][f] for f in T.fs]))),
                  ('adjoints are removed only from the slots of the callback, if it was balanced', z3.Implies(s.ghost['cb_depth'] == T.depth0, z3.Or(T.size(s, 'der') == s.ghost['cb_nder'], z3.And(U(zx(b.cb_first), s.ghost['cb_nder']), T.size(s, 'der') == zx(b.cb_first)))))]
        return g
    LIVEB = LIVE(J32)
    return Spec(b.fn('runCallback'), [T.ptr(), c], post, guard_loop(b), kinds=('ret', 'throw'))


def zsort(e, s, reg, sub):
    z = s.mem[reg][sub].sel(z3.BitVec('srtprobe', 64))
    return (z if z3.is_expr(z) else e.zval(z, reg.fields[sub])).sort()


def module(scr, defs=()):
    p = scr.write('tapedrv.cpp', SRC)
    return ir.load(scr.ll(p, 'tapedrv%d.ll' % len(defs), defs=defs, extra=['-fno-discard-value-names']))


def task(ctx, mod, name, t, cfg):
    props, types, f, v = SPECS[name]
    verify(ctx, 'Tape<%s>::%s%s' % (NAME[t], name, '' if cfg == 'default' else ' (%s)' % cfg), mod, maker(f, t, v), CONTRACTS, timeout=15000, budget=120, sample=False)


def maker(f, t, v):
    def make(ex, st):
        ex.vc_timeout = 10000
        b = B(ex, st, t)
        sp = f(b, v)
        b.ghosts()
        return sp
    if hasattr(f, 'scenarios'):
        make.scenarios = f.scenarios
    return make


def setup(chk, pid):
    mod = module(chk.scratch)
    for n, (props, types, f, v) in SPECS.items():
        if pid in props:
            for t in types:
                chk.task('%s %s' % (n, t), task, mod, n, t, 'default')
