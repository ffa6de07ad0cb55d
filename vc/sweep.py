"""The reverse sweep (Tape::computeAdjointsToImpl) under contract: for every recording, every pair of positions and every
vector of adjoints, the adjoint vector it leaves is the one the recursion of the reverse mode defines (C07, C10, C18).

Ghost functions (defined by their instances, assumed where an iteration needs them):
  A(i)       the adjoint vector before statement i is processed;  A(start) is the initial one
  B(i, k)    the adjoint vector within statement i, when the operations before operation k are done
  B(i, end(i-1)) = A(i)[target(i) := 0]
  B(i, k+1)      = B(i, k)[slot(k) += multiplier(k) * A(i)[target(i)]]
  A(i-1)         = B(i, end(i)), or A(i)[target(i) := 0] if A(i)[target(i)] is zero (the same, see the lemma)"""
import z3
from . import ir, sym, build
from .sym import *
from .ir import DOUBLE, FLOAT, PTR
from .dom import RealDom
from .loops import LoopSpec
from .contracts import Spec, verify, discharge
from .tapemodel import TapeM, SEQ, EXC, LAYOUT_CPP, vget, off

U, UE = z3.ULT, z3.ULE
BV = z3.BitVecSort(64)
bv = lambda x: bvz(x, 64)

SRC = r'''
#include <Tape.cpp>
#include <XAD/XAD.hpp>
''' + LAYOUT_CPP + r'''
typedef xad::FReal<double> FD;
OFF_T(d, double)
OFF_T(f, float)
OFF_T(F, FD)
extern "C" {
extern const unsigned long L_CS = xad::TapeContainerTraits<std::pair<unsigned, unsigned> >::type::chunk_size;
#define W(t, S) void W_##t##_impl(xad::Tape<S>* t, unsigned pos, unsigned start) { t->computeAdjointsToImpl(pos, start); }
W(d, double) W(f, float) W(F, FD)
}
'''
ELEM = {'d': (DOUBLE, {0: (DOUBLE, None)}, None), 'f': (FLOAT, {0: (FLOAT, None)}, None), 'F': (DOUBLE, {0: (DOUBLE, None), 8: (DOUBLE, None)}, 16)}
NAME = {'d': 'double', 'f': 'float', 'F': 'FReal<double>'}


def fma_fields(t, m, a, d):
    """d + m * a on the element type, by field"""
    if t == 'F':
        return {0: d[0] + m[0] * a[0], 8: d[8] + m[8] * a[0] + m[0] * a[8]}
    return {0: d[0] + m[0] * a[0]}


class Ghost:
    def __init__(self, ex, st, t, tp, start):
        self.t, self.tp = t, tp
        self.fs = sorted(ELEM[t][1])
        rs = ex.dom.sort_of(ELEM[t][0])
        self.A_ = {f: z3.Function('A%d' % f, BV, z3.ArraySort(BV, rs)) for f in self.fs}
        self.B_ = {f: z3.Function('B%d' % f, BV, BV, z3.ArraySort(BV, rs)) for f in self.fs}
        self.m0 = {f: st.mem[tp.mult][f].toz() for f in self.fs}
        self.s0 = st.mem[tp.slot][0].toz()
        self.e0 = st.mem[tp.stmt][0].toz()
        self.t0 = st.mem[tp.stmt][4].toz()
        self.d0 = {f: st.mem[tp.der][f].toz() for f in self.fs}
        self.start = start

    def A(self, i):
        return {f: self.A_[f](bv(i)) for f in self.fs}

    def B(self, i, k):
        return {f: self.B_[f](bv(i), bv(k)) for f in self.fs}

    def end(self, i):
        return z3.ZeroExt(32, z3.Select(self.e0, bv(i)))

    def tgt(self, i):
        return z3.ZeroExt(32, z3.Select(self.t0, bv(i)))

    def slot(self, k):
        return z3.ZeroExt(32, z3.Select(self.s0, bv(k)))

    def at(self, arrs, j):
        return {f: z3.Select(arrs[f], j) for f in self.fs}

    def eq(self, x, y):
        return z3.And(*[x[f] == y[f] for f in self.fs])

    def init(self):
        return self.eq(self.A(self.start), self.d0)

    def stmt_inst(self, i):
        """what the recursion says about statement i (first part of the definition) and its well-formedness"""
        i = bv(i)
        A, t = self.A(i), self.tgt(i)
        a = self.at(A, t)
        nul = {f: z3.Store(A[f], t, 0) for f in self.fs}
        zero = z3.And(*[a[f] == 0 for f in self.fs])
        return z3.And(self.eq(self.B(i, self.end(i - 1)), nul),
                      z3.If(zero, self.eq(self.A(i - 1), nul), self.eq(self.A(i - 1), self.B(i, self.end(i)))),
                      U(t, self.tp.nder0), UE(self.end(i - 1), self.end(i)), UE(self.end(i), self.tp.nops0))

    def op_inst(self, i, k):
        i, k = bv(i), bv(k)
        s = self.slot(k)
        a = self.at(self.A(i), self.tgt(i))
        b = self.B(i, k)
        new = fma_fields(self.t, {f: z3.Select(self.m0[f], k) for f in self.fs}, a, self.at(b, s))
        return z3.And(self.eq(self.B(i, k + 1), {f: z3.Store(b[f], s, new[f]) for f in self.fs}), U(s, self.tp.nder0))


def der(V_or_st, G):
    st = getattr(V_or_st, 'st', V_or_st)
    return {f: st.mem[G.tp.der][f].toz() for f in G.fs}


def loops_of(ex, G, pos64, start64, cs, blocks):
    FN = r'Tape<.*>::computeAdjointsToImpl\('
    w = lambda V, n: bv(V.var(n))
    sc, ec = z3.UDiv(start64, cs), z3.UDiv(pos64 + 1, cs)
    el = z3.URem(pos64 + 1, cs)

    def blk(V):
        p = V.var('chunk_it')
        if not isinstance(p, Ptr) or p.reg is not blocks or p.off:
            raise Undecided('block position')
        return bv(p.idx)

    def outer(V):
        c, idx, eidx = blk(V), w(V, 'idx'), w(V, 'endidx')
        cur = z3.And(UE(ec, c), UE(c, sc), z3.If(c == sc, idx == z3.URem(start64, cs), idx == cs - 1),
                     eidx == z3.If(sc == ec, el, z3.BitVecVal(0, 64)))
        return [('block', z3.Or(c + 1 == ec, cur)),
                ('adjoints', z3.If(c + 1 == ec, G.eq(der(V, G), G.A(pos64)), G.eq(der(V, G), G.A(c * cs + idx))))]

    def here(V):
        p = V.var('it')
        if not isinstance(p, Ptr) or p.reg is not G.tp.stmt or p.off:
            raise Undecided('statement position')
        return p

    def inner(V):
        p, e = here(V), V.var('eit')
        i, c = bv(p.idx), blk(V)
        if p.ck is None:
            raise Undecided('block of the statement position')
        return [('position', z3.And(UE(bv(e.idx), i), U(i, c * cs + cs), bv(p.ck) == c, UE(i, start64), U(pos64, bv(e.idx)))),
                ('adjoints', G.eq(der(V, G), G.A(i))), ('@statement at hand', G.stmt_inst(i))]

    def ops(ifn):
        def inv(V):
            i = ifn(V)
            k = z3.ZeroExt(32, bvz(V.var('opi', 32), 32))
            return [('operations', z3.And(UE(G.end(i - 1), k), UE(k, G.end(i)))),
                    ('adjoints', G.eq(der(V, G), G.B(i, k))), ('@operation at hand', z3.And(G.op_inst(i, k), G.stmt_inst(i)))]

        def meas(V):
            return z3.ZeroExt(32, bvz(V.var('ope', 32), 32) - bvz(V.var('opi', 32), 32))
        return inv, meas
    i2 = lambda V: bv(here(V).idx)
    i3 = lambda V: blk(V) * cs + w(V, 'endidx')
    a, b = ops(i2), ops(i3)
    return [LoopSpec(FN, 0, outer, lambda V: blk(V) + 1 - ec), LoopSpec(FN, 1, inner, lambda V: bv(here(V).idx) - bv(V.var('eit').idx)),
            LoopSpec(FN, 2, *a), LoopSpec(FN, 3, *b)]


def chunk_model(ex, st, tp, cs):
    """block c of the statement list holds statements c*cs ... (C08)"""
    def check(e, s, p):
        n = bv(vget(e, s, Ptr(tp.reg, tp.o('stmt'))).size)
        if p.ck is None:
            return U(bv(p.idx), n)
        ck = bv(p.ck)
        return z3.And(U(bv(p.idx) - ck * cs, cs), UE(ck * cs, bv(p.idx)), U(bv(p.idx), n))
    tp.stmt.check = check
    nb = lambda s: z3.UDiv(bv(vget(ex, s, Ptr(tp.reg, tp.o('stmt'))).size), cs) + 1
    return ex.arr_region(st, 'stmt_blocks', 8, {0: (PTR, BV)}, check=lambda e, s, p: U(bv(p.idx), nb(s)),
                         tag={'ptrmap': lambda e, s, p, v: Ptr(tp.stmt, 0, ibin('mul', 64, p.idx, cs), p.idx)})


def std_at(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    c = icmp('ult', 64, a[1], v.size)
    if not (isinstance(c, int) and c == 1):
        ex.oblige(st, c, 'vector index in range')
        if isinstance(c, int):
            raise PathEnd('index')
        st.assume(c)
    return Ptr(v.reg, 0, a[1])


def builder(mod, t):
    cs = mod.global_info('@L_CS')[1][1]

    def make(ex, st):
        el, fl, stride = ELEM[t]
        tp = TapeM(ex, st, t, el, fields=fl, stride=stride)
        blocks = chunk_model(ex, st, tp, cs)
        ex.stmt_blocks = blocks
        pos, start = z3.BitVec('pos', 32), z3.BitVec('start', 32)
        p64, s64 = z3.ZeroExt(32, pos), z3.ZeroExt(32, start)
        if ex.scenario:
            st.assume(tp.nstmt0 == ex.scenario[1] + 1)
            pos, start = ex.scenario
            p64, s64 = z3.BitVecVal(pos, 64), z3.BitVecVal(start, 64)
        else:
            st.assume(UE(pos, start))
            st.assume(U(s64, tp.nstmt0))
        G = Ghost(ex, st, t, tp, s64)
        st.assume(G.init())
        if ex.unroll is not None:
            for i in range(pos + 1, start + 1):
                st.assume(G.stmt_inst(i))
                e = G.end(i - 1)
                st.assume(UE(G.end(i) - e, 2))
                for k in range(2):
                    st.assume(z3.Implies(U(e + k, G.end(i)), G.op_inst(i, e + k)))
        m0 = dict(st.mem)

        def post(ex, k, s, v):
            same = [z3.BoolVal(bool(s.mem[r][f] is m0[r][f])) for r in (tp.mult, tp.slot, tp.stmt) for f in s.mem[r]]
            sizes = [bv(tp.vec(s, n).size) == bv(m0[tp.reg][('v', tp.o(n))].size) for n in ('mult', 'slot', 'stmt', 'der', 'relo')]
            cells = [bz(s.mem[r][o][0] is m0[r][o][0] or s.mem[r][o][0] == m0[r][o][0]) for r in (tp.rec,) for o in m0[r] if isinstance(o, int)]
            return [('the adjoints are those of the reverse recursion down to pos', G.eq(der(s, G), G.A(p64))),
                    ('the recording is unchanged', z3.And(*same)), ('no container changes its size', z3.And(*sizes)),
                    ('the recording state is unchanged', z3.And(*cells))]
        return Spec('@W_%s_impl' % t, [tp.ptr(), pos, start], post, loops_of(ex, G, p64, s64, cs, blocks))
    make.scenarios = [(0, 2), (cs - 2, cs), (cs - 1, cs), (cs - 1, cs + 1), (cs, cs + 1), (5, 5), (cs - 3, 2 * cs + 1 if cs <= 4 else cs - 1)]
    return make


def c_chunk_begin(ex, st, d, a, x):
    vget(ex, st, a[0])
    return Ptr(ex.stmt_blocks, 0, 0)


VEC = r'^std::vector<.*>::'
CONTRACTS = [(r'ChunkContainer<std::pair<unsigned int, unsigned int>.*>::chunk_begin\(\)', c_chunk_begin),
             (VEC + r'operator\[\]\(', std_at)] + SEQ + EXC


def lemmas(ctx):
    """facts about the recursion itself (no code involved): skipping statements with a zero adjoint, and the duality
    with the tangent recursion"""
    R = z3.RealSort()
    AR = z3.ArraySort(BV, R)
    A, V, T = z3.Const('A', AR), z3.Const('V', AR), z3.Const('T', AR)
    t, s, k = z3.BitVecs('t s k', 64)
    m, P = z3.Reals('m P')

    def ob(name, pc, goal):
        r, md, dt = discharge(pc, goal)
        ctx.solver_s += dt
        ctx.results.append(dict(name='lemma: ' + name, fn='lemma', status='proved' if r == 'proved' else 'undecided', backend='z3', secs=round(dt, 3), detail=''))
    # a == 0: every operation leaves the vector as it is
    B = z3.Store(A, t, 0)
    ob('an operation with zero adjoint changes nothing', [z3.Select(A, t) == 0], z3.Store(B, s, z3.Select(B, s) + m * z3.Select(A, t)) == B)
    # duality: dot is a finite sum over the slots, hence dot(X[s := x], V) = dot(X, V) + (x - X[s]) V[s], and symmetrically
    dot = z3.Function('dot', AR, AR, R)

    def d1(X, s, x, V):
        return dot(z3.Store(X, s, x), V) == dot(X, V) + (x - z3.Select(X, s)) * z3.Select(V, s)

    def d2(X, V, s, x):
        return dot(X, z3.Store(V, s, x)) == dot(X, V) + z3.Select(X, s) * (x - z3.Select(V, s))
    a = z3.Select(A, t)
    Bk = z3.Const('Bk', AR)
    inv = lambda Bx, Px: dot(Bx, V) == dot(z3.Store(A, t, 0), V) + a * Px
    ob('duality, before the first operation', [], inv(z3.Store(A, t, 0), z3.RealVal(0)))
    nb = z3.Select(Bk, s) + m * a
    ob('duality, one operation: the tangent sum grows by multiplier * tangent of the operand', [inv(Bk, P), d1(Bk, s, nb, V)], inv(z3.Store(Bk, s, nb), P + m * z3.Select(V, s)))
    ob('duality, one statement: <adjoint, tangent> is the same before and after it', [inv(Bk, P), d1(A, t, z3.RealVal(0), V), d2(A, V, t, P)],
       dot(Bk, V) == dot(A, z3.Store(V, t, P)))
    ob('a target that is also an operand: its adjoint is taken before it is cleared', [t == s], z3.Select(z3.Store(B, s, z3.Select(B, s) + m * a), t) == m * a)


def module(scr, defs=()):
    p = scr.write('sweepdrv.cpp', SRC)
    return ir.load(scr.ll(p, 'sweepdrv%d.ll' % len(defs), defs=defs, extra=['-fno-discard-value-names']))


def task(ctx, mod, t):
    verify(ctx, 'Tape<%s>::computeAdjointsToImpl' % NAME[t], mod, builder(mod, t), CONTRACTS, timeout=20000, budget=200, sample=True)


def setup(chk, types='dfF'):
    mod = module(chk.scratch)
    for t in types:
        chk.task('sweep ' + t, task, mod, t)
    chk.task('sweep lemmas', lemmas)
