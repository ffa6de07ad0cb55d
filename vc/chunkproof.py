"""The contracts of ChunkContainer's members, with the loop invariants (C08)."""
import z3
from . import build, ir, sym
from .sym import *
from .ir import DOUBLE, PTR
from .dom import RealDom
from .loops import LoopSpec
from .contracts import Spec, verify
from .chunkmodel import Cont, CONTRACTS, I1

SRC = r'''
#include <cstddef>
#include <utility>
#include <new>
#include <algorithm>
#include <memory>
#include <vector>
#include <XAD/ChunkContainer.hpp>
struct Obj { double v; unsigned s; Obj(); Obj(const Obj&); Obj(Obj&&); Obj& operator=(const Obj&); ~Obj(); };
typedef std::pair<unsigned, unsigned> Pr;
extern "C" void use(const void*);
#define ONE(t, T, CS) \
  typedef xad::ChunkContainer<T CS> C##t; \
  extern "C" { \
  extern const unsigned long L_##t##_size = sizeof(C##t); \
  extern const unsigned long L_##t##_es = sizeof(T); \
  extern const unsigned long L_##t##_cs = C##t::chunk_size; \
  extern const unsigned long L_##t##_list = __builtin_offsetof(C##t, chunkList_); \
  extern const unsigned long L_##t##_chunk = __builtin_offsetof(C##t, chunk_); \
  extern const unsigned long L_##t##_idx = __builtin_offsetof(C##t, idx_); \
  void K_##t##_ctor(C##t* c) { new (c) C##t(); } \
  void K_##t##_movector(C##t* c, C##t* o) { new (c) C##t(std::move(*o)); } \
  void K_##t##_moveassign(C##t* c, C##t* o) { *c = std::move(*o); } \
  void K_##t##_dtor(C##t* c) { c->~C##t(); } \
  void K_##t##_reserve(C##t* c, unsigned long n) { c->reserve(n); } \
  void K_##t##_clear(C##t* c) { c->clear(); } \
  unsigned long K_##t##_capacity(const C##t* c) { return c->capacity(); } \
  unsigned long K_##t##_getsize(const C##t* c) { return c->size(); } \
  bool K_##t##_empty(const C##t* c) { return c->empty(); } \
  void K_##t##_push(C##t* c, const T* v) { c->push_back(*v); } \
  void K_##t##_emplace(C##t* c, const T* v) { c->emplace_back(*v); } \
  void K_##t##_resize(C##t* c, unsigned long n, const T* v) { c->resize(n, *v); } \
  void K_##t##_resize1(C##t* c, unsigned long n) { c->resize(n); } \
  void K_##t##_append(C##t* c, T* f, T* l) { c->append(f, l); } \
  void K_##t##_assign(C##t* c, unsigned long n, const T* v) { c->assign(n, *v); } \
  const T* K_##t##_at(C##t* c, unsigned long n) { return &(*c)[n]; } \
  const T* K_##t##_cat(const C##t* c, unsigned long n) { return &(*c)[n]; } \
  const T* K_##t##_iter(C##t* c, unsigned long n) { auto it = c->iterator_at(n); ++it; auto o = it++; use(&o); return &*it; } \
  T* K_##t##_chunk(C##t* c, unsigned long n) { return c->chunk_begin()[n]; } \
  }
ONE(d, double, )
ONE(u, unsigned, )
ONE(p, Pr, )
#define COMMA ,
ONE(o, Obj, )
ONE(s, double, COMMA 8)
ONE(r, Obj, COMMA 2)
extern "C" void K_p_emplace2(Cp* c, unsigned a, unsigned b) { c->emplace_back(a, b); }
'''
FIELDS = {'d': {0: DOUBLE}, 's': {0: DOUBLE}, 'u': {0: ('i', 32)}, 'p': {0: ('i', 32), 4: ('i', 32)}, 'o': {0: DOUBLE, 8: ('i', 32)}, 'r': {0: DOUBLE, 8: ('i', 32)}}
TYPES = {'d': 'double', 's': 'double, 8', 'u': 'unsigned', 'p': 'std::pair<unsigned, unsigned>', 'o': 'a class with a destructor', 'r': 'a class with a destructor, 2'}


def params(mod, t):
    g = lambda n: mod.global_info('@L_%s_%s' % (t, n))[1][1]
    return dict(cs=g('cs'), es=g('es'), sizeof=g('size'), list=g('list'), chunk=g('chunk'), idx=g('idx'), fields=FIELDS[t], obj=t in 'or', t=t)


U = z3.ULT
UE = z3.ULE
bv = lambda x: bvz(x, 64)


def conj(*a):
    return z3.And(*[bz(x) for x in a])


def loop_specs(ex, c, K, S):
    """S: dict with the values of the specification (v: element value per field, src: Arr per field, N: count ...)"""
    cs = K['cs']
    j = c.j
    out = []
    st_sz = lambda V: c.size(V.st)

    def data_is(V, j, lo, hi, val):
        """elements below lo as before, lo..hi equal val(field, j)"""
        return conj(*[conj(z3.Implies(U(j, lo), c.elem(V.st, f, j) == c.elem0(f, j)),
                           z3.Implies(conj(UE(lo, j), U(j, hi)), c.elem(V.st, f, j) == val(f, j))) for f in K['fields']])

    def live_below(V, j, hi):
        return c.islive(V.st, j) == U(j, hi) if K['obj'] else z3.BoolVal(True)

    # ---- destruction of [start, end)
    D = r'destructAllImpl<false, true>::make'

    def dstate(V, pos):
        s, e = V.var('start.addr'), V.var('end.addr')
        return lambda j: c.islive(V.st, j) == z3.Or(U(j, s), conj(UE(pos, j), U(j, e)))

    def mk(n, posf, rng, meas):
        def inv(V):
            pos = posf(V)
            L = dstate(V, pos)
            return [('range', rng(V)), ('destroyed so far', L(j)), ('@element at hand', L(pos))]
        out.append(LoopSpec(D, n, inv, meas))
    ln = lambda n: lambda V: V.var(n)
    lcs, lce, ns, ne = ln('lcstart'), ln('lcend'), ln('ncstart'), ln('ncend')
    i_, j_ = ln('i'), ln('j')

    mk(0, lambda V: ns(V) * cs + i_(V), lambda V: conj(UE(lcs(V), i_(V)), UE(i_(V), lce(V))), lambda V: lce(V) - i_(V))
    mk(1, lambda V: ns(V) * cs + i_(V), lambda V: conj(UE(lcs(V), i_(V)), UE(i_(V), cs)), lambda V: cs - i_(V))
    mk(2, lambda V: i_(V) * cs, lambda V: conj(UE(ns(V) + 1, i_(V)), UE(i_(V), ne(V))), lambda V: ne(V) - i_(V))
    mk(3, lambda V: V.var('i') * cs + j_(V), lambda V: conj(UE(ns(V) + 1, i_(V)), U(i_(V), ne(V)), UE(j_(V), cs)), lambda V: cs - j_(V))
    mk(4, lambda V: ne(V) * cs + i_(V), lambda V: conj(UE(i_(V), lce(V))), lambda V: lce(V) - i_(V))

    # ---- reserve
    def inv_reserve(V):
        v = V.st.mem[c.reg][('v', K['list'])]
        return [('blocks', conj(UE(i_(V), ln('d')(V)), bv(v.size) == c_nold(V) + i_(V)))]

    def c_nold(V):
        return ln('nc')(V) - ln('d')(V)
    out.append(LoopSpec(r'::reserve\(', 0, inv_reserve, lambda V: ln('d')(V) - i_(V)))

    # ---- resize (growing)
    if 'v' in S:
        vv = lambda f, j: S['v'][f]

        def inv_resize(V):
            pos = i_(V) * cs + ln('ix')(V)
            first = i_(V) == ln('nc_old')(V)
            return [('range', conj(UE(ln('nc_old')(V), i_(V)), UE(i_(V), ln('nc_new')(V)),
                                   z3.If(first, ln('ix')(V) == c.i0, ln('ix')(V) == 0))),
                    ('elements', data_is(V, j, c.size0, pos, vv)), ('existing elements', live_below(V, j, pos))]
        out.append(LoopSpec(r'::resize\(', 0, inv_resize, lambda V: ln('nc_new')(V) - i_(V)))

        # ---- assign
        def inv_a0(V):
            return [('range', UE(i_(V), ln('nc')(V))), ('elements', conj(*[z3.Implies(U(j, i_(V) * cs), c.elem(V.st, f, j) == S['v'][f]) for f in K['fields']]))]
        out.append(LoopSpec(r'::assign\(', 0, inv_a0, lambda V: ln('nc')(V) - i_(V)))

        def inv_a1(V):
            return [('range', UE(i_(V), c.c0)), ('elements', conj(*[z3.Implies(U(j, i_(V) * cs), c.elem(V.st, f, j) == S['v'][f]) for f in K['fields']]))]
        out.append(LoopSpec(r'::assign\(', 1, inv_a1, lambda V: c.c0 - i_(V)))

        def inv_a2(V):
            first = z3.If(U(c.c0 + 1, ln('nc')(V)), UE(i_(V), ln('nc')(V)), i_(V) == c.c0 + 1)
            pos = z3.If(U(c.c0, ln('nc')(V)), i_(V) * cs, S['N'])
            return [('range', conj(UE(c.c0 + 1, i_(V)), first)), ('elements', conj(*[z3.Implies(U(j, pos), c.elem(V.st, f, j) == S['v'][f]) for f in K['fields']])),
                    ('existing elements', live_below(V, j, pos))]
        out.append(LoopSpec(r'::assign\(', 2, inv_a2, lambda V: z3.If(U(i_(V), ln('nc')(V)), ln('nc')(V) - i_(V), z3.BitVecVal(0, 64))))

    # ---- append
    if 'src' in S:
        sv = lambda f, j: S['src'][f].sel(j - c.size0)
        N = S['N']

        def fi(V, n='first.addr'):
            p = V.var(n)
            if not isinstance(p, Ptr) or p.reg is not S['sreg'] or p.off:
                raise Undecided('source position')
            return bv(p.idx)

        def di(V):
            p = V.var('dst')
            if not isinstance(p, Ptr) or p.reg is not c.data or p.off:
                raise Undecided('destination position')
            return bv(p.idx)

        def inv_p0(V):
            i = i_(V)
            return [('range', conj(UE(i, N), fi(V) == i, di(V) == c.size0 + i)),
                    ('elements', data_is(V, j, c.size0, c.size0 + i, sv)), ('existing elements', live_below(V, j, c.size0 + i)),
                    ('@element at hand', live_below(V, c.size0 + i, c.size0 + i))]
        out.append(LoopSpec(r'::append<', 0, inv_p0, lambda V: N - i_(V)))

        def nd(V):
            return bv(V.st.mem[c.reg][('v', K['list'])].size)

        def inv_p1(V):
            done = N - ln('n')(V)
            ci = bv(V.ex.load(V.st, Ptr(c.reg, K['idx']), ('i', 64)))
            return [('range', conj(UE(ln('n')(V), N), fi(V) == done, c.size(V.st) == c.size0 + done, c.repinv(V.st), UE(nd(V), (1 << 21) + done),
                                   z3.Or(ci == cs, conj(c.size(V.st) == bv(V.ex.load(V.st, Ptr(c.reg, K['chunk']), ('i', 64))) * cs + ci)))),
                    ('elements', data_is(V, j, c.size0, c.size0 + done, sv)), ('existing elements', live_below(V, j, c.size0 + done)),
                    ('@element at hand', live_below(V, c.size0 + done, c.size0 + done))]
        out.append(LoopSpec(r'::append<', 1, inv_p1, lambda V: ln('n')(V)))

        def inv_p2(V):
            done = N - ln('n')(V)
            i = i_(V)
            return [('step', conj(UE(ln('endn')(V), ln('n')(V)), UE(ln('n')(V), N))),
                    ('range', conj(UE(i, ln('endn')(V)), fi(V) == done + i, di(V) == c.size0 + done + i)),
                    ('elements', data_is(V, j, c.size0, c.size0 + done + i, sv)), ('existing elements', live_below(V, j, c.size0 + done + i)),
                    ('@element at hand', live_below(V, c.size0 + done + i, c.size0 + done + i))]
        out.append(LoopSpec(r'::append<', 2, inv_p2, lambda V: ln('endn')(V) - i_(V)))

    # ---- release of the blocks
    def inv_free(V):
        p, e = V.var(r'__begin\d*'), V.var(r'__end\d*')
        i = bv(p.idx)
        fr = lambda b: bz(V.st.mem[c.fr][0].sel(b)) == U(b, i)
        return [('range', UE(i, bv(e.idx))), ('released so far', fr(c.b)), ('@block at hand', fr(i))]
    out.append(LoopSpec(r'::_free_memory\(', 0, inv_free, lambda V: bv(V.var(r'__end\d*').idx) - bv(V.var(r'__begin\d*').idx)))
    return out


def value_obj(ex, st, K, name='v'):
    r = ex.new_region(st, name, size=K['es'])
    vals = {}
    for f, t in K['fields'].items():
        x = ex.fresh_of(name + '_%d' % f, t)
        ex.store(st, Ptr(r, f), x, t)
        vals[f] = x
    return Ptr(r, 0), vals


def ret64(v):
    if isinstance(v, ByteDiff):
        v = v.full()
    return bv(v)


def members(mod, t):
    K = params(mod, t)
    cs = K['cs']
    out = []

    def add(name, build):
        def make(ex, st, build=build):
            ex.K = K
            ex.cont = {}
            return build(ex, st)
        out.append((name, make))

    def std(ex, st, moved=False):
        c = Cont(ex, st, K, 'c', moved=moved)
        return c

    def frame(c, s, hi):
        """elements below hi keep their values and exactly those below the new size exist"""
        return [('elements kept', conj(*[z3.Implies(U(c.j, hi), c.elem(s, f, c.j) == c.elem0(f, c.j)) for f in K['fields']]))]

    def alive(c, s, n):
        return [('exactly the elements below size exist', c.islive(s, c.j) == U(c.j, n))] if K['obj'] else []

    def same(c, s):
        return [('size', c.size(s) == c.size0), ('representation', c.repinv(s))] + frame(c, s, c.size0) + alive(c, s, c.size0)

    def b_ctor(ex, st):
        c = std(ex, st)
        st.pc[:] = []
        c.size0 = z3.BitVecVal(0, 64)
        st.wcells(c.live)[0] = ABase(z3.K(z3.BitVecSort(64), z3.BoolVal(False)))
        ex.store(st, Ptr(c.reg, K['chunk']), z3.BitVec('garbage1', 64), ('i', 64))
        ex.store(st, Ptr(c.reg, K['idx']), z3.BitVec('garbage2', 64), ('i', 64))
        post = lambda ex, k, s, v: [('size', c.size(s) == 0), ('representation', c.repinv(s))] + alive(c, s, 0) if k == 'ret' else []
        return Spec('@K_%s_ctor' % t, [c.ptr()], post, loop_specs(ex, c, K, {}), ('ret', 'throw'))
    add('ChunkContainer()', b_ctor)

    def b_movector(ex, st):
        o = std(ex, st)
        r = ex.new_region(st, 'new', size=K['sizeof'])

        def post(ex, k, s, v):
            ex.cont.setdefault(r, o)
            p = [('size', o.size(s, r) == o.size0), ('representation', o.repinv(s, r)), ('source is empty', o.size(s, o.reg) == 0)]
            vv = s.mem[r][('v', K['list'])]
            p.append(('blocks are taken over', z3.BoolVal(vv.reg is o.blocks and s.mem[o.reg][('v', K['list'])].reg is not o.blocks)))
            return p + frame(o, s, o.size0) + alive(o, s, o.size0)
        ex.cont[r] = o
        return Spec('@K_%s_movector' % t, [Ptr(r, 0), o.ptr()], post, loop_specs(ex, o, K, {}))
    add('ChunkContainer(ChunkContainer&&)', b_movector)

    def b_moveassign(ex, st):
        c = Cont(ex, st, K, 'c', moved=True)
        o = Cont(ex, st, K, 'o')

        def post(ex, k, s, v):
            vv = s.mem[c.reg][('v', K['list'])]
            p = [('size', o.size(s, c.reg) == o.size0), ('representation', o.repinv(s, c.reg)), ('source is empty', o.size(s, o.reg) == 0),
                 ('blocks are taken over', z3.BoolVal(vv.reg is o.blocks and s.mem[o.reg][('v', K['list'])].reg is not o.blocks)),
                 ('old blocks are released', z3.Implies(U(c.b, c.n0), bz(s.mem[c.fr][0].sel(c.b)))),
                 ('new blocks are kept', z3.Not(bz(s.mem[o.fr][0].sel(c.b))))]
            if K['obj']:
                p.append(('old elements are destroyed', z3.Not(c.islive(s, c.j))))
            return p + frame(o, s, o.size0) + alive(o, s, o.size0)
        return Spec('@K_%s_moveassign' % t, [c.ptr(), o.ptr()], post, loop_specs(ex, c, K, {}))
    add('operator=(ChunkContainer&&)', b_moveassign)

    def b_selfassign(ex, st):
        c = std(ex, st)
        return Spec('@K_%s_moveassign' % t, [c.ptr(), c.ptr()], lambda ex, k, s, v: same(c, s) + [('blocks kept', z3.Not(bz(s.mem[c.fr][0].sel(c.b))))], loop_specs(ex, c, K, {}))
    add('operator=(ChunkContainer&&) to itself', b_selfassign)

    def b_dtor(ex, st):
        c = std(ex, st, True)

        def post(ex, k, s, v):
            p = [('every block is released', z3.Implies(U(c.b, c.n0), bz(s.mem[c.fr][0].sel(c.b))))]
            if K['obj']:
                p.append(('every element is destroyed', z3.Not(c.islive(s, c.j))))
            return p
        return Spec('@K_%s_dtor' % t, [c.ptr()], post, loop_specs(ex, c, K, {}))
    add('~ChunkContainer()', b_dtor)

    def b_reserve(ex, st):
        c = std(ex, st)
        n = z3.BitVec('n', 64)
        st.assume(U(n, 1 << 42))

        def post(ex, k, s, v):
            p = same(c, s)
            if k == 'ret':
                p.append(('capacity', z3.UGE(bv(s.mem[c.reg][('v', K['list'])].size) * cs, n)))
            return p
        return Spec('@K_%s_reserve' % t, [c.ptr(), n], post, loop_specs(ex, c, K, {}), ('ret', 'throw'))
    add('reserve(n)', b_reserve)

    def b_clear(ex, st):
        c = std(ex, st, True)
        return Spec('@K_%s_clear' % t, [c.ptr()], lambda ex, k, s, v: [('size', c.size(s) == 0), ('representation', z3.Or(c.n0 == 0, c.repinv(s)))] + alive(c, s, 0), loop_specs(ex, c, K, {}))
    add('clear()', b_clear)

    def b_get(ex, st):
        c = std(ex, st, True)
        return Spec('@K_%s_getsize' % t, [c.ptr()], lambda ex, k, s, v: [('size', ret64(v) == c.size0)], loop_specs(ex, c, K, {}))
    add('size()', b_get)

    def b_empty(ex, st):
        c = std(ex, st, True)
        return Spec('@K_%s_empty' % t, [c.ptr()], lambda ex, k, s, v: [('emptiness', bz(v) == (c.size0 == 0) if not z3.is_bv(v) else (v != 0) == (c.size0 == 0))], loop_specs(ex, c, K, {}))
    add('empty()', b_empty)

    def b_cap(ex, st):
        c = std(ex, st, True)
        return Spec('@K_%s_capacity' % t, [c.ptr()], lambda ex, k, s, v: [('capacity', ret64(v) == c.n0 * cs), ('size within capacity', UE(c.size0, ret64(v)))], loop_specs(ex, c, K, {}))
    add('capacity()', b_cap)

    def pushpost(c, vals):
        def post(ex, k, s, v):
            if k != 'ret':
                return [('size', c.size(s) == c.size0)] + frame(c, s, c.size0)
            return [('size', c.size(s) == c.size0 + 1), ('representation', c.repinv(s)),
                    ('new element', conj(*[z3.Implies(c.j == c.size0, c.elem(s, f, c.j) == vals[f]) for f in K['fields']]))] + frame(c, s, c.size0) + alive(c, s, c.size0 + 1)
        return post

    for nm in ('push', 'emplace'):
        def b_push(ex, st, nm=nm):
            c = std(ex, st)
            p, vals = value_obj(ex, st, K)
            return Spec('@K_%s_%s' % (t, nm), [c.ptr(), p], pushpost(c, vals), loop_specs(ex, c, K, {}), ('ret', 'throw'))
        add(nm + '_back(v)', b_push)
    if t == 'p':
        def b_emp2(ex, st):
            c = std(ex, st)
            a, b = z3.BitVec('a', 32), z3.BitVec('b', 32)
            return Spec('@K_p_emplace2', [c.ptr(), a, b], pushpost(c, {0: a, 4: b}), loop_specs(ex, c, K, {}), ('ret', 'throw'))
        add('emplace_back(a, b)', b_emp2)

    def b_resize(ex, st):
        c = std(ex, st)
        p, vals = value_obj(ex, st, K)
        n = z3.BitVec('n', 64)
        st.assume(U(n, 1 << 42))

        def post(ex, k, s, v):
            if k != 'ret':
                return same(c, s)
            return [('size', c.size(s) == n), ('representation', c.repinv(s)),
                    ('new elements', conj(*[z3.Implies(conj(UE(c.size0, c.j), U(c.j, n)), c.elem(s, f, c.j) == vals[f]) for f in K['fields']]))] + \
                frame(c, s, z3.If(U(n, c.size0), n, c.size0)) + alive(c, s, n)
        return Spec('@K_%s_resize' % t, [c.ptr(), n, p], post, loop_specs(ex, c, K, dict(v=vals)), ('ret', 'throw'))
    add('resize(n, v)', b_resize)

    if not K['obj']:
        def b_resize1(ex, st):
            c = std(ex, st)
            n = z3.BitVec('n', 64)
            st.assume(U(n, 1 << 42))
            z = {f: ex.zval(ex.zero(ty), ty) for f, ty in K['fields'].items()}

            def post(ex, k, s, v):
                if k != 'ret':
                    return same(c, s)
                return [('size', c.size(s) == n), ('representation', c.repinv(s)),
                        ('new elements', conj(*[z3.Implies(conj(UE(c.size0, c.j), U(c.j, n)), c.elem(s, f, c.j) == z[f]) for f in K['fields']]))] + \
                    frame(c, s, z3.If(U(n, c.size0), n, c.size0)) + alive(c, s, n)
            return Spec('@K_%s_resize1' % t, [c.ptr(), n], post, loop_specs(ex, c, K, dict(v=z)), ('ret', 'throw'))
        add('resize(n)', b_resize1)

    def b_assign(ex, st):
        c = std(ex, st)
        p, vals = value_obj(ex, st, K)
        n = z3.BitVec('n', 64)
        st.assume(U(n, 1 << 42))

        def post(ex, k, s, v):
            if k != 'ret':
                return same(c, s)
            return [('size', c.size(s) == n), ('representation', c.repinv(s)),
                    ('elements', conj(*[z3.Implies(U(c.j, n), c.elem(s, f, c.j) == vals[f]) for f in K['fields']]))] + alive(c, s, n)
        return Spec('@K_%s_assign' % t, [c.ptr(), n, p], post, loop_specs(ex, c, K, dict(v=vals, N=n)), ('ret', 'throw'))
    add('assign(n, v)', b_assign)

    def b_append(ex, st):
        c = std(ex, st)
        N = z3.BitVec('n', 64)
        st.assume(U(N, 1 << 40))
        sr = ex.arr_region(st, 'src', K['es'], {o: (ty, ex.dom.sort_of(ty) if ty[0] != 'i' else z3.BitVecSort(ty[1])) for o, ty in K['fields'].items()},
                           check=lambda e, s, p: U(bv(p.idx), N))
        src = {f: st.mem[sr][f] for f in K['fields']}

        def post(ex, k, s, v):
            if k != 'ret':
                return []
            return [('size', c.size(s) == c.size0 + N), ('representation', c.repinv(s)),
                    ('new elements', conj(*[z3.Implies(conj(UE(c.size0, c.j), U(c.j, c.size0 + N)), c.elem(s, f, c.j) == src[f].sel(c.j - c.size0)) for f in K['fields']]))] + \
                frame(c, s, c.size0) + alive(c, s, c.size0 + N)
        return Spec('@K_%s_append' % t, [c.ptr(), Ptr(sr, 0, 0), Ptr(sr, 0, N)], post, loop_specs(ex, c, K, dict(src=src, sreg=sr, N=N)), ('ret', 'throw'))
    add('append(first, last)', b_append)

    for nm in ('at', 'cat', 'iter'):
        def b_at(ex, st, nm=nm):
            c = std(ex, st)
            n = z3.BitVec('n', 64)
            k = 2 if nm == 'iter' else 0
            st.assume(conj(U(n, c.size0), U(n + k, c.size0), UE(n, n + k)))

            def post(ex, kd, s, v):
                ok = isinstance(v, Ptr) and v.reg is c.data and v.off == 0
                if not ok:
                    return [('refers to the element', False)]
                g = c.check(ex, s, v)
                return [('refers to the element', bv(v.idx) == n + k), ('within an allocated block', g)]
            return Spec('@K_%s_%s' % (t, nm), [c.ptr(), n], post, loop_specs(ex, c, K, {}))
        add({'at': 'operator[](n)', 'cat': 'operator[](n) const', 'iter': 'iterator_at(n), ++, ++, *'}[nm], b_at)

    def b_chunk(ex, st):
        c = std(ex, st)
        n = z3.BitVec('n', 64)
        st.assume(U(n, c.n0))
        return Spec('@K_%s_chunk' % t, [c.ptr(), n], lambda ex, k, s, v: [('block n starts at element n * chunk_size', z3.BoolVal(isinstance(v, Ptr) and v.reg is c.data) if not (isinstance(v, Ptr) and v.reg is c.data) else bv(v.idx) == n * cs)], loop_specs(ex, c, K, {}))
    add('chunk_begin()[n]', b_chunk)
    return out


EXTRA = [(r'^use$', lambda ex, st, d, a, x: None)]
_mods = {}


def module(scr):
    p = scr.write('chunkdrv.cpp', SRC)
    ll = scr.ll(p, 'chunkdrv.ll', extra=['-fno-discard-value-names'])
    return ir.load(ll)


def task(ctx, mod, t, name, make):
    verify(ctx, 'ChunkContainer<%s>::%s' % (TYPES[t], name), mod, make, CONTRACTS + EXTRA)


def setup(chk):
    mod = module(chk.scratch)
    rows = []
    for t in ('o', 's', 'd', 'u', 'p', 'r'):
        for name, make in members(mod, t):
            rows.append((('append' in name) * 2 + ('assign' in name), t, name, make))
    rows.sort(key=lambda r: -r[0])
    for _, t, name, make in rows:
        chk.task('%s %s' % (t, name), task, mod, t, name, make)
