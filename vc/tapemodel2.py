"""The whole Tape object as symbolic state: all containers as abstract sequences, the stack of nested recordings, the
callbacks as objects of unknown type.  Contracts of the standard containers as far as the tape uses them."""
import re
import z3
from . import sym, ir
from .sym import *
from .sym import PathEnd
from .ir import DOUBLE, FLOAT, PTR
from .tapemodel import TapeM, SEQ, EXC, LAYOUT_CPP, vget, vset, off, elem_copy, fill_range, seq_resize, seq_push, seq_clear, seq_size, seq_empty, seq_at, stub_none, set_active, get_active, I32, I64

U, UE = z3.ULT, z3.ULE
BV = z3.BitVecSort(64)
bv = lambda x: bvz(x, 64)
REC = ('num', 'ider', 'maxd', 'sstart', 'ostart', 'sder', 'pmax', 'first', 'sslots', 'dinit')
VECS = ('mult', 'slot', 'stmt', 'der', 'relo', 'chk', 'cbs')
INVALID = 0xffffffff


class StackVal:
    """stack of nested recordings: depth, and the regions of the topmost ones (last = top)"""

    def __init__(self, depth, known):
        self.depth, self.known = depth, tuple(known)

    def havoc(self, ex):
        return StackVal(ex.fresh_bv('hdepth', 64), ())


def sget(ex, st, p):
    v = st.mem[p.reg].get(('s', p.off))
    if v is None:
        raise Undecided('stack without abstract value')
    return v


def sset(ex, st, p, v):
    st.wcells(p.reg)[('s', p.off)] = v
    if st.log is not None:
        st.log.append((p.reg, ('s', p.off), None))


def rec_fields(ex, st, reg, pre):
    """an arbitrary sub-recording that satisfies the tape invariants"""
    o = ex.tape.o
    v = {}
    for f in REC[:-1]:
        v[f] = ex.fresh_bv(pre + f, 32)
        ex.store(st, Ptr(reg, o('rec_' + f)), v[f], I32)
    di = ex.fresh(pre + 'dinit', z3.BoolSort())
    v['dinit'] = di
    ex.store(st, Ptr(reg, o('rec_dinit')), simp(z3.If(di, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))), ('i', 8))
    st.assume(rec_inv(v))
    return v


def rec_inv(r):
    return z3.And(U(r['ider'], 1 << 31), U(r['maxd'], 1 << 31), UE(r['num'], r['ider']), UE(r['first'], r['ider']))


def top_region(ex, st, p):
    s = sget(ex, st, p)
    if s.known:
        return s.known[-1]
    r = ex.new_region(st, 'outerrec', size=ex.tape.o('rec_sizeof'))
    ex.tape.outer.append((r, rec_fields(ex, st, r, 'outer%d_' % len(ex.tape.outer))))
    sset(ex, st, p, StackVal(s.depth, (r,)))
    return r


def st_push(ex, st, d, a, x):
    s = sget(ex, st, a[0])
    r = ex.new_region(st, 'newrec', size=ex.tape.o('rec_sizeof'))
    ex.memcpy(st, Ptr(r, 0), a[1], ex.tape.o('rec_sizeof'))
    sset(ex, st, a[0], StackVal(ibin('add', 64, s.depth, 1), s.known + (r,)))
    return None


def st_pop(ex, st, d, a, x):
    s = sget(ex, st, a[0])
    c = simp(bv(s.depth) != 0)
    ex.oblige(st, c, 'the stack of recordings is not empty')
    st.assume(c)
    top_region(ex, st, a[0])
    s = sget(ex, st, a[0])
    sset(ex, st, a[0], StackVal(ibin('sub', 64, s.depth, 1), s.known[:-1]))
    return None


def st_top(ex, st, d, a, x):
    s = sget(ex, st, a[0])
    c = simp(bv(s.depth) != 0)
    ex.oblige(st, c, 'the stack of recordings is not empty')
    st.assume(c)
    return Ptr(top_region(ex, st, a[0]), 0)


def st_size(ex, st, d, a, x):
    return sget(ex, st, a[0]).depth


def st_empty(ex, st, d, a, x):
    return icmp('eq', 64, sget(ex, st, a[0]).depth, 0)


def st_ctor(ex, st, d, a, x):
    if len(a) == 1:
        st.wcells(a[0].reg)[('s', a[0].off)] = StackVal(0, ())
    else:
        st.wcells(a[0].reg)[('s', a[0].off)] = sget(ex, st, a[1])
        sset(ex, st, a[1], StackVal(0, ()))
    return None


def st_assign(ex, st, d, a, x):
    v = sget(ex, st, a[1])
    if '&&' not in d:
        raise Undecided('copy of the recording stack')
    if a[0].reg is not a[1].reg or a[0].off != a[1].off:
        sset(ex, st, a[0], v)
        sset(ex, st, a[1], StackVal(0, ()))
    return a[0]


# ------------------------------------------------------------------ std::vector
def elt(ex, d):
    """element layout of the container type named in d (the tape's own element type is ex.tape_elt)"""
    m = re.search(r'(?:std::vector|ChunkContainer)<(.*)', d).group(1)
    if re.match(r'std::pair<unsigned int, xad::CheckpointCallback', m):
        return 16, {0: I32, 8: PTR}
    if re.match(r'std::pair<unsigned int, unsigned int>', m):
        return 8, {0: I32, 4: I32}
    if re.match(r'unsigned int', m):
        return 4, {0: I32}
    if re.match(r'xad::CheckpointCallback<.*>\*', m):
        return 8, {0: PTR}
    if re.match(r'(double|float|xad::[AF]Real<)', m):
        return ex.tape_elt
    raise Undecided('container of ' + m[:60])


def sort_of(ex, t):
    return BV if t == PTR else (z3.BitVecSort(t[1]) if t[0] == 'i' else ex.dom.sort_of(t))


def new_arr(ex, st, d):
    stride, fl = elt(ex, d)
    ex.nvec = getattr(ex, 'nvec', 0) + 1
    return ex.arr_region(st, 'vec%d' % ex.nvec, stride, {k: (t, sort_of(ex, t)) for k, t in fl.items()},
                         tag=ex.cbtag if PTR in fl.values() else None)


def v_ctor(ex, st, d, a, x):
    if len(a) == 1:
        st.wcells(a[0].reg)[('v', a[0].off)] = VecVal(new_arr(ex, st, d), 0)
        return None
    if len(a) == 2 and d.rstrip().endswith('&&)'):
        st.wcells(a[0].reg)[('v', a[0].off)] = vget(ex, st, a[1])
        vset(ex, st, a[1], VecVal(new_arr(ex, st, d), 0))
        return None
    return NotImplemented


def v_dtor(ex, st, d, a, x):
    vget(ex, st, a[0])
    del st.wcells(a[0].reg)[('v', a[0].off)]
    return None


def v_assign(ex, st, d, a, x):
    if not d.rstrip().endswith('&&)'):
        return NotImplemented
    if a[0].reg is a[1].reg and a[0].off == a[1].off:
        return a[0]
    v = vget(ex, st, a[1])
    vget(ex, st, a[0])
    vset(ex, st, a[0], v)
    vset(ex, st, a[1], VecVal(new_arr(ex, st, d), 0))
    return a[0]


def v_swap(ex, st, d, a, x):
    v, w = vget(ex, st, a[0]), vget(ex, st, a[1])
    vset(ex, st, a[0], w)
    vset(ex, st, a[1], v)
    return None


def v_begin(ex, st, d, a, x):
    return Ptr(vget(ex, st, a[0]).reg, 0, 0)


def v_end(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    return Ptr(v.reg, 0, v.size)


def v_back(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    c = simp(bv(v.size) != 0)
    ex.oblige(st, c, 'back() of a non-empty vector')
    st.assume(c)
    return Ptr(v.reg, 0, ibin('sub', 64, v.size, 1))


def v_front(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    c = simp(bv(v.size) != 0)
    ex.oblige(st, c, 'front() of a non-empty vector')
    st.assume(c)
    return Ptr(v.reg, 0, 0)


def v_pop(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    c = simp(bv(v.size) != 0)
    ex.oblige(st, c, 'pop_back() of a non-empty vector')
    st.assume(c)
    vset(ex, st, a[0], VecVal(v.reg, ibin('sub', 64, v.size, 1)))
    return None


def v_erase(ex, st, d, a, x):
    if len(a) != 3:
        return NotImplemented
    v = vget(ex, st, a[0])
    f, l = a[1], a[2]
    if f.reg is not v.reg or l.reg is not v.reg:
        raise Undecided('erase')
    c = simp(z3.And(bv(l.idx) == bv(v.size), UE(bv(f.idx), bv(v.size))))
    ex.oblige(st, c, 'erase up to the end of the vector')
    st.assume(c)
    vset(ex, st, a[0], VecVal(v.reg, f.idx))
    return Ptr(v.reg, 0, f.idx)


def v_data(ex, st, d, a, x):
    return Ptr(vget(ex, st, a[0]).reg, 0, 0)


def a_fill(ex, st, d, a, x):
    f, l, src = a
    if f.reg is not l.reg or f.reg.kind != 'arr':
        raise Undecided('fill')
    c = simp(UE(bv(f.idx), bv(l.idx)))
    ex.oblige(st, c, 'fill over a valid range')
    st.assume(c)
    fill_range(ex, st, f.reg, f.idx, l.idx, src)
    return None


VEC = r'^(?:void )?std::vector<.*>::'
CHK = r'^(?:void )?xad::ChunkContainer<.*>::'
STK = r'^std::stack<xad::Tape<.*>::SubRecording, .*>::'
CONTRACTS = [
    (VEC + r'operator\[\]\(', seq_at), (VEC + r'size\(\) const', seq_size), (VEC + r'empty\(\) const', seq_empty),
    (VEC + r'push_back\(', seq_push), (VEC + r'back\(\)', v_back), (VEC + r'front\(\)', v_front), (VEC + r'pop_back\(\)', v_pop),
    (VEC + r'c?begin\(\)', v_begin), (VEC + r'c?end\(\)', v_end), (VEC + r'data\(\)', v_data),
    (VEC + r'erase\(', v_erase), (VEC + r'resize\(', seq_resize), (VEC + r'clear\(\)', seq_clear),
    (VEC + r'swap\(', v_swap), (VEC + r'vector\(', v_ctor), (VEC + r'~vector\(', v_dtor), (VEC + r'operator=\(', v_assign),
    (CHK + r'ChunkContainer\(', v_ctor), (CHK + r'~ChunkContainer\(', v_dtor), (CHK + r'operator=\(', v_assign),
    (STK + r'push\(', st_push), (STK + r'emplace', st_push), (STK + r'pop\(\)', st_pop), (STK + r'top\(\)', st_top), (STK + r'size\(\)', st_size),
    (STK + r'empty\(\)', st_empty), (STK + r'(?:stack|~stack)', lambda ex, st, d, a, x: None if '~' in d else st_ctor(ex, st, d, a, x)),
    (STK + r'operator=\(', st_assign),
    (r'^void std::fill<__gnu_cxx::__normal_iterator<', a_fill),
] + SEQ + EXC


ELEM = {'d': (DOUBLE, {0: (DOUBLE, None)}, 8), 'f': (FLOAT, {0: (FLOAT, None)}, 4), 'F': (DOUBLE, {0: (DOUBLE, None), 8: (DOUBLE, None)}, 16)}
NAME = {'d': 'double', 'f': 'float', 'F': 'FReal<double>'}
MANGLE = {'d': 'd', 'f': 'f', 'F': 'NS_5FRealIdEE'}


class TapeX(TapeM):
    def __init__(self, ex, st, t, pre=''):
        el, fl, stride = ELEM[t]
        ex.tape_elt = (stride, {k: v[0] for k, v in fl.items()})
        ex.tape = self
        self.outer = []
        TapeM.__init__(self, ex, st, t, el, fields=fl, stride=stride, pre=pre)
        self.fs = sorted(fl)
        o = self.o
        # callbacks: objects of unknown class at unknown addresses, reached through a virtual table
        if not hasattr(ex, 'cbobj'):
            ex.cbobj = ex.arr_region(st, 'callback', 8, {0: (PTR, BV)})
            ex.vtab = ex.new_region(st, 'vtable', size=24)
            for i, n in enumerate(('@__vc_callback_run', '@__vc_callback_dtor', '@__vc_callback_delete')):
                ex.store(st, Ptr(ex.vtab, 8 * i), FnPtr(n), PTR)
            ex.cbobj.tag = {'ptrmap': lambda e, s, p, v: Ptr(e.vtab, 0), 'addr': lambda p: p.idx}
            ex.cbtag = {'ptrmap': lambda e, s, p, v: Ptr(e.cbobj, 0, lower(v) if z3.is_expr(v) else v)}
        self.chk = ex.arr_region(st, pre + 'chk', 16, {0: (I32, z3.BitVecSort(32)), 8: (PTR, BV)}, tag=ex.cbtag)
        self.cbs = ex.arr_region(st, pre + 'cbs', 8, {0: (PTR, BV)}, tag=ex.cbtag)
        self.nchk0 = z3.BitVec(pre + 'nchk', 64)
        self.ncbs0 = z3.BitVec(pre + 'ncbs', 64)
        st.assume(U(self.nchk0, 1 << 31))
        st.assume(U(self.ncbs0, 1 << 31))
        w = st.wcells(self.reg)
        w[('v', o('chk'))] = VecVal(self.chk, self.nchk0)
        w[('v', o('cbs'))] = VecVal(self.cbs, self.ncbs0)
        self.depth0 = z3.BitVec(pre + 'depth', 64)
        st.assume(z3.And(UE(1, self.depth0), U(self.depth0, 1 << 31)))
        w[('s', o('nest'))] = StackVal(self.depth0, (self.rec,))
        st.assume(rec_inv(self.recv))
        self.snapshot(st)

    def snapshot(self, st):
        st.own = set()
        self.m0 = dict(st.mem)

    # ------------------------------------------------------------ reading a state
    def size(self, s, f):
        return bv(self.vec(s, f).size)

    def size0(self, f):
        return bv(self.m0[self.reg][('v', self.o(f))].size)

    def sel(self, s, f, j, sub=0):
        v = self.vec(s, f)
        return self.ex.zval(s.mem[v.reg][sub].sel(j), v.reg.fields[sub])

    def sel0(self, f, j, sub=0):
        v = self.m0[self.reg][('v', self.o(f))]
        return self.ex.zval(self.m0[v.reg][sub].sel(j), v.reg.fields[sub])

    base = None     # (depth, region): the recording at that depth, when the stack above it is not known

    def cur(self, s):
        if self.base and s.mem[self.reg].get(self.o('cur')) is None:
            from .contracts import discharge
            g = bv(self.stack(s).depth) == self.base[0]
            if discharge(s.pc, g, self.ex.side, 5000)[0] != 'proved':
                raise Undecided('current recording')
            s.wcells(self.reg)[self.o('cur')] = (Ptr(self.base[1], 0), PTR)
            s.wcells(self.reg)[('s', self.o('nest'))] = StackVal(self.base[0], (self.base[1],))
        p = self.ex.load(s, Ptr(self.reg, self.o('cur')), PTR)
        if not isinstance(p, Ptr) or p.reg is None or p.off:
            raise Undecided('current recording')
        return p.reg

    def rec_of(self, s, reg, f):
        v = self.ex.load(s, Ptr(reg, self.o('rec_' + f)), ('i', 8) if f == 'dinit' else I32)
        return bvz(v, 8) == 1 if f == 'dinit' else bvz(v, 32)

    def r(self, s, f):
        """field of the current recording"""
        return self.rec_of(s, self.cur(s), f)

    def r0(self, f):
        return self.recv[f]

    def stack(self, s):
        return s.mem[self.reg][('s', self.o('nest'))]

    # ------------------------------------------------------------ goals
    def same_vec(self, s, f, n=None):
        """same size and elements as at the start (or the same first n elements)"""
        v, v0 = self.vec(s, f), self.m0[self.reg][('v', self.o(f))]
        j = z3.BitVec('j_any', 64)
        g = []
        if n is None:
            g.append(bv(v.size) == bv(v0.size))
        for sub in v0.reg.fields:
            if v.reg is v0.reg and s.mem[v.reg][sub] is self.m0[v0.reg][sub]:
                continue
            a, b = self.sel(s, f, j, sub), self.sel0(f, j, sub)
            g.append(z3.Implies(U(j, bv(v0.size) if n is None else bv(n)), a == b))
        return z3.And(*g) if g else z3.BoolVal(True)

    def same_rec(self, s, but=(), reg=None):
        reg = reg or self.rec
        return z3.And(*[self.rec_of(s, reg, f) == self.recv[f] for f in REC if f not in but] + [z3.BoolVal(True)])

    def same_stack(self, s):
        a, b = self.stack(s), self.m0[self.reg][('s', self.o('nest'))]
        return z3.And(bv(a.depth) == bv(b.depth), z3.BoolVal(bool(a.known) and a.known[-1] is b.known[-1]), z3.BoolVal(self.cur(s) is self.rec))

    def same_active(self, s):
        g = self.ex.active_reg
        a, b = s.mem[g].get(0), self.m0[g].get(0)
        return z3.BoolVal(a is b or (a is not None and b is not None and same_ptr(a[0], b[0])))

    def frame(self, s, but=()):
        """everything not named in but is as at the start; names: VECS, 'rec', 'rec.x', 'stack', 'active'"""
        g = []
        for f in VECS:
            if f not in but:
                g.append(('%s unchanged' % LONG[f], self.same_vec(s, f)))
        if 'rec' not in but:
            g.append(('recording state unchanged', self.same_rec(s, [b[4:] for b in but if b.startswith('rec.')])))
        if 'stack' not in but:
            g.append(('nested recordings unchanged', self.same_stack(s)))
        if 'active' not in but:
            g.append(('active tape unchanged', self.same_active(s)))
        return g


LONG = dict(mult='factors', slot='operand slots', stmt='statements', der='adjoints', relo='released outer slots', chk='checkpoints', cbs='owned callbacks')


def same_ptr(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.reg is b.reg and a.off == b.off and (a.idx is b.idx or (isinstance(a.idx, int) and a.idx == b.idx) or (z3.is_expr(a.idx) and z3.is_expr(b.idx) and a.idx.eq(b.idx)))
    if isinstance(a, OPtr) and isinstance(b, OPtr):
        return a.e.eq(b.e)
    return False


def active_global(t):
    return '@_ZN3xad4TapeI%sE12active_tape_E' % MANGLE[t]
