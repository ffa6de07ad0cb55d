"""Symbolic Tape objects and the sequence contracts of the storage classes (proved separately by C08)."""
import z3
from . import sym, ir
from .sym import *
from .ir import DOUBLE, FLOAT, PTR

I32 = ('i', 32)
I64 = ('i', 64)


def off(mod, name):
    n = '@' + name
    if n not in mod.globals:
        raise Undecided('no layout constant ' + name)
    ty, init, tls, const = mod.global_info(n)
    return init[1]


# ------------------------------------------------------------------ abstract sequence pseudo cells
def vget(ex, st, p):
    if not isinstance(p, Ptr) or p.reg is None:
        raise Undecided('container through %r' % (p,))
    v = st.mem[p.reg].get(('v', p.off))
    if v is None:
        raise Undecided('container without abstract value at %r' % (p,))
    return v


def vset(ex, st, p, v):
    st.wcells(p.reg)[('v', p.off)] = v
    if st.log is not None:
        st.log.append((p.reg, ('v', p.off), None))


def elem_copy(ex, st, reg, idx, src):
    """construct/assign element idx of arr region from the object at src"""
    for sub, ty in reg.fields.items():
        v = ex.load(st, ex.padd(src, sub), ty)
        ex.store(st, Ptr(reg, sub, idx), v, ty)


def seq_push(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    elem_copy(ex, st, v.reg, v.size, a[1])
    vset(ex, st, a[0], VecVal(v.reg, ibin('add', 64, v.size, 1)))
    return None


def seq_emplace(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    fl = sorted(v.reg.fields.items())
    if len(a) - 1 == 1:
        elem_copy(ex, st, v.reg, v.size, a[1])
    elif len(a) - 1 == len(fl):
        for (sub, ty), p in zip(fl, a[1:]):
            # argument types may differ (int literals); load at the field's width
            ex.store(st, Ptr(v.reg, sub, v.size), ex.load(st, p, ty), ty)
    else:
        raise Undecided('emplace arity')
    vset(ex, st, a[0], VecVal(v.reg, ibin('add', 64, v.size, 1)))
    return Ptr(v.reg, 0, v.size) if x[2] == PTR else None


def seq_size(ex, st, d, a, x):
    return vget(ex, st, a[0]).size


def seq_empty(ex, st, d, a, x):
    return icmp('eq', 64, vget(ex, st, a[0]).size, 0)


def seq_at(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    c = icmp('ult', 64, a[1], v.size)
    if not (isinstance(c, int) and c == 1):
        ex.oblige(st, c, 'container index in range')
        if isinstance(c, int):
            raise PathEnd('index')
        st.assume(c)
    return Ptr(v.reg, 0, a[1])


def seq_clear(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    vset(ex, st, a[0], VecVal(v.reg, 0))
    return None


def as_count(n):
    if isinstance(n, ByteDiff):
        raise Undecided('byte count')
    return n


def fill_range(ex, st, reg, lo, hi, src):
    for sub, ty in reg.fields.items():
        v = ex.load(st, ex.padd(src, sub), ty) if isinstance(src, Ptr) else src
        zv = ex.zval(v, ty)
        ex.setarr(st, reg, sub, AGen(st.mem[reg][sub], lo, hi, lambda j, zv=zv: zv))


def seq_resize(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    n = a[1]
    grow = icmp('ugt', 64, n, v.size)
    if isinstance(grow, int) and grow == 0:
        vset(ex, st, a[0], VecVal(v.reg, n))
        return None
    outs = []
    if not isinstance(grow, int):
        s2 = st.fork()
        s2.assume(simp(z3.Not(grow)))
        if ex.feasible(s2):
            vset(ex, s2, a[0], VecVal(v.reg, n))
            outs.append(('ret', s2, None))
        st.assume(grow)
        if not ex.feasible(st):
            return outs
    if len(a) > 2:
        fill_range(ex, st, v.reg, v.size, n, a[2])
    else:
        for sub, ty in v.reg.fields.items():
            zv = ex.zval(ex.zero(ty), ty)
            ex.setarr(st, v.reg, sub, AGen(st.mem[v.reg][sub], v.size, n, lambda j, zv=zv: zv))
    vset(ex, st, a[0], VecVal(v.reg, n))
    outs.append(('ret', st, None))
    return outs


def seq_append(ex, st, d, a, x):
    """append(first,last): n = last-first elements copied in order"""
    v = vget(ex, st, a[0])
    f, l = a[1], a[2]
    n = ptr_diff(l, f)
    es = sum_size(ex, v.reg)
    if isinstance(n, ByteDiff) and f.reg.kind == 'arr' and f.off == 0 and f.reg.stride == es and f.reg is not v.reg:
        # a range of another array of the same element type
        new = ibin('add', 64, v.size, n.n)
        for sub in v.reg.fields:
            src = st.mem[f.reg][sub]
            ex.setarr(st, v.reg, sub, AGen(st.mem[v.reg][sub], v.size, new, lambda j, src=src, b0=v.size: src.sel(simp(bvz(j, 64) - bvz(b0, 64) + bvz(f.idx, 64)))))
        vset(ex, st, a[0], VecVal(v.reg, new))
        return None
    if isinstance(n, ByteDiff):
        n = n.full()
    if isinstance(n, int) and f.reg.kind == 'cell':
        k = n // es
        for i in range(k):
            elem_copy(ex, st, v.reg, ibin('add', 64, v.size, i), ex.padd(f, i * es))
        vset(ex, st, a[0], VecVal(v.reg, ibin('add', 64, v.size, k)))
        return None
    raise Undecided('append of symbolic length')


def sum_size(ex, reg):
    return reg.stride


CH = r'^(?:void )?xad::ChunkContainer<.*>::'
SEQ = [
    (CH + r'push_back\(', seq_push),
    (CH + r'emplace_back<.*>\(', seq_emplace),
    (CH + r'size\(\) const$', seq_size),
    (CH + r'empty\(\) const$', seq_empty),
    (CH + r'operator\[\]\(', seq_at),
    (CH + r'clear\(\)$', seq_clear),
    (CH + r'resize\(', seq_resize),
    (CH + r'append<', seq_append),
    (r'^(?:void )?std::vector<unsigned int, .*>::push_back\(', seq_push),
]


def stub_none(ex, st, d, a, x):
    return None


EXC = [
    (r'^xad::(Exception|TapeAlreadyActive|OutOfRange|DerivativesNotInitialized|NoTapeException)::', stub_none),
    (r'^std::(runtime_error|logic_error|out_of_range|exception|bad_alloc|length_error)::', stub_none),
    (r'^std::__cxx11::basic_string<char, .*>::(basic_string|~basic_string)', stub_none),
    (r'^std::allocator<char>::(allocator|~allocator)', stub_none),
]

STACK = [
    # std::pair construction is executed in place; std::move/forward likewise
]


class TapeM:
    """a symbolic Tape<T>: arbitrary recording, arbitrary current sub-recording"""

    def __init__(self, ex, st, t, elem, size_bits=32, fields=None, stride=None, tag=None, pre=''):
        self.ex, self.t = ex, t
        mod = ex.mod
        o = lambda n: off(mod, 'OFF_%s_%s' % (t, n))
        self.o = o
        self.elem = elem
        self.reg = ex.new_region(st, 'tape_' + t, size=o('sizeof'))
        es = stride or mod.size(elem)
        dsort = ex.dom.sort_of(elem)
        fl = {k: (ty, ex.dom.sort_of(ty) if ty[0] != 'i' else z3.BitVecSort(ty[1])) for k, (ty, _) in fields.items()} if fields else {0: (elem, dsort)}
        self.mult = ex.arr_region(st, 'mult', es, fl, tag=tag)
        bv32 = z3.BitVecSort(32)
        self.slot = ex.arr_region(st, 'slot', 4, {0: (I32, bv32)})
        self.stmt = ex.arr_region(st, 'stmt', 8, {0: (I32, bv32), 4: (I32, bv32)})
        self.der = ex.arr_region(st, 'der', es, fl, tag=tag)
        self.nops0 = z3.BitVec(pre + 'nops', 64)
        self.nstmt0 = z3.BitVec(pre + 'nstmt', 64)
        self.nder0 = z3.BitVec(pre + 'nder', 64)
        st.assume(z3.ULT(self.nops0, 1 << 31))
        st.assume(z3.ULT(self.nstmt0, 1 << 31))
        st.assume(z3.UGE(self.nstmt0, 1))
        st.assume(z3.ULT(self.nder0, 1 << 32))
        w = st.wcells(self.reg)
        w[('v', o('mult'))] = VecVal(self.mult, self.nops0)
        w[('v', o('slot'))] = VecVal(self.slot, self.nops0)
        w[('v', o('stmt'))] = VecVal(self.stmt, self.nstmt0)
        w[('v', o('der'))] = VecVal(self.der, self.nder0)
        self.relo = ex.arr_region(st, 'relo', 4, {0: (I32, bv32)})
        self.nrelo0 = z3.BitVec(pre + 'nrelo', 64)
        st.assume(z3.ULT(self.nrelo0, 1 << 31))
        w[('v', o('relo'))] = VecVal(self.relo, self.nrelo0)
        self.rec = ex.new_region(st, 'subrec', size=o('rec_sizeof'))
        self.recv = {}
        for f in ('num', 'ider', 'maxd', 'sstart', 'ostart', 'sder', 'pmax', 'first', 'sslots'):
            v = z3.BitVec(pre + 'rec_' + f, 32)
            self.recv[f] = v
            ex.store(st, Ptr(self.rec, o('rec_' + f)), v, I32)
        di = z3.Bool(pre + 'rec_dinit')
        self.recv['dinit'] = di
        ex.store(st, Ptr(self.rec, o('rec_dinit')), simp(z3.If(di, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))), ('i', 8))
        ex.store(st, Ptr(self.reg, o('cur')), Ptr(self.rec, 0), PTR)
        # invariants of a well formed tape (each is re-established by the tape operations, C09)
        r = self.recv
        st.assume(z3.ULE(r['ider'], r['maxd']))
        st.assume(z3.ULT(r['ider'], (1 << 31)))
        st.assume(z3.ULE(r['num'], r['ider']))
        st.assume(z3.ULE(r['first'], r['ider']))

    def ptr(self):
        return Ptr(self.reg, 0)

    def vec(self, st, f):
        return st.mem[self.reg][('v', self.o(f))]

    def recf(self, st, f):
        ty = ('i', 8) if f == 'dinit' else I32
        return self.ex.load(st, Ptr(self.rec, self.o('rec_' + f)), ty)


def set_active(ex, st, t, p):
    n = {'d': '@_ZN3xad4TapeIdE12active_tape_E', 'f': '@_ZN3xad4TapeIfE12active_tape_E'}.get(t, t)
    g = ex.global_ptr(st, n)
    ex.store(st, g, p, PTR)
    return g


def get_active(ex, st, t):
    n = {'d': '@_ZN3xad4TapeIdE12active_tape_E', 'f': '@_ZN3xad4TapeIfE12active_tape_E'}.get(t, t)
    return ex.load(st, ex.global_ptr(st, n), PTR)


def nstatements(ex, s, tp, subs):
    """appended statements with multi-field factors: [(target, [((field values), slot)])]"""
    from .exprlayer import ground
    vm, vs, vt = tp.vec(s, 'mult'), tp.vec(s, 'slot'), tp.vec(s, 'stmt')
    k, k2 = ground(bvz(vm.size, 64) - tp.nops0), ground(bvz(vs.size, 64) - tp.nops0)
    ns = ground(bvz(vt.size, 64) - tp.nstmt0)
    if k is None or k2 is None or ns is None or k > 4000 or ns > 1000:
        raise Undecided('symbolic number of recorded operands or statements')
    if k != k2:
        raise Undecided('operand factors and slots out of step: %d %d' % (k, k2))
    out, pos = [], 0
    for i in range(ns):
        idx = lower(simp(tp.nstmt0 + i))
        end, lhs = s.mem[vt.reg][0].sel(idx), s.mem[vt.reg][4].sel(idx)
        e = ground(bvz(end, 32) - z3.Extract(31, 0, tp.nops0))
        if e is None or e < pos or e > k:
            raise Undecided('statement end')
        ops = []
        for j in range(pos, e):
            ix = lower(simp(tp.nops0 + j))
            ops.append((tuple(s.mem[vm.reg][b].sel(ix) for b in subs), lower(s.mem[vs.reg][0].sel(ix))))
        out.append((lower(lhs), ops))
        pos = e
    if pos != k:
        raise Undecided('dangling operands without a statement')
    return out


LAYOUT_CPP = r'''
#define OFF_T(t, S) \
  extern "C" { \
  extern const unsigned long OFF_##t##_sizeof = sizeof(xad::Tape<S>); \
  extern const unsigned long OFF_##t##_mult = __builtin_offsetof(xad::Tape<S>, multiplier_); \
  extern const unsigned long OFF_##t##_slot = __builtin_offsetof(xad::Tape<S>, slot_); \
  extern const unsigned long OFF_##t##_stmt = __builtin_offsetof(xad::Tape<S>, statement_); \
  extern const unsigned long OFF_##t##_der = __builtin_offsetof(xad::Tape<S>, derivatives_); \
  extern const unsigned long OFF_##t##_chk = __builtin_offsetof(xad::Tape<S>, checkpoints_); \
  extern const unsigned long OFF_##t##_cbs = __builtin_offsetof(xad::Tape<S>, callbacks_); \
  extern const unsigned long OFF_##t##_nest = __builtin_offsetof(xad::Tape<S>, nestedRecordings_); \
  extern const unsigned long OFF_##t##_cur = __builtin_offsetof(xad::Tape<S>, currentRec_); \
  extern const unsigned long OFF_##t##_rec_sizeof = sizeof(xad::Tape<S>::SubRecording); \
  extern const unsigned long OFF_##t##_rec_num = __builtin_offsetof(xad::Tape<S>::SubRecording, numDerivatives_); \
  extern const unsigned long OFF_##t##_rec_ider = __builtin_offsetof(xad::Tape<S>::SubRecording, iDerivative_); \
  extern const unsigned long OFF_##t##_rec_maxd = __builtin_offsetof(xad::Tape<S>::SubRecording, maxDerivative_); \
  extern const unsigned long OFF_##t##_rec_sstart = __builtin_offsetof(xad::Tape<S>::SubRecording, statementStartPos_); \
  extern const unsigned long OFF_##t##_rec_ostart = __builtin_offsetof(xad::Tape<S>::SubRecording, opStartPos_); \
  extern const unsigned long OFF_##t##_rec_sder = __builtin_offsetof(xad::Tape<S>::SubRecording, startDerivative_); \
  extern const unsigned long OFF_##t##_rec_pmax = __builtin_offsetof(xad::Tape<S>::SubRecording, prevMax_); \
  extern const unsigned long OFF_##t##_rec_first = __builtin_offsetof(xad::Tape<S>::SubRecording, firstSlot_); \
  extern const unsigned long OFF_##t##_rec_sslots = __builtin_offsetof(xad::Tape<S>::SubRecording, startSlots_); \
  extern const unsigned long OFF_##t##_relo = __builtin_offsetof(xad::Tape<S>, releasedOuter_); \
  extern const unsigned long OFF_##t##_rec_dinit = __builtin_offsetof(xad::Tape<S>::SubRecording, derivativesInitialized_); \
  }
'''
