"""Symbolic executor / verification condition generator over LLVM IR.

Every function is executed symbolically on all paths; callees that carry a contract are replaced by the
contract, callees without one are executed in place; loops are handled by verified loop summaries
(vc/loops.py).  Machine integers are bit vectors (exact), memory is a set of disjoint typed regions.
"""
import re, sys, time
import z3
from . import ir
from .ir import DOUBLE, FLOAT, PTR, VOID
from .dom import Undecided, RealDom, FPDom, AbsDom, uf

sys.setrecursionlimit(20000)

MASK64 = (1 << 64) - 1


class SymbolicLoop(Exception):
    pass


# ------------------------------------------------------------------ integers
def bvz(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        if w == 1:
            return v
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def bz(v):
    """bool -> z3"""
    if isinstance(v, (int, bool)):
        return z3.BoolVal(bool(v))
    return v


def simp(x):
    return z3.simplify(x)


def lower(v):
    """z3 expression -> python int when it is a numeral"""
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return v


def sint(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def ibin(op, w, a, b):
    M = (1 << w) - 1
    if isinstance(a, ByteDiff):
        if op in ('sdiv', 'udiv', 'ashr') and isinstance(b, int):
            k = b if op != 'ashr' else (1 << b)
            if k == a.stride:
                return a.n
        a = a.full()
    if isinstance(b, ByteDiff):
        b = b.full()
    if isinstance(a, (PtrInt,)) or isinstance(b, (PtrInt,)):
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            return ptr_diff(a.p, b.p)
        raise Undecided('pointer arithmetic through integers: ' + op)
    if w == 1:
        if isinstance(a, int) and isinstance(b, int):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
        A, B = bz(a), bz(b)
        if op == 'and':
            return lower(simp(z3.And(A, B)))
        if op == 'or':
            return lower(simp(z3.Or(A, B)))
        if op in ('xor', 'add', 'sub'):
            return lower(simp(z3.Xor(A, B)))
        raise Undecided('i1 ' + op)
    if isinstance(a, int) and isinstance(b, int):
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & M if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sint(a, w) >> min(b, w - 1)) & M
        if b == 0:
            raise Undecided('division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sint(a, w), sint(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return q & M
        if op == 'srem':
            return (x - q * y) & M
    A, B = bvz(a, w), bvz(b, w)
    if op == 'add':
        r = A + B
    elif op == 'sub':
        r = A - B
    elif op == 'mul':
        r = A * B
    elif op == 'and':
        r = A & B
    elif op == 'or':
        r = A | B
    elif op == 'xor':
        r = A ^ B
    elif op == 'shl':
        r = A << B
    elif op == 'lshr':
        r = z3.LShR(A, B)
    elif op == 'ashr':
        r = A >> B
    elif op == 'udiv':
        r = z3.UDiv(A, B)
    elif op == 'urem':
        r = z3.URem(A, B)
    elif op == 'sdiv':
        r = A / B
    elif op == 'srem':
        r = z3.SRem(A, B)
    return lower(simp(r))


def icmp(p, w, a, b):
    if isinstance(a, ByteDiff):
        a = a.full()
    if isinstance(b, ByteDiff):
        b = b.full()
    if w == 1:
        A, B = bz(a), bz(b)
        if p == 'eq':
            return lower(simp(A == B))
        if p == 'ne':
            return lower(simp(A != B))
        A, B = bvz8(a), bvz8(b)
        w = 8
        a, b = A, B
    if isinstance(a, int) and isinstance(b, int):
        if p[0] == 's':
            a, b = sint(a, w), sint(b, w)
        return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p[-2:]])
    A, B = bvz(a, w), bvz(b, w)
    r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
         'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B,
         'slt': lambda: A < B, 'sle': lambda: A <= B}[p]()
    return lower(simp(r))


def bvz8(a):
    return bvz(a, 8)


# ------------------------------------------------------------------ pointers
class Region:
    """A memory object.  kind: 'cell' (concrete offsets) or 'arr' (array of `stride`-byte elements)."""
    count = 0

    def __init__(self, name, kind='cell', size=None, stride=None, fields=None, undef=False, check=None, tag=None):
        self.name = name
        self.kind = kind
        self.size = size
        self.stride = stride
        self.fields = fields or {}
        self.undef = undef
        self.check = check      # callable(state, ptr) -> Bool for validity
        self.tag = tag
        Region.count += 1
        self.id = Region.count

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)


class Ptr:
    __slots__ = ('reg', 'off', 'idx', 'ck')

    def __init__(self, reg, off=0, idx=0, ck=None):
        self.reg = reg
        self.off = off
        self.idx = idx
        self.ck = ck

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.reg, self.off, self.idx)


NULL = Ptr(None)


class OPtr:
    """opaque pointer value (a bit vector address we never dereference)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'OPtr(%s)' % self.e


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class PtrInt:
    def __init__(self, p):
        self.p = p


class ByteDiff:
    """n * stride bytes"""

    def __init__(self, n, stride):
        self.n = n
        self.stride = stride

    def full(self):
        return ibin('mul', 64, self.n, self.stride)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def ptr_diff(p, q):
    if isinstance(p, Ptr) and isinstance(q, Ptr) and p.reg is q.reg:
        if p.reg is None or p.reg.kind == 'cell':
            return (p.off - q.off) & MASK64
        d = ibin('sub', 64, p.idx, q.idx)
        if p.off == q.off:
            return ByteDiff(d, p.reg.stride)
        return ibin('add', 64, ibin('mul', 64, d, p.reg.stride), (p.off - q.off) & MASK64)
    raise Undecided('difference of unrelated pointers %r %r' % (p, q))


def div_exact(e, k):
    """byte offset expression e -> (q, r) with e == q*k + r, r concrete, or None"""
    if isinstance(e, int):
        s = sint(e, 64)
        return ((s // k) & MASK64, s % k)
    if isinstance(e, ByteDiff):
        if e.stride % k == 0:
            return (ibin('mul', 64, e.n, e.stride // k), 0)
        e = e.full()
        if isinstance(e, int):
            return div_exact(e, k)
    if k == 1:
        return (e, 0)
    d = e.decl().kind()
    if d == z3.Z3_OP_BMUL:
        for i, c in enumerate(e.children()):
            if z3.is_bv_value(c) and sint(c.as_long(), 64) % k == 0:
                rest = [x for j, x in enumerate(e.children()) if j != i]
                r = rest[0]
                for x in rest[1:]:
                    r = r * x
                return (ibin('mul', 64, lower(r), (sint(c.as_long(), 64) // k) & MASK64), 0)
        return None
    if d == z3.Z3_OP_BADD:
        q = 0
        r = 0
        for c in e.children():
            t = div_exact(lower(c), k)
            if t is None:
                return None
            q = ibin('add', 64, q, t[0])
            r += t[1]
        return (ibin('add', 64, q, (r // k) & MASK64), r % k)
    if d == z3.Z3_OP_BSHL and z3.is_bv_value(e.children()[1]):
        s = 1 << e.children()[1].as_long()
        if s % k == 0:
            return (ibin('mul', 64, lower(e.children()[0]), s // k), 0)
    if d == z3.Z3_OP_CONCAT:
        # simplify() turns x*2^n into concat(extract(x), 0...)
        last = e.children()[-1]
        if z3.is_bv_value(last) and last.as_long() == 0:
            n = last.size()
            if (1 << n) % k == 0:
                rest = e.children()[:-1]
                if len(rest) == 1 and rest[0].decl().kind() == z3.Z3_OP_EXTRACT:
                    ex = rest[0]
                    hi, lo = ex.params()
                    if lo == 0:
                        src = ex.children()[0]
                        return (ibin('mul', 64, lower(src), (1 << n) // k), 0)
    return None


# ------------------------------------------------------------------ functional arrays
class Arr:
    """immutable functional array: BV64 -> value"""


def idx_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return lower(simp(bvz(a, 64) == bvz(b, 64)))


def in_range(i, lo, hi):
    """lo <= i < hi (unsigned)"""
    return lower(simp(z3.And(z3.ULE(bvz(lo, 64), bvz(i, 64)), z3.ULT(bvz(i, 64), bvz(hi, 64)))))


def zite(c, a, b):
    if c is True or (isinstance(c, int) and c == 1):
        return a
    if c is False or (isinstance(c, int) and c == 0):
        return b
    return z3.If(c, a, b)


class ABase(Arr):
    def __init__(self, z):
        self.z = z

    def sel(self, i):
        return z3.Select(self.z, bvz(i, 64))

    def toz(self):
        return self.z


class AStore(Arr):
    def __init__(self, prev, i, v):
        self.prev, self.i, self.v = prev, i, v

    def sel(self, i):
        c = idx_eq(i, self.i)
        if isinstance(c, int):
            return self.v if c else self.prev.sel(i)
        return z3.If(c, self.v, self.prev.sel(i))

    def toz(self):
        return z3.Store(self.prev.toz(), bvz(self.i, 64), self.v)


class AGen(Arr):
    """value fn(j) on [lo,hi), prev elsewhere"""

    def __init__(self, prev, lo, hi, fn):
        self.prev, self.lo, self.hi, self.fn = prev, lo, hi, fn

    def sel(self, i):
        c = in_range(i, self.lo, self.hi)
        if isinstance(c, int):
            return self.fn(i) if c else self.prev.sel(i)
        return z3.If(c, self.fn(i), self.prev.sel(i))

    def toz(self):
        k = z3.FreshConst(z3.BitVecSort(64), 'lk')
        return z3.Lambda([k], self.sel(k))


def arr_const(name, sort):
    return ABase(z3.Array(name, z3.BitVecSort(64), sort))


class VecVal:
    """abstract value of a std::vector-like container: data region + size"""
    __slots__ = ('reg', 'size', 'cap')

    def __init__(self, reg, size, cap=None):
        self.reg, self.size, self.cap = reg, size, cap

    def __repr__(self):
        return 'Vec(%r,%s)' % (self.reg, self.size)


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('mem', 'pc', 'ghost', 'own', 'log', 'approx', 'taint')
    _ids = 0

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.ghost = {}
        self.own = set()
        self.log = None
        self.approx = ()
        self.taint = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.own = set()
        self.own = set()
        s.log = list(self.log) if self.log is not None else None
        s.approx = self.approx
        return s

    def cells(self, reg):
        return self.mem.get(reg)

    def wcells(self, reg):
        d = self.mem.get(reg)
        if d is None:
            d = {}
            self.mem[reg] = d
            self.own.add(reg)
        elif reg not in self.own:
            d = dict(d)
            self.mem[reg] = d
            self.own.add(reg)
        return d

    def assume(self, c):
        if isinstance(c, (bool, int)):
            if not c:
                self.pc.append(z3.BoolVal(False))
            return
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        self.pc.append(c)


class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'kind', 'fn', 'res', 'model', 'time', 'backend', 'side')

    def __init__(self, name, pc, goal, fn='', kind='safety', side=()):
        self.name, self.pc, self.goal, self.fn, self.kind = name, pc, goal, fn, kind
        self.res = None
        self.model = None
        self.time = 0
        self.backend = None
        self.side = side


LIBM_RE = re.compile(r'^@(a?)(sin|cos|tan|asin|acos|atan|sinh|cosh|tanh|asinh|acosh|atanh|exp|exp2|expm1|log|log2|log10|log1p|'
                     r'sqrt|cbrt|erf|erfc|pow|atan2|hypot|fabs|floor|ceil|trunc|round|rint|nearbyint|fma|fmod|remainder|'
                     r'copysign|fmax|fmin|nextafter|exp10|logb|tgamma|lgamma)(f?)$')
INTR_MATH = {'fabs', 'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'fma', 'copysign', 'maxnum', 'minnum', 'sqrt',
             'sin', 'cos', 'exp', 'exp2', 'log', 'log2', 'log10', 'pow', 'fmuladd', 'roundeven'}


def bvonly(e, memo):
    """no real, integer, array or floating point subterm (memo keeps the expressions alive)"""
    k = e.get_id()
    r = memo.get(k)
    if r is None:
        srt = e.sort().kind()
        if srt in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT, z3.Z3_ARRAY_SORT, z3.Z3_FLOATING_POINT_SORT):
            r = (False, e)
        else:
            r = (all(bvonly(c, memo) for c in e.children()), e)
        memo[k] = r
    return r[0]


def realfree(e, memo):
    """no real, integer or floating point subterm, also not as elements of arrays"""
    k = e.get_id()
    r = memo.get(k)
    if r is None:
        srt = e.sort()
        while srt.kind() == z3.Z3_ARRAY_SORT:
            srt = srt.range()
        if srt.kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT, z3.Z3_FLOATING_POINT_SORT, z3.Z3_UNINTERPRETED_SORT):
            r = (False, e)
        else:
            r = (all(realfree(c, memo) for c in e.children()), e)
        memo[k] = r
    return r[0]


class Exec:
    def __init__(self, mod, dom, contracts=None, timeout_ms=4000, max_paths=4000, max_steps=2000000):
        self.mod = mod
        self.dom = dom
        self.contracts = contracts or []     # list of (compiled regex on demangled name, handler)
        self._ccache = {}
        self.obls = []
        self.timeout = timeout_ms
        self.max_paths = max_paths
        self.steps = 0
        self.max_steps = max_steps
        self.nsym = 0
        self.called = {}
        self.inlined = {}
        self.assumed = set()
        self.loop_specs = []
        self.globs = {}
        self.feas_calls = 0
        self.solver_time = 0.0
        self.bounded_loops = []
        self.loopinfo = {}
        self.depth = 0
        self.deadline = None
        self.side = []          # globally assumed side facts (axioms)
        self.check_access = True
        self.axfns = []

    # ---------- symbols
    def fresh(self, base, sort):
        self.nsym += 1
        return z3.Const('%s!%d' % (base, self.nsym), sort)

    def fresh_bv(self, base, w):
        self.nsym += 1
        return z3.BitVec('%s!%d' % (base, self.nsym), w)

    def fresh_of(self, base, ty):
        if ty[0] == 'i':
            if ty[1] == 1:
                return self.fresh(base, z3.BoolSort())
            return self.fresh_bv(base, ty[1])
        if ty in (DOUBLE, FLOAT) or ty[0] == 'x86_fp80':
            return self.fresh(base, self.dom.sort_of(ty))
        if ty == PTR:
            return OPtr(self.fresh_bv(base, 64))
        raise Undecided('fresh of %s' % (ty,))

    def zval(self, v, ty=None):
        """to z3"""
        if isinstance(v, int):
            return z3.BitVecVal(v, ty[1] if ty else 64)
        if isinstance(v, OPtr):
            return v.e
        if isinstance(v, Ptr):
            if v.reg is None:
                return z3.BitVecVal(v.off, 64)
            if isinstance(v.reg.tag, dict) and 'addr' in v.reg.tag:
                return bvz(v.reg.tag['addr'](v), 64)
            a = z3.BitVec('addr_%s_%d' % (v.reg.name, v.reg.id), 64)
            if v.reg.kind == 'arr':
                return a + bvz(v.idx, 64) * v.reg.stride + v.off
            return a + v.off
        if isinstance(v, FnPtr):
            return z3.BitVec('addr_fn_' + v.name, 64)
        if ty in (DOUBLE, FLOAT):
            return self.dom.z(v)
        return v

    # ---------- solver
    def _solver(self):
        s = z3.Solver()
        s.set('timeout', self.timeout)
        return s

    def feasible(self, st, extra=None):
        pc = st.pc
        if extra is not None:
            if isinstance(extra, (int, bool)):
                if not extra:
                    return False
            else:
                if z3.is_false(extra):
                    return False
        if any(z3.is_false(c) for c in pc):
            return False
        if extra is None and not pc:
            return True
        self.feas_calls += 1
        t = time.time()
        side = self.side
        if extra is not None and not isinstance(extra, (int, bool)):
            if realfree(extra, self.rfmemo):
                # integer guard: leaving the real-valued constraints out over-approximates feasibility
                pc = [c for c in pc if z3.is_expr(c) and realfree(c, self.rfmemo)]
                side = [c for c in side if realfree(c, self.rfmemo)]
            elif getattr(self, 'unroll', None) is not None:
                return True     # the same, in a search for counterexamples
        s = z3.SimpleSolver()
        s.set('timeout', 1500)
        for c in side:
            s.add(c)
        for c in pc:
            s.add(c)
        if extra is not None and not isinstance(extra, (int, bool)):
            s.add(extra)
        r = s.check()
        self.solver_time += time.time() - t
        return r != z3.unsat

    def entails(self, st, goal, timeout=None):
        """True / False(refuted) / None"""
        if isinstance(goal, (int, bool)):
            return bool(goal)
        g = simp(goal)
        if z3.is_true(g):
            return True
        t = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for c in self.side:
            s.add(c)
        for c in st.pc:
            s.add(c)
        s.add(z3.Not(g))
        r = s.check()
        self.solver_time += time.time() - t
        return True if r == z3.unsat else (False if r == z3.sat else None)

    def oblige(self, st, goal, name, kind='safety'):
        if isinstance(goal, (int, bool)):
            goal = z3.BoolVal(bool(goal))
        self.obls.append(Obligation(name, list(st.pc), goal, self.curfn if self.depth else '', kind))

    curfn = ''
    bvmemo = {}
    rfmemo = {}

    # ---------- memory
    def new_region(self, st, name, **kw):
        r = Region(name, **kw)
        st.mem[r] = {}
        st.own.add(r)
        return r

    def arr_region(self, st, name, stride, fields, base=None, check=None, tag=None):
        """fields: {sub: (ty, sort)}"""
        r = Region(name, kind='arr', stride=stride, fields={k: f[0] for k, f in fields.items()}, check=check, tag=tag)
        d = {}
        for k, (ty, sort) in fields.items():
            d[k] = arr_const('%s_%d.%d' % (name, r.id, k), sort)
        st.mem[r] = d
        st.own.add(r)
        return r

    def access(self, st, p, ty, what):
        if isinstance(p, OPtr):
            raise Undecided('%s through opaque pointer' % what)
        if not isinstance(p, Ptr):
            raise Undecided('%s through %r' % (what, p))
        if p.reg is None:
            self.oblige(st, False, 'null/invalid dereference (%s)' % what)
            raise PathEnd('null deref')
        if p.reg in st.ghost.get('freed', ()):
            self.oblige(st, False, 'use after free (%s)' % what)
            raise PathEnd('uaf')
        if p.reg.check is not None and self.check_access:
            c = p.reg.check(self, st, p)
            if c is not None:
                c = simp(bz(c))
                if not z3.is_true(c):
                    self.oblige(st, c, '%s in bounds of %s' % (what, p.reg.name))
                    st.assume(c)

    def load(self, st, p, ty):
        self.access(st, p, ty, 'load')
        r = p.reg
        if r.kind == 'arr':
            return self.load_arr(st, p, ty)
        d = st.mem[r]
        c = d.get(p.off)
        if c is not None:
            if c[1] == ty:
                return c[0]
            return self.load_conv(st, p, ty, c)
        if ty[0] in ('struct', 'lit', 'arr', 'vec'):
            return self.load_agg(st, p, ty)
        # zero range?
        for k, v in d.items():
            if isinstance(k, tuple) and k[0] == 'z' and k[1] <= p.off and p.off + self.mod.size(ty) <= k[1] + k[2]:
                return self.zero(ty)
        # part of larger cell or composed of smaller
        sz = self.mod.size(ty)
        for k, (v, t2) in [(k, v) for k, v in d.items() if isinstance(k, int)]:
            s2 = self.mod.size(t2)
            if k <= p.off and p.off + sz <= k + s2:
                return self.load_conv(st, Ptr(r, p.off), ty, (v, t2), k)
        if ty[0] == 'i' and ty[1] > 8:
            parts = self.gather(d, p.off, sz)
            if parts is not None:
                return parts
        if r.undef:
            v = self.fresh_of('undef_%s_%d' % (r.name, p.off), ty)
            st.wcells(r)[p.off] = (v, ty)
            return v
        raise Undecided('load of unknown cell %r : %s' % (p, ty))

    def gather(self, d, off, sz):
        """compose an integer from smaller integer cells"""
        o = off
        bits = []
        while o < off + sz:
            c = d.get(o)
            if c is None or c[1][0] != 'i':
                return None
            s2 = self.mod.size(c[1])
            bits.append((c[0], s2 * 8, c[1][1]))
            o += s2
        if o != off + sz:
            return None
        if all(isinstance(b[0], int) for b in bits):
            v = 0
            sh = 0
            for b, w, _ in bits:
                v |= b << sh
                sh += w
            return v
        zs = [bvz(b, w) if w == tw else z3.ZeroExt(w - tw, bvz(b, tw)) for b, w, tw in bits]
        return lower(simp(z3.Concat(*reversed(zs)))) if len(zs) > 1 else zs[0]

    def load_conv(self, st, p, ty, c, base=None):
        v, t2 = c
        base = p.off if base is None else base
        if t2[0] == 'i' and ty[0] == 'i':
            w2 = self.mod.size(t2) * 8
            lo = (p.off - base) * 8
            w = ty[1]
            if lo == 0 and w == t2[1]:
                return v
            if isinstance(v, int) and lo + w <= w2:
                return (v >> lo) & ((1 << w) - 1)
            if lo + w > w2:
                d = st.mem[p.reg]
                g = self.gather(d, p.off, self.mod.size(ty))
                if g is not None:
                    return g
                raise Undecided('wide int load')
            return lower(simp(z3.Extract(lo + w - 1, lo, bvz(v, t2[1]))))
        if ty == PTR and t2 == ('i', 64):
            if isinstance(v, PtrInt):
                return v.p
            if v == 0:
                return NULL
            return OPtr(bvz(v, 64))
        if ty == ('i', 64) and t2 == PTR:
            return PtrInt(v)
        if ty[0] in ('struct', 'lit', 'arr', 'vec'):
            return self.load_agg(st, p, ty)
        if t2[0] in ('struct', 'lit', 'arr'):
            raise Undecided('load inside aggregate cell')
        if ty == DOUBLE and t2 == ('i', 64) and v == 0:
            return self.dom.const(0.0, DOUBLE)
        if isinstance(v, Undef) or (z3.is_expr(v) and str(v).startswith('undef')):
            nv = self.fresh_of('undef', ty)
            return nv
        raise Undecided('load type mismatch %s vs %s at %r' % (ty, t2, p))

    def load_agg(self, st, p, ty):
        rt = self.mod.resolve(ty)
        if rt[0] == 'lit':
            offs = self.mod._slayout(rt)[0]
            return tuple(self.load(st, self.padd(p, o), t) for o, t in zip(offs, rt[1]))
        if rt[0] in ('arr', 'vec'):
            es = self.mod.size(rt[2])
            return tuple(self.load(st, self.padd(p, i * es), rt[2]) for i in range(rt[1]))
        raise Undecided('agg load')

    def load_arr(self, st, p, ty):
        r = p.reg
        d = st.mem[r]
        if ty[0] in ('struct', 'lit', 'arr', 'vec'):
            return self.load_agg(st, p, ty)
        a = d.get(p.off)
        if a is None:
            raise Undecided('array field %r %s' % (p, ty))
        ft = r.fields[p.off]
        if ft != ty:
            if ty[0] == 'i' and ft[0] == 'i' and ty[1] > ft[1]:
                lo = a.sel(p.idx)
                hi = d[p.off + ft[1] // 8].sel(p.idx)
                return lower(simp(z3.Concat(bvz(hi, ft[1]), bvz(lo, ft[1]))))
            if ty[0] == 'i' and ft[0] == 'i' and ty[1] < ft[1]:
                return lower(simp(z3.Extract(ty[1] - 1, 0, bvz(a.sel(p.idx), ft[1]))))
            raise Undecided('array load type %s vs %s in %r' % (ty, ft, r))
        v = a.sel(p.idx)
        if ty == PTR:
            if r.tag and 'ptrmap' in r.tag:
                return r.tag['ptrmap'](self, st, p, v)
            return v if isinstance(v, (Ptr, OPtr)) else OPtr(v)
        if ty[0] == 'i':
            if ty[1] == 1:
                return v
            return lower(v)
        return v

    def store(self, st, p, v, ty):
        if ty[0] in ('struct', 'lit', 'arr', 'vec'):
            rt = self.mod.resolve(ty)
            if rt[0] == 'lit':
                offs = self.mod._slayout(rt)[0]
                for o, t, x in zip(offs, rt[1], v):
                    self.store(st, self.padd(p, o), x, t)
                return
            es = self.mod.size(rt[2])
            for i in range(rt[1]):
                self.store(st, self.padd(p, i * es), v[i], rt[2])
            return
        self.access(st, p, ty, 'store')
        r = p.reg
        if st.log is not None:
            st.log.append((r, p.off, ty))
        if r.kind == 'arr':
            d = st.wcells(r)
            ft = r.fields.get(p.off)
            if ft is None:
                raise Undecided('store to array field %r' % p)
            if ft != ty:
                if ty[0] == 'i' and ft[0] == 'i' and ty[1] == 2 * ft[1]:
                    z = bvz(v, ty[1])
                    d[p.off] = AStore(d[p.off], p.idx, simp(z3.Extract(ft[1] - 1, 0, z)))
                    d[p.off + ft[1] // 8] = AStore(d[p.off + ft[1] // 8], p.idx, simp(z3.Extract(ty[1] - 1, ft[1], z)))
                    if st.log is not None:
                        st.log.append((r, p.off + ft[1] // 8, r.fields[p.off + ft[1] // 8]))
                    return
                raise Undecided('array store type')
            if isinstance(v, Undef):
                v = self.fresh_of('undef', ty)
            d[p.off] = AStore(d[p.off], p.idx, self.zval(v, ty))
            return
        d = st.wcells(r)
        sz = self.mod.size(ty)
        old = d.get(p.off)
        if old is None or old[1] != ty:
            # invalidate overlapping cells
            for k in [k for k in d if isinstance(k, int)]:
                s2 = self.mod.size(d[k][1])
                if k < p.off + sz and p.off < k + s2:
                    if k >= p.off and k + s2 <= p.off + sz:
                        del d[k]
                    else:
                        ov, ot = d[k]
                        if ot[0] == 'i' and ty[0] == 'i':
                            # split the old cell into bytes-level parts
                            del d[k]
                            if k < p.off:
                                w = (p.off - k) * 8
                                d[k] = (lower(simp(z3.Extract(w - 1, 0, bvz(ov, ot[1])))), ('i', w))
                            e = p.off + sz
                            if k + s2 > e:
                                w = (k + s2 - e) * 8
                                d[e] = (lower(simp(z3.Extract(s2 * 8 - 1, s2 * 8 - w, bvz(ov, ot[1])))), ('i', w))
                        else:
                            raise Undecided('partial overwrite of cell %r+%d' % (r, k))
            for k in [k for k in d if isinstance(k, tuple) and k[0] == 'z']:
                if k[1] < p.off + sz and p.off < k[1] + k[2]:
                    del d[k]
                    if k[1] < p.off:
                        d[('z', k[1], p.off - k[1])] = (0, None)
                    if k[1] + k[2] > p.off + sz:
                        d[('z', p.off + sz, k[1] + k[2] - p.off - sz)] = (0, None)
        if isinstance(v, Undef):
            v = self.fresh_of('undef', ty)
        d[p.off] = (v, ty)

    def setarr(self, st, reg, sub, a):
        """replace the array of one field"""
        st.wcells(reg)[sub] = a
        if st.log is not None:
            st.log.append((reg, sub, reg.fields.get(sub)))

    def memcpy(self, st, dst, src, n):
        if isinstance(n, ByteDiff):
            n = n.full()
        if not isinstance(n, int):
            raise Undecided('symbolic memcpy size')
        if n == 0:
            return
        if src.reg is dst.reg and src.reg is not None and src.reg.kind == 'cell' and src.off == dst.off:
            return
        self.access(st, src, None, 'memcpy source')
        self.access(st, dst, None, 'memcpy destination')
        items = []
        if src.reg.kind == 'arr':
            if n > src.reg.stride - src.off:
                raise Undecided('memcpy across elements')
            for k, t in src.reg.fields.items():
                if src.off <= k and k + self.mod.size(t) <= src.off + n:
                    items.append((k - src.off, self.load(st, Ptr(src.reg, k, src.idx, src.ck), t), t))
                elif k < src.off + n and k + self.mod.size(t) > src.off:
                    raise Undecided('memcpy splits field')
        else:
            d = st.mem[src.reg]
            for k in sorted([k for k in d if isinstance(k, int)]):
                v, t = d[k]
                s2 = self.mod.size(t)
                if k >= src.off and k + s2 <= src.off + n:
                    items.append((k - src.off, v, t))
                elif k < src.off + n and k + s2 > src.off:
                    raise Undecided('memcpy splits cell %r' % src.reg)
            for k in list(d):
                if isinstance(k, tuple):
                    if k[0] == 'z' and k[1] < src.off + n and k[1] + k[2] > src.off:
                        lo = max(k[1], src.off)
                        hi = min(k[1] + k[2], src.off + n)
                        dd = st.wcells(dst.reg)
                        if dst.reg.kind == 'cell':
                            for kk in [kk for kk in dd if isinstance(kk, int) and lo - src.off + dst.off <= kk < hi - src.off + dst.off]:
                                del dd[kk]
                            dd[('z', lo - src.off + dst.off, hi - lo)] = (0, None)
                            if st.log is not None:
                                st.log.append((dst.reg, ('z', lo - src.off + dst.off, hi - lo), None))
                    elif k[0] != 'z' and src.off <= k[1] < src.off + n:
                        st.wcells(dst.reg)[(k[0], k[1] - src.off + dst.off)] = d[k]
                        if st.log is not None:
                            st.log.append((dst.reg, (k[0], k[1] - src.off + dst.off), None))
        for o, v, t in items:
            self.store(st, self.padd(dst, o), v, t)

    def padd(self, p, delta):
        """pointer + constant byte delta"""
        if isinstance(p, OPtr):
            if delta == 0:
                return p
            return OPtr(simp(p.e + delta))
        if p.reg is None or p.reg.kind == 'cell':
            return Ptr(p.reg, p.off + delta, p.idx, p.ck)
        o = p.off + delta
        q, r = divmod(o, p.reg.stride)
        if q == 0:
            return Ptr(p.reg, r, p.idx, p.ck)
        return Ptr(p.reg, r, ibin('add', 64, p.idx, q & MASK64), p.ck)

    def padd_sym(self, p, e, scale):
        """pointer + e*scale, e possibly symbolic (64 bit)"""
        if isinstance(e, int):
            return self.padd(p, sint(e, 64) * scale)
        if isinstance(p, OPtr):
            raise Undecided('symbolic arithmetic on opaque pointer')
        if p.reg is None:
            if isinstance(e, ByteDiff):
                e = e.full()
            return OPtr(simp(bvz(p.off, 64) + e * scale))
        if p.reg.kind == 'cell':
            raise Undecided('symbolic index into cell region %r' % p.reg)
        s = p.reg.stride
        if scale % s == 0:
            if isinstance(e, ByteDiff):
                e = e.full()
            return Ptr(p.reg, p.off, ibin('add', 64, p.idx, ibin('mul', 64, e, scale // s)), p.ck)
        t = div_exact(e if scale == 1 else ibin('mul', 64, e.full() if isinstance(e, ByteDiff) else e, scale), s)
        if t is None:
            raise Undecided('unaligned symbolic pointer arithmetic in %r: %s*%d stride %d' % (p.reg, e, scale, s))
        q = Ptr(p.reg, p.off, ibin('add', 64, p.idx, t[0]), p.ck)
        return self.padd(q, t[1])

    def zero(self, ty):
        if ty[0] == 'i':
            return 0
        if ty in (DOUBLE, FLOAT):
            return self.dom.const(0.0, ty)
        if ty == PTR:
            return NULL
        rt = self.mod.resolve(ty)
        if rt[0] == 'lit':
            return tuple(self.zero(t) for t in rt[1])
        if rt[0] in ('arr', 'vec'):
            return tuple(self.zero(rt[2]) for _ in range(rt[1]))
        raise Undecided('zero of %s' % (ty,))

    # ---------- values
    def val(self, st, env, v, ty):
        k = v[0]
        if k == 'l':
            x = env[v[1]]
            if isinstance(x, Undef):
                raise Undecided('use of undef')
            return x
        if k == 'c':
            return v[1]
        if k == 'f':
            return self.dom.const(v[1], ty)
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'undef':
            if ty[0] in ('lit', 'struct', 'arr', 'vec'):
                rt = self.mod.resolve(ty)
                if rt[0] == 'lit':
                    return tuple(self.val(st, env, v, t) for t in rt[1])
                return tuple(self.val(st, env, v, rt[2]) for _ in range(rt[1]))
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return tuple(self.val(st, env, e, t) for t, e in v[1])
        if k == 'cgep':
            base = self.val(st, env, v[2][0][1], PTR)
            return self.gep(st, env, v[1], base, v[2][1:])
        if k == 'ccast':
            x = self.val(st, env, v[3], v[2])
            return self.cast(v[1], x, v[2], v[4])
        if k == 'none':
            return None
        if k == 'str':
            return v
        if k == 'f80':
            raise Undecided('x86_fp80')
        raise Undecided('value %s' % (v,))

    def global_ptr(self, st, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs or name in self.mod.decls:
            return FnPtr(name)
        r = self.globs.get(name)
        if r is None:
            r = Region('glob' + name, size=None)
            r.undef = False
            self.globs[name] = r
        if r not in st.mem:
            st.mem[r] = {}
            st.own.add(r)
            if name in self.mod.globals:
                ty, init, tls, const = self.mod.global_info(name)
                if const and init is not None and not (init[0] == 'str'):
                    try:
                        self.store(st, Ptr(r, 0), self.val(st, {}, init, ty), ty)
                    except (Undecided, ir.IRError, KeyError):
                        pass
        return Ptr(r, 0)

    def gep(self, st, env, ty, base, idx):
        p = base
        if isinstance(p, FnPtr):
            raise Undecided('gep on function')
        cur = ty
        for n, (ity, iv) in enumerate(idx):
            i = self.val(st, env, iv, ity)
            if isinstance(i, int):
                i = sint(i, ity[1]) & MASK64
            elif isinstance(i, (ByteDiff,)):
                pass
            elif ity[1] < 64:
                i = lower(simp(z3.SignExt(64 - ity[1], bvz(i, ity[1]))))
            if n == 0:
                p = self.padd_sym(p, i, self.mod.size(cur))
                continue
            rt = self.mod.resolve(cur)
            if rt[0] == 'lit':
                o, cur = self.mod.field_offset(rt, i)
                p = self.padd(p, o)
            elif rt[0] in ('arr', 'vec'):
                cur = rt[2]
                p = self.padd_sym(p, i, self.mod.size(cur))
            else:
                raise Undecided('gep into %s' % (rt,))
        return p

    def cast(self, op, v, f, t):
        if op == 'bitcast':
            if f == t:
                return v
            if t in (DOUBLE, FLOAT) and f[0] == 'i':
                return self.bits_to_fp(v, f, t)
            if f in (DOUBLE, FLOAT) and t[0] == 'i':
                return self.fp_to_bits(v, f, t)
            raise Undecided('bitcast %s %s' % (f, t))
        if op == 'zext':
            if isinstance(v, int):
                return v
            if f[1] == 1:
                return bvz(v, t[1])
            if isinstance(v, ByteDiff):
                v = v.full()
            return lower(simp(z3.ZeroExt(t[1] - f[1], bvz(v, f[1]))))
        if op == 'sext':
            if isinstance(v, int):
                return sint(v, f[1]) & ((1 << t[1]) - 1)
            if f[1] == 1:
                return lower(simp(z3.If(v, z3.BitVecVal((1 << t[1]) - 1, t[1]), z3.BitVecVal(0, t[1]))))
            return lower(simp(z3.SignExt(t[1] - f[1], bvz(v, f[1]))))
        if op == 'trunc':
            if isinstance(v, ByteDiff):
                v = v.full()
            if isinstance(v, int):
                return v & ((1 << t[1]) - 1)
            if t[1] == 1:
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
                    c, a, b = v.children()
                    if z3.is_bv_value(a) and z3.is_bv_value(b):
                        if a.as_long() & 1 and not b.as_long() & 1:
                            return c
                        if b.as_long() & 1 and not a.as_long() & 1:
                            return simp(z3.Not(c))
                return lower(simp(z3.Extract(0, 0, v) == 1))
            return lower(simp(z3.Extract(t[1] - 1, 0, bvz(v, f[1]))))
        if op == 'ptrtoint':
            if isinstance(v, OPtr):
                return v.e
            if isinstance(v, Ptr) and v.reg is None:
                return v.off
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt):
                return v.p
            if isinstance(v, int):
                return Ptr(None, v)
            return OPtr(v)
        if op in ('fpext', 'fptrunc'):
            return self.dom.cast(op, v, f, t)
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, ByteDiff):
                v = v.full()
            if hasattr(self.dom, 'from_int_t'):
                return self.dom.from_int_t(v, f[1], op == 'sitofp', t)
            return self.dom.from_int(v, f[1], op == 'sitofp')
        if op in ('fptosi', 'fptoui'):
            return self.dom.to_int(v, t[1], op == 'fptosi')
        if op == 'addrspacecast':
            return v
        raise Undecided('cast ' + op)

    def bits_to_fp(self, v, f, t):
        if isinstance(self.dom, FPDom):
            return z3.fpBVToFP(bvz(v, f[1]), self.dom.sort_of(t))
        raise Undecided('int->fp bitcast')

    def fp_to_bits(self, v, f, t):
        return FPBits(v, f)

    # ---------- comparisons on pointers
    def pcmp(self, st, p, a, b):
        if isinstance(a, PtrInt):
            a = a.p
        if isinstance(b, PtrInt):
            b = b.p
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.reg is b.reg:
                if a.reg is None or a.reg.kind == 'cell':
                    return icmp(p, 64, a.off & MASK64, b.off & MASK64)
                if a.off == b.off:
                    if p in ('eq', 'ne'):
                        return icmp(p, 64, a.idx, b.idx)
                    # order within one object: indices do not wrap
                    return icmp(p.replace('s', 'u') if p[0] == 's' else p, 64, a.idx, b.idx)
                if p in ('eq', 'ne'):
                    return int(p == 'ne')
                raise Undecided('pointer order across fields')
            if p in ('eq', 'ne'):
                ra, rb = a.reg, b.reg
                return int(p == 'ne')
            raise Undecided('order of unrelated pointers')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                return int((a.name == b.name) == (p == 'eq'))
            o = b if isinstance(a, FnPtr) else a
            if isinstance(o, Ptr):
                return int(p == 'ne')
        A, B = self.zval(a), self.zval(b)
        return icmp(p, 64, lower(A), lower(B))

    # ---------- control
    def loops_of(self, f):
        li = self.loopinfo.get(f.name)
        if li is None:
            li = loop_info(f)
            self.loopinfo[f.name] = li
        return li

    def call_function(self, st, name, args):
        """execute function body; returns list of outcomes (kind, state, value)"""
        f = self.mod.func(name)
        if f is None:
            raise Undecided('no body for ' + ir.dem(name))
        if self.depth > 120:
            raise Undecided('recursion depth')
        env = {}
        if len(args) < len(f.params):
            raise Undecided('arity ' + name)
        for (n, t), a in zip(f.params, args):
            env[n] = a
        env['#cleanup'] = []
        self.inlined[ir.dem(name)] = self.inlined.get(ir.dem(name), 0) + 1
        save = self.curfn
        self.curfn = ir.dem(name) if not save or self.depth == 0 else save
        self.depth += 1
        try:
            evs = self.run(f, st, env, f.entry, None, None)
        finally:
            self.depth -= 1
            self.curfn = save
        return evs

    def run(self, f, st, env, start, prev, region, first=True):
        """Explore from block `start`.  region = (header, blockset) or None.
        Returns events: ('ret',st,v) ('throw',st,ty) ('term',st,why) ('abort',st,why)
                        ('back',st,env,prev) ('exit',st,env,target,prev)"""
        out = []
        work = [(st, env, start, prev, True)]
        li = self.loops_of(f)
        while work:
            st, env, blk, prev, initial = work.pop()
            if len(work) + len(out) > self.max_paths:
                raise Undecided('too many paths in ' + ir.dem(f.name))
            if region is not None and not initial:
                if blk == region[0]:
                    out.append(('back', st, env, prev))
                    continue
                if blk not in region[1]:
                    out.append(('exit', st, env, blk, prev))
                    continue
            if blk in li and not (region is not None and blk == region[0] and initial):
                if prev not in li[blk]:
                    from . import loops
                    try:
                        evs = loops.do_loop(self, f, blk, li[blk], st, env, prev)
                    except PathEnd:
                        continue
                    for e in evs:
                        if e[0] == 'exit':
                            work.append((e[1], e[2], e[3], e[4], False))
                        else:
                            out.append(e)
                    continue
            try:
                self.block(f, st, env, blk, prev, work, out)
            except PathEnd:
                continue
        return out

    def block(self, f, st, env, blk, prev, work, out, pos=0):
        ins = f.blocks[blk]
        # phis first, simultaneously
        i = pos
        n = len(ins)
        if i == 0:
            newv = []
            while i < n:
                x = self.mod.instr(ins[i])
                if x[0] != 'phi':
                    break
                for v, b in x[3]:
                    if b == prev:
                        newv.append((x[1], self.val_u(st, env, v, x[2])))
                        break
                else:
                    raise Undecided('phi pred')
                i += 1
            for d, v in newv:
                env[d] = v
        while i < n:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undecided('step budget')
            if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                raise Undecided('time budget')
            x = self.mod.instr(ins[i])
            i += 1
            op = x[0]
            if op == 'load':
                env[x[1]] = self.load(st, self.val(st, env, x[3], PTR), x[2])
            elif op == 'store':
                self.store(st, self.val(st, env, x[4], PTR), self.val_u(st, env, x[3], x[2]), x[2])
            elif op == 'alloca':
                r = self.new_region(st, 'alloca' + x[1], size=self.mod.size(x[2]), undef=True)
                env[x[1]] = Ptr(r, 0)
            elif op == 'gep':
                env[x[1]] = self.gep(st, env, x[2], self.val(st, env, x[3], PTR), x[4])
            elif op == 'call':
                r = self.do_call(f, st, env, x)
                # list of outcomes
                if len(r) == 1 and r[0][0] == 'ret':
                    st2 = r[0][1]
                    if st2 is not st:
                        st = st2
                    if x[1]:
                        env[x[1]] = r[0][2]
                    if x[5]:
                        work.append((st, env, x[5], blk, False))
                        return
                    continue
                for o in r:
                    if o[0] == 'ret':
                        e2 = dict(env)
                        if x[1]:
                            e2[x[1]] = o[2]
                        if x[5]:
                            work.append((o[1], e2, x[5], blk, False))
                        else:
                            # continue in the middle of the block
                            try:
                                self.block(f, o[1], e2, blk, prev, work, out, i)
                            except PathEnd:
                                pass
                    elif o[0] == 'throw':
                        if x[6]:
                            e2 = dict(env)
                            e2['#exc'] = o[2]
                            work.append((o[1], e2, x[6], blk, False))
                        else:
                            out.append(o)
                    else:
                        out.append(o)
                return
            elif op == 'jmp':
                work.append((st, env, x[2], blk, False))
                return
            elif op == 'br':
                c = self.val(st, env, x[2], ('i', 1))
                if isinstance(c, int):
                    work.append((st, env, x[3] if c else x[4], blk, False))
                    return
                self.branch(st, env, c, x[3], x[4], blk, work)
                return
            elif op == 'switch':
                v = self.val(st, env, x[3], x[2])
                if isinstance(v, int):
                    for cv, tb in x[5]:
                        if cv == v:
                            work.append((st, env, tb, blk, False))
                            return
                    work.append((st, env, x[4], blk, False))
                    return
                rest = st
                for cv, tb in x[5]:
                    c = simp(bvz(v, x[2][1]) == cv)
                    if self.feasible(rest, c):
                        s2 = rest.fork()
                        s2.assume(c)
                        work.append((s2, dict(env), tb, blk, False))
                    rest.assume(simp(z3.Not(c)))
                if self.feasible(rest):
                    work.append((rest, env, x[4], blk, False))
                return
            elif op == 'ret':
                out.append(('ret', st, self.val_u(st, env, x[3], x[2]) if x[3] is not None else None))
                return
            elif op == 'icmp':
                a = self.val(st, env, x[4], x[3])
                b = self.val(st, env, x[5], x[3])
                if x[3] == PTR or isinstance(a, (PtrInt, Ptr)) or isinstance(b, (PtrInt, Ptr)):
                    env[x[1]] = self.pcmp(st, x[2], a, b)
                elif isinstance(a, FPBits) or isinstance(b, FPBits):
                    env[x[1]] = self.fpbits_cmp(x[2], a, b, x[3][1])
                else:
                    env[x[1]] = icmp(x[2], x[3][1], a, b)
            elif op == 'fcmp':
                a = self.val(st, env, x[4], x[3])
                b = self.val(st, env, x[5], x[3])
                r = self.dom.cmp(x[2], a, b)
                if isinstance(r, bool):
                    r = int(r)
                else:
                    r = lower(simp(r))
                env[x[1]] = r
            elif op == 'bin':
                a = self.val(st, env, x[4], x[3])
                b = self.val(st, env, x[5], x[3])
                if x[3][0] != 'i':
                    raise Undecided('vector op')
                if isinstance(a, FPBits) or isinstance(b, FPBits):
                    env[x[1]] = self.fpbits_bin(x[2], a, b, x[3][1])
                else:
                    env[x[1]] = ibin(x[2], x[3][1], a, b)
            elif op == 'fbin':
                if x[3] not in (DOUBLE, FLOAT):
                    raise Undecided('fp type %s' % (x[3],))
                env[x[1]] = self.dom.bin(x[2], self.val(st, env, x[4], x[3]), self.val(st, env, x[5], x[3]), x[3])
            elif op == 'fneg':
                env[x[1]] = self.dom.neg(self.val(st, env, x[3], x[2]), x[2])
            elif op == 'cast':
                v = self.val(st, env, x[4], x[3])
                if isinstance(v, FPBits) and x[2] == 'trunc' or isinstance(v, FPBits) and x[2] in ('zext', 'sext', 'bitcast'):
                    env[x[1]] = self.fpbits_cast(x[2], v, x[3], x[5])
                else:
                    env[x[1]] = self.cast(x[2], v, x[3], x[5])
            elif op == 'select':
                c = self.val(st, env, x[2], ('i', 1))
                a = self.val_u(st, env, x[4], x[3])
                b = self.val_u(st, env, x[5], x[3])
                if isinstance(c, int):
                    env[x[1]] = a if c else b
                elif x[3] in (DOUBLE, FLOAT):
                    env[x[1]] = self.dom.ite(c, a, b)
                elif x[3][0] == 'i':
                    if x[3][1] == 1:
                        env[x[1]] = lower(simp(z3.If(c, bz(a), bz(b))))
                    else:
                        env[x[1]] = lower(simp(z3.If(c, bvz(a, x[3][1]), bvz(b, x[3][1]))))
                else:
                    # fork
                    s2 = st.fork()
                    s2.assume(c)
                    st.assume(simp(z3.Not(c)))
                    e2 = dict(env)
                    e2[x[1]] = a
                    env[x[1]] = b
                    if self.feasible(s2):
                        try:
                            self.block(f, s2, e2, blk, prev, work, out, i)
                        except PathEnd:
                            pass
                    if not self.feasible(st):
                        return
            elif op == 'extractvalue':
                v = self.val(st, env, x[3], x[2])
                for k in x[4]:
                    v = v[k]
                env[x[1]] = v
            elif op == 'insertvalue':
                v = self.val(st, env, x[3], x[2])
                e = self.val_u(st, env, x[5], x[4])
                env[x[1]] = insert_agg(v, x[6], e)
            elif op == 'extractelement':
                v = self.val(st, env, x[3], x[2])
                k = self.val(st, env, x[4], ('i', 64))
                env[x[1]] = v[k]
            elif op == 'insertelement':
                v = self.val(st, env, x[3], x[2])
                k = self.val(st, env, x[5], ('i', 64))
                e = self.val_u(st, env, x[4], x[2][2])
                env[x[1]] = v[:k] + (e,) + v[k + 1:]
            elif op == 'unreachable':
                return
            elif op == 'landingpad':
                exc = env.get('#exc')
                sel = 0
                matched = False
                for c in x[3]:
                    if c[0] == 'catch':
                        if c[1][0] == 'null':
                            sel = 1
                            matched = True
                            break
                        raise Undecided('catch clause')
                env[x[1]] = (Ptr(None, 0) if not matched else Ptr(None, 0), sel)
                env['#exc_cur'] = exc
            elif op == 'resume':
                out.append(('throw', st, env.get('#exc_cur')))
                return
            elif op == 'freeze':
                env[x[1]] = self.val_u(st, env, x[3], x[2])
            elif op == 'nop':
                pass
            elif op == 'asm':
                raise Undecided('inline asm')
            else:
                raise Undecided('instr ' + op)
        raise Undecided('fell off block')

    def val_u(self, st, env, v, ty):
        """value, undef allowed"""
        if v[0] == 'l':
            return env[v[1]]
        return self.val(st, env, v, ty)

    def branch(self, st, env, c, a, b, blk, work):
        nc = simp(z3.Not(c))
        for k in st.pc:
            if k.eq(c):
                work.append((st, env, a, blk, False))
                return
            if k.eq(nc):
                work.append((st, env, b, blk, False))
                return
        ft = self.feasible(st, c)
        ff = self.feasible(st, nc) if ft else True
        if ft and ff:
            s2 = st.fork()
            s2.assume(c)
            st.assume(nc)
            work.append((st, env, b, blk, False))
            work.append((s2, dict(env), a, blk, False))
        elif ft:
            st.assume(c)
            work.append((st, env, a, blk, False))
        else:
            st.assume(nc)
            work.append((st, env, b, blk, False))

    # ---------- fp bit tricks (signbit etc.)
    def fpbits_cmp(self, p, a, b, w):
        if isinstance(a, FPBits) and isinstance(b, int):
            sb = 1 << (w - 1)
            if p == 'slt' and b == 0:
                return self.signbit(a)
            if p == 'sge' and b == 0 or p == 'sgt' and b == (1 << w) - 1:
                r = self.signbit(a)
                return (1 - r) if isinstance(r, int) else simp(z3.Not(r))
        raise Undecided('fp bit comparison')

    def signbit(self, a):
        v = a.v
        if isinstance(self.dom, FPDom):
            return simp(z3.fpIsNegative(v))    # z3: NaN is neither; NaN sign treated as unknown
        if isinstance(self.dom, RealDom):
            r = self.dom.cmp('olt', v, self.dom.const(0.0, a.ty))
            return int(r) if isinstance(r, bool) else r
        return uf('s_signbit', self.dom.S, z3.BoolSort())(v)

    def fpbits_bin(self, op, a, b, w):
        raise Undecided('fp bit arithmetic')

    def fpbits_cast(self, op, v, f, t):
        if op == 'bitcast' and t == v.ty:
            return v.v
        raise Undecided('fp bit cast')

    # ---------- calls
    def do_call(self, f, st, env, x):
        callee = x[3]
        if callee[0] == 'g':
            name = self.mod.aliases.get(callee[1], callee[1])
        else:
            fp = self.val(st, env, callee, PTR)
            if isinstance(fp, FnPtr):
                name = fp.name
            else:
                r = self.indirect(f, st, env, x, fp)
                if r is not None:
                    return r
                raise Undecided('indirect call')
        if name.startswith('@llvm.'):
            return self.intrinsic(f, st, env, x, name)
        args = [self.val_u(st, env, a[1], a[0]) if a[1] is not None else None for a in x[4]]
        # byval args: copy
        for k, a in enumerate(x[4]):
            if a[2] and a[2][0] == 'byval':
                r = self.new_region(st, 'byval', size=self.mod.size(a[2][1]), undef=True)
                self.memcpy(st, Ptr(r, 0), args[k], self.mod.size(a[2][1]))
                args[k] = Ptr(r, 0)
        return self.invoke(st, name, args, x)

    def indirect(self, f, st, env, x, fp):
        return None

    def invoke(self, st, name, args, x):
        d = ir.dem(name)
        h = self._ccache.get(name)
        if h is None:
            h = False
            for rx, hh in self.contracts:
                if rx.search(d):
                    h = hh
                    break
            self._ccache[name] = h
        if h:
            self.called[d] = self.called.get(d, 0) + 1
            r = h(self, st, d, args, x)
            if r is not NotImplemented:
                if isinstance(r, list):
                    return r
                return [('ret', st, r)]
        b = self.builtin(st, name, d, args, x)
        if b is not NotImplemented:
            return b if isinstance(b, list) else [('ret', st, b)]
        if name in self.mod.funcs:
            return self.call_function(st, name, args)
        raise Undecided('external function without contract: ' + d)

    def builtin(self, st, name, d, args, x):
        m = LIBM_RE.match(name)
        if m and name not in self.mod.funcs:
            base = (m.group(1) or '') + m.group(2)
            tys = [a[0] for a in x[4]]
            if all(t in (DOUBLE, FLOAT) for t in tys):
                r = self.dom.call(base, args, x[2])
                if r is not None:
                    self.assumed.add('libm:' + base)
                    return r
        if name in ('@fmaf', '@fma'):
            return self.dom.call('fma', args, x[2])
        if name in ('@ldexp', '@ldexpf', '@scalbn', '@scalbnf', '@scalbln', '@scalblnf'):
            self.assumed.add('libm:ldexp')
            return self.m_ldexp(args[0], args[1], x[4][1][0][1])
        if name in ('@frexp', '@frexpf'):
            self.assumed.add('libm:frexp')
            e, fr = self.m_frexp(args[0])
            self.store(st, args[1], e, ('i', 32))
            return fr
        if name in ('@modf', '@modff'):
            self.assumed.add('libm:modf')
            if isinstance(self.dom, RealDom):
                ip = self.dom.trunc(args[0])
                self.store(st, args[1], ip, x[2])
                return self.dom.bin('fsub', args[0], ip, x[2])
            ip = self.dom.fn('modf_int', args[0])
            self.store(st, args[1], ip, x[2])
            return self.dom.fn('modf_frac', args[0])
        if name in ('@remquo', '@remquof'):
            self.assumed.add('libm:remquo')
            a, b = args[0], args[1]
            if isinstance(self.dom, RealDom):
                A, B = self.dom.z(a), self.dom.z(b)
                n = self.dom.rint(A / B)
                # C standard: sign of quotient, magnitude congruent modulo 2^k (k>=3) to the true quotient
                q = uf('remquo_quo', z3.RealSort(), z3.RealSort(), z3.BitVecSort(32))(A, B)
                self.store(st, args[2], q, ('i', 32))
                return A - B * n
            S = a.sort()
            self.store(st, args[2], uf('remquo_quo_%s' % S, S, S, z3.BitVecSort(32))(a, b), ('i', 32))
            return self.dom.fn('remainder', a, b)
        if name in ('@ilogb', '@ilogbf', '@lround', '@lroundf', '@llround', '@llroundf', '@lrint', '@lrintf', '@llrint', '@llrintf'):
            base = name[1:].rstrip('f') if not name.endswith('ilogb') else 'ilogb'
            w = x[2][1]
            self.assumed.add('libm:' + base)
            a = self.dom.z(args[0])
            return uf('%s_%s' % (base, a.sort()), a.sort(), z3.BitVecSort(w))(a)
        if name in ('@__isinf', '@__isnan', '@__finite', '@__isinff', '@__isnanf', '@__finitef', '@__fpclassify', '@__fpclassifyf', '@__signbit', '@__signbitf'):
            a = self.dom.z(args[0])
            return uf('%s_%s' % (name[1:], a.sort()), a.sort(), z3.BitVecSort(32))(a)
        if name == '@__cxa_allocate_exception':
            r = self.new_region(st, 'exc', undef=True)
            return Ptr(r, 0)
        if name == '@__cxa_free_exception':
            return None
        if name == '@__cxa_throw':
            ti = args[1]
            tn = ir.dem(ti.reg.name[4:]) if isinstance(ti, Ptr) and ti.reg is not None else str(ti)
            return [('throw', st, tn.replace('typeinfo for ', ''))]
        if name == '@__cxa_rethrow':
            return [('throw', st, '?')]
        if name in ('@__clang_call_terminate', '@_ZSt9terminatev', '@abort'):
            return [('term', st, name)]
        if name == '@__assert_fail':
            return [('abort', st, 'assert')]
        if name == '@__cxa_begin_catch':
            return NULL
        if name == '@__cxa_end_catch':
            return None
        if name in ('@_Znwm', '@_ZnwmSt11align_val_t', '@_Znam'):
            n = args[0]
            if isinstance(n, ByteDiff):
                n = n.full()
            if not isinstance(n, int):
                raise Undecided('operator new of symbolic size')
            r = self.new_region(st, 'heap', size=n, undef=True)
            return Ptr(r, 0)
        if name in ('@_ZdlPv', '@_ZdlPvm', '@_ZdaPv', '@_ZdaPvm', '@free', '@_ZdlPvSt11align_val_t', '@_ZdlPvmSt11align_val_t'):
            return self.do_free(st, args[0])
        if name == '@__cxa_guard_acquire':
            return 0
        if name in ('@__cxa_guard_release', '@__cxa_guard_abort', '@__cxa_atexit'):
            return None
        return NotImplemented

    def do_free(self, st, p):
        if isinstance(p, Ptr):
            if p.reg is None:
                return None
            fr = st.ghost.get('freed', frozenset())
            if p.reg in fr:
                self.oblige(st, False, 'double free')
                raise PathEnd('double free')
            st.ghost['freed'] = fr | {p.reg}
            return None
        raise Undecided('free of opaque pointer')

    def m_ldexp(self, v, n, w):
        if isinstance(self.dom, RealDom):
            if not isinstance(n, int):
                p2 = uf('pow2', z3.BitVecSort(32), z3.RealSort())(bvz(n, w) if w == 32 else z3.Extract(31, 0, bvz(n, w)))
            if isinstance(n, int):
                from fractions import Fraction
                p2 = Fraction(2) ** sint(n, w)
            return self.dom.bin('fmul', v, p2, DOUBLE)
        S = v.sort()
        return uf('m_ldexp_%s' % S, S, z3.BitVecSort(w), S)(v, bvz(n, w))

    def m_frexp(self, v):
        v = self.dom.z(v)
        S = v.sort()
        e = uf('frexp_exp_%s' % S, S, z3.BitVecSort(32))(v)
        if isinstance(self.dom, RealDom):
            # v = frac * 2^e
            return e, v / uf('pow2', z3.BitVecSort(32), z3.RealSort())(e)
        return e, uf('frexp_frac_%s' % S, S, S)(v)

    def intrinsic(self, f, st, env, x, name):
        base = name[len('@llvm.'):]
        if base.startswith('lifetime') or base.startswith('dbg') or base.startswith('assume') or base.startswith('experimental.noalias') or base.startswith('stacksave') or base.startswith('stackrestore'):
            return [('ret', st, None)]
        args = [self.val_u(st, env, a[1], a[0]) if a[1] is not None else None for a in x[4]]
        k = base.split('.')[0]
        if k in ('frexp', 'ldexp') and len(base.split('.')) > 1:
            self.assumed.add('libm:' + k)
            if k == 'frexp':
                e, fr = self.m_frexp(args[0])
                return [('ret', st, [fr, e])]
            return [('ret', st, self.m_ldexp(args[0], args[1], x[4][1][0][1]))]
        if k == 'is' and base.startswith('is.constant'):
            return [('ret', st, 0)]     # unoptimised build: only literals are constant
        if k in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return [('ret', st, None)]
        if k == 'memset':
            p, v, n = args[0], args[1], args[2]
            if v == 0 and isinstance(n, int) and isinstance(p, Ptr) and p.reg is not None and p.reg.kind == 'cell':
                self.access(st, p, None, 'memset')
                d = st.wcells(p.reg)
                for kk in [kk for kk in d if isinstance(kk, int)]:
                    s2 = self.mod.size(d[kk][1])
                    if kk < p.off + n and p.off < kk + s2:
                        if kk >= p.off and kk + s2 <= p.off + n:
                            del d[kk]
                        else:
                            raise Undecided('memset overlap')
                d[('z', p.off, n)] = (0, None)
                if st.log is not None:
                    st.log.append((p.reg, ('z', p.off, n), None))
                return [('ret', st, None)]
            raise Undecided('memset')
        if k in INTR_MATH:
            r = self.dom.call(k, args, x[2])
            if r is None:
                raise Undecided('intrinsic ' + name)
            return [('ret', st, r)]
        if k == 'expect':
            return [('ret', st, args[0])]
        if k in ('umax', 'umin', 'smax', 'smin'):
            w = x[2][1]
            c = icmp({'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k], w, args[0], args[1])
            if isinstance(c, int):
                return [('ret', st, args[0] if c else args[1])]
            return [('ret', st, lower(simp(z3.If(c, bvz(args[0], w), bvz(args[1], w)))))]
        if k == 'threadlocal':
            return [('ret', st, args[0])]
        if k == 'ldexp':
            return [('ret', st, self.m_ldexp(args[0], args[1], x[4][1][0][1]))]
        if k == 'trap':
            return [('abort', st, 'trap')]
        if k == 'is' and base.startswith('is.fpclass'):
            a = args[0]
            m = args[1]
            if isinstance(self.dom, FPDom):
                return [('ret', st, self.fpclass(a, m))]
            if isinstance(self.dom, RealDom):
                # finite reals: only the finite classes can apply, the sign of zero and subnormality are not represented
                fin = m & 0x1f8
                if fin in (0, 0x1f8):
                    return [('ret', st, 1 if fin else 0)]
                b = [bool(m & (1 << i)) for i in range(10)]
                if b[3] != b[4] or b[5] != b[6] or b[7] != b[8]:
                    raise Undecided('is.fpclass over reals')
                v = self.dom.z(a)
                return [('ret', st, lower(simp(z3.Or([c for c, on in ((v < 0, b[3]), (v == 0, b[5]), (v > 0, b[7])) if on]))))]
            return [('ret', st, uf('s_fpclass_%d' % m, self.dom.S, z3.BoolSort())(a))]
        if base.startswith('eh.typeid.for'):
            raise Undecided('typed catch')
        if base in ('uadd.with.overflow.i64', 'umul.with.overflow.i64'):
            a, b = args
            A, B = bvz(a, 64), bvz(b, 64)
            if base[1:4] == 'add':
                r = ibin('add', 64, a, b)
                o = lower(simp(z3.ULT(bvz(r, 64), A)))
            else:
                r = ibin('mul', 64, a, b)
                o = lower(simp(z3.Not(z3.BVMulNoOverflow(A, B, False))))
            return [('ret', st, (r, o))]
        raise Undecided('intrinsic ' + name)

    def fpclass(self, a, m):
        P = []
        neg = z3.fpIsNegative(a)
        pos = z3.Not(neg)
        if m & 3:
            if m & 3 == 3:
                P.append(z3.fpIsNaN(a))
            else:
                raise Undecided('snan/qnan class')
        tests = [(4, z3.And(z3.fpIsInf(a), neg)), (8, z3.And(z3.fpIsNormal(a), neg)), (16, z3.And(z3.fpIsSubnormal(a), neg)),
                 (32, z3.And(z3.fpIsZero(a), neg)), (64, z3.And(z3.fpIsZero(a), pos)), (128, z3.And(z3.fpIsSubnormal(a), pos)),
                 (256, z3.And(z3.fpIsNormal(a), pos)), (512, z3.And(z3.fpIsInf(a), pos))]
        for b, c in tests:
            if m & b:
                P.append(c)
        return lower(simp(z3.Or(P)))

    # ---------- helpers for specs
    def init_obj(self, st, p, ty, name):
        """fill an object of LLVM type `ty` at p with fresh symbols (pointers left unset)"""
        rt = self.mod.resolve(ty)
        if rt[0] == 'lit':
            offs = self.mod._slayout(rt)[0]
            for k, (o, t) in enumerate(zip(offs, rt[1])):
                self.init_obj(st, self.padd(p, o), t, '%s.%d' % (name, k))
            return
        if rt[0] == 'arr':
            if rt[2] == ('i', 8):
                return      # padding
            es = self.mod.size(rt[2])
            for i in range(rt[1]):
                self.init_obj(st, self.padd(p, i * es), rt[2], '%s[%d]' % (name, i))
            return
        if rt == PTR:
            return
        self.store(st, p, self.fresh_of(name, rt), rt)


class FPBits:
    def __init__(self, v, ty):
        self.v = v
        self.ty = ty


class PathEnd(Exception):
    pass


def insert_agg(v, ix, e):
    if len(ix) == 1:
        return v[:ix[0]] + (e,) + v[ix[0] + 1:]
    return v[:ix[0]] + (insert_agg(v[ix[0]], ix[1:], e),) + v[ix[0] + 1:]


# ------------------------------------------------------------------ natural loops
def succs(mod, ins):
    x = mod.instr(ins[-1])
    if x[0] == 'jmp':
        return [x[2]]
    if x[0] == 'br':
        return [x[3], x[4]]
    if x[0] == 'switch':
        return [x[4]] + [b for _, b in x[5]]
    if x[0] == 'call' and x[5]:
        return [x[5], x[6]]
    return []


def loop_info(f):
    """header -> set of blocks (natural loops, irreducible ones not supported)"""
    mod = f.mod
    S = {b: succs(mod, ins) for b, ins in f.blocks.items()}
    order = []
    seen = {}
    # iterative dfs for back edges
    back = []
    stack = [(f.entry, iter(S[f.entry]))]
    seen[f.entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen[s] = 1
                stack.append((s, iter(S[s])))
                break
            elif seen[s] == 1:
                back.append((b, s))
        else:
            seen[b] = 2
            order.append(b)
            stack.pop()
    if not back:
        return {}
    P = {}
    for b, ss in S.items():
        for s in ss:
            P.setdefault(s, []).append(b)
    li = {}
    for b, h in back:
        L = li.setdefault(h, {h})
        w = [b]
        while w:
            n = w.pop()
            if n in L:
                continue
            L.add(n)
            w.extend(P.get(n, []))
    return li


def compile_contracts(lst):
    return [(re.compile(r), h) for r, h in lst]
