"""ChunkContainer<T>: representation, memory model of the blocks, contracts of the std facilities it uses (C08)."""
import z3
from . import sym, ir
from .sym import *
from .sym import PathEnd
from .ir import DOUBLE, FLOAT, PTR
from .tapemodel import vget, vset, stub_none, EXC
from .loops import LoopSpec
from .contracts import Spec

I1 = ('i', 1)
CAP = 1 << 20      # assumed bound on the number of blocks (8M elements each)


class Cont:
    """a symbolic container in an arbitrary state satisfying the representation invariant"""

    def __init__(self, ex, st, K, name, empty=False, moved=False):
        self.ex, self.K, self.name = ex, K, name
        cs = K['cs']
        self.reg = ex.new_region(st, name, size=K['sizeof'])
        ex.cont[self.reg] = self
        bv = z3.BitVecSort(64)
        self.data = ex.arr_region(st, name + '_data', K['es'], {o: (t, ex.dom.sort_of(t) if t[0] != 'i' else z3.BitVecSort(t[1])) for o, t in K['fields'].items()})
        self.data.check = self.check
        self.live = ex.arr_region(st, name + '_live', 1, {0: (I1, z3.BoolSort())})
        self.fr = ex.arr_region(st, name + '_freed', 1, {0: (I1, z3.BoolSort())})
        self.blocks = ex.arr_region(st, name + '_blocks', 8, {0: (PTR, bv)}, check=self.bcheck, tag={'ptrmap': self.ptrmap})
        self.data.cont = self
        self.blocks.cont = self
        self.n0 = z3.BitVec(name + '_nblocks', 64)
        self.c0 = z3.BitVec(name + '_chunk', 64)
        self.i0 = z3.BitVec(name + '_idx', 64)
        d = st.wcells(self.reg)
        d[('v', K['list'])] = VecVal(self.blocks, self.n0)
        ex.store(st, Ptr(self.reg, K['chunk']), self.c0, ('i', 64))
        ex.store(st, Ptr(self.reg, K['idx']), self.i0, ('i', 64))
        ok = z3.And(z3.ULT(self.c0, self.n0), z3.ULE(self.i0, cs))
        if moved:
            ok = z3.Or(ok, z3.And(self.n0 == 0, self.c0 == 0, self.i0 == 0))
        st.assume(ok)
        st.assume(z3.ULT(self.n0, CAP))
        self.size0 = self.c0 * cs + self.i0
        # live exactly below size; nothing released (stated for the two ghost positions)
        self.d0 = {k: st.mem[self.data][k] for k in K['fields']}
        self.j = z3.BitVec('j_star', 64)
        self.b = z3.BitVec('b_star', 64)
        st.wcells(self.live)[0] = AGen(ABase(z3.K(bv, z3.BoolVal(False))), 0, self.size0, lambda j: z3.BoolVal(True))
        st.wcells(self.fr)[0] = ABase(z3.K(bv, z3.BoolVal(False)))

    def ptr(self):
        return Ptr(self.reg, 0)

    # ---- memory model: block c holds the elements c*cs ... c*cs+cs-1
    def nblocks(self, st, reg=None):
        for r in self.ex.cont:
            v = st.mem[r].get(('v', self.K['list']))
            if v is not None and v.reg is self.blocks:
                return v.size
        return self.ghost_n(st)

    def ghost_n(self, st):
        return st.ghost.get(('orphan', self.blocks), self.n0)

    def check(self, ex, st, p):
        if p.ck is None:
            return False
        cs = self.K['cs']
        ck = bvz(p.ck, 64)
        f = st.mem[self.fr][0].sel(p.ck)
        return z3.And(z3.ULT(bvz(p.idx, 64) - ck * cs, z3.BitVecVal(cs, 64)), z3.ULT(ck, bvz(self.nblocks(st), 64)), z3.Not(bz(f)))

    def bcheck(self, ex, st, p):
        return z3.ULT(bvz(p.idx, 64), bvz(self.nblocks(st), 64))

    def ptrmap(self, ex, st, p, v):
        return Ptr(self.data, 0, ibin('mul', 64, p.idx, self.K['cs']), p.idx)

    def elem(self, st, f, j):
        return st.mem[self.data][f].sel(j)

    def elem0(self, f, j):
        return self.d0[f].sel(j)

    def islive(self, st, j):
        return bz(st.mem[self.live][0].sel(j))

    def size(self, st, reg=None):
        reg = reg or self.reg
        ex = self.ex
        c = ex.load(st, Ptr(reg, self.K['chunk']), ('i', 64))
        i = ex.load(st, Ptr(reg, self.K['idx']), ('i', 64))
        return bvz(ibin('add', 64, ibin('mul', 64, c, self.K['cs']), i), 64)

    def repinv(self, st, reg=None):
        reg = reg or self.reg
        c = bvz(self.ex.load(st, Ptr(reg, self.K['chunk']), ('i', 64)), 64)
        i = bvz(self.ex.load(st, Ptr(reg, self.K['idx']), ('i', 64)), 64)
        v = st.mem[reg].get(('v', self.K['list']))
        return z3.And(z3.ULT(c, bvz(v.size, 64)), z3.ULE(i, self.K['cs']))


def cont_of(ex, p):
    c = getattr(p.reg, 'cont', None) if isinstance(p, Ptr) else None
    return c


# ------------------------------------------------------------------ contracts of the library facilities
def c_alloc(ex, st, d, a, x):
    s2 = st.fork()
    r = ex.new_region(st, 'newblock', size=None, undef=True)
    r.bytes = a[1]
    r.align = a[0]
    f = ex.fresh('alloc_ok', z3.BoolSort())
    st.assume(f)
    s2.assume(z3.Not(f))
    return [('ret', st, Ptr(r, 0)), ('ret', s2, NULL)]


def c_free(ex, st, d, a, x):
    p = a[0]
    c = cont_of(ex, p)
    if c is None:
        return ex.do_free(st, p)
    ok = z3.And(bvz(p.idx, 64) == bvz(p.ck, 64) * c.K['cs'], z3.BoolVal(p.off == 0), z3.Not(bz(st.mem[c.fr][0].sel(p.ck))),
                z3.ULT(bvz(p.ck, 64), bvz(c.nblocks(st), 64)))
    ex.oblige(st, ok, 'each block is released once')
    st.assume(ok)
    ex.setarr(st, c.fr, 0, AStore(st.mem[c.fr][0], p.ck, z3.BoolVal(True)))
    return None


def v_push(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    q = ex.load(st, a[1], PTR)
    c = getattr(v.reg, 'cont', None)
    need = c.K['es'] * c.K['cs']
    if not isinstance(q, Ptr) or q.reg is None or not hasattr(q.reg, 'bytes'):
        raise Undecided('pushed block %r' % (q,))
    b = q.reg.bytes
    b = b.full() if isinstance(b, ByteDiff) else b
    ex.oblige(st, z3.UGE(bvz(b, 64), need), 'block is large enough for chunk_size elements')
    if q.reg in st.ghost.get('used', ()):
        ex.oblige(st, False, 'block appended twice')
    st.ghost['used'] = st.ghost.get('used', frozenset()) | {q.reg}
    vset(ex, st, a[0], VecVal(v.reg, ibin('add', 64, v.size, 1)))
    return None


def v_size(ex, st, d, a, x):
    return vget(ex, st, a[0]).size


def v_empty(ex, st, d, a, x):
    return icmp('eq', 64, vget(ex, st, a[0]).size, 0)


def v_at(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    c = icmp('ult', 64, a[1], v.size)
    if not (isinstance(c, int) and c == 1):
        ex.oblige(st, c, 'block index in range')
        if isinstance(c, int):
            raise PathEnd('index')
        st.assume(c)
    return Ptr(v.reg, 0, a[1])


def v_begin(ex, st, d, a, x):
    return Ptr(vget(ex, st, a[0]).reg, 0, 0)


def v_end(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    return Ptr(v.reg, 0, v.size)


def fresh_empty(ex, st):
    r = ex.arr_region(st, 'noblocks', 8, {0: (PTR, z3.BitVecSort(64))}, check=lambda e, s, p: z3.BoolVal(False))
    return VecVal(r, 0)


def v_movector(ex, st, d, a, x):
    v = vget(ex, st, a[1])
    vset(ex, st, a[0], v)
    vset(ex, st, a[1], fresh_empty(ex, st))
    return None


def v_ctor(ex, st, d, a, x):
    # a container under construction: its blocks are those of the Cont prepared for it
    c = ex.cont.get(a[0].reg)
    vset(ex, st, a[0], VecVal(c.blocks, 0))
    return None


def v_moveassign(ex, st, d, a, x):
    old = vget(ex, st, a[0])
    c = getattr(old.reg, 'cont', None)
    if c is not None:
        # the blocks themselves are not owned by the vector: all must have been released
        ex.oblige(st, z3.Implies(z3.ULT(c.b, bvz(old.size, 64)), bz(st.mem[c.fr][0].sel(c.b))), 'blocks released before the list is overwritten')
        st.ghost[('orphan', c.blocks)] = bvz(old.size, 64)
    v = vget(ex, st, a[1])
    vset(ex, st, a[0], v)
    vset(ex, st, a[1], fresh_empty(ex, st))
    return a[0]


def v_clear(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    c = getattr(v.reg, 'cont', None)
    if c is not None:
        ex.oblige(st, z3.Implies(z3.ULT(c.b, bvz(v.size, 64)), bz(st.mem[c.fr][0].sel(c.b))), 'blocks released before the list is cleared')
    vset(ex, st, a[0], VecVal(v.reg, 0))
    return None


def in_block(c, ex, st, lo, ck, n):
    """[lo, lo+n) lies within the allocated block ck"""
    cs = c.K['cs']
    l = bvz(lo, 64) - bvz(ck, 64) * cs
    n = bvz(n, 64)
    f = st.mem[c.fr][0].sel(ck)
    return z3.Or(n == 0, z3.And(z3.ULE(l, cs), z3.ULE(n, cs - l), z3.ULT(bvz(ck, 64), bvz(c.nblocks(st), 64)), z3.Not(bz(f))))


def raw_fill(ex, st, p, n, src, construct, nm):
    c = cont_of(ex, p)
    if c is None:
        raise Undecided('fill outside of a block')
    if isinstance(n, ByteDiff):
        if n.stride != c.K['es']:
            raise Undecided('fill count')
        n = n.n
    g = in_block(c, ex, st, p.idx, p.ck, n)
    ex.oblige(st, g, nm + ' stays within one allocated block')
    st.assume(g)
    lo, hi = p.idx, ibin('add', 64, p.idx, n)
    if c.K['obj']:
        inr = bz(in_range(c.j, lo, hi))
        lv = c.islive(st, c.j)
        ex.oblige(st, z3.Implies(inr, z3.Not(lv) if construct else lv), nm + (' constructs only elements that do not exist yet' if construct else ' assigns only existing elements'))
        if construct:
            ex.setarr(st, c.live, 0, AGen(st.mem[c.live][0], lo, hi, lambda j: z3.BoolVal(True)))
    for sub, ty in c.K['fields'].items():
        zv = ex.zval(ex.load(st, ex.padd(src, sub), ty), ty)
        ex.setarr(st, c.data, sub, AGen(st.mem[c.data][sub], lo, hi, lambda j, zv=zv: zv))
    return ex.padd_sym(p, n, c.K['es'])


def s_ufill_n(ex, st, d, a, x):
    return raw_fill(ex, st, a[0], a[1], a[2], True, 'std::uninitialized_fill_n')


def s_ufill(ex, st, d, a, x):
    raw_fill(ex, st, a[0], ptr_diff(a[1], a[0]), a[2], True, 'std::uninitialized_fill')
    return None


def s_fill(ex, st, d, a, x):
    raw_fill(ex, st, a[0], ptr_diff(a[1], a[0]), a[2], False, 'std::fill')
    return None


def s_fill_n(ex, st, d, a, x):
    return raw_fill(ex, st, a[0], a[1], a[2], False, 'std::fill_n')


# the class with a non-trivial destructor: declared only, so every construction and destruction is a contract
def o_copy(ex, st, d, a, x):
    c = cont_of(ex, a[0])
    if c is not None:
        g = z3.Not(c.islive(st, a[0].idx))
        ex.oblige(st, g, 'constructs an element that does not exist yet')
        ex.setarr(st, c.live, 0, AStore(st.mem[c.live][0], a[0].idx, z3.BoolVal(True)))
    for sub, ty in ex.K['fields'].items():
        ex.store(st, ex.padd(a[0], sub), ex.load(st, ex.padd(a[1], sub), ty), ty)
    return None


def o_assign(ex, st, d, a, x):
    c = cont_of(ex, a[0])
    if c is not None:
        ex.oblige(st, c.islive(st, a[0].idx), 'assigns an existing element')
    for sub, ty in ex.K['fields'].items():
        ex.store(st, ex.padd(a[0], sub), ex.load(st, ex.padd(a[1], sub), ty), ty)
    return a[0]


def o_dtor(ex, st, d, a, x):
    c = cont_of(ex, a[0])
    if c is not None:
        ex.access(st, a[0], None, 'destructor')
        g = c.islive(st, a[0].idx)
        ex.oblige(st, g, 'destroys an existing element')
        ex.setarr(st, c.live, 0, AStore(st.mem[c.live][0], a[0].idx, z3.BoolVal(False)))
    return None


def o_ctor(ex, st, d, a, x):
    for sub, ty in ex.K['fields'].items():
        ex.store(st, ex.padd(a[0], sub), ex.fresh_of('dflt', ty), ty)
    return None


VC = r'^std::vector<char\*, .*>::'
CONTRACTS = [
    (r'^aligned_alloc$', c_alloc), (r'^free$', c_free),
    (VC + r'push_back\(', v_push), (VC + r'emplace_back<char\*', v_push), (VC + r'size\(\)', v_size), (VC + r'empty\(\)', v_empty),
    (VC + r'operator\[\]\(', v_at), (VC + r'begin\(\)', v_begin), (VC + r'end\(\)', v_end),
    (VC + r'vector\(std::vector<char\*, .*>&&\)', v_movector), (VC + r'vector\(\)', v_ctor),
    (VC + r'operator=\(std::vector<char\*, .*>&&\)', v_moveassign), (VC + r'clear\(\)', v_clear),
    (VC + r'reserve\(', stub_none), (VC + r'~vector\(\)', stub_none),
    (r'^\w[\w:<>, *&]* std::uninitialized_fill_n<', s_ufill_n), (r'^void std::uninitialized_fill<', s_ufill),
    (r'^void std::fill<', s_fill), (r'^\w[\w:<>, *&]* std::fill_n<', s_fill_n),
    (r'^Obj::Obj\(Obj const&\)', o_copy), (r'^Obj::Obj\(Obj&&\)', o_copy), (r'^Obj::Obj\(\)', o_ctor), (r'^Obj::~Obj\(\)', o_dtor),
    (r'^Obj::operator=\(', o_assign),
    (r'^std::bad_alloc::', stub_none),
] + EXC
