"""C14/C15, all shapes: the forward computeJacobian / computeHessian under contract, for any number of inputs and outputs.
The callees are used through contracts only: std::vector (copies, sizes, element access), std::function (an unknown function,
given by what it returns for arguments seeded with a unit tangent).  Every loop is replaced by its invariant.  Facts about all
positions are stated for the arbitrary entry (ROW, COL) of the result and for the arbitrary position SK of an argument."""
import re
import z3
from . import ir, build
from .sym import *
from .contracts import verify as cverify
from .loops import LoopSpec
from .tapemodel import vget, vset, seq_size, seq_at, EXC
from .ir import DOUBLE
R = z3.RealSort()
SRC = r'''
#include <XAD/XAD.hpp>
#include <XAD/Hessian.hpp>
#include <XAD/Jacobian.hpp>
#include <vector>
typedef xad::FReal<double> F;
typedef xad::FReal<F> FF;
typedef std::vector<std::vector<double> >::iterator RI;
extern "C" void pj_fwd(const std::vector<F>& v, std::function<std::vector<F>(std::vector<F>&)>& f, RI* a, RI* b) { xad::computeJacobian(v, f, *a, *b); }
typedef xad::AReal<double> A;
extern "C" void pj_adj(const std::vector<A>& v, std::function<std::vector<A>(std::vector<A>&)>& f, RI* a, RI* b, xad::Tape<double>* t) { xad::computeJacobian(v, f, *a, *b, t); }
typedef xad::AReal<F> AF;
extern "C" void ph_adj(const std::vector<AF>& v, std::function<AF(std::vector<AF>&)>& f, RI* a, RI* b, xad::Tape<F>* t) { xad::computeHessian(v, f, *a, *b, t); }
extern "C" void ph_fwd(const std::vector<FF>& v, std::function<FF(std::vector<FF>&)>& f, RI* a, RI* b) { xad::computeHessian(v, f, *a, *b); }
typedef std::vector<std::vector<double> > M;
extern "C" M pj_fwd_r(const std::vector<F>& v, std::function<std::vector<F>(std::vector<F>&)>& f) { return xad::computeJacobian(v, f); }
extern "C" M pj_adj_r(const std::vector<A>& v, std::function<std::vector<A>(std::vector<A>&)>& f, xad::Tape<double>* t) { return xad::computeJacobian(v, f, t); }
extern "C" M ph_fwd_r(const std::vector<FF>& v, std::function<FF(std::vector<FF>&)>& f) { return xad::computeHessian(v, f); }
extern "C" M ph_adj_r(const std::vector<AF>& v, std::function<AF(std::vector<AF>&)>& f, xad::Tape<F>* t) { return xad::computeHessian(v, f, t); }
'''
U, UE = z3.ULT, z3.ULE
ROW, COL, SK, SKW = z3.BitVecs('ROW COL SK SKW', 64)
SQ, SQW = z3.BitVecs('SQ SQW', 64)
Z = z3.BitVecVal(0, 64)
VF = r'^(?:void )?std::vector<xad::FReal<.*>::'
VD = r'^(?:void )?std::vector<double, .*>::'
FN = r'^std::function<'


def B(v, w=64):
    return bvz(v, w)


def v_copy(ex, st, d, a, x):
    if len(a) != 2 or not d.rstrip().endswith('const&)'):
        return NotImplemented
    v = vget(ex, st, a[1])
    ex.jp.nv += 1
    r = Region('copy%d' % ex.jp.nv, kind='arr', stride=v.reg.stride, fields=dict(v.reg.fields))
    st.mem[r] = dict(st.mem[v.reg])
    st.own.add(r)
    vset(ex, st, a[0], VecVal(r, v.size))


def v_dtor(ex, st, d, a, x):
    vget(ex, st, a[0])
    st.wcells(a[0].reg).pop(('v', a[0].off), None)
    if st.log is not None:
        st.log.append((a[0].reg, ('v', a[0].off), None))


def v_begin(ex, st, d, a, x):
    return Ptr(vget(ex, st, a[0]).reg, 0, 0)


def v_end(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    return Ptr(v.reg, 0, v.size)


def row_of(ex, st, p):
    j = ex.jp
    if not isinstance(p, Ptr) or p.reg is not j.rows:
        raise Undecided('not a row of the result')
    g = simp(z3.And(U(B(p.idx) - j.r0, j.nrows)))
    ex.oblige(st, g, 'the row accessed is a row of the result')
    st.assume(g)
    return simp(B(p.idx) - j.r0)


def r_begin(ex, st, d, a, x):
    """cells are indexed by row * 2^32 + column"""
    return Ptr(ex.jp.cells, 0, simp(row_of(ex, st, a[0]) << 32))


def r_end(ex, st, d, a, x):
    r = row_of(ex, st, a[0])
    return Ptr(ex.jp.cells, 0, simp((r << 32) + ex.jp.len(r)))


def fcopy(ex, st, d, a, x):
    return None


def fcall(ex, st, d, a, x):
    """the unknown function: any values in its argument afterwards; its result has, for an argument that holds the point and
    is seeded with unit tangents, the derivatives of the function.  (for all q: seeded(q)) => result, with the position at
    which the premise may fail named SKW."""
    j = ex.jp
    out, arg = a[0], a[-1]
    v = vget(ex, st, arg)
    dom = ex.dom
    # one call on a path may speak about SKW; any other has a position of its own
    c = st.ghost.get('fcalls', 0)
    st.ghost = dict(st.ghost, fcalls=c + 1)
    sk = SKW if c == j.call0 else z3.FreshConst(z3.BitVecSort(64), 'SK')
    val = lambda sub, i: dom.z(st.mem[v.reg][sub].sel(i))
    point = [val(0, sk) == z3.Select(j.X, sk)]
    e = lambda k: z3.If(sk == k, z3.RealVal(1), z3.RealVal(0))
    if not j.hess:
        seeded = z3.And(point + [val(8, sk) == e(COL)])
        ex.jp.nv += 1
        r = ex.arr_region(st, 'y%d' % ex.jp.nv, 16, {0: (DOUBLE, R), 8: (DOUBLE, R)})
        dv = dom.z(st.mem[r][8].sel(ROW))
        st.assume(z3.Or(z3.And(U(sk, B(v.size)), z3.Not(seeded)), B(v.size) != j.n, dv == j.J(ROW, COL)))
        vset(ex, st, out, VecVal(r, j.m))
    else:
        seeded = z3.And(point + [val(16, sk) == e(ROW), val(8, sk) == e(COL), val(24, sk) == 0])
        ys = [z3.FreshReal('y') for k in range(4)]
        for k in range(4):
            ex.store(st, Ptr(out.reg, out.off + 8 * k, out.idx), ys[k], DOUBLE)
        st.assume(z3.Or(z3.And(U(sk, B(v.size)), z3.Not(seeded)), B(v.size) != j.n, dom.z(ys[3]) == j.J(ROW, COL)))
    # whatever it leaves in its argument
    for sub in v.reg.fields:
        ex.nsym += 1
        ex.setarr(st, v.reg, sub, arr_const('left_%d_%d' % (ex.nsym, sub), R))
    return None


def d_ctor(ex, st, d, a, x):
    """a row of a given length, all entries the same"""
    if 'unsigned long, double const&' not in d:
        return NotImplemented
    r = Region('row', kind='arr', stride=8, fields={0: DOUBLE})
    r.fill = ex.load(st, a[2], DOUBLE)
    st.mem[r] = {}
    st.own.add(r)
    vset(ex, st, a[0], VecVal(r, a[1]))


def m_ctor(ex, st, d, a, x):
    """the matrix that is returned: a number of copies of one row"""
    j = ex.jp
    if 'unsigned long, std::vector<double' not in d or not j.ret or st.ghost.get('matrix'):
        return NotImplemented
    outside_loops(st, 'a matrix is created')
    row = vget(ex, st, a[2])
    st.ghost = dict(st.ghost, matrix=True)
    st.assume(z3.And(j.nrows == B(a[1]), j.len(ROW) == B(row.size)))
    ex.setarr(st, j.cells, 0, ABase(z3.K(z3.BitVecSort(64), ex.dom.z(row.reg.fill))))
    vset(ex, st, a[0], VecVal(j.rows, a[1]))


def m_begin(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    return Ptr(v.reg, 0, ex.jp.r0)


def m_end(ex, st, d, a, x):
    v = vget(ex, st, a[0])
    return Ptr(v.reg, 0, simp(ex.jp.r0 + B(v.size)))


def outside_loops(st, what):
    if st.log is not None:
        raise Undecided(what + ' in a loop')


def returned(ex, s, out, j):
    """the matrix returned is the one that has been filled"""
    v = vget(ex, s, out)
    if v.reg is not j.rows:
        raise Undecided('another matrix is returned')
    return [('one row per output', B(v.size) == j.m), ('one entry per input in each row', z3.Implies(U(ROW, j.nrows), j.len(ROW) == j.n))]


VM = r'^(?:void )?std::vector<std::vector<double, .*>::'
MATRIX = [
    (VD + r'vector\(', d_ctor), (VD + r'~vector\(', v_dtor),
    (VM + r'vector\(', m_ctor), (VM + r'~vector\(', v_dtor), (VM + r'begin\(\)', m_begin), (VM + r'end\(\)', m_end), (VM + r'size\(\) const', seq_size),
]
CONTRACTS = [
    (VF + r'vector\(', v_copy), (VF + r'~vector\(', v_dtor), (VF + r'size\(\) const', seq_size), (VF + r'operator\[\]\(', seq_at),
    (VF + r'c?begin\(\)', v_begin), (VF + r'c?end\(\)', v_end),
    (VD + r'c?begin\(\)', r_begin), (VD + r'c?end\(\)', r_end),
    (FN + r'.*::operator\(\)\(', fcall), (FN + r'.*::~?function\(', fcopy),
] + MATRIX + EXC


class J:
    pass


def builder(mod, hess, ret=False):
    def make(ex, st):
        j = ex.jp = J()
        j.nv, j.hess, j.ret = 0, hess, ret
        j.call0 = 0 if hess else 2 if ret else 1
        j.n, j.m, j.nrows, j.r0 = z3.BitVecs('n m nrows r0', 64)
        lenf = z3.Function('rowlen', z3.BitVecSort(64), z3.BitVecSort(64))
        len0 = z3.BitVec('len0', 64)
        j.len = lambda r: len0 if ret else lenf(r)
        j.Jf = z3.Function('J', z3.BitVecSort(64), z3.BitVecSort(64), R)
        j.J = lambda r, c: j.Jf(r, c)
        lim = z3.BitVecVal(1 << 31, 64)
        for q in (j.n, j.m, j.nrows, j.len(ROW), j.r0):
            st.assume(U(q, lim))
        ent = {0: (DOUBLE, R), 8: (DOUBLE, R)} if not hess else {8 * k: (DOUBLE, R) for k in range(4)}
        stride = 16 if not hess else 32
        inp = ex.arr_region(st, 'inputs', stride, ent)
        j.X = z3.Array('X', z3.BitVecSort(64), R)
        st.mem[inp][0] = ABase(j.X)
        j.inp, j.inp0 = inp, dict(st.mem[inp])
        vec = ex.new_region(st, 'vec', size=24)
        st.wcells(vec)[('v', 0)] = VecVal(inp, j.n)
        f = ex.new_region(st, 'function', size=32)
        j.rows = ex.arr_region(st, 'rows', 24, {}, check=lambda ex, st, p: z3.BoolVal(False))

        def ok(ex, st, p):
            i = B(p.idx)
            r, c = z3.LShR(i, 32), i & 0xffffffff
            return z3.And(U(r, j.nrows), U(c, j.len(r)))
        j.cells = ex.arr_region(st, 'cells', 8, {0: (DOUBLE, R)}, check=ok)
        j.cells0 = st.mem[j.cells][0]
        its = []
        for nm, ix in (('first', j.r0), ('last', simp(j.r0 + j.nrows))):
            r = ex.new_region(st, nm, size=8)
            ex.store(st, Ptr(r, 0), Ptr(j.rows, 0, ix), ir.PTR)
            its.append(Ptr(r, 0))
        at = simp((ROW << 32) + COL)
        cell = lambda s: ex.dom.z(s.mem[j.cells][0].sel(at))
        inside = z3.And(U(ROW, j.nrows), U(COL, j.n))
        shape = lambda: j.nrows == (j.n if hess else j.m)

        def pidx(V, name):
            c = V.cell(name)
            if not isinstance(c, Ptr):
                raise Undecided('iterator ' + name)
            return B(c.idx)

        def reg_is(V, name, r):
            c = V.cell(name)
            return isinstance(c, Ptr) and c.reg is r

        def inv_rows(V):
            i = pidx(V, 'first') - j.r0
            return [('position', UE(i, j.nrows)), ('rows passed have the right length', z3.Implies(U(ROW, i), j.len(ROW) == j.n))]

        def rowlen(*rs):
            """every row has the right length: proved for the arbitrary row ROW, hence holds for the rows at hand"""
            f = lambda r: z3.Implies(U(r, j.nrows), j.len(r) == j.n)
            return [('every row has the right length', f(ROW))] + [('@row at hand', f(r)) for r in rs]

        def inv_zero(V):
            c = V.cell('__begin0')
            e = V.cell('__end0')
            k = B(c.idx)
            a = V.st.mem[c.reg]
            subs = [8] if not hess else [8, 16, 24]
            z = lambda s, q: V.ex.dom.z(a[s].sel(q))
            o = [('position', z3.And(UE(k, j.n), B(e.idx) == j.n))]
            for q, pre in ((SK, ''), (SKW, '@')):
                o += [(pre + 'derivatives passed are zero %d' % s, z3.Implies(U(q, k), z(s, q) == 0)) for s in subs] + [(pre + 'values are those of the inputs', z(0, q) == z3.Select(j.X, q))]
            return o

        def i_(V, n='i'):
            return z3.ZeroExt(32, V.var(n, 32))

        def done(V, i, jj=None):
            """the entry (ROW, COL)"""
            d = U(COL, i) if not hess else U(ROW, i)
            if jj is not None:
                d = z3.Or(d, z3.And(COL == i, U(ROW, jj))) if not hess else z3.Or(d, z3.And(ROW == i, U(COL, jj)))
            return ('the entry is the derivative once it is reached', z3.Implies(z3.And(inside, d), cell(V.st) == j.J(ROW, COL)))

        def rest(V):
            return [('the inputs', z3.And([V.ex.dom.z(V.st.mem[inp][s].sel(SK)) == V.ex.dom.z(j.inp0[s].sel(SK)) for s in ent]))]

        def inv_i(V):
            i = i_(V)
            o = [('position', UE(i, j.n)), done(V, i)] + rest(V) + rowlen(i)
            o += [('row position', B(pidx(V, 'row')) == j.r0 + i)] if hess else []
            return o

        def inv_j(V):
            i, jj = i_(V), i_(V, 'j')
            o = [('position', z3.And(U(i, j.n), UE(jj, j.n if hess else j.m))), done(V, i, jj)] + rest(V) + rowlen(i, jj)
            if hess:
                o += [('column position', pidx(V, 'col') == (i << 32) + jj), ('row position', pidx(V, 'row') == j.r0 + i)]
            else:
                # the result of this call stays as it is
                y = vget(V.ex, V.st, V.ptr('y'))
                hold = z3.Implies(z3.And(inside, COL == i), V.ex.dom.z(V.st.mem[y.reg][8].sel(ROW)) == j.J(ROW, COL))
                o += [('the derivatives at hand', hold), ('their number', B(y.size) == j.m)]
            return o
        name = r'xad::computeHessian<' if hess else r'xad::computeJacobian<'
        loops = [LoopSpec(r'rows_have_size<', 0, inv_rows, lambda V: j.r0 + j.nrows - pidx(V, 'first')),
                 LoopSpec(name, 0, inv_zero, lambda V: j.n - pidx(V, '__begin0')),
                 LoopSpec(name, 1, inv_i, lambda V: j.n - i_(V)),
                 LoopSpec(name, 2, inv_j, lambda V: (j.n if hess else j.m) - i_(V, 'j'))]

        def post(ex, kind, s, val):
            same = z3.And([ex.dom.z(s.mem[inp][k].sel(SK)) == ex.dom.z(j.inp0[k].sel(SK)) for k in ent])
            o = [('the inputs of the caller are unchanged', same)]
            if ret:
                return o + returned(ex, s, out, j) + [('entry (i, j) is the derivative', z3.Implies(z3.And(U(ROW, j.m), U(COL, j.n)), cell(s) == j.J(ROW, COL)))]
            if kind == 'ret':
                o += [('accepts only a result with one row per output', shape()),
                      ('accepts only rows with one entry per input', z3.Implies(U(ROW, j.nrows), j.len(ROW) == j.n)),
                      ('entry (i, j) is the derivative', z3.Implies(inside, cell(s) == j.J(ROW, COL)))]
            else:
                o += [('throws OutOfRange only', z3.BoolVal('OutOfRange' in str(val))), ('throws with nothing written', cell(s) == ex.dom.z(j.cells0.sel(at)))]
                q = z3.BitVec('q', 64)
                o += [('throws only for a result of another shape', z3.Or(z3.Not(shape()), z3.Exists([q], z3.And(U(q, j.nrows), j.len(q) != j.n))))]
            return o
        if hess:
            j.m = j.n
        out = Ptr(ex.new_region(st, 'result', size=24), 0)
        if ret:
            return Spec_('@ph_fwd_r' if hess else '@pj_fwd_r', [out, Ptr(vec, 0), Ptr(f, 0)], post, loops)
        return Spec_('@ph_fwd' if hess else '@pj_fwd', [Ptr(vec, 0), Ptr(f, 0)] + its, post, loops, ('ret', 'throw'))
    return make


# ------------------------------------------------------------------ adjoint mode
VA = r'^(?:void )?std::vector<xad::AReal<.*>::'
TP = r'^(?:[^(]* )?xad::Tape<(?:double|xad::FReal<double> ?)>::'
INV = z3.BitVecVal(0xffffffff, 32)


def active(ex, st, t):
    a = st.ghost['active']
    if not isinstance(t, Ptr) or a is None or t.reg is not a.reg or t.reg is None:
        raise Undecided('another tape than the active one')


def slots(st, reg):
    return st.mem[reg][reg.stride - 8]


def zero_derivatives(ex, st):
    for s in ex.jp.subs:
        ex.setarr(st, ex.jp.der, s, ABase(z3.K(z3.BitVecSort(64), z3.RealVal(0))))


class Epoch:
    """one recording"""


def at(arr, i):
    z = arr.sel(i)
    return bvz(z, 32) if isinstance(z, int) else z


def a_copy(ex, st, d, a, x):
    """copies of registered variables are registered, and depend on the variable copied (recorded while the recording ep lasts)"""
    if len(a) != 2 or not d.rstrip().endswith('const&)'):
        return NotImplemented
    j = ex.jp
    v = vget(ex, st, a[1])
    j.nv += 1
    r = Region('copy%d' % j.nv, kind='arr', stride=v.reg.stride, fields=dict(v.reg.fields))
    st.mem[r] = dict(st.mem[v.reg])
    st.mem[r][v.reg.stride - 8] = arr_const('slots_%d' % j.nv, z3.BitVecSort(32))
    st.own.add(r)
    r.src = (slots(st, v.reg), st.ghost['ep'])
    st.assume((at(slots(st, r), COL) == INV) == (at(slots(st, v.reg), COL) == INV))
    vset(ex, st, a[0], VecVal(r, v.size))


def a_call(ex, st, d, a, x):
    """the unknown function records: a reverse sweep seeded with its result ROW brings d ROW / d COL to the argument COL,
    and on to the variable of which it is a copy"""
    j = ex.jp
    if st.ghost['late'] and st.ghost['active'] is not None:
        raise Undecided('a variable is registered within the recording (its statement ends the sweep of its adjoint)')
    out, arg = a[0], a[-1]
    v = vget(ex, st, arg)
    c = st.ghost.get('fcalls', 0)
    sk = SKW if c == j.call0 else z3.FreshConst(z3.BitVecSort(64), 'SKW')
    point = ex.dom.z(st.mem[v.reg][0].sel(sk)) == z3.Select(j.X, sk)
    if j.hess:
        point = z3.And(point, ex.dom.z(st.mem[v.reg][8].sel(sk)) == z3.If(sk == ROW, z3.RealVal(1), z3.RealVal(0)))
    own = at(slots(st, v.reg), COL)
    src, ep = getattr(v.reg, 'src', (None, None))
    to = at(src, COL) if ep is st.ghost['ep'] else own
    fails = z3.Or(z3.And(U(sk, B(v.size)), z3.Not(point)), B(v.size) != j.n, own == INV)
    j.nv += 1
    if j.hess:
        y = out
        for k in (0, 8):
            ex.store(st, Ptr(out.reg, out.off + k, out.idx), z3.FreshReal('y'), DOUBLE)
        ex.store(st, Ptr(out.reg, out.off + 16, out.idx), ex.fresh_bv('yslot', 32), ('i', 32))
    else:
        y = ex.arr_region(st, 'y%d' % j.nv, 16, {0: (DOUBLE, R), 8: (('i', 32), z3.BitVecSort(32))})
        vset(ex, st, out, VecVal(y, j.m))
    st.ghost = dict(st.ghost, fcalls=c + 1, call=(fails, to, y, st.ghost['ep']))
    for sub in v.reg.fields:
        srt = z3.BitVecSort(32) if sub == v.reg.stride - 8 else R
        ex.nsym += 1
        ex.setarr(st, v.reg, sub, arr_const('left_%d_%d' % (ex.nsym, sub), srt))


def t_active(ex, st, d, a, x):
    return st.ghost['active'] or ex.zero(ir.PTR)


def t_ctor(ex, st, d, a, x):
    outside_loops(st, 'a tape is created')
    g = a[1]
    if st.ghost['active'] is not None or not (isinstance(g, int) and g & 1):
        raise Undecided('second tape')
    st.ghost = dict(st.ghost, active=a[0], ep=Epoch())
    zero_derivatives(ex, st)


def t_dtor(ex, st, d, a, x):
    outside_loops(st, 'a tape is destroyed')
    active(ex, st, a[0])
    st.ghost = dict(st.ghost, active=None, ep=Epoch())


def fresh_slot(ex, st):
    s = ex.fresh_bv('slot', 32)
    st.assume(s != INV)
    return s


def t_register(ex, st, d, a, x):
    active(ex, st, a[0])
    st.ghost = dict(st.ghost, late=True)
    p = Ptr(a[1].reg, a[1].off + (16 if ex.jp.hess else 8), a[1].idx)
    s = ex.load(st, p, ('i', 32))
    s = bvz(s, 32) if isinstance(s, int) else s
    ex.store(st, p, simp(z3.If(s == INV, fresh_slot(ex, st), s)), ('i', 32))


def t_outputs(ex, st, d, a, x):
    active(ex, st, a[0])
    v = vget(ex, st, a[1])
    ex.nsym += 1
    n = arr_const('out_%d' % ex.nsym, z3.BitVecSort(32))
    st.assume(z3.Implies(U(ROW, B(v.size)), at(n, ROW) != INV))
    ex.setarr(st, v.reg, v.reg.stride - 8, n)


def t_variable(ex, st, d, a, x):
    active(ex, st, a[0])
    st.ghost = dict(st.ghost, late=True)
    return fresh_slot(ex, st)


def t_lhs(ex, st, d, a, x):
    active(ex, st, a[0])


def t_record(ex, st, d, a, x):
    active(ex, st, a[0])
    st.ghost = dict(st.ghost, ep=Epoch(), late=False)
    zero_derivatives(ex, st)


def t_clear(ex, st, d, a, x):
    active(ex, st, a[0])
    zero_derivatives(ex, st)


def t_deriv(ex, st, d, a, x):
    active(ex, st, a[0])
    s = a[1]
    return Ptr(ex.jp.der, 0, simp(z3.ZeroExt(32, bvz(s, 32) if isinstance(s, int) else s)))


def t_adjoints(ex, st, d, a, x):
    """(for all slots q: der[q] == [q is the slot of result ROW]) => der'[T] == J(ROW, COL), the slot at which the premise may
    fail named SQW"""
    j = ex.jp
    active(ex, st, a[0])
    old = dict(st.mem[j.der])
    for s in j.subs:
        ex.nsym += 1
        ex.setarr(st, j.der, s, arr_const('adj_%d' % ex.nsym, R))
    new = st.mem[j.der][j.subs[-1]]
    if not st.ghost['call']:
        return
    fails, to, y, ep = st.ghost['call']
    c = st.ghost.get('sweeps', 0)
    st.ghost = dict(st.ghost, sweeps=c + 1)
    if ep is not st.ghost['ep']:
        return
    q = SQW if c == 0 else z3.FreshConst(z3.BitVecSort(64), 'SQW')
    ys = at(slots(st, y), ROW) if not j.hess else ex.load(st, Ptr(y.reg, y.off + 16, y.idx), ('i', 32))
    ys = z3.ZeroExt(32, bvz(ys, 32) if isinstance(ys, int) else ys)
    unseeded = ex.dom.z(old[0].sel(q)) != z3.If(q == ys, z3.RealVal(1), z3.RealVal(0))
    if j.hess:
        unseeded = z3.Or(unseeded, ex.dom.z(old[8].sel(q)) != 0)
    st.assume(z3.Or(fails, unseeded, ex.dom.z(new.sel(z3.ZeroExt(32, to))) == j.J(ROW, COL)))


def undecided(what):
    def f(ex, st, d, a, x):
        raise Undecided(what)
    return f


ACONTRACTS = [
    (VA + r'vector\(', a_copy), (VA + r'~vector\(', v_dtor), (VA + r'size\(\) const', seq_size), (VA + r'operator\[\]\(', seq_at),
    (VA + r'c?begin\(\)', v_begin), (VA + r'c?end\(\)', v_end),
    (VD + r'c?begin\(\)', r_begin), (VD + r'c?end\(\)', r_end),
    (FN + r'.*::operator\(\)\(', a_call), (FN + r'.*::~?function\(', fcopy),
    (TP + r'getActive\(\)', t_active), (TP + r'Tape\(bool\)', t_ctor), (TP + r'~Tape\(\)', t_dtor),
    (TP + r'register(Input|Output)\(xad::AReal<', t_register),
    (TP + r'registerOutputs\(', t_outputs), (TP + r'registerVariable\(\)', t_variable), (TP + r'(pushLhs|unregisterVariable)\(', t_lhs),
    (TP + r'newRecording\(\)', t_record), (TP + r'clearDerivatives\(\)', t_clear), (TP + r'computeAdjoints\(\)', t_adjoints),
    (TP + r'derivative\(unsigned int\)', t_deriv),
] + MATRIX + EXC


def adj_builder(mod, given, hess=False, ret=False):
    def make(ex, st):
        j = ex.jp = J()
        j.nv, j.hess, j.ret = 0, hess, ret
        j.call0 = 1 if ret and not hess else 0
        j.subs = (0, 8) if hess else (0,)
        ex.ghost_forget = {'ep': Epoch, 'call': lambda: None, 'late': lambda: True}
        j.n, j.m, j.nrows, j.r0 = z3.BitVecs('n m nrows r0', 64)
        lenf = z3.Function('rowlen', z3.BitVecSort(64), z3.BitVecSort(64))
        len0 = z3.BitVec('len0', 64)
        j.len = lambda r: len0 if ret else lenf(r)
        Jf = z3.Function('J', z3.BitVecSort(64), z3.BitVecSort(64), R)
        j.J = lambda r, c: Jf(r, c)
        for q in (j.n, j.m, j.nrows, j.len(ROW), j.r0):
            st.assume(U(q, z3.BitVecVal(1 << 31, 64)))
        ent = {8 * k: (DOUBLE, R) for k in range(2 if hess else 1)}
        ent[16 if hess else 8] = (('i', 32), z3.BitVecSort(32))
        inp = ex.arr_region(st, 'inputs', 24 if hess else 16, ent)
        j.X = z3.Array('X', z3.BitVecSort(64), R)
        st.mem[inp][0] = ABase(j.X)
        inp0 = dict(st.mem[inp])
        vec = ex.new_region(st, 'vec', size=24)
        st.wcells(vec)[('v', 0)] = VecVal(inp, j.n)
        f = ex.new_region(st, 'function', size=32)
        j.rows = ex.arr_region(st, 'rows', 24, {}, check=lambda ex, st, p: z3.BoolVal(False))

        def ok(ex, st, p):
            i = B(p.idx)
            r, c = z3.LShR(i, 32), i & 0xffffffff
            return z3.And(U(r, j.nrows), U(c, j.len(r)))
        j.cells = ex.arr_region(st, 'cells', 8, {0: (DOUBLE, R)}, check=ok)
        cells0 = st.mem[j.cells][0]
        j.der = ex.arr_region(st, 'derivatives', 8 * len(j.subs), {s: (DOUBLE, R) for s in j.subs})
        tape = Ptr(ex.new_region(st, 'tape', size=512), 0) if given else None
        st.ghost = dict(st.ghost, active=tape, ep=Epoch(), call=None, late=False)
        its = []
        for nm, ix in (('first', j.r0), ('last', simp(j.r0 + j.nrows))):
            r = ex.new_region(st, nm, size=8)
            ex.store(st, Ptr(r, 0), Ptr(j.rows, 0, ix), ir.PTR)
            its.append(Ptr(r, 0))
        cat = simp((ROW << 32) + COL)
        cell = lambda s: ex.dom.z(s.mem[j.cells][0].sel(cat))
        inside = z3.And(U(ROW, j.nrows), U(COL, j.n))

        def pidx(V, name):
            c = V.cell(name)
            if not isinstance(c, Ptr):
                raise Undecided('iterator ' + name)
            return B(c.idx)

        def inv_rows(V):
            i = pidx(V, 'first') - j.r0
            return [('position', UE(i, j.nrows)), ('rows passed have the right length', z3.Implies(U(ROW, i), j.len(ROW) == j.n))]

        def rowlen(*rs):
            g = lambda r: z3.Implies(U(r, j.nrows), j.len(r) == j.n)
            return [('every row has the right length', g(ROW))] + [('@row at hand', g(r)) for r in rs]

        def inv_reg(V):
            c, e = V.cell('first'), V.cell('last')
            k = B(c.idx)
            return [('position', z3.And(UE(k, j.n), B(e.idx) == j.n)), ('inputs passed are registered', z3.Implies(U(COL, k), at(slots(V.st, c.reg), COL) != INV))]

        def i_(V, n='i'):
            return z3.ZeroExt(32, V.var(n, 32))

        def zero(V):
            d = V.st.mem[j.der][0]
            return [(pre + 'no derivative is left', V.ex.dom.z(d.sel(q)) == 0) for q, pre in ((SQ, ''), (SQW, '@'))]

        def common(V, i):
            v = vget(V.ex, V.st, V.ptr('v'))
            if not V.st.ghost['call']:
                raise Undecided('the function has not been called')
            s = at(slots(V.st, v.reg), COL)
            return [('row position', pidx(V, 'row') == j.r0 + i), ('the variables of the inputs', z3.Implies(inside, z3.And(s == V.st.ghost['call'][1], s != INV)))] + rowlen(i)

        def inv_i(V):
            i = i_(V)
            return [('position', UE(i, j.m)), ('the entry is the derivative once it is reached', z3.Implies(z3.And(inside, U(ROW, i)), cell(V.st) == j.J(ROW, COL)))] + \
                zero(V) + common(V, i)

        def inv_j(V):
            i, jj = i_(V), i_(V, 'j')
            done = z3.Or(U(ROW, i), z3.And(ROW == i, U(COL, jj)))
            return [('position', z3.And(U(i, j.m), UE(jj, j.n))), ('column position', pidx(V, 'col') == (i << 32) + jj),
                    ('the entry is the derivative once it is reached', z3.Implies(z3.And(inside, done), cell(V.st) == j.J(ROW, COL)))] + common(V, i)
        def inv_zero(V):
            c, e = V.cell('__begin0'), V.cell('__end0')
            k = B(c.idx)
            a = V.st.mem[c.reg]
            z = lambda s, q: V.ex.dom.z(a[s].sel(q))
            o = [('position', z3.And(UE(k, j.n), B(e.idx) == j.n))]
            for q, pre in ((SK, ''), (SKW, '@')):
                o += [(pre + 'derivatives passed are zero', z3.Implies(U(q, k), z(8, q) == 0)), (pre + 'values are those of the inputs', z(0, q) == z3.Select(j.X, q))]
            return o

        def hess_i(V):
            i = i_(V)
            v = vget(V.ex, V.st, V.ptr('v'))
            a = V.st.mem[v.reg]
            z = lambda s, q: V.ex.dom.z(a[s].sel(q))
            o = [('position', UE(i, j.n)), ('row position', pidx(V, 'row') == j.r0 + i), ('number of inputs', B(v.size) == j.n),
                 ('the inputs are registered', z3.Implies(inside, at(slots(V.st, v.reg), COL) != INV)),
                 ('the entry is the derivative once it is reached', z3.Implies(z3.And(inside, U(ROW, i)), cell(V.st) == j.J(ROW, COL)))]
            for q, pre in ((SK, ''), (SKW, '@')):
                o += [(pre + 'no tangent is left', z3.Implies(U(q, j.n), z(8, q) == 0)), (pre + 'values are those of the inputs', z3.Implies(U(q, j.n), z(0, q) == z3.Select(j.X, q)))]
            return o + rowlen(i)
        if hess:
            j.m = j.n
        name = r'xad::computeHessian<' if hess else r'xad::computeJacobian<'
        loops = [LoopSpec(r'rows_have_size<', 0, inv_rows, lambda V: j.r0 + j.nrows - pidx(V, 'first')),
                 LoopSpec(r'registerInputs<__gnu_cxx', 0, inv_reg, lambda V: j.n - pidx(V, 'first')),
                 LoopSpec(name, 1 if hess else 0, hess_i if hess else inv_i, lambda V: j.m - i_(V)),
                 LoopSpec(name, 2 if hess else 1, inv_j, lambda V: j.n - i_(V, 'j'))]
        if hess:
            loops.append(LoopSpec(name, 0, inv_zero, lambda V: j.n - B(V.cell('__begin0').idx)))

        def post(ex, kind, s, val):
            same = z3.And([ex.zval(s.mem[inp][k].sel(SK), ent[k][0]) == ex.zval(inp0[k].sel(SK), ent[k][0]) for k in ent])
            o = [('the inputs of the caller are unchanged', same)]
            a = s.ghost['active']
            o += [('the active tape afterwards is the one before', z3.BoolVal(a is None if not given else a is not None and a.reg is tape.reg))]
            if ret:
                return o + returned(ex, s, out, j) + [('entry (i, j) is the derivative', z3.Implies(z3.And(U(ROW, j.m), U(COL, j.n)), cell(s) == j.J(ROW, COL)))]
            if kind == 'ret':
                o += [('accepts only a result with one row per output', j.nrows == j.m),
                      ('accepts only rows with one entry per input', z3.Implies(U(ROW, j.nrows), j.len(ROW) == j.n)),
                      ('entry (i, j) is the derivative', z3.Implies(inside, cell(s) == j.J(ROW, COL)))]
            else:
                q = z3.BitVec('q', 64)
                o += [('throws OutOfRange only', z3.BoolVal('OutOfRange' in str(val))), ('throws with nothing written', cell(s) == ex.dom.z(cells0.sel(cat))),
                      ('throws only for a result of another shape', z3.Or(j.nrows != j.m, z3.Exists([q], z3.And(U(q, j.nrows), j.len(q) != j.n))))]
            return o
        out = Ptr(ex.new_region(st, 'result', size=24), 0)
        if ret:
            return Spec_('@ph_adj_r' if hess else '@pj_adj_r', [out, Ptr(vec, 0), Ptr(f, 0), tape or ex.zero(ir.PTR)], post, loops)
        return Spec_('@ph_adj' if hess else '@pj_adj', [Ptr(vec, 0), Ptr(f, 0)] + its + [tape or ex.zero(ir.PTR)], post, loops, ('ret', 'throw'))
    return make


from .contracts import Spec as Spec_


def task(ctx, mod, name, make, contracts):
    cverify(ctx, name, mod, make, contracts, timeout=15000, budget=120, sample=True)


def setup(chk, hess):
    """the obligations of one of the two functions, all overloads and tape situations"""
    src = chk.scratch.write('jacproof.cpp', SRC)
    try:
        mod = ir.load(chk.scratch.ll(src, 'jacproof.ll', extra=['-fno-discard-value-names']))
    except build.BuildError as e:
        chk.build_failures.append(str(e)[-1500:])
        return
    fn = 'computeHessian' if hess else 'computeJacobian'
    for ret in (False, True):
        kind = 'matrix returned' if ret else 'rows given'
        name = 'forward %s, %s, all shapes' % (fn, kind)
        chk.task(name, task, mod, name, builder(mod, hess, ret), CONTRACTS)
        for given in (True, False):
            name = 'adjoint %s, %s, %s, all shapes' % (fn, kind, 'active tape' if given else 'no tape')
            chk.task(name, task, mod, name, adj_builder(mod, given, hess, ret), ACONTRACTS)
