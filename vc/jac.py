"""C14/C15: the derivative matrices. The real computeJacobian / computeHessian (and, in the adjoint modes, the real Tape,
AReal and container code below them) are executed symbolically for an UNKNOWN function: its value, gradient and second
derivatives at the point are uninterpreted functions of the point, and it overwrites its argument with arbitrary values.
Inputs, their leftover derivatives, leftover recordings, leftover adjoints and the storage around the result are symbolic.
The numbers of inputs and outputs are fixed per obligation: bounded in the shape, complete in everything else."""
import re
import z3
from concurrent.futures import ThreadPoolExecutor
from . import ax, sym, ir, build, nat, tapemodel as tm, exprlayer as el
from .dom import uf, Undecided
from .ir import *
from .sym import Exec, State, Ptr, compile_contracts
R = z3.RealSort()
PRE = '#include "jac_drivers.hpp"\n#include <Tape.cpp>\nusing namespace jd;\n'


def U(name, xs):
    return uf(name, *([R] * (len(xs) + 1)))(*xs) if xs else z3.Real(name)


def ghost(ex, st, d, a, x):
    """value, gradient and Hessian of the unknown function as functions of the point"""
    if d == 'u_any':
        if not isinstance(a[0], int):
            raise Undecided('symbolic index')
        return z3.Real('u_any_%d' % a[0])
    if not all(isinstance(i, int) for i in a[:-2] + a[-1:]):
        raise Undecided('symbolic index')
    p = a[-2]
    xs = [ex.dom.z(ex.load(st, Ptr(p.reg, p.off + 8 * i, p.idx), DOUBLE)) for i in range(a[-1])]
    ix = list(a[:-2])
    if d == 'u_h':
        ix = [ix[0]] + sorted(ix[1:])
    return U(d + '_' + '_'.join(str(i) for i in ix), xs)


def alloc(ex, st, d, a, x):
    n = a[-1]
    if not isinstance(n, int):
        raise Undecided('allocation of symbolic size')
    return Ptr(ex.new_region(st, 'block', size=n, undef=True), 0)


def at(p, o):
    return Ptr(p.reg, p.off + o, p.idx)


def hook(ex, st, d, a, x):
    """std::list node insertion before a[1] (libstdc++): next at 0, prev at 8"""
    n, pos = a
    prev = ex.load(st, at(pos, 8), PTR)
    ex.store(st, at(n, 0), pos, PTR)
    ex.store(st, at(n, 8), prev, PTR)
    ex.store(st, at(prev, 0), n, PTR)
    ex.store(st, at(pos, 8), n, PTR)


GH = [(r'^u_(v|d|h|any)$', ghost), (r'^(std::)?aligned_alloc$', alloc), (r'^std::__detail::_List_node_base::_M_hook\(', hook)] + tm.EXC
COMPS = dict(F=2, A=1, FF=4, AF=2)


class Drv:
    def __init__(self, name, cpp, X, fn, N, M, bad=None):
        self.name, self.cpp, self.X, self.fn, self.N, self.M, self.bad = name, cpp, X, fn, N, M, bad
        if bad:
            rows, b, ln = bad
            self.cells = sum(ln if i == b else N for i in range(rows))
        else:
            self.cells = (M + 2) * N + 4 * N

    def code(self):
        return 'extern "C" void %s(const double* in, double* out) { %s::run(in, out); }\n' % (self.name, self.cpp)

    def want(self, k, j, xs):
        if self.fn == 'Idn':
            return z3.RealVal(int(k == j))
        if self.fn == 'Cst':
            return z3.RealVal(0)
        if self.X in ('FF', 'AF'):
            return U('u_h_0_%d_%d' % (min(k, j), max(k, j)), xs)
        return U('u_d_%d_%d' % (k, j), xs)


SITS = ('NoTape', 'Fresh', 'Used', 'Swept')
CTS = ('RA', 'RV', 'VV', 'LV', 'VL', 'DA', 'VA')


def drivers(pid, thorough):
    out = []

    def add(kind, X, fn, ct, N, M, sit=None, de=False):
        f = '%s<%s,%d,%d>' % (fn, X, N, M)
        h = pid == 'C15'
        t = [f, ct] + ([sit] if sit else []) + ([str(N)] if h else [str(N), str(M)]) + (['true'] if de else [])
        nm = '_'.join([kind, fn, ct] + ([sit] if sit else []) + [str(N)] + ([] if h else [str(M)]) + (['def'] if de else []))
        if any(d.name == nm for d in out):
            return
        out.append(Drv(nm, '%s<%s>' % (kind, ', '.join(t)), X, fn, N, N if h else M))

    def bad(kind, X, N, M, rows, b, ln):
        h = pid == 'C15'
        t = ([N] if h else [N, M]) + [rows, b, ln]
        nm = '_'.join([kind] + [str(q).replace('-', 'm') for q in t])
        out.append(Drv(nm, '%s<%s>' % (kind, ','.join(map(str, t))), X, 'Gen', N, N if h else M, (rows, b, ln)))
    if pid == 'C14':
        for N, M in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (1, 4), (4, 1), (2, 0), (0, 2), (0, 0), (5, 2), (3, 5)]:
            add('JacF', 'F', 'Gen', 'RA' if N else 'VV', N, M)
        for ct in CTS:
            add('JacF', 'F', 'Gen', ct, 2, 3)
            add('JacF', 'F', 'Gen', ct, 3, 2)
        for fn in ('Stp', 'Idn', 'Cst'):
            add('JacF', 'F', fn, 'RV', 3, 3)
            add('JacF', 'F', fn, 'RA', 2, 2)
        for N, M in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (4, 1), (1, 4), (2, 0), (0, 2), (0, 0)] + ([(3, 3), (4, 2), (2, 4), (5, 1)] if thorough else []):
            for s in (SITS if N * M <= 4 or thorough else ('NoTape', 'Used')):
                add('JacA', 'A', 'Gen', 'RA' if N else 'VV', N, M, s)
        for ct in CTS:
            add('JacA', 'A', 'Gen', ct, 1, 2, 'Swept')
            add('JacA', 'A', 'Gen', ct, 2, 1, 'Used')
            add('JacA', 'A', 'Gen', ct, 2, 2, 'NoTape')
        for s in SITS:
            add('JacA', 'A', 'Gen', 'RV', 2, 2, s, True)
            add('JacA', 'A', 'Gen', 'RA', 2, 2, s, True)
        for fn in ('Stp', 'Idn', 'Cst'):
            for s in SITS:
                add('JacA', 'A', fn, 'RA', 2, 2, s)
            add('JacA', 'A', fn, 'RV', 2, 2, 'Used')
        for k, X in (('BadJF', 'F'), ('BadJA', 'A')):
            for N, M, rows, b, ln in [(2, 2, 1, -1, 0), (2, 2, 3, -1, 0), (2, 2, 2, 0, 1), (2, 2, 2, 1, 1), (2, 2, 2, 1, 3), (2, 2, 2, 0, 3), (2, 3, 3, 2, 1), (2, 3, 0, -1, 0), (1, 1, 1, 0, 0), (1, 1, 0, -1, 0)]:
                bad(k, X, N, M, rows, b, ln)
    else:
        for N in (1, 2, 3) + ((4,) if thorough else ()):
            for ct in ('RA', 'RV'):
                add('HesF', 'FF', 'Gen', ct, N, 1)
        for N in (1, 2) + ((3,) if thorough else ()):
            for s in SITS if N < 3 else ('NoTape', 'Used'):
                for ct in ('RA', 'RV') if N < 3 else ('RA',):
                    add('HesA', 'AF', 'Gen', ct, N, 1, s)
        for ct in CTS:
            add('HesF', 'FF', 'Gen', ct, 2, 1)
            add('HesA', 'AF', 'Gen', ct, 2, 1, 'Used')
        add('HesF', 'FF', 'Gen', 'VV', 0, 1)
        add('HesF', 'FF', 'Gen', 'RV', 0, 1)
        for s in SITS:
            add('HesA', 'AF', 'Gen', 'RV', 0, 1, s)
            add('HesA', 'AF', 'Gen', 'RV', 2, 1, s, True)
            add('HesA', 'AF', 'Gen', 'VV', 1, 1, s, True)
            add('HesA', 'AF', 'Cst', 'RA', 2, 1, s)
        add('HesF', 'FF', 'Cst', 'RA', 2, 1)
        for k, X in (('BadHF', 'FF'), ('BadHA', 'AF')):
            for N, rows, b, ln in [(2, 1, -1, 0), (2, 3, -1, 0), (2, 2, 0, 1), (2, 2, 1, 1), (2, 2, 1, 3), (2, 2, 0, 3), (2, 0, -1, 0), (1, 1, 0, 0), (1, 0, -1, 0)]:
                bad(k, X, N, N, rows, b, ln)
    return out


def run(ctx, mod, d, budget=None):
    ex = Exec(mod, el.Real2(), compile_contracts(GH))
    if budget:
        ex.max_steps, ex.unroll_limit, ex.unroll_paths = budget, 64, 4000
    st = State()
    nin = 4 * max(d.N, 1)
    i = ex.new_region(st, 'in', size=8 * nin)
    o = ex.new_region(st, 'out', size=8 * max(d.cells, 1))
    for g in ('@_ZN3xad4TapeIdE12active_tape_E', '@_ZN3xad4TapeINS_5FRealIdEEE12active_tape_E'):
        if g in mod.globals:
            tm.set_active(ex, st, g, sym.NULL)
    xs = [z3.Real('in%d' % k) for k in range(nin)]
    os = [z3.Real('out%d' % k) for k in range(d.cells)]
    for k, v in enumerate(xs):
        ex.store(st, Ptr(i, 8 * k), v, DOUBLE)
    for k, v in enumerate(os):
        ex.store(st, Ptr(o, 8 * k), v, DOUBLE)
    outs = ex.call_function(st, '@' + d.name, [Ptr(i, 0), Ptr(o, 0)])
    res = [(kind, s, v, [ex.dom.z(ex.load(s, Ptr(o, 8 * k), DOUBLE)) for k in range(d.cells)] if kind in ('ret', 'throw') else None)
           for kind, s, v in outs]
    ctx.absorb(ex)
    return ex, xs, os, res


def task(ctx, mod, d, shape=False):
    if isinstance(mod, str):
        return ctx.fail_obl(d.name, mod, fn=d.cpp)
    try:
        ex, xs, os, res = run(ctx, mod, d, 3000000)
    except Undecided as e:
        ctx.fail_obl(d.name, 'undecided: %s' % e, fn=d.cpp)
        return
    ctx.cover(d.name, bool(res))
    pt = [xs[4 * j] for j in range(d.N)]
    N, M = d.N, d.M
    paths = len(res)

    def ob(what, f):
        """f(state, outputs) -> goal, on every path"""
        goals = [z3.Implies(z3.And([ex_bool(c) for c in s.pc]) if s.pc else z3.BoolVal(True), f(o)) for k, s, v, o in res]
        ctx.prove('%s: %s' % (d.name, what), [], z3.And(goals), fn=d.cpp, numeric=False, strict=True)

    def outcome(want):
        bad = [(k, v, s) for k, s, v, o in res if not want(k, v)]
        ctx.prove('%s: %s' % (d.name, 'ends normally' if not d.bad else 'is rejected with OutOfRange'),
                  [], z3.And([z3.Not(z3.And([ex_bool(c) for c in s.pc] or [z3.BoolVal(True)])) for k, v, s in bad]) if bad else z3.BoolVal(True),
                  fn=d.cpp, numeric=False, strict=True)
        return bool(bad)
    if d.bad:
        if not outcome(lambda k, v: k == 'throw' and 'OutOfRange' in str(v)):
            ob('no storage is written', lambda o: z3.And([o[k] == os[k] for k in range(d.cells)] + [z3.BoolVal(True)]))
        return
    if outcome(lambda k, v: k == 'ret') or shape:
        return
    for k in range(M):
        for j in range(N):
            ob('entry [%d][%d]' % (k, j), lambda o: o[(k + 1) * N + j] == d.want(k, j, pt))
    ob('storage around the result', lambda o: z3.And([o[k] == os[k] for k in list(range(N)) + list(range((M + 1) * N, (M + 2) * N))] + [z3.BoolVal(True)]))
    ob('the inputs of the caller', lambda o: z3.And([o[(M + 2) * N + 4 * j + c] == xs[4 * j + c] for j in range(N) for c in range(COMPS[d.X])] + [z3.BoolVal(True)]))


def ex_bool(c):
    return z3.BoolVal(bool(c)) if isinstance(c, (bool, int)) else c


def setup(chk, pid):
    verify(chk, pid, drivers(pid, chk.thorough), 8)
    part = '-DPART=%d' % (1 if pid == 'C14' else 2)
    rule = 'random functions (tables, then random programs) of up to 8 inputs and outputs, all tape situations and containers, exact comparison'
    nat.add(chk, 'jac_%s' % pid, 'jac.cpp', [part], None, opt='-O0', shards=4, n=(60, 3000), rule=rule)
    nat.add(chk, 'jac_%s_asan' % pid, 'jac.cpp', [part], None, opt='-O0', san='address', shards=2, n=(15, 600), rule=rule + ' (address sanitizer)')
    chk.notes.append('obligations named "all shapes" (vc/jacproof.py) hold for any number of inputs and outputs; the others (whole call chain executed down to the containers of the tape, '
                     'other result containers) are bounded: the numbers of inputs and outputs are fixed per obligation (see the names), and they are not counted as an unbounded proof')
    chk.assumptions += ['all shapes: contracts of std::vector, std::function, std::unique_ptr and of the tape members (newRecording, registration, clearDerivatives, computeAdjoints; proved by C06, C07, C09, C19); fewer than 2^31 inputs and outputs; '
                        'no tape is active where none is passed', 'real arithmetic stands for floating point', 'the function passed in is an unknown smooth function given by its value, gradient and second derivatives at the point; '
                        'it is called on variables with these exact derivatives (that the recorded operations have them is C01-C05, C18)']


def shapes(chk):
    """C12: results of the wrong shape are rejected, and nothing is written; results of the right shape are accepted"""
    for p in ('C14', 'C15'):
        ds = drivers(p, False)
        verify(chk, p, [d for d in ds if d.bad] + [d for d in ds if not d.bad and d.fn == 'Gen' and 'NoTape' in d.name or d.X in ('F', 'FF')][:12], 2, True)


def verify(chk, pid, ds, ng, shape=False):
    groups = [ds[i::ng] for i in range(ng)]

    def mk(a):
        i, g = a
        try:
            return chk.scratch.ll(chk.scratch.write('%s_%d.cpp' % (pid, i), PRE + ''.join(d.code() for d in g)), '%s_%d.ll' % (pid, i))
        except build.BuildError as e:
            chk.build_failures.append(str(e)[-1500:])
            return None
    with ThreadPoolExecutor(8) as tp:
        lls = list(tp.map(mk, enumerate(groups)))
    for g, ll in zip(groups, lls):
        mod = ir.load(ll) if ll else 'does not build'
        for d in g:
            chk.task(d.name, task, mod, d, shape)
