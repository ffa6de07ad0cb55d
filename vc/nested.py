"""C18 machinery: second order derivatives through nested active types."""
import ctypes
import mpmath
from mpmath import mpf
import z3
from . import sym, tapemodel as tm, ax
from .sym import *
from .sym import bvonly
from .ir import DOUBLE, FLOAT, PTR
from .dom import Undecided, uf
from . import exprlayer as el
from .exprlayer import RV, m, kz, sq, Real2, CT, PTYPES


# ------------------------------------------------------------------ symbolic differentiation of the specification
def D(e, v, memo=None):
    memo = {} if memo is None else memo
    key = (e.get_id(), v.get_id())
    if key in memo:
        return memo[key]
    r = _D(e, v, memo)
    memo[key] = r
    return r


Z = z3.RealVal(0)


def isz(x):
    return z3.is_rational_value(x) and x.as_fraction() == 0


def mul(a, b):
    if isz(a) or isz(b):
        return Z
    if z3.is_rational_value(a) and a.as_fraction() == 1:
        return b
    if z3.is_rational_value(b) and b.as_fraction() == 1:
        return a
    return a * b


def add(a, b):
    return b if isz(a) else a if isz(b) else a + b


def _D(e, v, memo):
    if e.eq(v):
        return z3.RealVal(1)
    k = e.decl().kind()
    n = e.decl().name()
    ch = e.children()
    if not ch:
        return Z
    if k == z3.Z3_OP_ADD:
        r = Z
        for c in ch:
            r = add(r, D(c, v, memo))
        return r
    if k == z3.Z3_OP_SUB:
        r = D(ch[0], v, memo)
        for c in ch[1:]:
            d = D(c, v, memo)
            r = r if isz(d) else (-d if isz(r) else r - d)
        return r
    if k == z3.Z3_OP_UMINUS:
        d = D(ch[0], v, memo)
        return Z if isz(d) else -d
    if k == z3.Z3_OP_MUL:
        r = Z
        for i, c in enumerate(ch):
            d = D(c, v, memo)
            if isz(d):
                continue
            t = d
            for j, o in enumerate(ch):
                if j != i:
                    t = mul(t, o)
            r = add(r, t)
        return r
    if k == z3.Z3_OP_DIV:
        a, b = ch
        da, db = D(a, v, memo), D(b, v, memo)
        if isz(db):
            return Z if isz(da) else da / b
        return (-(a * db) / (b * b)) if isz(da) else (da * b - a * db) / (b * b)
    if k == z3.Z3_OP_ITE:
        a, b = D(ch[1], v, memo), D(ch[2], v, memo)
        return a if a.eq(b) else z3.If(ch[0], a, b)
    if k == z3.Z3_OP_TO_REAL:
        return Z        # rounding functions: zero wherever differentiable
    if n.startswith('m_'):
        f = n[2:]
        ds = [D(c, v, memo) for c in ch]
        if all(isz(d) for d in ds):
            return Z
        x = ch[0]
        if len(ch) == 1:
            t = {'sin': lambda: m('cos', x), 'cos': lambda: -m('sin', x), 'tan': lambda: 1 + e * e, 'exp': lambda: e,
                 'exp2': lambda: kz('K_ln2') * e, 'log': lambda: 1 / x, 'sqrt': lambda: 1 / (2 * e), 'cbrt': lambda: 1 / (3 * e * e),
                 'sinh': lambda: m('cosh', x), 'cosh': lambda: m('sinh', x), 'tanh': lambda: 1 - e * e, 'expm1': lambda: m('exp', x)}.get(f)
            if t is None:
                raise Undecided('spec derivative of ' + n)
            return mul(t(), ds[0])
        a, b = ch
        if f == 'pow':
            r = Z
            if not isz(ds[0]):
                r = add(r, mul(b * m('pow', a, b - 1), ds[0]))
            if not isz(ds[1]):
                r = add(r, mul(m('log', a) * e, ds[1]))
            return r
        if f == 'hypot':
            return add(mul(a / e, ds[0]), mul(b / e, ds[1]))
        raise Undecided('spec derivative of ' + n)
    if all(isz(D(c, v, memo)) for c in ch if c.sort() == z3.RealSort()) or n in ('pow2',) or n.startswith(('frexp', 'real_of')):
        return Z
    raise Undecided('spec derivative of ' + n)


class Fn2:
    """second order specification of a first order table entry"""

    def __init__(self, fn, dom2=None, ders=None):
        self.fn, self.dom2, self.ders = fn, dom2, ders


def second_terms(d, f2):
    """(domain, firsts, seconds[i][j]) over the canonical variables of driver d"""
    xs = {i: z3.Real('x%d' % i) for i in d.vars}
    ps = {i: el.passive_sym(k, i, d.T)[1] for i, k in enumerate(d.kinds) if i not in d.act}
    n = z3.BitVec('n', 32) if d.fn.aux else None
    save = d.fn.ders
    if f2.ders:
        d.fn.ders = f2.ders
    try:
        terms = d.partials(xs, ps, n)
    finally:
        d.fn.ders = save
    dom = [t[0] for t in terms]
    ops = d.operand_terms(xs, ps)
    if f2.dom2 is not None:
        dom = [f2.dom2(*(ops + ([n] if n is not None else [])))]
    firsts = [t[1] for t in terms]
    seconds = [[D(t, xs[j]) for j in d.vars] for t in firsts]
    return z3.And([c if not isinstance(c, bool) else z3.BoolVal(c) for c in dom]), firsts, seconds


# ------------------------------------------------------------------ drivers
NEST = ['FF', 'FA', 'AF', 'AA']


class NDrv(el.Drv):
    def __init__(self, fn, T, kinds, same=False):
        el.Drv.__init__(self, fn, T, kinds, same)
        self.id = 'n_' + self.id

    def ncpp(self):
        T, e = self.T, self.fn.expr
        td = 'typedef %s T; typedef xad::FReal<T> F1; typedef xad::AReal<T> A1; ' % T
        ex = e.format(*self.exprs(lambda j: '(*a%d)' % j))
        nv = len(self.vars)
        s = ''

        def decl(t):
            return ', '.join('const %s* a%d' % (t, i) for i in self.vars) + self.decl_pass()
        outd = self.outdecl()
        for nest, ty in (('FF', 'xad::FReal<xad::FReal<%s> >' % T), ('FA', 'xad::FReal<xad::AReal<%s> >' % T),
                         ('AF', 'xad::AReal<xad::FReal<%s> >' % T), ('AA', 'xad::AReal<xad::AReal<%s> >' % T)):
            od = outd.replace('T ip', {'FF': 'F1 ip', 'AF': 'F1 ip', 'FA': 'A1 ip', 'AA': 'A1 ip'}[nest]) if 'T ip' in outd else outd
            od = od.replace('F1 ip', '%s ip' % ty) if False else od
            s += 'extern "C" void %s_%s(%s, %s* r) { %s%s new (r) %s(%s); }\n' % (nest, self.id, decl(ty), ty, td, od, ty, ex)
        # native: out[0]=value, out[1..nv]=first, then nv*nv seconds (row major), -- all four nestings
        call = lambda nest: '%s_%s(%s%s, &r)' % (nest, self.id, ', '.join('&a%d' % i for i in self.vars), self.passn())
        X = ''.join
        s += 'extern "C" void NFF_%s(%s%s, %s* o) { %s typedef xad::FReal<F1> TT; for (int i = 0; i < %d; ++i) for (int j = 0; j < %d; ++j) { %s TT r; %s; o[0] = value(value(r)); o[1 + i] = derivative(value(r)); if (j == 0) o[%d + i] = value(derivative(r)); o[%d + %d * i + j] = derivative(derivative(r)); } for (int i = 0; i < %d; ++i) for (int j = 0; j < 1; ++j) { %s TT r; %s; o[%d + i] = value(derivative(r)); } }\n' % (
            self.id, ', '.join('%s x%d' % (T, i) for i in self.vars), self.decl_pass(), T, td, nv, nv,
            X('TT a%d; value(value(a%d)) = x%d; derivative(value(a%d)) = T(i == %d); value(derivative(a%d)) = T(j == %d); ' % (i, i, i, i, q, i, q) for q, i in enumerate(self.vars)),
            call('FF'), 20, 1 + nv, nv, nv,
            X('TT a%d; value(value(a%d)) = x%d; value(derivative(a%d)) = T(i == %d); ' % (i, i, i, i, q) for q, i in enumerate(self.vars)), call('FF'), 20)
        s += 'extern "C" void NFA_%s(%s%s, %s* o) { %s typedef xad::FReal<A1> TT; for (int i = 0; i < %d; ++i) { xad::Tape<T> tape; %s tape.newRecording(); TT r; %s; tape.registerOutput(derivative(r)); derivative(derivative(r)) = T(1); tape.computeAdjoints(); o[0] = value(value(r)); o[1 + i] = value(derivative(r)); %s tape.clearDerivatives(); tape.registerOutput(value(r)); derivative(value(r)) = T(1); tape.computeAdjoints(); %s } }\n' % (
            self.id, ', '.join('%s x%d' % (T, i) for i in self.vars), self.decl_pass(), T, td, nv,
            X('TT a%d; value(a%d) = x%d; tape.registerInput(value(a%d)); derivative(a%d) = T(i == %d); tape.registerInput(derivative(a%d)); ' % (i, i, i, i, i, q, i) for q, i in enumerate(self.vars)),
            call('FA'),
            X('o[%d + %d * i + %d] = derivative(value(a%d)); if (i == 0) o[%d + %d] = derivative(derivative(a%d)); ' % (1 + nv, nv, q, i, 20, q, i) for q, i in enumerate(self.vars)),
            X('o[%d + %d] = derivative(value(a%d)); ' % (24, q, i) for q, i in enumerate(self.vars)))
        s += 'extern "C" void NAF_%s(%s%s, %s* o) { %s typedef xad::AReal<F1> TT; for (int j = 0; j < %d; ++j) { xad::Tape<F1> tape; %s tape.registerInput(a%d); %s tape.newRecording(); TT r; %s; tape.registerOutput(r); derivative(r) = F1(1); tape.computeAdjoints(); o[0] = value(value(r)); o[20 + j] = derivative(value(r)); %s } }\n' % (
            self.id, ', '.join('%s x%d' % (T, i) for i in self.vars), self.decl_pass(), T, td, nv,
            X('TT a%d; value(value(a%d)) = x%d; derivative(value(a%d)) = T(j == %d); ' % (i, i, i, i, q) for q, i in enumerate(self.vars)),
            self.vars[0], X('tape.registerInput(a%d); ' % i for i in self.vars[1:]), call('AF'),
            X('o[1 + %d] = value(derivative(a%d)); o[%d + %d * %d + j] = derivative(derivative(a%d)); ' % (q, i, 1 + nv, nv, q, i) for q, i in enumerate(self.vars)))
        s += 'extern "C" void NAA_%s(%s%s, %s* o) { %s typedef xad::AReal<A1> TT; for (int i = 0; i < %d; ++i) { xad::Tape<T> in; xad::Tape<A1> tape; %s in.newRecording(); tape.newRecording(); TT r; %s; tape.registerOutput(r); value(derivative(r)) = T(1); tape.computeAdjoints(); o[0] = value(value(r)); %s } }\n' % (
            self.id, ', '.join('%s x%d' % (T, i) for i in self.vars), self.decl_pass(), T, td, nv,
            X('TT a%d; value(value(a%d)) = x%d; in.registerInput(value(a%d)); tape.registerInput(a%d); ' % (i, i, i, i, i) for i in self.vars), call('AA'),
            X('o[1 + %d] = value(derivative(a%d)); ' % (q, i) for q, i in enumerate(self.vars)) +
            'A1 s%d; ' % 0 + X('if (i == %d) s0 = derivative(a%d); ' % (q, i) for q, i in enumerate(self.vars)) +
            'in.registerOutput(s0); derivative(s0) = T(1); in.computeAdjoints(); ' +
            X('o[%d + %d * i + %d] = derivative(value(a%d)); ' % (1 + nv, nv, q, i) for q, i in enumerate(self.vars)))
        return s

    def passn(self):
        return ''.join(', p%d' % i for i in range(len(self.kinds)) if i not in self.act) + (', n' if self.fn.aux else '')


LAY2 = r'''
typedef xad::FReal<double> L_FD; typedef xad::AReal<double> L_AD; typedef xad::FReal<float> L_FF; typedef xad::AReal<float> L_AF;
OFF_T(Fd, L_FD)
OFF_T(Ad, L_AD)
OFF_T(Ff, L_FF)
OFF_T(Af, L_AF)
extern "C" {
extern const unsigned long OFF_FR_d_der = __builtin_offsetof(xad::FReal<double>, der_);
extern const unsigned long OFF_FR_d_sizeof = sizeof(xad::FReal<double>);
extern const unsigned long OFF_FR_f_der = __builtin_offsetof(xad::FReal<float>, der_);
extern const unsigned long OFF_FR_f_sizeof = sizeof(xad::FReal<float>);
#define OFF_N(t, S) \
extern const unsigned long OFF_FF_##t##_der = __builtin_offsetof(xad::FReal<xad::FReal<S> >, der_); \
extern const unsigned long OFF_FF_##t##_sizeof = sizeof(xad::FReal<xad::FReal<S> >); \
extern const unsigned long OFF_FA_##t##_der = __builtin_offsetof(xad::FReal<xad::AReal<S> >, der_); \
extern const unsigned long OFF_FA_##t##_sizeof = sizeof(xad::FReal<xad::AReal<S> >); \
extern const unsigned long OFF_AF_##t##_slot = __builtin_offsetof(xad::AReal<xad::FReal<S> >, slot_); \
extern const unsigned long OFF_AF_##t##_sizeof = sizeof(xad::AReal<xad::FReal<S> >); \
extern const unsigned long OFF_AA_##t##_slot = __builtin_offsetof(xad::AReal<xad::AReal<S> >, slot_); \
extern const unsigned long OFF_AA_##t##_sizeof = sizeof(xad::AReal<xad::AReal<S> >);
OFF_N(d, double)
OFF_N(f, float)
}
'''


# ------------------------------------------------------------------ symbolic runs
def ctor(mod, S, kind):
    """mangled copy/move constructor of xad::AReal<S>"""
    c = {'double': 'd', 'float': 'f'}[S]
    pre = '@_ZN3xad5ARealI%sEC' % c
    suf = {'copy': 'ERKS1_', 'move': 'EOS1_'}[kind]
    for v in '12':
        n = pre + v + suf
        if n in mod.funcs:
            return n
    raise Undecided('no %s constructor of AReal' % kind)


def push_ctor(S):
    def h(ex, st, d, a, x):
        v = tm.vget(ex, st, a[0])
        if not getattr(v.reg, 'tag', None) == 'AReal':
            return tm.seq_push(ex, st, d, a, x)
        mv = '&&' in d.rsplit('(', 1)[1] or 'AReal<%s>>' % S in d.split('(')[0] and 'emplace' in d
        vset = tm.vset
        outs = ex.call_function(st, ctor(ex.mod, S, 'move' if mv else 'copy'), [Ptr(v.reg, 0, v.size), a[1]])
        res = []
        for k, s, r in outs:
            if k == 'ret':
                vv = tm.vget(ex, s, a[0])
                vset(ex, s, a[0], VecVal(vv.reg, ibin('add', 64, vv.size, 1)))
            res.append((k, s, r))
        return res
    return h


def tape_for(ex, st, name, elem, fields, stride, tag=None):
    """TapeM whose scalar is a struct"""
    tp = tm.TapeM(ex, st, name, elem, fields=fields, stride=stride, tag=tag)
    return tp


TLS = {'Fd': '@_ZN3xad4TapeINS_5FRealIdEEE12active_tape_E', 'Ad': '@_ZN3xad4TapeINS_5ARealIdEEE12active_tape_E',
       'Ff': '@_ZN3xad4TapeINS_5FRealIfEEE12active_tape_E', 'Af': '@_ZN3xad4TapeINS_5ARealIfEEE12active_tape_E', 'd': 'd', 'f': 'f'}


def run_nested(ctx, mod, d, nest):
    S = d.T
    t = 'd' if S == 'double' else 'f'
    T = DOUBLE if S == 'double' else FLOAT
    es = mod.size(T)
    cons = tm.EXC + [(r'^(?:void )?xad::ChunkContainer<xad::AReal<.*>::(push_back|emplace_back)', push_ctor(S))] + tm.SEQ
    ex = Exec(mod, Real2(), compile_contracts(cons))
    st = State()
    tin = tout = None
    off = lambda n: tm.off(mod, n)
    aso = off('OFF_AR_%s_slot' % t)
    if nest in ('FA', 'AA'):
        tin = tm.TapeM(ex, st, t, T)
        tm.set_active(ex, st, t, tin.ptr())
    if nest == 'AF':
        tout = tm.TapeM(ex, st, 'F' + t, T, fields={0: (T, None), off('OFF_FR_%s_der' % t): (T, None)}, stride=off('OFF_FR_%s_sizeof' % t), pre='o')
        tm.set_active(ex, st, TLS['F' + t], tout.ptr())
    if nest == 'AA':
        tout = tm.TapeM(ex, st, 'A' + t, T, fields={0: (T, None), aso: (tm.I32, None)}, stride=off('OFF_AR_%s_sizeof' % t), tag='AReal', pre='o')
        tm.set_active(ex, st, TLS['A' + t], tout.ptr())
    # the only effect of the high-water branch of registerVariable is on maxDerivative_, decided under C09: restricted to one side here
    for tp in (tin, tout):
        if tp is not None:
            st.assume(z3.UGE(tp.recv['maxd'], tp.recv['ider'] + 4096))
    args, V = [], {}
    insl, outsl = [], []
    size = off('OFF_%s_%s_sizeof' % (nest, t))
    fo = off('OFF_FR_%s_der' % t)
    for i in d.vars:
        r = ex.new_region(st, 'a%d' % i, size=size)
        x = ex.dom.fresh('x%d' % i, T)
        v = dict(x=x)
        ex.store(st, Ptr(r, 0), x, T)
        if nest == 'FF':
            o = off('OFF_FF_%s_der' % t)
            for nm, of in (('w', fo), ('v', o), ('u', o + fo)):
                v[nm] = ex.dom.fresh('%s%d' % (nm, i), T)
                ex.store(st, Ptr(r, of), v[nm], T)
        elif nest == 'FA':
            o = off('OFF_FA_%s_der' % t)
            v['v'] = ex.dom.fresh('v%d' % i, T)
            ex.store(st, Ptr(r, o), v['v'], T)
            for nm, of in (('sx', aso), ('sv', o + aso)):
                v[nm] = z3.BitVec('%s%d' % (nm, i), 32)
                ex.store(st, Ptr(r, of), v[nm], tm.I32)
                insl.append(v[nm])
        elif nest == 'AF':
            v['w'] = ex.dom.fresh('w%d' % i, T)
            ex.store(st, Ptr(r, fo), v['w'], T)
            v['so'] = z3.BitVec('so%d' % i, 32)
            ex.store(st, Ptr(r, off('OFF_AF_%s_slot' % t)), v['so'], tm.I32)
            outsl.append(v['so'])
        else:
            v['sx'] = z3.BitVec('sx%d' % i, 32)
            ex.store(st, Ptr(r, aso), v['sx'], tm.I32)
            insl.append(v['sx'])
            v['so'] = z3.BitVec('so%d' % i, 32)
            ex.store(st, Ptr(r, off('OFF_AA_%s_slot' % t)), v['so'], tm.I32)
            outsl.append(v['so'])
        V[i] = v
        args.append(Ptr(r, 0))
    for sl, tp in ((insl, tin), (outsl, tout)):
        for i, a in enumerate(sl):
            st.assume(z3.ULT(a, tp.recv['ider']))
            for b in sl[:i]:
                st.assume(a != b)
    for i, k in enumerate(d.kinds):
        if i not in d.act:
            args.append(el.passive_sym(k, i, d.T)[0])
    if d.fn.aux:
        args.append(z3.BitVec('n', 32))
    r = ex.new_region(st, 'res', size=size, undef=True)
    args.append(Ptr(r, 0))
    outs = []
    for kind, s, v in ex.call_function(st, '@%s_%s' % (nest, d.id), args):
        if kind != 'ret':
            outs.append((s.pc, None, kind))
            continue
        ld = lambda o, ty=T: ex.load(s, Ptr(r, o), ty)
        R = dict(val=ld(0))
        if nest == 'FF':
            o = off('OFF_FF_%s_der' % t)
            R.update(w=ld(fo), v=ld(o), u=ld(o + fo))
        elif nest == 'FA':
            o = off('OFF_FA_%s_der' % t)
            R.update(v=ld(o), sval=ld(aso, tm.I32), sder=ld(o + aso, tm.I32), inn=el.statements(ex, s, tin))
        elif nest == 'AF':
            R.update(w=ld(fo), so=ld(off('OFF_AF_%s_slot' % t), tm.I32), out=tm.nstatements(ex, s, tout, [0, fo]))
        else:
            R.update(si=ld(aso, tm.I32), so=ld(off('OFF_AA_%s_slot' % t), tm.I32), inn=el.statements(ex, s, tin), out=tm.nstatements(ex, s, tout, [0, aso]))
        outs.append((s.pc, R, kind))
    ctx.absorb(ex)
    return ex, V, outs


def dual_sweep(ex, pc, stm, seeds):
    """reverse sweep over recorded statements with dual number factors and adjoints"""
    adj = el.SlotMap(ex, pc)
    z = ex.dom.z
    for s, v in seeds:
        adj.set(s, v)
    for lhs, ops in reversed(stm):
        a = adj.get(lhs)
        adj.set(lhs, None)
        if a is None:
            continue
        for (f, g), sl in ops:
            f, g = z(f), z(g)
            p = (mul(f, a[0]), add(mul(f, a[1]), mul(g, a[0])))
            o = adj.get(sl)
            adj.set(sl, p if o is None else (o[0] + p[0], add(o[1], p[1])))
    return adj


def cnames(e):
    return {str(c) for c in ax.consts_of([e])}


def mapper(f):
    return lambda e: f(e)


def nested_task(ctx, mod, nat, d, f2, nests, nnat):
    try:
        dom, f, h = second_terms(d, f2)
    except Undecided as e:
        ctx.fail_obl('spec ' + d.id, str(e), d.id)
        return
    nv = len(d.vars)
    rp = (lambda env: compare_nested(nat, d, el.fill(env, d), dom, f, h)) if nat else None
    one = z3.RealVal(1)

    done, memo = {}, sym.Exec.bvmemo

    def prove1(nm, pc, goal, tmo):
        # registration conditions (bit vectors) are independent of the real-valued goal: left out of its hypotheses
        pc = [c for c in pc if not (z3.is_expr(c) and bvonly(c, memo) and not (d.fn.aux and 'n' in cnames(c)))] + [dom]
        k = (frozenset(c.get_id() for c in pc if z3.is_expr(c)), goal.get_id())
        if k in done:
            ctx.results.append(dict(done[k][0], name=nm, secs=0.0))
            return
        ctx.prove(nm, pc, goal, d.id, rp, timeout=tmo)
        if ctx.results[-1]['status'] == 'proved':
            done[k] = (ctx.results[-1], goal, pc)

    def P(nm, pc, lhs, rhs):
        z_ = lhs if lhs is not None else Z
        prove1(nm, pc, z_ == rhs, 5000)
        for c in el.definedness(z_):
            prove1(nm + ' defined', pc, c, 3000)
    for nest in nests:
        try:
            ex, V, outs = run_nested(ctx, mod, d, nest)
            z = ex.dom.z
            ctx.cover('%s %s' % (nest, d.id), any(o[1] is not None for o in outs))
            for j, (pc, R, kind) in enumerate(outs):
                nm = '%s %s path %d' % (nest, d.id, j)
                if R is None:
                    ctx.prove(nm + ' does not end in ' + kind, list(pc) + [dom], z3.BoolVal(False), d.id, rp)
                    continue
                if nest == 'FF':
                    vs, ws, us = ([V[i][q] for i in d.vars] for q in 'vwu')
                    P(nm + ': outer first derivative', pc, z(R['v']), sum((f[i] * vs[i] for i in range(1, nv)), f[0] * vs[0]))
                    P(nm + ': inner first derivative', pc, z(R['w']), sum((f[i] * ws[i] for i in range(1, nv)), f[0] * ws[0]))
                    s2 = Z
                    for i in range(nv):
                        s2 = s2 + f[i] * us[i]
                        for k in range(nv):
                            s2 = s2 + h[i][k] * vs[i] * ws[k]
                    P(nm + ': second derivative', pc, z(R['u']), s2)
                elif nest == 'FA':
                    vs = [V[i]['v'] for i in d.vars]
                    P(nm + ': outer first derivative', pc, z(R['v']), sum((f[i] * vs[i] for i in range(1, nv)), f[0] * vs[0]))
                    INV = (1 << 32) - 1
                    for which, sl in (('value', R['sval']), ('derivative', R['sder'])):
                        if isinstance(sl, int) and sl == INV:
                            adj = None
                        else:
                            adj = el.sweep(ex, pc, R['inn'], [(sl, one)])
                        for q, i in enumerate(d.vars):
                            ax_ = adj.get(V[i]['sx']) if adj else None
                            av_ = adj.get(V[i]['sv']) if adj else None
                            if which == 'value':
                                P(nm + ': inner first derivative %d' % i, pc, ax_, f[q])
                                P(nm + ': value independent of tangent %d' % i, pc, av_, Z)
                            else:
                                P(nm + ': second derivative %d' % i, pc, ax_, sum((h[k][q] * vs[k] for k in range(1, nv)), h[0][q] * vs[0]))
                                P(nm + ': derivative wrt tangent %d' % i, pc, av_, f[q])
                elif nest == 'AF':
                    ws = [V[i]['w'] for i in d.vars]
                    P(nm + ': inner first derivative', pc, z(R['w']), sum((f[i] * ws[i] for i in range(1, nv)), f[0] * ws[0]))
                    adj = dual_sweep(ex, pc, R['out'], [(R['so'], (one, Z))])
                    for q, i in enumerate(d.vars):
                        a = adj.get(V[i]['so']) or (Z, Z)
                        P(nm + ': outer first derivative %d' % i, pc, a[0], f[q])
                        P(nm + ': second derivative %d' % i, pc, a[1], sum((h[q][k] * ws[k] for k in range(1, nv)), h[q][0] * ws[0]))
                else:
                    # value's own inner derivative
                    si = R['si']
                    adj = None if isinstance(si, int) and si == (1 << 32) - 1 else el.sweep(ex, pc, R['inn'], [(si, one)])
                    for q, i in enumerate(d.vars):
                        P(nm + ': inner first derivative %d' % i, pc, adj.get(V[i]['sx']) if adj else None, f[q])
                    # outer statements: adjoint of operand i is the sum of its factors (single statement, unit seed)
                    # outer sweep over pairs (value, gradient with respect to the inner inputs)
                    INV = (1 << 32) - 1

                    def grad(fs):
                        fsl = lower(fs)
                        c = lower(simp(bvz(fsl, 32) == z3.BitVecVal(INV, 32)))
                        if not isinstance(c, int):
                            if ex.entails(el.fakestate(pc), z3.Not(c)) is not True:
                                raise Undecided('factor registration not determined')
                            c = 0
                        if c:
                            return [Z] * nv
                        adj = el.sweep(ex, pc, R['inn'], [(fsl, one)])
                        return [adj.get(V[kk]['sx']) if adj.get(V[kk]['sx']) is not None else Z for kk in d.vars]
                    oadj = el.SlotMap(ex, pc)
                    so = lower(R['so'])
                    if not (isinstance(so, int) and so == INV):
                        oadj.set(so, (one, [Z] * nv))
                        for lhs, ops in reversed(R['out']):
                            a = oadj.get(lhs)
                            oadj.set(lhs, None)
                            if a is None:
                                continue
                            for (fv, fs), sl in ops:
                                fv, g = z(fv), grad(fs)
                                p_ = (mul(fv, a[0]), [add(mul(fv, a[1][k]), mul(g[k], a[0])) for k in range(nv)])
                                o = oadj.get(sl)
                                oadj.set(sl, p_ if o is None else (add(o[0], p_[0]), [add(o[1][k], p_[1][k]) for k in range(nv)]))
                    for q, i in enumerate(d.vars):
                        t = oadj.get(V[i]['so'])
                        tot, res = t if t is not None else (Z, [Z] * nv)
                        P(nm + ': outer first derivative %d' % i, pc, tot, f[q])
                        for k in range(nv):
                            P(nm + ': second derivative %d %d' % (i, d.vars[k]), pc, res[k], h[q][k])
        except Undecided as e:
            ctx.fail_obl('%s %s' % (nest, d.id), str(e), d.id)
    if nat:
        fails, cnt = [], 0
        for env in el.native_points(d, ctx.rng, nnat):
            cnt += 1
            try:
                r = compare_nested(nat, d, env, dom, f, h, nests)
            except (OverflowError, ValueError, ax.EvalError, ZeroDivisionError):
                continue
            if r:
                fails.append(dict(failure=r))
        ctx.native(d.id, cnt, fails, 'seeded operands, all four nestings of the real types against 40 digit reference first and second derivatives',
                   dict(driver=d.id, points=cnt, result='agrees' if not fails else fails[0]))


def compare_nested(nat, d, env, dom, f, h, nests=NEST):
    env = el.rounded_env(d, env)
    nm = ax.Numeric(env)
    try:
        if not nm.ev(dom):
            return None
        F = [nm.ev(t) for t in f]
        H = [[nm.ev(t) for t in r] for r in h]
    except (ax.EvalError, OverflowError, ValueError, ZeroDivisionError, TypeError):
        return None
    al = F + [x for r in H for x in r]
    if not all(mpmath.isfinite(v) for v in al):
        return None
    big = max(abs(v) for v in al)
    if big > mpf('1e12') or any(abs(v) > mpf('1e8') or (v != 0 and abs(v) < mpf('1e-8')) for k, v in env.items() if isinstance(v, mpf) and k[0] in 'xp'):
        return None
    nv = len(d.vars)
    ct = CT[d.T]
    a = [ct(float(env['x%d' % i])) for i in d.vars] + nat.pas(d, env)
    # conditioning: perturb the point by an ulp and widen the tolerance accordingly
    eps = mpf('2e-16') if d.T == 'double' else mpf('1e-7')
    scale = [max(mpf('1e-3'), el.sfloor(d, env))] * nv + [max(mpf('1e-3'), el.sfloor(d, env, 2))] * (nv * nv)
    for i in d.vars:
        e2 = dict(env)
        e2['x%d' % i] = env['x%d' % i] * (1 + 64 * eps)
        n2 = ax.Numeric(e2)
        try:
            B = [n2.ev(t) for t in f] + [n2.ev(t) for r in h for t in r]
            scale = [max(s, abs(b - v) / (eps * 64)) for s, b, v in zip(scale, B, al)]
        except Exception:
            return None
    for nest in nests:
        o = nat.call('N%s_%s' % (nest, d.id), a, d.T, 32)
        exp = al
        for k, v in enumerate(exp):
            if not abs(mpf(o[1 + k]) - v) <= el.ntol(d) * max(abs(v), scale[k], big * mpf('1e-3')):
                what = 'first derivative %d' % k if k < nv else 'second derivative (%d,%d)' % ((k - nv) // nv, (k - nv) % nv)
                return '%s through %s of %s at %s: got %r, expected %s' % (what, {'F': 'forward', 'A': 'adjoint'}[nest[0]] + ' over ' + {'F': 'forward', 'A': 'adjoint'}[nest[1]], d.id, el.show(env), o[1 + k], mpmath.nstr(v, 12))
        if nest in ('FF', 'FA', 'AF'):
            for k in range(nv):
                if not abs(mpf(o[20 + k]) - F[k]) <= el.ntol(d) * max(abs(F[k]), scale[k], big * mpf('1e-3')):
                    return 'other-level first derivative %d through %s of %s at %s: got %r, expected %s' % (k, nest, d.id, el.show(env), o[20 + k], mpmath.nstr(F[k], 12))
        if nest == 'FA':
            for k in range(nv):
                if not abs(mpf(o[24 + k]) - F[k]) <= el.ntol(d) * max(abs(F[k]), scale[k], big * mpf('1e-3')):
                    return 'inner first derivative %d of the value through FA of %s at %s: got %r, expected %s' % (k, d.id, el.show(env), o[24 + k], mpmath.nstr(F[k], 12))
    return None
