"""Specifications and generated drivers for the expression layer (C01, C02, C03, C05, C17, C18 share it).

The drivers only call the real, public API; the specification of every function is written here from its
mathematical definition (z3 terms over the reals).
"""
import ctypes, math, re
from fractions import Fraction
import z3
from mpmath import mpf
import mpmath
from . import ax, sym, tapemodel as tm, ir, dom
from .sym import *
from .sym import bvonly
from .ir import DOUBLE, FLOAT, PTR
from .dom import RealDom, FPDom, Undecided, uf
from .ax import m, kz

R = z3.RealSort()
T_ = True


class Real2(RealDom):
    """RealDom with literals of well known constants recognised and integer conversions normalised"""

    def const(self, f, ty):
        if f == f and f not in (math.inf, -math.inf):
            s = ax.snap(f, ty == FLOAT)
            if s is not None:
                return s
        return RealDom.const(self, f, ty)

    def bin(self, op, a, b, ty):
        if op == 'fdiv' and not isinstance(a, Fraction) and not isinstance(b, Fraction):
            q = cancel(self.z(a), self.z(b))
            if q is not None:
                return z3.If(self.z(b) != 0, q, self.z(a) / self.z(b))
        if op == 'fsub' and not isinstance(a, Fraction) and not isinstance(b, Fraction) and a.eq(b):
            return Fraction(0)
        return RealDom.bin(self, op, a, b, ty)

    def _lift(self, f, x):
        if not isinstance(x, Fraction) and x.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(x.arg(0), self.z(self._lift(f, x.arg(1))), self.z(self._lift(f, x.arg(2))))
        if not isinstance(x, Fraction) and integral(x):
            return x
        return f(x)

    def round(self, x):
        return self._lift(lambda y: RealDom.round(self, y), x)

    def trunc(self, x):
        return self._lift(lambda y: RealDom.trunc(self, y), x)

    def floor(self, x):
        return self._lift(lambda y: RealDom.floor(self, y), x)

    def from_int(self, v, w, signed):
        if not isinstance(v, int) and z3.is_bv(v):
            return int_real(v, signed)
        return RealDom.from_int(self, v, w, signed)


def cancel(a, b):
    """a / b where b is a syntactic factor of the expanded numerator (and the numerator is a difference); valid for b != 0"""
    if z3.is_rational_value(b) or a.decl().kind() not in (z3.Z3_OP_SUB, z3.Z3_OP_ADD):
        return None
    n = z3.simplify(a, som=True)
    if n.decl().kind() != z3.Z3_OP_MUL:
        return None
    c, bb = z3.RealVal(1), z3.simplify(b)
    if bb.decl().kind() == z3.Z3_OP_MUL and bb.num_args() == 2 and z3.is_rational_value(bb.arg(0)):
        c, bb = bb.arg(0), bb.arg(1)
    fs = []

    def flat(e):
        if e.decl().kind() == z3.Z3_OP_MUL:
            for x in e.children():
                flat(x)
        else:
            fs.append(e)
    flat(n)
    for i, f in enumerate(fs):
        if f.eq(bb):
            rest = fs[:i] + fs[i + 1:]
            r = z3.RealVal(1) / c
            r = z3.simplify(r)
            for x in rest:
                r = x if z3.is_rational_value(r) and r.as_fraction() == 1 else z3.simplify(r * x) if z3.is_rational_value(r) and z3.is_rational_value(x) else r * x
            return r
    return None


def int_real(v, signed):
    k = v.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT:
        return int_real(v.arg(0), False)
    if k == z3.Z3_OP_CONCAT and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0 and v.num_args() == 2:
        return int_real(v.arg(1), False)
    if k == z3.Z3_OP_CONCAT and signed:
        lo = v.arg(v.num_args() - 1)
        sb = lo.size() - 1
        if all(c.decl().kind() == z3.Z3_OP_EXTRACT and c.params() == [sb, sb] and c.arg(0).eq(lo) for c in v.children()[:-1]):
            return int_real(lo, True)
    if k == z3.Z3_OP_SIGN_EXT and signed:
        return int_real(v.arg(0), True)
    if k == z3.Z3_OP_ITE and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
        w = v.size()
        f = lambda c: z3.RealVal(sym.sint(c.as_long(), w) if signed else c.as_long())
        return z3.If(v.arg(0), f(v.arg(1)), f(v.arg(2)))
    if z3.is_bv_value(v):
        return z3.RealVal(sym.sint(v.as_long(), v.size()) if signed else v.as_long())
    w = v.size()
    return uf('real_of_%si%d' % ('s' if signed else 'u', w), z3.BitVecSort(w), R)(v)


_old_axioms = ax.axioms


def _axioms(es, rounds=1):
    out = _old_axioms(es, rounds)
    apps = ax.apps_of(list(es) + out)
    for a in apps:
        n = a.decl().name()
        mm = re.match(r'real_of_([su])i(\d+)$', n)
        if mm:
            sg, w = mm.group(1) == 's', int(mm.group(2))
            t = a.arg(0)
            lo = z3.RealVal(-(1 << (w - 1)) if sg else 0)
            hi = z3.RealVal((1 << (w - 1)) - 1 if sg else (1 << w) - 1)
            out += [a >= lo, a <= hi]
            it = uf('int_of_' + n[8:], z3.BitVecSort(w), z3.IntSort())(t)
            out.append(a == z3.ToReal(it))
            for c in (0, 1, 2, -1):
                if not sg and c < 0:
                    continue
                out.append((t == c) == (a == c))
            if sg:
                out += [(t < 0) == (a < 0), (t > 0) == (a > 0)]
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BADD:
                cs = [c for c in t.children() if z3.is_bv_value(c)]
                rs = [c for c in t.children() if not z3.is_bv_value(c)]
                if len(cs) == 1 and len(rs) == 1:
                    cv = sym.sint(cs[0].as_long(), w)
                    b = uf(n, z3.BitVecSort(w), R)(rs[0])
                    if sg:
                        ok = z3.And(z3.BVAddNoOverflow(rs[0], cs[0], True), z3.BVAddNoUnderflow(rs[0], cs[0]))
                    else:
                        ok = z3.BVAddNoOverflow(rs[0], z3.BitVecVal(cv, w), False) if cv >= 0 else z3.UGE(rs[0], -cv)
                    out.append(z3.Implies(ok, a == b + cv))
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BMUL and t.num_args() == 2 and sg:
                u, v = t.arg(0), t.arg(1)
                if z3.is_bv_value(u) and sym.sint(u.as_long(), w) == -1:
                    b = uf(n, z3.BitVecSort(w), R)(v)
                    out.append(z3.Implies(v != z3.BitVecVal(1 << (w - 1), w), a == -b))
    return out


ax.axioms = _axioms


def isint(e):
    return z3.ToReal(z3.ToInt(e)) == e


def integral(e):
    """syntactically integer valued"""
    if z3.is_rational_value(e):
        return e.denominator_as_long() == 1
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE:
        return integral(e.arg(1)) and integral(e.arg(2))
    if e.decl().name().startswith('real_of_') or k == z3.Z3_OP_TO_REAL:
        return True
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return all(integral(c) for c in e.children())
    return False


def isintz(e):
    return z3.BoolVal(True) if integral(e) else isint(e)


def trunc(x):
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))


_rd = RealDom()


def rint(x):
    return _rd.rint(x)


def sq(x):
    return m('sqrt', x)


def absr(x):
    return z3.If(x >= 0, x, -x)


# ------------------------------------------------------------------ function table
class Fn:
    def __init__(self, name, expr, dom, ders, n=1, aux='', plain=None, val=None, outs=(), scal=None, note='', noE=False, tol=None):
        self.name, self.expr, self.dom, self.ders, self.n = name, expr, dom, ders, n
        self.aux = aux          # '' or 'n' (extra int argument)
        self.plain = plain or expr
        self.val = val
        self.outs = outs        # [(ctype, name)]
        self.scal = scal
        self.noE = noE
        self.tol = tol


RV = z3.RealVal
pow2 = uf('pow2', z3.BitVecSort(32), R)


def sint_of(n):
    return n


def frexp_e(x):
    return uf('frexp_exp_Real', R, z3.BitVecSort(32))(x)


UNARY = [
    Fn('neg', '-({0})', lambda x: T_, [lambda x: RV(-1)], val=lambda x: -x),
    Fn('plus', '+({0})', lambda x: T_, [lambda x: RV(1)], val=lambda x: x),
    Fn('sin', 'sin({0})', lambda x: T_, [lambda x: m('cos', x)]),
    Fn('cos', 'cos({0})', lambda x: T_, [lambda x: -m('sin', x)]),
    Fn('tan', 'tan({0})', lambda x: m('cos', x) != 0, [lambda x: 1 + m('tan', x) * m('tan', x)]),
    Fn('asin', 'asin({0})', lambda x: z3.And(x > -1, x < 1), [lambda x: 1 / sq(1 - x * x)]),
    Fn('acos', 'acos({0})', lambda x: z3.And(x > -1, x < 1), [lambda x: -1 / sq(1 - x * x)]),
    Fn('atan', 'atan({0})', lambda x: T_, [lambda x: 1 / (1 + x * x)]),
    Fn('sinh', 'sinh({0})', lambda x: T_, [lambda x: m('cosh', x)]),
    Fn('cosh', 'cosh({0})', lambda x: T_, [lambda x: m('sinh', x)]),
    Fn('tanh', 'tanh({0})', lambda x: T_, [lambda x: 1 - m('tanh', x) * m('tanh', x)]),
    Fn('asinh', 'asinh({0})', lambda x: T_, [lambda x: 1 / sq(x * x + 1)]),
    Fn('acosh', 'acosh({0})', lambda x: x > 1, [lambda x: 1 / sq(x * x - 1)]),
    Fn('atanh', 'atanh({0})', lambda x: z3.And(x > -1, x < 1), [lambda x: 1 / (1 - x * x)]),
    Fn('exp', 'exp({0})', lambda x: T_, [lambda x: m('exp', x)]),
    Fn('exp2', 'exp2({0})', lambda x: T_, [lambda x: kz('K_ln2') * m('exp2', x)]),
    Fn('expm1', 'expm1({0})', lambda x: T_, [lambda x: m('exp', x)]),
    Fn('log', 'log({0})', lambda x: x > 0, [lambda x: 1 / x]),
    Fn('log2', 'log2({0})', lambda x: x > 0, [lambda x: kz('K_invln2') / x]),
    Fn('log10', 'log10({0})', lambda x: x > 0, [lambda x: kz('K_invln10') / x]),
    Fn('log1p', 'log1p({0})', lambda x: x > -1, [lambda x: 1 / (1 + x)]),
    Fn('sqrt', 'sqrt({0})', lambda x: x > 0, [lambda x: 1 / (2 * sq(x))]),
    Fn('cbrt', 'cbrt({0})', lambda x: x != 0, [lambda x: 1 / (3 * m('cbrt', x) * m('cbrt', x))]),
    Fn('erf', 'erf({0})', lambda x: T_, [lambda x: kz('K_2_sqrtpi') * m('exp', -x * x)]),
    Fn('erfc', 'erfc({0})', lambda x: T_, [lambda x: -kz('K_2_sqrtpi') * m('exp', -x * x)]),
    Fn('abs', 'abs({0})', lambda x: x != 0, [lambda x: z3.If(x > 0, RV(1), RV(-1))]),
    Fn('fabs', 'fabs({0})', lambda x: x != 0, [lambda x: z3.If(x > 0, RV(1), RV(-1))]),
    Fn('floor', 'floor({0})', lambda x: z3.Not(isint(x)), [lambda x: RV(0)]),
    Fn('ceil', 'ceil({0})', lambda x: z3.Not(isint(x)), [lambda x: RV(0)]),
    Fn('trunc', 'trunc({0})', lambda x: z3.Not(isint(x)), [lambda x: RV(0)]),
    Fn('round', 'round({0})', lambda x: z3.Not(isint(x + RV('1/2'))), [lambda x: RV(0)]),
    Fn('degrees', 'degrees({0})', lambda x: T_, [lambda x: kz('K_180_pi')], plain='({0})*T(57.2957795130823208767981548141051703324054725)',
       val=lambda x: x * kz('K_180_pi')),
    Fn('radians', 'radians({0})', lambda x: T_, [lambda x: kz('K_pi_180')], plain='({0})*T(0.0174532925199432957692369076848861271344287)',
       val=lambda x: x * kz('K_pi_180')),
    Fn('ldexp', 'ldexp({0}, n)', lambda x, n: T_, [lambda x, n: pow2(sint_of(n))], aux='n'),
    Fn('scalbn', 'scalbn({0}, n)', lambda x, n: T_, [lambda x, n: pow2(sint_of(n))], aux='n', plain='std::scalbn({0}, n)'),
    Fn('frexp', 'frexp({0}, &q)', lambda x: x != 0, [lambda x: 1 / pow2(sint_of(frexp_e(x)))], outs=(('int', 'q'),)),
    Fn('modf', 'modf({0}, &ip)', lambda x: z3.Not(isint(x)), [lambda x: RV(1)], outs=(('T', 'ip'),)),
    Fn('pown', 'pown({0}, n)', lambda x, n: z3.Or(x != 0, n >= 0),
       [lambda x, n: z3.If(n == 0, RV(0), int_real(n, True) * m('pow', x, int_real(n, True) - 1))], aux='n', plain='pow({0}, n)'),
]


def pow_da_dom(a, b):
    return z3.Or(a > 0, z3.And(a != 0, isint(b)), z3.And(a == 0, isint(b), b >= 0))


def pow_da(a, b):
    return z3.If(b == 0, RV(0), b * m('pow', a, b - 1))


def pow_db_dom(a, b):
    return z3.Or(a > 0, z3.And(a == 0, b > 0))


def pow_db(a, b):
    return z3.If(a == 0, RV(0), m('log', a) * m('pow', a, b))


def tie(c, d):
    return lambda a, b: z3.If(c(a, b), RV(1), z3.If(c(b, a), RV(0), RV('1/2')))


def nz2(a, b):
    return z3.Or(a != 0, b != 0)


def notint_q(a, b):
    return z3.And(b != 0, z3.Not(isint(a / b)))


def nothalf_q(a, b):
    return z3.And(b != 0, z3.Not(isint(a / b + RV('1/2'))))


BINARY = [
    Fn('add', '({0}) + ({1})', lambda a, b: T_, [lambda a, b: RV(1), lambda a, b: RV(1)], 2, val=lambda a, b: a + b),
    Fn('sub', '({0}) - ({1})', lambda a, b: T_, [lambda a, b: RV(1), lambda a, b: RV(-1)], 2, val=lambda a, b: a - b),
    Fn('mul', '({0}) * ({1})', lambda a, b: T_, [lambda a, b: b, lambda a, b: a], 2, val=lambda a, b: a * b),
    Fn('div', '({0}) / ({1})', lambda a, b: b != 0, [lambda a, b: 1 / b, lambda a, b: -a / (b * b)], 2, val=lambda a, b: a / b),
    Fn('pow', 'pow({0}, {1})', [pow_da_dom, pow_db_dom], [pow_da, pow_db], 2),
    Fn('max', '(max)({0}, {1})', lambda a, b: T_, [tie(lambda a, b: a > b, 0), lambda a, b: tie(lambda a, b: a > b, 0)(b, a)], 2,
       val=lambda a, b: z3.If(a > b, a, b)),
    Fn('min', '(min)({0}, {1})', lambda a, b: T_, [tie(lambda a, b: a < b, 0), lambda a, b: tie(lambda a, b: a < b, 0)(b, a)], 2,
       val=lambda a, b: z3.If(a < b, a, b)),
    Fn('fmax', 'fmax({0}, {1})', lambda a, b: T_, [tie(lambda a, b: a > b, 0), lambda a, b: tie(lambda a, b: a > b, 0)(b, a)], 2,
       val=lambda a, b: z3.If(a > b, a, b)),
    Fn('fmin', 'fmin({0}, {1})', lambda a, b: T_, [tie(lambda a, b: a < b, 0), lambda a, b: tie(lambda a, b: a < b, 0)(b, a)], 2,
       val=lambda a, b: z3.If(a < b, a, b)),
    Fn('fmod', 'fmod({0}, {1})', notint_q, [lambda a, b: RV(1), lambda a, b: -trunc(a / b)], 2),
    Fn('remainder', 'remainder({0}, {1})', nothalf_q, [lambda a, b: RV(1), lambda a, b: -rint(a / b)], 2),
    Fn('remquo', 'remquo({0}, {1}, &q)', nothalf_q, [lambda a, b: RV(1), lambda a, b: -rint(a / b)], 2, outs=(('int', 'q'),),
       plain='std::remquo({0}, {1}, &q)'),
    Fn('atan2', 'atan2({0}, {1})', lambda a, b: z3.Or(a != 0, b > 0), [lambda a, b: b / (a * a + b * b), lambda a, b: -a / (a * a + b * b)], 2),
    Fn('hypot', 'hypot({0}, {1})', nz2, [lambda a, b: a / m('hypot', a, b), lambda a, b: b / m('hypot', a, b)], 2),
    Fn('nextafter', 'nextafter({0}, {1})', lambda a, b: T_, [lambda a, b: RV(1), lambda a, b: RV(0)], 2),
    Fn('copysign', 'copysign({0}, {1})', lambda a, b: z3.And(a != 0, b != 0),
       [lambda a, b: z3.If((a < 0) == (b < 0), RV(1), RV(-1)), lambda a, b: RV(0)], 2, plain='std::copysign({0}, {1})'),
]


def sabs(x, c):
    return z3.If(z3.Or(x > c, x < -c), absr(x), z3.If(x < 0, x * x * (2 / c + x / (c * c)), x * x * (2 / c - x / (c * c))))


def sabs_dx(x, c):
    return z3.If(x > c, RV(1), z3.If(x < -c, RV(-1), z3.If(x < 0, 4 * x / c + 3 * x * x / (c * c), 4 * x / c - 3 * x * x / (c * c))))


def sabs_dc(x, c):
    return z3.If(z3.Or(x > c, x < -c), RV(0), z3.If(x < 0, -2 * x * x / (c * c) - 2 * x * x * x / (c * c * c),
                                                     -2 * x * x / (c * c) + 2 * x * x * x / (c * c * c)))


PTYPES = {'D': ('double', 'f', 64), 'F': ('float', 'f', 32), 'I': ('int', 's', 32), 'U': ('unsigned int', 'u', 32), 'L': ('long', 's', 64),
          'S': ('short', 's', 16), 'UL': ('unsigned long', 'u', 64), 'UC': ('unsigned char', 'u', 8), 'Q': ('long long', 's', 64), 'SC': ('signed char', 's', 8)}
CT = {'double': ctypes.c_double, 'float': ctypes.c_float, 'int': ctypes.c_int32, 'unsigned int': ctypes.c_uint32, 'long': ctypes.c_int64,
      'short': ctypes.c_int16, 'unsigned long': ctypes.c_uint64, 'unsigned char': ctypes.c_uint8, 'long long': ctypes.c_int64, 'signed char': ctypes.c_int8}


class Drv:
    """one driver: function, scalar type T, operand kinds.
    operand kinds: 'a' active literal, 'e' active expression (-a), 'v' active value_type temporary (AReal rvalue), or a passive type key.
    same=True: both operands are the same variable"""

    def __init__(self, fn, T, kinds, same=False, plain_expr=None):
        self.fn, self.T, self.kinds, self.same = fn, T, kinds, same
        self.id = '%s_%s_%s%s' % (fn.name, 'd' if T == 'double' else 'f', ''.join(kinds), '_same' if same else '')
        self.act = [i for i, k in enumerate(kinds) if k in 'ae' and len(k) == 1 and k.islower()]
        self.vars = [self.act[0]] if same else self.act

    def exprs(self, vname):
        out = []
        for i, k in enumerate(self.kinds):
            j = self.vars[0] if self.same else i
            if k == 'a':
                out.append(vname(j))
            elif k == 'e':
                out.append('-(%s)' % vname(j))
            else:
                out.append('p%d' % i)
        return out

    def decl_pass(self):
        return ''.join(', %s p%d' % (PTYPES[k][0], i) for i, k in enumerate(self.kinds) if i not in self.act) + (', int n' if self.fn.aux else '')

    def outdecl(self):
        return ''.join('%s %s = 0; ' % (t, n) for t, n in self.fn.outs)

    def outstore(self, off):
        return ''.join('o[%d] = T(%s); ' % (off + i, n) for i, (t, n) in enumerate(self.fn.outs))

    def cpp(self, modes='FANV'):
        T = self.T
        e = self.fn.expr
        s = ''
        td = 'typedef %s T; ' % T
        if not self.act:
            modes = 'V'
        if 'F' in modes:
            ps = ', '.join('%s x%d, %s d%d' % (T, i, T, i) for i in self.vars)
            s += 'extern "C" void F_%s(%s%s, %s* o) { %s%s%s xad::FReal<T> r = %s; o[0] = xad::value(r); o[1] = xad::derivative(r); %s}\n' % (
                self.id, ps, self.decl_pass(), T, td, self.outdecl(), ''.join('xad::FReal<T> a%d(x%d, d%d); ' % (i, i, i) for i in self.vars),
                e.format(*self.exprs(lambda j: 'a%d' % j)), self.outstore(2))
        if 'A' in modes:
            ps = ', '.join('const xad::AReal<%s>* a%d' % (T, i) for i in self.vars)
            s += 'extern "C" void A_%s(%s%s, xad::AReal<%s>* r, %s* o) { %s%s new (r) xad::AReal<T>(%s); %s}\n' % (
                self.id, ps, self.decl_pass(), T, T, td, self.outdecl(), e.format(*self.exprs(lambda j: '(*a%d)' % j)), self.outstore(2))
        if 'N' in modes:
            ps = ', '.join('%s x%d' % (T, i) for i in self.vars)
            s += ('extern "C" void N_%s(%s%s, %s* o) { %s%s xad::Tape<T> tape; %s tape.newRecording(); xad::AReal<T> r = %s; tape.registerOutput(r); '
                  'xad::derivative(r) = T(1); tape.computeAdjoints(); o[0] = xad::value(r); %s}\n') % (
                self.id, ps, self.decl_pass(), T, td, self.outdecl(),
                ''.join('xad::AReal<T> a%d(x%d); tape.registerInput(a%d); ' % (i, i, i) for i in self.vars),
                e.format(*self.exprs(lambda j: 'a%d' % j)),
                ''.join('o[%d] = xad::derivative(a%d); ' % (1 + k, i) for k, i in enumerate(self.vars)))
        if 'V' in modes:
            ps = ', '.join('%s x%d' % (T, i) for i in self.vars)
            s += 'extern "C" void V_%s(%s%s, %s* o) { %s%s o[0] = T(%s); %s}\n' % (
                self.id, ps + self.decl_pass() if ps else self.decl_pass()[2:], '', T, td, self.outdecl(), self.fn.plain.format(*self.exprs(lambda j: 'x%d' % j)), self.outstore(2))
        if 'W' in modes:   # value of the active expression (forward and adjoint) with recording off; operands observed afterwards
            ps = ', '.join('%s x%d' % (T, i) for i in self.vars)
            s += 'extern "C" void WF_%s(%s%s, %s* o) { %s%s%s o[0] = T(xad::value(%s)); %s}\n' % (
                self.id, ps, self.decl_pass(), T, td, self.outdecl(), ''.join('xad::FReal<T> a%d(x%d); ' % (i, i) for i in self.vars),
                e.format(*self.exprs(lambda j: 'a%d' % j)), self.outstore(2))
        return s

    # ------- spec
    def operand_terms(self, xs, ps):
        """mathematical operand values"""
        out = []
        for i, k in enumerate(self.kinds):
            j = self.vars[0] if self.same else i
            if k == 'a':
                out.append(xs[j])
            elif k == 'e':
                out.append(-xs[j])
            else:
                out.append(ps[i])
        return out

    def partials(self, xs, ps, n):
        """list over variables of (domain, derivative)"""
        ops = self.operand_terms(xs, ps)
        args = ops + ([n] if self.fn.aux else [])
        res = []
        doms = self.fn.dom if isinstance(self.fn.dom, list) else [self.fn.dom] * self.fn.n
        for v in self.vars:
            tot = None
            ds = []
            for i in range(self.fn.n):
                if i in self.act and (self.same or i == v):
                    t = self.fn.ders[i](*args)
                    if self.kinds[i] == 'e':
                        t = -t
                    tot = t if tot is None else tot + t
                    ds.append(doms[i](*args))
            res.append((z3.And([d if not isinstance(d, bool) else z3.BoolVal(d) for d in ds]), tot))
        return res


def passive_sym(k, i, T):
    ct, kind, w = PTYPES[k]
    if kind == 'f':
        z = z3.Real('p%d' % i)
        return z, z
    bv = z3.BitVec('p%d' % i, w)
    return bv, int_real(bv, kind == 's')


def definedness(e, guard=()):
    """conditions under which every partial operation in e is finite"""
    out = []
    seen = set()

    def go(e, g):
        key = (e.get_id(), tuple(x.get_id() for x in g))
        if key in seen:
            return
        seen.add(key)
        k = e.decl().kind()
        n = e.decl().name()
        if k == z3.Z3_OP_ITE:
            go(e.arg(0), g)
            go(e.arg(1), g + (e.arg(0),))
            go(e.arg(2), g + (z3.Not(e.arg(0)),))
            return
        c = None
        if k == z3.Z3_OP_DIV:
            if not (z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() != 0):
                c = e.arg(1) != 0
        elif n in ('m_log', 'm_log2', 'm_log10'):
            c = e.arg(0) > 0
        elif n == 'm_log1p':
            c = e.arg(0) > -1
        elif n == 'm_sqrt':
            c = e.arg(0) >= 0
        elif n in ('m_asin', 'm_acos'):
            c = z3.And(e.arg(0) >= -1, e.arg(0) <= 1)
        elif n == 'm_atanh':
            c = z3.And(e.arg(0) > -1, e.arg(0) < 1)
        elif n == 'm_acosh':
            c = e.arg(0) >= 1
        elif n == 'm_pow':
            a, b = e.arg(0), e.arg(1)
            c = z3.Or(a > 0, z3.And(a < 0, isintz(b)), z3.And(a == 0, b >= 0))
        if c is not None and not z3.is_true(z3.simplify(c)):
            out.append(z3.Implies(z3.And(list(g)), c) if g else c)
        for ch in e.children():
            go(ch, g)
    go(e, tuple(guard))
    return out


# ------------------------------------------------------------------ symbolic runs
def run_forward(ctx, mod, d, domain=None):
    """[(pc, value, derivative, outs)] over exact reals"""
    ex = Exec(mod, domain or Real2(), compile_contracts(getattr(d, 'contracts', []) + tm.EXC))
    st = State()
    T = DOUBLE if d.T == 'double' else FLOAT
    args = []
    xs, dx, ps = {}, {}, {}
    for i in d.vars:
        xs[i] = ex.dom.fresh('x%d' % i, T)
        dx[i] = ex.dom.fresh('d%d' % i, T)
        args += [xs[i], dx[i]]
    raw = {}
    for i, k in enumerate(d.kinds):
        if i not in d.act:
            raw[i], ps[i] = passive_sym(k, i, d.T)
            args.append(raw[i])
    n = z3.BitVec('n', 32) if d.fn.aux else None
    if n is not None:
        args.append(n)
    es = mod.size(T)
    o = ex.new_region(st, 'out', size=es * 8)
    args.append(Ptr(o, 0))
    outs = ex.call_function(st, '@F_' + d.id, args)
    res = []
    for kind, s, v in outs:
        if kind == 'ret':
            res.append((s.pc, ex.load(s, Ptr(o, 0), T), ex.load(s, Ptr(o, es), T), [ex.load(s, Ptr(o, es * (2 + k)), T) for k in range(len(d.fn.outs))]))
        else:
            res.append((s.pc, None, kind, v))
    ctx.absorb(ex)
    return dict(paths=res, xs=xs, dx=dx, ps=ps, raw=raw, n=n, ex=ex)


def run_plain(ctx, mod, d, domain=None):
    """[(pc, value)] of the plain operation (V driver)"""
    ex = Exec(mod, domain or Real2(), compile_contracts(tm.EXC))
    st = State()
    T = DOUBLE if d.T == 'double' else FLOAT
    args = [ex.dom.fresh('x%d' % i, T) for i in d.vars]
    for i, k in enumerate(d.kinds):
        if i not in d.act:
            args.append(passive_sym(k, i, d.T)[0])
    if d.fn.aux:
        args.append(z3.BitVec('n', 32))
    o = ex.new_region(st, 'out', size=64)
    args.append(Ptr(o, 0))
    res = []
    for kind, s, v in ex.call_function(st, '@V_' + d.id, args):
        res.append((s.pc, ex.dom.z(ex.load(s, Ptr(o, 0), T)) if kind == 'ret' else None, kind))
    ctx.absorb(ex)
    return res


def run_adjoint(ctx, mod, d):
    """[(pc, value, [(factor, slot)], lhs...)]"""
    ex = Exec(mod, Real2(), compile_contracts(getattr(d, 'contracts', []) + tm.EXC + tm.SEQ))
    st = State()
    T = DOUBLE if d.T == 'double' else FLOAT
    t = 'd' if d.T == 'double' else 'f'
    tp = tm.TapeM(ex, st, t, T)
    ex.tp = tp
    tm.set_active(ex, st, t, tp.ptr())
    es = mod.size(T)
    so = tm.off(mod, 'OFF_AR_%s_slot' % t)
    args = []
    xs, ps, slots = {}, {}, {}
    for i in d.vars:
        xs[i] = ex.dom.fresh('x%d' % i, T)
        r = ex.new_region(st, 'a%d' % i, size=tm.off(mod, 'OFF_AR_%s_sizeof' % t))
        ex.store(st, Ptr(r, 0), xs[i], T)
        slots[i] = z3.BitVec('slot%d' % i, 32)
        ex.store(st, Ptr(r, so), slots[i], tm.I32)
        st.assume(z3.ULT(slots[i], tp.recv['ider']))
        args.append(Ptr(r, 0))
    sl = list(slots.values())
    for i in range(len(sl)):
        for j in range(i):
            st.assume(sl[i] != sl[j])
    raw = {}
    for i, k in enumerate(d.kinds):
        if i not in d.act:
            raw[i], ps[i] = passive_sym(k, i, d.T)
            args.append(raw[i])
    n = z3.BitVec('n', 32) if d.fn.aux else None
    if n is not None:
        args.append(n)
    r = ex.new_region(st, 'res', size=16, undef=True)
    o = ex.new_region(st, 'out', size=es * 8)
    args += [Ptr(r, 0), Ptr(o, 0)]
    outs = ex.call_function(st, '@A_' + d.id, args)
    res = []
    for kind, s, v in outs:
        if kind != 'ret':
            res.append((s.pc, None, kind, v))
            continue
        try:
            stm = statements(ex, s, tp)
        except Undecided as e:
            stm = e
        res.append((s.pc, ex.load(s, Ptr(r, 0), T), stm, ex.load(s, Ptr(r, so), tm.I32)))
    ctx.absorb(ex)
    return dict(paths=res, xs=xs, ps=ps, raw=raw, n=n, ex=ex, slots=slots, tp=tp)


def ground(x):
    x = lower(simp(x)) if not isinstance(x, int) else x
    return x if isinstance(x, int) else None


def statements(ex, s, tp):
    """statements appended to the recording: [(target slot, [(factor, slot)])]"""
    vm, vs, vt = tp.vec(s, 'mult'), tp.vec(s, 'slot'), tp.vec(s, 'stmt')
    k, k2 = ground(bvz(vm.size, 64) - tp.nops0), ground(bvz(vs.size, 64) - tp.nops0)
    ns = ground(bvz(vt.size, 64) - tp.nstmt0)
    if k is None or k2 is None or ns is None or k > 4000 or ns > 1000:
        raise Undecided('symbolic number of recorded operands or statements')
    if k != k2:
        raise Undecided('operand factors and slots out of step: %d %d' % (k, k2))
    out = []
    pos = 0
    for i in range(ns):
        idx = lower(simp(tp.nstmt0 + i))
        end = s.mem[vt.reg][0].sel(idx)
        lhs = s.mem[vt.reg][4].sel(idx)
        e = ground(bvz(end, 32) - z3.Extract(31, 0, tp.nops0))
        if e is None:
            raise Undecided('statement end')
        if e < pos or e > k:
            raise Undecided('statement end %d outside the operands recorded so far' % e)
        ops = []
        for j in range(pos, e):
            ix = lower(simp(tp.nops0 + j))
            ops.append((s.mem[vm.reg][0].sel(ix), lower(s.mem[vs.reg][0].sel(ix))))
        out.append((lower(lhs), ops))
        pos = e
    if pos != k:
        raise Undecided('dangling operands without a statement')
    return out


class SlotMap:
    """adjoints indexed by symbolic slots (equality decided under the path condition)"""

    def __init__(self, ex, pc):
        self.ex, self.pc = ex, fakestate(pc)
        self.keys = []
        self.vals = []
        cch = ex.__dict__.setdefault('slotcache', {})
        key = tuple(c.get_id() if z3.is_expr(c) else c for c in pc)
        if key not in cch:
            memo = ex.bvmemo
            s = z3.SimpleSolver()
            s.set('timeout', 4000)
            for c in list(ex.side) + list(pc):
                if z3.is_expr(c) and bvonly(c, memo):
                    s.add(c)
            cch[key] = (s, {}, list(pc))
        self.slv, self.known, _ = cch[key]

    def same(self, c):
        """truth of the slot equality c under the path condition"""
        k = c.get_id()
        if k in self.known:
            return self.known[k][0]
        r = None
        for truth, g in ((True, z3.Not(c)), (False, c)):
            self.slv.push()
            self.slv.add(g)
            u = self.slv.check() == z3.unsat
            self.slv.pop()
            if u:
                r = truth
                break
        else:
            if self.ex.entails(self.pc, c) is True:
                r = True
            elif self.ex.entails(self.pc, z3.Not(c)) is True:
                r = False
        self.known[k] = (r, c)
        return r

    def find(self, slot):
        sl = bvz(slot, 32)
        for i, k in enumerate(self.keys):
            if k.eq(sl):
                return i
        for i, k in enumerate(self.keys):
            c = lower(simp(k == sl))
            if isinstance(c, int):
                if c:
                    return i
                continue
            r = self.same(c)
            if r is True:
                return i
            if r is None:
                raise Undecided('slot equality not determined')
        self.keys.append(sl)
        self.vals.append(None)
        return len(self.keys) - 1

    def get(self, slot):
        return self.vals[self.find(slot)]

    def set(self, slot, v):
        self.vals[self.find(slot)] = v

    def add(self, slot, v):
        i = self.find(slot)
        self.vals[i] = v if self.vals[i] is None else self.vals[i] + v


def sweep(ex, pc, stm, seeds):
    """reverse sweep over recorded statements (the ghost definition C07 proves computeAdjoints against)"""
    z = ex.dom.z
    adj = SlotMap(ex, pc)
    for sl, v in seeds:
        adj.set(sl, v)
    for lhs, ops in reversed(stm):
        a = adj.get(lhs)
        adj.set(lhs, None)
        if a is None:
            continue
        for f, sl in ops:
            fz = z(f)
            if z3.is_rational_value(a) and a.as_fraction() == 1:
                adj.add(sl, fz)
            elif z3.is_rational_value(fz) and fz.as_fraction() == 1:
                adj.add(sl, a)
            else:
                adj.add(sl, fz * a)
    return adj


# ------------------------------------------------------------------ native replay
class Native:
    def __init__(self, so):
        self.lib = ctypes.CDLL(so)

    def call(self, name, args, T, nout=8):
        f = getattr(self.lib, name)
        ct = ctypes.c_double if T == 'double' else ctypes.c_float
        o = (ct * nout)(*([7.25] * nout))
        f.restype = None
        f(*args, o)
        return list(o)

    def forward(self, d, env):
        ct = CT[d.T]
        a = []
        for i in d.vars:
            a += [ct(float(env['x%d' % i])), ct(float(env.get('d%d' % i, 1.0)))]
        a += self.pas(d, env)
        return self.call('F_' + d.id, a, d.T)

    def adjoint(self, d, env):
        ct = CT[d.T]
        a = [ct(float(env['x%d' % i])) for i in d.vars] + self.pas(d, env)
        return self.call('N_' + d.id, a, d.T)

    def plain(self, d, env):
        ct = CT[d.T]
        a = [ct(float(env['x%d' % i])) for i in d.vars] + self.pas(d, env)
        return self.call('V_' + d.id, a, d.T)

    def pas(self, d, env):
        a = []
        for i, k in enumerate(d.kinds):
            if i not in d.act:
                c, kind, w = PTYPES[k]
                v = env['p%d' % i]
                a.append(CT[c](float(v)) if kind == 'f' else CT[c](sym.sint(int(v), w) if kind == 's' else int(v)))
        if d.fn.aux:
            a.append(ctypes.c_int32(sym.sint(int(env['n']), 32)))
        return a


def rounded_env(d, env):
    """the point as the machine sees it (T precision)"""
    e = dict(env)
    for i in d.vars:
        for p in ('x%d' % i, 'd%d' % i):
            if p in e:
                e[p] = mpf(float(e[p]) if d.T == 'double' else ctypes.c_float(float(e[p])).value)
    for i, k in enumerate(d.kinds):
        if i not in d.act and PTYPES[k][1] == 'f':
            v = float(e['p%d' % i])
            e['p%d' % i] = mpf(v if k == 'D' and d.T == 'double' else ctypes.c_float(v).value)
    return e


def ntol(d):
    return mpf('2e-7') if d.T == 'double' else mpf('3e-3')


def sfloor(d, env, order=1):
    """f(x,x): the partials of the two operands may cancel completely; their own size is that of x^-order"""
    if not d.same:
        return mpf(0)
    m = min([abs(env['x%d' % i]) for i in d.vars if env.get('x%d' % i)] + [mpf(1)])
    return m ** -order if m else mpf(0)


def reasonable(vals):
    return all(mpmath.isfinite(v) and abs(v) < mpf('1e30') for v in vals)


def native_partials(d, env, terms):
    """reference partials at the point, or None where outside the domain"""
    nm = ax.Numeric(env)
    out = []
    for dm, t in terms:
        try:
            if not nm.ev(dm):
                out.append(None)
                continue
            v = nm.ev(t)
        except (ax.EvalError, OverflowError, ValueError, ZeroDivisionError, TypeError):
            out.append(None)
            continue
        out.append(v if mpmath.isfinite(v) else None)
    return out


def compare_native(nat, d, env, terms, dterm=None):
    """run forward and adjoint on the real code at env; returns error text or None"""
    env = rounded_env(d, env)
    for i in d.vars:
        env.setdefault('d%d' % i, mpf('0.75') - i)
    ref = native_partials(d, env, terms)
    if all(r is None for r in ref):
        return None
    mx = max([abs(r) for r in ref if r is not None])
    lim = mpf('1e30') if d.T == 'double' else mpf('1e15')
    if mx > lim or (mx != 0 and mx < 1 / lim):
        return None
    a = nat.adjoint(d, env)
    for k, r in enumerate(ref):
        if r is None:
            continue
        if not ax.close(mpf(a[1 + k]), r, 0) and not abs(mpf(a[1 + k]) - r) <= ntol(d) * max(abs(r), mpf('1e-3'), sfloor(d, env)):
            return 'adjoint derivative of %s wrt operand %d at %s: got %r, expected %s' % (d.id, d.vars[k], show(env), a[1 + k], mpmath.nstr(r, 12))
    if all(r is not None for r in ref):
        f = nat.forward(d, env)
        ds = [env['d%d' % i] for i in d.vars]
        exp = sum(r * q for r, q in zip(ref, ds))
        sc = max([abs(r * q) for r, q in zip(ref, ds)] + [mpf('1e-3')] + [abs(q) * max(mpf('1e-3'), sfloor(d, env)) for q in ds] + ([abs(q) for q in ds] if getattr(d.fn, 'steer', None) else []))
        if not abs(mpf(f[1]) - exp) <= ntol(d) * sc:
            return 'forward derivative of %s at %s: got %r, expected %s' % (d.id, show(env), f[1], mpmath.nstr(exp, 12))
    return None


def show(env):
    return ', '.join('%s=%s' % (k, mpmath.nstr(v, 17) if isinstance(v, mpf) else v) for k, v in sorted(env.items()))


def native_points(d, rng, n):
    pts = []
    consts = {}
    for i in d.vars:
        consts['x%d' % i] = z3.Real('x%d' % i)
        consts['d%d' % i] = z3.Real('d%d' % i)
    for i, k in enumerate(d.kinds):
        if i not in d.act:
            c, kind, w = PTYPES[k]
            consts['p%d' % i] = z3.Real('p%d' % i) if kind == 'f' else z3.BitVec('p%d' % i, w)
    if d.fn.aux:
        consts['n'] = z3.BitVec('n', 32)
    for j in range(n):
        e = ax.sample_env(consts, rng, j, [])
        if getattr(d.fn, 'steer', None) and j % 3:
            d.fn.steer(e, d, rng)
        for nn, c in consts.items():
            if z3.is_bv_sort(c.sort()) and c.size() == 64 and abs(sym.sint(e[nn], 64)) >= 1 << 53:
                e[nn] >>= 12       # exactly representable as double
        pts.append(e)
    return pts


def derivative_task(ctx, mod, nat, d, nnat=60, check_value=False, value_spec=None):
    """obligations: derivative (forward and adjoint) == analytic partials, all partial operations defined; native supplement"""
    import ctypes as _c
    T = d.T
    # ---- spec terms over the canonical symbols
    xs = {i: z3.Real('x%d' % i) for i in d.vars}
    ps = {}
    for i, k in enumerate(d.kinds):
        if i not in d.act:
            ps[i] = passive_sym(k, i, T)[1]
    n = z3.BitVec('n', 32) if d.fn.aux else None
    terms = d.partials(xs, ps, n)
    rp = (lambda env: compare_native(nat, d, fill(env, d), terms)) if nat else None
    try:
        f = run_forward(ctx, mod, d)
        dsyms = [z3.Real('d%d' % i) for i in d.vars]
        alld = z3.And([t[0] for t in terms])
        exp = sum([t[1] * q for t, q in zip(terms, dsyms)][1:], terms[0][1] * dsyms[0])
        cov = False
        for np_, (pc, val, der, outs) in enumerate(f['paths']):
            nm = 'forward %s path %d' % (d.id, np_)
            if val is None:
                ctx.prove(nm + ' does not end in %s' % der, list(pc) + [alld], z3.BoolVal(False), d.id, rp)
                continue
            cov = True
            der = f['ex'].dom.z(der)
            g = der == exp
            ctx.prove(nm + ': tangent is the analytic differential', list(pc) + [alld], g, d.id, rp)
            for c in definedness(der):
                ctx.prove(nm + ': partial operation defined', list(pc) + [alld], c, d.id, rp)
            if value_spec is not None:
                vs = value_spec(*d.operand_terms(xs, ps))
                ctx.prove(nm + ': value', list(pc) + [alld], f['ex'].dom.z(val) == vs, d.id, None)
        ctx.cover('forward ' + d.id, cov)
    except Undecided as e:
        ctx.fail_obl('forward ' + d.id, str(e), d.id)
    try:
        a = run_adjoint(ctx, mod, d)
        cov = False
        for np_, (pc, val, ops, rslot) in enumerate(a['paths']):
            nm = 'adjoint %s path %d' % (d.id, np_)
            alld = z3.Or([t[0] for t in terms])
            if val is None:
                ctx.prove(nm + ' does not end in %s' % ops, list(pc) + [alld], z3.BoolVal(False), d.id, rp)
                continue
            cov = True
            if isinstance(ops, Undecided):
                ctx.fail_obl(nm, str(ops), d.id)
                continue
            slots = a['slots']
            try:
                adj = sweep(a['ex'], pc, ops, [(rslot, z3.RealVal(1))])
                tots = [adj.get(slots[i]) for i in d.vars]
            except Undecided as e:
                ctx.fail_obl(nm, str(e), d.id)
                continue
            for (dm, t), i, tot in zip(terms, d.vars, tots):
                tot = z3.RealVal(0) if tot is None else tot
                ctx.prove(nm + ': recorded factor of operand %d is the analytic partial' % i, list(pc) + [dm], tot == t, d.id, rp)
                for c in definedness(tot):
                    ctx.prove(nm + ': partial operation defined', list(pc) + [dm], c, d.id, rp)
            if value_spec is not None:
                ctx.prove(nm + ': value', list(pc) + [alld], a['ex'].dom.z(val) == value_spec(*d.operand_terms(xs, ps)), d.id, None)
        ctx.cover('adjoint ' + d.id, cov)
    except Undecided as e:
        ctx.fail_obl('adjoint ' + d.id, str(e), d.id)
    # ---- bounded supplement on the real code
    if nat:
        fails = []
        cnt = 0
        smp = None
        for env in native_points(d, ctx.rng, nnat):
            cnt += 1
            try:
                r = compare_native(nat, d, env, terms)
            except (OverflowError, ValueError, ax.EvalError):
                continue
            if smp is None:
                smp = dict(driver=d.id, point=show(env), result=r or 'agrees with the analytic partials')
            if r:
                fails.append(dict(failure=r, driver=d.id))
        ctx.native(d.id, cnt, fails, 'random and directed operands (seeded), forward and adjoint mode of the real library against 40 digit reference partials', smp)


class fakestate:
    def __init__(self, pc):
        self.pc = list(pc)


def fill(env, d):
    e = dict(env)
    for i in d.vars:
        e.setdefault('x%d' % i, mpf('0.6') + i)
    for i, k in enumerate(d.kinds):
        if i not in d.act:
            e.setdefault('p%d' % i, mpf('1.5') if PTYPES[k][1] == 'f' else 2)
    if d.fn.aux:
        e.setdefault('n', 2)
    return e


PRE = r'''
#include <XAD/XAD.hpp>
#include <XAD/Complex.hpp>
#include <complex>
#include <new>
#include <Tape.cpp>
'''
LAY = tm.LAYOUT_CPP + r'''
OFF_T(d, double)
OFF_T(f, float)
extern "C" {
extern const unsigned long OFF_AR_d_slot = __builtin_offsetof(xad::AReal<double>, slot_);
extern const unsigned long OFF_AR_d_sizeof = sizeof(xad::AReal<double>);
extern const unsigned long OFF_AR_f_slot = __builtin_offsetof(xad::AReal<float>, slot_);
extern const unsigned long OFF_AR_f_sizeof = sizeof(xad::AReal<float>);
}
'''


def build_drivers(chk, name, drvs, modes='FAN', extra='', pre=PRE, lay=LAY, opt='-O0'):
    """compile the drivers; returns (module or None, native or None)"""
    from . import build
    body = 'using namespace xad;\n' + ''.join(d.cpp(modes) for d in drvs) + extra
    # keep only drivers that compile on their own when the whole does not
    src = chk.scratch.write(name + '.cpp', pre + lay + body)
    try:
        ll = chk.scratch.ll(src, name + '.ll')
    except build.BuildError as e:
        chk.build_failures.append(str(e)[-1200:])
        src = chk.scratch.write(name + '.cpp', pre + body)
        ll = chk.scratch.ll(src, name + '.ll')
    return ll


def load_all(chk, lls, want_so=True):
    """parse modules in this process; build shared objects in parallel"""
    from concurrent.futures import ThreadPoolExecutor
    mods, nats = [], []
    with ThreadPoolExecutor(8) as tp:
        sos = [tp.submit(chk.scratch.so, l, l.split('/')[-1].replace('.ll', '.so')) for l in lls] if want_so else []
        for l in lls:
            mods.append(ir.load(l))
        for s in sos:
            nats.append(Native(s.result()))
    return mods, nats
