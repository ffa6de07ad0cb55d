"""Scalar domains: how `float`/`double` values are interpreted by the VC generator.

 real : idealised exact real arithmetic (z3 Real); libm calls are uninterpreted functions or,
        for the piecewise-linear / integer-valued ones, their exact definition
 fp   : IEEE-754 (z3 FloatingPoint), libm calls uninterpreted  -> bit exact value equality
 abs  : uninterpreted sort, all arithmetic uninterpreted       -> parametric in the scalar type
"""
import math, struct
from fractions import Fraction
import z3


class Undecided(Exception):
    """the machinery cannot decide (unsupported construct, lost precision, ...)"""


def frac(f):
    return Fraction(f)


def isnum(x):
    return isinstance(x, Fraction)


_ufs = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _ufs.get(k)
    if f is None:
        f = z3.Function(name, *sorts)
        _ufs[k] = f
    return f


class RealDom:
    name = 'real'

    def __init__(self):
        self.sort = z3.RealSort()
        self.side = []          # side constraints produced by definitional calls (assumed facts)
        self.n = 0
        self.used = {}          # libm name -> list of args (for axiom instantiation)

    def sort_of(self, ty):
        return self.sort

    def const(self, f, ty):
        if f != f or f in (math.inf, -math.inf):
            return z3.Real('nan_const' if f != f else ('inf_const' if f > 0 else 'ninf_const'))
        return Fraction(f)

    def z(self, a):
        if isinstance(a, Fraction):
            return z3.RealVal(str(a.numerator) + '/' + str(a.denominator)) if a.denominator != 1 else z3.RealVal(a.numerator)
        return a

    def fresh(self, name, ty):
        return z3.Real(name)

    def bin(self, op, a, b, ty):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv' and b != 0:
                return a / b
        A, B = self.z(a), self.z(b)
        if op == 'fadd':
            if isinstance(a, Fraction) and a == 0:
                return B
            if isinstance(b, Fraction) and b == 0:
                return A
            return A + B
        if op == 'fsub':
            if isinstance(b, Fraction) and b == 0:
                return A
            return A - B
        if op == 'fmul':
            for x, y in ((a, B), (b, A)):
                if isinstance(x, Fraction):
                    if x == 0:
                        return Fraction(0)
                    if x == 1:
                        return y
            return A * B
        if op == 'fdiv':
            if isinstance(b, Fraction) and b == 1:
                return A
            return A / B
        raise Undecided('real ' + op)

    def neg(self, a, ty):
        return -a

    def cmp(self, p, a, b):
        k = p[1:]
        if p in ('ord',):
            return True
        if p in ('uno',):
            return False
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[k]
        a, b = self.z(a), self.z(b)
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[k]

    def eq(self, a, b):
        return self.z(a) == self.z(b)

    def from_int(self, v, w, signed):
        if isinstance(v, int):
            if signed and v >= (1 << (w - 1)):
                v -= 1 << w
            return Fraction(v)
        if z3.is_bool(v):
            return z3.If(v, z3.RealVal(-1 if signed else 1), z3.RealVal(0))
        # an opaque injection; spec side uses the same function
        return z3.ToReal(z3.BV2Int(v, signed)) if w <= 8 else self.opq_int(v, w, signed)

    def opq_int(self, v, w, signed):
        # widening does not change the number
        while z3.is_app_of(v, z3.Z3_OP_SIGN_EXT) and signed or z3.is_app_of(v, z3.Z3_OP_ZERO_EXT):
            signed = signed and not z3.is_app_of(v, z3.Z3_OP_ZERO_EXT)
            v = v.arg(0)
            w = v.size()
        return uf('real_of_%si%d' % ('s' if signed else 'u', w), z3.BitVecSort(w), z3.RealSort())(v)

    def to_int(self, v, w, signed):
        if isinstance(v, Fraction):
            q = abs(v.numerator) // v.denominator
            if v < 0:
                q = -q
            return q % (1 << w)
        return uf('%si%d_of_real' % ('s' if signed else 'u', w), z3.RealSort(), z3.BitVecSort(w))(v)

    def cast(self, op, v, f, t):
        return v

    def ite(self, c, a, b):
        if c is True or c is False:
            return a if c else b
        return z3.If(c, self.z(a), self.z(b))

    # exact definitions
    def floor(self, x):
        if isinstance(x, Fraction):
            return Fraction(math.floor(x))
        return z3.ToReal(z3.ToInt(x))

    def trunc(self, x):
        if isinstance(x, Fraction):
            return Fraction(math.trunc(x))
        return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))

    def round(self, x):
        if isinstance(x, Fraction):
            x = self.z(x)
        h = z3.RealVal('1/2')
        return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(-x + h)))

    def rint(self, x):
        if isinstance(x, Fraction):
            x = self.z(x)
        f = z3.ToInt(x)
        d = x - z3.ToReal(f)
        h = z3.RealVal('1/2')
        return z3.If(z3.Or(d < h, z3.And(d == h, f % 2 == 0)), z3.ToReal(f), z3.ToReal(f + 1))

    def abs(self, x):
        if isinstance(x, Fraction):
            return abs(x)
        return z3.If(x >= 0, x, -x)

    UNARY = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'exp2',
             'expm1', 'log', 'log2', 'log10', 'log1p', 'sqrt', 'cbrt', 'erf', 'erfc', 'exp10', 'tgamma', 'lgamma', 'logb'}
    BINARY = {'pow', 'atan2', 'hypot', 'nextafter'}

    def fn(self, name, *args):
        """uninterpreted libm function"""
        R = z3.RealSort()
        args = [self.z(a) for a in args]
        self.used.setdefault(name, []).append(args)
        return uf('m_' + name, *([R] * (len(args) + 1)))(*args)

    def call(self, name, args, ty):
        """libm / intrinsic with floating arguments; returns value or None if unknown"""
        n = name
        if n in self.UNARY or n in self.BINARY:
            a = [self.z(x) for x in args]
            if n == 'exp' and isinstance(args[0], Fraction) and args[0] == 0:
                return Fraction(1)
            if n == 'log' and isinstance(args[0], Fraction) and args[0] == 1:
                return Fraction(0)
            return self.fn(n, *args)
        if n == 'fabs':
            return self.abs(args[0])
        if n == 'floor':
            return self.floor(args[0])
        if n == 'ceil':
            return -self.floor(-args[0])
        if n == 'trunc':
            return self.trunc(args[0])
        if n == 'round':
            return self.round(args[0])
        if n in ('rint', 'nearbyint', 'roundeven'):
            return self.rint(args[0])
        if n in ('fma', 'fmuladd'):
            return self.bin('fadd', self.bin('fmul', args[0], args[1], ty), args[2], ty)
        if n in ('fmax', 'maxnum'):
            return self.ite(self.cmp('olt', args[0], args[1]), args[1], args[0])
        if n in ('fmin', 'minnum'):
            return self.ite(self.cmp('olt', args[1], args[0]), args[1], args[0])
        if n == 'fmod':
            a, b = map(self.z, args)
            return a - b * self.trunc(a / b)
        if n == 'remainder':
            a, b = map(self.z, args)
            return a - b * self.rint(a / b)
        if n == 'copysign':
            a, b = map(self.z, args)
            return self.ite(b >= 0, self.abs(a), -self.abs(a))
        return None


class FPDom:
    name = 'fp'
    S64 = z3.Float64()
    S32 = z3.Float32()
    RM = z3.RNE()

    def __init__(self):
        self.used = {}

    def sort_of(self, ty):
        return self.S64 if ty == ('double',) else self.S32

    def const(self, f, ty):
        return z3.FPVal(f, self.sort_of(ty))

    def z(self, a):
        return a

    def fresh(self, name, ty):
        return z3.FP(name, self.sort_of(ty))

    def bin(self, op, a, b, ty):
        if op == 'fadd':
            return z3.fpAdd(self.RM, a, b)
        if op == 'fsub':
            return z3.fpSub(self.RM, a, b)
        if op == 'fmul':
            return z3.fpMul(self.RM, a, b)
        if op == 'fdiv':
            return z3.fpDiv(self.RM, a, b)
        if op == 'frem':
            return uf('m_fmod', a.sort(), a.sort(), a.sort())(a, b)
        raise Undecided(op)

    def neg(self, a, ty):
        return z3.fpNeg(a)

    def cmp(self, p, a, b):
        k = p[1:]
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if p == 'ord':
            return z3.Not(un)
        if p == 'uno':
            return un
        r = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'gt': z3.fpGT, 'le': z3.fpLEQ, 'ge': z3.fpGEQ}[k](a, b)
        if p == 'une':
            return z3.Not(z3.fpEQ(a, b))
        if p == 'one':
            return z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
        if p[0] == 'u':
            return z3.Or(un, r)
        return r

    def eq(self, a, b):
        return a == b

    def from_int(self, v, w, signed):
        raise Undecided('from_int needs type')

    def from_int_t(self, v, w, signed, ty):
        if isinstance(v, int):
            if signed and v >= (1 << (w - 1)):
                v -= 1 << w
            return z3.FPVal(float(v) if ty == ('double',) else struct.unpack('f', struct.pack('f', float(v)))[0], self.sort_of(ty))
        if z3.is_bool(v):
            return z3.If(v, self.const(-1.0 if signed else 1.0, ty), self.const(0.0, ty))
        return uf('fp_of_%si%d_%s' % ('s' if signed else 'u', w, ty[0]), z3.BitVecSort(w), self.sort_of(ty))(v)

    def to_int(self, v, w, signed):
        return uf('%si%d_of_fp%d' % ('s' if signed else 'u', w, 64 if v.sort() == self.S64 else 32), v.sort(), z3.BitVecSort(w))(v)

    def cast(self, op, v, f, t):
        if f == t:
            return v
        return z3.fpFPToFP(self.RM, v, self.sort_of(t))

    def ite(self, c, a, b):
        if c is True or c is False:
            return a if c else b
        return z3.If(c, a, b)

    def fn(self, name, *args):
        self.used.setdefault(name, []).append(args)
        s = args[0].sort()
        return uf('m_%s_%d' % (name, s.sbits()), *([a.sort() for a in args] + [s]))(*args)

    def call(self, name, args, ty):
        if name == 'fabs':
            return z3.fpAbs(args[0])
        if name == 'fma':
            return z3.fpFMA(self.RM, *args)
        if name == 'sqrt':
            return z3.fpSqrt(self.RM, args[0])
        if name in RealDom.UNARY or name in RealDom.BINARY or name in (
                'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'fmod', 'remainder', 'copysign', 'fmax', 'fmin',
                'maxnum', 'minnum', 'fmuladd'):
            name = {'maxnum': 'fmax', 'minnum': 'fmin'}.get(name, name)
            if name == 'fmax' or name == 'fmin':
                a, b = args
                an, bn = z3.fpIsNaN(a), z3.fpIsNaN(b)
                lt = z3.fpLT(a, b) if name == 'fmax' else z3.fpLT(b, a)
                return z3.If(an, b, z3.If(bn, a, z3.If(lt, b, a)))
            if name == 'fmuladd':
                return self.bin('fadd', self.bin('fmul', args[0], args[1], ty), args[2], ty)
            return self.fn(name, *args)
        return None


class AbsDom:
    name = 'abs'

    def __init__(self):
        self.S = z3.DeclareSort('Scalar')
        self.used = {}

    def sort_of(self, ty):
        return self.S

    def const(self, f, ty):
        return z3.Const('k_%r' % float(f), self.S)

    def z(self, a):
        return a

    def fresh(self, name, ty):
        return z3.Const(name, self.S)

    def bin(self, op, a, b, ty):
        S = self.S
        return uf('s_' + op, S, S, S)(a, b)

    def neg(self, a, ty):
        return uf('s_neg', self.S, self.S)(a)

    def cmp(self, p, a, b):
        if p == 'une':
            return a != b
        if p == 'oeq':
            return a == b
        return uf('s_' + p, self.S, self.S, z3.BoolSort())(a, b)

    def eq(self, a, b):
        return a == b

    def from_int(self, v, w, signed):
        if isinstance(v, int):
            return self.const(float(v), None)
        return uf('s_of_%si%d' % ('s' if signed else 'u', w), z3.BitVecSort(w), self.S)(v)

    def to_int(self, v, w, signed):
        return uf('%si%d_of_s' % ('s' if signed else 'u', w), self.S, z3.BitVecSort(w))(v)

    def cast(self, op, v, f, t):
        return v

    def ite(self, c, a, b):
        if c is True or c is False:
            return a if c else b
        return z3.If(c, a, b)

    def fn(self, name, *args):
        return uf('m_' + name, *([self.S] * (len(args) + 1)))(*args)

    def call(self, name, args, ty):
        if name in RealDom.UNARY or name in RealDom.BINARY or name in ('fma', 'floor', 'ceil', 'fabs', 'fmod', 'trunc', 'round',
                                                                      'copysign', 'fmax', 'fmin', 'remainder'):
            return self.fn(name, *args)
        return None
