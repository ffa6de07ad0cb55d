"""C16: complex numbers with active parts.

Every complex function is specified through its real and imaginary part as real functions of the real and imaginary parts of
its operands; the partials of a holomorphic f with f' = p + iq are (p, -q) for the real and (q, p) for the imaginary part.
Composite functions (powers, hyperbolic functions and inverses) are verified against the contracts of exp, log, sqrt, sinh,
cosh and tanh on complex numbers, each of which is verified on its own body.
"""
import re
from fractions import Fraction
import z3, mpmath
from mpmath import mpf
from . import ax, exprlayer as el, ratz, sym, tapemodel as tm
from .ax import m, kz
from .exprlayer import Fn, Drv, PTYPES, RV
from .dom import uf, Undecided

R = z3.RealSort()


# ------------------------------------------------------------------ complex terms
def isv(x, v):
    return z3.is_rational_value(x) and x.as_fraction() == v


def ad(a, b):
    return b if isv(a, 0) else a if isv(b, 0) else a + b


def ng(a):
    return z3.simplify(-a) if z3.is_rational_value(a) else -a


def mu(a, b):
    if isv(a, 0) or isv(b, 0):
        return RV(0)
    return b if isv(a, 1) else a if isv(b, 1) else a * b


class Z:
    def __init__(self, re, im=0):
        self.re = RV(re) if isinstance(re, (int, float)) else re
        self.im = RV(im) if isinstance(im, (int, float)) else im

    def __add__(self, o):
        o = zc(o)
        return Z(ad(self.re, o.re), ad(self.im, o.im))

    def __sub__(self, o):
        o = zc(o)
        return Z(ad(self.re, ng(o.re)), ad(self.im, ng(o.im)))

    def __neg__(self):
        return Z(ng(self.re), ng(self.im))

    def __mul__(self, o):
        o = zc(o)
        return Z(ad(mu(self.re, o.re), ng(mu(self.im, o.im))), ad(mu(self.re, o.im), mu(self.im, o.re)))

    def __truediv__(self, o):
        o = zc(o)
        if isv(o.im, 0):
            if isv(o.re, 1):
                return self
            return Z(self.re if isv(self.re, 0) else self.re / o.re, self.im if isv(self.im, 0) else self.im / o.re)
        d = o.re * o.re + o.im * o.im
        n = self * Z(o.re, ng(o.im))
        return Z(n.re / d, n.im / d)

    def n2(self):
        return self.re * self.re + self.im * self.im


def zc(o):
    return o if isinstance(o, Z) else Z(o)


I = Z(0, 1)
ONE = Z(1)


def g(name, z):
    """value of a complex function given by its contract (real and imaginary part are uninterpreted)"""
    return Z(m('c%s_re' % name, z.re, z.im), m('c%s_im' % name, z.re, z.im))


def zexp(z):
    return Z(m('exp', z.re) * m('cos', z.im), m('exp', z.re) * m('sin', z.im))


def zlog(z):
    return Z(m('log', m('hypot', z.re, z.im)), m('atan2', z.im, z.re))


def zsqrt(z):
    r = m('sqrt', m('hypot', z.re, z.im))
    t = m('atan2', z.im, z.re) * RV('1/2')
    return Z(r * m('cos', t), r * m('sin', t))


def dsqrt(z):
    """derivative of the principal root in polar form: exp(-i theta / 2) / (2 sqrt r)"""
    r = m('sqrt', m('hypot', z.re, z.im))
    t = m('atan2', z.im, z.re) * RV('1/2')
    return Z(m('cos', t) / (2 * r), -m('sin', t) / (2 * r))


def zsinh(z):
    return Z(m('sinh', z.re) * m('cos', z.im), m('cosh', z.re) * m('sin', z.im))


def zcosh(z):
    return Z(m('cosh', z.re) * m('cos', z.im), m('sinh', z.re) * m('sin', z.im))


GH = ['exp', 'log', 'sqrt', 'sinh', 'cosh', 'tanh', 'asinh', 'atanh']


def _mp(name):
    def f(a, b):
        w = getattr(mpmath, name)(mpmath.mpc(a, b))
        return w
    return f


_old_mpfn = ax.mpfn


def mpfn(n, *a):
    mm = re.match(r'c(%s)_(re|im)$' % '|'.join(GH), n)
    if mm:
        if any(not mpmath.isfinite(x) for x in a):
            return mpf('nan')
        try:
            w = _mp(mm.group(1))(*a)
        except (ValueError, ZeroDivisionError, OverflowError):
            return mpf('nan')
        return w.real if mm.group(2) == 're' else w.imag
    return _old_mpfn(n, *a)


ax.mpfn = mpfn


# ------------------------------------------------------------------ domains
def nocut(z):
    """not on the closed negative real axis"""
    return z3.Or(z.im != 0, z.re > 0)


def nz(z):
    return z3.Or(z.re != 0, z.im != 0)


def unitcut(z):
    return z3.Or(z.im != 0, z3.And(z.re > -1, z.re < 1))


def imcut(z):
    return z3.Or(z.re != 0, z3.And(z.im > -1, z.im < 1))


# ------------------------------------------------------------------ axioms for the ghost functions
_old_axioms = ax.axioms


def axioms(es, rounds=1):
    out = _old_axioms(es, rounds)
    apps = ax.apps_of(list(es) + out)
    seen = set()
    by = {}
    exps, logs = [], []
    for a in apps:
        n = a.decl().name()
        mm = re.match(r'm_c(%s)_(re|im)$' % '|'.join(GH), n)
        if mm:
            z = Z(a.arg(0), a.arg(1))
            k = (mm.group(1), z.re.get_id(), z.im.get_id())
            if k in seen:
                continue
            seen.add(k)
            w = g(mm.group(1), z)
            if mm.group(1) == 'sqrt':
                q = w * w
                out += [q.re == z.re, q.im == z.im, w.re >= 0, z3.Implies(nocut(z), w.re > 0)]
            elif mm.group(1) == 'exp':
                out += [w.n2() > 0]
                for y, v in exps:
                    if ax.ring_zero(y.re == -z.re) and ax.ring_zero(y.im == -z.im):
                        q = w * v
                        out += [q.re == 1, q.im == 0]
                exps.append((z, w))
            elif mm.group(1) == 'log':
                for y, v in logs:       # log(1/w) = -log w off the negative axis
                    q = z * y
                    out.append(z3.Implies(z3.And(q.re == 1, q.im == 0, nocut(z)), z3.And(w.re == -v.re, w.im == -v.im)))
                logs.append((z, w))
            elif mm.group(1) in ('sinh', 'cosh'):
                s, c = g('sinh', z), g('cosh', z)
                e = c * c - s * s
                out += [e.re == 1, e.im == 0]
        elif n in ('m_cos', 'm_sin', 'm_exp', 'm_sinh', 'm_cosh'):
            by.setdefault(n[2:], []).append(a)
        if n in ('m_cos', 'm_sin') and isv(a.arg(0), 0):
            out.append(a == (1 if n == 'm_cos' else 0))
        if n in ('m_cos', 'm_sin') and z3.is_mul(a.arg(0)):
            t = a.arg(0)
            u = [c for c in t.children() if not z3.is_rational_value(c)]
            q = [c for c in t.children() if z3.is_rational_value(c)]
            if len(u) == 1 and len(q) == 1 and isv(q[0], Fraction(1, 2)) and u[0].decl().name() == 'm_atan2':
                y, x = u[0].arg(0), u[0].arg(1)
                h, c, s_ = m('hypot', x, y), m('cos', t), m('sin', t)
                out += [x == h * (c * c - s_ * s_), y == h * (2 * s_ * c)]      # polar form, half angle
        if n in ('m_sinh', 'm_cosh'):
            t = a.arg(0)
            e1, e2 = m('exp', t), m('exp', -t)
            out += [e1 * e2 == 1, e1 > 0, m('sinh', t) * 2 == e1 - e2, m('cosh', t) * 2 == e1 + e2]
            by.setdefault('exp', []).extend([e1, e2])
    for n, l in by.items():
        l = list({x.get_id(): x for x in l}.values())
        if len(l) > 8:
            continue
        for i in range(len(l)):
            for j in range(i):
                a, b = l[i], l[j]
                if ax.ring_zero(a.arg(0) == -b.arg(0)):
                    out.append({'cos': a == b, 'cosh': a == b, 'sin': a == -b, 'sinh': a == -b, 'exp': a * b == 1}[n])
                elif ax.ring_zero(a.arg(0) == b.arg(0)):
                    out.append(a == b)
    return out


ax.axioms = axioms

# ------------------------------------------------------------------ helpers and contracts (C++ side)
HELP = r'''
template <class X> std::complex<X> mk(const X& a, const X& b) { return std::complex<X>(a, b); }
template <class X, class Y> auto mk(const X& a, const Y& b) -> std::complex<decltype(xad_cm(a, b))> { return std::complex<decltype(xad_cm(a, b))>(a, b); }
template <class X> X re(const std::complex<X>& z) { return z.real(); }
template <class X> X im(const std::complex<X>& z) { return z.imag(); }
template <class Z, class Y> Z c_add(Z z, const Y& y) { z += y; return z; }
template <class Z, class Y> Z c_sub(Z z, const Y& y) { z -= y; return z; }
template <class Z, class Y> Z c_mul(Z z, const Y& y) { z *= y; return z; }
template <class Z, class Y> Z c_div(Z z, const Y& y) { z /= y; return z; }
template <class Z, class Y> Z c_set(Z z, const Y& y) { z = y; return z; }
template <class Z> Z s_add(Z z) { z += z; return z; }
template <class Z> Z s_sub(Z z) { z -= z; return z; }
template <class Z> Z s_mul(Z z) { z *= z; return z; }
template <class Z> Z s_div(Z z) { z /= z; return z; }
template <class Z> Z s_set(Z z) { Z& y = z; z = y; return z; }
template <class Z> Z r_add(Z z) { z += z.real(); return z; }
template <class Z> Z r_sub(Z z) { z -= z.real(); return z; }
template <class Z> Z r_mul(Z z) { z *= z.real(); return z; }
template <class Z> Z r_div(Z z) { z /= z.real(); return z; }
template <class Z> Z r_set(Z z) { z = z.real(); return z; }
template <class Z> Z i_add(Z z) { z += z.imag(); return z; }
template <class Z> Z i_sub(Z z) { z -= z.imag(); return z; }
template <class Z> Z i_mul(Z z) { z *= z.imag(); return z; }
template <class Z> Z i_div(Z z) { z /= z.imag(); return z; }
template <class Z> Z i_set(Z z) { z = z.imag(); return z; }
template <class Z> Z swp(Z z) { Z w(z); w.real(z.imag()); w.imag(z.real()); return w; }
template <class Z> Z parts(Z z) { Z w; w.real() = z.imag(); w.imag() = z.real(); return w; }
'''
HELP = HELP.replace('''template <class X, class Y> auto mk(const X& a, const Y& b) -> std::complex<decltype(xad_cm(a, b))> { return std::complex<decltype(xad_cm(a, b))>(a, b); }\n''', '')

# exact statement of a contract: value (u, v) and derivative p + iq of the result with respect to the operand, nothing else
STUB = r'''
template <class X, class T>
void c_lin(std::complex<X>* out, const std::complex<X>& z, T u, T v, T p, T q)
{
    T a = xad::value(z.real()), b = xad::value(z.imag());
    new (out) std::complex<X>(X(u + (p * (z.real() - a) - q * (z.imag() - b))), X(v + (q * (z.real() - a) + p * (z.imag() - b))));
}
#define CREF(NM, T) \
  extern "C" __attribute__((noinline)) T g_##NM##_re_##T(T a, T b) { return std::real(std::NM(std::complex<T>(a, b))); } \
  extern "C" __attribute__((noinline)) T g_##NM##_im_##T(T a, T b) { return std::imag(std::NM(std::complex<T>(a, b))); } \
  extern "C" __attribute__((noinline)) T g_d##NM##_re_##T(T a, T b) { return a; } \
  extern "C" __attribute__((noinline)) T g_d##NM##_im_##T(T a, T b) { return b; } \
  extern "C" void S_##NM##_F_##T(std::complex<xad::FReal<T>>* o, const std::complex<xad::FReal<T>>* z) { \
    T a = xad::value(z->real()), b = xad::value(z->imag()); \
    c_lin<xad::FReal<T>, T>(o, *z, g_##NM##_re_##T(a, b), g_##NM##_im_##T(a, b), g_d##NM##_re_##T(a, b), g_d##NM##_im_##T(a, b)); } \
  extern "C" void S_##NM##_A_##T(std::complex<xad::AReal<T>>* o, const std::complex<xad::AReal<T>>* z) { \
    T a = xad::value(z->real()), b = xad::value(z->imag()); \
    c_lin<xad::AReal<T>, T>(o, *z, g_##NM##_re_##T(a, b), g_##NM##_im_##T(a, b), g_d##NM##_re_##T(a, b), g_d##NM##_im_##T(a, b)); }
'''


def stubs(T):
    return ''.join('CREF(%s, %s)\n' % (n, T) for n in GH)


# value and derivative stated by the contract of each function: ghost names or elementary terms
def contract_terms(name, style, z):
    if style == 'ghost':
        w = g(name, z)
        if name == 'exp':
            return w, w
        if name == 'log':
            return w, ONE / z
        if name == 'sqrt':
            return w, ONE / (w + w)
        if name == 'sinh':
            return w, g('cosh', z)
        if name == 'cosh':
            return w, g('sinh', z)
    if name == 'sinh':
        return zsinh(z), zcosh(z)
    if name == 'cosh':
        return zcosh(z), zsinh(z)
    if name == 'tanh':
        c = zcosh(z)
        return zsinh(z) / c, ONE / (c * c)
    if name == 'asinh':
        return g('asinh', z), ONE / g('sqrt', ONE + z * z)
    if name == 'atanh':
        return g('atanh', z), ONE / (ONE - z * z)
    raise KeyError(name)


def contracts_for(names, style='ghost'):
    """redirect calls of std::NAME(complex<active>) to their contract"""
    out = []
    for nm in names:
        def redirect(ex, st, d, a, x, nm=nm):
            mode = 'A' if 'AReal' in d else 'F'
            T = 'float' if '<float>' in d else 'double'
            outs = ex.call_function(st, '@S_%s_%s_%s' % (nm, mode, T), list(a))
            return outs
        out.append((r'^(?:std::complex<xad::[AF]Real<(?:double|float)> ?> )?(?:std::%s<(?:double|float)>|xad::detail::%s_impl<xad::[AF]Real<(?:double|float)> ?>)\(std::complex<xad::[AF]Real<(?:double|float)> ?> const&\)$' % (nm, nm), redirect))

        def ghost(ex, st, d, a, x, nm=nm, style=style):
            mm = re.match(r'g_(d?)%s_(re|im)_' % nm, d)
            z = Z(ex.dom.z(a[0]), ex.dom.z(a[1]))
            w, dw = contract_terms(nm, style, z)
            t = dw if mm.group(1) else w
            return t.re if mm.group(2) == 're' else t.im
        out.append((r'^g_d?%s_(re|im)_(double|float)$' % nm, ghost))
    return out


# ------------------------------------------------------------------ function table
RT = '1/2'
SP = ['0', '1', '-1', '0.5', '-0.5', '2', '-2', '0.3', '-0.7', '1.5', '-1.25', '3', '0.0625', '-3', '0.1']


def steer(e, d, rng):
    small = rng.random() < 0.35
    for n in list(e):
        if n[0] == 'p' and isinstance(e[n], int):
            e[n] = rng.randint(-6, 6) % (1 << 32)
        if n[0] in 'xp' and isinstance(e[n], mpf):
            e[n] = mpf(rng.choice(SP)) if small or rng.random() < 0.15 else mpf(round(rng.uniform(-3, 3), 4))


class CFn(Fn):
    def __init__(self, name, expr, dom, ders, n, val, uses=(), style='ghost', aux='', cond=None):
        Fn.__init__(self, name, expr, dom, ders, n, val=val, aux=aux)
        self.uses, self.style, self.cond = uses, style, cond
        self.steer = steer


def holo(name, expr, dom, val, der, uses=(), style='ghost', aux=''):
    """f(z) holomorphic: two Fn (real and imaginary part)"""
    def Zs(a):
        return Z(a[0], a[1])
    ex = lambda *a: a[2:]
    v = lambda *a: val(Zs(a), *ex(*a))
    p = lambda *a: der(Zs(a), *ex(*a))
    dm = lambda *a: dom(Zs(a), *ex(*a))
    return [CFn(name + '_re', 're(%s)' % expr, dm, [lambda *a: p(*a).re, lambda *a: -p(*a).im], 2, lambda *a: v(*a).re, uses, style, aux),
            CFn(name + '_im', 'im(%s)' % expr, dm, [lambda *a: p(*a).im, lambda *a: p(*a).re], 2, lambda *a: v(*a).im, uses, style, aux)]


def reals(name, expr, dom, vals, ders, n=2, uses=(), style='ghost'):
    """complex valued function of n real arguments given by both parts: vals(a..) -> Z, ders[i](a..) -> Z (partial wrt argument i)"""
    return [CFn(name + '_re', 're(%s)' % expr, dom, [(lambda *a, i=i: ders[i](*a).re) for i in range(n)], n, lambda *a: vals(*a).re, uses, style),
            CFn(name + '_im', 'im(%s)' % expr, dom, [(lambda *a, i=i: ders[i](*a).im) for i in range(n)], n, lambda *a: vals(*a).im, uses, style)]


def real1(name, expr, dom, val, ders, n=2, uses=(), style='ghost'):
    return [CFn(name, expr, dom, ders, n, val, uses, style)]


T_ = lambda *a: True
MZ = 'mk({0},{1})'

UN = []
UN += real1('norm', 'norm(%s)' % MZ, T_, lambda a, b: a * a + b * b, [lambda a, b: 2 * a, lambda a, b: 2 * b])
UN += real1('cabs', 'abs(%s)' % MZ, lambda a, b: nz(Z(a, b)), lambda a, b: m('hypot', a, b), [lambda a, b: a / m('hypot', a, b), lambda a, b: b / m('hypot', a, b)])
UN += real1('arg', 'arg(%s)' % MZ, lambda a, b: nocut(Z(a, b)), lambda a, b: m('atan2', b, a),
            [lambda a, b: -b / (a * a + b * b), lambda a, b: a / (a * a + b * b)])
UN += real1('preal', 'real(%s)' % MZ, T_, lambda a, b: a, [lambda a, b: RV(1), lambda a, b: RV(0)])
UN += real1('pimag', 'imag(%s)' % MZ, T_, lambda a, b: b, [lambda a, b: RV(0), lambda a, b: RV(1)])
UN += reals('conj', 'conj(%s)' % MZ, T_, lambda a, b: Z(a, -b), [lambda a, b: Z(1), lambda a, b: Z(0, -1)])
UN += reals('swp', 'swp(%s)' % MZ, T_, lambda a, b: Z(b, a), [lambda a, b: Z(0, 1), lambda a, b: Z(1)])
UN += reals('parts', 'parts(%s)' % MZ, T_, lambda a, b: Z(b, a), [lambda a, b: Z(0, 1), lambda a, b: Z(1)])
UN += holo('proj', 'proj(%s)' % MZ, T_, lambda z: z, lambda z: ONE)
UN += holo('uplus', '(+(%s))' % MZ, T_, lambda z: z, lambda z: ONE)
UN += holo('uminus', '(-(%s))' % MZ, T_, lambda z: -z, lambda z: -ONE)
UN += holo('cexp', 'exp(%s)' % MZ, T_, zexp, zexp)
UN += holo('clog', 'log(%s)' % MZ, nz, zlog, lambda z: ONE / z)
UN += holo('clog10', 'log10(%s)' % MZ, nz, lambda z: zlog(z) * Z(kz('K_invln10')), lambda z: Z(kz('K_invln10')) / z)
UN += holo('csqrt', 'sqrt(%s)' % MZ, nz, zsqrt, dsqrt)
UN += holo('csinh', 'sinh(%s)' % MZ, T_, zsinh, zcosh)
UN += holo('ccosh', 'cosh(%s)' % MZ, T_, zcosh, zsinh)
EP = lambda z: g('exp', z * Z(2))
EM = lambda z: g('exp', z * Z(-2))


def zif(c, a, b):
    return Z(z3.If(c, a.re, b.re), z3.If(c, a.im, b.im))


UN += holo('ctanh', 'tanh(%s)' % MZ, lambda z: z3.And(nz(EP(z) + ONE), nz(EM(z) + ONE)),
           lambda z: zif(z.re > 0, (ONE - EM(z)) / (ONE + EM(z)), (EP(z) - ONE) / (EP(z) + ONE)),
           lambda z: zif(z.re > 0, Z(4) * EM(z) / ((ONE + EM(z)) * (ONE + EM(z))), Z(4) * EP(z) / ((ONE + EP(z)) * (ONE + EP(z)))), uses=('exp',))
UN += holo('csin', 'sin(%s)' % MZ, T_, lambda z: Z(m('sin', z.re) * m('cosh', z.im), m('cos', z.re) * m('sinh', z.im)),
           lambda z: Z(m('cos', z.re) * m('cosh', z.im), -m('sin', z.re) * m('sinh', z.im)), uses=('sinh',), style='elem')
UN += holo('ccos', 'cos(%s)' % MZ, T_, lambda z: Z(m('cos', z.re) * m('cosh', z.im), -m('sin', z.re) * m('sinh', z.im)),
           lambda z: -Z(m('sin', z.re) * m('cosh', z.im), m('cos', z.re) * m('sinh', z.im)), uses=('cosh',), style='elem')


def zcos(z):
    return Z(m('cos', z.re) * m('cosh', z.im), -m('sin', z.re) * m('sinh', z.im))


def zsin(z):
    return Z(m('sin', z.re) * m('cosh', z.im), m('cos', z.re) * m('sinh', z.im))


UN += holo('ctan', 'tan(%s)' % MZ, lambda z: nz(zcos(z)), lambda z: zsin(z) / zcos(z), lambda z: ONE / (zcos(z) * zcos(z)), uses=('tanh',), style='elem')
SQ = lambda z: g('sqrt', z)
LN = lambda z: g('log', z)
UN += holo('casinh', 'asinh(%s)' % MZ, imcut, lambda z: LN(z + SQ(ONE + z * z)), lambda z: ONE / SQ(ONE + z * z), uses=('log', 'sqrt'))
UN += holo('cacosh', 'acosh(%s)' % MZ, lambda z: z3.Or(z.im != 0, z.re > 1), lambda z: LN(z + SQ(z + ONE) * SQ(z - ONE)),
           lambda z: ONE / (SQ(z + ONE) * SQ(z - ONE)), uses=('log', 'sqrt'))
UN += holo('catanh', 'atanh(%s)' % MZ, unitcut, lambda z: (LN(ONE + z) - LN(ONE - z)) * Z(RV(RT)), lambda z: ONE / (ONE - z * z), uses=('log', 'sqrt'))
UN += holo('casin', 'asin(%s)' % MZ, unitcut, lambda z: Z(0, -1) * g('asinh', I * z), lambda z: ONE / SQ(ONE + (I * z) * (I * z)), uses=('asinh',))
UN += holo('cacos', 'acos(%s)' % MZ, unitcut, lambda z: Z(kz('K_pi_2')) + I * g('asinh', I * z), lambda z: -ONE / SQ(ONE + (I * z) * (I * z)), uses=('asinh',))
UN += holo('catan', 'atan(%s)' % MZ, imcut, lambda z: Z(0, -1) * g('atanh', I * z), lambda z: ONE / (ONE + z * z), uses=('atanh',))

# functions of one real (active) number
RE1 = []
RE1 += real1('norm_r', 'norm({0})', T_, lambda a: a * a, [lambda a: 2 * a], 1)
RE1 += real1('arg_r', 'arg({0})', lambda a: a != 0, lambda a: z3.If(a > 0, RV(0), kz('K_pi')), [lambda a: RV(0)], 1)
RE1 += real1('real_r', 'real({0})', T_, lambda a: a, [lambda a: RV(1)], 1)
RE1 += real1('imag_r', 'imag({0})', T_, lambda a: RV(0), [lambda a: RV(0)], 1)
RE1 += reals('conj_r', 'conj({0})', T_, lambda a: Z(a), [lambda a: Z(1)], 1)
RE1 += reals('proj_r', 'proj({0})', T_, lambda a: Z(a), [lambda a: Z(1)], 1)
RE1 += reals('polar1', 'polar({0})', T_, lambda a: Z(a), [lambda a: Z(1)], 1)
RE1 += reals('ctor_r', 'ctor({0})', T_, lambda a: Z(a), [lambda a: Z(1)], 1)

POLAR = reals('polar', 'polar({0}, {1})', T_, lambda r, t: Z(r * m('cos', t), r * m('sin', t)),
              [lambda r, t: Z(m('cos', t), m('sin', t)), lambda r, t: Z(-r * m('sin', t), r * m('cos', t))])

# ---- binary: operand shapes.  C active complex, P plain complex, r active real, e expression, d plain real
SH = {'C': ('mk({%d},{%d})', 2, 'aa'), 'P': ('mk({%d},{%d})', 2, 'DD'), 'r': ('{%d}', 1, 'a'), 'e': ('{%d}', 1, 'e'), 'd': ('{%d}', 1, 'D'), 'i': ('{%d}', 1, 'I')}


def shape(s):
    """(expr of operand k.., kinds, list of Z builders)"""
    ex, kinds, zs = [], [], []
    i = 0
    for c in s:
        t, n, k = SH[c]
        ex.append(t % tuple(range(i, i + n)))
        kinds += list(k)
        zs.append((i, n))
        i += n
    return ex, kinds, zs


def zargs(zs, a):
    return [Z(a[i], a[i + 1]) if n == 2 else Z(a[i]) for i, n in zs]


def binop(name, tmpl, s, dom, val, dx, dy, uses=(), style='ghost'):
    """two Fn for f(x, y) holomorphic in both; operands of shapes s"""
    ex, kinds, zs = shape(s)
    n = len(kinds)
    ders = []
    for w, (i, k) in enumerate(zs):
        df = dx if w == 0 else dy
        ders.append(lambda *a, df=df: df(*zargs(zs, a)))
        if k == 2:
            ders.append(lambda *a, df=df: df(*zargs(zs, a)) * I)
    v = lambda *a: val(*zargs(zs, a))
    dm = lambda *a: dom(*zargs(zs, a))
    expr = tmpl % tuple(ex)
    nm = '%s_%s' % (name, s)
    fs = [CFn(nm + '_re', 're(%s)' % expr, dm, [(lambda *a, d=d: d(*a).re) for d in ders], n, lambda *a: v(*a).re, uses, style),
          CFn(nm + '_im', 'im(%s)' % expr, dm, [(lambda *a, d=d: d(*a).im) for d in ders], n, lambda *a: v(*a).im, uses, style)]
    return [(f, kinds) for f in fs]


OPS = [('add', '+', lambda x, y: True, lambda x, y: x + y, lambda x, y: ONE, lambda x, y: ONE),
       ('sub', '-', lambda x, y: True, lambda x, y: x - y, lambda x, y: ONE, lambda x, y: -ONE),
       ('mul', '*', lambda x, y: True, lambda x, y: x * y, lambda x, y: y, lambda x, y: x),
       ('div', '/', lambda x, y: nz(y), lambda x, y: x / y, lambda x, y: ONE / y, lambda x, y: -(x / (y * y)))]
SHAPES = ['CC', 'CP', 'PC', 'Cr', 'rC', 'Ce', 'eC', 'Cd', 'dC', 'Pr', 'rP', 'Pe', 'eP']
ASHAPES = ['CC', 'CP', 'Cr', 'Ce', 'Cd']


def zpow(x, y):
    return g('exp', LN(x) * y)


POWSH = ['CC', 'CP', 'PC', 'Cr', 'rC', 'Ce', 'eC', 'Cd', 'dC', 'Ci', 'iC']


def pows():
    out = []
    for s in POWSH:
        dom = lambda x, y: nz(x)
        out += binop('cpow', 'pow(%s, %s)', s, dom, zpow, lambda x, y: zpow(x, y) * y / x, lambda x, y: zpow(x, y) * LN(x), uses=('exp', 'log'))
    return out


# ---- aliased compound assignment on one complex number
def alias():
    out = []
    ops = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'div': lambda x, y: x / y}
    K2 = ['a', 'a']
    for o, f in ops.items():
        vz = {'s': lambda a, b: Z(a, b), 'r': lambda a, b: Z(a), 'i': lambda a, b: Z(b)}
        dz = {'s': (ONE, I), 'r': (ONE, Z(0)), 'i': (Z(0), ONE)}
        for k in 'sri':
            def val(a, b, k=k, f=f):
                return f(Z(a, b), vz[k](a, b))

            def der(i, k=k, o=o):
                def d(a, b):
                    x, y = Z(a, b), vz[k](a, b)
                    dx, dy = (ONE, I)[i], dz[k][i]
                    if o == 'add':
                        return dx + dy
                    if o == 'sub':
                        return dx - dy
                    if o == 'mul':
                        return dx * y + x * dy
                    return (dx * y - x * dy) / (y * y)
                return d
            dom = (lambda a, b, k=k: nz(vz[k](a, b))) if o == 'div' else T_
            for f2 in reals('%s_%s' % (k, o), '%s_%s(%s)' % (k, o, MZ), dom, val, [der(0), der(1)]):
                out.append((f2, K2))
    for f2 in reals('s_set', 's_set(%s)' % MZ, T_, lambda a, b: Z(a, b), [lambda a, b: ONE, lambda a, b: I]):
        out.append((f2, K2))
    for f2 in reals('r_set', 'r_set(%s)' % MZ, T_, lambda a, b: Z(a), [lambda a, b: ONE, lambda a, b: Z(0)]):
        out.append((f2, K2))
    for f2 in reals('i_set', 'i_set(%s)' % MZ, T_, lambda a, b: Z(b), [lambda a, b: Z(0), lambda a, b: ONE]):
        out.append((f2, K2))
    return out


def comparisons():
    out = []
    for op, neg in (('==', False), ('!=', True)):
        for s in ['CC', 'Cr', 'Cd', 'eC', 'dC', 'rC', 'Ce']:
            ex, kinds, zs = shape(s)

            def val(*a, zs=zs, neg=neg):
                x, y = zargs(zs, a)
                e = z3.And(x.re == y.re, x.im == y.im)
                return z3.If(e, RV(0 if neg else 1), RV(1 if neg else 0))
            f = CFn('%s_%s' % ('ne' if neg else 'eq', s), 'T((%s) %s (%s))' % (ex[0], op, ex[1]), T_, [lambda *a: RV(0)] * len(kinds), len(kinds), val)
            out.append((f, kinds))
    return out


def all_drivers(thorough=False):
    drvs = []
    D = lambda f, k, T: drvs.append(Drv(f, T, list(k)))
    for T in ('double', 'float'):
        for f in UN:
            D(f, 'aa', T)
        for f in RE1:
            D(f, 'a', T)
            if T == 'double' and not f.name.startswith('polar1'):
                D(f, 'e', T)
        for f in POLAR:
            for k in (['aa', 'ae', 'ea', 'aD', 'Da', 'eD', 'De'] if T == 'double' else ['aa', 'aF', 'Fa']):
                D(f, k, T)
        for o in OPS:
            nm, op = o[0], o[1]
            for s in SHAPES if T == 'double' else ['CC', 'CP', 'Cr', 'rC']:
                for f, k in binop('c' + nm, '(%s) ' + op.replace('%', '%%') + ' (%s)', s, *o[2:]):
                    D(f, k if T == 'double' else ['F' if q == 'D' else q for q in k], T)
            for s in ASHAPES:
                if T == 'double' or s in ('CC', 'Cr'):
                    for f, k in binop('a' + nm, 'c_%s(%%s, %%s)' % nm, s, *o[2:]):
                        D(f, k if T == 'double' else ['F' if q == 'D' else q for q in k], T)
        for s in ASHAPES:
            if T == 'double':
                for f, k in binop('aset', 'c_set(%s, %s)', s, lambda x, y: True, lambda x, y: y, lambda x, y: Z(0), lambda x, y: ONE):
                    D(f, k, T)
        for f, k in alias():
            D(f, k, T)
        if T == 'double':
            for f, k in pows() + comparisons():
                D(f, k, T)
    return drvs


# ------------------------------------------------------------------ slot allocation through its contract (C09 verifies the bodies)
def _tape_of(ex, a):
    tp = getattr(ex, 'tp', None)
    return tp if tp is not None and isinstance(a[0], sym.Ptr) and a[0].reg is tp.reg else None


def reg_contract(ex, st, d, a, x):
    tp = _tape_of(ex, a)
    if tp is None:
        return NotImplemented
    f = lambda n: sym.bvz(tp.recf(st, n), 32)
    w = lambda n, v: ex.store(st, sym.Ptr(tp.rec, tp.o('rec_' + n)), sym.lower(sym.simp(v)), tm.I32)
    i, mx = f('ider'), f('maxd')
    w('num', f('num') + 1)
    w('ider', i + 1)
    w('maxd', z3.If(z3.ULT(mx, i + 1), i + 1, mx))
    return sym.lower(i)


def unreg_contract(ex, st, d, a, x):
    tp = _tape_of(ex, a)
    if tp is None:
        return NotImplemented
    i = sym.bvz(tp.recf(st, 'ider'), 32)
    s = sym.bvz(a[1], 32)
    off = sym.lower(sym.simp(s - tp.recv['ider']))
    if not isinstance(off, int) or off >= 1 << 20:     # only variables created by this driver (slots of the current recording)
        return NotImplemented
    w = lambda n, v: ex.store(st, sym.Ptr(tp.rec, tp.o('rec_' + n)), sym.lower(sym.simp(v)), tm.I32)
    w('num', sym.bvz(tp.recf(st, 'num'), 32) - 1)
    w('ider', z3.If(s == i - 1, i - 1, i))
    return None


def libc_contract(ex, st, d, a, x):
    """complex functions of the C library: their mathematical definition"""
    w = g(d[1:], Z(ex.dom.z(a[0]), ex.dom.z(a[1])))
    ex.assumed.add('libm:' + d)
    return (w.re, w.im)


SLOTS = [(r'^c(exp|log|sqrt|sinh|cosh|tanh|asinh|atanh)$', libc_contract),
         (r'^xad::Tape<(double|float)>::registerVariable\(\)$', reg_contract),
         (r'^xad::Tape<(double|float)>::unregisterVariable\(unsigned int\)$', unreg_contract)]

# ------------------------------------------------------------------ task
def value_native(ctx, nat, d, n):
    """values of the real code against the definition (bounded supplement)"""
    xs = {i: z3.Real('x%d' % i) for i in d.vars}
    ps = {i: el.passive_sym(k, i, d.T)[1] for i, k in enumerate(d.kinds) if i not in d.act}
    ops = d.operand_terms(xs, ps)
    vt = d.fn.val(*ops)
    dm = d.fn.dom(*ops)
    dm = z3.BoolVal(dm) if isinstance(dm, bool) else dm
    fails, cnt = [], 0
    for env in el.native_points(d, ctx.rng, n):
        env = el.rounded_env(d, env)
        if any(isinstance(v, int) and 64 < v < (1 << 32) - 64 for v in env.values()):
            continue        # huge integer exponents are ill conditioned
        for i in d.vars:
            env.setdefault('d%d' % i, mpf(1))
        nm = ax.Numeric(env)
        try:
            if not nm.ev(dm):
                continue
            r = nm.ev(vt)
        except (ax.EvalError, OverflowError, ValueError, ZeroDivisionError, TypeError):
            continue
        if not mpmath.isfinite(r) or abs(r) > mpf('1e30' if d.T == 'double' else '1e15'):
            continue
        cnt += 1
        for mode, v in (('forward', nat.forward(d, env)[0]), ('adjoint', nat.adjoint(d, env)[0])):
            if not abs(mpf(v) - r) <= el.ntol(d) * max(abs(r), mpf('1e-3'), mpf(1) if d.T == 'float' else 0):
                fails.append(dict(failure='%s value of %s at %s: got %r, expected %s' % (mode, d.id, el.show(env), v, mpmath.nstr(r, 12)), driver=d.id))
    ctx.native(d.id + ' value', cnt, fails, 'random operands: values against 40 digit complex references')


class Memo:
    """passes everything to the context; an obligation proved from its domain assumption alone is not proved again on every path"""

    def __init__(self, ctx):
        self.__dict__['ctx'] = ctx
        self.__dict__['done'] = {}
        self.__dict__['tried'] = {}

    def __getattr__(self, k):
        return getattr(self.ctx, k)

    def prove(self, name, pc, goal, *a, **kw):
        k = goal.get_id()
        hit = self.done.get(k)
        if hit is not None and any(c.eq(hit[1]) for c in pc if z3.is_expr(c)):
            r = dict(hit[2])
            r.update(name=name, secs=0)
            self.ctx.results.append(r)
            return True
        dm = pc[-1]
        if k not in self.tried:
            self.tried[k] = goal
            be = None
            if z3.is_true(z3.simplify(goal)):
                be = 'z3-simplify'
            elif ax.ring_zero(goal):
                be = 'z3-ring'
            elif not ratz.ites(goal):
                if ax.rational([dm], goal, 1000):
                    be = 'sympy-ring/groebner'
                elif ax.z3check([dm, z3.Not(goal)], 400)[0] == z3.unsat:
                    be = 'z3'
            if be:
                r = dict(name=name, fn=a[0] if a else '', status='proved', backend=be, detail='', secs=0)
                self.ctx.results.append(r)
                self.done[k] = (goal, dm, r)
                return True
        return self.ctx.prove(name, pc, goal, *a, **kw)


def task(ctx, mod, nat, d, n):
    d.contracts = SLOTS + contracts_for(d.fn.uses, d.fn.style)
    el.derivative_task(Memo(ctx), mod, nat, d, n, value_spec=d.fn.val)
    if nat:
        value_native(ctx, nat, d, n)
        if d.fn.name.startswith('cpow_Ci'):
            pow_zero(ctx, nat, d)


def pow_zero(ctx, nat, d):
    """integer powers of zero: polynomials, differentiable everywhere"""
    fails, cnt = [], 0
    re_ = d.fn.name.endswith('_re')
    for n in range(4):
        env = {'x0': mpf(0), 'x1': mpf(0), 'd0': mpf(1), 'd1': mpf(0), 'p2': n}
        want = (1.0 if re_ and n == 0 else 0.0, 1.0 if re_ and n == 1 else 0.0)
        got = nat.forward(d, env)[:2]
        cnt += 1
        if not all(a == b for a, b in zip(got, want)):
            fails.append(dict(failure='pow(complex zero, %d) %s: value and tangent %r, expected %r' % (n, 'real part' if re_ else 'imaginary part', got, want), driver=d.id))
    ctx.native(d.id + ' zero base', cnt, fails, 'integer powers at zero')


CTOR = 'template <class X> auto ctor(const X& x) -> std::complex<typename xad::ExprTraits<X>::value_type> { return std::complex<typename xad::ExprTraits<X>::value_type>(x); }\n'
CPRE = '\n'.join([HELP, CTOR, STUB, stubs('double'), stubs('float')])
USING = "\nusing std::conj; using std::norm; using std::proj; using std::polar; using std::arg; using std::real; using std::imag;\n"
PRE = el.PRE + USING + CPRE


def setup(chk, nquick=45, nthorough=400, ngroups=8, only=None):
    from concurrent.futures import ThreadPoolExecutor
    drvs = all_drivers(chk.thorough)
    if only:
        drvs = [d for d in drvs if re.search(only, d.id)]
    ngroups = min(ngroups, len(drvs))
    groups = [drvs[i::ngroups] for i in range(ngroups)]
    with ThreadPoolExecutor(ngroups) as tp:
        lls = list(tp.map(lambda q: el.build_drivers(chk, 'c16_%d' % q[0], q[1], 'FAN', pre=PRE), enumerate(groups)))
    mods, nats = el.load_all(chk, lls)
    for gq, mod, nat in zip(groups, mods, nats):
        for d in gq:
            chk.task(d.id, task, mod, nat, d, nthorough if chk.thorough else nquick)
