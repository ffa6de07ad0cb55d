"""Obligation discharge over the reals: libm contracts (axioms), purification, back ends, numeric refutation."""
import math, random, time
from fractions import Fraction
import mpmath
from mpmath import mp, mpf
import z3
from .dom import uf, Undecided
from . import ratz

mp.dps = 40
R = z3.RealSort()

# ---- mathematical constants the code may spell as rounded literals
KCONST = {
    'K_pi': mpmath.pi, 'K_ln2': mpmath.log(2), 'K_ln10': mpmath.log(10),
    'K_invln2': 1 / mpmath.log(2), 'K_invln10': 1 / mpmath.log(10),
    'K_2_sqrtpi': 2 / mpmath.sqrt(mpmath.pi), 'K_180_pi': 180 / mpmath.pi, 'K_pi_180': mpmath.pi / 180,
    'K_pi_2': mpmath.pi / 2, 'K_pi_4': mpmath.pi / 4, 'K_2pi': 2 * mpmath.pi, 'K_e': mpmath.e,
    'K_sqrtpi': mpmath.sqrt(mpmath.pi), 'K_1_sqrtpi': 1 / mpmath.sqrt(mpmath.pi), 'K_log10e': None,
}
KCONST.pop('K_log10e')
KCONST = {k: +v for k, v in KCONST.items()}
KRAT = [Fraction(1, 3), Fraction(2, 3), Fraction(4, 3), Fraction(1, 6), Fraction(1, 9), Fraction(5, 3), Fraction(1, 180)]


def kz(name):
    return z3.Real(name)


def snap(f, is_float):
    """a literal that is the rounding of a well known constant denotes that constant"""
    a = abs(f)
    if a == 0 or a == int(a):
        return None
    n = Fraction(a).numerator
    if (n // (n & -n)).bit_length() <= (14 if is_float else 26):
        return None        # a short binary fraction denotes itself
    tol = 1.3e-7 if is_float else 2.3e-16
    for k, v in KCONST.items():
        if abs(a - float(v)) <= tol * float(v):
            return kz(k) if f > 0 else -kz(k)
    for q in KRAT:
        if abs(a - float(q)) <= tol * float(q):
            return q if f > 0 else -q
    return None


def kaxioms():
    K = {k: kz(k) for k in KCONST}
    out = []
    for k, v in KCONST.items():
        lo = Fraction(int(mpmath.floor(v * 10**17)), 10**17)
        out += [K[k] > z3.RealVal(str(lo)), K[k] < z3.RealVal(str(lo + Fraction(1, 10**17)))]
    out += [K['K_ln2'] * K['K_invln2'] == 1, K['K_ln10'] * K['K_invln10'] == 1,
            K['K_180_pi'] * K['K_pi'] == 180, K['K_pi_180'] * 180 == K['K_pi'], K['K_pi_2'] * 2 == K['K_pi'],
            K['K_pi_4'] * 4 == K['K_pi'], K['K_2pi'] == 2 * K['K_pi'], K['K_sqrtpi'] * K['K_sqrtpi'] == K['K_pi'],
            K['K_2_sqrtpi'] * K['K_sqrtpi'] == 2, K['K_1_sqrtpi'] * K['K_sqrtpi'] == 1]
    return out


def consts_of(es):
    seen = set()
    out = {}
    st = list(es)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[e.decl().name()] = e
        st.extend(e.children())
    return out


def apps_of(es):
    """all uninterpreted function applications"""
    seen = set()
    out = []
    st = list(es)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        if z3.is_app(e):
            st.extend(e.children())
    return out


def m(name, *args):
    return uf('m_' + name, *([R] * (len(args) + 1)))(*args)


def axioms(es, rounds=1):
    """instances of the libm contracts for the applications that occur in es"""
    ax = []
    cs = consts_of(es)
    K = {k: kz(k) for k in KCONST}
    done = set()
    usek = any(n.startswith('K_') for n in cs)
    cur = list(es)
    p2s = []
    for _ in range(rounds + 1):
        new = []
        apps = [a for a in apps_of(cur) if a.get_id() not in done]
        if not apps:
            break
        pows = {}
        for a in apps:
            done.add(a.get_id())
            n = a.decl().name()
            if not n.startswith('m_'):
                if n == 'pow2':
                    t = a.arg(0)
                    new += [a > 0, z3.Implies(t == 0, a == 1)]
                    for b in p2s:
                        new += [z3.Implies(z3.And(t + b.arg(0) == 0, t != z3.BitVecVal(1 << 31, 32)), a * b == 1), z3.Implies(t == b.arg(0), a == b)]
                    p2s.append(a)
                elif n.startswith('frexp_exp'):
                    new += [a >= -1100, a <= 1100]
                continue
            n = n[2:]
            t = a.arg(0)
            if n in ('sin', 'cos', 'tan'):
                s, c = m('sin', t), m('cos', t)
                new.append(s * s + c * c == 1)
                if n == 'tan':
                    new.append(z3.Implies(c != 0, a * c == s))
            elif n in ('sinh', 'cosh', 'tanh'):
                s, c = m('sinh', t), m('cosh', t)
                new += [c * c - s * s == 1, c >= 1]
                if n == 'tanh':
                    new += [a * c == s, a < 1, a > -1]
                new.append(z3.Implies(t > 0, s > 0))
                new.append(z3.Implies(t < 0, s < 0))
                new.append(z3.Implies(t == 0, s == 0))
            elif n == 'exp':
                new += [a > 0, z3.Implies(t == 0, a == 1)]
            elif n == 'expm1':
                e = m('exp', t)
                new += [a == e - 1, e > 0]
            elif n == 'exp2':
                new += [a > 0, a == m('exp', t * K['K_ln2'])]
                usek = True
            elif n == 'log':
                new += [z3.Implies(t == 1, a == 0), z3.Implies(t > 1, a > 0)]
                if z3.is_rational_value(t):
                    if t.as_fraction() == 2:
                        new.append(a == K['K_ln2'])
                        usek = True
                    if t.as_fraction() == 10:
                        new.append(a == K['K_ln10'])
                        usek = True
            elif n == 'log2':
                new += [a * K['K_ln2'] == m('log', t)]
                usek = True
            elif n == 'log10':
                new += [a * K['K_ln10'] == m('log', t)]
                usek = True
            elif n == 'log1p':
                new += [a == m('log', 1 + t)]
            elif n == 'sqrt':
                new += [z3.Implies(t >= 0, z3.And(a * a == t, a >= 0)), z3.Implies(t > 0, a > 0)]
            elif n == 'cbrt':
                new += [a * a * a == t, z3.Implies(t > 0, a > 0), z3.Implies(t < 0, a < 0)]
            elif n == 'hypot':
                u = a.arg(1)
                new += [a >= 0, a * a == t * t + u * u]
                new.append(z3.Implies(z3.Or(t != 0, u != 0), a > 0))
            elif n == 'pow':
                new += [z3.Implies(a.arg(1) == 0, a == 1), z3.Implies(a.arg(1) == 1, a == t),
                        z3.Implies(a.arg(1) == 2, a == t * t), z3.Implies(t > 0, a > 0),
                        z3.Implies(z3.And(t == 0, a.arg(1) > 0), a == 0)]
                new.append(z3.Implies(t != 0, m('pow', t, a.arg(1) - 1) * t == a))
            elif n == 'erfc':
                new += [a == 1 - m('erf', t)]
        new = [x for x in new]
        ax += new
        cur = new
    if usek or any(n.startswith('K_') for n in consts_of(ax)):
        ax += kaxioms()
    # same function, arguments equal up to ring normalisation
    byname = {}
    for a in apps_of(list(es) + ax):
        byname.setdefault(a.decl(), []).append(a)
    for d, l in byname.items():
        if len(l) > 1 and len(l) <= 10:
            for i in range(len(l)):
                for j in range(i):
                    ps = [(x, y) for x, y in zip(l[i].children(), l[j].children()) if not x.eq(y)]
                    if all(x.sort() == R and z3.is_true(z3.simplify(x == y, som=True)) for x, y in ps):
                        ax.append(l[i] == l[j])
    return ax


def purify(es):
    """replace uninterpreted applications by fresh variables (+ congruence); return list"""
    memo = {}
    table = {}
    cong = []

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_app(e) and e.num_args() > 0:
            ch = [go(c) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                key = (e.decl(), tuple(c.get_id() for c in ch))
                if key not in table:
                    v = z3.FreshConst(e.sort(), 'p')
                    for (d, _), (v2, ch2) in table.items():
                        if d.eq(e.decl()):
                            cong.append(z3.Implies(z3.And([a == b for a, b in zip(ch, ch2)]), v == v2))
                    table[key] = (v, ch)
                r = table[key][0]
            else:
                r = e.decl()(*ch) if not (z3.is_and(e) or z3.is_or(e)) else (z3.And(ch) if z3.is_and(e) else z3.Or(ch))
                if z3.is_add(e) or z3.is_mul(e):
                    r = ch[0]
                    for c in ch[1:]:
                        r = r + c if z3.is_add(e) else r * c
        else:
            r = e
        memo[i] = (e, r)
        return r
    out = [go(e) for e in es]
    return out + cong


# ---------------------------------------------------------------- numeric evaluation
class EvalError(Exception):
    pass


def _sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def mpfn(n, *a):
    """reference semantics of libm functions on the reals (nan where undefined)"""
    nan = mpf('nan')
    try:
        if any(mpmath.isnan(x) for x in a):
            if n == 'pow' and a[1] == 0:
                return mpf(1)
            return nan
        x = a[0]
        if n in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asinh', 'atan', 'exp', 'erf', 'erfc', 'expm1'):
            return getattr(mpmath, n)(x)
        if n in ('asin', 'acos'):
            return getattr(mpmath, n)(x) if abs(x) <= 1 else nan
        if n == 'acosh':
            return mpmath.acosh(x) if x >= 1 else nan
        if n == 'atanh':
            return mpmath.atanh(x) if abs(x) < 1 else (nan if abs(x) > 1 else mpf('inf') * x)
        if n == 'exp2':
            return mpf(2) ** x
        if n == 'exp10':
            return mpf(10) ** x
        if n in ('log', 'log2', 'log10', 'log1p'):
            y = x + 1 if n == 'log1p' else x
            if y < 0:
                return nan
            if y == 0:
                return mpf('-inf')
            l = mpmath.log(y)
            return l / mpmath.log(2) if n == 'log2' else (l / mpmath.log(10) if n == 'log10' else l)
        if n == 'sqrt':
            return mpmath.sqrt(x) if x >= 0 else nan
        if n == 'cbrt':
            return mpmath.cbrt(x) if x >= 0 else -mpmath.cbrt(-x)
        if n == 'pow':
            y = a[1]
            if y == 0 or x == 1:
                return mpf(1)
            if x == 0:
                return mpf(0) if y > 0 else mpf('inf')
            if x < 0:
                if y != int(y):
                    return nan
                r = (-x) ** y
                return r if int(y) % 2 == 0 else -r
            return x ** y
        if n == 'hypot':
            return mpmath.sqrt(x * x + a[1] * a[1])
        if n == 'atan2':
            return mpmath.atan2(x, a[1])
        if n == 'nextafter':
            return mpf(math.nextafter(float(x), float(a[1])))
        if n == 'tgamma':
            return mpmath.gamma(x)
        if n == 'lgamma':
            return mpmath.log(abs(mpmath.gamma(x)))
        if n == 'logb':
            return mpf(mpmath.frexp(x)[1] - 1)
        if n == 'rint':
            return mpf(mpmath.nint(x))
    except (ValueError, ZeroDivisionError, OverflowError, TypeError):
        return nan
    raise EvalError(n)


class Numeric:
    def __init__(self, env):
        self.env = env
        self.memo = {}

    def ev(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = (self._ev(e), e)
            self.memo[i] = r
        return r[0]

    def _ev(self, e):
        if z3.is_rational_value(e):
            return mpf(e.numerator_as_long()) / e.denominator_as_long()
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_bv_value(e):
            return e.as_long()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.decl().kind()
        n = e.decl().name()
        if e.num_args() == 0:
            if n in KCONST:
                return KCONST[n]
            if n in self.env:
                return self.env[n]
            if n == 'nan_const':
                return mpf('nan')
            if n == 'inf_const':
                return mpf('inf')
            if n == 'ninf_const':
                return mpf('-inf')
            raise EvalError('free ' + n)
        if k == z3.Z3_OP_ITE:
            return self.ev(e.arg(1)) if self.ev(e.arg(0)) else self.ev(e.arg(2))
        if k == z3.Z3_OP_AND:
            return all(self.ev(c) for c in e.children())
        if k == z3.Z3_OP_OR:
            return any(self.ev(c) for c in e.children())
        if k == z3.Z3_OP_NOT:
            return not self.ev(e.arg(0))
        if k == z3.Z3_OP_IMPLIES:
            return (not self.ev(e.arg(0))) or self.ev(e.arg(1))
        a = [self.ev(c) for c in e.children()]
        if k == z3.Z3_OP_XOR:
            return a[0] != a[1]
        if k == z3.Z3_OP_ADD:
            return sum(a[1:], a[0])
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_DIV:
            if a[1] == 0:
                return mpf('nan') if a[0] == 0 else mpf('inf') * (1 if a[0] > 0 else -1)
            return a[0] / a[1]
        if k == z3.Z3_OP_TO_REAL:
            return mpf(a[0])
        if k == z3.Z3_OP_TO_INT:
            if not mpmath.isfinite(a[0]):
                raise EvalError('toint')
            return int(mpmath.floor(a[0]))
        if k == z3.Z3_OP_IDIV:
            return a[0] // a[1]
        if k == z3.Z3_OP_MOD:
            return a[0] % a[1]
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        if k == z3.Z3_OP_EQ:
            return bool(a[0] == a[1])
        if k == z3.Z3_OP_DISTINCT:
            return bool(a[0] != a[1])
        if k == z3.Z3_OP_LE:
            return bool(a[0] <= a[1])
        if k == z3.Z3_OP_LT:
            return bool(a[0] < a[1])
        if k == z3.Z3_OP_GE:
            return bool(a[0] >= a[1])
        if k == z3.Z3_OP_GT:
            return bool(a[0] > a[1])
        if e.num_args() and z3.is_bv(e.arg(0)):
            w = e.arg(0).size()
            M = (1 << w) - 1
            if k == z3.Z3_OP_BADD:
                return sum(a) & M
            if k == z3.Z3_OP_BSUB:
                return (a[0] - a[1]) & M
            if k == z3.Z3_OP_BMUL:
                r = 1
                for x in a:
                    r = r * x & M
                return r
            if k == z3.Z3_OP_BNEG:
                return -a[0] & M
            if k == z3.Z3_OP_BNOT:
                return ~a[0] & M
            if k == z3.Z3_OP_BAND:
                r = M
                for x in a:
                    r &= x
                return r
            if k == z3.Z3_OP_BOR:
                r = 0
                for x in a:
                    r |= x
                return r
            if k == z3.Z3_OP_BXOR:
                r = 0
                for x in a:
                    r ^= x
                return r
            if k == z3.Z3_OP_BSHL:
                return (a[0] << a[1]) & M if a[1] < w else 0
            if k == z3.Z3_OP_BLSHR:
                return a[0] >> a[1] if a[1] < w else 0
            if k == z3.Z3_OP_BASHR:
                return (_sg(a[0], w) >> min(a[1], w - 1)) & M
            if k == z3.Z3_OP_ULEQ:
                return a[0] <= a[1]
            if k == z3.Z3_OP_ULT:
                return a[0] < a[1]
            if k == z3.Z3_OP_UGEQ:
                return a[0] >= a[1]
            if k == z3.Z3_OP_UGT:
                return a[0] > a[1]
            if k == z3.Z3_OP_SLEQ:
                return _sg(a[0], w) <= _sg(a[1], w)
            if k == z3.Z3_OP_SLT:
                return _sg(a[0], w) < _sg(a[1], w)
            if k == z3.Z3_OP_SGEQ:
                return _sg(a[0], w) >= _sg(a[1], w)
            if k == z3.Z3_OP_SGT:
                return _sg(a[0], w) > _sg(a[1], w)
            if k == z3.Z3_OP_EXTRACT:
                hi, lo = e.params()
                return (a[0] >> lo) & ((1 << (hi - lo + 1)) - 1)
            if k == z3.Z3_OP_ZERO_EXT:
                return a[0]
            if k == z3.Z3_OP_SIGN_EXT:
                return _sg(a[0], w) & ((1 << e.size()) - 1)
            if k == z3.Z3_OP_CONCAT:
                r = 0
                for x, c in zip(a, e.children()):
                    r = (r << c.size()) | x
                return r
            if k == z3.Z3_OP_BV2INT or n in ('ubv_to_int', 'bv2nat'):
                return a[0]
            if n == 'sbv_to_int':
                return _sg(a[0], w)
        if k == z3.Z3_OP_UNINTERPRETED:
            if n.startswith('m_'):
                return mpfn(n[2:], *a)
            if n.startswith('real_of_s'):
                return mpf(_sg(a[0], int(n[10:])))
            if n.startswith('real_of_u'):
                return mpf(a[0])
            if n == 'pow2':
                return mpf(2) ** _sg(a[0], 32)
            if n == 'remquo_quo':
                q = int(mpmath.nint(a[0] / a[1]))
                s = -1 if q < 0 else 1
                return (s * (abs(q) & 7)) & 0xffffffff
            if n == 'frexp_exp_Real':
                if a[0] == 0:
                    return 0
                return mpmath.frexp(a[0])[1] & 0xffffffff
            mm = __import__('re').match(r'([su])i(\d+)_of_real$', n)
            if mm:
                if not mpmath.isfinite(a[0]):
                    raise EvalError(n)
                return int(a[0]) & ((1 << int(mm.group(2))) - 1)
            if n in ('isnan_Real', '__isnan_Real', 'isinf_Real', '__isinf_Real'):
                return 0
        raise EvalError('eval %s' % n)


def close(a, b, tol):
    if mpmath.isnan(a) or mpmath.isnan(b):
        return False
    if mpmath.isinf(a) or mpmath.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


# ---------------------------------------------------------------- discharge
def z3check(es, timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout))
    for e in es:
        s.add(e)
    r = s.check()
    return r, (s.model() if r == z3.sat else None)


def ring_zero(goal):
    """equality of two ring expressions by normalisation"""
    if z3.is_eq(goal) and goal.arg(0).sort() == R:
        d = z3.simplify(goal.arg(0) - goal.arg(1), som=True, hoist_mul=False)
        return z3.is_rational_value(d) and d.as_fraction() == 0
    return False


_nz = {}


def nonzero(base, den, timeout):
    k = (den.get_id(), tuple(p.get_id() for p in base))
    if k not in _nz:
        r = None
        us = ratz.squares(den)
        if us and len(us) > 1:
            eqs = [a for a in axioms(base + [den]) + base if z3.is_eq(a) and a.arg(0).sort() == R]
            if eqs and ratz.inconsistent(eqs, us):
                r = z3.unsat
        if r is None:
            r, _ = z3check(base + [den == 0], min(timeout, 1000))
        if r != z3.unsat:
            r, _ = z3check(base + axioms(base + [den]) + [den == 0], min(timeout, 3000))
        _nz[k] = (r == z3.unsat, den, base)
    return _nz[k][0]


def rational(base, goal, timeout):
    """goal follows as an identity of rational functions, possibly modulo equations that hold"""
    if not (z3.is_eq(goal) and goal.arg(0).sort() == R):
        return False
    eqs = [p for p in base if z3.is_eq(p)]
    dens = ratz.rational_identity([], goal, 4, False)
    if dens is None:
        try:
            eqs += [a for a in axioms(base + [goal]) if z3.is_eq(a)]
        except z3.Z3Exception:
            return False
        if not eqs:
            return False
        dens = ratz.rational_identity(eqs, goal, 6)
    if dens is None:
        return False
    for d in {x.get_id(): x for x in dens}.values():
        s = z3.simplify(d)
        if z3.is_rational_value(s):
            if s.as_fraction() == 0:
                return False
            continue
        if not nonzero(base, d, timeout):
            return False
    return True


def prove(pc, goal, timeout=6000, extra=()):
    """-> (status, backend, model)   status: proved / unknown / sat"""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'proved', 'z3-simplify', None
    if ring_zero(goal):
        return 'proved', 'z3-ring', None
    base = list(pc) + list(extra)
    goal = ratz.resolve_ifs(base, goal)
    if rational(base, goal, timeout):
        return 'proved', 'sympy-ring/groebner', None
    neg = z3.Not(goal)
    # 1. plain, without axioms
    r, md = z3check(base + [neg], min(1500, timeout))
    if r == z3.unsat:
        return 'proved', 'z3', None
    ax = axioms(base + [goal])
    if ax or r == z3.unknown:
        r2, md2 = z3check(base + ax + [neg], timeout // 2)
        if r2 == z3.unsat:
            return 'proved', 'z3+libm-contracts', None
        if r2 == z3.sat:
            md = md2
        try:
            pur = purify(base + ax + [neg])
            # drop pi bounds that need 17 digits
            t = z3.TryFor(z3.Then('simplify', 'purify-arith', 'solve-eqs', 'qfnra-nlsat'), int(timeout))
            s = t.solver()
            for e in pur:
                s.add(e)
            r3 = s.check()
            if r3 == z3.unsat:
                return 'proved', 'z3-nlsat+libm-contracts', None
            if r3 == z3.sat:
                md = s.model()
        except z3.Z3Exception:
            pass
        if r2 == z3.sat:
            return 'sat', 'z3+libm-contracts', md2
        return ('sat' if md is not None else 'unknown'), 'z3', md
    return 'sat', 'z3', md


def model_env(md, consts):
    env = {}
    if md is None:
        return env
    for n, c in consts.items():
        try:
            v = md.eval(c, model_completion=True)
            if z3.is_rational_value(v):
                env[n] = mpf(v.numerator_as_long()) / v.denominator_as_long()
            elif z3.is_algebraic_value(v):
                a = v.approx(20)
                env[n] = mpf(a.numerator_as_long()) / a.denominator_as_long()
            elif z3.is_bv_value(v):
                env[n] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                env[n] = z3.is_true(v)
            elif z3.is_int_value(v):
                env[n] = v.as_long()
        except z3.Z3Exception:
            pass
    return env


BASE = ['0.3', '-0.7', '1.5', '2.25', '-3.2', '0.001', '-0.05', '12.5', '-40.75', '0.875', '7', '-7', '2', '1', '-1', '0', '0.5', '-0.5', '3', '1000.25', '-2000.5', '1e-6', '35', '1e5']
IBASE = [0, 1, 2, 3, 5, 7, 10, -1, -2, -3, -8, 31, 32, 40, -35, 100, 70000, 1 << 20, (1 << 31) - 1, -(1 << 31), 127, 255]


def fl(x):
    """round to a double so that the point can be replayed"""
    try:
        return mpf(float(x))
    except OverflowError:
        return mpf(0)


def sample_env(consts, rng, k, seeds):
    env = {}
    base = rng.choice(seeds) if seeds and rng.random() < 0.5 else {}
    for n, c in sorted(consts.items()):
        if n in KCONST or n in ('nan_const', 'inf_const', 'ninf_const'):
            continue
        s = c.sort()
        if n in base and rng.random() < 0.7:
            v = base[n]
            if s == R:
                u = rng.random()
                if u < 0.5:
                    v = v + mpf(rng.uniform(-1, 1)) * max(abs(v), 1) * mpf(10) ** rng.randint(-9, 0)
                v = fl(v)
            env[n] = v
        elif s == R:
            u = rng.random()
            if u < 0.45:
                env[n] = mpf(rng.choice(BASE))
                env[n] = fl(env[n])
            elif u < 0.8:
                env[n] = mpf(round(rng.uniform(-4, 4), 3))
                env[n] = fl(env[n])
            else:
                env[n] = fl(mpf(rng.choice([-1, 1])) * mpf(10) ** rng.uniform(-5, 4))
        elif z3.is_bv_sort(s):
            w = s.size()
            env[n] = (rng.choice(IBASE) if rng.random() < 0.8 else rng.getrandbits(w)) & ((1 << w) - 1)
        elif s == z3.BoolSort():
            env[n] = rng.random() < 0.5
        elif s == z3.IntSort():
            env[n] = rng.choice(IBASE)
        else:
            raise EvalError('sort')
    return env


def goal_holds(nm, goal, tol):
    """numeric truth of goal; equalities over reals up to tol"""
    if z3.is_and(goal):
        return all(goal_holds(nm, c, tol) for c in goal.children())
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
        return (not nm.ev(goal.arg(0))) or goal_holds(nm, goal.arg(1), tol)
    if z3.is_eq(goal) and goal.arg(0).sort() == R:
        return close(nm.ev(goal.arg(0)), nm.ev(goal.arg(1)), tol)
    return bool(nm.ev(goal))


def refute(pc, goal, rng, seeds=(), n=300, tol=mpf('1e-9'), want=3):
    """search a concrete point of the real formula where goal fails; returns (list of envs, number of points tested)"""
    consts = consts_of(list(pc) + [goal])
    bad = []
    tested = 0
    seeds = [s for s in seeds if s]
    # points from models of the path condition (exact rational values), purified from libm
    try:
        ppc = purify(list(pc) + axioms(pc))
        s = z3.Solver()
        s.set('timeout', 800)
        for e in ppc:
            s.add(e)
        for _ in range(3):
            if s.check() != z3.sat:
                break
            md = s.model()
            e = model_env(md, consts)
            if e:
                seeds.append(e)
            bl = [c != md.eval(c, model_completion=True) for nn, c in consts.items() if nn in e and c.sort() == R]
            if not bl:
                break
            s.add(z3.Or(bl))
    except z3.Z3Exception:
        pass
    tries = [dict(s) for s in seeds]
    i = 0
    t0 = time.time()
    while i < n and len(bad) < want and time.time() - t0 < 6:
        i += 1
        if tries:
            b = tries.pop()
            env = sample_env(consts, rng, i, [])
            env.update({k: (fl(v) if isinstance(v, mpf) else v) for k, v in b.items()})
        else:
            env = sample_env(consts, rng, i, seeds)
        nm = Numeric(env)
        try:
            if not all(nm.ev(c) for c in pc):
                continue
            tested += 1
            if not goal_holds(nm, goal, tol):
                bad.append(env)
        except (EvalError, OverflowError, ZeroDivisionError, TypeError, ValueError):
            continue
    return bad, tested
