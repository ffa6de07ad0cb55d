"""Rational function back end: an equation between rational terms holds where all its denominators are non-zero when the
cross-multiplied difference is zero as a polynomial, or lies in the ideal generated by polynomial equations that hold."""
import signal
import z3
from sympy.polys.rings import ring
from sympy.polys.domains import QQ
from sympy.polys.groebnertools import groebner
from sympy.polys.orderings import grevlex

K_ADD, K_SUB, K_MUL, K_DIV, K_NEG, K_POW, K_ITE = z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER, z3.Z3_OP_ITE
ARITH = (K_ADD, K_SUB, K_MUL, K_DIV, K_NEG)


class Give(Exception):
    pass


def ites(e):
    out, seen = [], set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == K_ITE:
            out.append(x)
        st += x.children()
    return out


def resolve_ifs(pc, goal, quick=300):
    """replace conditionals whose condition is decided by the path condition"""
    for _ in range(20):
        subs = []
        its = ites(goal)
        for x in its:
            c = x.arg(0)
            d = None
            for p in pc:
                if p.eq(c):
                    d = True
                elif z3.is_not(p) and p.arg(0).eq(c):
                    d = False
            if d is None and len(its) <= 6:
                for want in (True, False):
                    s = z3.Solver()
                    s.set('timeout', quick)
                    s.add(*[p for p in pc])
                    s.add(z3.Not(c) if want else c)
                    if s.check() == z3.unsat:
                        d = want
                        break
            if d is not None:
                subs.append((x, x.arg(1) if d else x.arg(2)))
        if not subs:
            return goal
        goal = z3.substitute(goal, *subs)
    return goal


class Conv:
    def __init__(self, es):
        self.atoms = {}
        self.keep = []
        for e in es:
            self._scan(e)
        if not self.atoms:
            self.atoms[-1] = 0
        names = ['v%d' % i for i in range(len(self.atoms))]
        r = ring(names, QQ, grevlex)
        self.R, self.gens = r[0], r[1:]
        self.dens = []      # z3 divisors
        self.cache = {}

    def _scan(self, e):
        st = [e]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            self.keep.append(x)
            if z3.is_rational_value(x):
                continue
            k = x.decl().kind()
            if k in ARITH:
                st += x.children()
            elif k == K_POW and z3.is_rational_value(x.arg(1)) and x.arg(1).as_fraction().denominator == 1 and x.arg(1).as_fraction() > 0:
                st.append(x.arg(0))
            else:
                self.atoms.setdefault(x.get_id(), len(self.atoms))

    # a value is (numerator, {denominator factor: exponent})
    def conv(self, e):
        i = e.get_id()
        if i not in self.cache:
            self.cache[i] = self._conv(e)
            if len(self.cache[i][0]) > 60000:
                raise Give('size')
        return self.cache[i]

    def _conv(self, e):
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return self.R.ground_new(QQ(f.numerator, f.denominator)), {}
        k = e.decl().kind()
        if e.get_id() in self.atoms:
            return self.gens[self.atoms[e.get_id()]], {}
        if k == K_NEG:
            n, d = self.conv(e.arg(0))
            return -n, d
        if k in (K_ADD, K_SUB):
            n, d = self.conv(e.arg(0))
            for c in e.children()[1:]:
                n2, d2 = self.conv(c)
                n, d = self.add(n, d, -n2 if k == K_SUB else n2, d2)
            return n, d
        if k == K_MUL:
            n, d = self.conv(e.arg(0))
            for c in e.children()[1:]:
                n2, d2 = self.conv(c)
                n, d = self.mul(n, d, n2, d2)
            return n, d
        if k == K_DIV:
            n, d = self.conv(e.arg(0))
            n2, d2 = self.conv(e.arg(1))
            if not n2:
                raise Give('division by zero')
            self.dens.append(e.arg(1))
            dd = {}
            inv = self.R.one
            for f, x in d2.items():
                inv = inv * f ** x
            if n2.is_ground:
                return self.mul(n.quo_ground(n2.LC), d, inv, {})
            return self.mul(n, d, inv, {n2: 1})
        if k == K_POW:
            n, d = self.conv(e.arg(0))
            x = e.arg(1).as_fraction().numerator
            return n ** x, {f: y * x for f, y in d.items()}
        raise Give('kind')

    def mul(self, n, d, n2, d2):
        dd = dict(d)
        for f, x in d2.items():
            dd[f] = dd.get(f, 0) + x
        return n * n2, dd

    def add(self, n, d, n2, d2):
        if d == d2:
            return n + n2, d
        l = dict(d)
        for f, x in d2.items():
            l[f] = max(l.get(f, 0), x)
        for f, x in l.items():
            a, b = x - d.get(f, 0), x - d2.get(f, 0)
            if a:
                n = n * f ** a
            if b:
                n2 = n2 * f ** b
        return n + n2, l


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def rational_identity(eqs, goal, secs=20, use=True):
    """goal: a == b over the reals.  -> list of divisors that must be non-zero, or None when the identity is not established"""
    if not (z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort()):
        return None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        c = Conv([goal.arg(0), goal.arg(1)])
        n, d = c.conv(goal.arg(0))
        n2, d2 = c.conv(goal.arg(1))
        z, _ = c.add(n, d, -n2, d2)
        if not z:
            return c.dens
        if not use:
            return None
        # equations over the same atoms
        ats = set(c.atoms)
        good = []
        for e in eqs:
            if z3.is_eq(e) and e.arg(0).sort() == z3.RealSort():
                cc = Conv([e.arg(0), e.arg(1)])
                if set(cc.atoms) - {-1} <= ats:
                    good.append(e)
        if not good:
            return None
        ps = []
        for e in good:
            a, da = c.conv(e.arg(0))
            b, db = c.conv(e.arg(1))
            p, _ = c.add(a, da, -b, db)
            if p:
                ps.append(p)
        if not ps:
            return None
        # cheap first: plain multivariate division
        if not z.rem(ps):
            return c.dens
        G = groebner(ps, c.R)
        if not z.rem(G):
            return c.dens
        return None
    except (Timeout, Give, MemoryError, RecursionError):
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def squares(den):
    """den == sum of squares u_i*u_i (syntactically) -> [u_i], else None"""
    def sq(e):
        if z3.is_mul(e):
            cs = e.children()
            if len(cs) == 2 and cs[0].eq(cs[1]):
                return cs[0]
        if e.decl().kind() == K_POW and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() == 2:
            return e.arg(0)
        return None
    cs = den.children() if z3.is_add(den) else [den]
    us = [sq(x) for x in cs]
    return us if all(u is not None for u in us) else None


def inconsistent(eqs, zeros, secs=5):
    """the equations together with `zeros == 0` have no complex solution (1 is in the ideal)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        ats = set(Conv(zeros).atoms)
        good = []
        for e in eqs:
            if set(Conv([e.arg(0), e.arg(1)]).atoms) - {-1} <= ats:
                good.append(e)
        c = Conv(zeros)
        ps = []
        for e in zeros:
            n, _ = c.conv(e)
            ps.append(n)
        for e in good:
            a, da = c.conv(e.arg(0))
            b, db = c.conv(e.arg(1))
            if da or db:
                continue
            ps.append(a - b)
        if c.dens:
            return False
        G = groebner([p for p in ps if p], c.R)
        return any(p.is_ground for p in G)
    except (Timeout, Give, MemoryError, RecursionError):
        return False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
