"""C17: smoothed abs, max and min."""
import ctypes
import z3
from fractions import Fraction
from mpmath import mpf
from vc import exprlayer as el
from vc.exprlayer import Fn, RV, sabs, sabs_dx, sabs_dc, absr
from vc.dom import Undecided
from .common import derivative_check


def steer(e, d, rng):
    """place the (difference of the) arguments relative to the width"""
    c = None
    for nm in ('x%d' % (d.fn.n - 1), 'p%d' % (d.fn.n - 1)):
        if d.fn.n > 1 and nm in e and d.fn.name in ('smooth_abs', 'smooth_max', 'smooth_min'):
            v = e[nm]
            if isinstance(v, mpf):
                e[nm] = abs(v) or mpf(1)
            elif not v:
                e[nm] = 2
            c = mpf(e[nm]) if isinstance(e[nm], mpf) else mpf(int(e[nm]) & 0xffff or 1)
            if not isinstance(e[nm], mpf):
                e[nm] = int(c)
    if c is None:
        c = mpf('0.001')
    t = c * mpf(rng.choice([-1.5, -1.01, -0.9, -0.5, -0.1, 0, 0.1, 0.4, 0.8, 0.99, 1.2, 3]))
    ns = d.fn.name
    a = 'x0' if 'x0' in e else 'p0'
    if ns.startswith('smooth_abs'):
        e[a] = t if isinstance(e[a], mpf) else e[a]
    else:
        b = 'x1' if 'x1' in e else 'p1'
        e[b] = mpf(rng.choice([0, 1, -2, 0.25]))
        e[a] = e[b] + t


def fns():
    out = []
    pos = lambda *a: a[-1] > 0
    f = Fn('smooth_abs', 'xad::smooth_abs({0}, {1})', pos, [sabs_dx, sabs_dc], 2)
    f.vspec = sabs
    out.append((f, [['a', 'a'], ['a', 'D'], ['D', 'a'], ['e', 'a'], ['a', 'e'], ['e', 'D'], ['D', 'e'], ['a', 'I'], ['D', 'D']]))
    for T in ('double', 'float'):
        c0 = Fraction(0.001) if T == 'double' else Fraction(ctypes.c_float(0.001).value)
        c = RV('%d/%d' % (c0.numerator, c0.denominator))
        f = Fn('smooth_abs1' + T[0], 'xad::smooth_abs({0})', lambda x: True, [lambda x, c=c: sabs_dx(x, c)], 1)
        f.vspec = lambda x, c=c: sabs(x, c)
        f.only = T
        out.append((f, [['a'], ['e'], ['D']]))
        for sgn, nm in ((1, 'max'), (-1, 'min')):
            g = Fn('smooth_%s2%s' % (nm, T[0]), 'xad::smooth_%s({0}, {1})' % nm, lambda x, y: True,
                   [lambda x, y, c=c, s=sgn: (1 + s * sabs_dx(x - y, c)) / 2, lambda x, y, c=c, s=sgn: (1 - s * sabs_dx(x - y, c)) / 2], 2)
            g.vspec = lambda x, y, c=c, s=sgn: (x + y + s * sabs(x - y, c)) / 2
            g.only = T
            out.append((g, [['a', 'a'], ['a', 'D'], ['D', 'a'], ['e', 'a'], ['a', 'e'], ['D', 'D']]))
    for sgn, nm in ((1, 'max'), (-1, 'min')):
        g = Fn('smooth_' + nm, 'xad::smooth_%s({0}, {1}, {2})' % nm, pos,
               [lambda x, y, c, s=sgn: (1 + s * sabs_dx(x - y, c)) / 2, lambda x, y, c, s=sgn: (1 - s * sabs_dx(x - y, c)) / 2,
                lambda x, y, c, s=sgn: s * sabs_dc(x - y, c) / 2], 3)
        g.vspec = lambda x, y, c, s=sgn: (x + y + s * sabs(x - y, c)) / 2
        out.append((g, [['a', 'a', 'a'], ['a', 'a', 'D'], ['a', 'D', 'D'], ['D', 'a', 'D'], ['D', 'a', 'a'], ['a', 'D', 'a'], ['e', 'a', 'a'], ['a', 'e', 'D'], ['D', 'D', 'D'], ['D', 'D', 'a']]))
    for f, _ in out:
        f.steer = steer
    return out


def task(ctx, mod, nat, d, n):
    if d.act:
        return el.derivative_task(ctx, mod, nat, d, n, value_spec=d.fn.vspec)
    xs, ps = {}, {i: el.passive_sym(k, i, d.T)[1] for i, k in enumerate(d.kinds)}
    try:
        for pc, v, kind in el.run_plain(ctx, mod, d):
            if v is None:
                ctx.prove('plain %s does not end in %s' % (d.id, kind), pc, z3.BoolVal(False), d.id)
                continue
            ops = d.operand_terms(xs, ps)
            dom = d.fn.dom(*ops)
            ctx.prove('plain %s: value' % d.id, list(pc) + ([dom] if not isinstance(dom, bool) else []), v == d.fn.vspec(*ops), d.id)
            for c in el.definedness(v):
                ctx.prove('plain %s: partial operation defined' % d.id, list(pc) + ([dom] if not isinstance(dom, bool) else []), c, d.id)
    except Undecided as e:
        ctx.fail_obl('plain ' + d.id, str(e), d.id)
    import random
    fails, cnt = [], 0
    from vc import ax
    import mpmath
    for env in el.native_points(d, ctx.rng, n):
        env = el.rounded_env(d, env)
        nm = ax.Numeric(env)
        try:
            dom = d.fn.dom(*d.operand_terms(xs, ps))
            if not isinstance(dom, bool) and not nm.ev(dom):
                continue
            r = nm.ev(d.fn.vspec(*d.operand_terms(xs, ps)))
        except (ax.EvalError, ZeroDivisionError, OverflowError, ValueError):
            continue
        cnt += 1
        a = nat.plain(d, env)[0]
        sc = max([abs(r)] + [abs(v) for v in env.values() if isinstance(v, mpf)])
        if mpmath.isfinite(r) and abs(r) < mpf('1e30') and not abs(mpf(a) - r) <= el.ntol(d) * max(sc, mpf('1e-30')):
            fails.append(dict(failure='plain %s at %s: %r, expected %s' % (d.id, el.show(env), a, mpmath.nstr(r, 12))))
    ctx.native(d.id, cnt, fails, 'plain smoothed functions against the documented formula')


def lemmas(ctx):
    """the documented function itself is C1 with error at most the width (pure lemmas about the specification)"""
    x, c, e = z3.Reals('x c e')
    pos = [c > 0]
    ctx.prove('lemma: inner cubics meet |x| at both ends', pos, z3.And(sabs(c, c) == c, sabs(-c, c) == c, sabs(RV(0), c) == 0), 'spec')
    inner_p = lambda t: 4 * t / c - 3 * t * t / (c * c)
    inner_n = lambda t: 4 * t / c + 3 * t * t / (c * c)
    ctx.prove('lemma: slopes agree at both ends and at zero', pos, z3.And(inner_p(c) == 1, inner_n(-c) == -1, inner_p(RV(0)) == inner_n(RV(0))), 'spec')
    ctx.prove('lemma: error bounded by the width', pos, z3.And(sabs(x, c) - absr(x) <= c, absr(x) - sabs(x, c) <= c), 'spec', timeout=20000)


def setup(chk):
    drvs = []
    for f, kss in fns():
        for T in ('double', 'float'):
            if getattr(f, 'only', T) != T:
                continue
            for ks in kss:
                if T == 'float' and ('e' in ks or 'I' in ks):
                    continue
                ks = [('F' if T == 'float' else 'D') if k == 'D' else k for k in ks]
                drvs.append(el.Drv(f, T, ks))
    derivative_check(chk, drvs, ngroups=6, nquick=150, modes='FANV', task=task)
    chk.task('lemmas', lemmas)
