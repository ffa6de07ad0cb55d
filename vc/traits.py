"""C21: limits, type classification, mode descriptors, hashing and generic accessors of the active types against the
underlying floating point type. Every item is a function instantiated from the current tree whose result must be the
same as that of its counterpart for the underlying type, for all values of the operand."""
import z3
from . import ir, sym
from .sym import *
from .ir import DOUBLE, FLOAT, PTR
from .values import FPU
from .dom import uf
from .exprlayer import PRE

LIMV = ['min', 'max', 'lowest', 'epsilon', 'round_error', 'infinity', 'quiet_NaN', 'signaling_NaN', 'denorm_min']
LIMC = ['is_specialized', 'is_signed', 'is_integer', 'is_exact', 'has_infinity', 'has_quiet_NaN', 'has_signaling_NaN', 'has_denorm', 'has_denorm_loss', 'round_style', 'is_iec559',
        'is_bounded', 'is_modulo', 'digits', 'digits10', 'max_digits10', 'radix', 'min_exponent', 'min_exponent10', 'max_exponent', 'max_exponent10', 'traps', 'tinyness_before']
SAME = ['is_floating_point', 'is_arithmetic', 'is_signed', 'is_integral', 'is_void', 'is_pointer', 'is_object', 'is_array', 'is_enum', 'is_reference', 'is_const', 'is_default_constructible', 'is_copy_constructible',
        'is_copy_assignable', 'is_nothrow_move_constructible']
FIXED = {'is_pod': 0, 'is_fundamental': 0, 'is_scalar': 0, 'is_compound': 1, 'is_class': 1, 'is_trivial': 0}
INNER = {'double': 'd', 'float': 'f'}


def kinds(T):
    return {'A': 'xad::AReal<%s>' % T, 'F': 'xad::FReal<%s>' % T, 'AF': 'xad::AReal<xad::FReal<%s> >' % T, 'FF': 'xad::FReal<xad::FReal<%s> >' % T,
            'FA': 'xad::FReal<xad::AReal<%s> >' % T, 'AA': 'xad::AReal<xad::AReal<%s> >' % T}


def same(a, b):
    return 'std::is_same<%s, %s>::value' % (a, b)


def items():
    """(group, name, return type, expression, expected expression)"""
    out = []
    for T in INNER:
        K = kinds(T)
        for k, A in K.items():
            for m in LIMV:
                out.append(('limits', 'numeric_limits<%s>::%s()' % (A, m), T, 'static_cast<%s>(std::numeric_limits<%s>::%s())' % (T, A, m), 'std::numeric_limits<%s>::%s()' % (T, m)))
                out.append(('limits', 'type of numeric_limits<%s>::%s()' % (A, m), 'int', same('decltype(std::numeric_limits<%s>::%s())' % (A, m), T), '1'))
            for cv in ('', 'const ', 'volatile '):
                for m in LIMC:
                    if not cv or m in ('is_specialized', 'digits', 'max_exponent', 'is_iec559'):
                        out.append(('limits', 'numeric_limits<%s%s>::%s' % (cv, A, m), 'int', 'int(std::numeric_limits<%s%s>::%s)' % (cv, A, m), 'int(std::numeric_limits<%s>::%s)' % (T, m)))
            for m in SAME:
                out.append(('classification', '%s<%s>' % (m, A), 'int', 'int(std::%s<%s>::value)' % (m, A), 'int(std::%s<%s>::value)' % (m, T)))
            for m, w in FIXED.items():
                out.append(('classification', '%s<%s>' % (m, A), 'int', 'int(std::%s<%s>::value)' % (m, A), str(w)))
            if 'A' not in k:
                out.append(('classification', 'is_trivially_copyable<%s>' % A, 'int', 'int(std::is_trivially_copyable<%s>::value)' % A, '1'))
            else:
                out.append(('classification', 'is_trivially_copyable<%s>' % A, 'int', 'int(std::is_trivially_copyable<%s>::value)' % A, '0'))
            for f in ('T', 'int'):
                out.append(('classification', 'is_convertible<%s, %s>' % (f, A), 'int', 'int(std::is_convertible<%s, %s>::value)' % (T if f == 'T' else f, A), '1'))
            for to in (T, 'int', 'long long', 'char'):
                out.append(('classification', 'is_convertible<%s, %s>' % (A, to), 'int', 'int(std::is_convertible<%s, %s>::value)' % (A, to), '0'))
            inner = {'A': T, 'F': T, 'AF': K['F'], 'FF': K['F'], 'FA': K['A'], 'AA': K['A']}[k]
            fwd = k[0] == 'F'
            for cv in ('', 'const ', 'volatile ', 'const volatile '):
                X = 'xad::ExprTraits<%s%s>' % (cv, A)
                for m, w in (('isExpr', 1), ('isForward', int(fwd)), ('isReverse', int(not fwd)), ('isLiteral', 1), ('numVariables', 1)):
                    out.append(('descriptors', '%s::%s' % (X, m), 'int', 'int(%s::%s)' % (X, m), str(w)))
                out.append(('descriptors', '%s::direction' % X, 'int', 'int(%s::direction)' % X, 'int(xad::DIR_%s)' % ('FORWARD' if fwd else 'REVERSE')))
                for m, w in (('nested_type', T), ('value_type', A), ('scalar_type', inner)):
                    out.append(('descriptors', '%s::%s' % (X, m), 'int', same('%s::%s' % (X, m), w), '1'))
            # expressions have the mode of their variables
            for nm, e in (('-x', '-std::declval<const %s&>()' % A), ('x + x', 'std::declval<const %s&>() + std::declval<const %s&>()' % (A, A)), ('sin(x * 2)', 'xad::sin(std::declval<const %s&>() * %s(2))' % (A, T))):
                X = 'xad::ExprTraits<typename std::decay<decltype(%s)>::type>' % e
                for m, w in (('isExpr', 1), ('isForward', int(fwd)), ('isReverse', int(not fwd)), ('isLiteral', 0)):
                    out.append(('descriptors', 'ExprTraits of %s of %s: %s' % (nm, A, m), 'int', 'int(%s::%s)' % (X, m), str(w)))
                out.append(('descriptors', 'ExprTraits of %s of %s: direction' % (nm, A), 'int', 'int(%s::direction)' % X, 'int(xad::DIR_%s)' % ('FORWARD' if fwd else 'REVERSE')))
                for m, w in (('nested_type', T), ('value_type', A)):
                    out.append(('descriptors', 'ExprTraits of %s of %s: %s' % (nm, A, m), 'int', same('%s::%s' % (X, m), w), '1'))
                out.append(('descriptors', 'number of variables in %s of %s' % (nm, A), 'int', 'int(%s::numVariables)' % X, '2' if nm == 'x + x' else '1'))
        for nm, A, tape in (('adj', K['A'], 'xad::Tape<%s>' % T), ('fwd', K['F'], 'void'), ('fwd_adj', K['AF'], 'xad::Tape<%s>' % K['F']), ('fwd_fwd', K['FF'], 'void'), ('adj_fwd', K['FA'], 'xad::Tape<%s>' % T), ('adj_adj', K['AA'], None)):
            X = 'xad::%s<%s>' % (nm, T)
            row = [('active_type', A), ('passive_type', T), ('value_type', T)]
            if tape:
                row.append(('tape_type', tape))
            else:
                row += [('inner_tape_type', 'xad::Tape<%s>' % T), ('outer_tape_type', 'xad::Tape<%s>' % K['A'])]
            if '_' in nm:
                row.append(('inner_type', K['A'] if nm.startswith('adj') else K['F']))
            for m, w in row:
                out.append(('descriptors', '%s::%s' % (X, m), 'int', same('%s::%s' % (X, m), w), '1'))
        for m in ('isExpr', 'isForward', 'isReverse', 'isLiteral', 'numVariables'):
            out.append(('descriptors', 'ExprTraits<%s>::%s' % (T, m), 'int', 'int(xad::ExprTraits<%s>::%s)' % (T, m), '0'))
        for m in ('nested_type', 'value_type', 'scalar_type'):
            out.append(('descriptors', 'ExprTraits<%s>::%s' % (T, m), 'int', same('xad::ExprTraits<%s>::%s' % (T, m), T), '1'))
    return out


HEAD = r'''
#include <functional>
#include <limits>
#include <type_traits>
#include <XAD/StdCompatibility.hpp>
'''


def sources(its):
    s = HEAD + 'extern "C" {\n'
    for i, (g, nm, rt, got, want) in enumerate(its):
        s += '%s G%d() { return %s; }\n%s W%d() { return %s; }\n' % (rt, i, got, rt, i, want)
    return s + '}\n'


def hash_contract(ex, st, d, a, x):
    n = ex.ground(a[1]) if hasattr(ex, 'ground') else a[1]
    ty = {8: DOUBLE, 4: FLOAT}[n if isinstance(n, int) else simp(n).as_long()]
    v = ex.load(st, a[0], ty)
    so = ex.dom.sort_of(ty)
    return uf('hash_bytes_%d' % so.sbits(), so, z3.BitVecSort(64))(v)


CONTRACTS = [(r'^(?:\w+ )*std::_Hash_bytes\(', hash_contract)]


def call(ctx, mod, fn, args=(), prep=None):
    ex = Exec(mod, FPU(), compile_contracts(CONTRACTS))
    st = State()
    a = prep(ex, st) if prep else list(args)
    outs = ex.call_function(st, '@' + fn, a)
    ctx.absorb(ex)
    return ex, outs


def value_of(ex, v, fp):
    if fp:
        return v if z3.is_expr(v) else ex.zval(v, fp)
    return bvz(v, 64) if not z3.is_bv(v) else v


def const_task(ctx, mod, its, lo, hi):
    for i in range(lo, hi):
        g, nm, rt, got, want = its[i]
        fp = {'double': DOUBLE, 'float': FLOAT}.get(rt)
        try:
            r = []
            for w in 'GW':
                ex, outs = call(ctx, mod, '%s%d' % (w, i))
                if len(outs) != 1 or outs[0][0] != 'ret':
                    raise Undecided('not a constant')
                r.append(value_of(ex, outs[0][2], fp))
            a, b = r
            if not fp and a.size() != b.size():
                a, b = z3.ZeroExt(64 - a.size(), a) if a.size() < 64 else a, z3.ZeroExt(64 - b.size(), b) if b.size() < 64 else b
            eq = simp(a == b)
            if z3.is_true(eq):
                ctx.results.append(dict(name=nm, fn=nm, status='proved', backend='z3-simplify', secs=0))
            elif z3.is_false(eq):
                ctx.results.append(dict(name=nm, fn=nm, status='violated', backend='z3-simplify', secs=0, detail='is %s, must be %s' % (simp(a), simp(b)), formula=got + ' == ' + want))
            else:
                ctx.fail_obl(nm, 'no constant: %s' % eq, nm)
        except (Undecided, ir.IRError, KeyError) as e:
            ctx.fail_obl(nm, repr(e)[:300], nm)


# ---- hashing and the generic accessors for arbitrary stored values

def acc_cases():
    out = []
    for T in INNER:
        for k, A in kinds(T).items():
            inner = A[A.index('<') + 1:-1].strip()
            path = 'xad::value(x)' if len(k) == 1 else 'xad::value(xad::value(x))'
            out.append((T, k, A, 'hash', 'unsigned long', 'const %s& x' % A, 'std::hash<%s>{}(x)' % A))
            for c in ('const ', ''):
                out.append((T, k, A, 'value of %s' % (c or 'non-const '), T + ('*' if not c else ' const*'), '%s%s& x' % (c, A), '&' + path))
                if k[0] == 'F':
                    # tangent: address of the stored number
                    out.append((T, k, A, 'tangent of %s' % (c or 'non-const '), T + ('*' if not c else ' const*'), '%s%s& x' % (c, A), '&xad::derivative(x)' if len(k) == 1 else '&xad::value(xad::derivative(x))'))
                if len(k) == 2 and k[1] == 'F':
                    out.append((T, k, A, 'tangent of the value of %s' % (c or 'non-const '), T + ('*' if not c else ' const*'), '%s%s& x' % (c, A), '&xad::derivative(xad::value(x))'))
                if k == 'FF':
                    out.append((T, k, A, 'second tangent of %s' % (c or 'non-const '), T + ('*' if not c else ' const*'), '%s%s& x' % (c, A), '&xad::derivative(xad::derivative(x))'))
        out.append((T, '', T, 'value of a number', T + ' const*', 'const %s& x' % T, '&xad::value(x)'))
        out.append((T, '', T, 'value of a non-const number', T + '*', '%s& x' % T, '&xad::value(x)'))
        out.append((T, '', T, 'tangent of a number', T, 'const %s& x' % T, 'xad::derivative(x)'))
        out.append((T, '', T, 'tangent of a non-const number', T, '%s& x' % T, 'xad::derivative(x)'))
        for n in ('int', 'long', 'unsigned'):
            out.append((T, '', n, 'value of an %s' % n, n + ' const*', 'const %s& x' % n, '&xad::value(x)')) if T == 'double' else None
    return out


def acc_source(cs):
    s = HEAD + 'extern "C" {\n'
    for i, (T, k, A, nm, rt, par, e) in enumerate(cs):
        s += '%s X%d(%s) { return %s; }\n' % (rt, i, par, e)
    for T in INNER:
        s += 'unsigned long Z%s(%s p) { return std::hash<%s>{}(p); }\n' % (INNER[T], T, T)
        for k, A in kinds(T).items():
            t = INNER[T]
            q = {'A': 'a_', 'F': 'a_', 'AF': 'a_.a_', 'FF': 'a_.a_', 'FA': 'a_.a_', 'AA': 'a_.a_'}[k]
            offs = [('val', q), ('size', None)]
            if k[0] == 'F':
                offs.append(('tan', 'der_' if len(k) == 1 else 'der_.a_'))
            if len(k) == 2 and k[1] == 'F':
                offs.append(('valtan', 'a_.der_'))
            if k == 'FF':
                offs.append(('tantan', 'der_.der_'))
            for n, f in offs:
                s += 'extern const unsigned long OFF_%s_%s_%s = %s;\n' % (t, k, n, 'sizeof(%s)' % A if f is None else '__builtin_offsetof(TYPE_%s_%s, %s)' % (t, k, f))
    ty = ''.join('typedef %s TYPE_%s_%s;\n' % (A, INNER[T], k) for T in INNER for k, A in kinds(T).items())
    return s.replace('extern "C" {\n', ty + 'extern "C" {\n', 1) + '}\n'


def acc_task(ctx, mod, cs, i):
    from . import tapemodel as tm
    T, k, A, nm, rt, par, e = cs[i]
    name = '%s: %s' % (A, nm)
    t = INNER[T]
    fp = DOUBLE if T == 'double' else FLOAT
    off = lambda n: tm.off(mod, 'OFF_%s_%s_%s' % (t, k, n))
    try:
        box = {}

        def prep(ex, st):
            r = ex.new_region(st, 'x', size=off('size') if k else 8)
            box['r'] = r
            v = z3.Const('v', ex.dom.sort_of(fp))
            if A in INNER or k:
                ex.store(st, Ptr(r, off('val') if k else 0), v, fp)
            for n in ('tan', 'valtan', 'tantan'):
                if (k[:1] == 'F' and n == 'tan') or (k[1:] == 'F' and n == 'valtan') or (k == 'FF' and n == 'tantan'):
                    ex.store(st, Ptr(r, off(n)), z3.Const(n, ex.dom.sort_of(fp)), fp)
            box['v'] = v
            return [Ptr(r, 0)]
        ex, outs = call(ctx, mod, 'X%d' % i, prep=prep)
        ctx.cover(name, bool(outs))
        for kind, s, v in outs:
            if kind != 'ret':
                bad(ctx, name, 'ends with an error')
                continue
            if nm == 'hash':
                ex2 = Exec(mod, FPU(), compile_contracts(CONTRACTS))
                wants = ex2.call_function(State(), '@Z' + t, [box['v']])
                for k2, s2, w in wants:
                    sol = z3.Solver()
                    sol.set('timeout', 10000)
                    sol.add(*[c for c in list(s.pc) + list(s2.pc) if z3.is_expr(c)])
                    sol.add(z3.Not(bvz(v, 64) == bvz(w, 64)))
                    r = sol.check()
                    if r == z3.unsat:
                        ctx.results.append(dict(name=name + ' of equal values is that of the number', fn=name, status='proved', backend='z3-fp', secs=0))
                    else:
                        ctx.results.append(dict(name=name + ' of equal values is that of the number', fn=name, status='refuted' if r == z3.sat else 'undecided', backend='z3-fp', secs=0, detail=str(sol.model())[:300] if r == z3.sat else '',
                                                formula='%s == %s' % (v, w)))
            elif rt.endswith('*'):
                want = 0 if not k else off({'value': 'val', 'tangent': 'tan', 'second': 'tantan'}[nm.split()[0]] if 'tangent of the value' not in nm else 'valtan')
                ok = isinstance(v, Ptr) and v.reg is box['r'] and v.off == want
                if ok:
                    ctx.results.append(dict(name=name + ' is the stored number', fn=name, status='proved', backend='z3-simplify', secs=0))
                elif isinstance(v, Ptr) and z3.is_expr(v.off) is False:
                    bad(ctx, name + ' is the stored number', 'refers to %s, not to offset %s of the variable' % (v, want))
                else:
                    ctx.fail_obl(name, 'result %r' % (v,), name)
            else:
                eq = simp(v == z3.FPVal(0, ex.dom.sort_of(fp)))
                if z3.is_true(eq):
                    ctx.results.append(dict(name=name + ' is zero', fn=name, status='proved', backend='z3-simplify', secs=0))
                else:
                    ctx.fail_obl(name + ' is zero', str(eq), name, status='violated' if z3.is_false(eq) else 'undecided')
    except (Undecided, ir.IRError, KeyError) as e2:
        ctx.fail_obl(name, repr(e2)[:300], name)


def bad(ctx, name, why):
    ctx.results.append(dict(name=name, fn=name, status='violated', backend='z3-simplify', secs=0, detail=why, formula=name))


def setup(chk):
    its = items()
    src = chk.scratch.write('traits.cpp', PRE + sources(its))
    mod = ir.load(chk.scratch.ll(src, 'traits.ll'))
    step = 200
    for lo in range(0, len(its), step):
        chk.task('constants %d' % lo, const_task, mod, its, lo, min(lo + step, len(its)))
    cs = acc_cases()
    src = chk.scratch.write('access.cpp', PRE + acc_source(cs))
    mod2 = ir.load(chk.scratch.ll(src, 'access.ll'))
    for i in range(len(cs)):
        chk.task('%s %s' % (cs[i][2], cs[i][3]), acc_task, mod2, cs, i)
