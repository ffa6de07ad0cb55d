"""C05 machinery: the active operation returns bit for bit the plain value (IEEE-754 domain, arithmetic uninterpreted)."""
import ctypes, math, struct
import z3
from . import sym, tapemodel as tm, ax
from .sym import *
from .ir import DOUBLE, FLOAT, PTR
from .dom import FPDom, Undecided, uf
from .exprlayer import PTYPES, CT, UNARY, BINARY


class FPU(FPDom):
    """IEEE comparisons, sign operations and classification interpreted; rounding arithmetic uninterpreted (sound for equality)"""

    def bin(self, op, a, b, ty):
        if op in ('fadd', 'fmul') and a.get_id() > b.get_id():
            a, b = b, a         # IEEE + and * commute (NaN payloads aside)
        if op == 'frem':
            op = 'fmod'
        s = a.sort()
        if op == 'fmul':
            for u, v in ((a, b), (b, a)):
                if z3.is_fp_value(u) and u == self.one(s):
                    return v
        return uf('fp_%s_%d' % (op, s.sbits()), s, s, s)(a, b)

    def call(self, name, args, ty):
        if name == 'copysign':
            m = z3.fpAbs(args[0])
            return z3.If(z3.fpIsNegative(args[1]), z3.fpNeg(m), m)
        return FPDom.call(self, name, args, ty)

    def from_int_t(self, v, w, signed, ty):
        if not isinstance(v, int) and z3.is_bv(v):
            k = v.decl().kind()
            if k == z3.Z3_OP_ZERO_EXT or (k == z3.Z3_OP_CONCAT and v.num_args() == 2 and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0):
                u = v.arg(v.num_args() - 1)
                return self.from_int_t(u, u.size(), False, ty)
            if signed and k == z3.Z3_OP_SIGN_EXT:
                return self.from_int_t(v.arg(0), v.arg(0).size(), True, ty)
            if signed and k == z3.Z3_OP_CONCAT:
                lo = v.arg(v.num_args() - 1)
                sb = lo.size() - 1
                if all(c.decl().kind() == z3.Z3_OP_EXTRACT and c.params() == [sb, sb] and c.arg(0).eq(lo) for c in v.children()[:-1]):
                    return self.from_int_t(lo, lo.size(), True, ty)
            if signed and v.size() == w and w <= 32:
                # one injection per width: widen exactly (sign extended) so that short and int conversions of the same number agree
                v, w = (z3.SignExt(64 - w, v) if w < 64 else v), 64
        return FPDom.from_int_t(self, v, w, signed, ty)

    def one(self, s):
        return z3.FPVal(1.0, s)

    def cast(self, op, v, f, t):
        if f == t:
            return v
        return z3.fpFPToFP(self.RM, v, self.sort_of(t))


class Case:
    """kinds: 'a' active variable, 'e' the expression -(var), or a passive type key (PTYPES) or 'T' (same as T)"""

    def __init__(self, cid, T, kinds, expr, plain=None, res='T', outs=(), aux='', rel='', noF=False):
        self.id = '%s_%s_%s' % (cid, 'd' if T == 'double' else 'f', ''.join(kinds) if kinds else '')
        self.T, self.kinds, self.expr, self.plain, self.res, self.outs, self.aux, self.rel = T, kinds, expr, plain or expr, res, outs, aux, rel
        self.act = [i for i, k in enumerate(kinds) if k in ('a', 'e')]

    def ptype(self, i):
        k = self.kinds[i]
        return (self.T, 'f', 64 if self.T == 'double' else 32) if k == 'T' else PTYPES[k]

    def ops(self, nm):
        out = []
        for i, k in enumerate(self.kinds):
            out.append(nm(i) if k == 'a' else '-(%s)' % nm(i) if k == 'e' else 'p%d' % i)
        return out

    def pas(self):
        return ''.join('%s p%d, ' % (self.ptype(i)[0], i) for i in range(len(self.kinds)) if i not in self.act) + ('int n, ' if self.aux else '')

    def pasn(self):
        return ''.join('p%d, ' % i for i in range(len(self.kinds)) if i not in self.act) + ('n, ' if self.aux else '')

    def outd(self):
        return ''.join('%s %s = 0; ' % (t, n) for t, n in self.outs)

    def outst(self):
        s = ''
        for k, (t, n) in enumerate(self.outs):
            s += ('o[%d] = %s; ' % (2 + k, n)) if t == 'T' else ('oi[%d] = (long long)(%s); ' % (2 + k, n))
        return s

    def put(self, e, plain=False):
        if self.res == 'T':
            return 'o[0] = T(%s); ' % e if plain else 'o[0] = xad::value(%s); ' % e
        return 'oi[0] = (long long)(%s); ' % e

    def cpp(self):
        T = self.T
        td = 'typedef %s T; ' % T
        xs = ''.join('T x%d, ' % i for i in self.act).replace('T ', T + ' ')
        pl = self.plain.format(*self.ops(lambda i: 'x%d' % i), T=T)
        s = 'extern "C" void V_%s(%s%s%s* o, long long* oi) { %s%s%s%s}\n' % (self.id, xs, self.pas(), T, td, self.outd(), self.put(pl, True), self.outst())
        xd = ''.join('const xad::FReal<%s>* a%d, ' % (T, i) for i in self.act)
        e = self.expr.format(*self.ops(lambda i: '(*a%d)' % i), T=T)
        s += 'extern "C" void F_%s(%s%s%s* o, long long* oi) { %s%s%s%s}\n' % (self.id, xd, self.pas(), T, td, self.outd(), self.put(e), self.outst())
        xd = ''.join('const xad::AReal<%s>* a%d, ' % (T, i) for i in self.act)
        con = ''
        if self.res == 'T':
            con = '{ xad::AReal<T> r(%s); o[1] = r.value(); }' % e
        s += 'extern "C" void A_%s(%s%s%s* o, long long* oi) { %s%s%s%s}\n' % (self.id, xd, self.pas(), T, td, self.outd(), self.put(e), self.outst())
        if self.res == 'T':
            s += 'extern "C" void C_%s(%s%s%s* o, long long* oi) { %s%s%s%s}\n' % (self.id, xd, self.pas(), T, td, self.outd(), con, self.outst())
        # native: all three, mode 0 no tape, 1 tape and registered
        av = ''.join('&a%d, ' % i for i in self.act)
        s += ('extern "C" int N_%s(int mode, %s%s%s* o, long long* oi) { %s '
              'if (mode == 2) { %s F_%s(%s%so, oi); o[1] = o[0]; return %s; } '
              'xad::Tape<T> tape(mode != 0); %s if (mode == 1) { %s } tape.newRecording(); A_%s(%s%so, oi); %s return %s; }\n') % (
            self.id, xs, self.pas(), T, td,
            ''.join('xad::FReal<T> a%d(x%d, T(0.375)); ' % (i, i) for i in self.act), self.id, av, self.pasn(),
            ' && '.join('same(a%d.value(), x%d) && a%d.getDerivative() == T(0.375)' % (i, i, i) for i in self.act),
            ''.join('xad::AReal<T> a%d(x%d); ' % (i, i) for i in self.act),
            ''.join('tape.registerInput(a%d); ' % i for i in self.act),
            self.id, av, self.pasn(), 'C_%s(%s%so, oi);' % (self.id, av, self.pasn()) if self.res == 'T' else '',
            ' && '.join('same(a%d.value(), x%d)' % (i, i) for i in self.act))
        return s


HELP = '''template <class T> static bool same(T a, T b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
'''


def cases():
    out = []
    CMP = [('eq', '=='), ('ne', '!='), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')]
    for T in ('double', 'float'):
        f = 'f' if T == 'float' else 'd'
        for u in UNARY:
            for k in ('a', 'e'):
                if k == 'e' and T == 'float':
                    continue
                pl = u.plain
                if u.name in ('degrees', 'radians'):
                    from fractions import Fraction
                    pl = '({0}) * T(57.2957795130823208767981548141051703)' if u.name == 'degrees' else '({0}) * T(0.01745329251994329576923690768489)'
                if u.name == 'pown':
                    pl = 'pow({0}, n)'
                out.append(Case(u.name, T, [k], u.expr, pl, outs=u.outs, aux=u.aux))
        for b in BINARY:
            mm = b.name in ('max', 'min', 'fmax', 'fmin')
            ks = [['a', 'a'], ['a', 'T'], ['T', 'a']]
            if T == 'double':
                ks += [['a', 'e'], ['e', 'a'], ['e', 'e'], ['e', 'T'], ['T', 'e']]
                if not mm and b.name != 'copysign':
                    ks += [['a', 'I'], ['I', 'a'], ['a', 'L'], ['U', 'a'], ['e', 'I'], ['S', 'e']]
            for k in ks:
                if b.name == 'copysign' and k[0] == 'T':
                    continue
                if b.name == 'nextafter' and 'I' in k:
                    pass
                out.append(Case(b.name, T, k, b.expr, b.plain, outs=b.outs, rel='mm' if mm else ''))
        for nm, op in CMP:
            ks = [['a', 'a'], ['a', 'T'], ['T', 'a']]
            if T == 'double':
                ks += [['a', 'e'], ['e', 'a'], ['e', 'e'], ['a', 'I'], ['I', 'a'], ['e', 'T'], ['T', 'e'], ['L', 'a']]
            for k in ks:
                out.append(Case(nm, T, k, '({0}) %s ({1})' % op, res='i'))
        for c in ('isinf', 'isnan', 'isfinite', 'isnormal', 'signbit', 'fpclassify', 'lround', 'llround', 'ilogb'):
            for k in ('a', 'e'):
                out.append(Case(c, T, [k], 'xad::%s({0})' % c, 'std::%s({0})' % c, res='i'))
        for c in ('lround', 'ilogb', 'isnan'):
            if T == 'double':
                out.append(Case(c + 'B', T, ['a', 'a'], 'xad::%s({0} + {1})' % c, 'std::%s({0} + {1})' % c, res='i'))
        for c in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long',
                  'unsigned long long', 'bool'):
            for k in ('a', 'e') if T == 'double' else ('a',):
                out.append(Case('conv_' + c.replace(' ', '_'), T, [k], 'static_cast<%s>({0})' % c, res='i'))
        out.append(Case('value', T, ['a'], '{0}', res='T'))
        out.append(Case('copy', T, ['a'], 'xad::value({0}) + 0 * ({0})', '{0} + 0 * ({0})', res='T'))
        for k in (['a', 'a'], ['a', 'T'], ['T', 'a'], ['e', 'T'], ['a']):
            if len(k) == 2:
                out.append(Case('smooth_abs', T, k, 'xad::smooth_abs({0}, {1})', 'xad::smooth_abs({0}, {1})'))
            else:
                out.append(Case('smooth_abs', T, k, 'xad::smooth_abs({0})'))
        if T == 'double':
            for f_ in ('smooth_max', 'smooth_min'):
                for k in (['a', 'a', 'a'], ['a', 'a', 'T'], ['a', 'T', 'T'], ['T', 'a', 'a']):
                    out.append(Case(f_, T, k, 'xad::%s({0}, {1}, {2})' % f_))
                for k in (['a', 'a'], ['T', 'a'], ['e', 'a']):
                    out.append(Case(f_ + '2', T, k, 'xad::%s({0}, {1})' % f_))
    return out


def fpval(v):
    """z3 fp value -> float"""
    if z3.is_fp_value(v):
        if v.isNaN():
            return math.nan
        if v.isInf():
            return -math.inf if v.isNegative() else math.inf
        if v.isZero():
            return -0.0 if v.isNegative() else 0.0
        bv = z3.simplify(z3.fpToIEEEBV(v))
        n = bv.as_long()
        return struct.unpack('d', struct.pack('Q', n))[0] if bv.size() == 64 else struct.unpack('f', struct.pack('I', n))[0]
    return 0.0


def same(a, b):
    return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))


class Native:
    def __init__(self, so):
        self.lib = ctypes.CDLL(so)

    def run(self, c, env):
        """None or error text; compares every mode with the plain value at this point"""
        ct = CT[c.T]
        xs = [ct(env['x%d' % i]) for i in c.act]
        ps = []
        for i in range(len(c.kinds)):
            if i not in c.act:
                t, kind, w = c.ptype(i)
                v = env['p%d' % i]
                ps.append(CT[t](v) if kind == 'f' else CT[t](sym.sint(int(v) % (1 << w), w) if kind == 's' else int(v) % (1 << w)))
        if c.aux:
            ps.append(ctypes.c_int32(sym.sint(int(env['n']) % (1 << 32), 32)))

        def go(name, pre):
            o = (ct * 8)(*([7.25] * 8))
            oi = (ctypes.c_longlong * 8)(*([777] * 8))
            f = getattr(self.lib, name)
            r = f(*(pre + xs + ps + [o, oi]))
            return r, list(o), list(oi)
        _, vo, vi = go('V_' + c.id, [])
        if c.rel == 'mm':
            vals = []
            for i, k in enumerate(c.kinds):
                v = env['x%d' % i] if i in c.act else env['p%d' % i]
                vals.append(v)
            if any(v != v for v in vals):
                return None
        for mode, nm in ((0, 'adjoint type, nothing recorded'), (1, 'adjoint type, recording'), (2, 'forward type')):
            ok, o, oi = go('N_' + c.id, [mode])
            if not ok:
                return '%s (%s) altered an operand at %s' % (c.id, nm, env)
            if c.res == 'T':
                for q in (0, 1):
                    if not same(o[q], vo[0]) and not (c.rel == 'mm' and o[q] == vo[0]):
                        return '%s (%s) at %s: active value %r, plain value %r' % (c.id, nm, env, o[q], vo[0])
            elif oi[0] != vi[0]:
                return '%s (%s) at %s: active result %r, plain result %r' % (c.id, nm, env, oi[0], vi[0])
            for k, (t, n) in enumerate(c.outs):
                a, b = (o[2 + k], vo[2 + k]) if t == 'T' else (oi[2 + k], vi[2 + k])
                if (t == 'T' and not same(a, b)) or (t != 'T' and a != b):
                    return '%s (%s) at %s: output parameter %s is %r, plain %r' % (c.id, nm, env, n, a, b)
        return None


SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 1.5, -1.5, 2.5, math.inf, -math.inf, math.nan, 1e300, -1e300, 1e-310, 5e-324, -5e-324,
           1e-5, 0.0005, -0.0005, 0.001, 0.1, 0.3, 0.7, 7.0, 100.0, 1e10, 4503599627370497.5, 0.49999999999999994, 123456.789, -7.3]


def points(c, rng, n):
    def fl(T, j):
        r = rng.random()
        if r < 0.55:
            v = rng.choice(SPECIAL)
        elif r < 0.8:
            v = rng.uniform(-4, 4)
        else:
            v = math.ldexp(rng.uniform(-1, 1), rng.randint(-40, 40))
        if T == 'float':
            v = ctypes.c_float(v).value
        return v
    for j in range(n):
        env = {}
        last = None
        conv = c.id.startswith('conv_')
        for i in range(len(c.kinds)):
            if i in c.act:
                v = fl(c.T, j)
                if conv and 'bool' not in c.id:     # only convertible values: others are undefined behaviour for the plain type too
                    v = ctypes.c_float(rng.uniform(0, 100) * (-1 if c.kinds[i] == 'e' else 1)).value
                if c.id.startswith(('lround', 'llround')) and not abs(v) < 1e9:
                    v = 1.25
                if last is not None and rng.random() < 0.2:
                    v = last
                env['x%d' % i] = last = v
            else:
                t, kind, w = c.ptype(i)
                if kind == 'f':
                    env['p%d' % i] = last if last is not None and rng.random() < 0.2 else fl(c.T, j)
                else:
                    env['p%d' % i] = rng.choice([0, 1, 2, 3, -1, -2, 7, 1 << 20, (1 << (w - 1)) - 1, -(1 << (w - 1)), rng.randint(-50, 50)])
        if c.aux:
            env['n'] = rng.choice([0, 1, 2, -1, -3, 5, 31, 32, 33, 64, 1000, -1000, 1070, -1080, 2147483647, -2147483648, rng.randint(-1100, 1100)])
        yield env


def run_one(ctx, mod, c, name, active):
    ex = Exec(mod, FPU(), compile_contracts(tm.EXC + tm.SEQ))
    T = DOUBLE if c.T == 'double' else FLOAT
    t = 'd' if c.T == 'double' else 'f'
    st = State()
    args, chk = [], []
    tp = None
    if name in ('A_', 'C_'):
        if active:
            tp = tm.TapeM(ex, st, t, T)
            tm.set_active(ex, st, t, tp.ptr())
        else:
            tm.set_active(ex, st, t, NULL)
    for i in c.act:
        x = ex.dom.fresh('x%d' % i, T)
        if name == 'V_':
            args.append(x)
            continue
        fw = name == 'F_'
        r = ex.new_region(st, 'a%d' % i, size=tm.off(mod, 'OFF_%s_%s_sizeof' % ('FR' if fw else 'AR', t)))
        ex.store(st, Ptr(r, 0), x, T)
        so = tm.off(mod, 'OFF_FR_%s_der' % t) if fw else tm.off(mod, 'OFF_AR_%s_slot' % t)
        ty = T if fw else tm.I32
        if fw:
            s2 = ex.dom.fresh('d%d' % i, T)
        else:
            s2 = z3.BitVec('slot%d' % i, 32) if active else (1 << 32) - 1
            if active:
                st.assume(z3.Or(z3.ULT(s2, tp.recv['ider']), s2 == z3.BitVecVal((1 << 32) - 1, 32)))
        ex.store(st, Ptr(r, so), s2, ty)
        chk += [(r, 0, T, x), (r, so, ty, s2)]
        args.append(Ptr(r, 0))
    for i in range(len(c.kinds)):
        if i not in c.act:
            tt, kind, w = c.ptype(i)
            args.append(z3.FP('p%d' % i, FPU.S64 if w == 64 else FPU.S32) if kind == 'f' else z3.BitVec('p%d' % i, w))
    if c.aux:
        args.append(z3.BitVec('n', 32))
    o = ex.new_region(st, 'o', size=64)
    oi = ex.new_region(st, 'oi', size=64)
    args += [Ptr(o, 0), Ptr(oi, 0)]
    es = mod.size(T)
    outs = []
    for kind, s, v in ex.call_function(st, '@' + name + c.id, args):
        if kind != 'ret':
            outs.append((s.pc, None, kind, []))
            continue
        res = []
        if c.res == 'T':
            res.append(('value', ex.load(s, Ptr(o, es if name == 'C_' else 0), T)))
        else:
            res.append(('value', bvz(ex.load(s, Ptr(oi, 0), ('i', 64)), 64)))
        for k, (ty, n) in enumerate(c.outs):
            if ty == 'T':
                res.append((n, ex.load(s, Ptr(o, es * (2 + k)), T)))
            else:
                res.append((n, bvz(ex.load(s, Ptr(oi, 8 * (2 + k)), ('i', 64)), 64)))
        frame = []
        for r, of, ty, old in chk:
            new = ex.load(s, Ptr(r, of), ty)
            frame.append((old if not isinstance(old, int) else z3.BitVecVal(old, 32)) == (new if not isinstance(new, int) else z3.BitVecVal(new, 32)))
        outs.append((s.pc, res, kind, frame))
    ctx.absorb(ex)
    return outs


def task(ctx, mod, nat, c, nnat):
    consts = {}

    def replay(env):
        return nat.run(c, env) if nat else None

    def check(nm, pc, goal):
        g = simp(goal)
        if z3.is_true(g):
            ctx.results.append(dict(name=nm, fn=c.id, status='proved', backend='z3-simplify', secs=0))
            return
        import time
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*pc)
        s.add(z3.Not(g))
        r = s.check()
        dt = time.time() - t
        ctx.solver_s += dt
        rec = dict(name=nm, fn=c.id, backend='z3-fp', secs=round(dt, 2), status='undecided', detail='')
        if r == z3.unsat:
            rec['status'] = 'proved'
        else:
            rec['formula'] = str(g)[:800]
            if r == z3.sat and nat:
                md = s.model()
                env = {}
                for i in range(len(c.kinds)):
                    if i in c.act:
                        env['x%d' % i] = fpval(md.eval(z3.FP('x%d' % i, FPU.S64 if c.T == 'double' else FPU.S32), model_completion=True))
                    else:
                        tt, kind, w = c.ptype(i)
                        env['p%d' % i] = fpval(md.eval(z3.FP('p%d' % i, FPU.S64 if w == 64 else FPU.S32), model_completion=True)) if kind == 'f' else \
                            md.eval(z3.BitVec('p%d' % i, w), model_completion=True).as_long()
                if c.aux:
                    env['n'] = md.eval(z3.BitVec('n', 32), model_completion=True).as_long()
                ub = c.id.startswith(('conv_', 'lround', 'llround')) and 'bool' not in c.id
                f = replay(env) if not ub else None
                if f:
                    rec.update(status='violated', detail=f, witness={k: str(v) for k, v in env.items()})
        ctx.results.append(rec)
    try:
        V = run_one(ctx, mod, c, 'V_', False)
        modes = [('F_', False, 'forward'), ('A_', True, 'adjoint, tape active'), ('A_', False, 'adjoint, no tape')]
        if c.res == 'T':
            modes += [('C_', True, 'constructed, tape active'), ('C_', False, 'constructed, no tape')]
        for name, act, nm in modes:
            try:
                R = run_one(ctx, mod, c, name, act)
            except Undecided as e:
                ctx.fail_obl('%s %s' % (c.id, nm), str(e), c.id)
                continue
            ctx.cover('%s %s' % (c.id, nm), any(r[1] is not None for r in R))
            for j, (pc, res, kind, frame) in enumerate(R):
                if res is None:
                    check('%s %s: does not end in %s' % (c.id, nm, kind), pc, z3.BoolVal(False))
                    continue
                for fr in frame:
                    check('%s %s path %d: operand unchanged' % (c.id, nm, j), pc, fr)
                for pv, rv, kv, _ in V:
                    if rv is None:
                        continue
                    for (n1, a), (n2, b) in zip(res, rv):
                        g = a == b
                        hyp = []
                        if c.rel == 'mm':
                            g = z3.Or(g, z3.fpEQ(a, b))
                            for i in range(len(c.kinds)):
                                q = z3.FP(('x%d' if i in c.act else 'p%d') % i, a.sort())
                                hyp.append(z3.Not(z3.fpIsNaN(q)))
                        check('%s %s path %d: %s equals the plain result' % (c.id, nm, j, n1), list(pc) + list(pv) + hyp, g)
    except Undecided as e:
        ctx.fail_obl(c.id, str(e), c.id)
    if nat:
        fails = []
        cnt = 0
        for env in points(c, ctx.rng, nnat):
            cnt += 1
            f = nat.run(c, env)
            if f:
                fails.append(dict(failure=f))
        ctx.native(c.id, cnt, fails, 'special values (zeros, infinities, NaN, denormals, ties) and seeded random operands; plain, forward, adjoint recording and not recording compared bit for bit',
                   dict(case=c.id, points=cnt, result='bitwise equal to the plain operation' if not fails else fails[0]))
