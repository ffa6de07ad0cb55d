"""Loop rule: a loop is replaced by its invariant (proved at entry and at every back edge), every location the body may
write is forgotten.  Loops without an invariant are only followed when they end after a few (concretely decided)
iterations.  In the mode ex.unroll = k (used only to look for counterexamples, never for proofs) all loops are unrolled."""
import re
import z3
from . import ir
from .sym import *
from .sym import PathEnd


class LoopSpec:
    """fn: regex on the demangled name of the function that contains the loop; n: ordinal of the loop in that function
    (textual order of the loop heads); inv(V) -> [(name, formula)]; decreases(V) -> 64 bit value.
    An invariant over all positions is stated for an arbitrary constant position (proved for it, hence for all); the
    instances of it that an iteration needs are listed with names starting with @ and only assumed."""

    def __init__(self, fn, n, inv, decreases=None, name='', const=()):
        self.fn = re.compile(fn)
        self.n = n
        self.inv = inv
        self.decreases = decreases
        self.name = name
        self.const = const


class View:
    """the program variables at a loop head, by their source names"""

    def __init__(self, ex, f, blocks, st, env):
        self.ex, self.f, self.blocks, self.st, self.env = ex, f, blocks, st, env

    def names(self, name):
        rx = re.compile(r'^%' + name + r'\d*$')
        return [k for k in self.env if isinstance(k, str) and rx.match(k)]

    def ptr(self, name):
        c = self.names(name)
        if len(c) > 1:
            txt = ' '.join(' '.join(self.f.blocks[b]) for b in self.blocks)
            used = [k for k in c if re.search(re.escape(k) + r'(?![\w.])', txt)]
            c = used or c
        if len(c) != 1:
            raise Undecided('loop variable %s: %s' % (name, c))
        return self.env[c[0]]

    def cell(self, name):
        p = self.ptr(name)
        if not isinstance(p, Ptr) or p.reg is None:
            raise Undecided('loop variable ' + name)
        c = self.st.mem[p.reg].get(p.off)
        if c is None:
            for k in self.st.mem[p.reg]:
                if isinstance(k, tuple) and k[0] == 'z' and k[1] <= p.off < k[1] + k[2]:
                    return 0
            raise Undecided('loop variable %s has no value' % name)
        return c[0]

    def var(self, name, w=64):
        v = self.cell(name)
        if isinstance(v, (Ptr, OPtr)):
            return v
        return bvz(v, w) if isinstance(v, int) else v


def ordinal(ex, f, h):
    li = ex.loops_of(f)
    return [b for b in f.blocks if b in li].index(h)


def find_spec(ex, f, h):
    d = ir.dem(f.name)
    n = ordinal(ex, f, h)
    for s in ex.loop_specs:
        if s.fn.search(d) and s.n == n:
            return s
    return None


def do_loop(ex, f, h, blocks, st, env, prev):
    k = getattr(ex, 'unroll', None)
    if k is not None:
        return unroll(ex, f, h, blocks, st, env, prev, k, True)
    sp = find_spec(ex, f, h)
    if sp is None:
        return unroll(ex, f, h, blocks, st, env, prev, getattr(ex, 'unroll_limit', 16), False)
    return summary(ex, f, h, blocks, st, env, prev, sp)


def unroll(ex, f, h, blocks, st, env, prev, limit, cut):
    out = []
    cur = [(st, env, prev)]
    for i in range(limit + 1):
        nxt = []
        for s, e, p in cur:
            for ev in ex.run(f, s, e, h, p, (h, blocks)):
                if ev[0] == 'back':
                    nxt.append((ev[1], ev[2], ev[3]))
                else:
                    out.append(ev)
        if not nxt:
            return out
        cur = nxt
        if len(cur) > getattr(ex, 'unroll_paths', 64):
            break
    if cut:
        ex.truncated = True
        return out
    raise Undecided('loop without an invariant in ' + ir.dem(f.name))


# ------------------------------------------------------------------ write sets
def wkeys(log, base):
    """logged writes restricted to regions that exist in the base state"""
    w = {}
    for e in log:
        if e[0] in base.mem:
            w.setdefault((e[0], e[1]), set()).add(e[2])
    return w


def same_shape(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.reg is b.reg and a.off == b.off and (a.reg is None or a.reg.kind == 'arr' or True)
    return not isinstance(a, (Ptr, OPtr, FnPtr, PtrInt)) and not isinstance(b, (Ptr, OPtr, FnPtr, PtrInt))


def ck_same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)


def havoc(ex, s, W, dead, wild):
    """forget the locations in W; dead: not readable at the loop head; wild: pointers whose chunk provenance is lost"""
    log = s.log
    s.log = None
    for (reg, off), tys in W.items():
        if log is not None:
            for t in tys:
                log.append((reg, off, t))
        if isinstance(off, tuple):
            if off[0] == 'z':
                d = s.wcells(reg)
                for k in [k for k in d if isinstance(k, int) and off[1] <= k < off[1] + off[2]]:
                    del d[k]
                for k in [k for k in d if isinstance(k, tuple) and k[0] == 'z' and k[1] < off[1] + off[2] and off[1] < k[1] + k[2]]:
                    del d[k]
                continue
            v = s.mem[reg].get(off)
            if hasattr(v, 'havoc'):
                s.wcells(reg)[off] = v.havoc(ex)
                continue
            if v is None:
                continue        # not alive at the loop head: created (and destroyed) within one iteration
            if not isinstance(v, VecVal):
                raise Undecided('abstract value changed in a loop: %r' % (off,))
            vr = v.reg
            if (reg, off) in wild:
                # the body replaces the storage: nothing is known about its elements
                vr = Region('h_' + v.reg.name, kind='arr', stride=v.reg.stride, fields=dict(v.reg.fields), check=v.reg.check, tag=v.reg.tag)
                s.mem[vr] = {}
                s.own.add(vr)
                for k, a in s.mem[v.reg].items():
                    z = a.sel(z3.BitVec('srtprobe', 64))
                    z = z if z3.is_expr(z) else ex.zval(z, v.reg.fields[k])
                    ex.nsym += 1
                    s.mem[vr][k] = arr_const('hv_%s_%s!%d' % (v.reg.name, k, ex.nsym), z.sort())
            s.wcells(reg)[off] = VecVal(vr, ex.fresh_bv('hsize_%s' % v.reg.name, 64))
            continue
        if reg.kind == 'arr':
            a = s.mem[reg][off]
            srt = getattr(reg, 'sorts', {}).get(off)
            if srt is None:
                z = a.sel(z3.BitVec('srtprobe', 64))
                z = z if z3.is_expr(z) else ex.zval(z, reg.fields[off])
                srt = z.sort()
            ex.nsym += 1
            s.wcells(reg)[off] = arr_const('h_%s_%d.%s!%d' % (reg.name, reg.id, off, ex.nsym), srt)
            continue
        d = s.wcells(reg)
        c = d.get(off)
        if c is None:
            for k in list(d):
                if isinstance(k, tuple) and k[0] == 'z' and k[1] <= off < k[1] + k[2]:
                    t = [t for t in tys if t]
                    c = (ex.zero(t[0]), t[0]) if t else None
        if (reg, off) in dead or c is None:
            for t in tys:
                if t is not None:
                    for k in [k for k in d if isinstance(k, int) and off <= k < off + ex.mod.size(t)]:
                        del d[k]
            continue
        v, ty = c
        if len([t for t in tys if t is not None and t != ty]):
            dead.add((reg, off))
            d.pop(off, None)
            continue
        if isinstance(v, Ptr):
            if v.reg is None or v.reg.kind != 'arr':
                if (reg, off) in wild:
                    d.pop(off, None)
                # otherwise: the body only ever re-stores the same pointer
                continue
            ck = v.ck
            if (reg, off) in wild:
                ck = ex.fresh_bv('hck', 64) if v.ck is not None else None
            ex.nsym += 1
            d[off] = (Ptr(v.reg, v.off, z3.BitVec('hidx_%s!%d' % (reg.name, ex.nsym), 64), ck), ty)
        elif isinstance(v, (OPtr, FnPtr, PtrInt)):
            dead.add((reg, off))
            d.pop(off, None)
        else:
            d[off] = (ex.fresh_of('h_%s_%s' % (reg.name, off), ty), ty)
    s.log = log


def ghost_havoc(s, gw, forget):
    if gw:
        g = dict(s.ghost)
        for k in gw:
            g[k] = forget[k]()
        s.ghost = g


def summary(ex, f, h, blocks, st, env, prev, sp):
    where = '%s loop %d' % (ir.dem(f.name)[:80], sp.n)
    ex.invariants = getattr(ex, 'invariants', 0) + 1
    # 1. entry
    V = View(ex, f, blocks, st, env)
    for nm, g in sp.inv(V):
        if nm[0] != '@':
            ex.oblige(st, g, '%s: invariant "%s" on entry' % (where, nm), kind='loop')
    # 2. write set by dry runs
    W, dead, wild = {}, set(), set()
    gw = set()          # ghost state the body changes (ex.ghost_forget: what to put in its place)
    forget = getattr(ex, 'ghost_forget', {})
    for it in range(8):
        s = st.fork()
        s.log = []
        havoc(ex, s, W, dead, wild)
        ghost_havoc(s, gw, forget)
        g0 = s.ghost
        heads = dict(s.mem)
        s.log = []
        e = dict(env)
        nob = len(ex.obls)
        try:
            for nm, g in sp.inv(View(ex, f, blocks, s, e)):
                s.assume(g)
            headmem = {r: dict(c) for r, c in s.mem.items() if any(k[0] is r for k in W)}
            evs = ex.run(f, s, e, h, prev, (h, blocks))
        finally:
            del ex.obls[nob:]
        changed = False
        for ev in evs:
            if ev[0] != 'back':
                # locations written on the way out are written by the final run as well
                continue
            b = ev[1]
            if b.ghost.get('freed') != st.ghost.get('freed'):
                raise Undecided('memory is released in a loop')
            for k in forget:
                if k not in gw and b.ghost.get(k) is not g0.get(k):
                    gw.add(k)
                    changed = True
            for k, tys in wkeys(b.log, st).items():
                if k not in W or not tys <= W[k]:
                    W[k] = W.get(k, set()) | tys
                    changed = True
            for (reg, off) in list(W):
                if isinstance(off, tuple) and off[0] == 'v' and (reg, off) not in wild:
                    hv, bw = headmem.get(reg, st.mem[reg]).get(off), b.mem[reg].get(off)
                    if isinstance(hv, VecVal) and (not isinstance(bw, VecVal) or bw.reg is not hv.reg):
                        wild.add((reg, off))
                        changed = True
                if isinstance(off, tuple) or reg.kind == 'arr' or (reg, off) in dead:
                    continue
                hc = headmem.get(reg, st.mem[reg]).get(off) if reg in headmem else st.mem[reg].get(off)
                bc = b.mem[reg].get(off)
                if hc is None:
                    continue
                if bc is None or bc[1] != hc[1] or not same_shape(hc[0], bc[0]):
                    if isinstance(hc[0], (Ptr, OPtr)) or bc is None or bc[1] != hc[1] or isinstance(bc[0], (Ptr, OPtr)):
                        dead.add((reg, off))
                        changed = True
                elif isinstance(hc[0], Ptr) and hc[0].reg is not None and hc[0].reg.kind == 'arr' and not ck_same(hc[0].ck, bc[0].ck) and (reg, off) not in wild:
                    if hc[0].ck is not None and bc[0].ck is not None:
                        wild.add((reg, off))
                    else:
                        dead.add((reg, off))
                    changed = True
        if not changed:
            break
    else:
        raise Undecided('write set of ' + where)
    # 3. arbitrary iteration
    s = st.fork()
    s.log = list(st.log) if st.log is not None else None
    havoc(ex, s, W, dead, wild)
    ghost_havoc(s, gw, forget)
    e = dict(env)
    V = View(ex, f, blocks, s, e)
    for nm, g in sp.inv(V):
        s.assume(g if not isinstance(g, (int, bool)) else z3.BoolVal(bool(g)))
    m0 = sp.decreases(V) if sp.decreases else None
    evs = ex.run(f, s, e, h, prev, (h, blocks))
    out = []
    for ev in evs:
        if ev[0] == 'back':
            V = View(ex, f, blocks, ev[1], ev[2])
            for nm, g in sp.inv(V):
                if nm[0] != '@':
                    ex.oblige(ev[1], g, '%s: invariant "%s" preserved' % (where, nm), kind='loop')
            if m0 is not None:
                m1 = sp.decreases(V)
                ex.oblige(ev[1], z3.ULT(bvz(m1, 64), bvz(m0, 64)), '%s: terminates (measure decreases)' % where, kind='loop')
        else:
            out.append(ev)
    return out
