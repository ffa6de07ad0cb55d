"""C20: frame contracts.  Every function of the library may touch only what is reachable from its parameters, its own stack and
fresh allocations, and the active-tape pointer of its own thread:

    assigns(f)  subset of  reach(parameters) + locals + fresh + { active_tape_ : thread local }

The obligation of one function: no reference to a static object that is neither immutable nor thread local (constant
initialisation, or initialisation under the compiler's guard and never written again, is immutable), and no call of an external
function without the corresponding contract.  By induction over the calls, two calls whose parameters reach disjoint objects have
disjoint footprints, whatever the threads they run in: that is the property (parallel composition rule of separation logic).
A reference to a shared mutable static object is refuted when some reachable code definitely writes it without atomics or a lock;
everything else that cannot be classified is undecided.  The footprints inside the tape objects are the frame clauses of C06-C13, C19."""
import re
from . import ir, build
from .ir import IRError

ATOM = re.compile(r'\b(atomicrmw|cmpxchg|load atomic|store atomic)\b')
NAME = re.compile(r'@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
LOCK = re.compile(r'pthread_mutex_lock|pthread_rwlock|_ZNSt5mutex4lock|call_once|pthread_once|pthread_spin')
# not thread safe by the C and POSIX standards: hidden static state
RACY = set('''rand srand random srandom drand48 erand48 lrand48 mrand48 strtok strerror localtime gmtime asctime ctime setlocale getenv setenv putenv
lgamma lgammaf lgammal gamma getpwnam getpwuid readdir ecvt fcvt gcvt l64a nl_langinfo tmpnam ttyname'''.split())
OK_EXT = re.compile(r'''^(llvm\.|__cxa_|__gxx_personality|_Znwm|_Znam|_ZdlPv|_ZdaPv|_ZnwmSt|_ZdlPvS|_ZdlPvm|_ZSt|_ZNSt|_ZNKSt|_ZN9__gnu_cxx|__clang_call_terminate|_Unwind|__assert_fail|__errno_location|pthread_|__gthr|sched_yield|__emutls|__tls|_ZTH|_ZTW|__dso
|(malloc|free|calloc|realloc|aligned_alloc|posix_memalign|memcpy|memmove|memset|memcmp|strlen|strcmp|abort|printf|puts|putchar|snprintf|atol|atexit|fabs|fabsf|fabsl)$
|(?:a?(?:sin|cos|tan)h?|atan2|exp2?|expm1|log(?:10|2|1p|b)?|ilogb|pow|sqrt|cbrt|hypot|erfc?|tgamma|fmod|remainder|remquo|ceil|floor|trunc|l?l?round|l?l?rint|nearbyint|ldexp|scalbl?n|frexp|modf|nextafter|nexttoward|copysign|fdim|fma|fmax|fmin|nan|abs|labs|llabs|sincos|fesetround|fegetround|c(?:abs|arg|exp|log|pow|sqrt|proj|a?(?:sin|cos|tan)h?)|mul[dst]c3|__mul[dsx]c3|__div[dsx]c3)[fl]?$)''', re.X)
DISPATCH = re.compile(r'__exchange_and_add|__atomic_add')
DRIVER_EXT = re.compile(r'^(u_v|u_d|u_h|u_any)$')


class Eff:
    """flow-insensitive effects of one function: which parameters (depth 0 = the object itself, 1 = memory loaded from it) and
    globals it writes, and what a returned pointer is derived from"""
    def __init__(self):
        self.w = {}      # tag -> description of the write
        self.ret = set()
        self.esc = set()   # pointers it stores somewhere


def deep(tags):
    return {(k, n, 1) for k, n, d in tags}


class Module:
    def __init__(self, mod, label):
        self.m = mod
        self.label = label
        self.eff = {}
        self.mut = {}    # mutable, non thread local globals defined or declared here -> kind
        for g, v in mod.globals.items():
            txt = v if isinstance(v, str) else None
            head = (txt or '').split(' = ')[0][:400]
            if txt is None:
                ty, init, tls, const = v
            else:
                pre = re.split(r'\b(?:global|constant)\b', txt, maxsplit=1)
                tls = 'thread_local' in pre[0]
                const = re.search(r'\b(global|constant)\b', txt).group(1) == 'constant'
            ext = bool(re.match(r'(?:external|extern_weak)\b', txt or ''))
            if const or tls or g.startswith('@llvm.'):
                continue
            if g.startswith(('@_ZGV', '@_ZStL8__ioinit', '@__dso_handle')):
                continue
            self.mut[g] = 'external' if ext else 'static'

    def owner(self, g):
        return g.strip('@"')

    def exempt_blocks(self, f):
        """blocks that run once, under the guard of a function-local static"""
        start = set()
        rel = set()
        succ = {}
        for b, ins in f.blocks.items():
            for s in ins:
                if '@__cxa_guard_acquire' in s:
                    start.add(b)
                if '@__cxa_guard_release' in s or '@__cxa_guard_abort' in s:
                    rel.add(b)
            last = ins[-1] if ins else ''
            succ[b] = ['%' + x for x in re.findall(r'label %("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', ' '.join(ins[-1:]))] if ins else []
        ex = set()
        for b in start:
            todo = succ[b][:1]       # br i1 (acquired), label %init, label %done
            while todo:
                x = todo.pop()
                if x in ex:
                    continue
                ex.add(x)
                if x not in rel:
                    todo += succ.get(x, [])
        return ex

    def analyse(self, name):
        """one pass over a function with the current summaries of its callees; returns True if its summary changed"""
        f = self.m.func(name)
        e = self.eff.setdefault(name, Eff())
        before = (len(e.w), len(e.ret), len(e.esc))
        val = {}
        hold = {}
        for i, (p, ty) in enumerate(f.params):
            val[p] = {('p', i, 0)} if ty == ir.PTR else set()
        once = self.exempt_blocks(f)
        init = name.startswith(('@__cxx_global_var_init', '@_GLOBAL__'))

        def tags(v):
            if v is None:
                return set()
            if v[0] == 'l':
                return val.get(v[1], set())
            return self.gl(v)
        allocas = set()
        for _ in range(3):
            ch = False
            for b, ins in f.blocks.items():
                for s in ins:
                    if ATOM.search(s) or s.startswith('resume') or ' landingpad ' in s:
                        continue
                    try:
                        q = self.m.instr(s)
                    except (IRError, ValueError, IndexError, TypeError):
                        continue
                    op, dst = q[0], q[1]
                    new = None
                    if op == 'alloca':
                        allocas.add(dst)
                    elif op == 'load':
                        a = q[3]
                        if a[0] == 'l' and a[1] in allocas:
                            new = hold.get(a[1], set())
                        elif q[2] == ir.PTR:
                            new = deep(tags(a))
                    elif op == 'store':
                        a = q[4]
                        if a[0] == 'l' and a[1] in allocas:
                            h = hold.setdefault(a[1], set())
                            t = tags(q[3])
                            if not t <= h:
                                h |= t
                                ch = True
                        else:
                            if q[2] == ir.PTR:
                                for t in tags(q[3]):
                                    e.esc.add(t)
                            if b not in once and not init:
                                for t in tags(a):
                                    e.w.setdefault(t, 'store in %s' % name)
                    elif op == 'gep':
                        new = tags(q[3])
                    elif op == 'cast':
                        new = tags(q[4]) if q[5] == ir.PTR or q[3] == ir.PTR else None
                    elif op == 'select':
                        new = tags(q[4]) | tags(q[5])
                    elif op == 'phi':
                        new = set()
                        for v, _b in q[3]:
                            new |= tags(v)
                    elif op == 'call' and q[3][0] == 'g':
                        c = self.m.aliases.get(q[3][1], q[3][1])
                        args = q[4]
                        if c.startswith(('@llvm.memcpy', '@llvm.memmove', '@llvm.memset', '@memcpy', '@memmove', '@memset')):
                            if b not in once and not init:
                                for t in tags(args[0][1]):
                                    e.w.setdefault(t, 'memory written in %s' % name)
                        elif c.startswith('@llvm.threadlocal'):
                            new = set()
                        elif c in self.m.funcs and not DISPATCH.search(c):
                            ce = self.eff.get(c)
                            if ce:
                                m = lambda t: {(k, n, max(d, t[2])) for k, n, d in tags(args[t[1]][1])} if t[0] == 'p' and t[1] < len(args) and args[t[1]][0] == ir.PTR else ({t} if t[0] == 'g' else set())
                                if b not in once and not init:
                                    for t, why in list(ce.w.items()):
                                        if t[0] == 'g':
                                            continue
                                        for u in m(t):
                                            # a local object handed to the callee is not what its content refers to
                                            e.w.setdefault(u, why + ' called from ' + name if len(why) < 300 else why)
                                for t in ce.esc:
                                    e.esc |= m(t) if t[0] == 'p' else set()
                                new = set()
                                for t in ce.ret:
                                    new |= m(t)
                    elif op == 'ret' and q[2] == ir.PTR:
                        e.ret |= tags(q[3])
                    if new and dst is not None and not new <= val.get(dst, set()):
                        val[dst] = val.get(dst, set()) | new
                        ch = True
            if not ch:
                break
        return (len(e.w), len(e.ret), len(e.esc)) != before

    def gl(self, v):
        if v[0] == 'g' and v[1] in self.mut:
            return {('g', v[1], 0)}
        if v[0] in ('gep', 'cexpr', 'cgep') or (isinstance(v, tuple) and len(v) > 1):
            out = set()
            for x in v[1:]:
                if isinstance(x, tuple) and x and x[0] in ('g', 'gep', 'cexpr', 'cgep'):
                    out |= self.gl(x)
            return out
        return set()

    def run(self):
        bad = set()
        refs = {}
        need = set()
        for n, f in self.m.funcs.items():
            lines = f._lines if f._lines is not None else [s for b in f.blocks.values() for s in b]
            seen = set()
            for l in lines:
                for x in NAME.findall(l):
                    seen.add(x)
            refs[n] = seen
        shared = {}
        for n, seen in refs.items():
            for x in seen:
                if x in self.mut:
                    shared.setdefault(x, []).append(n)
        writes, escapes = {}, {}
        if shared:
            # functions that may lead to a write: run the effect analysis over the whole module
            order = list(self.m.funcs)
            for _ in range(8):
                ch = False
                for n in order:
                    try:
                        ch |= self.analyse(n)
                    except (IRError, KeyError, ValueError, IndexError, TypeError) as ex:
                        bad.add((n, repr(ex)[:200]))
                if not ch:
                    break
            for n, e in self.eff.items():
                for t, why in e.w.items():
                    if t[0] == 'g':
                        writes.setdefault(t[1], (n, why))
                for t in e.esc:
                    if t[0] == 'g':
                        escapes.setdefault(t[1], set()).add(n)
        return refs, shared, writes, escapes, bad


def demangle(names):
    import subprocess
    p = subprocess.run(['c++filt'], input='\n'.join(n.strip('@"') for n in names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, p.stdout.split('\n')))


def lib(dem):
    """functions and objects that belong to the library or are instantiated for it (the driver's own are not checked)"""
    return 'xad' in dem


def task(ctx, ll, label, own, tape=True):
    mod = ir.load(ll)
    M = Module(mod, label)
    refs, shared, writes, escapes, bad = M.run()
    dem = demangle(list(mod.funcs) + list(M.mut) + list(mod.globals))
    dups = set()
    locked = {n for n, s in refs.items() if any(LOCK.search(x) for x in s)}
    const = set()
    for n, seen in refs.items():
        d = dem.get(n, n)
        if own(d):
            continue
        name = 'frame of %s' % d[:200]
        why = None
        status = None
        for x in sorted(seen):
            g = dem.get(x, x)
            if x in M.mut and not own(g):
                if M.mut[x] == 'external' and g.startswith('std::') or g.startswith(('stdout', 'stderr')):
                    continue
                ws = writes.get(x)
                if ws and not own(dem.get(ws[0], ws[0])) and not any(k in locked for k in (n, ws[0])):
                    why = 'refers to the static object %s, which all threads share and which is written: %s' % (g, ' <- '.join(dem.get(y, y) if y[0] == '@' else y for y in ws))
                    status = 'refuted'
                elif M.mut[x] == 'external' or ws or bad:
                    why = why or 'refers to the static object %s' % g
                    status = status or 'undecided'
                elif any(not own(dem.get(k, k)) for k in escapes.get(x, ())):
                    why = why or 'refers to the static object %s, whose address is stored in %s' % (g, sorted(escapes[x])[:2])
                    status = status or 'undecided'
                else:
                    const.add(g)      # initialised once under the guard; no store through any pointer derived from it
            elif x[1:].strip('"') in RACY and x in mod.decls:
                why = 'calls %s, which keeps static state that all threads share' % x[1:]
                status = 'refuted'
        if status is None:
            ctx.results.append(dict(name=name, fn=d, status='proved', backend='frame', secs=0))
            ctx.functions[d] = ctx.functions.get(d, 0) + 1
        else:
            ctx.results.append(dict(name=name, fn=d, status=status, backend=None, secs=0, detail=why, formula='assigns(%s) excludes shared static objects' % d[:120]))
    # the selection of the active tape is per thread
    k = 0
    for g, v in mod.globals.items():
        d = dem.get(g, g)
        if not re.match(r'xad::Tape<.*>::\w+$', d):
            continue
        try:
            tls = 'thread_local' in re.split(r'\b(?:global|constant)\b', v)[0] if isinstance(v, str) else v[2]
            con = (isinstance(v, str) and re.search(r'\b(global|constant)\b', v).group(1) == 'constant') or (not isinstance(v, str) and v[3])
        except (AttributeError, IndexError):
            continue
        if con:
            continue
        k += 1
        ctx.results.append(dict(name='%s is thread local' % d, fn=d, status='proved' if tls else 'refuted', backend='frame', secs=0, detail='' if tls else 'one object for all threads', formula='storage(%s) = thread' % d))
    M.tapes = tape
    if tape:
        ctx.cover('active tape selection present', k > 0)
    exts = sorted({x for n, s in refs.items() if not own(dem.get(n, n)) for x in s if x in mod.decls})
    for x in exts:
        nm = x[1:].strip('"')
        if OK_EXT.match(nm) or DRIVER_EXT.match(nm) or own(dem.get(x, nm)):
            ctx.assumed.add('thread safe: ' + nm)
        elif re.match(r'_ZNK?3xad4Tape', nm) and not M.tapes:
            ctx.contracts['frame of ' + dem.get(x, nm)] = 1     # proved in the module that defines it
        elif nm not in RACY:
            ctx.fail_obl('contract of the external function ' + nm, 'no frame contract for it', nm)
    if const:
        ctx.samples.append(dict(immutable_after_guarded_initialisation=sorted(const)))
    for n, w in sorted(bad)[:5]:
        if shared:
            ctx.fail_obl('effects of ' + dem.get(n, n)[:160], w, n)


def own(d):
    return 'xad' not in d


def compile_and_check(ctx, name, src, defs=(), tape=False):
    path = src if src.startswith('/') else ctx.chk.scratch.write(name + '.cpp', src)
    try:
        ll = ctx.chk.scratch.ll(path, name + '.ll', defs=defs)
    except build.BuildError as e:
        ctx.fail_obl('frames of ' + name, 'does not build: ' + str(e)[-600:])
        return
    task(ctx, ll, name, own, tape)


def setup(chk):
    import os
    from . import values, cplx, exprlayer as el, nat
    chk.task('tape, variables, matrices', compile_and_check, 'frames_tape', os.path.join(nat.NAT, 'threads.cpp'), (), True)
    chk.task('tape, re-used slots', compile_and_check, 'frames_reuse', os.path.join(nat.NAT, 'threads.cpp'), ('-DXAD_TAPE_REUSE_SLOTS', '-DXADVC_REUSE'), True)
    pre = el.PRE.replace('#include <Tape.cpp>\n', '')
    cs = values.cases()
    n = 5
    for i in range(n):
        chk.task('functions %d' % i, compile_and_check, 'frames_f%d' % i, pre + values.HELP + 'using namespace xad;\n' + ''.join(c.cpp() for c in cs[i::n]))
    cd = cplx.all_drivers(chk.thorough)
    n = 3
    cpre = cplx.PRE.replace('#include <Tape.cpp>\n', '')
    for i in range(n):
        chk.task('complex %d' % i, compile_and_check, 'frames_c%d' % i, cpre + 'using namespace xad;\n' + ''.join(d.cpp('FAN') for d in cd[i::n]))
    nat.add(chk, 'threads', 'threads.cpp', opt='-O0', shards=2, n=(150, 3000), rule=RULE)
    nat.add(chk, 'threads_tsan', 'threads.cpp', ['-DSMALL_CHUNK'], [], opt='-O0', san='thread', shards=2, n=(10, 300), rule=RULE + ' (thread sanitizer)')
    nat.add(chk, 'threads_reuse', 'threads.cpp', ['-DXAD_TAPE_REUSE_SLOTS'], None, opt='-O0', shards=1, n=(80, 1500), rule=RULE + ' (slots re-used)')


RULE = 'random programs on six threads at once, each with its own tapes, bit for bit against the same programs alone'
