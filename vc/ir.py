"""Parser for the textual LLVM IR that clang++ emits from the real sources (LLVM 18, -O0).

Only what clang emits at -O0 for C++ is understood; anything else raises IRError, which the
callers treat as "undecided" (never as a violation).
"""
import re, struct, subprocess
from fractions import Fraction


class IRError(Exception):
    pass


TOK = re.compile(r'''
   "(?:[^"\\]|\\.)*"
 | c"(?:[^"\\]|\\.)*"
 | [%@$](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)
 | ![a-zA-Z0-9_.]*
 | \#\d+
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+\.\d*(?:[eE][-+]?\d+)?
 | -?\d+
 | [a-zA-Z_][a-zA-Z0-9_.]*
 | \.\.\.
 | [(){}\[\]<>,=*:|]
''', re.X)

I = lambda n: ('i', n)
PTR = ('ptr',)
DOUBLE = ('double',)
FLOAT = ('float',)
VOID = ('void',)

PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly',
               'readnone', 'writeonly', 'returned', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself',
               'swifterror', 'noreturn', 'dead_on_unwind', 'writable', 'allocptr', 'allocalign'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype',
                   'byref', 'preallocated', 'inalloca', 'initializes', 'captures', 'range'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending',
           'extern_weak', 'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden',
           'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'dllimport', 'dllexport'}
CCONV = {'ccc', 'fastcc', 'coldcc'}


class Toks:
    __slots__ = ('t', 'i', 'mod', 'src')

    def __init__(self, mod, s):
        self.t = TOK.findall(s)
        self.i = 0
        self.mod = mod
        self.src = s

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise IRError('unexpected end: ' + self.src[:200])
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        g = self.next()
        if g != v:
            raise IRError('expected %s got %s in %s' % (v, g, self.src[:200]))

    # ---- types
    def type(self):
        t = self.next()
        if t == 'ptr':
            if self.eat('addrspace'):
                self.expect('('); self.next(); self.expect(')')
            r = PTR
        elif t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t in ('double', 'float', 'void', 'x86_fp80', 'half', 'fp128', 'metadata', 'token', 'label', 'opaque'):
            r = (t,)
        elif t[0] == '%':
            r = ('struct', t)
        elif t == '{':
            r = self._lit('}', False)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = self._lit('}', True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                r = ('vec', n, e)
        elif t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            r = ('arr', n, e)
        else:
            raise IRError('type? %s in %s' % (t, self.src[:200]))
        # function type
        while self.peek() == '(' and r != PTR:
            # function type "ret (params)" - only in call of varargs
            self.next()
            ps = []
            while not self.eat(')'):
                if self.eat('...'):
                    ps.append('...')
                else:
                    ps.append(self.type())
                self.eat(',')
            r = ('fn', r, tuple(ps))
        return r

    def _lit(self, end, packed):
        el = []
        while not self.eat(end):
            el.append(self.type())
            self.eat(',')
        return ('lit', tuple(el), packed)

    # ---- values
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return ('l', t)
        if c == '@':
            return ('g', t)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'none':
            return ('none',)
        if ty[0] == 'i' and (c == '-' or c.isdigit()):
            return ('c', int(t) % (1 << ty[1]))
        if ty in (DOUBLE, FLOAT) and (c == '-' or c.isdigit()):
            if t.startswith('0x'):
                bits = int(t[2:], 16)
                f = struct.unpack('>d', struct.pack('>Q', bits))[0]
            else:
                f = float(t)
            return ('f', f)
        if ty == ('x86_fp80',):
            if t.startswith('0xK'):
                return ('f80', t)
        if t == 'getelementptr':
            self.eat('inbounds')
            self.expect('(')
            st = self.type(); self.expect(',')
            args = []
            while True:
                self.eat('inrange')
                aty = self.type()
                args.append((aty, self.value(aty)))
                if not self.eat(','):
                    break
            self.expect(')')
            return ('cgep', st, args)
        if t in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc'):
            self.expect('(')
            aty = self.type(); v = self.value(aty); self.expect('to'); ty2 = self.type(); self.expect(')')
            return ('ccast', t, aty, v, ty2)
        if t in ('sub', 'add') and self.peek() in ('(', 'nuw', 'nsw'):
            while self.peek() != '(':
                self.next()
            self.expect('(')
            a = self.type(); va = self.value(a); self.expect(','); b = self.type(); vb = self.value(b); self.expect(')')
            return ('cbin', t, a, va, vb)
        if c == '{' or c == '[' or c == '<':
            if c == '<' and self.peek() == '{':
                self.next()
                end = '}'
            else:
                end = {'{': '}', '[': ']', '<': '>'}[c]
            el = []
            while not self.eat(end):
                ety = self.type()
                el.append((ety, self.value(ety)))
                self.eat(',')
            if c == '<' and end == '}':
                self.expect('>')
            return ('agg', el)
        if t.startswith('c"'):
            return ('str', t[2:-1])
        raise IRError('value? %s : %s in %s' % (t, ty, self.src[:300]))

    def skip_param_attrs(self):
        sret = None
        while True:
            p = self.peek()
            if p in PARAM_ATTRS:
                self.next()
            elif p in PARAM_ATTRS_ARG:
                self.next()
                if self.peek() == '(':
                    if p in ('sret', 'byval', 'elementtype'):
                        self.next(); ty = self.type(); self.expect(')')
                        if p in ('sret', 'byval'):
                            sret = (p, ty)
                    else:
                        d = 0
                        while True:
                            q = self.next()
                            if q == '(':
                                d += 1
                            elif q == ')':
                                d -= 1
                                if d == 0:
                                    break
                elif p == 'align':
                    self.next()
            elif p and p[0] == '"':
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return sret


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'vararg', 'attrs', '_lines', 'mod', 'pattrs')

    def parsed(self):
        if self.blocks is None:
            self._parse()
        return self

    def _parse(self):
        blocks = {}
        cur = None
        lines = self._lines
        n = len(lines)
        i = 0
        nparams = len(self.params)
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if ln[0] != ' ':
                m = re.match(r'((?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)):', ln)
                if not m:
                    raise IRError('label? ' + ln)
                cur = '%' + m.group(1)
                blocks[cur] = []
                if self.entry is None:
                    self.entry = cur
                continue
            if cur is None:
                cur = '%' + str(nparams)
                self.entry = cur
                blocks[cur] = []
            if s.startswith('#dbg'):
                continue
            if s.startswith('switch') or ' switch ' in s[:30]:
                while ']' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            elif re.match(r'\s*(%\S+ = )?invoke ', s) and ' unwind label ' not in s:
                s += ' ' + lines[i].strip()
                i += 1
            elif 'landingpad' in s[:60]:
                while i < n and lines[i].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                    s += ' ' + lines[i].strip()
                    i += 1
            # strip metadata suffix
            k = s.find(', !')
            if k >= 0:
                s = s[:k]
            blocks[cur].append(s)
        self.blocks = blocks
        self._lines = None


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'ptrtoint',
         'inttoptr', 'bitcast', 'addrspacecast'}
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.decls = {}
        self.aliases = {}
        self._icache = {}
        self._szc = {}
        self._scan(text)
        self._dem = None

    def _scan(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln:
                i += 1
                continue
            c = ln[0]
            if c == '%':
                k = ln.find(' = type ')
                self.types[ln[:k]] = ln[k + 8:]
            elif c == '@':
                self._global(ln)
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._func(ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', ln)
                self.decls[m.group(1)] = ln
            i += 1

    def _global(self, ln):
        k = ln.find(' = ')
        name = ln[:k]
        if ' alias ' in ln[:k + 120]:
            m = re.search(r'alias .*?, ptr (@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))', ln)
            if m:
                self.aliases[name] = m.group(1)
            return
        self.globals[name] = ln[k + 3:]

    def global_info(self, name):
        g = self.globals[name]
        if isinstance(g, str):
            t = Toks(self, g)
            ext = False
            tls = False
            const = False
            while True:
                p = t.peek()
                if p in ('global', 'constant'):
                    const = p == 'constant'
                    t.next()
                    break
                if p in ('external', 'extern_weak'):
                    ext = True
                if p == 'thread_local':
                    tls = True
                    t.next()
                    if t.eat('('):
                        t.next(); t.expect(')')
                    continue
                t.next()
            ty = t.type()
            init = None
            if not ext:
                init = t.value(ty)
            g = (ty, init, tls, const)
            self.globals[name] = g
        return g

    def _func(self, ln, body):
        f = Func()
        m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', ln)
        f.name = m.group(1)
        f.blocks = None
        f.entry = None
        f._lines = body
        f.mod = self
        f.ret = ln
        f.params = None
        f.vararg = False
        f.attrs = None
        f.pattrs = None
        self.funcs[f.name] = f

    def func(self, name):
        name = self.aliases.get(name, name)
        f = self.funcs.get(name)
        if f is None:
            return None
        if f.params is None:
            t = Toks(self, f.ret[len('define '):])
            while t.peek() in LINKAGE or t.peek() in CCONV:
                t.next()
            t.skip_param_attrs()
            while t.peek() in LINKAGE or t.peek() in CCONV:
                t.next()
            f.ret = t.type()
            t.next()
            t.expect('(')
            f.params = []
            f.pattrs = []
            k = 0
            while not t.eat(')'):
                if t.eat('...'):
                    f.vararg = True
                    continue
                ty = t.type()
                at = t.skip_param_attrs()
                nm = t.peek()
                if nm and nm[0] == '%':
                    t.next()
                else:
                    nm = '%' + str(k)
                k += 1
                f.params.append((nm, ty))
                f.pattrs.append(at)
                t.eat(',')
            f.parsed()
        return f

    # ---- layout
    def resolve(self, ty):
        while ty[0] == 'struct':
            d = self.types[ty[1]]
            if isinstance(d, str):
                d = Toks(self, d).type()
                self.types[ty[1]] = d
            ty = d
        return ty

    def layout(self, ty):
        """(size, align) in bytes (ABI)"""
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return (p, min(p, 16))
        if k == 'ptr':
            return (8, 8)
        if k == 'double':
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'x86_fp80':
            return (16, 16)
        c = self._szc.get(ty)
        if c:
            return c
        if k == 'struct':
            r = self.layout(self.resolve(ty))
        elif k == 'arr':
            s, a = self.layout(ty[2])
            r = (s * ty[1], a)
        elif k == 'vec':
            s, a = self.layout(ty[2])
            r = (s * ty[1], s * ty[1])
        elif k == 'lit':
            r = self._slayout(ty)[1:]
        else:
            raise IRError('layout %s' % (ty,))
        self._szc[ty] = r
        return r

    def _slayout(self, ty):
        off = 0
        al = 1
        offs = []
        for e in ty[1]:
            s, a = self.layout(e)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        return (offs, (off + al - 1) // al * al, al)

    def field_offset(self, ty, i):
        ty = self.resolve(ty)
        if ty[0] == 'lit':
            return self._slayout(ty)[0][i], ty[1][i]
        raise IRError('field of %s' % (ty,))

    def size(self, ty):
        return self.layout(ty)[0]

    # ---- instructions
    def instr(self, s):
        r = self._icache.get(s)
        if r is None:
            r = self._parse_instr(s)
            self._icache[s] = r
        return r

    def _parse_instr(self, s):
        t = Toks(self, s)
        dst = None
        if t.peek()[0] == '%' and t.peek(1) == '=':
            dst = t.next(); t.next()
        op = t.next()
        if op in ('tail', 'musttail', 'notail'):
            op = t.next()
        if op == 'alloca':
            t.eat('inalloca')
            ty = t.type()
            cnt = None
            if t.eat(','):
                if t.peek() != 'align':
                    cty = t.type()
                    cnt = (cty, t.value(cty))
            return ('alloca', dst, ty, cnt)
        if op == 'load':
            at = t.eat('atomic'); t.eat('volatile')
            ty = t.type(); t.expect(','); t.type()
            return ('load', dst, ty, t.value(PTR))
        if op == 'store':
            t.eat('atomic'); t.eat('volatile')
            ty = t.type(); v = t.value(ty); t.expect(','); t.type()
            return ('store', None, ty, v, t.value(PTR))
        if op == 'getelementptr':
            while t.peek() in ('inbounds', 'nuw', 'nusw'):
                t.next()
            ty = t.type(); t.expect(','); t.type(); base = t.value(PTR)
            idx = []
            while t.eat(','):
                ity = t.type()
                idx.append((ity, t.value(ity)))
            return ('gep', dst, ty, base, idx)
        if op in ('call', 'invoke'):
            while t.peek() in FMF or t.peek() in CCONV:
                t.next()
            t.skip_param_attrs()
            if t.peek() == 'addrspace':
                t.next(); t.next(); t.next(); t.next()
            rty = t.type()
            if rty[0] == 'fn':
                rty = rty[1]
            if t.peek() == 'asm':
                return ('asm', dst, rty, s)
            callee = t.value(PTR)
            t.expect('(')
            args = []
            while not t.eat(')'):
                aty = t.type()
                if aty == ('metadata',):
                    d = 0
                    # skip to ',' or ')'
                    while t.peek() not in (',', ')'):
                        if t.next() == '(':
                            while t.next() != ')':
                                pass
                    args.append((aty, None, None))
                    t.eat(',')
                    continue
                at = t.skip_param_attrs()
                args.append((aty, t.value(aty), at))
                t.eat(',')
            nl = ul = None
            if op == 'invoke':
                while t.peek() != 'to':
                    t.next()
                t.next(); t.expect('label'); nl = t.next(); t.expect('unwind'); t.expect('label'); ul = t.next()
            return ('call', dst, rty, callee, args, nl, ul)
        if op == 'br':
            if t.eat('label'):
                return ('jmp', None, t.next())
            ty = t.type(); c = t.value(ty); t.expect(','); t.expect('label'); a = t.next(); t.expect(','); t.expect('label'); b = t.next()
            return ('br', None, c, a, b)
        if op == 'switch':
            ty = t.type(); v = t.value(ty); t.expect(','); t.expect('label'); d = t.next()
            t.expect('[')
            cases = []
            while not t.eat(']'):
                cty = t.type(); cv = t.value(cty); t.expect(','); t.expect('label'); cases.append((cv[1], t.next()))
            return ('switch', None, ty, v, d, cases)
        if op == 'ret':
            ty = t.type()
            if ty == VOID:
                return ('ret', None, VOID, None)
            return ('ret', None, ty, t.value(ty))
        if op in ('icmp', 'fcmp'):
            while t.peek() in FMF:
                t.next()
            p = t.next(); ty = t.type(); a = t.value(ty); t.expect(','); b = t.value(ty)
            return (op, dst, p, ty, a, b)
        if op in BINOPS or op in FBIN:
            while t.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or t.peek() in FMF:
                t.next()
            ty = t.type(); a = t.value(ty); t.expect(','); b = t.value(ty)
            return ('bin' if op in BINOPS else 'fbin', dst, op, ty, a, b)
        if op == 'fneg':
            while t.peek() in FMF:
                t.next()
            ty = t.type()
            return ('fneg', dst, ty, t.value(ty))
        if op in CASTS:
            while t.peek() in ('nneg', 'nuw', 'nsw'):
                t.next()
            ty = t.type(); v = t.value(ty); t.expect('to'); ty2 = t.type()
            return ('cast', dst, op, ty, v, ty2)
        if op == 'select':
            while t.peek() in FMF:
                t.next()
            cty = t.type(); c = t.value(cty); t.expect(','); ty = t.type(); a = t.value(ty); t.expect(','); t.type(); b = t.value(ty)
            return ('select', dst, c, ty, a, b)
        if op == 'phi':
            while t.peek() in FMF:
                t.next()
            ty = t.type()
            inc = []
            while True:
                t.expect('['); v = t.value(ty); t.expect(','); inc.append((v, t.next())); t.expect(']')
                if not t.eat(','):
                    break
            return ('phi', dst, ty, inc)
        if op == 'extractvalue':
            ty = t.type(); v = t.value(ty)
            ix = []
            while t.eat(','):
                ix.append(int(t.next()))
            return ('extractvalue', dst, ty, v, ix)
        if op == 'insertvalue':
            ty = t.type(); v = t.value(ty); t.expect(','); ety = t.type(); e = t.value(ety)
            ix = []
            while t.eat(','):
                ix.append(int(t.next()))
            return ('insertvalue', dst, ty, v, ety, e, ix)
        if op in ('extractelement',):
            ty = t.type(); v = t.value(ty); t.expect(','); ity = t.type(); i = t.value(ity)
            return ('extractelement', dst, ty, v, i)
        if op == 'insertelement':
            ty = t.type(); v = t.value(ty); t.expect(','); ety = t.type(); e = t.value(ety); t.expect(','); ity = t.type(); i = t.value(ity)
            return ('insertelement', dst, ty, v, e, i)
        if op == 'landingpad':
            ty = t.type()
            cl = []
            while t.peek():
                k = t.next()
                if k == 'cleanup':
                    cl.append(('cleanup',))
                else:
                    cty = t.type(); cl.append((k, t.value(cty)))
            return ('landingpad', dst, ty, cl)
        if op == 'resume':
            ty = t.type()
            return ('resume', None, ty, t.value(ty))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'freeze':
            ty = t.type()
            return ('freeze', dst, ty, t.value(ty))
        if op == 'fence':
            return ('nop', None)
        if op == 'atomicrmw':
            t.eat('volatile'); k = t.next(); t.type(); p = t.value(PTR); t.expect(','); ty = t.type(); v = t.value(ty)
            return ('atomicrmw', dst, k, ty, p, v)
        if op == 'va_arg':
            raise IRError('va_arg')
        raise IRError('instr? ' + s[:200])


_demcache = {}


def demangle_all(names):
    need = [n for n in names if n not in _demcache]
    if need:
        out = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(n[1:].strip('"') for n in need),
                             capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(need, out):
            _demcache[n] = d
    return _demcache


def load(path):
    with open(path) as f:
        m = Module(f.read())
    demangle_all(list(m.funcs) + list(m.decls) + list(m.globals) + list(m.aliases))
    return m


def dem(name):
    return _demcache.get(name, name)
