"""C18: nested active types deliver exact first and second derivatives."""
import z3
from concurrent.futures import ThreadPoolExecutor
from vc import exprlayer as el, nested as ne, build, nat
from vc.exprlayer import UNARY, BINARY, m, RV
from .common import NOTES

SKIP = set()
DOM2 = {
    'max': (lambda a, b: a != b, None), 'min': (lambda a, b: a != b, None), 'fmax': (lambda a, b: a != b, None), 'fmin': (lambda a, b: a != b, None),
    'pow': (lambda a, b: a > 0, [lambda a, b: b * m('pow', a, b - 1), lambda a, b: m('log', a) * m('pow', a, b)]),
    'pown': (lambda x, n: x != 0, None),
}
KINDS2 = [['a', 'a'], ['a', 'D'], ['D', 'a'], ['a', 'e'], ['e', 'a']]


def drivers():
    out = []
    for f in UNARY:
        if f.name in SKIP:
            continue
        for k in (['a'], ['e']):
            out.append((ne.NDrv(f, 'double', k), DOM2.get(f.name)))
    for f in BINARY:
        if f.name in SKIP:
            continue
        for k in KINDS2:
            if f.name == 'copysign' and k[0] == 'D':
                continue
            out.append((ne.NDrv(f, 'double', k), DOM2.get(f.name)))
        out.append((ne.NDrv(f, 'double', ['a', 'a'], same=True), DOM2.get(f.name)))
    for nm in ('mul', 'div', 'pow', 'sin', 'exp', 'sqrt', 'fmod', 'max'):
        for f in UNARY + BINARY:
            if f.name == nm:
                out.append((ne.NDrv(f, 'float', ['a'] * f.n), DOM2.get(f.name)))
    return [(d, q) for d, q in out if not (d.same and d.fn.name in ('max', 'min', 'fmax', 'fmin'))]


def setup(chk):
    ds = drivers()
    ng = 8
    groups = [ds[i::ng] for i in range(ng)]
    mods, nats = build_groups(chk, groups)
    for g, mo, nt in zip(groups, mods, nats):
        for d, q in g:
            chk.task(d.id, ne.nested_task, mo, nt, d, ne.Fn2(d.fn, *(q or (None, None))),
                     ne.NEST if chk.thorough or 'e' not in d.kinds else ['FF', 'AF'], 150 if chk.thorough else 25)
    nat.second(chk)
    chk.assumptions += NOTES


def build_groups(chk, groups):
    def mk(a):
        i, g = a
        body = 'using namespace xad;\n' + ''.join(d.ncpp() for d, _ in g)
        src = chk.scratch.write('c18_%d.cpp' % i, el.PRE + el.LAY + ne.LAY2 + body)
        try:
            return chk.scratch.ll(src, 'c18_%d.ll' % i)
        except build.BuildError as e:
            chk.build_failures.append(str(e)[-1200:])
            src = chk.scratch.write('c18_%d.cpp' % i, el.PRE + body)
            return chk.scratch.ll(src, 'c18_%d.ll' % i)
    with ThreadPoolExecutor(8) as tp:
        lls = list(tp.map(mk, enumerate(groups)))
    return el.load_all(chk, lls)
