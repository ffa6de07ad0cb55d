"""C05: active evaluation returns exactly the passive value."""
from concurrent.futures import ThreadPoolExecutor
from vc import exprlayer as el, values as va, build, ir

LAY = el.LAY + r'''
extern "C" {
extern const unsigned long OFF_FR_d_der = __builtin_offsetof(xad::FReal<double>, der_);
extern const unsigned long OFF_FR_d_sizeof = sizeof(xad::FReal<double>);
extern const unsigned long OFF_FR_f_der = __builtin_offsetof(xad::FReal<float>, der_);
extern const unsigned long OFF_FR_f_sizeof = sizeof(xad::FReal<float>);
}
'''


def setup(chk):
    cs = va.cases()
    ng = 8
    groups = [cs[i::ng] for i in range(ng)]

    def mk(g):
        i, cc = g
        body = el.PRE + '%s' + va.HELP + 'using namespace xad;\n' + ''.join(c.cpp() for c in cc)
        try:
            return chk.scratch.ll(chk.scratch.write('c05_%d.cpp' % i, body % LAY if False else body.replace('%s', LAY, 1)), 'c05_%d.ll' % i)
        except build.BuildError as e:
            chk.build_failures.append(str(e)[-1200:])
            return chk.scratch.ll(chk.scratch.write('c05_%d.cpp' % i, body.replace('%s', '', 1)), 'c05_%d.ll' % i)
    with ThreadPoolExecutor(8) as tp:
        lls = list(tp.map(mk, enumerate(groups)))
        sos = [tp.submit(chk.scratch.so, l, l.split('/')[-1].replace('.ll', '.so')) for l in lls]
        mods = [ir.load(l) for l in lls]
        nats = [va.Native(s.result()) for s in sos]
    for g, m, nt in zip(groups, mods, nats):
        for c in g:
            chk.task(c.id, va.task, m, nt, c, 1500 if chk.thorough else 150)
    chk.assumptions += ['libm functions and rounding arithmetic are deterministic functions of their operands (uninterpreted; IEEE comparisons, signs and classification interpreted)',
                        'conversion of values outside the target range to integers is undefined for the plain type too and is not compared',
                        'NaN payloads are not distinguished']
