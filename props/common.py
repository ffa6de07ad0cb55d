"""shared set-up of the expression-layer checks"""
from concurrent.futures import ThreadPoolExecutor
from vc import exprlayer as el

NOTES = ['machine floating point is treated as exact real arithmetic; rounding of derivatives is out of scope',
         'libm functions are uninterpreted up to the textbook identities in vc/ax.py (assumed contracts)',
         'literals within one ulp of a named constant (pi, ln 2, ...) denote that constant',
         'recording storage and the reverse sweep are used through their contracts (proved by C08 and C07)']


def derivative_check(chk, drvs, ngroups=4, nquick=60, nthorough=400, notes=True, modes='FAN', task=None):
    ngroups = min(ngroups, len(drvs))
    groups = [drvs[i::ngroups] for i in range(ngroups)]
    with ThreadPoolExecutor(ngroups) as tp:
        lls = list(tp.map(lambda g: el.build_drivers(chk, '%s_%d' % (chk.pid.lower(), g[0]), g[1], modes), enumerate(groups)))
    mods, nats = el.load_all(chk, lls)
    n = nthorough if chk.thorough else nquick
    for g, mod, nat in zip(groups, mods, nats):
        for d in g:
            chk.task(d.id, task or el.derivative_task, mod, nat, d, n)
    if notes:
        chk.assumptions += NOTES
