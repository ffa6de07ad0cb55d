"""C01: derivatives of the single-argument functions."""
from vc import exprlayer as el
from .common import derivative_check


def setup(chk):
    drvs = []
    for T in ('double', 'float'):
        for f in el.UNARY:
            drvs.append(el.Drv(f, T, ['a']))
            if T == 'double':
                drvs.append(el.Drv(f, T, ['e']))
    derivative_check(chk, drvs)
