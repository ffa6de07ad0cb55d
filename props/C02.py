"""C02: both partials of the two-argument operators and functions."""
from vc import exprlayer as el
from .common import derivative_check


def setup(chk):
    drvs = []
    for T in ('double', 'float'):
        for f in el.BINARY:
            drvs.append(el.Drv(f, T, ['a', 'a']))
            if T == 'double':
                drvs.append(el.Drv(f, T, ['a', 'e']))
                drvs.append(el.Drv(f, T, ['e', 'a']))
                drvs.append(el.Drv(f, T, ['e', 'e']))
                drvs.append(el.Drv(f, T, ['a', 'a'], same=True))
    derivative_check(chk, drvs)
