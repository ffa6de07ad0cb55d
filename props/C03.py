"""C03: a passive operand of any arithmetic type, on either side, is a constant."""
from vc import exprlayer as el
from .common import derivative_check

QT = {'double': ['D', 'F', 'I', 'U', 'L', 'UC', 'S', 'UL', 'Q', 'SC'], 'float': ['D', 'F', 'I', 'U', 'L']}


def drivers(thorough):
    drvs = []
    for T in ('double', 'float'):
        for f in el.BINARY:
            for P in (el.PTYPES if thorough else QT[T]):
                # 'e' exercises the overloads for expressions, 'a' those for variables
                ks = ['a', 'e'] if thorough or (T == 'double' and P in ('D', 'I')) else ['a']
                for k in ks:
                    drvs.append(el.Drv(f, T, [k, P]))
                    if not (f.name == 'copysign' and P not in 'DF'):
                        drvs.append(el.Drv(f, T, [P, k]))
    return drvs


def setup(chk):
    derivative_check(chk, drivers(chk.thorough), ngroups=8, nquick=30, nthorough=200)
    chk.assumptions.append('the conversion of a passive operand to the scalar type is exact in real arithmetic (no rounding); integer conversions and arithmetic are exact bit-vector semantics')
