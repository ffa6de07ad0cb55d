"""C12: contracts of the tape members (vc/tapefn.py) and of the members of AReal (vc/areal.py), proved for an arbitrary tape; native supplement on random histories."""
from vc import areal, jac, jacproof, nat, tapefn


def setup(c):
    tapefn.setup(c, 'C12')
    areal.setup(c, 'C12')
    jac.shapes(c)
    jacproof.setup(c, False)
    jacproof.setup(c, True)
    nat.tape(c, 'C12')
