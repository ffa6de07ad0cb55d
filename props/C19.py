"""C19: contracts of the tape members (vc/tapefn.py) and of the members of AReal (vc/areal.py), proved for an arbitrary tape; native supplement on random histories."""
from vc import areal, nat, tapefn


def setup(c):
    tapefn.setup(c, 'C19')
    areal.setup(c, 'C19')
    nat.tape(c, 'C19')
