"""C11: contracts of the tape members (vc/tapefn.py), proved for an arbitrary tape; native supplement on random histories."""
from vc import nat, tapefn


def setup(c):
    tapefn.setup(c, 'C11')
    nat.tape(c, 'C11')
