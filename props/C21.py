"""C21: limits, classification, descriptors, hash and accessors (vc/traits.py); the accessors' contracts on an arbitrary tape (vc/areal.py, vc/nodes.py)."""
from vc import areal, nat, nodes, traits


def setup(c):
    traits.setup(c)
    nodes.setup(c, 'C21')
    areal.setup(c, 'C21')
    nat.hashes(c)
    c.trusted += ['the standard library trait and limit templates themselves; std::_Hash_bytes is an unknown function of the bytes it is given']
    c.assumptions += ['types with underlying double and float, one and two levels of active types; cv-qualified types for numeric_limits and ExprTraits only (the standard class templates of the compiler decide the others)']
