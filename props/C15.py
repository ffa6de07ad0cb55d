"""C15: computeHessian on an unknown function: forward mode for all shapes (vc/jacproof.py), all modes and containers up to a
bound on the shape (vc/jac.py)."""
from vc import jac, jacproof


def setup(c):
    jacproof.setup(c, True)
    jac.setup(c, 'C15')
