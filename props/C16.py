"""C16: complex numbers with active parts."""
from vc import cplx
from .common import NOTES


def setup(chk):
    chk.assumptions += NOTES + ['textbook identities of the complex exponential, logarithm and square root (vc/cplx.py: axioms), real and imaginary part as functions of real arguments',
                        'intermediate results are representable (no overflow in the naive products and quotients)',
                        'variables are registered with the active tape; slot allocation is used through its contract (C09)']
    cplx.setup(chk)
