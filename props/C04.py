"""C04: chain rule for expressions of any shape: node contracts (vc/nodes.py), end of the induction (vc/areal.py), every function
over unknown expressions (vc/congr.py); random expression trees as bounded supplement."""
from vc import areal, congr, nodes


def setup(c):
    nodes.setup(c, 'C04')
    areal.setup(c, 'C04')
    congr.setup(c)
    c.trusted += ['clang 18 front end and optimiser at the level the drivers are compiled with; the LLVM IR semantics of vc/sym.py']
    c.assumptions += ['floating point operations are uninterpreted here: what is proved is which factor reaches which operand; the value of each local derivative is C01-C03',
                      'an expression object is used while the variables it refers to are alive (reference semantics documented by the library)',
                      'registered variables are used while their tape is active']
