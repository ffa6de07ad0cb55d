"""C07: the adjoints are those of the reverse recursion over the recording."""
from vc import nat, sweep, tapefn


def setup(c):
    sweep.setup(c)
    tapefn.setup(c, 'C07')
    nat.tape(c, 'C07')
    nat.second(c)
    c.trusted += ['contracts of std::vector::operator[] and of the ChunkContainer members (the latter proved by C08)',
                  'memory model: block c of the statement list holds statements c*chunk_size ... (proved for chunk_begin by C08)']
    c.assumptions += ['well-formed recording: every slot in it has an adjoint, statement ends are monotone (precondition of the sweep, established by the recording functions, C06)',
                      'machine floating point is treated as exact real arithmetic; rounding of derivatives is out of scope',
                      'element types double, float and FReal<double>; AReal as inner type only by the bounded supplement']
