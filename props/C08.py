"""C08: recording storage is a faithful growable sequence."""
from vc import nat, chunkproof


def setup(c):
    chunkproof.setup(c)
    nat.add(c, 'chunk', 'chunk.cpp', san='address,undefined', shards=4, n=(1500, 40000), rule='random histories against std::vector, block sizes 1..16')
    c.trusted += ['contracts of std::vector<char*>, std::uninitialized_fill(_n), std::fill, aligned_alloc, free (vc/chunkmodel.py)',
                  'memory model: block c of a container holds its elements c*chunk_size ... (c+1)*chunk_size-1']
    c.assumptions += ['fewer than 2^20 blocks per container', 'element copies do not throw; a failing allocation does (std::bad_alloc, covered)',
                      'the source range of append does not lie within the container itself']
