"""C20: threads do not interfere: frame contracts of all functions (vc/frames.py); native supplement with the thread sanitizer."""
from vc import frames


def setup(c):
    frames.setup(c)
    c.trusted += ['the compiler implements thread_local storage and the guards of function-local statics', 'frame contracts of the standard library: container members touch only the objects reachable from their arguments, libm and the allocator are thread safe']
    c.assumptions += ['threads use disjoint tapes, variables and callbacks, as the property says', 'the default configuration, with thread local storage (XAD_NO_THREADLOCAL is documented as single threaded)',
                      'footprints inside a tape: the frame clauses of C06, C09-C13, C19; storage: C08']
