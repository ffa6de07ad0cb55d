"""writes MANIFEST.json from the table below (one row per claimed property)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPR = ('The real templates are instantiated by generated drivers, compiled to LLVM IR from the current tree, executed symbolically over exact reals '
        '(all operands, all slots, any recording) and every resulting obligation is discharged by z3. Assumed: clang front end, the IR executor in vc/, '
        'textbook identities of libm functions (vc/ax.py), exact real arithmetic in place of rounding; storage and sweep through the contracts proved by C08/C07. '
        'A bounded run of the real code (seeded points, replay of counterexamples) supplements it and is not counted as proof.')
CLAIMS = {
 'C01': ('proof', 'deductive verification: VCs generated from the LLVM IR of the real code against analytic-derivative postconditions, discharged by z3', EXPR),
 'C02': ('proof', 'deductive verification: VCs generated from the LLVM IR of the real code against both analytic partials, discharged by z3', EXPR),
 'C05': ('proof', 'deductive verification: VCs over the LLVM IR of the real code, active and plain instantiation must reach identical uninterpreted IEEE terms, discharged by z3/congruence', EXPR.replace('over exact reals', 'over uninterpreted IEEE operations (bit-identical terms)')),
 'C17': ('proof', 'deductive verification: VCs generated from the LLVM IR of the real smooth functions against the documented piecewise cubic and its derivatives, discharged by z3', EXPR),
 'C18': ('proof', 'deductive verification: VCs from the LLVM IR of the doubly nested instantiations against symbolic second derivatives of the specification, discharged by z3', EXPR),
 'C03': ('proof', 'deductive verification: VCs generated from the LLVM IR of the real code, passive operand symbolic in its own type, discharged by z3', EXPR),
 'C08': ('proof', 'deductive verification: every member of ChunkContainer under contract, VCs with loop invariants from the LLVM IR of the real code (five element types, the shipped block size and small ones), discharged by z3',
         'For all sizes, positions and histories (the representation invariant is preserved by every member, element values are stated pointwise for an arbitrary position). Assumed: clang front end, the IR executor in vc/, '
         'contracts of std::vector<char*>, std::fill, std::uninitialized_fill(_n), aligned_alloc and free; fewer than 2^20 blocks. A bounded run of random histories against std::vector supplements it.'),
 'C04': ('proof', 'deductive verification: node, leaf and variable members under contract for operands and operators of unknown class (structural induction), VCs from the LLVM IR of the real code, discharged by z3',
         'For expressions of any shape: the contract of each node is proved from the contracts of its operands only; every function of the library is proved to hand operands of unknown class what it hands variables (whose factors C01-C03 prove). '
         'Assumed: clang front end, the IR executor in vc/, contracts of ChunkContainer (C08), exact/uninterpreted arithmetic. A bounded run of random expression trees supplements it and is not counted as proof.'),
 'C07': ('proof', 'deductive verification: the reverse sweep under contract with loop invariants over ghost adjoint vectors, VCs from the LLVM IR of the real code, discharged by z3; plus lemmas (duality with the tangent recursion)',
         'For every recording, all adjoint vectors, positions and block layouts of the shipped block size; element types double, float, FReal<double>, both configurations share this code. Assumed: clang front end, the IR executor in vc/, '
         'contracts of std::vector and of ChunkContainer (the latter proved by C08), well-formedness of the recording (C06), exact real arithmetic. A bounded run of random histories with small blocks supplements it.'),
 'C16': ('proof', 'deductive verification: real and imaginary part of every complex operator and function under contract (Cauchy-Riemann partials), composite functions against the contracts of exp, log, sqrt, sinh, cosh, tanh, asinh, atanh; VCs from the LLVM IR of the real code, discharged by z3 and polynomial ideal membership (sympy Groebner)',
         EXPR),
 'C21': ('proof', 'deductive verification: limits, traits and descriptors as constant functions, hash and accessors as functions of arbitrary variables; VCs from the LLVM IR of the real instantiations, discharged by constant evaluation and z3',
         'All members of numeric_limits, the specialised type traits, ExprTraits and the interface structs for double and float and all six active types; hash equality and accessors for all stored values, the accessors of taped variables for an arbitrary tape. '
         'Assumed: clang front end (evaluates the constant expressions), the IR executor in vc/, std::_Hash_bytes is a function of the bytes.'),
}
TAPE = ('Each named tape member is proved against its contract for an arbitrary tape (any recording, any adjoints, any nesting, any active tape) and element types double, float, FReal<double>; failed calls leave everything as it is, '
        'everything not named in the contract is unchanged. Assumed: clang front end, the IR executor in vc/, contracts of std::vector, std::stack and std::fill, of ChunkContainer (proved by C08), well-formed recordings, fewer than 2^31 slots, '
        'exact real arithmetic; owned callbacks are distinct and not null. The configuration with slot reuse (std::list of ranges) is covered by a bounded run of random histories against a reference model only, never counted as proof. ')
for i, what in {
 'C06': 'recording functions, and all constructors, assignments, compound assignments, increments and readers of AReal with operands of unknown class; ',
 'C09': 'registration, release, nested recordings and their closing keep live slots distinct and in range; ',
 'C10': 'positions, rollback and clearing after a position; ',
 'C11': 'opening and closing nested recordings, callback list and checkpoint list; ',
 'C12': 'each documented error if and only if its condition holds; ',
 'C13': 'activation, deactivation, construction, move, move assignment, destruction; ',
 'C19': 'new recording, clearing, closing of nested recordings, lazily cleared adjoints; '}.items():
    CLAIMS[i] = ('proof', 'deductive verification: tape members under contract (' + what.strip('; ') + '), VCs with loop invariants and ghost state from the LLVM IR of the real code, discharged by z3', TAPE)
JAC = ('All shapes: each overload (rows given, matrix returned), forward and adjoint, with an active tape and without one, is proved for any number of inputs and outputs with loop invariants, for an unknown function (uninterpreted derivatives at the point; it overwrites '
       'its argument), any point, any leftover derivatives, adjoints and recordings, rows held in std::vector<std::vector<double>>. Callees are used through contracts: std::vector, std::function, std::unique_ptr, and the tape members (recording, registration, sweep, clearing), which C06, C07, C09 and C19 prove. '
       'Bounded, never counted as proof: for fixed shapes (%s) the same functions are executed together with the real tape, variables, containers and sweep below them, for seven kinds of result container, every entry one obligation. '
       'Assumed: clang front end, the IR executor in vc/, contracts of aligned_alloc, std::list node linking and exceptions, exact real arithmetic, fewer than 2^31 inputs and outputs. '
       'A bounded run of the same drivers with random tables (up to 8 inputs and outputs) and of random programs supplements it.')
CLAIMS['C14'] = ('proof', 'deductive verification: computeJacobian under contract (each entry the unknown partial derivative, shapes rejected or accepted; frame: inputs and surrounding storage), VCs with loop invariants from the LLVM IR of the real code, discharged by z3', JAC % 'forward up to 3x5 and 5x2, adjoint up to 6 entries, 8 in the thorough tier')
CLAIMS['C15'] = ('proof', 'deductive verification: computeHessian under contract (each entry the unknown second derivative, shapes rejected or accepted; frame: inputs and surrounding storage), VCs with loop invariants from the LLVM IR of the real code, discharged by z3', JAC % 'forward up to 3 inputs, 4 in the thorough tier; adjoint 2 and 3')
CLAIMS['C20'] = ('proof', 'deductive verification: frame (assigns) contract of every function of the library: nothing but objects reachable from its parameters and the thread-local active tape; checked on the LLVM IR of the real instantiations, parallel composition by disjoint footprints',
    'For every function instantiated by the drivers (all members of all tapes and variables, all functions of the expression layer and of complex numbers, matrices). Statics that are initialised once under the guard and never written through any derived pointer count as immutable. '
    'Assumed: the compiler implements thread_local and guards, the standard library is thread safe for distinct objects, footprints inside tape objects (frame clauses of C06-C13, C19). A bounded run of random programs on six threads, also under the thread sanitizer, supplements it.')
NA = {}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd="python3-vt -c 'import z3, mpmath, sympy; print(z3.get_version_string())'", checks=[], not_applicable=[])
    for i in ids:
        if i in CLAIMS:
            lv, te, no = CLAIMS[i]
            m['checks'].append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                                    evidence_file='evidence/%s.json' % i, technique=te, level=lv, level_note=no))
        else:
            m['not_applicable'].append(dict(property=i, reason=NA[i]))
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
