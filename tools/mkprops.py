#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable)."""
import json, os
H='src/XAD/'
def P(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if obs: a['observe_at']=obs
    a['hook_needed']=None
    return {'id':id,'title':title,'statement':stmt,'quantifier':{'over':over,'text':qt},'why_tests_cant':why,'anchors':a}
props=[
P('C01','Elementary function derivatives are the analytic derivatives',
 'For every single-argument function the library overloads (sign, powers, roots, exponentials, logarithms, trigonometric, hyperbolic and their inverses, error functions, absolute value, rounding, degree/radian conversion, scaling and decomposition into fraction and exponent or integer part), the derivative delivered for an active argument is the analytic derivative of that function at the argument (zero for the rounding functions), in exact real arithmetic, at every argument where it is differentiable. Forward mode multiplies the incoming tangent by that factor and adjoint mode records exactly that factor.',
 ['inputs'],'all real arguments in the domain of differentiability, all scale exponents, every overloaded unary function, both modes',
 'Tests compare a few sampled arguments per function with finite differences or hand-computed numbers; a factor wrong only on part of the domain (negative arguments, negative exponents, outside [-1,1]) is not sampled.',
 [H+'UnaryMathFunctors.hpp',H+'UnaryFunctors.hpp',H+'UnaryOperators.hpp',H+'UnaryExpr.hpp'],
 [('per-function derivative member',H+'UnaryMathFunctors.hpp: XAD_MAKE_UNARY_FUNCTOR*, tan_op, ldexp_op, frexp_op, modf_op'),('overload set',H+'UnaryOperators.hpp: XAD_MAKE_UNARY_FUNC')]),
P('C02','Two-argument operators and functions deliver both analytic partials',
 'For two active operands, every arithmetic operator and two-argument function (power, two-argument arctangent, hypotenuse, floating remainder variants, minimum/maximum, next-after) delivers both analytic partial derivatives at every pair of operands where they exist, in exact real arithmetic, with the remainder functions using the true integer quotient. At ties, minimum and maximum give each operand one half. Forward and adjoint mode use the same partials, each attached to the right operand.',
 ['inputs'],'all pairs of real operands where the function is differentiable (both signs, quotients of any size, ties for min/max), both modes',
 'Tests use a handful of positive operand pairs with small quotients, so sign-, magnitude- or tie-specific errors in a partial survive.',
 [H+'BinaryFunctors.hpp',H+'BinaryMathFunctors.hpp',H+'BinaryOperators.hpp',H+'BinaryExpr.hpp'],
 [('derivative_a / derivative_b per functor',H+'BinaryFunctors.hpp, '+H+'BinaryMathFunctors.hpp'),('result-based dispatch',H+'BinaryDerivativeImpl.hpp')]),
P('C03','A passive operand of any arithmetic type, on either side, acts as a constant',
 'Combining an active value with a plain number, on either side and of any arithmetic type, gives the same value and the same derivative with respect to the active operand as the mathematical function with that argument held constant, at every point where that derivative exists. The plain operand never contributes a derivative and is never truncated, wrapped or reinterpreted through its own type.',
 ['inputs'],'all active values, all passive values of the arithmetic types (double, float, int, unsigned, long, short), both operand orders, every mixed operator/function, both modes',
 'The mixed overloads are separate hand-written functors; tests cover small sample values of mostly one passive type, so overflow, wrap-around or domain errors for particular constants are not reached.',
 [H+'UnaryFunctors.hpp',H+'UnaryMathFunctors.hpp',H+'UnaryOperators.hpp',H+'UnaryOperatorMacros.hpp',H+'Literals.hpp'],
 [('scalar_*1_op / scalar_*2_op functors',H+'UnaryMathFunctors.hpp: XAD_MAKE_UNARY_BINFUNCTOR, '+H+'UnaryFunctors.hpp'),('overload selection',H+'UnaryOperatorMacros.hpp: XAD_UNARY_BINSCAL')]),
P('C04','Chain rule holds for every expression, identically in forward and adjoint mode',
 'For an expression of any shape and size, assigning it to an active variable delivers, per occurrence of a variable in the expression, the product of the local partial derivatives along the path to that occurrence: adjoint mode records exactly one operand entry with that product for each registered occurrence and none for unregistered ones, and forward mode returns the sum of those products times the operand tangents. An expression needs recording exactly when some operand in it is registered. The results do not depend on how the expression is split into intermediate active variables.',
 ['programs','inputs'],'all expression trees (structural induction over unary/binary nodes and leaves), all operand values, both modes',
 'Tests evaluate a fixed list of small expressions; the set of expression types is infinite and every node type contributes its own propagation code.',
 [H+'UnaryExpr.hpp',H+'BinaryExpr.hpp',H+'Expression.hpp',H+'Literals.hpp',H+'UnaryDerivativeImpl.hpp',H+'BinaryDerivativeImpl.hpp'],
 [('derivative propagation in nodes',H+'UnaryExpr.hpp, '+H+'BinaryExpr.hpp: calc_derivatives, derivative, shouldRecord'),('leaf rule',H+'Literals.hpp: AReal::calc_derivatives, ADVar')]),
P('C05','Active evaluation returns exactly the passive value',
 'Any supported operator, function, comparison, classification, rounding-to-integer or conversion applied to active operands yields exactly the value (and the same output parameters) that the same operation yields on the operands\' plain values, and never alters an operand; comparisons and conversions ignore derivatives. For minimum and maximum the guarantee covers non-NaN operands, with the two zeros identified. This holds whether or not anything is being recorded.',
 ['inputs'],'all operand values including signed zeros, infinities and NaN; all operators/functions; forward and adjoint types; active/active and both mixed orders',
 'Equality is sampled at a few ordinary values; exact agreement for special values (negative zero, NaN, extreme exponents) and for every mixed overload is not sampled.',
 [H+'UnaryOperators.hpp',H+'BinaryOperators.hpp',H+'Expression.hpp',H+'UnaryMathFunctors.hpp',H+'BinaryMathFunctors.hpp',H+'StdCompatibility.hpp'],
 [('functor call operators',H+'UnaryMathFunctors.hpp, '+H+'BinaryMathFunctors.hpp'),('comparison overloads',H+'BinaryOperators.hpp: XAD_COMPARE_OPERATOR'),('classification overloads',H+'UnaryOperators.hpp: XAD_MAKE_FPCLASSIFY_FUNC')]),
P('C06','Each assignment to an active variable records exactly its own statement',
 'Constructing, copying, moving, assigning, compound-assigning or incrementing an active variable gives it the assigned value and, when a registered variable is involved, appends exactly one statement whose target is that variable and whose operands are the registered operands with their factors, including when the variable appears in its own right-hand side; overwriting a registered variable with a constant gives it zero derivative. Moving transfers identity without recording. Purely passive computation and reading values or derivatives appends nothing.',
 ['programs','inputs','histories'],'all sequences of value operations on active variables, registered or not, including self-reference',
 'Tests check selected sequences through final derivative numbers; extra, missing or mis-targeted statements in other aliasing patterns are not visible to them.',
 [H+'Literals.hpp',H+'Tape.hpp'],
 [('recording in constructors and assignments',H+'Literals.hpp: AReal, ADTypeBase'),('statement/operand append',H+'Tape.hpp: pushRhs, pushLhs, pushAll, registerInput, registerOutput')]),
P('C07','Adjoint propagation is the exact reverse sweep of the recording',
 'For every recording, whatever its length and however it is laid out in storage, propagating adjoints applies to each recorded statement, from last to first and exactly once, the reverse rule: take and clear the adjoint of the target, then add factor times that adjoint to each operand of that statement. No other adjoint changes and the recording itself is not modified. Hence the result is the transposed Jacobian of the recorded computation applied to the seeds and is linear in the seeds.',
 ['programs','inputs','histories'],'all recordings (any number of statements and operands, any position relative to storage block boundaries, self-referencing statements), all seed vectors',
 'Storage blocks hold 8 million entries, so tests never cross a block boundary in a sweep; and they cover a fixed set of small recordings.',
 ['src/Tape.cpp',H+'ChunkContainer.hpp'],
 [('reverse interpreter','src/Tape.cpp: Tape::computeAdjointsToImpl'),('entry points','src/Tape.cpp: computeAdjoints, computeAdjointsTo')],
 [('statements','(end of operand list, target) per statement',H+'Tape.hpp: statement_'),('adjoints','adjoint per slot',H+'Tape.hpp: derivatives_')]),
P('C08','Recording storage is a faithful growable sequence of unbounded length',
 'The storage that holds a recording behaves as a plain sequence for every history of appends, bulk appends, growth, truncation, refill, clearing and moving, and for every length including exact multiples of its block size: the size is right, every stored element keeps its value and order, and elements are constructed and destroyed exactly once. No operation reads or writes outside allocated blocks. A moved-from container can be destroyed, assigned to or resized.',
 ['histories','inputs'],'all operation sequences and all sizes, for any element type and block size',
 'Behaviour changes only at block boundaries (8 million elements by default); tests hit a few boundary sizes of a few operations.',
 [H+'ChunkContainer.hpp'],
 [('block arithmetic and growth',H+'ChunkContainer.hpp: reserve, check_space, push_back, emplace_back, append, resize, assign, uninitialized_extend, clear'),('indexing',H+'ChunkContainer.hpp: operator[], getHighPart/getLowPart, iterator_at')],
 [('position','block number and index in block',H+'ChunkContainer.hpp: chunk_, idx_')]),
P('C09','Live registered variables own distinct adjoint slots',
 'At every moment, for every order of creating, copying, moving and destroying registered variables, all live ones on a tape own pairwise distinct slots that lie within the range the adjoint vector is sized for, and the reported number of variables equals the number of live ones. With slot re-use configured, a slot is handed out again only after its owner has been released, and the free list always describes exactly the released slots. Variables created inside a nested recording are destroyed before it is closed.',
 ['histories','configurations'],'all registration/release sequences, with and without slot re-use',
 'The number of release orders is unbounded; tests replay a few fixed orders, mostly stack-like.',
 [H+'Tape.hpp','src/Tape.cpp',H+'ReusableRange.hpp',H+'Literals.hpp'],
 [('allocation and release',H+'Tape.hpp: registerVariable, registerVariableAtEnd, unregisterVariable'),('free range list','src/Tape.cpp: registerVariableReuseSlots, unregisterVariableReuseSlots'),('range operations',H+'ReusableRange.hpp')]),
P('C10','Tape positions: partial sweep, rollback and adjoint clearing are exact',
 'For every recording and every previously obtained position, rolling the tape back to it leaves exactly the statements, operands and checkpoints recorded up to that position, so that subsequent recording continues as if nothing had been recorded after it; propagating adjoints to it applies exactly the statements after it. Clearing derivatives after it leaves the adjoints of the variables up to it accessible and unchanged. A position at or beyond the end is a no-op for rollback.',
 ['histories','inputs'],'all recordings and all positions, including start, end and positions at a checkpoint',
 'Tests use two or three positions in one short recording with monotonically numbered variables.',
 ['src/Tape.cpp',H+'Tape.hpp'],
 [('rollback','src/Tape.cpp: resetTo, getPosition'),('partial sweep','src/Tape.cpp: computeAdjointsTo'),('partial clear','src/Tape.cpp: clearDerivativesAfter')]),
P('C11','Checkpoint callbacks run once each, in reverse, in balanced nested recordings',
 'During adjoint propagation each checkpoint recorded in the propagated range is called exactly once, latest first, after all statements recorded after it have been propagated and removed and before any statement recorded before it is propagated; whatever the callback records is removed again. A nested recording propagates and leaves behind only its own statements: closing it restores recording length, operand count and checkpoints to what they were when it was opened, keeping the enclosing adjoints. The tape destroys each callback handed to it exactly once, never those merely inserted.',
 ['programs','histories'],'all placements and numbers of checkpoints and nested recordings, all callback behaviours that follow the documented protocol',
 'Tests contain one or two checkpoints in fixed positions with well-behaved callbacks.',
 ['src/Tape.cpp',H+'Tape.hpp',H+'CheckpointCallback.hpp'],
 [('callback dispatch','src/Tape.cpp: computeAdjointsTo, insertCallback'),('nested recording','src/Tape.cpp: newNestedRecording, endNestedRecording, foldSubrecording'),('scope guard',H+'Tape.hpp: ScopedNestedRecording'),('ownership','src/Tape.cpp: pushCallback, popCallback, ~Tape')]),
P('C12','Misuse raises the documented error exactly when it occurs, without side effects',
 'Accessing a derivative with no active tape, an out-of-range slot, propagating before any adjoint was accessed for writing, an empty callback stack, activating a tape while one is active, and result storage of the wrong shape each raise exactly the documented exception, in every state in which the condition holds and in no other state. A call that fails this way leaves tape, derivatives and active-tape selection as they were (a Jacobian whose number of outputs does not match is only detected after its function has been recorded).',
 ['inputs','histories'],'all tape states and all argument values for each checked operation',
 'Tests trigger each error once from one state and do not examine the state afterwards.',
 ['src/Tape.cpp',H+'Tape.hpp',H+'Literals.hpp',H+'Exceptions.hpp',H+'Jacobian.hpp',H+'Hessian.hpp'],
 [('precondition checks','src/Tape.cpp: derivative, incrementAdjoint, getAndResetOutputAdjoint, computeAdjoints, getLastCallback, popCallback'),('active tape check',H+'Tape.hpp: setActive; '+H+'Literals.hpp: AReal::derivative')]),
P('C13','At most one active tape, and moving a tape carries its recording and activity',
 'At any time at most one tape is active, only activation makes a tape active, and deactivating or destroying a tape clears the selection only if it was the selected one. Moving a tape, active or not, transfers its recording, adjoints, callbacks and activity to the destination, leaves the source destructible and inactive, and never terminates the program.',
 ['histories'],'all sequences of construction, activation, deactivation, moves and destruction over any number of tapes',
 'Tests move only inactive tapes and cover a few activation sequences.',
 [H+'Tape.hpp','src/Tape.cpp',H+'ChunkContainer.hpp'],
 [('active selection',H+'Tape.hpp: setActive, activate, deactivate, deactivateAll'),('move operations','src/Tape.cpp: Tape(Tape&&), operator=(Tape&&), ~Tape')],
 [('active tape','per-thread selected tape',H+'Tape.hpp: active_tape_')]),
P('C14','Computed Jacobian equals the matrix of partial derivatives',
 'For every function and every shape, the computed Jacobian has in row i and column j the derivative of output i with respect to input j, in both modes and for every result container, independent of derivatives or recordings left over from before the call. The caller\'s inputs are not modified, and storage outside the result matrix is not written.',
 ['programs','inputs','histories'],'all functions built from supported operations, all numbers of inputs and outputs, all initial derivative and tape states',
 'Tests use a few fixed functions and square or small shapes with clean initial state.',
 [H+'Jacobian.hpp'],
 [('adjoint row loop / forward column loop',H+'Jacobian.hpp: computeJacobian')]),
P('C15','Computed Hessian equals the matrix of second partial derivatives',
 'For every scalar function and every number of inputs, the computed Hessian has in row i and column j the second derivative with respect to inputs i and j, in both modes and for every result container, independent of derivatives or recordings left over from before the call. The caller\'s inputs are not modified, and storage outside the result matrix is not written.',
 ['programs','inputs','histories'],'all scalar functions built from supported operations, all numbers of inputs, all initial derivative and tape states',
 'Tests use a few fixed functions of few inputs with clean initial state.',
 [H+'Hessian.hpp'],
 [('forward-over-adjoint and forward-over-forward loops',H+'Hessian.hpp: computeHessian')]),
P('C16','Complex arithmetic and functions on active numbers match complex calculus',
 'Every operator and function on complex numbers with active parts (arithmetic with complex, real and plain operands on either side, compound assignment including aliased operands, norm, modulus, argument, conjugate, projection, polar form, exponential, logarithms, powers, roots, trigonometric and hyperbolic functions and their inverses) has the real and imaginary value that the mathematical definition gives, and derivatives with respect to both parts of every operand that follow from it, wherever it is differentiable and intermediate results are representable. Operands other than the target are not modified.',
 ['inputs'],'all finite operand values inside the domain of differentiability, all operand type combinations',
 'Hundreds of overloads are tested at a single operand value each; errors that vanish there or only appear with aliasing are missed.',
 [H+'Complex.hpp',H+'Literals.hpp'],
 [('member operators',H+'Complex.hpp: complex_impl'),('function implementations',H+'Complex.hpp: detail::*_impl')]),
P('C17','Smoothed abs, max and min are smooth and consistently differentiated',
 'For every argument and every positive smoothing width, the smoothed absolute value equals the absolute value outside the width and the documented cubic inside, so that value and first derivative are continuous everywhere and the error is bounded by the width; the smoothed maximum and minimum are its documented combinations. The delivered derivatives with respect to argument and width are the analytic derivatives of exactly that function, for active or plain arguments and widths.',
 ['inputs'],'all arguments, all positive widths, every active/plain combination, both modes',
 'Tests sample one or two arguments per branch; continuity and bounds are statements over all arguments.',
 [H+'MathFunctions.hpp',H+'BinaryMathFunctors.hpp',H+'UnaryMathFunctors.hpp',H+'BinaryOperators.hpp'],
 [('smooth functors',H+'BinaryMathFunctors.hpp: smooth_abs_op; '+H+'UnaryMathFunctors.hpp: scalar_smooth_abs1_op/2_op'),('combinations',H+'BinaryOperators.hpp: smooth_max, smooth_min')]),
P('C18','Nested active types deliver exact higher-order derivatives',
 'Nesting forward or adjoint types inside one another gives, for every supported operator and function, value, first and second derivatives equal to the analytic ones wherever these exist, identically for every nesting order of the modes. Derivatives of the inner level do not leak into the outer one.',
 ['inputs','programs'],'all operand values where the second derivative exists, every supported function, nesting of forward in forward, forward in adjoint',
 'Second-order tests cover sampled values for a subset of the functions.',
 [H+'Literals.hpp',H+'UnaryMathFunctors.hpp',H+'BinaryMathFunctors.hpp',H+'Traits.hpp',H+'Interface.hpp'],
 [('functors instantiated at active scalar types',H+'UnaryMathFunctors.hpp, '+H+'BinaryMathFunctors.hpp'),('mode descriptors',H+'Interface.hpp')]),
P('C19','A new recording or cleared tape carries nothing over',
 'After starting a new recording, the result of propagating adjoints depends only on what is recorded and seeded afterwards, whatever was recorded, seeded or propagated before, while still-live variables keep their registration; clearing derivatives makes every adjoint read as zero before the next propagation while the recording stays intact. Clearing a tape completely makes it equivalent to a newly constructed one (callbacks handed over for destruction stay owned).',
 ['histories'],'all histories before the reset and all recordings after it',
 'Tests re-use a tape once or twice with the same function; leftovers from other shapes of history are not exercised.',
 ['src/Tape.cpp',H+'Tape.hpp'],
 [('reset operations','src/Tape.cpp: newRecording, clearAll, clearDerivatives, initDerivatives, derivative')]),
P('C20','Threads with their own active tapes do not interfere',
 'Recordings, adjoints and active-tape selection of one thread are unaffected by whatever other threads do with their own tapes and variables.',
 ['schedules'],'all interleavings of threads each using their own tape',
 'Tests run a few threads under the scheduler\'s whims.',
 [H+'Tape.hpp',H+'Macros.hpp','src/Tape.cpp'],
 [('thread-local active tape',H+'Tape.hpp: active_tape_')]),
P('C21','Numeric traits of active types agree with the underlying type',
 'The standard numeric limits, hashing, type classification and mode descriptors of an active type agree with those of its underlying floating point type: limits are equal constants, equal values hash equally to the plain value\'s hash, and the generic value and derivative accessors reach the stored value and derivative for reading and writing.',
 ['inputs','programs'],'all values and all supported active types',
 'Hashing and accessor behaviour are quantified over all values; tests sample one or two.',
 [H+'StdCompatibility.hpp',H+'Interface.hpp',H+'Literals.hpp',H+'TypeTraits.hpp'],
 [('limits and hash',H+'StdCompatibility.hpp'),('accessors',H+'Literals.hpp: value, derivative')]),
]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in props:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(props))
