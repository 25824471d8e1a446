TESTS = 'The tests construct, copy and run each generator a handful of times on a few sample models; '
prop('C01', 'A copied, assigned or cloned generator is equivalent to its original',
 'Copying a cut generator, parameter object or stored problem summary by copy construction, assignment or clone() yields an object of the same dynamic type holding the same value for every setting and the same content for every piece of stored problem data. Whatever the state of the source (and, for assignment, of the target) at that moment, every query and every later separation call on the copy answers as the original would (so an array that the original does not have is absent in the copy too wherever separation tells absent from empty); only scratch areas that each call rebuilds are exempt.',
 ['histories', 'inputs'], 'Every class with value semantics, every state its source and target can be in, every path through the copying code.',
 TESTS + 'a dropped or crossed member is visible only after that member was given a non-default value, copied, and then used on a model where it matters.',
 ['src/*/Cgl*.cpp', 'src/*/Cgl*.hpp'], [('copy constructors, assignment operators, clone()', 'every generator and parameter class'), ('CglTreeProbingInfo / CglStored / CglUniqueRowCuts copying', 'src/CglProbing, src/CglCommon')],
 'per-field disjunctive dataflow over LLVM IR of every copy operation (member coverage)',
 'Sound for the member-wise part up to the listed work areas and the trust that library types copy themselves; members whose value the analysis cannot follow are reported as undecided, never silently passed.')
prop('C02', 'Copies own their storage and assignment neither leaks nor dangles',
 'After copying or assigning a generator, parameter object or stored problem summary, source and target share no owned storage, so that changing or destroying either never affects the other; an absent or empty array stays absent or empty. Assignment releases exactly what the target owned before, leaves the source untouched, tolerates self-assignment and returns the target, and destruction releases everything the object owns, once.',
 ['histories', 'inputs'], 'Every class with owned storage, every combination of present/absent arrays in source and target, every path.',
 TESTS + 'aliasing, double release and leaks are invisible unless a memory checker watches exactly the sequence copy, modify, destroy for a populated object.',
 ['src/*/Cgl*.cpp', 'src/*/Cgl*.hpp'], [('copy constructors, assignment operators, destructors', 'every class that owns arrays'), ('CoinCopyOfArray and new/delete pairs', 'src/*/Cgl*.cpp')],
 'ownership dataflow over LLVM IR (fresh-block, release-once and length obligations on every path)',
 'Decides allocation, release, length and aliasing obligations per path with symbolic lengths; trusts library containers and the table of length members.')
prop('C03', 'A new generator starts fully initialised at its documented defaults',
 'Default construction gives every setting its documented default value and leaves no member of the object indeterminate, whatever memory it is built in; two default-constructed objects of one class agree in every setting. A constructor with arguments puts each valid argument into the setting it names and gives the rest their defaults; arguments that the class documents as invalid are refused and never stored.',
 ['histories', 'inputs'], 'Every public class and constructor, every argument value, every path through the constructor.',
 TESTS + 'an uninitialised member usually reads as zero in a fresh test process, and constructors with arguments are called with one or two values.',
 ['src/*/Cgl*.cpp', 'src/*/Cgl*.hpp'], [('constructors', 'every generator, parameter and stored-data class'), ('gutsOfConstruct and friends', 'src/CglMixedIntegerRounding')],
 'definite-initialisation and constant dataflow over LLVM IR of every constructor, against a table of documented defaults',
 'Default values come from the headers and are kept in spec/settings.txt; members used only as per-call work areas are exempt from initialisation and listed.')
prop('C04', 'Setters store exactly the accepted values and nothing else',
 'After a setter is called with a value that the class documents as acceptable, the matching getter returns that value; a value outside the accepted range leaves the setting unchanged (or is refused by the documented exception). A setter changes no other setting, keeps no pointer to caller storage that the class promises to copy, releases owned storage that it replaces, and setting a whole parameter object takes over every field of it.',
 ['inputs', 'histories'], 'Every setter of every public class, every argument value including boundary values, every prior state.',
 TESTS + 'most setters are never called, and none with values on or beyond the limits.',
 ['src/*/Cgl*.cpp', 'src/*/Cgl*.hpp'], [('set/get members', 'every generator and parameter class'), ('setParam', 'src/CglRedSplit, src/CglGMI, src/CglRedSplit2')],
 'symbolic member effects of each setter (LLVM IR dataflow) compared with the getter and the accepted interval',
 'Boundary behaviour is decided on every comparison constant in the code and in the table; accepted ranges come from the headers.')
GC = ['src/*/Cgl*.cpp']
prop('C05', 'Separation never modifies the solver it is given',
 'generateCuts() and every other entry point that takes the solver by const reference or pointer leaves the solver exactly as it was: model, bounds, matrix, solution, basis, parameters and message handler are not written, not even through arrays obtained from it, and a factorization that the call switches on is switched off again on every return. Likewise other const arguments and, for const queries, the object itself stay unchanged.',
 ['inputs', 'histories'], 'Every entry point, every model, every path through separation including early returns.',
 TESTS + 'a write through a const_cast pointer or an early return that forgets to undo a switch shows only on models that take that path, and then as wrong results much later.',
 GC, [('generateCuts', 'every generator'), ('enableFactorization/disableFactorization', 'src/CglRedSplit, src/CglGMI, src/CglRedSplit2')],
 'inclusion-based points-to (taint of the const arguments) over LLVM IR with all helpers inlined, plus a typestate for factorization',
 'Flow-insensitive and therefore covers every path; trusts const members of the Osi/CoinUtils libraries.')
prop('C06', 'Separation only appends to the cut collection',
 'Every cut that is in the OsiCuts collection when generateCuts() is called is still there, in the same position and unchanged, when it returns: separation only appends, never erases, reorders, replaces or edits cuts that it did not create in this very call (in particular it never re-labels earlier cuts as globally valid).',
 ['histories', 'inputs'], 'Every generator, every prior content of the collection, every path.',
 TESTS + 'the tests almost always pass an empty collection.',
 GC, [('OsiCuts uses in generateCuts and helpers', 'every generator')],
 'points-to from the OsiCuts argument with index lower-bound reasoning against sizeRowCuts() on LLVM IR',
 'Decides all direct and indirect uses; trusts that OsiCuts::insert* append.')
prop('C07', 'Cuts are marked globally valid only when the tree information asks for it',
 'A separation call marks a cut as globally valid only if its caller asked for it: outside the tree with option 4, outside the tree on the first pass with option 8, or with option 16 (for CglZeroHalf: by its own flag 1); never inside the tree otherwise (CglTwomir may also mark cuts taken from its original problem outside the tree). When the condition holds, CglClique, CglFlowCover, CglKnapsackCover, CglMixedIntegerRounding2, CglZeroHalf and, up to their length limits, CglGomory and CglTwomir mark every row cut that the call added.',
 ['inputs', 'histories'], 'Every separation entry point, every combination of inTree, pass and options, every path.',
 TESTS + 'the tests call generateCuts with the default tree information only; a wrongly marked cut cuts off solutions elsewhere in the tree.',
 GC, [('setGloballyValid loops', 'generateCuts of CglClique, CglKnapsackCover, CglFlowCover, CglGomory, CglTwomir, CglMixedIntegerRounding2, CglProbing, CglZeroHalf')],
 'conditional constant (known-bits) propagation over LLVM IR with all helpers inlined, once per combination of the tree information',
 'Exhaustive over the combinations of the deciding bits; trusts that new Osi cuts are not globally valid.')
prop('C08', 'Separation changes no setting of the generator',
 'After generateCuts() returns, on whatever path, every setting of the generator (every value that has a setter or getter, tolerances and limits included) is what it was before the call, so that the next call is governed by what the user set; so are the cuts, the probing information and the solution kept in a CglStored. Settings that are temporarily adjusted during a call are restored on every return.',
 ['histories', 'inputs'], 'Every generator, every setting, every return path of every separation entry point.',
 TESTS + 'settings are not compared before and after, and a forgotten restore needs the particular early return.',
 GC, [('generateCuts', 'every generator'), ('temporary adjustments of petol, MAXAGGR_, rowCuts_', 'src/CglClique, src/CglMixedIntegerRounding2, src/CglProbing')],
 'path-sensitive save/restore dataflow per setting over LLVM IR with all helpers inlined',
 'Each store, mutable reference or memory intrinsic that can reach a setting is followed on all paths; statistics counters are exempt.')
prop('C09', 'Separation keeps no hidden process-wide state',
 'What a separation call does depends only on its arguments, the state of its own object and the documented time limit: no static or global variable carries information from an earlier call or from another generator object, the process-wide random sequence is used only after seeding it with a fixed value, clocks are read only by generators with a time limit, and neither environment nor process identity is consulted.',
 ['histories', 'schedules'], 'Every separation entry point, every interleaving of calls on different objects.',
 TESTS + 'each test runs one generator once or twice in a fresh process.',
 GC, [('static data', 'src/CglZeroHalf/Cgl012cut.cpp'), ('random weights', 'src/CglOddHole, src/CglDuplicateRow')],
 'must-write-before-read dataflow for every mutable global over LLVM IR with all helpers inlined',
 'Exact for globals and statics of Cgl and the inline CoinUtils generator; the library internals are trusted.')

prop('C10', 'Separation releases what it allocates exactly once on every return',
 'Every block of memory, warm start or solver copy that a separation call or a refresh of stored problem data allocates is, on every return path, either released exactly once by the matching operator or still owned by the generator or the returned cuts; nothing is released twice or touched after its release, the storage that replaced data occupied is released, and no owned member is left pointing at released storage. Repeated calls therefore neither leak nor corrupt memory, whatever early exit they take.',
 ['inputs', 'histories'], 'Every separation entry point and every data-refreshing operation, every allocation in them and their helpers, every path to a return.',
 TESTS + 'leaks and double releases show only under a memory checker and only on the models that take the particular early return.',
 GC, [('early returns of generateCuts and its helpers', 'every generator'), ('refreshSolver, createRowList, createCliqueList', 'src/CglZeroHalf, src/CglOddHole, src/CglDuplicateRow')],
 'path-wise allocation typestate over LLVM IR with all helpers inlined, conditional constants and repeated conditions tracked',
 'Exact for blocks held in locals and exact slots; for blocks that travel through containers or the counted C structures of CglZeroHalf, CglTwomir and CglProbing only the existence of a release is decided. Exceptions and allocation failure are outside.')
prop('C12', 'generateCpp writes a program that recreates the generator',
 'The text that generateCpp() writes includes the header of the class, declares one object of the class under the name that is returned, and contains only calls of public member functions of that object that exist with that number of arguments. For every setting whose value differs from the default of a new object an active line ("3") sets exactly that setting to its current value; lines for settings at their default are marked as such ("4"). Compiling and running the active lines therefore gives a generator equal in every setting that has a setter.',
 ['inputs'], 'Every generator class with generateCpp, every setting, default and non-default values.',
 TESTS + 'the generated text is never compiled by a test, and every setting and value combination would have to be tried.',
 GC, [('generateCpp', 'every generator')],
 'conditional constant propagation of each generateCpp over default and changed settings, rendering of the reachable output statements, and comparison of the calls written with effect summaries of the setters',
 'Settings are varied one at a time; the precision of printed doubles is that of the conversion. Settings for which the class itself has no setter, and stored problem data, are outside.')
prop('C13', 'What a generator declares about its needs and its cuts is true',
 'A generator whose needsOptimalBasis() answers false never reads a basis, a factorization or a tableau from the solver that it is given; a generator whose mayGenerateRowCutsInTree() answers false in its present state never inserts a row cut when it is called inside the tree. A tree search may rely on either answer to skip work or calls.',
 ['inputs', 'histories'], 'Every generator, every separation entry point, every call in it and its helpers, every state that the answer depends on.',
 TESTS + 'tests always solve the relaxation first and never compare the declared answers with what a call does.',
 GC, [('needsOptimalBasis', 'src/CglCommon/CglCutGenerator.cpp and overrides'), ('mayGenerateRowCutsInTree', 'src/CglAllDifferent, src/CglProbing, src/CglCommon/CglCutGenerator.cpp')],
 'call-site query over inlined LLVM IR with points-to, and conditional constant propagation with the tree flag fixed',
 'The list of basis-dependent solver functions is fixed in the rule. The empty row cut that marks an infeasible problem is not counted as a row cut.')
prop('C15', 'Nothing left over from an earlier separation call decides a later one',
 'The data that a separation call collects about the current problem and solution in its generator (current bounds, right-hand sides, matrices, basis status, fractional and conflicting columns, node lists, counters) serves that one call: whatever an earlier call or a copy left there, the next call computes each of these anew before it uses it, also after a call that returned early. Calling a generator on a second problem, or again after the problem changed, therefore gives what a fresh generator with the same settings would give.',
 ['histories', 'inputs'], 'Every separation entry point, every work area of its generator, every state left by an earlier call, every path to every read.',
 TESTS + 'a stale work area shows only when one generator object is used for two problems of particular shapes in a particular order.',
 GC, [('work areas filled by generateCuts and its helpers', 'src/CglRedSplit, src/CglRedSplit2, src/CglGMI, src/CglClique'), ('persistent state', 'src/CglKnapsackCover, src/CglMixedIntegerRounding, src/CglMixedIntegerRounding2, src/CglFlowCover, src/CglTwomir')],
 'must-write-before-read dataflow over inlined LLVM IR for every work member, refined by consistent-path search',
 'Contents of arrays are trusted to be filled once their block was allocated in this call; the search history that CglZeroHalf keeps on purpose and the on-demand arrays of CglProbing are exempt.')

prop('C14', 'Every cut that separation adds is completely specified',
 'Every row cut that a separation call (or CglStored, when it stores cuts) puts into a cut collection has been given, on every path that leads there, its coefficients and a bound that is not infinite; its lower bound is not plus infinity, its upper bound not minus infinity, and a constant lower bound does not exceed a constant upper bound. A cut object that is used again for a further cut has its coefficients and both bounds set again. Where the row is handed over as local arrays of fixed length, every index and every coefficient has been assigned. Every column cut has been given bounds. The one cut without coefficients is the mark of an infeasible problem: lower bound above upper bound.',
 ['inputs', 'histories'], 'Every insertion of a cut in every separation entry point and in CglStored, every path from the construction (or previous use) of the inserted object.',
 TESTS + 'an incompletely filled cut appears only on the rare branch that forgot the call: a >= clique, a one-sided row, the second cut of the same object.',
 GC, [('construction and insertion of cuts', 'src/*/Cgl*.cpp'), ('implications and cliques found by probing', 'src/CglCommon/CglStored.cpp, src/CglCommon/CglTreeInfo.cpp')],
 'object-state dataflow over inlined LLVM IR for every cut object, confirmed by consistent-path search',
 'Numerical content (validity, which coefficient, which bound value) is not judged; rows of variable length are trusted to be filled.')

prop('C16', 'A refresh drops the earlier problem; prepared data is rebuilt before use',
 'refreshSolver() and refreshPrep() replace or discard every datum that the generator derived from the earlier problem (matrix copies, right-hand sides, row classifications, bounds, stored cuts, snapshots), whatever the new problem looks like, and leave generators that prepare data marked as not prepared. A generator (CglMixedIntegerRounding, CglMixedIntegerRounding2, CglResidualCapacity) that is not prepared, or that was told to prepare at every call, rebuilds every prepared datum before it uses it, and is marked as prepared only after all of it was rebuilt. Cuts are therefore never derived from rows, bounds or classifications of a problem that was replaced.',
 ['histories', 'inputs'], 'Every path through the refresh functions of CglDuplicateRow, CglZeroHalf, CglGomory, CglTwomir, CglProbing, CglMixedIntegerRounding(2), CglResidualCapacity and through the separation calls of the last three, every prepared member.',
 TESTS + 'stale data shows only when a generator is refreshed with another problem and used again, which no test does.',
 GC, [('refreshSolver', 'src/CglDuplicateRow, src/CglZeroHalf, src/CglGomory, src/CglTwomir, src/CglProbing'), ('preparation', 'src/CglMixedIntegerRounding, src/CglMixedIntegerRounding2, src/CglResidualCapacity')],
 'must-write dataflow over inlined LLVM IR from the refreshed state, conditional constant propagation on the preparation mark, consistent-path search',
 'Contents of arrays are trusted to be filled once their block was allocated; a problem without a solver object is exempt.')

prop('C11', 'Violation and support limits and switches set by the user are obeyed',
 'No separation call adds a cut that the limits set by the user forbid. CglStored adds a stored cut, or an implication cut made from its probing information, only after the violation of that very cut (from the current solution, its own bounds, columns and coefficients) was found to be at least the required violation. CglTreeProbingInfo::generateCuts adds an implication cut only if that cut is violated by more than its tolerance. CglClique adds a clique cut only after the sum over the final clique exceeded its bound one by the minimum violation; CglOddHole adds a cut only after the final sum (also after it shortened the cut) missed the bound of that cut by at least the minimum violation, and its public entry hands the limits of the generator on to the separation. CglRedSplit adds no cut with more entries than the maximum support. With the row clique or the star clique method switched off CglClique does not run that method, and with both off it adds nothing.',
 ['inputs', 'histories'], 'Every path from the entry, from an earlier insertion and from the last entry put into a cut to every insertion of a row cut in CglStored, CglTreeProbingInfo, CglClique, CglOddHole and CglRedSplit, every value of the limits.',
 TESTS + 'the limits are left at their defaults by the tests, and a skipped or weakened comparison shows only for candidates that lie between the default and the limit set.',
 ['src/CglCommon/CglStored.cpp', 'src/CglCommon/CglTreeInfo.cpp', 'src/CglClique/*.cpp', 'src/CglOddHole/CglOddHole.cpp', 'src/CglRedSplit/CglRedSplit.cpp'],
 [('required violation', 'src/CglCommon/CglStored.cpp generateCuts'), ('implication cuts', 'src/CglCommon/CglTreeInfo.cpp CglTreeProbingInfo::generateCuts'), ('petol and the method switches', 'src/CglClique/CglClique.cpp'), ('minimum violation', 'src/CglOddHole/CglOddHole.cpp'), ('MAX_SUPPORT', 'src/CglRedSplit/CglRedSplit.cpp generate_packed_row')],
 'consistent-path search over inlined LLVM IR with the limit comparisons forced to reject, symbolic linear forms of cut violation, conditional constant propagation on the switches',
 'The sum that a comparison uses is trusted to be the one over the entries of the cut where the cut has a variable number of entries; insertions behind the path cap in CglOddHole are reported as undecided.')
prop('C17', 'A generator is silent unless reporting is switched on',
 'With its log level at zero (the default) and its report options off (CglClique has two that are on by default), a generator writes nothing: constructing, copying, destroying it, refreshSolver() and every separation call produce no text on standard output or standard error, open or write no file and send no message through a message handler, on any path that returns to the caller, whatever the problem, the tree information and the environment. Only texts that announce themselves as a warning or an error are exempt, and messages immediately before the process is stopped.',
 ['inputs', 'histories'], 'Every output statement reachable (helpers inlined) from the separation entry points, refreshSolver, constructors, copies and destructors of every generator, with every report setting off.',
 TESTS + 'nobody looks at the text the tests print, and most of these statements sit on rare paths.',
 GC, [('log levels and report switches', 'src/CglDuplicateRow, src/CglAllDifferent, src/CglProbing, src/CglClique, src/CglGomory, src/CglTwomir'), ('printf and streams', 'src/*/Cgl*.cpp')],
 'conditional constant propagation with the report settings fixed to off, feasible-path reachability of output effects over inlined LLVM IR',
 'Whether a text is a warning is decided from its words; the LandP message handler and the generators that cannot be parsed here are outside.')

prop('C18', 'A clique entry keeps its column and its direction independent of each other',
 'The compact entries in which cliques and implications are stored (CliqueEntry) hold a column number and a direction. For every column number from 0 to 2^31-1 and both directions, and whatever the entry held before, the column read back (sequenceInCliqueEntry) is the column stored (setSequenceInCliqueEntry), the direction read back (oneFixesInCliqueEntry) is the direction stored (setOneFixesInCliqueEntry), storing a column leaves the direction alone and storing a direction leaves the column alone.',
 ['inputs'], 'Every column number, both directions, every earlier content of the entry.',
 'The tests use models with a few hundred columns, so that a lost high bit or a direction left over from an earlier use of the entry never shows.',
 ['src/CglCommon/CglTreeInfo.hpp'], [('accessors of CliqueEntry', 'src/CglCommon/CglTreeInfo.hpp'), ('users', 'src/CglCommon/CglTreeInfo.cpp, src/CglCommon/CglStored.cpp, src/CglKnapsackCover, src/CglProbing')],
 'abstract interpretation of the accessors over symbolic bits (bit provenance)',
 'Exact for shifts, masks, selections and additions without carries; other arithmetic is reported as undecided.')

# ---- properties this family cannot decide here
prop('N01', 'Every cut is valid for every integer point of the relaxation',
 'No row cut or column cut produced by any generator cuts off a feasible integer solution of the problem described by the solver it was given (for globally valid cuts: of the original problem), whatever the coefficients, bounds and tolerances.',
 ['inputs'], 'All mixed-integer problems, all LP solutions, all settings.',
 'A test checks a few known optimal solutions; validity is a statement about all integer points of all problems.',
 ['src/*/Cgl*.cpp'], [('derivation of cuts', 'every generateCuts')],
 na='Validity quantifies over floating-point coefficients, right-hand sides, tableau rows and the integer hull of an arbitrary problem; no sound static argument in reach bounds these (it would need a proof of each derivation with rounding). C05, C07, C11, C14, C15 and C16 decide the structural preconditions (untouched input, right scope of validity, complete cuts, tested candidate = added cut for stored implications, no stale data).')
prop('N02', 'Cuts of every generator are violated by the current solution',
 'Every row cut a separation call adds is violated by the solution of the solver by more than the tolerance of the generator, and the effectiveness recorded with it is that violation.',
 ['inputs'], 'All problems and solutions, all generators.',
 'Tests look at the number of cuts for a few problems.',
 ['src/*/Cgl*.cpp'], [('violation tests before insertion', 'every generateCuts')],
 na='Outside the generators of C11 the violation is a numerical sum over transformed (complemented, scaled, substituted) rows, related to the final cut only through arithmetic identities with rounding, and several generators add unviolated cuts on purpose (for example CglProbing, CglDuplicateRow, CglTwomir with relaxed tolerances); a static rule would have to prove those identities.')
prop('N03', 'Preprocessing and postprocessing preserve feasibility and objective',
 'A solution of the problem CglPreProcess returns, postprocessed, is feasible for the original problem with the same objective, and optimal if it was optimal.',
 ['inputs', 'histories'], 'All problems, all option combinations.',
 'Only end-to-end runs on sample models exercise it.',
 ['src/CglPreProcess/*.cpp'], [('preProcess / postProcess', 'src/CglPreProcess/CglPreProcess.cpp')],
 na='CglPreProcess needs a newer Osi/CoinUtils than is installed, so it neither builds nor parses here, and the statement is a semantic equivalence of optimisation problems over run-time data.')
prop('N04', 'Separation terminates within its documented time and node limits',
 'Every separation call ends, and honours the time limit, maximum number of passes, nodes or look-ahead set by the user.',
 ['inputs', 'schedules'], 'All problems and settings.',
 'Tests are small; a non-terminating or exponential case needs particular data.',
 ['src/*/Cgl*.cpp'], [('loop limits', 'CglProbing, CglClique, CglZeroHalf (tabu search), CglTwomir')],
 na='Termination of the separation loops depends on numerical progress (fractional values, scores, fixings) and on wall-clock time; no variant function is available statically, and what the limits bound (amount of work) is not an observable property of one path.')
prop('N05', 'Array accesses of separation stay inside their arrays for every problem',
 'No separation call reads or writes outside the arrays of the solver, of the generator or of its work space, whatever the problem.',
 ['inputs'], 'All problems (including no rows, no columns, no integers, empty rows).',
 'Small sample models never reach the capacity of a work array.',
 ['src/*/Cgl*.cpp'], [('index arithmetic', 'every generateCuts')],
 na='Index values come from matrices, permutations and counters that relate arrays of one generator to each other (row starts, look-up lists); bounding them needs relational invariants over array contents. C02 and C03 decide lengths and contents where they are symbolic in members; C15 decides initialisation of members.')
