TECH = {
 "C01": ("dispatch resolution by dataflow over LLVM IR: per generic operation and class tag, the callee reached, the role of every argument and the fate of its result; tag/typestate analysis of every use of representation storage; dataflow contracts of the generic combiners",
         "operations whose selected callee or argument the engine cannot resolve are undecided"),
 "C13": ("interprocedural value-numbering dataflow over LLVM IR; frame/value rule per accessor",
         "sound for straight-line and loop writes the engine resolves; unresolved accessors are reported as undecided"),
 "C02": ("dataflow reduction of writers and readers to item sequences (kind, closed-form position, source, destination) over LLVM IR; sequence, position, size and field correspondence compared",
         "arrays are laid out at small distinct extents; nested objects are items of their own"),
 "C03": ("dataflow reduction of text savers and loaders to item sequences: constant format strings resolved from the IR and split into conversions with their sources and destinations; order, types, precision, separators and restored fields compared",
         "arrays are laid out at small distinct extents; precisions 1, 3, 17, 40 and 120 stand for all"),
 "C04": ("interprocedural value-numbering dataflow over LLVM IR; exit state of every copy routine compared field by field with the source under an ownership table",
         "fields whose exit value the engine cannot resolve are reported as undecided"),
 "C05": ("dataflow summaries of every destructor over LLVM IR: the set of storage released, as access paths from the object, compared with the ownership table for every class tag and for absent parts",
         "arrays at small distinct extents; nested objects are released by destructors that are checked themselves"),
 "C08": ("definite-initialisation (must) dataflow over LLVM IR, interprocedural: fields set in every object handed out by a constructor, copy or loader; first access to raw memory and local arrays; unset SSA values followed to their uses",
         "fields are checked individually, array elements as a whole (the element maps are the subject of C04, C20 and C21)"),
 "C10": ("interprocedural effect (mod) analysis over LLVM IR with access paths and path-condition refutation",
         "a write through a pointer the engine cannot trace to a parameter is not attributed; aliasing between distinct arguments is assumed away"),
 "C11": ("whole-program effect analysis over LLVM IR: writes to global and static variables (direct, through derived pointers, through callees), dataflow from clock and environment to anything but messages, call-graph reachability of the random generator against the list of random operations",
         "indirect calls are assumed not to reach the generator; uninitialised reads are the subject of C08"),
 "C14": ("path-sensitive constant propagation over LLVM IR with the configured limit set to 1, 2 and 3 and all other conditions both ways (iteration count, reported status), path sums of counter increments per evaluation and per iteration",
         "loops without a configured limit (bisection to a tolerance, Newton without maxiter) are outside the rule; limits are checked at two values"),
 "C15": ("forward dataflow of point arrays over LLVM IR (in the box / outside / unknown), context-sensitive over the routines called, with projection loops decided by case analysis over the orders of value and bounds",
         "the starting point is assumed to lie in the box and the bounds to be given; brute force and stochastic gradient descent are outside the rule; the value of a limited step (not a projection) is not tracked: undecided"),
 "C21": ("access-map (polyhedral-style) summaries from dataflow over LLVM IR: destination index and source of every write as closed forms of loop counters, compared with the documented map",
         "maps are compared at extents 1..3 per dimension; routines whose index or loop bounds the engine cannot close are undecided"),
 "C20": ("access-map summaries from dataflow over LLVM IR (destination, value, delegated call arguments as closed forms of loop counters) compared with the documented parameter layout; dispatch resolved per function class",
         "maps are compared at small sizes with mixed parameter counts; routines whose writes the engine cannot close are undecided"),
 "C17": ("failure injection by path-sensitive constant propagation over LLVM IR: from every call that opens, reads, writes or closes a file the paths of its failure are followed to their ends",
         "an assertion or exit counts as a report; writes to a stream supplied by the caller are the caller's to check"),
 "C18": ("abstract interpretation of the Python module (ast) over provenance labels and ownership states of C objects, against the C declarations wrapped by the interface file (clang syntax tree) and the ownership summaries of the C code (LLVM IR); syntax-tree dataflow over the inline wrappers",
         "SWIG is not installed, so its generated code is not looked at; arrays returned as plain double * are not tracked; methods are run for two dimensions with every option given or left out"),
 "C19": ("shape dataflow over LLVM IR: extents of every core and every recorded rank of every train that is built, as closed forms of loop counters, matched against each other for dimensions 1..4",
         "decomposition ranks are matched symbolically; builders whose core shapes the engine cannot close are undecided"),
 "C22": ("access-map summaries from dataflow over LLVM IR (which univariate function goes to which element of which core) whose matrix product is compared with the documented function as a polynomial identity",
         "compared at dimensions 1..4 and small ranks; evaluation of the univariate functions themselves is outside"),
 "C09": ("extent analysis over LLVM IR: every element access, block copy and array handed out in an object, as symbolic offset and extent over loop counters, guards and object invariants, interprocedural through array parameters; Farkas-style linear proof of containment, small well-formed extents as counterexample",
         "relations between sizes of different arguments are decided only where a caller fixes them; accesses whose index is data, or whose loop has no closed length, are undecided"),
 "C16": ("extent analysis of every BLAS and LAPACK call over LLVM IR: the storage a routine touches for the dimensions, leading dimensions, increments and work lengths passed (a table of the routines' documented accesses) against the extents of the arrays passed",
         "calls whose dimensions are runtime data, or arrays of unknown extent, are undecided"),
 "C06": ("ownership typestate over LLVM IR, interprocedural: per-function summaries of what is allocated, handed to the caller, stored, consumed and released; every acquisition followed along all paths to a release, a hand-over or a stored reference; objects destroyed field by field against an ownership table",
         "allocation is assumed to succeed; loops that may run are taken to run; overwriting an owned field without releasing it is not decided; references the engine loses are undecided"),
 "C07": ("ownership typestate over LLVM IR, interprocedural: after every release (direct, by a destructor, by realloc or by a routine that consumes its argument) all paths are followed for a further use, a second release, or a reference left in an object that outlives the call; stored moves and possibly-null uses likewise",
         "aliases held by data structures the engine cannot resolve are undecided; distinct arguments are assumed not to alias"),
 "C12": ("constant propagation of table initialisers through the order selection in LLVM IR, compared with independently computed Gauss-Legendre rules; dataflow summaries of the formula-based rules compared with the documented closed forms",
         "all 199 tabulated orders exactly; formula-based rules at small orders"),
}
NA = {
 "N01": "the approximation error is a runtime numerical quantity (depends on the approximated function); no static argument in reach bounds it",
 "N02": "the rounding error is a runtime numerical quantity of an SVD truncation; no structural clause is equivalent to it",
 "N03": "exactness of integrals and inner products is numerical; formulas could only be frozen as text, which would alarm on equivalent rewrites",
 "N04": "equality of a gradient with a derivative is a statement about real functions; deciding it needs symbolic differentiation or execution",
 "N05": "convergence depends on the objective supplied at run time; only the bounded-budget clause is structural (C14)",
 "N06": "orthonormality is a numerical property of computed values",
 "N07": "inverse-transform accuracy is a numerical property of computed values",
}
