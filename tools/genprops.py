"""Writes properties.jsonl (kept as a script so that the text is edited in one place)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})


p("C01", "Generic operations reach the matching operation of the right representation",
  "Every operation on a univariate function of any supported representation (polynomial, piecewise, constant element, linear element, kernel) is carried out by that representation's own implementation of the same operation, on the same operands in the same roles. Storage built for one representation is never read as another one, for function objects and for approximation options alike.",
  ["inputs", "programs"], "all representations, all generic operations, all call sites that dispatch on the representation",
  "A test exercises one representation through a few operations; the polynomial half of the library is not even linked into the test programs here, and a wrong arm for a rarely used pair (representation, operation) is never executed.",
  ["c3/lib_funcs/functions.c", "c3/lib_funcs/funcs_mixed.c", "c3/lib_funcs/funcs_not_standard.c", "c3/lib_funcs/fapprox.c"],
  [("GF_SWITCH / switch over the function class", "c3/lib_funcs/functions.c")])

p("C02", "Binary serialization: the reader mirrors the writer and sizes are exact",
  "For every serializable object (elements, kernels, generic functions, matrices of functions, function trains, transforms, densities) the reader consumes exactly the sequence of items the writer produced, and every item read back lands in the field it was written from, so that a saved object loads back equal. The size announced for a buffer equals the number of bytes the writer produces for the same object.",
  ["inputs"], "all objects of all shapes: every dimension, rank, number of nodes or kernels, nested representation",
  "Round trips are tested for a handful of shapes; an off-by-one in a size or a swapped pair of equal-typed items only shows for other shapes or values, or only as a heap overflow of a few bytes.",
  ["c3/lib_array/array.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/kernels.c", "c3/lib_funcs/piecewisepoly.c", "c3/lib_funcs/functions.c",
   "c3/lib_funcs/funcs_not_standard.c", "c3/lib_clinalg/qmarray.c", "c3/lib_clinalg/quasimatrix.c", "c3/lib_clinalg/ft.c", "c3/lib_probability/probability.c"],
  [("serialize_* / deserialize_* pairs", "c3/lib_funcs, c3/lib_clinalg, c3/lib_probability"), ("serialize_int, serialize_size_t, serialize_double, serialize_doublep", "c3/lib_array/array.c")])

p("C03", "Text save and load agree item by item",
  "For every object with a text form, the loader reads the items in the order and with the types in which the saver prints them, each into the field it was printed from, with loops of the same length. Floating-point items are printed with the number of digits the caller asked for, as real numbers that the loader's conversion accepts.",
  ["inputs"], "all objects with a text form, all sizes and precisions",
  "Text round trips are tested on one function train with one kind of element.",
  ["c3/lib_funcs/constelm.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/kernels.c", "c3/lib_funcs/functions.c", "c3/lib_clinalg/qmarray.c", "c3/lib_clinalg/ft.c"],
  [("*_savetxt / *_loadtxt pairs", "c3/lib_funcs, c3/lib_clinalg")])

p("C04", "Copies are complete and independent of the original",
  "A deep copy of any object (univariate functions, matrices of functions, function trains, options, transforms, tensors, index sets) carries every piece of the original's state, all elements of every array included. It owns its own storage: no memory that belongs to the original is shared with the copy, so changing or freeing one never affects the other.",
  ["inputs", "histories"], "all objects, all sizes, all later histories of modifying or freeing either one",
  "Tests compare a copy with the original right away and on a few fields; a field that is not carried over or storage that is shared only matters in a later operation.",
  ["c3/lib_funcs/constelm.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/kernels.c", "c3/lib_funcs/piecewisepoly.c", "c3/lib_funcs/functions.c", "c3/lib_clinalg/qmarray.c", "c3/lib_clinalg/quasimatrix.c", "c3/lib_clinalg/ft.c",
   "c3/lib_array/array.c", "c3/lib_tensor/tensor.c", "c3/lib_probability/probability.c", "c3/lib_clinalg/indmanage.c"],
  [("*_copy, *_copy_deep", "c3/lib_funcs, c3/lib_clinalg, c3/lib_array, c3/lib_tensor")])

p("C05", "Destroying an object releases everything it owns, once",
  "The destructor of every object releases all storage the object owns, including every element of owned arrays and every nested object, exactly once, and accepts a null object where it is documented or written to do so. No two objects (or two fields of one object) own the same storage. Storage the object merely refers to (supplied and kept by the caller) is not released.",
  ["inputs", "histories"], "all objects however built, all sizes",
  "Leaks and wrong releases are invisible to the assertions in the tests; the test programs are not run under a leak checker.",
  ["c3/lib_funcs", "c3/lib_clinalg", "c3/lib_array", "c3/lib_tensor", "c3/lib_tensdecomp", "c3/lib_optimization", "c3/lib_superlearn", "c3/lib_probability", "c3/lib_interface"],
  [("*_free destructors", "every library")])

p("C06", "No memory or file handle is leaked on a returning path",
  "Whatever an operation allocates or opens for its own use is released, handed to the caller, or stored in an object that outlives the call, on every path on which the operation returns normally or with an error code.",
  ["inputs", "fault_sequences"], "all returning paths of all functions, early and error returns included",
  "A leak does not fail an assertion, and most error returns are never taken by the tests.",
  ["c3/lib_array/array.c", "c3/lib_clinalg/ft.c", "c3/lib_clinalg/qmarray.c", "c3/lib_funcs", "c3/lib_optimization/optimization.c", "c3/lib_superlearn", "c3/lib_tensdecomp", "c3/lib_probability"],
  [("matching free / fclose on every path", "every library")])

p("C07", "No use after free and no double free",
  "No operation uses storage after releasing it or passing it to a function that releases it, and no operation releases the same storage twice, on any path.",
  ["inputs", "histories"], "all paths of all functions",
  "Tests without a memory checker rarely notice a stale read, and the offending paths (restarts, early exits, rank growth) are not all taken.",
  ["c3/lib_clinalg", "c3/lib_funcs", "c3/lib_optimization", "c3/lib_superlearn", "c3/lib_tensdecomp", "c3/lib_array"],
  [("free discipline and pointer reassignment", "every library")])

p("C08", "Every constructor leaves no field unset",
  "An object handed out by a constructor, copy or loader has every field that the library later reads set to a defined value, and no operation reads a local variable or freshly allocated memory before writing it.",
  ["inputs", "configurations"], "all constructors and all paths through them",
  "Uninitialised memory is usually zero in a short-lived test process, so a test passes by luck.",
  ["c3/lib_funcs", "c3/lib_clinalg", "c3/lib_array", "c3/lib_optimization", "c3/lib_superlearn", "c3/lib_probability", "c3/lib_interface"],
  [("*_alloc, *_init, *_create constructors", "every library")])

p("C09", "Array accesses stay inside the storage they were given",
  "Every element access made by the library stays inside the array it belongs to: loops over nodes, coefficients, kernels, ranks, cores, samples and parameters run over exactly the extent that was allocated or that the object records for that array.",
  ["inputs"], "all sizes and shapes, all loops",
  "An overrun by one element in the heap does not fail an assertion; tests use few shapes.",
  ["c3/lib_funcs", "c3/lib_clinalg", "c3/lib_array", "c3/lib_linalg", "c3/lib_tensor", "c3/lib_tensdecomp", "c3/lib_optimization", "c3/lib_superlearn", "c3/lib_probability"],
  [("loop bounds against allocation sizes", "every library")])

p("C10", "Queries and arithmetic leave their inputs unchanged",
  "Operations that compute a value or build a new object from existing ones (evaluation, integration, inner products, norms, sums, products, copies, gradients, saving) leave every input object and input array exactly as they found it; only documented in-place operations and output arguments are modified.",
  ["inputs", "histories"], "all inputs and all later uses of the same input objects",
  "Tests rarely re-examine inputs after a call, so a temporary normalisation or a sign flip left in an input goes unnoticed.",
  ["c3/lib_funcs", "c3/lib_clinalg", "c3/lib_array", "c3/lib_linalg", "c3/lib_tensor", "c3/lib_tensdecomp", "c3/lib_probability", "c3/lib_superlearn"],
  [("const qualified parameters and copies before in-place kernels", "every library")])

p("C11", "No hidden state: results depend on arguments and the seeded generator only",
  "Apart from operations documented as random, which draw only from the C library's seedable generator, the result of a library call depends only on its arguments and the objects reachable from them: no call leaves state in global or function-local static variables, and none reads the clock, the environment or uninitialised storage to compute a result.",
  ["histories", "schedules"], "all call histories and interleavings",
  "A test makes one call in a fresh process; hidden state only shows in the second call or in another thread.",
  ["c3/lib_linalg/linalg.c", "c3/lib_array", "c3/lib_funcs", "c3/lib_clinalg", "c3/lib_superlearn", "c3/lib_probability"],
  [("absence of writable globals and statics", "every library")])

p("C12", "Quadrature rules are the rules they claim to be",
  "For every order offered, the nodes and weights delivered are those of the named rule of that order: tabulated Gauss-Legendre rules to the precision of the tables (on [-1,1], for the weight function 1/2), the Gauss-Hermite and large Gauss-Legendre rules from the documented Jacobi matrix, Chebyshev-Gauss, Clenshaw-Curtis, Fejer, Simpson and trapezoidal rules by their formulas, and rescaling to [a,b] maps nodes and weights affinely. A request for order n returns the rule of order n; orders that are not available are refused.",
  ["inputs"], "every order, node and weight",
  "Integration tests use a few orders with smooth integrands; one wrong digit in one weight of a rarely used order is invisible.",
  ["c3/lib_quadrature/legquadrules.c", "c3/lib_quadrature/legquadrules2.c", "c3/lib_quadrature/quadrature.c"],
  [("constant tables and their selection", "c3/lib_quadrature"), ("rule formulas", "c3/lib_quadrature/quadrature.c")])

p("C13", "An option that is set is the option that is used",
  "Setting an option or attribute of any options or algorithm object changes exactly that option to exactly the given value (array options: every element), reading it back returns it, and no other option of the object changes.",
  ["configurations", "histories"], "all setters and getters of all options objects, all values",
  "Tests set a handful of options and check only the final numerical result, which often does not depend on them.",
  ["c3/lib_funcs", "c3/lib_optimization/optimization.c", "c3/lib_superlearn", "c3/lib_interface/approximate.c", "c3/lib_clinalg"],
  [("*_set_* / *_get_* accessors", "every library")])

p("C14", "Iterations and evaluations respect the configured budgets",
  "Every iterative algorithm (line searches, gradient, quasi-Newton, batch and stochastic optimizers, alternating least squares, cross approximation sweeps, rank adaptation) stops after at most the configured maximum number of iterations or evaluations, whatever the objective does. The counters it reports are advanced once per iteration or evaluation, and stopping at the limit is reported as such.",
  ["inputs", "configurations"], "all objectives, starting points, tolerances and limits",
  "Tests use objectives that converge long before any limit, so the limit branches are not executed.",
  ["c3/lib_optimization/optimization.c", "c3/lib_superlearn/regress.c", "c3/lib_clinalg/ft.c", "c3/lib_interface/approximate.c", "c3/lib_tensdecomp/cross.c"],
  [("loop exits on maxiter / nevals", "c3/lib_optimization/optimization.c")])

p("C15", "Constrained optimizers never leave the box",
  "Every point at which a box-constrained optimizer or line search evaluates the objective, and the point it returns, lies within the lower and upper bounds given by the caller, component by component.",
  ["inputs"], "all objectives, bounds and starting points inside the box",
  "Tests check the final point of a few convex problems, not the intermediate evaluations.",
  ["c3/lib_optimization/optimization.c"],
  [("projection onto the box before evaluation", "c3/lib_optimization/optimization.c")])

p("C16", "Dense linear algebra calls have consistent shapes",
  "Every call into BLAS or LAPACK passes dimensions, leading dimensions, increments and workspace sizes that agree with one another and with the storage of the arrays passed.",
  ["inputs"], "all matrix shapes, square or not",
  "Tests mostly use square matrices or one shape, for which a swapped dimension is harmless.",
  ["c3/lib_linalg/linalg.c", "c3/lib_linalg/matrix_util.c", "c3/lib_clinalg", "c3/lib_tensdecomp", "c3/lib_superlearn"],
  [("arguments of dgemm, dgemv, dgesdd, dgeqrf, ...", "c3/lib_linalg and callers")])

p("C17", "Input and output failures are reported, not ignored",
  "When a file cannot be opened, is shorter than it should be, or cannot be written, the operation reports failure (null object or error code) and does not go on to use the missing data; nothing is ever read through a null stream.",
  ["fault_sequences"], "all file operations, all failures",
  "The tests only save and load files that exist and are complete.",
  ["c3/lib_array/array.c", "c3/lib_clinalg/ft.c", "c3/lib_probability/probability.c", "c3/lib_stringmanip/stringmanip.c", "c3/lib_funcs"],
  [("checks after fopen, fread, fgets", "every file reader and writer")])

p("C18", "The Python interface calls the C library correctly",
  "Every C function used from the Python interface exists with that number of arguments and gets C objects of the type it takes; every option accepted there is forwarded to the setter of the same option, for the dimension it was given for; arrays of wrong length are rejected before they reach C; Python objects free the C objects they own exactly once and do not use them afterwards, also after an exception; and sums, differences, products, scaling, moments and sensitivities in Python are those of the C operations of that name.",
  ["programs", "configurations"], "all methods and options of the Python classes",
  "No Python test runs in the build here, and Python only fails when the wrong line is executed.",
  ["wrappers/python/c3py/c3py.py", "wrappers/python/c3swig/c3.i"],
  [("calls through the swig module", "wrappers/python/c3py/c3py.py")])

p("C19", "Ranks recorded for a function train match its cores",
  "In every function train the library builds, the recorded ranks agree with the shapes of the cores: the first and last rank are those of the outer cores, and neighbouring cores have matching inner dimensions equal to the recorded rank. Sums add the inner ranks and products multiply them.",
  ["inputs"], "all dimensions and ranks, all operations that build a function train",
  "Tests build trains by one or two constructors and look at values, not at the rank records used by later operations.",
  ["c3/lib_clinalg/ft.c", "c3/lib_clinalg/dmrg.c", "c3/lib_clinalg/dmrgprod.c", "c3/lib_clinalg/qmarray.c"],
  [("assignment of ranks and cores", "c3/lib_clinalg/ft.c")])

p("C20", "Parameters read from a function are the parameters written to it",
  "For every parameterised function, reading its parameters after updating them with a vector returns that vector, in the same order and number that the function reports, and derivatives with respect to the parameters use the same order. Scaling or negating a function acts on every coefficient exactly once.",
  ["inputs", "histories"], "all representations, all numbers of parameters",
  "Round trips are tested for one representation and size; a missed last coefficient shows up only as a slightly worse fit.",
  ["c3/lib_funcs/constelm.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/kernels.c", "c3/lib_funcs/functions.c", "c3/lib_clinalg/qmarray.c", "c3/lib_clinalg/ft.c", "c3/lib_superlearn/parameterization.c"],
  [("*_get_params, *_update_params, *_scale, *_flip_sign", "c3/lib_funcs, c3/lib_clinalg")])

p("C21", "Assembling matrices of functions puts every block where it belongs",
  "Operations that assemble matrices of univariate functions (stacking horizontally, vertically or block-diagonally, transposing, copying, extracting rows, columns or elements, inserting rows and columns) or combine them element by element (products, Kronecker products, derivatives, evaluation, integrals), and their dense matrix and tensor counterparts, place every function or value at the documented position of the result, drop none and duplicate none, and record the resulting shape, whatever the shapes of the inputs.",
  ["inputs"], "all numbers of rows and columns of all inputs",
  "Tests use one or two small shapes; index arithmetic that confuses rows with columns is right on square inputs.",
  ["c3/lib_clinalg/qmarray.c", "c3/lib_clinalg/quasimatrix.c", "c3/lib_clinalg/ft.c", "c3/lib_array/array.c", "c3/lib_tensor/tensor.c"],
  [("stacking and extraction loops", "c3/lib_clinalg/qmarray.c")])

p("C22", "Special function trains and train algebra represent the documented function",
  "A function train built for a special function (constant, linear, quadratic, product or sum of univariate functions) or from other trains (sum, product, scaled sum, application of operators, Laplacian, diffusion operator) has exactly the cores whose product is the documented function: every element of every core is set, no term is dropped, doubled or put in the wrong dimension, coefficients are taken from the documented position of the caller's array, and the functions of dimension k are built with the options of dimension k.",
  ["inputs"], "all dimensions (including 1 and 2), ranks, coefficients and options per dimension",
  "Tests build such trains with one dimension, symmetric coefficients and the same options in every dimension, for which most index errors are harmless.",
  ["c3/lib_clinalg/ft.c", "c3/lib_clinalg/diffusion.c", "c3/lib_clinalg/qmarray.c"],
  [("function_train_constant/linear/quadratic/rankone/initsum", "c3/lib_clinalg/ft.c"), ("function_train_sum/product/op_apply, laplace, diffusion", "c3/lib_clinalg/ft.c, c3/lib_clinalg/diffusion.c")])

p("N01", "Function-train approximations reach the requested accuracy",
  "Cross approximation and rank adaptation produce a function train whose error with respect to the approximated function is within the requested tolerance.",
  ["inputs"], "all functions in the supported class", "Tests sample a few smooth functions.",
  ["c3/lib_clinalg/ft.c", "c3/lib_interface/approximate.c"], [("ftapprox_cross", "c3/lib_clinalg/ft.c")])
p("N02", "Rounding keeps the function within the tolerance",
  "Rounding a function train to tolerance eps returns a train whose relative distance from the original is at most eps.",
  ["inputs"], "all function trains and tolerances", "Tests round a few trains.",
  ["c3/lib_clinalg/ft.c"], [("function_train_round", "c3/lib_clinalg/ft.c")])
p("N03", "Integrals, inner products and norms are exact for the representation",
  "Integrals, inner products and norms of piecewise constant, piecewise linear and polynomial functions equal their exact values up to rounding.",
  ["inputs"], "all functions", "Tests compare a few functions with quadrature.",
  ["c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/polynomials.c"], [("*_integrate, *_inner", "c3/lib_funcs")])
p("N04", "Gradients equal the derivatives of the objectives",
  "Every analytic gradient (of function trains with respect to inputs or parameters, of regression objectives) equals the derivative of the corresponding value.",
  ["inputs"], "all inputs and parameters", "Tests compare with finite differences at a few points.",
  ["c3/lib_clinalg/ft.c", "c3/lib_superlearn"], [("*_gradient_eval, *_param_grad_eval", "c3/lib_clinalg/ft.c")])
p("N05", "Optimizers converge to stationary points",
  "On smooth objectives the optimizers return a point satisfying the configured first-order tolerance unless they report another stopping reason.",
  ["inputs"], "all smooth objectives", "Tests use a standard suite of functions.",
  ["c3/lib_optimization/optimization.c"], [("c3_opt_*", "c3/lib_optimization/optimization.c")])
p("N06", "Orthonormal factorizations really are orthonormal",
  "QR, LQ and SVD of matrices of functions return factors that are orthonormal and whose product is the input.",
  ["inputs"], "all matrices of functions", "Tests check a few.",
  ["c3/lib_clinalg/qmarray.c"], [("qmarray_householder", "c3/lib_clinalg/qmarray.c")])
p("N07", "The FFT inverts its own transform",
  "Applying the inverse transform after the forward transform returns the input up to rounding.",
  ["inputs"], "all power-of-two lengths and values", "Tests use a few lengths.",
  ["c3/lib_fft/fft.c"], [("fft, ifft", "c3/lib_fft/fft.c")])
with open(os.path.join(R, "properties.jsonl"), "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        fh.write(json.dumps(x) + "\n")
