#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the table is the source)."""
import json, os, sys

T = "tensap/tensor_algebra/tensors/"
A = "tensap/approximation/"
TL = A + "tensor_approximation/tensor_learning/"
PCA = A + "tensor_approximation/principal_component_analysis/"
F = "tensap/functions/"
M = F + "measures/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        anchors["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})

prop("P01", "Tensor operations leave their operands unchanged",
     "Every operation and query of the tensor algebra (arithmetic, contractions, products, transposition, "
     "orthogonalisation, norms, slicing, evaluation, format conversion, rank or storage queries) on full, canonical, "
     "diagonal, sparse and tree-based tensors leaves the receiver and every other argument (tensors, arrays, lists, trees) "
     "exactly as they were. Only operations documented as modifying their receiver may change it.",
     ["inputs", "programs"], "every operation, every operand of every format and shape, every sequence of operations on shared operands",
     "The tests call each operation once on fresh random operands and never look at an operand again afterwards, so an in-place edit of shared cores, ranks, trees or caller arrays is invisible.",
     [T + "full_tensor.py", T + "tree_based_tensor.py", T + "canonical_tensor.py", T + "sparse_tensor.py", T + "diagonal_tensor.py"],
     [("shallow copy-constructors share cores between operand and result", T + "tree_based_tensor.py"), ("result built from a copy, then edited", T + "full_tensor.py")],
     "any operand after the call")
prop("P02", "Functions, bases and quadrature: evaluation has no side effect",
     "Evaluating, differentiating, integrating, projecting or querying a function, functional basis, functional tensor, "
     "polynomial family, integration rule or tensorization map leaves that object and all arguments (points, coefficients, bases, lists) unchanged, "
     "so asking the same question twice gives the same answer. Only documented setters and documented caches (stored evaluations) may write.",
     ["inputs", "histories"], "every evaluation or query, on every object, after every history of earlier queries",
     "Tests evaluate each object a few times on fresh points and never compare an argument before and after or repeat a query after others.",
     [F + "function.py", F + "functional_tensor.py", F + "tensorizer.py", F + "polynomials/polynomials.py", F + "polynomials/orthonormal_polynomials.py",
      A + "bases/functional_basis.py", A + "bases/functional_bases.py", A + "bases/functional_basis_array.py", A + "integration/integration_rules.py"],
     [("evaluation of tensor product bases", A + "bases/functional_bases.py"), ("transformation of points to the reference interval", A + "bases/polynomial_functional_basis.py")],
     "arguments and receiver after the call")
prop("P03", "Measures and random variables: sampling and queries change nothing",
     "Sampling, evaluating densities, (inverse) distribution functions, moments, transfers between laws and truncations of supports leave the measure, "
     "the random variable or vector and every argument unchanged, so an answer never depends on which questions were asked before.",
     ["inputs", "histories"], "every query of every measure, after any history of queries",
     "Tests print a few moments and samples; no test repeats a query after another one or inspects the object afterwards.",
     [M + "random_variable.py", M + "random_vector.py", M + "discrete_random_variable.py", M + "product_measure.py", M + "lebesgue_measure.py"],
     [("cached moments", M + "random_variable.py"), ("support manipulations", M + "random_variable.py")], "receiver and arguments after the call")
prop("P04", "Index sets, grids and dimension trees are not changed by using them",
     "Set operations, arithmetic, ordering, comparison, enumeration, reduction, plotting and sub-structure extraction on multi-index sets, "
     "tensor grids and dimension trees leave both operands and all arguments unchanged and return a new object.",
     ["inputs", "programs"], "every operation on every index set, grid and tree, including operands used again later",
     "The unit tests check returned values on a handful of index sets, never whether the operands survived.",
     ["tensap/tools/multi_indices.py", "tensap/tools/grids.py", T + "dimension_tree.py", M + "random_multi_indices.py", "tensap/linear_algebra/magic_indices.py"],
     [("comparison and union of index arrays", "tensap/tools/multi_indices.py"), ("permutation of nodes and leaves", T + "dimension_tree.py")],
     "operands after the call")
prop("P05", "Truncation and PCA solvers can be reused: a run leaves no trace",
     "Running a truncation or a principal component analysis changes neither the solver's settings nor the tensor, function handle, shape, tree, "
     "activity mask, tolerance or rank arrays it was given, so the same solver applied again, in any order and to any tensor, returns the same result as a fresh one.",
     ["histories", "inputs"], "every sequence of calls on one solver object and every tensor",
     "Tests build a fresh solver per example and never call one twice with per-node settings.",
     ["tensap/tensor_algebra/tools/truncator.py", PCA + "tensor_principal_component_analysis.py", PCA + "functional_tensor_principal_component_analysis.py"],
     [("per-node tolerance and rank vectors derived from settings", "tensap/tensor_algebra/tools/truncator.py"), ("working copy of the solver", PCA + "tensor_principal_component_analysis.py")],
     "solver settings and arguments after the run")
prop("P06", "Learning never modifies the data and objects it is given",
     "Fitting a model (linear, canonical or tree-based) leaves the arrays the user supplied unchanged: training inputs and outputs, test data, sample weights, "
     "basis evaluations, initial guess, dimension tree, activity mask, rank array and the functional bases.",
     ["inputs", "histories", "configurations"], "every data set, every option combination, every number of fits on the same data",
     "Tests fit each data set once and never read the data afterwards.",
     [TL + "tensor_learning.py", TL + "tree_based_tensor_learning.py", TL + "canonical_tensor_learning.py", A + "learning/linear_model_learning_square_loss.py", A + "learning/loss_functions.py"],
     [("residual right-hand sides for corrections", TL + "tree_based_tensor_learning.py"), ("reshaping of outputs for shared coefficients", A + "learning/linear_model_learning_square_loss.py")],
     "user arrays after the fit")
prop("P07", "Seeding numpy's global generator reproduces every random result",
     "After seeding numpy's global random generator, every randomised result (random tensors, trees, samples, Latin hypercubes, cross-validation folds, "
     "random searches and initialisations) is a deterministic function of the seed and the arguments. No other source of entropy is used and the library never reseeds the generator.",
     ["inputs", "configurations", "histories"], "every seed, every randomised operation, every process",
     "Tests only check that randomised code runs; two seeded runs are never compared.",
     [T + "tree_based_tensor.py", TL + "tree_based_tensor_learning.py", M + "random_variable.py", M + "random_vector.py", A + "learning/linear_model_learning_square_loss.py"],
     [("random draws", M + "random_variable.py"), ("random choice of enriched nodes", TL + "tree_based_tensor_learning.py")], "values returned after numpy.random.seed")
prop("P08", "Using the library does not alter process-wide state",
     "Importing or calling the library does not change numpy error handling, print options, the warning filters, the module search path, the working directory, the environment (apart from the documented "
     "log-level variable), files, or attributes of classes and modules shared by all users in the process.",
     ["programs", "histories", "configurations"], "every import and every call, in every order",
     "Each tutorial runs in its own process and checks nothing about the process afterwards.",
     ["tensap/__init__.py", F + "multivariate_functions_benchmark.py", F + "compositional_model_function.py"],
     [("module-level statements", "tensap/__init__.py")], "process state before and after")
prop("P09", "Separately constructed objects share no mutable state",
     "Two objects constructed independently never share a mutable default or class-level container: changing an option, list, dictionary or array of one object leaves every other object, and every later construction, unaffected.",
     ["histories", "programs"], "every pair of constructions and every later modification",
     "Tests construct one object of each kind and never modify one while looking at another.",
     [A + "learning/linear_model_learning.py", TL + "tensor_learning.py", A + "tools/model_selection.py", F + "function.py"],
     [("options dictionaries created by constructors", TL + "tensor_learning.py")], "attributes of another instance")
prop("P10", "Held-out data never influences the fitted coefficients",
     "Test data is used only to report the test error, to stop early, and to select among already computed iterates when the user asks for it. No coefficient, core, rank, basis choice or cross-validation error is computed from it.",
     ["inputs", "configurations"], "every training set, test set and option combination",
     "A leak improves the numbers the tutorials print, and no test compares a fit with and without test data.",
     [TL + "tensor_learning.py", TL + "tree_based_tensor_learning.py", TL + "canonical_tensor_learning.py", A + "learning/linear_model_learning_square_loss.py", A + "learning/linear_model_learning_density_l2.py", A + "learning/linear_model_learning_custom_loss.py"],
     [("evaluation of the bases at training and at test points", TL + "tensor_learning.py"), ("model selection", TL + "tensor_learning.py")], "fitted model")
prop("P11", "Progress display never changes the result",
     "Turning progress display on or off changes what is printed and nothing else: returned approximations, errors, counts, random draws and solver settings are identical.",
     ["configurations"], "every solver and every display setting",
     "Tests run with one display setting only.",
     [TL + "tensor_learning.py", TL + "tree_based_tensor_learning.py", PCA + "tensor_principal_component_analysis.py", A + "tools/model_selection.py"],
     [("branches on the display options", TL + "tensor_learning.py")], "returned values with display on and off")
prop("P12", "A tensor is only marked orthogonal when it is",
     "A tensor or core that claims to be orthogonal (with respect to a node or dimension) really has the corresponding orthonormal factors: any operation that replaces or rescales core data drops or re-establishes the claim before the tensor is handed out, "
     "because norms and singular values are computed through shortcuts that trust it.",
     ["inputs", "programs"], "every sequence of operations that orthogonalise, modify, scale or replace cores",
     "Tests do not compute a shortcut norm after modifying an orthogonalised tensor.",
     [T + "full_tensor.py", T + "tree_based_tensor.py", "tensap/tensor_algebra/tools/truncator.py", TL + "tree_based_tensor_learning.py", F + "functional_tensor.py"],
     [("orthogonality flags", T + "tree_based_tensor.py"), ("norm shortcut", T + "tree_based_tensor.py")], "norm and singular values",
     [("orthogonality flag and node", "which cores are claimed orthonormal")])
prop("P13", "Reported ranks, shapes and activity always match the cores",
     "After any operation returns, the ranks, shape, order and active-node information a tree-based tensor reports agree with the cores it holds: an operation that adds, removes or reshapes cores, or changes the tree, refreshes the derived information before handing the tensor out.",
     ["inputs", "programs"], "every operation that replaces cores or edits the tree, on every tree shape",
     "Tests read ranks only right after construction or truncation.",
     [T + "tree_based_tensor.py", "tensap/tensor_algebra/tools/truncator.py", T + "dimension_tree.py", TL + "tree_based_tensor_learning.py", PCA + "functional_tensor_principal_component_analysis.py"],
     [("recomputation of derived attributes", T + "tree_based_tensor.py")], "ranks, shape, storage", [("derived attributes", "ranks, shape, order, activity mask")])
prop("P14", "Per-node data is always read and written for the right node",
     "Node numbers (starting at 1), positions in per-node arrays (starting at 0), dimensions, child numbers and tree levels are never confused: every per-node core, rank, tolerance, activity flag, level or singular value is read and written at the place that belongs to the intended node, and children or parents are requested for actual nodes.",
     ["inputs", "configurations"], "every tree shape, every node, every activity pattern",
     "An off-by-one between node numbers and positions can hide on the small symmetric trees the tutorials use, where several nodes have equal ranks.",
     [T + "dimension_tree.py", T + "tree_based_tensor.py", "tensap/tensor_algebra/tools/truncator.py", TL + "tree_based_tensor_learning.py", PCA + "tensor_principal_component_analysis.py", T + "canonical_tensor.py"],
     [("conversion between node numbers and array positions", T + "tree_based_tensor.py")], "any per-node quantity")
prop("P15", "Truncation and rank decisions do not depend on units",
     "Multiplying a tensor, matrix or data set by any positive constant multiplies its norm, its singular values and its truncation by that constant and changes neither the selected ranks, the chosen interpolation or magic points, nor any relative error: every tolerance acts relative to the size of the data.",
     ["inputs"], "every tensor or data set and every scaling factor",
     "Tests use data of order one, for which absolute and relative criteria agree.",
     ["tensap/tensor_algebra/tools/truncator.py", T + "full_tensor.py", T + "tree_based_tensor.py", "tensap/linear_algebra/magic_indices.py", A + "learning/linear_model_learning_square_loss.py", A + "learning/loss_functions.py"],
     [("threshold on singular values", "tensap/tensor_algebra/tools/truncator.py"), ("relative error estimates", A + "learning/linear_model_learning_square_loss.py")], "selected ranks")
prop("P16", "One linear ordering of multi-indices is used everywhere",
     "Whenever several indices are merged into one or one index is split into several (vectorisation, matricisation, reshaping, index conversion, product grids, tensor product bases), the first index varies fastest, in every module, so data produced by one part of the library is read back in the same order by every other part.",
     ["inputs", "programs"], "every shape with at least two dimensions larger than one",
     "Ordering errors are invisible on square symmetric or one-dimensional examples and in tutorials without assertions.",
     [T + "full_tensor.py", T + "tree_based_tensor.py", "tensap/tools/multi_indices.py", "tensap/tools/grids.py", F + "tensorizer.py", TL + "tree_based_tensor_learning.py"],
     [("column-major reshapes", T + "full_tensor.py")], "entries of reshaped data")
prop("P17", "Unsupported options are rejected, supported ones are all handled",
     "For every option that selects an algorithm or a type, each documented value is handled, and a value the implementation does not support raises an error before a result is returned, instead of silently returning nothing, a partial result or the result of another option.",
     ["configurations"], "every option value, supported or not",
     "Tests exercise only a few supported values and no unsupported one.",
     ["tensap/tensor_algebra/tools/truncator.py", A + "learning/learning.py", A + "learning/linear_model_learning_square_loss.py", F + "function.py", A + "tools/model_selection.py", TL + "tree_based_tensor_learning.py", TL + "canonical_tensor_learning.py"],
     [("dispatch on option strings", A + "learning/linear_model_learning_square_loss.py")], "exception or result")
prop("P18", "Every accepted parameter and option is honoured",
     "No parameter of a public operation and no documented solver option is silently ignored: each one influences the result, the side effects or the acceptance of the request; in particular both the tolerance and the maximal rank constrain every truncation, and sample weights, regularisation and iteration budgets act on the solver they are given to.",
     ["inputs", "configurations"], "every operation, every parameter, every option",
     "Tests never compare results for different values of one option.",
     ["tensap/tensor_algebra/tools/truncator.py", A + "learning/linear_model_learning_square_loss.py", TL + "tensor_learning.py", PCA + "tensor_principal_component_analysis.py", T + "tree_based_tensor.py"],
     [("weights in least squares", A + "learning/linear_model_learning_square_loss.py"), ("tolerance and rank in truncation", "tensap/tensor_algebra/tools/truncator.py")], "returned result")
prop("P19", "Every path through the library is executable",
     "No path through an operation ends in an undefined name, a missing attribute, method or module function, a variable read before it is assigned, or a call whose arguments the callee cannot accept.",
     ["inputs", "configurations"], "every branch of every operation, including those no test executes",
     "Large parts (density learning, adaptive options, rarely used branches) are executed by no test; Python only reports such errors when the line runs.",
     ["tensap/"], [("name, attribute and signature resolution", "tensap/__init__.py")], "exception raised")
prop("P20", "Implementations of one interface are interchangeable",
     "Everything offered as a tensor format, functional basis, measure, random variable, polynomial family, loss function or solver provides the operations its abstract type promises, accepts the same calls with the same defaults and returns results of the same kind and arity, so generic code works with each of them.",
     ["programs", "configurations"], "every pair of sibling implementations and every generic caller",
     "Tests combine only a few siblings with a few generic callers.",
     [M + "measure.py", M + "random_variable.py", F + "polynomials/orthonormal_polynomials.py", A + "bases/functional_basis.py", T + "full_tensor.py", TL + "tensor_learning.py"],
     [("abstract base classes", M + "measure.py")], "generic calls")
prop("P21", "Equality compares everything that defines an object",
     "Two measures, random variables, polynomial families, grids, index sets, trees, bases or mappings compare equal only if all the data that determines their behaviour agrees, and comparison never fails or answers for objects of another type as if they were equal.",
     ["inputs"], "every pair of objects differing in any one defining quantity",
     "No test compares objects that differ in a single field.",
     [M + "random_variable.py", M + "uniform_random_variable.py", M + "normal_random_variable.py", T + "dimension_tree.py", "tensap/tools/multi_indices.py", F + "polynomials/orthonormal_polynomials.py", F + "tensorizer.py"],
     [("equality operators", M + "measure.py")], "result of ==")
prop("P22", "Iterative algorithms always stop",
     "Every adaptive or iterative algorithm performs a number of steps bounded by its iteration budget or by the size of its input, whatever the data, including data for which the stopping criterion is never met.",
     ["inputs", "configurations"], "every input, including non-converging and degenerate data",
     "Tests use data on which the algorithms converge quickly.",
     [TL + "tensor_learning.py", T + "tree_based_tensor.py", T + "dimension_tree.py", "tensap/tools/multi_indices.py", A + "tools/model_selection.py", F + "polynomials/orthonormal_polynomials.py"],
     [("loops", TL + "tensor_learning.py")], "termination")
prop("P23", "Recorded iterates are snapshots, and the selected model is the reported one",
     "Each iterate recorded by a learning algorithm is the approximation as it was at that iteration: later iterations never change it. When a model is selected among iterates, the model returned is the recorded iterate with the reported number, with the errors reported for it.",
     ["histories", "configurations"], "every number of iterations, every learning algorithm and selection criterion",
     "Tests never look at recorded iterates or compare them with each other.",
     [TL + "tensor_learning.py", TL + "canonical_tensor_learning.py", TL + "tree_based_tensor_learning.py", A + "tools/model_selection.py"],
     [("list of iterates", TL + "tensor_learning.py"), ("selection by smallest error", TL + "tensor_learning.py")], "recorded iterates, returned model")
prop("P24", "The library works without its optional dependencies",
     "Importing the library and using anything but the features that need them requires neither the deep learning, plotting nor statistics extras: these packages are only touched inside the operations that need them.",
     ["configurations"], "every set of installed optional packages",
     "Tests run in one environment.", ["tensap/__init__.py", A + "learning/linear_model_learning_custom_loss.py", A + "learning/loss_functions.py"],
     [("local imports", A + "learning/linear_model_learning_custom_loss.py")], "import and use without the extras")
prop("P25", "Results are objects of their own",
     "An operation that computes a tensor, an index set, a grid, a tree, a measure, a function or a basis gives a new object and never one of its operands, even when there is nothing to do; the array of entries of the result (data, multi-indices, adjacency matrix, numbers of the leaves) is never the array of an operand, and the constructors that copy what they are given (full tensors, trees, tree-based tensors, discrete laws, random vectors, functional basis arrays and others) never keep the object of their caller. Modifying a result in place therefore never changes an operand, nor the other way round. Accessors and operations documented as returning what is stored (evaluations of a dense tensor, the quadrature rule of a discrete measure, a functional basis array as a sub-basis) or as working in place are excepted.",
     ["inputs", "histories"], "every operation and every path through it, including the shortcuts for trivial arguments, followed by any in-place modification of result or operand",
     "Tests compare values of results; none modifies a result and looks at the operand again, and shared storage shows only then.",
     [T + "full_tensor.py", T + "sparse_tensor.py", T + "diagonal_tensor.py", T + "canonical_tensor.py", T + "tree_based_tensor.py", T + "dimension_tree.py", "tensap/tools/multi_indices.py", M + "discrete_random_variable.py", A + "bases/functional_bases.py", F + "functional_tensor.py"],
     [("copies at the start of the operations", T + "tree_based_tensor.py"), ("copies in the constructors", T + "dimension_tree.py")], "identity of results and of their arrays")
# ---- numerical guarantees (declined: see DESIGN.md) -------------------------
prop("N01", "Truncation meets the requested precision",
     "The truncation of a tensor with a relative tolerance and no rank bound differs from the tensor by at most that tolerance (times the documented constant for trees), for every tensor format and every tree.",
     ["inputs"], "every tensor, tree and tolerance", "Tutorials print errors of a few random tensors and assert nothing.",
     ["tensap/tensor_algebra/tools/truncator.py"], [("rank selection from singular values", "tensap/tensor_algebra/tools/truncator.py")], "relative error")
prop("N02", "Structured tensors agree with their dense counterparts",
     "Every algebraic operation on a structured tensor (canonical, diagonal, sparse, tree-based) gives the same values as the same operation on the corresponding dense array, and conversions between formats preserve all entries.",
     ["inputs", "programs"], "every tensor and every composition of operations", "No test compares formats with assertions.",
     [T + "tree_based_tensor.py", T + "canonical_tensor.py", T + "sparse_tensor.py", T + "diagonal_tensor.py"], [("format-specific algorithms", T + "tree_based_tensor.py")], "entries")
prop("N03", "Orthonormal polynomial families are orthonormal and quadratures exact",
     "Every polynomial family is orthonormal for its measure and every n-point Gauss rule integrates polynomials up to degree 2n-1 exactly with positive weights that sum to the mass of the measure.",
     ["inputs"], "every family, degree and parameter", "Tutorials print a Gram matrix for one family.",
     [F + "polynomials/orthonormal_polynomials.py", A + "integration/integration_rules.py"], [("three-term recurrence", F + "polynomials/orthonormal_polynomials.py")], "Gram matrix, integrals")
prop("N04", "Interpolation and projection reproduce their approximation space",
     "Interpolating or projecting a function that belongs to the approximation space returns that function, and an interpolant agrees with the data at all interpolation points.",
     ["inputs"], "every basis, point set and function of the space", "Tutorials only print approximation errors.",
     [A + "bases/functional_basis.py", A + "bases/functional_basis_array.py", "tensap/linear_algebra/magic_indices.py"], [("collocation systems", A + "bases/functional_basis.py")], "values at points")
prop("N05", "Derivatives, means and inner products agree with the function",
     "Evaluated derivatives, expectations, variances and inner products of a functional approximation are those of the function it represents.",
     ["inputs"], "every approximation and point", "Not compared by any assertion.",
     [F + "functional_tensor.py", A + "bases/functional_basis_array.py"], [("derivative evaluation", A + "bases/functional_bases.py")], "values")
prop("N06", "Distribution functions, quantiles and transfers are consistent",
     "For every law the quantile function inverts the distribution function, densities integrate to one, and transferring a sample to another law and back returns the sample.",
     ["inputs"], "every law, parameter and point", "Tutorials only plot.",
     [M + "random_variable.py", M + "random_vector.py"], [("transfer maps", M + "random_variable.py")], "values")
prop("N07", "Tensorization of a function is a bijection on coordinates",
     "Mapping points to tensorized coordinates and back returns the points, so the tensorized function takes the values of the original function at corresponding points.",
     ["inputs"], "every base, resolution, dimension and ordering", "One tutorial uses one ordering.",
     [F + "tensorizer.py", F + "tensorized_function.py"], [("digit expansion", F + "tensorizer.py")], "values")
prop("N08", "Least-squares fits are optimal and their error estimates correct",
     "The fitted coefficients minimise the (weighted, regularised) empirical risk, and the leave-one-out and k-fold estimates equal the errors obtained by refitting without the held-out points.",
     ["inputs"], "every design matrix and data vector", "Not compared with refits.",
     [A + "learning/linear_model_learning_square_loss.py"], [("closed-form cross-validation", A + "learning/linear_model_learning_square_loss.py")], "coefficients, errors")
prop("N09", "Tree-based learning and tree adaptation never worsen what they optimise",
     "Alternating minimisation never increases the training risk, and a tree accepted by tree adaptation represents the same tensor up to the tolerance with no larger storage.",
     ["inputs", "histories"], "every data set and every sequence of steps", "Not asserted.",
     [TL + "tree_based_tensor_learning.py", T + "tree_based_tensor.py"], [("alternating minimisation", TL + "tensor_learning.py")], "risk, storage")
prop("N10", "Index sets and trees produced are well formed",
     "Generated multi-index sets are duplicate-free and contain exactly the indices of the requested norm ball or product, margins and downward-closedness are decided correctly, and every dimension tree has each dimension in exactly one leaf and each internal node equal to the disjoint union of its children.",
     ["inputs"], "every order, bound, arity and permutation", "Unit tests check a few small sets.",
     ["tensap/tools/multi_indices.py", T + "dimension_tree.py"], [("set generation", "tensap/tools/multi_indices.py")], "index arrays, node sets")

def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        p["statement"] = p["statement"].strip()
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")

if __name__ == "__main__":
    main()
