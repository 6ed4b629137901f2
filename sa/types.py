"""Declared kinds of the library's object fields (from its class documentation).

Kinds: num, str, none, nd (numeric array), objarr (array of objects), list, tuple, dict, func,
and class names.  A part after '/' gives the kinds of the elements.  Fields not listed
are inferred from what the code stores in them.
"""
TENSOR = "FullTensor|TreeBasedTensor|CanonicalTensor|DiagonalTensor|SparseTensor"
_T = {
    "BSplinesFunctionalBasis": "degree:num knots:nd",
    "DilatedBSplines": "base:num degree:num",
    "DilatedBSplinesFunctionalBasis": "basis:DilatedBSplines indices:nd",
    "DeltaFunctionalBasis": "input_dimension:num values:nd",
    "FullTensorProductFunctionalBasis": "bases:FunctionalBases",
    "FunctionalBases": "bases:objarr|list/FunctionalBasis measure:Measure",
    "FunctionalBasis": "is_orthonormal:num measure:Measure",
    "FunctionalBasisArray": "basis:FunctionalBasis data:nd output_shape:nd|list|tuple shape:nd|list|tuple",
    "PiecewisePolynomialFunctionalBasis": "p:nd points:nd",
    "PolynomialFunctionalBasis": "basis:UnivariatePolynomials indices:nd|list",
    "SparseTensorProductFunctionalBasis": "bases:FunctionalBases indices:MultiIndices",
    "SubFunctionalBasis": "basis:nd underlying_basis:FunctionalBasis",
    "UserDefinedFunctionalBasis": "handle_fun:objarr|list/func input_dimension:num",
    "IntegrationRule": "points:nd weights:nd",
    "FullTensorProductIntegrationRule": "points:list|objarr/nd weights:list|objarr/nd",
    "Learning": "display:num error_estimation:num error_estimation_options:dict/num|str|nd error_estimation_type:str "
                "loss_function:LossFunction model_selection:num model_selection_options:dict/num|str|nd|func test_data:list|tuple|nd/nd "
                "test_error:num training_data:list|tuple|nd/nd",
    "LinearModelLearning": "basis:FunctionalBasis basis_adaptation:num basis_adaptation_path:nd basis_eval:nd "
                           "basis_eval_test:nd options:dict/num|str|nd regularization:num regularization_options:dict/num|str|nd regularization_type:str",
    "LinearModelLearningCustomLoss": "initial_guess:nd optimizer:? var:?",
    "LinearModelLearningDensityL2": "is_basis_orthonormal:num",
    "LinearModelLearningSquareLoss": "linear_solver:str shared_coefficients:num weights:nd|list",
    "SquareLossFunction": "error_type:str", "DensityL2LossFunction": "error_type:str",
    "CustomLossFunction": "error_function:func error_type:str loss_function:func relative_error_function:func",
    "FunctionalTensorPrincipalComponentAnalysis": "bases:FunctionalBases display:num grid:FullTensorGrid max_rank:nd|num|list "
        "pca_adaptive_sampling:num pca_sampling_factor:num projection_type:str tol:nd|num|list",
    "TensorPrincipalComponentAnalysis": "display:num max_rank:nd|num|list pca_adaptive_sampling:num pca_sampling_factor:num "
        "subsampling:str subsampling_tol:num tol:nd|num|list",
    "TensorLearning": "algorithm:str alternating_minimization_parameters:dict/num|str bases:FunctionalBases "
        "bases_adaptation_path:list|objarr/nd bases_eval:list|objarr/nd bases_eval_test:list|objarr/nd "
        "initial_guess:CanonicalTensor|TreeBasedTensor initialization_type:str "
        "linear_model_learning:LinearModelLearning|list|objarr/LinearModelLearning linear_model_learning_parameters:dict/num|str|nd "
        "order:num output_dimension:num rank:nd|num|list rank_adaptation:num rank_adaptation_options:dict/num|str|nd store_iterates:num "
        "tolerance:dict/num tree_adaptation:num tree_adaptation_options:dict/num|str|nd _exploration_strategy:nd _number_of_parameters:num "
        "_warnings:dict/num",
    "CanonicalTensorLearning": "truncate_initialization:num",
    "TreeBasedTensorLearning": "is_active_node:nd|list tree:DimensionTree",
    "ModelSelection": "data:dict gap_factor:num pen_shape:func",
    "CompositionalModelFunction": "fun:objarr|list/func|Function tree:DimensionTree",
    "Function": "_x_stored:nd _y_stored:nd dim:num evaluation_at_multiple_points:num measure:Measure output_shape:nd|num|list store:num",
    "FunctionalTensor": "bases:FunctionalBases|list|objarr evaluated_bases:num fdims:nd|list tensor:" + TENSOR,
    "TensorizedFunction": "fun:Function|func tens:Tensorizer",
    "Tensorizer": "X:RandomVector Y:RandomVector b:num d:num dim:num ordering_type:num",
    "UserDefinedFunction": "fun:func",
    "DiscreteMeasure": "values:nd weights:nd",
    "DiscreteRandomVariable": "probabilities:nd values:nd",
    "EmpiricalRandomVariable": "bandwidth:num sample:nd",
    "LebesgueMeasure": "a:num b:num",
    "NormalRandomVariable": "mu:num sigma:num",
    "ProductMeasure": "measures:list|objarr/Measure",
    "RandomVariable": "moments:nd",
    "RandomVector": "copula:Copula random_variables:objarr|list/RandomVariable",
    "UniformRandomVariable": "inf:num sup:num",
    "OrthonormalPolynomials": "measure:Measure _orthogonal_polynomials_norms:nd _recurrence_coefficients:nd",
    "ShiftedOrthonormalPolynomials": "measure:Measure polynomials:OrthonormalPolynomials scaling:num shift:num",
    "CanonicalPolynomials": "measure:Measure",
    "CanonicalTensor": "core:DiagonalTensor is_orth:num order:num shape:nd|tuple space:list|objarr/nd",
    "DiagonalTensor": "data:nd is_orth:num order:num shape:nd|tuple",
    "DimensionTree": "_child_number:nd _children:nd _parent:nd adjacency_matrix:nd arity:num dim2ind:nd dims:list|objarr/nd "
        "internal_nodes:nd is_leaf:nd level:nd nb_nodes:num nodes_indices:nd nodes_parent_of_leaves:nd plot_options:dict "
        "root:num|nd sibling:nd",
    "FullTensor": "data:nd is_orth:num orth_dim:num",
    "SparseTensor": "data:nd indices:MultiIndices order:num shape:nd|tuple",
    "TreeBasedTensor": "is_active_node:nd is_orth:num order:num orth_node:num ranks:nd shape:nd|tuple tensors:objarr|list/FullTensor "
        "tree:DimensionTree",
    "Truncator": "_hsvd_type:num|str max_rank:num|nd thresholding_parameter:num thresholding_type:str tolerance:num",
    "TensorGrid": "dim:num grids:list|objarr/nd shape:nd|tuple",
    "FullTensorGrid": "", "SparseTensorGrid": "indices:MultiIndices",
    "MultiIndices": "array:nd",
}
PRIM = ("num", "str", "none", "nd", "objarr", "list", "tuple", "dict", "func", "set", "?")


def _kinds(txt):
    return frozenset(x if x in PRIM else "C:" + x for x in txt.split("|") if x)


FIELDS = {}
for _c, _s in _T.items():
    for _f in _s.split():
        _n, _k = _f.split(":")
        _k, _, _e = _k.partition("/")
        FIELDS[(_c, _n)] = (_kinds(_k), _kinds(_e))

# conventional names of undocumented parameters
PARAMS = {"tree": _kinds("DimensionTree"), "measure": _kinds("Measure"), "dim_tree": _kinds("DimensionTree")}

# parameters of the evaluation interface of functions and bases: points, orders, evaluations of bases
_PTS = (_kinds("nd|list|num"), _kinds("nd"))
_ORD = (_kinds("nd|list|num"), frozenset())
_EVS = (_kinds("list|objarr|nd"), _kinds("nd"))
EVAL_METHODS = {"eval", "eval_derivative", "eval_jacobian", "eval_gradient", "__call__", "store_eval", "derivative",
                "eval_with_bases_evals", "eval_with_functional_bases_evals"}
EVAL_PARAMS = {"x": _PTS, "z": _PTS, "n": _ORD, "k": _ORD, "Hx": _EVS, "H": _EVS, "bases_eval": _EVS}


def eval_param(module, cls, method, name):
    if method in EVAL_METHODS and cls is not None and (
            module.startswith("tensap.approximation.bases") or module.startswith("tensap.functions")) \
            and "measures" not in module:
        return EVAL_PARAMS.get(name)
    return None
