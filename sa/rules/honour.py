"""P18: every accepted parameter and option is honoured."""
import ast
import copy

from ..program import AnalysisBroken
from ..slicing import Slice


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        return ast.copy_location(ast.Name(id=self.names[n.id], ctx=n.ctx), n) if n.id in self.names else n


def unaliased(node, params):
    """the function with a second name of a value (left by the inlining of a helper) replaced by the first"""
    for _ in range(4):
        stored, second = {}, {}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stored[x.id] = stored.get(x.id, 0) + 1
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Name):
                second[x.targets[0].id] = x.value.id
        names = {}
        for y, x in second.items():
            if y in params or y == x or x in names or y in names.values():
                continue
            if stored[y] == 1 and stored.get(x, 0) <= (0 if x in params else 1) or y.startswith(x + "__"):
                names[y] = x
        if not names:
            break
        node = Rename(names).visit(copy.deepcopy(node))
    return node


class Deep:
    """summaries of functions: the parameters, attributes and options their results and effects depend on"""

    def __init__(self, prog, open=False):
        self.prog = prog
        self.memo, self.busy, self.wmemo = {}, set(), {}
        self.open, self.idle, self.nodes = open, {}, {}

    def slice(self, f, cls):
        allp = list(f.params) + ([f.vararg] if f.vararg else []) + ([f.kwarg] if f.kwarg else []) + list(f.kwonly)
        me = f.params[:1] if f.kind == "method" else [p for p in f.params if p == "self"]
        return Slice(self.body(f, allp), allp, attrs_of=me, oracle=lambda n, recv, writes=False: self.oracle(f, cls, n, recv, writes))

    def body(self, f, params):
        r = self.nodes.get(f.id)
        if r is None:
            r = self.nodes[f.id] = unaliased(f.node, params)
        return r

    def trivial(self, g):
        """abstract, or a refusal whatever the arguments"""
        if g.id not in self.idle:
            s = Slice(g.node, list(g.params) + list(g.kwonly))
            self.idle[g.id] = not s.completes() or s.idle()
        return self.idle[g.id]

    def callee(self, f, cls, n, recv):
        fn = n.func
        if recv is not None:
            return cls.lookup(fn.attr) if cls is not None else None
        if isinstance(fn, ast.Name):
            g = f.module.functions.get(fn.id)
            if g is None and fn.id in f.module.imports:
                g = self.prog.resolve_dotted(f.module.imports[fn.id])
            if isinstance(g, tuple):
                g = g[1]
            return g if hasattr(g, "params") else None
        if isinstance(fn, ast.Attribute):
            try:
                g = self.prog.resolve_dotted(ast.unparse(fn)) if isinstance(fn.value, (ast.Name, ast.Attribute)) and ast.unparse(fn).startswith("tensap.") else None
            except Exception:
                g = None
            if isinstance(g, tuple):
                g = g[1]
            return g if hasattr(g, "params") else None
        return None

    def oracle(self, f, cls, n, recv, writes):
        g = self.callee(f, cls, n, recv)
        if g is None or not hasattr(g, "params") or g.is_property or self.trivial(g):
            return None
        if recv is not None and self.open and any(k.methods.get(g.name) not in (None, g) for k in cls.family()):
            return None
        if writes:
            return self.writes(cls, g)
        s = self.summary(cls if recv is not None else g.cls, g)
        return None if s is None else (g, s)

    def writes(self, cls, g):
        k = (cls.name if cls else None, g.id)
        if k in self.wmemo:
            return self.wmemo[k]
        self.wmemo[k] = set()
        out = set()
        if g.kind == "method" and g.params:
            me = g.params[0]
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                    if isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    x = n.value
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                        out.add(x.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                    h = cls.lookup(n.func.attr) if cls else None
                    if h is not None:
                        out |= self.writes(cls, h)
        self.wmemo[k] = out
        return out

    def summary(self, cls, g):
        """names of inputs, or None when unknown (recursion, dynamic code)"""
        k = (cls.name if cls else None, g.id)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return None
        self.busy.add(k)
        try:
            s = self.slice(g, cls)
            r = None if s.opaque else s.influences(refusals=self.open)
        finally:
            self.busy.discard(k)
        self.memo[k] = r
        return r


def tidy(name):
    return name.split("[")[0]


def has(inputs, option):
    """option 'self.a' or 'self.a[k]' is among the inputs (a read of the whole of self.a counts)"""
    if option in inputs:
        return True
    if "[" in option:
        return tidy(option) in inputs
    return any(x.startswith(option + "[") for x in inputs)


# parameters that only take part in the validation of the request, the result being the same for every accepted value
VALIDATED = {
    ("DiagonalTensor.tensor_diagonal_matrix_product", "dims"), ("DiagonalTensor.tensor_vector_product", "dims"),
    ("SparseTensor.eval_at_indices", "dims"), ("MultiIndices.with_bounded_weighted_norm", "d"),
    ("FunctionalBasisArray.dot_product_expectation", "dims"), ("FunctionalBasisArray.dot_product_expectation", "measure"),
    ("TensorLearning.adapt_tree", "cv_error"), ("TensorLearning.adapt_tree", "test_error"),
}

# alternatives of a result that do not need the parameter (reviewed)
NOT_NEEDED = {
    ("PiecewisePolynomialFunctionalBasis.magic_points", "J"),
    ("LinearModelLearningSquareLoss._compute_cv_error", "second_moment"), ("LinearModelLearningSquareLoss._compute_cv_error", "sol"),
    ("ModelSelection.slope_heuristic", "lambda_path"), ("ModelSelection.slope_heuristic", "m_path"),
    ("FunctionalTensor.eval_on_grid", "x"), ("FunctionalTensor.eval_with_bases_evals", "bases_eval"),
    ("CanonicalTensor.parameter_gradient_eval_diag", "matrices"),
    ("SparseTensor.tensor_vector_product", "vectors"), ("SparseTensor.tensor_vector_product", "dims"),
    ("TreeBasedTensor.optimize_dimension_tree", "tolerance"), ("TreeBasedTensor.optimize_dimension_tree", "max_iter"),
    ("TreeBasedTensor.optimize_leaves_permutations", "tolerance"), ("TreeBasedTensor.optimize_leaves_permutations", "max_iter"),
    ("MultiIndices.is_downward_closed", "m"),
}

SELECTORS = {"nargout", "return_f"}

_TR = ("self.tolerance", "self.max_rank", "self.thresholding_type", "self.thresholding_parameter")
_PCA = ("self.tol", "self.max_rank", "self.pca_sampling_factor", "self.pca_adaptive_sampling")
_FPCA = _PCA + ("self.bases", "self.grid", "self.projection_type")
_TL = tuple("self." + x for x in (
    "bases", "bases_eval", "training_data", "loss_function", "initialization_type", "initial_guess", "rank", "order", "algorithm",
    "linear_model_learning", "tolerance[on_error]", "tolerance[on_stagnation]", "alternating_minimization_parameters[max_iterations]",
    "alternating_minimization_parameters[stagnation]", "alternating_minimization_parameters[random]", "rank_adaptation",
    "rank_adaptation_options[max_iterations]", "rank_adaptation_options[early_stopping]",
    "rank_adaptation_options[early_stopping_factor]", "tree_adaptation", "model_selection", "error_estimation", "test_error", "store_iterates"))

# (class, operations, options every alternative of the result must depend on)
HONOURED = [
    ("Truncator", ("svd", "truncate", "hosvd", "hsvd", "ttsvd", "trunc_svd"), _TR),
    ("TensorPrincipalComponentAnalysis", ("hopca", "tucker_approximation", "tt_approximation", "tree_based_approximation"), _PCA),
    ("TensorPrincipalComponentAnalysis", ("tucker_approximation", "tt_approximation", "tree_based_approximation"), ("self.subsampling",)),
    ("TensorPrincipalComponentAnalysis", ("alpha_principal_components",), _PCA[2:] + ("tol", "max_rank")),
    ("FunctionalTensorPrincipalComponentAnalysis", ("hopca", "tucker_approximation", "tt_approximation", "tree_based_approximation"), _FPCA),
    ("LinearModelLearningSquareLoss", ("solve",), tuple("self." + x for x in (
        "weights", "training_data", "basis_eval", "basis", "linear_solver", "shared_coefficients", "regularization", "regularization_type",
        "regularization_options", "options[non_zero_blocks]", "basis_adaptation", "basis_adaptation_path", "error_estimation",
        "error_estimation_type", "error_estimation_options[number_of_folds]", "error_estimation_options[correction]",
        "error_estimation_options[gram_matrix]", "model_selection", "model_selection_options[stop_if_error_increase]"))),
    ("LinearModelLearningDensityL2", ("solve",), tuple("self." + x for x in (
        "training_data", "basis_eval", "basis", "regularization", "regularization_options", "basis_adaptation", "basis_adaptation_path",
        "error_estimation", "error_estimation_type", "model_selection_options[stop_if_error_increase]"))),
    ("LinearModelLearningCustomLoss", ("solve",), tuple("self." + x for x in (
        "training_data", "basis_eval", "basis", "initial_guess", "loss_function"))),
    ("TreeBasedTensorLearning", ("solve",), _TL + tuple("self." + x for x in (
        "tree", "is_active_node", "tree_adaptation_options[max_iterations]", "tree_adaptation_options[tolerance]",
        "tree_adaptation_options[force_rank_adaptation]"))),
    ("CanonicalTensorLearning", ("solve",), _TL),
    ("ModelSelection", ("slope_heuristic",), ("self.data[complexity]",)),
]

# the same, for some alternative or effect only
REACHED = [
    ("LinearModelLearningCustomLoss", ("solve",), ("self.optimizer", "self.options[max_iterations]", "self.options[stagnation]")),
    ("ModelSelection", ("slope_heuristic",), ("self.data[empirical_risk]", "self.gap_factor", "self.pen_shape")),
]

# (class, operations, step, {argument or attribute the step reads: option its value comes from}) at every call of the step
STEPS = [
    ("TensorPrincipalComponentAnalysis", ("hopca", "tree_based_approximation"), "alpha_principal_components",
     {"tol": "self.tol", "max_rank": "self.max_rank"}),
    ("LinearModelLearningSquareLoss", ("solve",), None, {"training_data[1]": "self.weights", "basis_eval": "self.weights"}),
]

# what a working copy of these classes carries besides options
STATE = {"tree", "is_active_node", "bases_eval", "bases_eval_test", "basis_eval", "basis_eval_test", "training_data", "test_data"}
SOLVERS = ("Truncator", "TensorPrincipalComponentAnalysis", "FunctionalTensorPrincipalComponentAnalysis", "LinearModelLearning",
           "LinearModelLearningSquareLoss", "LinearModelLearningDensityL2", "LinearModelLearningCustomLoss", "TensorLearning",
           "TreeBasedTensorLearning", "CanonicalTensorLearning", "ModelSelection", "Learning")

NO_OPTION = {"display"}

# limits a working copy may spread over the nodes but never drop
LIMITS = {"tol", "max_rank", "tolerance", "thresholding_type", "thresholding_parameter", "pca_sampling_factor", "pca_adaptive_sampling",
          "subsampling", "projection_type"}

# loops that repeat a fit: what bounds them, what may stop them
FIT = {"solve", "minimize"}
STOPS = {
    "alternating_minimization_parameters[max_iterations]": ("alternating_minimization_parameters[stagnation]", "tolerance[on_error]"),
    "rank_adaptation_options[max_iterations]": ("tolerance[on_error]", "tolerance[on_stagnation]", "rank_adaptation_options[early_stopping]",
                                                "rank_adaptation_options[early_stopping_factor]"),
    "options[max_iterations]": ("options[stagnation]",),
    "rank": ("tolerance[on_error]", "tolerance[on_stagnation]"),
}
FITTERS = ("LinearModelLearningCustomLoss", "TensorLearning", "TreeBasedTensorLearning", "CanonicalTensorLearning")

# (class, function that chooses, option the choice depends on)
_RANDOM = "self.alternating_minimization_parameters[random]"
CHOICES = [("TensorPrincipalComponentAnalysis", "magic_indices", "self.subsampling"),
           ("TensorLearning", "randomize_exploration_strategy", _RANDOM), ("TreeBasedTensorLearning", "randomize_exploration_strategy", _RANDOM)]


def loc(f, n=None):
    return "%s:%d" % (f.module.rel, getattr(n, "lineno", None) or f.node.lineno)


def parameters(D, rep):
    for f in D.prog.all_funcs():
        if D.trivial(f):
            continue
        s = D.slice(f, f.cls)
        if s.opaque:
            rep.count("functions with dynamic code, not decided")
            continue
        hidden = f.name.startswith("_") and not f.name.startswith("__")
        inf = s.influences(refusals=hidden)
        ps = [p for p in list(f.params) + list(f.kwonly) if p not in ("self", "cls")]
        rep.count("functions")
        for p in ps:
            rep.count("parameters")
            if p not in inf and (f.qual, p) not in VALIDATED:
                rep.violation("ignored parameter", "%s|%s" % (f.qual, p),
                              "the parameter %s of %s reaches neither its result nor its effects" % (p, f.qual), loc(f), f.qual)
        rs = s.results()
        esc = {d.what[1] for d in s.closure(s.escapes + s.sinks) if isinstance(d.what, tuple)}
        for p in ps:
            if p in SELECTORS or p not in inf or p in esc or (f.qual, p) in NOT_NEEDED:
                continue
            for n, i in rs:
                if s.copied_input(n):
                    continue
                rep.count("parameters of alternatives")
                if p not in i:
                    rep.violation("parameter ignored on one path", "%s|%s|path" % (f.qual, p),
                                  "one of the results of %s is obtained without the parameter %s" % (f.qual, p), loc(f, n), f.qual)


def inits(c):
    return [k.methods["__init__"] for k in c.mro if getattr(k, "methods", None) and "__init__" in k.methods]


def settings(c):
    """attributes the constructors of the class set"""
    out = set()
    for i in inits(c):
        me = i.params[0] if i.params else "self"
        for x in ast.walk(i.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                out.add(x.attr)
    return out


def unread(D, rep):
    """options set by a constructor that no other function reads"""
    prog = D.prog
    silent = {"__repr__", "__eq__", "__str__"}
    own, other, keys = {}, set(), set()
    for f in prog.all_funcs():
        if f.name in silent:
            continue
        me = f.params[0] if f.kind == "method" and f.params else None
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                if isinstance(x.value, ast.Name) and x.value.id == me:
                    own.setdefault(x.attr, set()).add(f.cls)
                else:
                    other.add(x.attr)
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.slice, ast.Constant):
                keys.add(x.slice.value)
            if isinstance(x, ast.Compare) and isinstance(x.left, ast.Constant):
                keys.add(x.left.value)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "pop", "setdefault") and x.args and isinstance(
                    x.args[0], ast.Constant):
                keys.add(x.args[0].value)
    spread = set()
    for f in prog.all_funcs():
        if f.name in silent:
            continue
        part = set()
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Subscript, ast.Attribute)):
                part.add(id(x.value))
            elif isinstance(x, ast.Compare):
                part |= {id(y) for y in x.comparators}
        # a dictionary read as a whole may have any of its keys read
        spread |= {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and id(x) not in part}
    for m in prog.modules.values():
        for c in m.classes.values():
            i = c.methods.get("__init__")
            if i is None:
                continue
            fam = set(c.family())
            me = i.params[0] if i.params else "self"
            for x in ast.walk(i.node):
                if not isinstance(x, (ast.Assign, ast.AnnAssign)):
                    continue
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me):
                        continue
                    rep.count("attributes set by constructors")
                    if t.attr in NO_OPTION:
                        continue
                    if not (own.get(t.attr, set()) & fam) and t.attr not in other:
                        rep.violation("unread option", "%s.%s|unread" % (c.name, t.attr),
                                      "the attribute %s set by %s is never read" % (t.attr, i.qual), loc(i, x), i.qual)
                    if isinstance(x.value, ast.Dict) and t.attr not in spread:
                        for k in x.value.keys:
                            if isinstance(k, ast.Constant):
                                rep.count("option keys set by constructors")
                                if k.value not in keys:
                                    rep.violation("unread option", "%s.%s[%s]|unread" % (c.name, t.attr, k.value),
                                                  "the option %s[%r] set by %s is never read" % (t.attr, k.value, i.qual), loc(i, x), i.qual)


def me_of(f, option):
    return option.replace("self.", f.params[0] + ".", 1) if option.startswith("self.") else option


def table(D, rep):
    for rows, every in ((HONOURED, True), (REACHED, False)):
        for cname, ops, options in rows:
            c = D.prog.cls(cname)
            if c is None:
                raise AnalysisBroken("class %s not found" % cname)
            for op in ops:
                f = c.lookup(op)
                if f is None:
                    raise AnalysisBroken("operation %s.%s not found" % (cname, op))
                s = D.slice(f, c)
                rs = s.results() if every else [(f.node, s.influences(refusals=False))]
                if not rs:
                    raise AnalysisBroken("%s.%s: no result" % (cname, op))
                for n, i in rs:
                    for o in options:
                        rep.count("options of operations")
                        if not has(i, me_of(f, o)):
                            rep.violation("ignored option", "%s.%s|%s" % (cname, op, o),
                                          "%s of %s.%s does not depend on %s" % ("a result" if every else "the outcome", cname, op, o), loc(f, n), f.qual)
                rep.sample("%s.%s: %d alternatives, %d options" % (cname, op, len(rs), len(options)))


def steps(D, rep):
    for cname, ops, callee, wanted in STEPS:
        c = D.prog.cls(cname)
        if c is None:
            raise AnalysisBroken("class %s not found" % cname)
        for op in ops:
            f = c.lookup(op)
            if f is None:
                raise AnalysisBroken("operation %s.%s not found" % (cname, op))
            s = D.slice(f, c)
            for n, (g, args, attrs) in s.calls.items():
                if callee is not None and g.name != callee:
                    continue
                for a, o in wanted.items():
                    if callee is not None and a in g.params:
                        v = args.get(a, frozenset())
                    else:
                        v = None
                        for y, d in attrs.items():
                            if y == a or tidy(y) == a or y == tidy(a):
                                v = (v or set()) | set(d)
                        if v is None or g.name in ("initialize",):
                            continue
                    rep.count("options handed to a step")
                    if not has(s.values(v), me_of(f, o)):
                        rep.violation("option lost on the way", "%s.%s|%s|%s" % (cname, op, g.name, a),
                                      "%s given to %s by %s.%s is computed without %s" % (a, g.name, cname, op, o), loc(f, n), f.qual)
    for cname in SOLVERS:
        c = D.prog.cls(cname)
        if c is None:
            raise AnalysisBroken("class %s not found" % cname)
        opts = settings(c) - STATE - NO_OPTION
        for f in c.methods.values():
            if f.kind != "method" or not f.params or f.name == "__init__":
                continue
            s = D.slice(f, c)
            for n, (g, args, attrs) in s.calls.items():
                for a, d in attrs.items():
                    if tidy(a) not in opts:
                        continue
                    rep.count("options read by a step")
                    me = f.params[0]
                    if not any(x == me or tidy(x) == me + "." + tidy(a) for x in s.values(d)):
                        rep.violation("option replaced on the way", "%s|%s|%s" % (f.qual, g.name, a),
                                      "%s, that %s reads, no longer comes from the option the user set when %s calls it" % (a, g.name, f.qual),
                                      loc(f, n), f.qual)


    for cname in SOLVERS:
        c = D.prog.cls(cname)
        for f in c.methods.values():
            if f.kind != "method" or not f.params or f.name == "__init__":
                continue
            s = D.slice(f, c)
            me = f.params[0]
            good = lambda d, a: any(x == me or tidy(x) == me + "." + a for x in s.values([d]))
            for n, (root, a, d, whole) in s.sets.items():
                if a not in LIMITS:
                    continue
                rep.count("limits set on a working copy")
                if not good(d, a) and not (whole and any(b == a and r == root and not w and good(e, a) for r, b, e, w in s.sets.values())):
                    rep.violation("limit dropped", "%s|%s|set" % (f.qual, a), "%s sets %s of the working copy without regard to the option" % (
                        f.qual, a), loc(f, n), f.qual)


def loops(D, rep):
    """the loops that repeat a fit are bounded by the budget of the user and stopped by his tolerances"""
    for cname in FITTERS:
        c = D.prog.cls(cname)
        for f in c.methods.values():
            if f.kind != "method" or not f.params:
                continue
            me = f.params[0]
            s = D.slice(f, c)
            inner = {id(x) for l in s.cycles for x in ast.walk(l) if x is not l}
            for l, (u, e) in s.cycles.items():
                if id(l) in inner or not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in FIT
                                             for b in l.body for x in ast.walk(b)):
                    continue
                rep.count("loops that repeat a fit")
                v = s.values(u)
                ks = [k for k in STOPS if has(v, me + "." + k)]
                if not ks:
                    rep.violation("iteration budget", "%s|budget" % f.qual, "the number of fits of %s is not one of the iteration budgets of the user" % f.qual,
                                  loc(f, l), f.qual)
                    continue
                ex = s.decides(e)
                for o in STOPS[ks[0]]:
                    rep.count("stopping options")
                    if not has(ex, me + "." + o):
                        rep.violation("stopping option", "%s|%s" % (f.qual, o), "the fits of %s stop without regard to %s" % (f.qual, o), loc(f, l), f.qual)


# (class, operation, option on which one of its loops stops)
LEAVES = [("TensorPrincipalComponentAnalysis", "alpha_principal_components", "self.pca_sampling_factor")]


def leaves(D, rep):
    for cname, op, option in LEAVES:
        c = D.prog.cls(cname)
        f = c.lookup(op) if c is not None else None
        if f is None:
            raise AnalysisBroken("%s.%s not found" % (cname, op))
        s = D.slice(f, c)
        if not s.cycles:
            raise AnalysisBroken("%s.%s: no loop" % (cname, op))
        rep.count("loops with an early exit")
        if not any(has(s.decides(e - u if isinstance(l, ast.For) else e), me_of(f, option)) for l, (u, e) in s.cycles.items()):
            rep.violation("stopping option", "%s|%s" % (f.qual, option), "no loop of %s stops with regard to %s" % (f.qual, option), loc(f), f.qual)


def choices(D, rep):
    for cname, callee, option in CHOICES:
        c = D.prog.cls(cname)
        for f in c.methods.values():
            s = D.slice(f, c)
            for n in ast.walk(s.fn):
                if not (isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == callee or isinstance(
                        n.func, ast.Name) and n.func.id == callee)):
                    continue
                rep.count("choices under an option")
                ctrl = s.under.get(n, set())
                if not has({d.what[1] for d in s.closure(ctrl) if isinstance(d.what, tuple)}, me_of(f, option)):
                    rep.violation("option bypassed", "%s|%s" % (f.qual, callee), "%s calls %s whatever the value of %s" % (f.qual, callee, option), loc(f, n), f.qual)


# calls made without a parameter of the calling function (reviewed)
KEPT = {
    ("PiecewisePolynomialFunctionalBasis.magic_points", "magic_points", "J"),
    # every dimension is evaluated
    ("FunctionalTensor.eval_with_bases_evals", "tensor_matrix_product_eval_diag", "dims"),
    ("FullTensor.tree_based_tensor", "hsvd", "is_active_node"),
    # the subtree has these dimensions only
    ("TreeBasedTensor.eval_diag", "eval_diag", "dims"),
    # the points were drawn from it
    ("Function.test_error", "test_error", "measure"),
    ("TreeBasedTensor.eval_diag_above", "eval_diag_below", "alpha"),
    ("MultiIndices.with_bounded_weighted_norm", "product_set", "d"),
}


def only(n):
    """does the statement list end without falling through"""
    return bool(n) and isinstance(n[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue))


def conditions(fn):
    """call -> [(test, truth)] under which it is made"""
    out = {}

    def walk(body, known):
        known = list(known)
        for s in body:
            if isinstance(s, ast.If):
                calls(s.test, known)
                walk(s.body, known + [(s.test, True)])
                walk(s.orelse, known + [(s.test, False)])
                if only(s.body) and not only(s.orelse):
                    known.append((s.test, False))
                elif only(s.orelse) and not only(s.body):
                    known.append((s.test, True))
                continue
            inner = [b for b in ("body", "orelse", "finalbody") if isinstance(getattr(s, b, None), list)]
            for c in ast.iter_child_nodes(s):
                if not any(c in getattr(s, b) for b in inner) and not isinstance(c, ast.ExceptHandler):
                    calls(c, known)
            for b in inner:
                walk(getattr(s, b), known)
            for h in getattr(s, "handlers", []):
                walk(h.body, known)

    def calls(e, known):
        if isinstance(e, ast.IfExp):
            calls(e.test, known)
            calls(e.body, known + [(e.test, True)])
            calls(e.orelse, known + [(e.test, False)])
            return
        if isinstance(e, ast.BoolOp):
            more = list(known)
            for v in e.values:
                calls(v, more)
                more.append((v, isinstance(e.op, ast.And)))
            return
        if isinstance(e, ast.Call):
            out[e] = known
        for c in ast.iter_child_nodes(e):
            calls(c, known)

    walk(fn.body, [])
    return out


def single(fn):
    """name -> expression, of the names given a value once"""
    out = {}
    stored = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            stored[x.id] = stored.get(x.id, 0) + 1
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and stored[x.targets[0].id] == 1:
            out[x.targets[0].id] = x.value
    return out


def absent(test, truth, p, once):
    """the parameter has its default value, or is looked at otherwise, under the test: None when the test says nothing"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return absent(test.operand, not truth, p, once)
    if isinstance(test, ast.Name) and test.id != p and isinstance(once.get(test.id), (ast.Compare, ast.BoolOp, ast.UnaryOp)):
        return absent(once[test.id], truth, p, once)
    if isinstance(test, ast.BoolOp):
        rs = [absent(v, truth, p, once) for v in test.values]
        if isinstance(test.op, ast.And) == truth:
            # all of them hold
            return True if any(rs) else None
        return True if all(rs) else None
    if not any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(test)):
        return None
    if isinstance(test, ast.Name):
        return not truth
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
        return truth == isinstance(test.ops[0], (ast.Is, ast.Eq))
    return True


def completed(f, s, c, p):
    """what the call gives is changed afterwards according to the parameter"""
    for a in ast.walk(s.fn):
        if isinstance(a, ast.Assign) and a.value is c and isinstance(a.targets[0], ast.Name):
            t = a.targets[0].id
            for x in ast.walk(s.fn):
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for y in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(y, (ast.Attribute, ast.Subscript)) and s.root(y) == t and any(
                                isinstance(z, ast.Name) and z.id == p for z in ast.walk(x)):
                            return True
    return False


def forwarded(ctx, rep):
    """an optional parameter of the callee that the caller has under the same name is passed on"""
    prog = ctx.flat()
    names = {}
    for f in prog.all_funcs():
        names.setdefault(f.name, []).append(f)
    for m in prog.modules.values():
        for c in m.classes.values():
            i = c.lookup("__init__")
            if i is not None:
                names.setdefault(c.name, []).append(i)
    for f in prog.all_funcs():
        if f.name.startswith("__") and f.name != "__init__":
            continue
        ps = [p for p in list(f.params) + list(f.kwonly) if p not in ("self", "cls") and p not in SELECTORS]
        if not ps:
            continue
        todo = []
        body = unaliased(f.node, list(f.params) + list(f.kwonly))
        for c in ast.walk(body):
            if not isinstance(c, ast.Call):
                continue
            nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
            gs = names.get(nm)
            if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and f.kind == "method" and c.func.value.id == f.params[0] and f.cls is not None:
                g = f.cls.lookup(nm)
                gs = ([g] if hasattr(g, "params") else []) + [k.methods[nm] for k in f.cls.family() if k.methods.get(nm) not in (None, g)]
            if not gs or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                continue
            if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and f.module.imports.get(c.func.value.id, "tensap").split(".")[0] != "tensap":
                continue
            missing, common, reached = None, None, set()
            for g in gs:
                gp = list(g.params)
                if g.cls is not None and g.kind != "static":
                    gp = gp[1:]
                opt = [p for p in gp if p in g.defaults] + [p for p in g.kwonly if p in g.defaults]
                given = set(gp[:len(c.args)]) | {k.arg for k in c.keywords}
                reached |= given & set(opt) & set(ps)
                missing = {p for p in opt if p in ps and p not in given}
                common = missing if common is None else common & missing
            if reached:
                rep.count("parameters passed on", len(reached))
            if common:
                todo.append((c, nm, common))
        if not todo:
            continue
        s = Slice(body, list(f.params) + list(f.kwonly) + [x for x in (f.vararg, f.kwarg) if x], attrs_of=f.params[:1] if f.kind == "method" else (), given=True)
        under, once = conditions(body), single(body)
        for c, nm, common in todo:
            for p in sorted(common):
                rep.count("parameters not passed on")
                if (f.qual, nm, p) in KEPT:
                    continue
                if any(absent(t, v, p, once) for t, v in under.get(c, ())):
                    continue
                if c not in s.given:
                    # never executed
                    continue
                on, args = s.given[c]
                # an object built from what was computed with the parameter
                if (all(g.name == "__init__" for g in names[nm]) and p in s.values(on | args)) or completed(f, s, c, p):
                    continue
                rep.violation("parameter not passed on", "%s|%s|%s" % (f.qual, nm, p),
                              "%s calls %s without its parameter %s, which %s takes too" % (f.qual, nm, p, nm), loc(f, c), f.qual)


def p18(ctx, rep):
    D = Deep(ctx.flat())
    parameters(Deep(ctx.flat(), True), rep)
    unread(Deep(ctx.prog), rep)
    table(D, rep)
    steps(D, rep)
    loops(D, rep)
    choices(D, rep)
    leaves(D, rep)
    forwarded(ctx, rep)
    rep.floor("parameters passed on", 110)
    rep.floor("parameters", 900)
    rep.floor("parameters of alternatives", 400)
    rep.floor("attributes set by constructors", 120)
    rep.floor("option keys set by constructors", 3)
    rep.floor("options of operations", 150)
    rep.floor("options handed to a step", 8)
    rep.floor("options read by a step", 60)
    rep.floor("limits set on a working copy", 8)
    rep.floor("loops that repeat a fit", 4)
    rep.floor("stopping options", 8)
    rep.floor("choices under an option", 3)


RULES = {"P18": (p18, """Dependence analysis of every function (reaching definitions, data and control dependences, working copies of the
solver followed attribute by attribute and key by key, calls of the package replaced by the summary of what the callee uses).
(1) Every parameter reaches the results or the effects of its function, validation set aside, and every alternative result of the
function depends on every parameter that is not an effect's.  (2) Every option a constructor sets is read by another function than display
and equality.  (3) A table of operations and options: every alternative result of each truncation depends on the tolerance, the maximal
rank and the thresholding; of each principal component analysis on the tolerance, the maximal rank, the sampling factor, the adaptive
sampling and the subsampling (and on bases, grid and projection of the functional ones); least squares, density estimation and tensor
learning on their weights, regularisation, adaptation, error estimation, tolerances and iteration budgets.  (4) The value a step of a
solver receives for an option is computed from the option the user set, at every call of the step: tolerance and maximal rank of the
principal components, weighted data of the least squares sub-solvers, and every option read from a working copy; a limit set on a working
copy derives from the limit of the user.  (5) Every loop that repeats a fit is bounded by one of the iteration budgets and its exits depend on
the tolerances that go with it.  (6) The choice of the sampling points is made under the
subsampling option, the random order of the updates under its own.  (7) A call of a function of the package passes on every optional
parameter of the callee that the caller has under the same name, unless the call is made where that parameter is absent, or builds an
object from what was computed with it.""",
                 ["a dependence of the source is taken for an influence: that the dependence is the documented one is not decided",
                  "reviewed lists: parameters that only validate the request, parameters an early result does not need",
                  "functions with eval or exec are counted, not decided"])}
TECHNIQUE = {"P18": "interprocedural program slicing (data and control dependence summaries) with per-alternative and per-call obligations"}
NOTE = {"P18": "decides that every parameter and option takes part in what it should; the numerical meaning of the influence is out of reach"}
