"""P25: the result of an operation is an object of its own."""
import os

from ..program import AnalysisBroken
from .effects import TENSORS, ops

# the public operations, by qualified name: helpers that are added (and may well be accessors) are judged in their callers
with open(os.path.join(os.path.dirname(__file__), "operations.txt")) as _f:
    OPERATIONS = set(_f.read().split())

CLASSES = ("DimensionTree", "Truncator") + TENSORS
MODULES = ("tensap.tools", "tensap.functions", "tensap.approximation.bases", "tensap.linear_algebra")
MUTABLE = {"nd", "list", "objarr", "dict"}

# accessors, which give access to what is stored; operations documented as modifying their receiver; operations
# that give their operand back when there is nothing to do
SAME = {
    "DimensionTree.child_number", "DimensionTree.parent", "DimensionTree.change_root", "DimensionTree.update_dims_from_leaves",
    "FullTensor.__getitem__", "FullTensor.eval_diag", "FullTensor.full", "FullTensor.numpy", "SparseTensor.eval_diag",
    "TreeBasedTensor.dot_with_rank_one_metric", "TreeBasedTensor.optimize_dimension_tree", "TreeBasedTensor.optimize_leaves_permutations",
    "TreeBasedTensor.permute_leaves", "TreeBasedTensor.representation_rank", "TreeBasedTensor.update_attributes",
    "DiagonalTensor.update_attributes", "MultiIndices.get_indices", "FunctionalTensor.get_random_vector",
    "DiscreteRandomVariable.get_parameters", "EmpiricalRandomVariable.get_parameters", "FunctionalBases.get_random_vector",
    "FunctionalBasisArray.get_coefficients", "FunctionalBasisArray.get_random_vector", "SparseTensorProductFunctionalBasis.get_random_vector",
    "PolynomialFunctionalBasis.random_variable", "FunctionalBases.eval", "FunctionalBases.eval_derivative", "FunctionalBasis.interpolation_points",
    "FunctionalBasis.magic_points", "PiecewisePolynomialFunctionalBasis.magic_points",
}
# what the function the user gave returned is not looked into
USER = {"Function", "CompositionalModelFunction", "TensorizedFunction", "UserDefinedFunction", "TensorizedFunctionFunctionalBases"}

# (operation, field of the result) that shares the array of an operand
SHARED = {
    ("DiscreteMeasure.integration_rule", "points"), ("DiscreteMeasure.integration_rule", "weights"),
    ("DiscreteRandomVariable.integration_rule", "points"), ("DiscreteRandomVariable.integration_rule", "weights"),
    ("FunctionalBasisArray.sub_functional_basis", "basis"),
}
# (class, array of it) the constructor copies
COPIED = {
    ("DimensionTree", "dim2ind"), ("DimensionTree", "adjacency_matrix"), ("FullTensor", "data"), ("TreeBasedTensor", "tensors"),
    ("TreeBasedTensor", "tree"), ("DiscreteMeasure", "values"), ("DiscreteRandomVariable", "values"), ("DiscreteRandomVariable", "probabilities"),
    ("RandomVector", "random_variables"), ("FunctionalBasisArray", "basis"), ("SubFunctionalBasis", "underlying_basis"),
    ("DeltaFunctionalBasis", "values"), ("DeltaFunctionalBasis", "measure"), ("PolynomialFunctionalBasis", "indices"),
    ("UserDefinedFunctionalBasis", "measure"), ("FullTensorGrid", "grids"), ("FunctionalBases", "measure"),
}
# of which the elements are copied too
DEEP = {("RandomVector", "random_variables")}
# descriptions of an object, replaced and never modified
VALUES = {"shape", "output_shape", "orth_node", "order", "nb_nodes", "orth_dim"}


def values(v):
    out = list(v.objs)
    for x in v.elts or ():
        if hasattr(x, "objs"):
            out += values(x)
    return out


def mutable(o):
    return o.kinds & MUTABLE or any(k.startswith("C:") for k in o.kinds)


def p25(ctx, rep):
    eng, _ = ctx.effects(False)
    fs = ops(ctx.prog, classes=CLASSES, modules=MODULES)
    for f in fs:
        if f.qual not in OPERATIONS:
            rep.count("functions not in the inventory")
            continue
        s = eng.summaries.get(f.id)
        if s is None:
            raise AnalysisBroken("no summary for %s" % f.qual)
        if f.name == "__init__":
            for (b, fl), v in sorted(s.out.items(), key=lambda kv: (str(kv[0][0].l), kv[0][1])):
                if not b.is_param or (f.cls.name, fl) not in COPIED or b.l.root != ("p", 0) or b.l.path:
                    continue
                rep.count("arrays stored by constructors")
                vs = values(v)
                if (f.cls.name, fl) in DEEP:
                    vs += [y for x in vs if (x, "[*]") in s.out for y in values(s.out[(x, "[*]")])]
                for x in vs:
                    if x.is_param and x.l.root != ("p", 0) and mutable(x):
                        rep.violation("array of the caller kept", "%s|%s" % (f.qual, fl), "the object built by %s keeps the array of its caller as its %s" % (
                            f.qual, fl), f.loc, f.qual)
            continue
        if s.ret is None or f.name.startswith("__") and f.name in ("__deepcopy__", "__iter__"):
            continue
        rep.count("operations analysed")
        ret = values(s.ret)
        for o in ret:
            rep.count("results")
            if o.is_param:
                if f.qual in SAME or f.cls is not None and f.cls.name in USER:
                    rep.count("reviewed results")
                    continue
                if mutable(o):
                    rep.violation("operand returned", "%s|%s" % (f.qual, name(f, o)), "the result of %s may be %s itself, and not a new object" % (
                        f.qual, name(f, o)), f.loc, f.qual)
                continue
            for (b, fl), v in s.out.items():
                if b != o or fl == "[*]" or fl in VALUES:
                    continue
                rep.count("fields of results")
                for x in values(v):
                    if x.is_param and "nd" in x.kinds and (f.qual, fl) not in SHARED and not (f.cls is not None and f.cls.name in USER):
                        rep.violation("array shared", "%s|%s|%s" % (f.qual, fl, name(f, x)), "%s of the result of %s may be the array %s" % (
                            fl, f.qual, name(f, x)), f.loc, f.qual)
        if len(rep.samples) < 12 and ret and not any(o.is_param for o in ret):
            rep.sample("%s (%s): new object on every path" % (f.qual, f.loc))
    for k, v in sorted(eng.stats.items()):
        rep.counts["engine " + k] = v
    rep.floor("arrays stored by constructors", 14)
    rep.floor("operations analysed", 600)
    rep.floor("results", 500)
    rep.floor("fields of results", 300)
    rep.floor("engine resolved_calls", 5000)


def name(f, o):
    ps = list(f.params) + list(f.kwonly) + [x for x in (f.vararg, f.kwarg) if x]
    r = o.l.root
    return ".".join([ps[r[1]] if r[0] == "p" and r[1] < len(ps) else str(r)] + [str(x) for x in o.l.path])


RULES = {"P25": (p25, """Interprocedural alias analysis (abstract heap, function summaries to a fixpoint; views share the location of what they
are views of): for every public operation of tensors, dimension trees, multi-index sets, grids, measures, functions, bases and of the
truncator, the objects every path may return are computed.  A returned object that is an operand, or a mutable part of one, is a violation,
and so is a field of a new result that holds the array of an operand, and an array of the caller kept by the constructors that copy it
today.  Accessors, documented in-place operations and the operations that have nothing to do are reviewed lists.""",
                 ["descriptions such as shapes and numbers of nodes may be shared: they are replaced and never modified",
                  "arrays held by containers inside the result (spaces of a canonical tensor, core tensors of a tree-based one) may be shared",
                  "what a function of the user returns is not looked into"])}
TECHNIQUE = {"P25": "interprocedural alias analysis of the returned objects"}
NOTE = {"P25": "may-alias of results with operands over an abstract heap, with numpy modelled by hand; sharing below the first level is out of scope"}
