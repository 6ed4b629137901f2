"""P01-P06: which caller-owned locations an operation may modify."""
from ..program import AnalysisBroken

TENSORS = ("FullTensor", "CanonicalTensor", "DiagonalTensor", "SparseTensor", "TreeBasedTensor")
STORE = ("_x_stored", "_y_stored", "store")     # documented evaluation cache of Function
# operations documented as modifying their receiver: operation -> fields of self they may write
MUTATORS = {
    "TreeBasedTensor.update_attributes": {"ranks", "is_active_node", "shape"},
    "DiagonalTensor.update_attributes": {"shape"},
    "DimensionTree.update_dims_from_leaves": {"dims"},
}


def ops(prog, classes=(), modules=(), functions=()):
    """public operations of the given classes / modules / plain functions (inherited ones excluded:
    they are reported for the class that defines them)"""
    out = []
    for c in classes:
        k = prog.cls(c)
        out += [f for n, f in sorted(k.methods.items()) if public(f)]
    for m in modules:
        hit = [x for n, x in sorted(prog.modules.items()) if n == m or n.startswith(m + ".")]
        if not hit:
            raise AnalysisBroken("module %s not found" % m)
        for x in hit:
            for c in x.classes.values():
                out += [f for n, f in sorted(c.methods.items()) if public(f)]
            out += [f for n, f in sorted(x.functions.items()) if public(f)]
    for m, n in functions:
        mod = prog.modules.get(m)
        if mod is None or n not in mod.functions:
            raise AnalysisBroken("function %s.%s not found" % (m, n))
        out.append(mod.functions[n])
    seen, res = set(), []
    for f in out:
        if f.id not in seen:
            seen.add(f.id)
            res.append(f)
    return res


def public(f):
    return (not f.name.startswith("_")) or (f.name.startswith("__") and f.name.endswith("__"))


def pnames(f):
    return list(f.params) + list(f.kwonly) + [x for x in (f.vararg, f.kwarg) if x]


def effect_items(eng, f):
    s = eng.summaries.get(f.id)
    if s is None:
        raise AnalysisBroken("no summary for %s" % f.qual)
    pn = pnames(f)
    for (i, path, fl), ef in sorted(s.effects.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][2])):
        yield pn[i], path, fl, ef


def receiver_ok(f, par, path, fl):
    if f.name == "__deepcopy__" and len(f.params) > 1 and par == f.params[1]:
        return True     # the memo of the copy module
    if f.params and par == f.params[0] and f.cls is not None and f.kind == "method" and not path:
        if f.name in ("__init__", "__new__", "__setattr__", "__setstate__") or f.is_setter:
            return True
        if fl in MUTATORS.get(f.qual, ()):
            return True
    return False


def purity(rep, eng, fs, allow=None, floor=0, rule="effect"):
    for f in fs:
        rep.count("operations analysed")
        bad = 0
        n = 0
        for par, path, fl, ef in effect_items(eng, f):
            n += 1
            if receiver_ok(f, par, path, fl) or fl in STORE or (path and path[-1] in STORE):
                continue
            if allow is not None and allow(f, par, path, fl):
                continue
            bad += 1
            where = ".".join((par,) + path) + ("" if fl == "[*]" else "." + fl)
            what = "elements of %s" % where if fl == "[*]" else where
            origin = getattr(ef.origin, "qual", None) or str(ef.origin)
            rep.violation(rule, "%s|%s.%s|%s" % (f.qual, ".".join((par,) + path), fl, origin),
                          "%s may modify %s of its caller (%s)" % (f.qual, what, ef.desc), ef.loc, f.qual, ef.chain)
        rep.count("parameter-rooted write effects examined", n)
        rep.count("(operation, parameter) obligations", max(1, len(pnames(f))))
        if len(rep.samples) < 12 and f.params and not bad:
            rep.sample("%s (%s): no write to %s" % (f.qual, f.loc, ", ".join(pnames(f))))
    for k, v in sorted(eng.stats.items()):
        rep.counts["engine " + k] = v
    rep.floor("operations analysed", floor)
    rep.floor("engine resolved_calls", 5000)


def p01(ctx, rep):
    eng, _ = ctx.effects(False)
    fs = ops(ctx.prog, classes=TENSORS, modules=("tensap.linear_algebra",))
    purity(rep, eng, fs, floor=170)


def p02(ctx, rep):
    eng, _ = ctx.effects(False)
    fs = ops(ctx.prog, modules=("tensap.approximation.bases", "tensap.approximation.integration",
                                "tensap.approximation.tools", "tensap.functions"))
    fs = [f for f in fs if ".measures" not in f.module.name]
    purity(rep, eng, fs, floor=250)


def p03(ctx, rep):
    eng, _ = ctx.effects(False)
    fs = ops(ctx.prog, modules=("tensap.functions.measures",))
    purity(rep, eng, fs, floor=120)


def p04(ctx, rep):
    eng, _ = ctx.effects(False)
    fs = ops(ctx.prog, classes=("DimensionTree",), modules=("tensap.tools",))
    purity(rep, eng, fs, floor=70)


def p05(ctx, rep):
    eng, _ = ctx.effects(False)
    fs = ops(ctx.prog, classes=("Truncator", "TensorPrincipalComponentAnalysis",
                                "FunctionalTensorPrincipalComponentAnalysis"))
    purity(rep, eng, fs, floor=15)


# what the user hands to a learning solver
USER_DATA = ("training_data", "test_data", "weights", "basis_eval", "basis_eval_test", "bases_eval", "bases_eval_test",
             "initial_guess", "tree", "is_active_node", "rank", "bases", "basis")
REBIND = ("training_data", "test_data", "weights")


LEARNING = ("tensap.approximation.learning", "tensap.approximation.tensor_approximation.tensor_learning")


def entry(f):
    """what the user calls: solvers, constructors, factories, and every operation of a loss function; the other methods
    of the solvers are steps of solve, whose effects on the user's data are effects of solve"""
    if f.cls is None:
        return False
    names = {k.name for k in f.cls.mro}
    if "LossFunction" in names:
        return True
    return f.name in ("solve", "__init__", "__deepcopy__", "__repr__", "initialize") or f.kind != "method"


def p06(ctx, rep):
    eng, _ = ctx.effects(True)
    fs = [f for f in ops(ctx.prog, modules=LEARNING) if entry(f)]
    if not [f for f in fs if f.qual == "TensorLearning.solve"]:
        raise AnalysisBroken("TensorLearning.solve not found")

    def allow(f, par, path, fl):
        if f.params and par == f.params[0] and f.cls is not None and f.kind == "method":
            if not path:
                return fl not in REBIND
            return path[0] not in USER_DATA
        return False
    purity(rep, eng, fs, allow, floor=25)


_ASSUME = ["numpy and scipy functions modify their arguments only as modelled in sa/npmodel.py and sa/interp.py "
           "(out=, in-place methods, random.shuffle, item assignment through views)",
           "user-supplied callables do not modify their arguments",
           "attribute kinds are those documented by the classes (sa/types.py)"]
_T = "Interprocedural alias and effect analysis (abstract heap, function summaries to a fixpoint): for every %s, " \
     "every write reachable from it that lands in a location reachable from a parameter (through views, aliases, " \
     "containers, shallow copies or callees) is an effect; an effect on anything but fields of an object under " \
     "construction, a documented in-place operation or the documented evaluation cache is a violation."
RULES = {
    "P01": (p01, _T % "public operation of the tensor classes", _ASSUME),
    "P02": (p02, _T % "public operation of functions, bases, polynomials, integration rules and tensorizers", _ASSUME),
    "P03": (p03, _T % "public operation of measures and random variables", _ASSUME),
    "P04": (p04, _T % "public operation of multi-index sets, grids and dimension trees", _ASSUME),
    "P05": (p05, _T % "public operation of the truncator and the principal component solvers", _ASSUME),
    "P06": (p06, _T % "public operation of the learning solvers" +
            " Here the protected locations are the user's data and objects (training and test data, weights, basis "
            "evaluations, initial guess, tree, activity mask, rank array, bases); the learning package itself is "
            "analysed in one pass after everything it uses has reached its fixpoint.",
            _ASSUME),
}
TECHNIQUE = {p: "interprocedural alias and write-effect analysis of the source" for p in RULES}
NOTE = {p: "every write reachable from every public operation in scope is attributed to the parameter locations it may "
           "alias; may-analysis over an abstract heap, with numpy modelled by hand (assumptions in the evidence)"
        for p in RULES}
