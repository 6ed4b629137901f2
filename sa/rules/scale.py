"""P15: tolerances act relative to the size of the data.

The degree of homogeneity of every value is inferred (sa/degrees.py) in the operations that measure,
decompose, truncate or fit, when the data is multiplied by a constant: what is compared, added or rounded
must scale alike, and norms, singular values, relative errors and chosen indices must have their degree.
"""
from ..degrees import ANY, Degrees, NUM, TOP, UNK, V, ZERO, deg, known, show, times

U = deg(u=1)
Y = deg(y=1)


def obj(d, **fields):
    return V(d, fields=fields or None)


def canonical(d):
    return V(d, fields={"space": NUM, "core": V(d)})


def truncated(b, recv, pos, kw, n):
    if recv is not None and recv.fields and recv.fields.get("()kind") is TRUNC and pos:
        t = kw.get("tolerance", pos[1] if len(pos) > 1 else None)
        if t is not None:
            b.same(t, NUM, n, "tolerances", "a relative tolerance is given a value that scales")
    if recv is not None and recv.fields and recv.fields.get("()kind") is TRUNC and pos and known(pos[0]):
        return canonical(pos[0].d)
    return None


TRUNC = V(ZERO)
TRUNCATOR = V(TOP, fields={"()kind": TRUNC, "tolerance": NUM, "max_rank": NUM, "thresholding_parameter": V(U)})


def learnt(b, recv, pos, kw, n):
    """the approximation of a learning algorithm scales like the outputs"""
    if recv is not None and recv.cls is not None and recv.cls.name.endswith("TensorLearning"):
        return V(TOP, [fit(), UNK])
    return None


def make_truncator(b, recv, pos, kw, n):
    t = kw.get("tolerance", pos[0] if pos else None)
    if t is not None:
        b.same(t, NUM, n, "tolerances", "a relative tolerance is given a value that scales")
    return V(TOP, fields={"()kind": TRUNC, "tolerance": pos[0] if pos else kw.get("tolerance", NUM), "max_rank": NUM})


def full(b, recv, pos, kw, n):
    return V(pos[0].d) if pos and pos[0].d is not TOP else None


def make_canonical(b, recv, pos, kw, n):
    if len(pos) == 2:
        return V(pos[1].d if known(pos[1]) else TOP, fields={"space": pos[0] if pos[0].items is None else V(pos[0].d), "core": V(pos[1].d)})
    return None


def result_of(d):
    return lambda b, recv, pos, kw, n: V(d)


def orthogonal(b, recv, pos, kw, n):
    """orth: a tensor of the same size (tree based, canonical), or the pair (Q, R)"""
    if recv is not None and known(recv) and recv.d:
        if recv.fields and "core" in recv.fields:
            return V(recv.d, fields={"space": NUM, "core": V(recv.d)})
        return V(recv.d)
    return None


def components(b, recv, pos, kw, n):
    if recv is not None and known(recv) and recv.d and (recv.fields is None or "core" not in recv.fields):
        return V(TOP, [NUM, V(recv.d)])
    return None


CALLS = {"FullTensor": full, "CanonicalTensor": make_canonical, "Truncator": make_truncator, "svd": truncated, "hsvd": truncated, "hosvd": truncated, "truncate": truncated,
         "trunc_svd": truncated, "orth": orthogonal, "principal_components": components, "solve": learnt}
ATTRS = {"tol": NUM, "max_rank": NUM, "tolerance": V(ZERO, fields={"[]": NUM})}


def lml():
    return V(TOP, fields={"training_data": V(TOP, [UNK, V(Y)]), "basis_eval": NUM, "test_data": V(TOP, [UNK, V(Y)]), "basis_eval_test": NUM, "weights": NUM,
                          "error_estimation_options": V(TOP, fields={"[]": NUM})})


def fit():
    return V(TOP, fields={"tensor": V(Y)})


def entries(P):
    """(function, class, arguments, self, expected degrees of the result)"""
    out = []

    def add(c, m, args, me, want=None):
        cls = P.cls(c)
        f = P.method(c, m)
        out.append((f, cls, args, me, want))
    x = V(U)
    trunc = lambda: V(TOP, fields={"tolerance": NUM, "max_rank": NUM, "thresholding_parameter": V(U), "()kind": TRUNC})
    add("Truncator", "trunc_svd", {"matrix": x, "tolerance": NUM, "power": V(ZERO, sym="p")}, trunc(), U)
    add("Truncator", "svd", {"tensor": x}, trunc())
    add("Truncator", "svd", {"tensor": canonical(U)}, trunc(), U)
    add("Truncator", "hosvd", {"tensor": x}, trunc())
    add("Truncator", "hsvd", {"tensor": x}, trunc())
    add("Truncator", "ttsvd", {"tensor": x}, trunc())
    add("Truncator", "truncate", {"tensor": x}, trunc())
    full = lambda: V(U, fields={"data": V(U)})
    add("FullTensor", "norm", {}, full(), U)
    add("FullTensor", "singular_values", {}, full(), U)
    add("FullTensor", "principal_components", {"parameter": NUM}, full(), (ZERO, U))
    add("FullTensor", "alpha_principal_components", {"alpha": NUM, "parameter": NUM}, full(), (ZERO, U))
    add("FullTensor", "orth", {"dim": NUM}, full())
    add("DiagonalTensor", "norm", {}, full(), U)
    add("SparseTensor", "norm", {}, full(), U)
    add("CanonicalTensor", "norm", {}, canonical(U), U)
    tree = lambda: V(U)
    for m in ("norm", "singular_values", "representation_rank", "orth_at_node", "optimize_dimension_tree", "permute_nodes", "optimize_leaves_permutations", "permute_leaves"):
        f = P.method("TreeBasedTensor", m)
        add("TreeBasedTensor", m, {p: NUM for p in f.params[1:]}, tree(), {"singular_values": U}.get(m))
    for f in P.all_funcs():
        if f.name == "magic_indices" and f.cls is None:
            out.append((f, None, {"F": x, "n": NUM}, None, (ZERO, ZERO)))
    pca = lambda: V(TOP, fields={"tol": NUM, "max_rank": NUM, "pca_sampling_factor": NUM, "subsampling_factor": NUM})
    samples = V(TOP, fields={"()": x})
    for c in ("TensorPrincipalComponentAnalysis", "FunctionalTensorPrincipalComponentAnalysis"):
        for k in ("alpha_principal_components", "hopca", "tucker_approximation", "tt_approximation", "tree_based_approximation"):
            f = P.cls(c).lookup(k)
            if f is None:
                continue
            args = {p: NUM for p in f.params[1:]}
            args["fun"] = samples
            for p in ("tree", "bases", "is_active_node", "shape"):
                if p in args:
                    args[p] = UNK
            add(c, k, args, pca())
    add("LinearModelLearningSquareLoss", "solve", {}, lml())
    for m in ("_solve_ols", "_solve_regularized_ls", "_solve_basis_adaptation"):
        if P.cls("LinearModelLearningSquareLoss").lookup(m) is not None:
            add("LinearModelLearningSquareLoss", m, {}, lml(), (None if m == "_solve_regularized_ls" else Y, {"[error]": ZERO}))
    add("LinearModelLearningSquareLoss", "_select_optimal_path", {"solpath": V(Y)}, lml(), (Y, {"[error]": ZERO}))
    sample = V(TOP, [UNK, V(Y)])
    pred = V(Y, fields={".eval": V(Y), "()": V(Y)})
    add("SquareLossFunction", "eval", {"fun": pred, "sample": sample}, V(TOP))
    add("SquareLossFunction", "relative_test_error", {"fun": pred, "sample": sample}, V(TOP), ZERO)
    for c in ("CanonicalTensorLearning", "TreeBasedTensorLearning"):
        add(c, "stagnation_criterion", {"f": fit(), "f0": fit()}, V(TOP), ZERO)
        if c == "TreeBasedTensorLearning":
            add(c, "new_rank_selection", {"f": fit()}, V(TOP))
            if P.cls(c).lookup("unique_tol") is not None:
                add(c, "unique_tol", {"inp": x, "tol": NUM}, V(TOP), U)
    f = P.method("Function", "test_error")
    add("Function", "test_error", {"g": V(U, fields={".eval": x}), "n": NUM}, V(TOP, fields={".eval": x}), (ZERO, ZERO))
    return out


KINDS = ("comparisons", "sums", "tolerances", "roundings", "logarithms")


def p15(ctx, rep):
    P = ctx.flat()
    D = Degrees(P, ATTRS, CALLS)
    es = entries(P)
    decided = 0
    for f, cls, args, me, want in es:
        r = D.run(f, cls, args, me)
        if want is None:
            continue
        for where, w, v in results(want, r):
            rep.count("results whose degree is declared")
            if v is None or v.d is TOP or v.d == ANY:
                D.undecided.append(f.qual + where)
                continue
            decided += 1
            if v.d != w:
                D.report(f, f.node, "result %s" % where, "%s%s scales as %s, it should scale as %s" % (f.qual, where, show(v.d), show(w)))
    rep.count("declared results decided", decided)
    rep.count("operations analysed", len(es))
    rep.count("calls analysed with the degrees of their arguments", len(D.memo))
    for (kind, *_), f in D.checked.items():
        rep.count(kind)
    rep.floor("operations analysed", 30)
    rep.floor("comparisons", 50)
    rep.floor("sums", 30)
    rep.floor("declared results decided", 12)
    for key, (f, n, msg) in sorted(D.found.items()):
        rep.violation("degree", key, msg, "%s:%d" % (f.module.rel, n.lineno), f.qual)
    return D


def results(want, r):
    if isinstance(want, tuple) and any(isinstance(w, dict) or w == () or w and isinstance(w[0], tuple) and isinstance(w[0][0], tuple) for w in want):
        for k, w in enumerate(want):
            v = r.items[k] if r.items is not None and k < len(r.items) else None
            if isinstance(w, dict):
                for name, x in w.items():
                    yield "[%d]%s" % (k, name), x, (v.fields or {}).get(name) if v is not None else None
            elif w is not None:
                yield "[%d]" % k, w, v
    else:
        yield "", want, r


RULES = {"P15": (p15, "when the data is multiplied by a constant every two values that are compared, added or joined scale alike, nothing that scales is rounded or compared with an absolute "
                      "threshold, and norms, singular values, relative errors, ranks and chosen indices have the degree 1, 1, 0, 0, 0",
                 ["the scenario analysed for a structured tensor is the multiplication of its core by the constant",
                  "values of unknown degree are not checked: the counts of the evidence say how many obligations were decided",
                  "singular value, QR and eigenvalue decompositions return factors without unit"])}
TECHNIQUE = {"P15": "dimensional analysis: context-sensitive inference of degrees of homogeneity with symbolic exponents"}
NOTE = {"P15": "operations inside the cores of tree based tensors have unknown degree; density and custom losses are not homogeneous and are left out"}
