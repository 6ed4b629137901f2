"""Degrees of homogeneity: how every value of a function scales when its data is multiplied by a constant.

A degree is a linear combination of units (the data u, the outputs y, the evaluated bases a, ...), with
symbolic exponents when a power is a variable.  Values of unknown degree are never checked.
"""
import ast
from fractions import Fraction

TOP, ANY = None, "any"
ZERO = ()


def deg(**u):
    return tuple(sorted(((k, ""), Fraction(v)) for k, v in u.items() if v))


class Alt(frozenset):
    """several degrees, depending on the path"""


def over(d, op):
    out = Alt(op(x) for x in d)
    return TOP if TOP in out else next(iter(out)) if len(out) == 1 else out


def plus(a, b, sign=1):
    if isinstance(a, Alt) or isinstance(b, Alt):
        if isinstance(a, Alt) and isinstance(b, Alt):
            return TOP
        return over(a, lambda x: plus(x, b, sign)) if isinstance(a, Alt) else over(b, lambda x: plus(a, x, sign))
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + sign * v
    return tuple(sorted((k, v) for k, v in d.items() if v))


def times(a, c):
    if isinstance(a, Alt):
        return over(a, lambda x: times(x, c))
    return tuple(sorted((k, v * c) for k, v in a if v * c))


def symbolic(a, s, inverse=False):
    """a multiplied by the symbol s (or divided)"""
    if isinstance(a, Alt):
        return over(a, lambda x: symbolic(x, s, inverse))
    out = {}
    here, there = (s, "1/" + s) if inverse else ("1/" + s, s)
    for (u, t), v in a:
        if t not in ("", here):
            return TOP
        out[(u, "" if t else there)] = v
    return tuple(sorted(out.items()))


def show(d):
    if d is TOP:
        return "unknown"
    if d == ANY or not d:
        return "no unit"
    if isinstance(d, Alt):
        return " or ".join(sorted(show(x) for x in d)) + " depending on the path"
    return " ".join("%s%s%s" % (u, "^" + str(v) if v != 1 else "", "^" + t if t else "") for (u, t), v in d)


class V:
    """a value: its degree, the items of a tuple, the fields of an object (or entries of a dict), a literal"""
    __slots__ = ("d", "items", "fields", "lit", "sym", "c", "cls")

    def __init__(self, d=TOP, items=None, fields=None, lit=False, sym=None, c=None, cls=None):
        """c: the constant, as a tuple of one element; cls: the class of the object"""
        self.d, self.items, self.fields, self.lit, self.sym, self.c, self.cls = d, items, fields, lit, sym, c, cls

    def key(self):
        return (self.d, tuple(x.key() for x in self.items) if self.items is not None else None,
                tuple(sorted((k, x.key()) for k, x in self.fields.items())) if self.fields else None, self.lit, repr(self.c), self.cls.name if self.cls else None)

    def having(self, **kw):
        v = V(self.d, self.items, self.fields, self.lit, self.sym, self.c, self.cls)
        for k, x in kw.items():
            setattr(v, k, x)
        return v


UNK = V(TOP)
NUM = V(ZERO)


def known(v):
    return v.d is not TOP and v.d != ANY and not isinstance(v.d, Alt)


def joind(a, b):
    if a == b:
        return a
    if a == ANY:
        return b
    if b == ANY:
        return a
    if a is TOP or b is TOP:
        return TOP
    return Alt((a if isinstance(a, Alt) else {a}) | (b if isinstance(b, Alt) else {b}))


def join(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    items = None
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = [join(x, y) for x, y in zip(a.items, b.items)]
    fields = None
    if a.fields or b.fields:
        fields = {}
        for k in set(a.fields or {}) | set(b.fields or {}):
            x, y = (a.fields or {}).get(k), (b.fields or {}).get(k)
            fields[k] = join(x, y) if x is not None and y is not None else (x or y)
    return V(joind(a.d, b.d), items, fields, a.lit and b.lit, a.sym if a.sym == b.sym else None, a.c if a.c == b.c else None, a.cls if a.cls is b.cls else None)


SAME = {"abs", "absolute", "fabs", "sum", "nansum", "mean", "nanmean", "average", "max", "min", "amax", "amin", "nanmax", "nanmin", "sort", "flip", "fliplr", "flipud", "cumsum",
        "transpose", "reshape", "ravel", "squeeze", "atleast_1d", "atleast_2d", "atleast_3d", "array", "asarray", "asfortranarray", "ascontiguousarray", "diag", "diagonal", "tile", "repeat",
        "real", "expand_dims", "median", "std", "triu", "tril", "trace", "copy", "deepcopy", "swapaxes", "moveaxis", "take", "diff", "toarray", "todense", "tocsr", "tocsc", "numpy",
        "astype", "flatten", "conj", "item", "tolist", "list", "sorted", "reversed", "float", "norm", "diags", "csr_matrix", "csc_matrix", "roll", "percentile", "quantile", "unique",
        "delete", "matricize", "itranspose", "full", "sub_tensor", "eval_at_indices", "eval_diag", "singular_values", "norm_1", "view", "compress", "rot90", "broadcast_to", "FullTensor",
        "cast", "convert_to_tensor", "orth_at_node", "sparse", "canonical_tensor", "tree_based_tensor", "update_attributes", "change_root", "permute_nodes", "permute_leaves", "setdiff1d"}
OBJSAME = {"full", "orth", "orth_at_node", "norm", "singular_values", "sub_tensor", "eval_at_indices", "eval_diag", "sparse", "canonical_tensor", "tree_based_tensor", "matricize",
           "update_attributes", "permute_nodes", "permute_leaves"}
JOIN = {"maximum", "minimum", "fmax", "fmin", "append", "concatenate", "hstack", "vstack", "stack", "column_stack", "clip", "hypot", "block", "union1d", "intersect1d"}
PROD = {"matmul", "dot", "kron", "outer", "multiply", "tensordot", "inner", "vdot", "tensor_matrix_product", "tensor_vector_product", "tensor_diagonal_matrix_product", "dot_with_rank_one_metric"}
PURE = {"argmax", "argmin", "nanargmax", "nanargmin", "argsort", "nonzero", "isnan", "isfinite", "isinf", "shape", "size", "ndim", "len", "count_nonzero", "searchsorted", "arange", "eye",
        "identity", "sign", "any", "all", "logical_and", "logical_or", "logical_not", "range", "isin", "array_equal", "matrix_rank", "cond", "flatnonzero", "argwhere", "enumerate_",
        "storage", "sparse_storage", "isinstance", "hasattr", "iscomplexobj", "issparse", "isscalar", "unravel_index", "signbit", "lexsort", "spy"}
FLAT = {"exp", "log", "log10", "log2", "log1p", "expm1", "sin", "cos", "tan", "tanh", "arctan", "arcsin", "arccos", "sinh", "cosh"}
ROUND = {"round", "around", "round_", "rint", "floor", "ceil", "trunc", "fix", "int"}
ATTR_SAME = {"data", "T", "real", "tensor", "flat"}
ATTR_NUM = {"shape", "size", "ndim", "order", "ranks", "nb_nodes", "eps"}
SENTINELS = {"inf", "nan", "newaxis", "Inf", "NaN"}


class Degrees:
    def __init__(self, prog, attrs, calls, results=None):
        """attrs: name of attribute -> V for any object; calls: name of method -> V or function of the values"""
        self.prog, self.attrs, self.calls = prog, attrs, calls
        self.found, self.checked = {}, {}
        self.memo, self.busy, self.undecided = {}, [], []

    def report(self, f, node, key, msg):
        self.found.setdefault("%s|%s" % (f.qual, key), (f, node, msg))

    def obligation(self, kind, f, node):
        self.checked[(kind, f.module.rel, node.lineno, node.col_offset)] = f

    def run(self, f, cls, args, me=None):
        k = (f.id, cls.name if cls else None, tuple(sorted((n, v.key()) for n, v in args.items())), me.key() if me else None)
        if k in self.memo:
            return self.memo[k]
        if f.id in self.busy:
            return V(ANY)
        if len(self.busy) > 6:
            return UNK
        self.busy.append(f.id)
        self.memo[k] = V(ANY)
        try:
            r = Body(self, f, cls, args, me).run()
        finally:
            self.busy.pop()
        self.memo[k] = r
        return r


class Body:
    def __init__(self, D, f, cls, args, me):
        self.D, self.f, self.cls = D, f, cls
        self.env = {p: args.get(p, UNK) for p in list(f.params) + list(f.kwonly)}
        defaults = dict(f.defaults) if isinstance(f.defaults, dict) else {}
        for p in self.env:
            if p not in args and p in defaults:
                self.env[p] = self.const(defaults[p])
        self.me = f.params[0] if f.kind == "method" and f.params else None
        if self.me:
            self.env[self.me] = (me or V(TOP)).having(cls=cls)
        if f.vararg:
            self.env[f.vararg] = args.get("*", UNK)
        self.rets = []

    def const(self, e):
        if isinstance(e, ast.Constant):
            c = e.value
            if c is None or isinstance(c, bool):
                return V(ANY, c=(c,))
            if isinstance(c, (int, float)):
                return V(ANY, lit=True, c=(c,)) if c == 0 or abs(c) >= 1e30 else V(ZERO, lit=True, c=(c,))
            if isinstance(c, str):
                return V(TOP, c=(c,))
            return UNK
        return UNK

    def run(self):
        self.block(self.f.node.body, self.env)
        r = None
        for v in self.rets:
            r = join(r, v)
        return r or V(ANY)

    # -- checks ----------------------------------------------------------------------------
    def same(self, a, b, node, kind, what):
        """the two values must scale alike"""
        if a.lit and b.lit:
            return
        for x, y in ((a, b), (b, a)):
            if isinstance(x.d, Alt) and known(y) and y.sym is None:
                self.D.obligation(kind, self.f, node)
                self.D.report(self.f, node, "%s|%s" % (kind, ast.unparse(node)[:120]), "%s: %s (%s against %s)" % (what, ast.unparse(node)[:120], show(x.d), show(y.d)))
                return
        if not (known(a) and known(b)):
            return
        self.D.obligation(kind, self.f, node)
        if a.d != b.d:
            self.D.report(self.f, node, "%s|%s" % (kind, ast.unparse(node)[:120]), "%s: %s (%s against %s)" % (what, ast.unparse(node)[:120], show(a.d), show(b.d)))

    def flat(self, a, node, kind, what):
        if not known(a) or a.lit:
            return
        if a.d:
            self.D.obligation(kind, self.f, node)
            self.D.report(self.f, node, "%s|%s" % (kind, ast.unparse(node)[:120]), "%s: %s (%s)" % (what, ast.unparse(node)[:120], show(a.d)))

    # -- expressions -------------------------------------------------------------------------
    def ev(self, e, env):
        if e is None:
            return V(ANY)
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return UNK

    def ev_Constant(self, e, env):
        return self.const(e)

    def ev_Name(self, e, env):
        return env.get(e.id, UNK)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def ev_Attribute(self, e, env):
        v = self.ev(e.value, env)
        if v.fields and e.attr in v.fields:
            return v.fields[e.attr]
        if e.attr in SENTINELS:
            return V(ANY)
        if e.attr in ("eps", "pi", "e") and isinstance(e.value, (ast.Call, ast.Name)):
            return V(ZERO)
        if e.attr in self.D.attrs:
            return self.D.attrs[e.attr]
        if v.d == ANY and e.attr in ATTR_SAME:
            return V(ANY)
        if v.d is TOP or v.d == ANY:
            return NUM if e.attr in ("shape", "size", "ndim", "ranks", "nb_nodes") else UNK
        if e.attr in ATTR_SAME:
            return V(v.d, v.items)
        if e.attr in ATTR_NUM:
            return NUM
        return UNK

    def ev_Subscript(self, e, env):
        v = self.ev(e.value, env)
        self.ev(e.slice, env)
        if isinstance(e.slice, ast.Constant):
            k = e.slice.value
            if isinstance(k, str):
                return (v.fields or {}).get("[%s]" % k, v.fields.get("[]", UNK) if v.fields else UNK)
            if isinstance(k, int) and v.items is not None and -len(v.items) <= k < len(v.items):
                return v.items[k]
        if v.items is not None:
            r = None
            for x in v.items:
                r = join(r, x)
            return r or UNK
        return V(v.d, fields=v.fields)

    def ev_Slice(self, e, env):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, env)
        return NUM

    def ev_Tuple(self, e, env):
        items = [self.ev(x.value if isinstance(x, ast.Starred) else x, env) for x in e.elts]
        if any(isinstance(x, ast.Starred) for x in e.elts):
            items = None
            return UNK
        d = ANY
        for x in items:
            d = joind(d, x.d)
        return V(d, items)

    ev_List = ev_Tuple

    def ev_Set(self, e, env):
        return UNK

    def ev_Dict(self, e, env):
        fields = {}
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, env)
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                fields["[%s]" % k.value] = x
        return V(TOP, fields=fields)

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return V(ZERO, c=(not v.c[0],)) if v.c is not None else NUM
        if isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return V(ANY, lit=True)  # a sentinel below every size
        return V(v.d, lit=v.lit)

    def ev_BoolOp(self, e, env):
        vs = [self.ev(x, env) for x in e.values]
        r = None
        for v in vs:
            r = join(r, v)
        return r

    def ev_IfExp(self, e, env):
        self.ev(e.test, env)
        return join(self.ev(e.body, env), self.ev(e.orelse, env))

    def ev_Lambda(self, e, env):
        return UNK

    def ev_Starred(self, e, env):
        return self.ev(e.value, env)

    def ev_JoinedStr(self, e, env):
        return UNK

    def ev_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, node):
        if isinstance(op, (ast.Add, ast.Sub)):
            if a.items is not None and b.items is not None:
                return V(joind(a.d, b.d))
            if a.lit and b.lit:
                return V(ZERO, lit=True)
            self.same(a, b, node, "sums", "values that scale differently are added")
            if a.d == b.d:
                return V(a.d)
            if a.d == ANY or a.d is TOP:
                return V(b.d if a.d == ANY or not b.lit and b.d is not TOP and b.d != ANY else TOP)
            if b.d == ANY or b.d is TOP:
                return V(a.d if b.d == ANY or not a.lit else TOP)
            return V(TOP)
        if isinstance(op, (ast.Mult, ast.MatMult)):
            return self.prod(a, b)
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            if isinstance(op, ast.FloorDiv):
                self.flat(a, node, "roundings", "a value is rounded in absolute terms") if known(b) and not b.d else None
            if a.d is TOP or b.d is TOP:
                return UNK
            if a.d == ANY:
                return V(ANY)
            if b.d == ANY:
                return UNK
            sym = None
            if a.lit and b.sym and not b.d:
                sym = "1/" + b.sym
            return V(plus(a.d, b.d, -1), lit=a.lit and b.lit, sym=sym)
        if isinstance(op, ast.Pow):
            return self.power(a, b, node.right if isinstance(node, ast.BinOp) else None)
        if isinstance(op, ast.Mod):
            self.same(a, b, node, "sums", "values that scale differently are combined") if known(a) and a.d and known(b) else None
            return V(a.d)
        return UNK

    def prod(self, a, b):
        if a.d is TOP or b.d is TOP:
            return UNK
        if a.d == ANY or b.d == ANY:
            return V(ANY)
        return V(plus(a.d, b.d), lit=a.lit and b.lit)

    def power(self, a, b, expo):
        if a.d is TOP:
            return UNK
        if a.d == ANY:
            return V(ANY)
        if not a.d:
            return V(ZERO, lit=a.lit and b.lit)
        if a.d == ANY:
            return V(ANY)
        n = self.number(expo)
        if n is not None:
            return V(times(a.d, n))
        if b.sym:
            if b.sym.startswith("1/"):
                return V(symbolic(a.d, b.sym[2:], True))
            return V(symbolic(a.d, b.sym))
        return UNK

    @staticmethod
    def number(e):
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
            return Fraction(e.value).limit_denominator(1000)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            n = Body.number(e.operand)
            return None if n is None else -n
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
            a, b = Body.number(e.left), Body.number(e.right)
            return a / b if a is not None and b else None
        return None

    def ev_Compare(self, e, env):
        vs = [self.ev(e.left, env)] + [self.ev(x, env) for x in e.comparators]
        if len(vs) == 2 and vs[0].c is not None and vs[1].c is not None:
            a, b, op = vs[0].c[0], vs[1].c[0], e.ops[0]
            if isinstance(op, (ast.Eq, ast.Is)):
                return V(ZERO, c=(a == b and type(a) == type(b),))
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return V(ZERO, c=(not (a == b and type(a) == type(b)),))
        for a, b, op in zip(vs, vs[1:], e.ops):
            if isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
                continue
            if a.items is not None or b.items is not None:
                continue
            self.same(a, b, e, "comparisons", "values that scale differently are compared")
        return NUM

    def bindc(self, gens, env):
        env = dict(env)
        for g in gens:
            self.iterate(g.target, g.iter, env)
            for c in g.ifs:
                self.ev(c, env)
        return env

    def ev_ListComp(self, e, env):
        v = self.ev(e.elt, self.bindc(e.generators, env))
        return V(v.d)

    ev_SetComp = ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, e, env):
        env = self.bindc(e.generators, env)
        return V(TOP, fields={"[]": self.ev(e.value, env)})

    # -- calls --------------------------------------------------------------------------------
    def ev_Call(self, n, env):
        D = self.D
        fn = n.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        pos = [self.ev(a, env) for a in n.args]
        kw = {k.arg: self.ev(k.value, env) for k in n.keywords}
        ext = isinstance(fn, ast.Attribute) and ast.unparse(fn).split(".")[0] in ("np", "numpy", "sp", "scipy", "tf", "copy", "linalg", "math")
        recv = None
        if isinstance(fn, ast.Attribute) and not ext:
            recv = self.ev(fn.value, env)
        if isinstance(fn, ast.Name) and fn.id in env and env[fn.id].fields and "()" in env[fn.id].fields:
            return env[fn.id].fields["()"]
        if recv is not None and recv.fields and "." + name in recv.fields:
            return recv.fields["." + name]
        if name in D.calls and not ext:
            r = D.calls[name]
            if callable(r):
                r = r(self, recv, pos, kw, n)
            if r is not None:
                return r
        g = self.callee(n, recv)
        if g is not None and name not in ("deepcopy",):
            r = self.descend(g, n, pos, kw, recv)
            if r.d is not TOP or r.items is not None or r.fields or r.c is not None:
                return r
        args = ([recv] if recv is not None else []) + pos
        r = self.builtin(name, n, args, pos, kw, recv, ext, env)
        return r

    def callee(self, n, recv=None):
        fn = n.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            if fn.value.id == self.me and self.cls is not None:
                return self.cls.lookup(fn.attr)
            if fn.value.id == "tensap":
                g = self.D.prog.resolve_dotted("tensap." + fn.attr)
                return g[1] if isinstance(g, tuple) and g[0] == "func" else None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and self.f.module.classes.get(fn.value.id) is not None:
            return self.f.module.classes[fn.value.id].lookup(fn.attr)
        if isinstance(fn, ast.Name):
            return self.f.module.functions.get(fn.id)
        if isinstance(fn, ast.Attribute) and recv is not None and recv.cls is not None:
            return recv.cls.lookup(fn.attr)
        return None

    def descend(self, g, n, pos, kw, recv):
        ps = list(g.params)
        if g.kind == "method" and not isinstance(n.func, ast.Name):
            ps = ps[1:]
        if g.kind == "method" and recv is None and n.args and isinstance(n.func, ast.Attribute):
            ps = list(g.params)
        args, rest, k = {}, [], 0
        for e, v in zip(n.args, pos):
            if isinstance(e, ast.Starred):
                if v.items is None or k < len(ps) and v.items:
                    if g.vararg and k >= len(ps):
                        rest = None
                        continue
                    return UNK
                rest = None if rest is None else rest + list(v.items)
                continue
            if k < len(ps):
                args[ps[k]] = v
            elif rest is not None:
                rest.append(v)
            k += 1
        if g.vararg:
            args["*"] = UNK if rest is None else V(TOP, rest)
        for k, v in kw.items():
            if k is not None:
                args[k] = v
        return self.D.run(g, self.cls if g.cls is not None and self.cls is not None and g.cls in self.cls.family() else g.cls, args, recv)

    def builtin(self, name, n, args, pos, kw, recv, ext, env):
        a = args[0] if args else UNK
        if name in ("zeros", "empty", "zeros_like", "empty_like", "null"):
            return V(ANY)
        if name in ("ones", "ones_like"):
            return NUM
        if name == "full" and ext:
            return V(pos[1].d, lit=pos[1].lit) if len(pos) > 1 else kw.get("fill_value", UNK)
        if name == "full_like":
            return V(pos[1].d) if len(pos) > 1 else UNK
        if name == "finfo":
            return NUM
        if name == "svd" and ext:
            cu = next((k.value for k in n.keywords if k.arg == "compute_uv"), None)
            if isinstance(cu, ast.Constant) and cu.value is False:
                return V(a.d)
            return V(TOP, [V(ZERO), V(a.d), V(ZERO)])
        if name == "qr" and ext:
            return V(TOP, [V(ZERO), V(a.d)])
        if name in ("eig", "eigh") and ext:
            return V(TOP, [V(a.d), V(ZERO)])
        if name in ("eigvals", "eigvalsh") and ext:
            return V(a.d)
        if name == "cholesky":
            return V(times(a.d, Fraction(1, 2))) if known(a) else UNK
        if name in ("inv", "pinv") and ext:
            if len(pos) > 1:
                self.flat(pos[1], n, "tolerances", "a relative tolerance is given a value that scales")
            return V(times(a.d, -1)) if known(a) else UNK
        if name == "solve" and ext and len(pos) == 2:
            return V(plus(pos[1].d, pos[0].d, -1)) if known(pos[0]) and known(pos[1]) else UNK
        if name == "lstsq" and len(pos) >= 2:
            d = V(plus(pos[1].d, pos[0].d, -1)) if known(pos[0]) and known(pos[1]) else UNK
            return V(TOP, [d, UNK, NUM, V(pos[0].d)])
        if name == "orthogonal_mp" and len(pos) >= 2:
            return V(plus(pos[1].d, pos[0].d, -1)) if known(pos[0]) and known(pos[1]) else UNK
        if name == "matrix_rank":
            tol = pos[1] if len(pos) > 1 else kw.get("tol")
            if tol is not None and known(a) and known(tol):
                self.same(a, tol, n, "tolerances", "the tolerance of a rank does not scale like the matrix")
            return NUM
        if name in ("isclose", "allclose") and len(pos) >= 2:
            self.same(pos[0], pos[1], n, "comparisons", "values that scale differently are compared")
            at = next((k.value for k in n.keywords if k.arg == "atol"), n.args[3] if len(n.args) > 3 else None)
            zero = isinstance(at, ast.Constant) and at.value == 0
            for v in pos[:2]:
                if known(v) and v.d and not zero:
                    t = self.ev(at, env) if at is not None else V(ZERO)
                    self.same(v, t, n, "tolerances", "the absolute tolerance does not scale like the values")
                    break
            return NUM
        if name in FLAT:
            self.flat(a, n, "logarithms", "a transcendental function of a value that scales")
            return V(ZERO) if known(a) else UNK
        if name in ROUND:
            self.flat(a, n, "roundings", "a value is rounded in absolute terms")
            return V(a.d if a.d is not TOP else TOP)
        if name == "sqrt":
            return V(times(a.d, Fraction(1, 2)), sym=None) if known(a) else V(a.d)
        if name == "square":
            return V(times(a.d, 2)) if known(a) else V(a.d)
        if name == "var":
            return V(times(a.d, 2)) if known(a) else V(a.d)
        if name in ("power", "pow", "float_power") and len(pos) == 2:
            return self.power(pos[0], pos[1], n.args[1])
        if name in ("add", "subtract") and len(pos) == 2:
            return self.binop(ast.Add(), pos[0], pos[1], n)
        if name in ("divide", "true_divide") and len(pos) == 2:
            return self.binop(ast.Div(), pos[0], pos[1], n)
        if name in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal") and len(pos) == 2:
            self.same(pos[0], pos[1], n, "comparisons", "values that scale differently are compared")
            return NUM
        if name == "where" and len(pos) == 3:
            return V(joind(pos[1].d, pos[2].d))
        if name == "where":
            return V(TOP, [NUM]) if len(pos) == 1 else UNK
        if name == "gramians" and known(a):
            return V(TOP, [V(times(a.d, 2)), V(a.d)])
        if name == "einsum":
            r = V(ZERO)
            for v in pos[1:]:
                r = self.prod(r, v)
            return r
        if name == "prod" and known(a) and not a.d:
            return NUM
        if name in ("max", "min") and not ext and recv is None:
            vs = a.items if len(pos) == 1 and a.items is not None else pos
            if len(vs) > 1:
                return self.joined(vs, n)
            return V(a.d)
        if name in ("max", "min", "amax", "amin", "nanmax", "nanmin") and a.items is not None and len(a.items) > 1:
            return self.joined(a.items, n)
        if name in JOIN:
            vs = []
            for v in args:
                vs.extend(v.items if v.items is not None else [v])
            if name in ("maximum", "minimum", "fmax", "fmin", "clip", "hypot"):
                return self.joined(vs, n)
            d = ANY
            for v in vs[:1] if name in ("concatenate", "hstack", "vstack", "stack", "column_stack", "block") and len(vs) == 1 else vs:
                if v.d is ANY or v.lit and v.d == ():
                    continue
                d = joind(d, v.d)
            return V(d)
        if name in PROD:
            vs = args[:2]
            if len(vs) == 2:
                if vs[1].items is not None:
                    return V(vs[0].d) if all(x.d == ZERO for x in vs[1].items) and known(vs[0]) else UNK
                return self.prod(vs[0], vs[1])
            return UNK
        if name == "zip":
            return V(TOP, [V(v.d) for v in pos])
        if name in PURE:
            if name in ("isin",):
                return NUM
            if name == "nonzero":
                return V(ZERO, None)
            return NUM
        if name in SAME:
            if name == "full" and recv is None:
                return UNK
            if name == "diags" and pos:
                return V(pos[0].d)
            if name in OBJSAME and recv is not None:
                return V(recv.d) if known(recv) else UNK
            if name in ("array", "asarray", "list", "tuple") and a.items is not None:
                return V(a.d, a.items if name in ("list", "tuple") else None)
            if name in ("deepcopy", "copy"):
                return a
            return V(a.d) if a.d is not TOP else UNK
        return UNK

    def joined(self, vs, node):
        d = ANY
        ref = None
        for v in vs:
            if known(v):
                if ref is not None:
                    self.same(ref, v, node, "comparisons", "values that scale differently are compared")
                ref = ref or v
            d = joind(d, v.d)
        return V(d)

    # -- statements -----------------------------------------------------------------------------
    def iterate(self, target, it, env):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and isinstance(target, ast.Tuple) and len(target.elts) == 2 and it.args:
            self.bind(target.elts[0], NUM, env)
            self.iterate(target.elts[1], it.args[0], env)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and isinstance(target, ast.Tuple) and len(target.elts) == len(it.args):
            for t, a in zip(target.elts, it.args):
                self.bind(t, self.element(self.ev(a, env)), env)
            return
        self.bind(target, self.element(self.ev(it, env)), env)

    @staticmethod
    def element(v):
        if v.items is not None:
            r = None
            for x in v.items:
                r = join(r, x)
            return r or UNK
        return V(v.d)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, UNK, env)
                else:
                    self.bind(x, v.items[k] if v.items is not None and len(v.items) == len(t.elts) else V(v.d) if v.items is None else V(ANY), env)
        elif isinstance(t, ast.Subscript):
            k = t.slice.value if isinstance(t.slice, ast.Constant) else None
            if isinstance(k, str):
                if isinstance(t.value, ast.Name):
                    b = env.get(t.value.id, UNK)
                    fields = dict(b.fields or {})
                    fields["[%s]" % k] = v
                    env[t.value.id] = b.having(fields=fields)
                return
            if isinstance(k, int):
                b = self.ev(t.value, env)
                if b.items is not None and -len(b.items) <= k < len(b.items) and isinstance(t.value, (ast.Name, ast.Attribute)):
                    items = list(b.items)
                    items[k] = v
                    self.bind(t.value, V(b.d if b.d is TOP else joind(b.d, v.d), items, b.fields), env)
                    return
            self.ev(t.slice, env)
            self.element_of(t.value, v, env)
        elif isinstance(t, ast.Attribute):
            self.set_attr(t, v, env)

    def set_attr(self, t, v, env):
        if isinstance(t.value, ast.Name):
            b = env.get(t.value.id, UNK)
            if t.value.id == self.me and t.attr in self.D.attrs:
                self.declared(t, v)
            fields = dict(b.fields or {})
            fields[t.attr] = v
            d = b.d
            if t.attr == "data" and not (b.fields and "core" in b.fields):
                d = v.d
            env[t.value.id] = b.having(d=d, fields=fields)
        elif isinstance(t.value, ast.Attribute):
            inner = self.ev(t.value, env)
            fields = dict(inner.fields or {})
            fields[t.attr] = v
            self.set_attr(t.value, inner.having(fields=fields), env)

    def declared(self, t, v):
        pass

    def element_of(self, base, v, env):
        """an element of base takes the value v"""
        if isinstance(base, ast.Name):
            b = env.get(base.id, UNK)
            if b.items is not None or b.d is TOP and b.fields:
                if b.items is not None:
                    env[base.id] = V(TOP)
                return
            env[base.id] = V(joind(b.d, v.d), None, b.fields)
        elif isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name):
            old = self.ev(base, env)
            b = env.get(base.value.id, UNK)
            if b.fields and base.attr in b.fields:
                fields = dict(b.fields)
                fields[base.attr] = V(joind(old.d, v.d))
                env[base.value.id] = b.having(fields=fields)
        elif isinstance(base, ast.Subscript) and isinstance(base.slice, ast.Constant) and isinstance(base.slice.value, str) and isinstance(base.value, ast.Name):
            b = env.get(base.value.id, UNK)
            k = "[%s]" % base.slice.value
            if b.fields and k in b.fields:
                fields = dict(b.fields)
                fields[k] = V(joind(fields[k].d, v.d))
                env[base.value.id] = b.having(fields=fields)

    def joinenv(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: join(a[k], b[k]) if k in a and k in b else a.get(k, b.get(k)) for k in set(a) | set(b)}

    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            load = s.target
            a, b = self.ev(load, env), self.ev(s.value, env)
            node = ast.copy_location(ast.BinOp(left=load, op=s.op, right=s.value), s)
            self.bind(s.target, self.binop(s.op, a, b, node), env)
        elif isinstance(s, ast.Expr):
            n = s.value
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend") and n.args:
                v = self.ev(n.args[0], env)
                b = n.func.value
                if isinstance(b, ast.Name):
                    o = env.get(b.id, UNK)
                    env[b.id] = V(v.d if o.items == [] else joind(o.d, v.d) if o.items is None else TOP)
                else:
                    self.element_of(b, v, env)
            else:
                self.ev(n, env)
        elif isinstance(s, ast.Return):
            self.rets.append(self.ev(s.value, env) if s.value is not None else V(ANY))
            return None
        elif isinstance(s, ast.Raise):
            return None
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        elif isinstance(s, ast.If):
            t = self.ev(s.test, env)
            if t.c is not None:
                return self.block(s.body if t.c[0] else s.orelse, env)
            one, two = dict(env), dict(env)
            self.refine(s.test, one, two)
            return self.joinenv(self.block(s.body, one), self.block(s.orelse, two))
        elif isinstance(s, (ast.For, ast.While)):
            cur = dict(env)
            for _ in range(3):
                e = dict(cur)
                if isinstance(s, ast.While):
                    self.ev(s.test, e)
                else:
                    self.iterate(s.target, s.iter, e)
                self.brk.append(None)
                out = self.block(s.body, e)
                br = self.brk.pop()
                nxt = self.joinenv(self.joinenv(cur, out), br)
                done = all(k in cur and cur[k].key() == nxt[k].key() for k in nxt)
                cur = nxt
                if done:
                    break
            if s.orelse:
                cur = self.block(s.orelse, cur)
            return cur
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.brk:
                self.brk[-1] = self.joinenv(self.brk[-1], env)
            return None
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            return self.block(s.body, env)
        elif isinstance(s, ast.Try):
            a = self.block(s.body, dict(env))
            if a is not None and s.orelse:
                a = self.block(s.orelse, a)
            for h in s.handlers:
                a = self.joinenv(a, self.block(h.body, dict(env)))
            if s.finalbody:
                a = self.block(s.finalbody, a if a is not None else dict(env)) if a is not None else None
            return a
        return env

    @property
    def brk(self):
        if not hasattr(self, "_brk"):
            self._brk = []
        return self._brk

    def refine(self, test, one, two):
        pass
