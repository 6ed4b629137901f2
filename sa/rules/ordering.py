"""P16: one linear ordering of multi-indices (first index fastest) wherever indices are merged or split.

Every operation that merges several indices into one or splits one into several is classified by
the order it uses and by what is known of its operand: the values of a function are typed by their
layout (a genuine array, a vector, or an array one of whose axes is a merged index, and in which
order it was merged).
"""
import ast

FLATTEN = ("ravel", "flatten")
# numpy functions that act entry by entry: the layout of the operand is the layout of the result
ENTRY = {"abs", "absolute", "sqrt", "exp", "log", "sin", "cos", "tan", "asarray", "array", "copy", "deepcopy", "conj", "real", "imag", "maximum",
         "minimum", "where", "isnan", "isfinite", "logical_not", "logical_and", "logical_or", "astype", "round", "floor", "ceil", "rint",
         "nan_to_num", "multiply", "divide", "add", "subtract", "power", "negative", "square", "clip", "sign", "squeeze", "ascontiguousarray"}
# functions of the set of entries: no order involved
UNORDERED = {"sum", "prod", "norm", "max", "min", "amax", "amin", "any", "all", "unique", "sort", "size", "mean", "std", "var", "len", "set",
             "count_nonzero", "allclose", "isin", "nanmax", "nanmin", "median", "average", "issubset", "max_abs", "in1d", "set_of", "array_equal"}
# what these return has several axes
SEVERAL = {"matmul", "outer", "kron", "eye", "diag", "tensordot", "einsum", "vstack", "hstack", "stack", "meshgrid", "transpose", "tile",
           "column_stack", "swapaxes", "moveaxis", "numpy", "identity", "solve", "qr", "svd", "inv"}

VEC, MAT, UNK = "vector", "array", "?"
C1, C0 = "C-merged", "maybe C-merged"
F1, F0 = "F-merged", "maybe F-merged"


def name_of(c):
    f = c.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""


def is_np(c):
    f = c.func
    return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy")


def order_of(c, pos):
    """order argument of a call: 'C' when not given, None when not a constant"""
    for k in c.keywords:
        if k.arg == "order":
            return k.value.value if isinstance(k.value, ast.Constant) else None
        if k.arg is None:
            return None
    if len(c.args) > pos:
        a = c.args[pos]
        return a.value if isinstance(a, ast.Constant) else None
    return "C"


class Function:
    """layouts of the local values of one function"""

    def __init__(self, rule, f):
        self.rule, self.f = rule, f
        self.env = {}
        self.parent = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
        self.pos = {}
        todo = [f.node]
        while todo:
            n = todo.pop()
            self.pos[n] = len(self.pos)
            todo.extend(reversed(list(ast.iter_child_nodes(n))))
        self.multi = self.indexed()

    def indexed(self):
        """names used as arrays with several axes: x[:, i], x.shape[1], x[i, :]"""
        out = set()
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Subscript):
                v = n.value
                if isinstance(n.slice, ast.Tuple) and len(n.slice.elts) > 1 and not any(
                        isinstance(x, ast.Constant) and x.value is None or ast.unparse(x) == "np.newaxis" for x in n.slice.elts):
                    out.add(self.scoped(v))
                if isinstance(v, ast.Attribute) and v.attr == "shape" and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) \
                        and n.slice.value >= 1:
                    out.add(self.scoped(v.value))
            if isinstance(n, ast.Call) and is_np(n) and n.func.attr == "shape" and n.args and isinstance(self.parent.get(n), ast.Subscript):
                s = self.parent[n].slice
                if isinstance(s, ast.Constant) and isinstance(s.value, int) and s.value >= 1:
                    out.add(self.scoped(n.args[0]))
        return out

    def scoped(self, e):
        """text of an expression, tagged with the comprehension its first name is a variable of"""
        r = e
        while isinstance(r, (ast.Attribute, ast.Subscript)):
            r = r.value
        if isinstance(r, ast.Name):
            p = self.parent.get(e)
            while p is not None:
                if isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda)):
                    ts = [t for g in getattr(p, "generators", ()) for t in ast.walk(g.target)] if not isinstance(p, ast.Lambda) else \
                        [ast.Name(id=a.arg, ctx=ast.Load()) for a in p.args.args]
                    if any(isinstance(t, ast.Name) and t.id == r.id for t in ts):
                        return "%d:%s" % (p.lineno, ast.unparse(e))
                p = self.parent.get(p)
        return ast.unparse(e)

    # layouts -------------------------------------------------------------------------------
    def lay(self, e, depth=0):
        if e is None or depth > 12:
            return UNK
        d = depth + 1
        if isinstance(e, ast.Name):
            v = self.reaching(e)
            if v is not None:
                return self.lay(v, d)
            ls = [l for l, at in self.env.get(e.id, ()) if self.comes(at, e)]
            if ls:
                return self.meet(ls)
            return UNK
        if isinstance(e, ast.Constant):
            return VEC
        if isinstance(e, (ast.BinOp,)):
            a, b = self.lay(e.left, d), self.lay(e.right, d)
            if isinstance(e.op, ast.MatMult):
                return self.product(a, b)
            if C0 in (a, b) and UNK in (a, b):
                return UNK
            return self.meet([a, b])
        if isinstance(e, ast.UnaryOp):
            return self.lay(e.operand, d)
        if isinstance(e, ast.IfExp):
            return self.meet([self.lay(e.body, d), self.lay(e.orelse, d)])
        if isinstance(e, ast.Subscript):
            b = self.lay(e.value, d)
            if b in (C1, C0, F1, F0):
                return b
            return UNK
        if isinstance(e, ast.Attribute):
            if e.attr == "T":
                return self.lay(e.value, d)
            if e.attr == "data":
                v = e.value
                if isinstance(v, ast.Name) and v.id == "self" and self.f.cls is not None and self.f.cls.name == "FullTensor":
                    return MAT
                if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Attribute) and v.value.attr == "tensors":
                    return MAT
            if isinstance(e.value, ast.Name) and e.value.id == "self":
                ls = [l for l, at in self.env.get("self." + e.attr, ()) if self.comes(at, e)]
                if ls:
                    return self.meet(ls)
            return UNK
        if isinstance(e, (ast.List, ast.Tuple)):
            return self.meet([self.lay(x, d) for x in e.elts]) if e.elts else VEC
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            b = self.lay(e.elt, d)
            return b if b in (C1, C0, F1, F0) else UNK
        if isinstance(e, ast.Compare):
            return self.meet([self.lay(e.left, d)] + [self.lay(x, d) for x in e.comparators])
        if isinstance(e, ast.Call):
            return self.call(e, d)
        return UNK

    def comes(self, at, e):
        """the definition may be executed before the use"""
        if at is None or e not in self.pos or at not in self.pos:
            return True
        x = e
        while x is not None and not isinstance(x, ast.stmt):
            x = self.parent.get(x)
        if x is not at and self.pos[at] < self.pos[e] and not (isinstance(at, ast.stmt) and self.inside(e, at)) and not self.apart(at, e):
            return True
        # in a common loop
        y = at
        while y is not None:
            y = self.parent.get(y)
            if isinstance(y, (ast.For, ast.While)) and self.inside(e, y):
                return True
        return self.inside(e, at) and isinstance(at, (ast.For, ast.comprehension))

    def apart(self, a, e):
        """in two branches of the same test"""
        arms = {}
        y = a
        while y is not None:
            p = self.parent.get(y)
            if isinstance(p, ast.If):
                arms[p] = any(z is y for z in p.body)
            y = p
        y = e
        while y is not None:
            p = self.parent.get(y)
            if p in arms and y is not p.test and any(z is y for z in p.body) != arms[p]:
                return True
            y = p
        return False

    def inside(self, e, s):
        while e is not None:
            if e is s:
                return True
            e = self.parent.get(e)
        return False

    def reaching(self, e):
        """the value the name has when the only assignment that reaches it precedes it in its block, or None"""
        x = e
        while x is not None and not isinstance(x, ast.stmt):
            if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda)):
                return None
            x = self.parent.get(x)
        while x is not None and x is not self.f.node:
            p = self.parent.get(x)
            block = next((b for b in (getattr(p, k, None) for k in ("body", "orelse", "finalbody")) if isinstance(b, list)
                          and any(y is x for y in b)), None)
            if block is None:
                return None
            i = next(i for i, y in enumerate(block) if y is x)
            for s in reversed(block[:i]):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == e.id:
                    return s.value
                for y in ast.walk(s):
                    if isinstance(y, ast.Name) and y.id == e.id and (isinstance(y.ctx, ast.Store) or isinstance(
                            self.parent.get(y), (ast.Subscript, ast.Attribute)) and isinstance(self.parent[y].ctx, ast.Store)):
                        return None
            if isinstance(p, (ast.For, ast.While, ast.Try)):
                return None
            x = p
        return None

    def meet(self, ls):
        ls = [x for x in ls if x != VEC] or [VEC]
        if C0 in ls and F0 in ls:
            ls = [x for x in ls if x not in (C0, F0)] + [UNK]
        for x in (C1, F1, C0, F0, MAT, UNK):
            if x in ls:
                return x
        return VEC

    def product(self, a, b):
        """a matrix product of merged arrays has merged axes"""
        for x in (C1, F1, C0, F0):
            if x in (a, b):
                return x
        return MAT

    def call(self, c, d):
        n = name_of(c)
        k = self.kind(c)
        if k is not None:
            what, order, operand, target = k
            b = self.lay(operand, d) if operand is not None else UNK
            several = self.several(c, operand, b)
            if what == "merge":
                if b in (C1, F1, C0, F0):
                    return b
                if b == VEC:
                    return VEC
                return (C1 if several else C0) if order == "C" else (F1 if several else F0)
            if what == "split":
                return C0 if order == "C" else F0
            if what == "vector":
                return b
            return UNK
        args = list(c.args)
        if isinstance(c.func, ast.Attribute) and not is_np(c) and not isinstance(c.func.value, ast.Name):
            args = [c.func.value] + args
        elif isinstance(c.func, ast.Attribute) and not is_np(c):
            args = [c.func.value] + args
        ls = [self.lay(a.value if isinstance(a, ast.Starred) else a, d) for a in args]
        if n in UNORDERED:
            return VEC
        if n in ("matmul", "dot"):
            return self.product(*(ls + [UNK, UNK])[:2])
        if n in ("arange", "linspace"):
            return VEC
        if n in ("ones", "zeros", "full", "empty", "rand", "randn"):
            a = c.args[0] if c.args else None
            return MAT if isinstance(a, (ast.Tuple, ast.List)) and len(a.elts) > 1 and not any(one(x) for x in a.elts) else UNK
        merged = [x for x in ls if x in ((C1, C0, F1, F0) if is_np(c) or n in ENTRY else (C1, F1))]
        if merged:
            return self.meet(merged)
        if n in ENTRY:
            return self.meet(ls or [UNK])
        if n == "tile" and len(c.args) > 1 and not isinstance(c.args[1], (ast.Tuple, ast.List)):
            return self.lay(c.args[0], d)
        if n in SEVERAL and (is_np(c) or n in ("numpy", "transpose")):
            return MAT
        return UNK

    def several(self, c, x, lay):
        """x is known to have several axes longer than one at the call c"""
        if x is None:
            return False
        if lay != MAT and (lay != UNK or self.scoped(x) not in self.multi):
            return False
        # unless the path to the call says that it has not: np.ndim(x) < 2, dims.size == 1
        y, p = c, self.parent.get(c)
        while p is not None:
            if isinstance(p, (ast.If, ast.IfExp)) and y is not p.test:
                tests, names = [p.test], set()
                for x in tests:
                    for z in ast.walk(x):
                        if isinstance(z, ast.Name) and z.id not in names and len(names) < 20:
                            names.add(z.id)
                            if x is p.test or isinstance(x, ast.Name):
                                tests += self.rule.defs(self.f, z.id)
                for t in (t for x in tests for t in ast.walk(x)):
                    if isinstance(t, ast.Compare) and any(isinstance(k, ast.Constant) and k.value in (0, 1, 2) for k in t.comparators) and \
                            any(isinstance(z, ast.Attribute) and z.attr in ("ndim", "size", "shape") or isinstance(z, ast.Call)
                                and name_of(z) in ("ndim", "size", "len", "shape") for z in ast.walk(t)):
                        return False
            y, p = p, self.parent.get(p)
        return True

    # order sensitive operations --------------------------------------------------------------
    def kind(self, c):
        """(merge | split | vector | other, order, operand, target) of a reordering call, or None"""
        n = name_of(c)
        if n in FLATTEN:
            if is_np(c):
                return "merge", order_of(c, 1), c.args[0] if c.args else None, None
            if isinstance(c.func, ast.Attribute) and self.array(c.func.value):
                return "merge", order_of(c, 0), c.func.value, None
            return None
        if n == "reshape":
            if is_np(c):
                x, t, o = (c.args + [None, None])[0], (c.args + [None, None])[1], order_of(c, 2)
                for k in c.keywords:
                    if k.arg in ("newshape", "shape"):
                        t = k.value
                    if k.arg == "a":
                        x = k.value
            elif isinstance(c.func, ast.Attribute) and self.array(c.func.value) is True:
                x = c.func.value
                t = c.args[0] if len(c.args) == 1 else ast.Tuple(elts=list(c.args), ctx=ast.Load())
                o = order_of(c, 99)
            else:
                return None
            s = self.shape(t)
            if s == 0:
                return "merge", o, x, t
            if s == 1:
                return "vector", o, x, t
            return "split", o, x, t
        return None

    def array(self, e, depth=0):
        """True: certainly a numpy array; False: not known to be one"""
        if isinstance(e, ast.Call) and is_np(e):
            return True
        if isinstance(e, ast.Call) and name_of(e) in ("numpy",):
            return True
        if isinstance(e, ast.Name):
            v = self.reaching(e)
            ds = [v] if v is not None else self.rule.defs(self.f, e.id)
            if depth > 4 or e.id in self.f.params:
                return False
            return bool(ds) and all(self.array(x, depth + 1) is True for x in ds)
        if isinstance(e, ast.Attribute) and e.attr in ("data", "T"):
            return e.attr == "data"
        if isinstance(e, (ast.BinOp, ast.Subscript)):
            return self.array(e.left if isinstance(e, ast.BinOp) else e.value, depth)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("ravel", "flatten", "copy", "astype"):
            return self.array(e.func.value, depth)
        return False

    def shape(self, t):
        """0: one axis; 1: at most one axis longer than one, or unchanged; 2: several axes"""
        if t is None:
            return 1
        if isinstance(t, ast.Name):
            ds = self.rule.defs(self.f, t.id)
            if len(ds) == 1 and isinstance(ds[0], (ast.Tuple, ast.List)):
                return self.shape(ds[0])
        if isinstance(t, ast.UnaryOp) or isinstance(t, ast.Constant):
            return 0
        if isinstance(t, ast.Call) and name_of(t) in ("int", "prod", "size"):
            return 0
        if isinstance(t, (ast.Tuple, ast.List)):
            if len(t.elts) == 1 and not isinstance(t.elts[0], ast.Starred):
                return 0
            if any(isinstance(x, ast.Starred) for x in t.elts):
                return 2
            rest = [x for x in t.elts if not one(x)]
            if len(rest) < len(t.elts) and len(rest) <= 1:
                return 0
            # (x.size, -1): one column
            if len(rest) == 2 and any(isinstance(x, ast.Attribute) and x.attr == "size" or isinstance(x, ast.Call) and name_of(x) == "size"
                                      for x in rest) and any(minus(x) for x in rest):
                return 0
            return 2
        return 2

    def run(self):
        body = list(ast.walk(self.f.node))
        own = {id(n) for n in self.rule.own(self.f)}
        # layouts of locals (to a fixpoint, joins of all definitions)
        for _ in range(4):
            old = {k: list(v) for k, v in self.env.items()}
            for n in body:
                if id(n) not in own:
                    continue
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.bind(t, n.value, n)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    self.bind(n.target, n.value, n)
                elif isinstance(n, ast.For):
                    l = self.lay(n.iter)
                    if l in (C1, C0, F1, F0) and isinstance(n.target, ast.Name):
                        self.put(n.target.id, l, n)
                elif isinstance(n, ast.Call) and name_of(n) in ("append", "extend") and isinstance(n.func, ast.Attribute) \
                        and isinstance(n.func.value, ast.Name) and n.args:
                    l = self.lay(n.args[0])
                    if l in (C1, C0, F1, F0):
                        self.put(n.func.value.id, l, n)
            if {k: list(v) for k, v in self.env.items()} == old:
                break
        for n in body:
            if id(n) in own and isinstance(n, ast.Call):
                self.check(n)

    def bind(self, t, v, at):
        if isinstance(t, ast.Name):
            self.put(t.id, self.lay(v), at)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
            l = self.lay(v)
            if l in (C1, C0, F1, F0):
                self.put("self." + t.attr, l, at)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    self.bind(a, b, at)
            else:
                l = self.lay(v)
                for a in t.elts:
                    if isinstance(a, ast.Name):
                        self.put(a.id, l if l in (C1, C0, F1, F0) else UNK, at)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            l = self.lay(v)
            if l in (C1, C0, F1, F0):
                self.put(t.value.id, l, at)

    def put(self, n, l, at):
        ls = self.env.setdefault(n, [])
        if (l, at) not in ls:
            ls.append((l, at))

    # rules -----------------------------------------------------------------------------------
    def check(self, c):
        n = name_of(c)
        r = self.rule
        if n in ("ravel_multi_index", "unravel_index"):
            o = order_of(c, 3 if n == "ravel_multi_index" else 2)
            r.seen("linear index conversions", self, c, o)
            if o != "F":
                r.bad(self, c, "index|%s" % n, "%s converts indices in %s order" % (n, "row-major" if o == "C" else o))
            return
        if n == "meshgrid" and is_np(c):
            ix = [k.value.value for k in c.keywords if k.arg == "indexing" and isinstance(k.value, ast.Constant)]
            r.seen("grids of axes", self, c, ix[0] if ix else "xy")
            if ix != ["ij"]:
                r.bad(self, c, "index|meshgrid", "meshgrid exchanges the first two axes")
            return
        if n == "nditer":
            return
        k = self.kind(c)
        if k is None:
            return
        what, order, operand, target = k
        lay = self.lay(operand) if operand is not None else UNK
        several = self.several(c, operand, lay)
        r.seen("index %ss" % ("merge" if what == "merge" else "split" if what == "split" else "vector reshape"), self, c, order)
        if order not in ("F", "C"):
            r.bad(self, c, "order|%s" % what, "the order of the %s is %s" % (what, order))
            return
        if what == "merge" and self.f.name == "kron" and len(self.f.params) == 2:
            # numpy's convention: the entries of the second factor vary fastest
            x = operand if not isinstance(operand, ast.Name) else self.reaching(operand) or operand
            if isinstance(x, ast.Call) and name_of(x) == "outer" and len(x.args) == 2:
                named = [{n.id for n in ast.walk(a) if isinstance(n, ast.Name)} & set(self.f.params) for a in x.args]
                if named in ([{self.f.params[0]}, {self.f.params[1]}], [{self.f.params[1]}, {self.f.params[0]}]):
                    r.seen("Kronecker products", self, c, order)
                    if (order == "C") != (named[0] == {self.f.params[0]}):
                        r.bad(self, c, "kron", "the Kronecker product varies its first factor fastest")
        if what == "vector" or self.f.name == "kron":
            return
        if what == "merge":
            if order == "C" and several and lay not in (C1, C0, F1, F0) and self.escapes(c):
                r.bad(self, c, "merge", "several axes are merged in row-major order (last index fastest)")
            return
        # split
        if order == "F" and lay in (C1, C0):
            r.bad(self, c, "split", "an index merged in row-major order is split in column-major order")
        elif order == "C" and lay in (F1, F0):
            r.bad(self, c, "split", "an index merged in column-major order is split in row-major order")
        elif order == "C" and lay not in (C1, C0, VEC) and not self.restores(operand, target, c):
            r.bad(self, c, "split", "indices are split or merged in row-major order (last index fastest)")

    def restores(self, x, t, c=None):
        """the operand already has the shape it is given: the result of a call, or reshape(x, y.shape)"""
        if isinstance(x, ast.Name):
            ds = self.rule.defs(self.f, x.id)
            ds = [d for d in ds if d is not c]
            if ds and all(self.restores(d, t, c) for d in ds):
                return True
        if isinstance(x, ast.Call) and name_of(x) in ("zeros", "empty", "ones", "full") and x.args and isinstance(x.args[0], (ast.Tuple, ast.List)) \
                and isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == len(x.args[0].elts):
            if all(minus(a) or ast.unparse(a) == ast.unparse(b) for a, b in zip(t.elts, x.args[0].elts)):
                return True
        if isinstance(x, ast.Call) and not is_np(x) and self.kind(x) is None and name_of(x) not in ("numpy",) and not isinstance(t, ast.Name) \
                and not (isinstance(x.func, ast.Name) and x.func.id in self.f.params):
            return not (isinstance(t, (ast.Tuple, ast.List)) and any(minus(y) for y in t.elts))
        if isinstance(t, ast.Attribute) and t.attr == "shape":
            return True
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in ("indices",):
            return True
        if isinstance(t, ast.Name):
            # the shape of a value saved before the value was flattened
            ds = self.rule.defs(self.f, t.id)
            if ds and all(isinstance(d, ast.Attribute) and d.attr == "shape" or isinstance(d, ast.Call) and name_of(d) == "shape" for d in ds):
                return True
        return False

    def escapes(self, c, depth=0):
        """the merged value is used other than through functions of its set of entries or a matching split"""
        p = self.parent.get(c)
        x = c
        while p is not None and not isinstance(p, ast.stmt):
            if isinstance(p, ast.Call) and x is not p.func and name_of(p) in UNORDERED:
                return False
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and x is p.func and p.func.attr in UNORDERED:
                return False
            x, p = p, self.parent.get(p)
        if isinstance(p, ast.Assign) and len(p.targets) == 1:
            t = p.targets[0]
            nm = t.id if isinstance(t, ast.Name) else t.value.id if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) else None
            if nm is not None:
                uses = [n for n in self.rule.own(self.f) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load)]
                for u in uses:
                    v = self.reaching(u)
                    if v is not None and v is not p.value and isinstance(t, ast.Name):
                        continue
                    q = self.parent.get(u)
                    y = u
                    if isinstance(q, ast.Assign) and q.value is u and depth < 4 and not self.escapes(u, depth + 1):
                        continue
                    ok = False
                    while q is not None and not isinstance(q, ast.stmt):
                        if isinstance(q, ast.Call) and y is not q.func:
                            k = self.kind(q)
                            if name_of(q) in UNORDERED or (k is not None and k[0] == "split" and k[1] == "C"):
                                ok = True
                                break
                        if isinstance(q, ast.Attribute) and q.attr in ("size", "shape", "ndim"):
                            ok = True
                            break
                        y, q = q, self.parent.get(q)
                    if not ok:
                        return True
                return False
        return True


def one(x):
    return isinstance(x, ast.Constant) and x.value == 1


def minus(x):
    return isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant) and x.operand.value == 1


class Ordering:
    def __init__(self, prog, rep, table):
        self.prog, self.rep, self.table = prog, rep, table
        self._own, self._defs = {}, {}

    def own(self, f):
        if f.id not in self._own:
            self._own[f.id] = list(ast.walk(f.node))
        return self._own[f.id]

    def defs(self, f, name):
        k = f.id
        if k not in self._defs:
            d = {}
            for n in self.own(f):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            d.setdefault(t.id, []).append(n.value)
            self._defs[k] = d
        return self._defs[k].get(name, [])

    def kinds(self, f, e):
        return self.table.get((f.id, e.id), frozenset())

    def seen(self, what, fn, c, order):
        self.rep.count(what)
        if order == "F":
            self.rep.count("in column-major order")

    def bad(self, fn, c, key, msg):
        self.rep.violation("row-major", "%s|%s|%s" % (fn.f.qual, key, ast.unparse(c)[:60]), msg + ": " + ast.unparse(c)[:90],
                           "%s:%d" % (fn.f.module.rel, c.lineno), fn.f.qual)


def p16(ctx, rep):
    prog = ctx.flat()
    o = Ordering(prog, rep, {})
    for f in prog.all_funcs():
        Function(o, f).run()
    rep.floor("index merges", 60)
    rep.floor("index splits", 30)
    rep.floor("linear index conversions", 3)
    rep.floor("in column-major order", 25)


RULES = {"P16": (p16, """Every operation of the package that merges several indices into one or splits one into several (ravel, flatten,
reshape, ravel_multi_index, unravel_index, meshgrid) is classified by its order and by the layout of its operand, inferred over the
function (a genuine several-axes array, a vector, an axis merged in row-major or column-major order; private helpers are inlined in
their callers).  Linear index conversions are column-major and grids of axes are indexed 'ij'; the order is a constant; several axes are
not merged in row-major order unless every use of the merged value is insensitive to the order of the entries or splits it again in
row-major order; an index is not split in the other order than it was merged in, nor split in row-major order when how it was merged is
unknown (restoring the shape a value had is allowed).""",
                 ["an array is known to have several axes when the function indexes it with several subscripts, reads shape[k>=1], or built it "
                  "with an operation that returns several axes; a row-major merge of an operand of unknown number of axes is not reported",
                  "np.kron and functions named kron keep the numpy convention"])}
TECHNIQUE = {"P16": "layout-type inference (abstract interpretation over merged/split axes) with a classification of every reordering operation"}
NOTE = {"P16": "operands whose number of axes is not evident in the function are given the benefit of the doubt for merges, not for splits"}
