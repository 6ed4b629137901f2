"""What an index designates: inference of the kinds of integers and of the axes of arrays.

An integer is a node (N), an axis of a core (A), a dimension (D) or a level (L), with a constant
offset: positions have offset 0, so that a node number, counted from 1, is (N, 1) and its position
in a per-node array is (N, 0).  An axis of an array is indexed by the positions of one kind.  The
values of one function are inferred flow sensitively from the declared attributes and methods of
the trees and tensors; parameters are solved from the way they are used.
"""
import ast

BOT = ("bot",)
BOOL = ("bool",)
NAMES = {"N": "node", "A": "axis", "D": "dimension", "L": "level"}
NAMES.update({k.lower(): v for k, v in NAMES.items()})


def show(e):
    if e and e[0] in ("num", "count"):
        k, o = e[1], e[2]
        if e[0] == "count":
            return "number of %ss" % NAMES[k] + ("%+d" % o if o else "")
        base = {("N", 1): "a node number", ("N", 0): "a node position", ("A", 1): "a child number", ("A", 0): "an axis"}.get((k, o))
        return base or ("a %s" % NAMES[k] if not o else "a %s position%+d" % (NAMES[k], o))
    return "?"


def sub(k):
    """kind of an axis that goes through some of the positions (or numbers) of a kind, in increasing order"""
    return k.lower() if k else None


class Var:
    def __init__(self, fn, name):
        self.fn, self.name, self.sol, self.some = fn, name, None, False


class V:
    """axes: kinds of the axes (None: rank unknown); elem: what an entry is"""
    __slots__ = ("axes", "elem")

    def __init__(self, axes=None, elem=None):
        self.axes, self.elem = axes, elem

    def __eq__(self, o):
        return isinstance(o, V) and self.axes == o.axes and self.elem == o.elem

    def __hash__(self):
        return hash(self.axes)


class Tup:
    def __init__(self, vs):
        self.vs = list(vs)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.vs == o.vs


TOP = V()


def num(k, o=0):
    return ("num", k, o)


def res(e):
    """an entry, with the parameters that are solved replaced"""
    if isinstance(e, tuple) and e and e[0] == "var" and e[1].sol:
        k, o = e[1].sol
        return ("num", k, o + e[2])
    return e


def scalar(e):
    return V((), e)


def many(e):
    return V((None,), e)


def join_elem(a, b):
    a, b = res(a), res(b)
    if a == b:
        return a
    if a == BOT:
        return b
    if b == BOT:
        return a
    if isinstance(a, V) and isinstance(b, V):
        return join(a, b)
    if isinstance(a, V) or isinstance(b, V) or a is None or b is None:
        return None
    for x, y in ((a, b), (b, a)):
        if x[0] == "const" and y[0] in ("num", "count"):
            return y
        if x[0] == "var" and y[0] in ("num", "count"):
            return y
    return None


def join(a, b):
    if a is None or b is None:
        return a or b
    if isinstance(a, Tup) or isinstance(b, Tup):
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.vs) == len(b.vs):
            return Tup([join(x, y) for x, y in zip(a.vs, b.vs)])
        x = a if isinstance(a, V) else b
        return TOP if isinstance(x, Tup) or x.elem != BOT else (b if x is a else a)
    if a.elem == BOT and a.axes is None:
        return b
    if b.elem == BOT and b.axes is None:
        return a
    ax = None
    if a.axes is not None and b.axes is not None and len(a.axes) == len(b.axes):
        ax = tuple(x if x == y else None for x, y in zip(a.axes, b.axes))
    return V(ax, join_elem(a.elem, b.elem))


def clash(a, b):
    """two integers that designate different things"""
    a, b = res(a), res(b)
    if not (a and b) or isinstance(a, V) or isinstance(b, V) or a[0] != "num" or b[0] != "num":
        return False
    if a[1] != b[1]:
        return True
    return a[1] in "NA" and a[2] != b[2]


# ---------------------------------------------------------------- what the trees and tensors declare
def obj(n):
    return V((), ("obj", n))


NODES = many(num("N", 1))
SORTED = V(("n",), num("N", 1))
TREE, TBT, CORE, TBL = "DimensionTree", "TreeBasedTensor", "core", "TreeBasedTensorLearning"
# attributes whose name belongs to one class only
ANY = {
    "dim2ind": V(("D",), num("N", 1)), "adjacency_matrix": V(("N", "N"), BOOL), "is_leaf": V(("N",), BOOL), "nb_nodes": scalar(("count", "N", 0)),
    "internal_nodes": NODES, "nodes_parent_of_leaves": NODES, "nodes_indices": V(("N",), num("N", 1)), "_children": V(("A", "N"), num("N", 1)),
    "_child_number": V(("N",), num("A", 1)), "_parent": V(("N",), num("N", 1)), "sibling": V((None, "N"), num("N", 1)),
    "is_active_node": V(("N",), BOOL), "active_nodes": SORTED, "non_active_nodes": SORTED, "active_dims": V(("d",), num("D")),
    "non_active_dims": V(("d",), num("D")), "orth_node": scalar(num("N", 1)), "tree": obj(TREE), "tensors": V(("N",), ("obj", CORE)),
    "ranks": V(("N",), None), "_exploration_strategy": V((None,), num("N", 1)), "bases_adaptation_path": V(("D",), None),
}
OF = {
    TREE: {"dims": V(("N",), many(num("D"))), "level": V(("N",), num("L")), "root": scalar(num("N", 1)), "arity": scalar(("count", "A", 0))},
    TBT: {"shape": V(("D",), None), "order": scalar(("count", "D", 0)), "ndim": scalar(("count", "D", 0))},
    CORE: {"shape": V(("A",), None), "order": scalar(("count", "A", 0)), "ndim": scalar(("count", "A", 0))},
    TBL: {"rank": V(("N",), None), "order": scalar(("count", "D", 0)), "linear_model_learning": V(("N",), ("obj", "LinearModelLearning"))},
}
# result and arguments of the methods whose name belongs to one class only
N1, L0, D0, A0 = num("N", 1), num("L"), num("D"), num("A")
CALLS = {
    "children": (V(("A",), N1), [N1]), "child_number": (scalar(num("A", 1)), [N1]), "parent": (scalar(N1), [N1]),
    "ascendants": (NODES, [N1]), "descendants": (NODES, [N1]), "change_root": (None, [N1]), "add_child": (obj(TREE), [N1]),
    "sub_dimension_tree": (Tup([obj(TREE), NODES]), [N1]), "node_with_dims": (NODES, [D0]), "nodes_with_level": (NODES, [L0]),
    "permute_nodes": (obj(TBT), [N1]), "inactivate_nodes": (obj(TBT), [N1]), "activate_nodes": (obj(TBT), [N1]),
    "orth_at_node": (obj(TBT), [N1]), "is_active_dim": (None, [D0]), "gramians": (Tup([V(("N",), None), None]), [N1]),
    "singular_values": (V(("N",), None), []), "eval_diag_below": (V(("N",), ("obj", CORE)), [N1, N1]),
    "eval_diag_above": (V(("N",), ("obj", CORE)), [None, N1]), "parameter_gradient_eval_diag_dmrg": (None, [N1]),
}
METHODS = {
    TBT: {"orth": (obj(TBT), []), "update_attributes": (obj(TBT), []), "change_root": (obj(TBT), [N1]), "eval_at_indices": (None, [None, D0]),
          "eval_diag": (None, [D0]), "tensor_matrix_product": (obj(TBT), [None, D0]), "tensor_vector_product": (None, [None, D0]),
          "tensor_diagonal_matrix_product": (obj(TBT), [None, D0]), "tensor_matrix_product_eval_diag": (None, [None, D0]), "squeeze": (None, [D0]),
          "reduce_sum": (None, [D0]), "tensordot_matrix_product_except_dim": (None, [None, None, D0]),
          "parameter_gradient_eval_diag": (None, [N1])},
    TREE: {"change_root": (Tup([obj(TREE), NODES]), [N1])},
    CORE: {"tensordot": (obj(CORE), [None, A0, A0]), "tensordot_eval_diag": (obj(CORE), [None, A0, A0, A0, A0]),
           "tensor_matrix_product": (obj(CORE), [None, A0]), "tensor_vector_product": (obj(CORE), [None, A0]), "transpose": (obj(CORE), [A0]),
           "itranspose": (obj(CORE), [A0]), "squeeze": (obj(CORE), [A0]), "eval_diag": (obj(CORE), [A0]), "eval_at_indices": (obj(CORE), [None, A0]),
           "cat": (obj(CORE), [None, A0]), "orth": (Tup([obj(CORE), None]), [A0]), "reduce_sum": (obj(CORE), [A0]),
           "tensor_diagonal_matrix_product": (obj(CORE), [None, A0]), "tensordot_matrix_product_except_dim": (None, [None, None, A0])},
}
SAME = {"array", "asarray", "copy", "deepcopy", "atleast_1d", "ravel", "squeeze", "list", "tuple", "int", "int64", "abs", "asanyarray"}
MIXED = {"sort", "unique", "flip", "reversed", "sorted", "set", "flipud", "fliplr", "roll", "fast_unique", }
SETS = {"setdiff1d", "intersect1d", "union1d", "fast_setdiff", "fast_intersect", "fast_union", "setxor1d"}
SORTING = {"fast_intersect", "setdiff1d", "intersect1d", "union1d", "setxor1d"}
CAT = {"concatenate", "hstack", "append", "r_", "vstack", "column_stack"}
MASK = {"logical_not", "logical_and", "logical_or", "isnan", "isfinite", "equal", "not_equal", "greater", "less"}
OWN = {"copy", "astype", "flatten", "tolist", "ravel", "squeeze", "item"}


def fname(c):
    f = c.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""


def lib(c):
    f = c.func
    return isinstance(f, ast.Name) or isinstance(f, ast.Attribute) and isinstance(f.value, (ast.Name, ast.Attribute)) and \
        ast.unparse(f.value) in ("np", "numpy", "copy", "np.random", "tensap", "sc", "scipy", "math")


class Kinds:
    """whole program: signatures and results of the functions, and the conflicts found"""

    def __init__(self, prog):
        self.prog = prog
        self.returns, self.params = {}, {}
        self.found, self.checked = {}, {}
        self.uses = 0
        names = {}
        self.funcs = [f for f in prog.all_funcs()]
        for f in self.funcs:
            names.setdefault(f.node.name, []).append(f)
        self.unique = {n: fs[0] for n, fs in names.items() if len(fs) == 1 and not n.startswith("__")}
        self.vars, self.local = {}, {}
        for _ in range(2):
            self.found, self.checked = {}, {}
            self.per = {}
            for f in self.funcs:
                if getattr(f, "parent", None) is None or not isinstance(getattr(f, "parent", None), (ast.FunctionDef,)):
                    w = Walk(self, f)
                    w.run()

    def var(self, f, name):
        k = (f.loc() if callable(getattr(f, "loc", None)) else id(f), name)
        if k not in self.vars:
            self.vars[k] = Var(f, name)
        return self.vars[k]


class Walk:
    def __init__(self, kinds, f, env=None, outer=None):
        self.k, self.f, self.outer = kinds, f, outer
        self.node = f.node if hasattr(f, "node") else f
        self.env = dict(env or {})
        self.ret = None
        self.cls = None
        g = f
        if hasattr(f, "cls") and f.cls is not None:
            self.cls = f.cls.name
        if outer is not None:
            self.cls = outer.cls
        self.local, self.seen, self.some = {}, {}, 0
        self.where = outer.where if outer is not None else f

    # -------------------------------------------------------------------------------------- running
    def run(self):
        a = self.node.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        for i, p in enumerate(ps):
            if self.outer is None and i == 0 and self.cls and p.arg in ("self", "cls"):
                self.env[p.arg] = obj(self.cls)
            elif p.arg in ("tree",):
                self.env[p.arg] = obj(TREE)
            elif p.arg == "is_active_node":
                self.env[p.arg] = ANY["is_active_node"]
            elif self.outer is None and self.node.name == "__eq__" and self.cls in (TREE, TBT):
                self.env[p.arg] = obj(self.cls)
            else:
                self.env[p.arg] = V(None, ("var", self.k.var(self.node_key(), p.arg), 0))
        sig = None
        if self.outer is None and self.cls in (TREE, TBT):
            sig = METHODS[self.cls].get(self.node.name) or CALLS.get(self.node.name)
        if sig is not None:
            for p, want in zip(ps[1:], sig[1]):
                if want is not None:
                    self.env[p.arg] = V(None, want)
        if a.vararg:
            self.env[a.vararg.arg] = TOP
        if a.kwarg:
            self.env[a.kwarg.arg] = TOP
        self.block(self.node.body)
        for text, us in self.seen.items():
            for e, n in us[1:]:
                self.done("index", n)
                if clash(us[0][0], e):
                    self.bad(n, "%s is read or written at %s in one place and at %s in another" % (text, show(us[0][0]), show(e)))
        for fn in self.local.values():
            w = Walk(self.k, fn, self.env, self)
            w.run()
            self.k.local[id(fn)] = w.solved(w.ret)
        if self.outer is None:
            self.k.returns[(self.cls, self.node.name)] = self.solved(self.ret)
            if self.node.name in self.k.unique:
                self.k.returns[self.node.name] = self.solved(self.ret)

    def node_key(self):
        class K:
            pass
        w = self.where
        k = K()
        t = "%s:%s:%s:%s" % (w.module.name, self.cls, w.node.name, self.node.name)
        k.loc = lambda: t
        return k

    def solved(self, v):
        if isinstance(v, Tup):
            return Tup([self.solved(x) for x in v.vs])
        if v is None:
            return None
        e = res(v.elem)
        if isinstance(e, tuple) and e and (e[0] == "var" or e == ("obj", CORE)):
            e = None
        return V(v.axes, e)

    def block(self, b):
        for s in b:
            if self.stmt(s) is False:
                return False
        return True

    def merge(self, envs):
        out = {}
        for k in set().union(*envs) if envs else ():
            vs = [e[k] for e in envs if k in e]
            v = vs[0]
            for x in vs[1:]:
                v = join(v, x)
            out[k] = v
        return out

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            v = self.arith(s.op, self.ev(s.target), self.ev(s.value), s)
            if isinstance(s.target, ast.Name):
                self.env[s.target.id] = v
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
            self.grown(s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value)
                self.ret = join(self.ret, v) if self.ret is not None else v
                if self.outer is None and self.cls in (TREE, TBT):
                    sig = METHODS[self.cls].get(self.node.name) or CALLS.get(self.node.name)
                    if sig is not None and isinstance(sig[0], V) and isinstance(v, V):
                        a, b = res(sig[0].elem), res(v.elem)
                        if a and b and not isinstance(a, V) and not isinstance(b, V) and a[0] == b[0] == "num":
                            self.done("result", s)
                            if clash(a, b):
                                self.bad(s, "%s returns %s, %s is expected" % (self.node.name, show(b), show(a)))
            return False
        elif isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            if isinstance(s, ast.Raise):
                return False
            self.exits.append(dict(self.env)) if getattr(self, "exits", None) is not None else None
            return False
        elif isinstance(s, ast.If):
            self.ev(s.test)
            e0 = dict(self.env)
            typed = "isinstance" in ast.unparse(s.test)
            self.some += typed
            self.refine(s.test, True)
            a = self.block(s.body)
            ea, self.env = self.env, e0
            self.refine(s.test, False)
            b = self.block(s.orelse)
            self.some -= typed
            eb = self.env
            self.env = self.merge([e for e, ok in ((ea, a), (eb, b)) if ok]) if a or b else ea
            return a or b
        elif isinstance(s, (ast.For, ast.While)):
            old = getattr(self, "exits", None)
            self.exits = []
            for _ in range(4):
                before = dict(self.env)
                if isinstance(s, ast.For):
                    self.assign(s.target, self.item(self.ev(s.iter)), loop=True)
                else:
                    self.ev(s.test)
                self.block(s.body)
                self.env = self.merge([before, self.env] + self.exits)
                self.exits = []
                if self.env == before:
                    break
            self.exits = old
            self.block(s.orelse)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr)
            return self.block(s.body)
        elif isinstance(s, ast.Try):
            e0 = dict(self.env)
            ok = self.block(s.body)
            envs = [self.env] if ok else []
            for h in s.handlers:
                self.env = self.merge([e0, self.env])
                if self.block(h.body):
                    envs.append(self.env)
            self.env = self.merge(envs) if envs else self.env
            self.block(s.finalbody)
            return bool(envs)
        elif isinstance(s, (ast.FunctionDef,)):
            self.local[s.name] = s
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        return True

    def refine(self, t, yes):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(t.operand, not yes)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And if yes else ast.Or):
            for x in t.values:
                self.refine(x, yes)
        if yes and isinstance(t, ast.Call) and fname(t) == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], (ast.Name, ast.Attribute)):
            c = ast.unparse(t.args[1]).rsplit(".", 1)[-1]
            if c in OF or c in METHODS:
                self.env[ast.unparse(t.args[0])] = obj(c)

    def grown(self, c):
        """x.append(v)"""
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.attr == "append" \
                and c.func.value.id in self.env and c.args:
            old, v = self.env[c.func.value.id], self.ev(c.args[0])
            if isinstance(old, V):
                e = v if isinstance(v, V) and v.axes != () else (v.elem if isinstance(v, V) else None)
                self.env[c.func.value.id] = V((None,), join_elem(old.elem, e))

    def assign(self, t, v, loop=False):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.vs if isinstance(v, Tup) and len(v.vs) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, TOP)
                elif vs:
                    self.assign(x, vs[i] if vs[i] is not None else TOP)
                else:
                    self.assign(x, self.item(v) if isinstance(v, V) and (v.axes and len(v.axes) == 1 or v.axes is None) else TOP)
        elif isinstance(t, ast.Attribute):
            d = self.declared(t)
            if d is not None and isinstance(v, V):
                self.stored(d, v, t)
            else:
                self.env[ast.unparse(t)] = v
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            r = self.index(base, t)
            if isinstance(base, V) and isinstance(v, V):
                if isinstance(r, V) and r.axes is None and isinstance(t.value, ast.Name) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
                    w = self.ev(t.slice)
                    if isinstance(w, V) and w.axes and len(w.axes) == 1:
                        r = V(w.axes if res(w.elem) != BOOL else (sub(w.axes[0]),), None)
                if isinstance(r, V) and r.axes and v.axes and len(r.axes) == len(v.axes):
                    for x, y in zip(r.axes, v.axes):
                        if x and y:
                            self.done("align", t)
                            if x.upper() != y.upper():
                                self.bad(t, "%s is written in the order of the %ss with values in the order of the %ss" % (ast.unparse(t), NAMES[x], NAMES[y]))
                self.stored(base, v, t)
                if isinstance(t.value, ast.Name) and t.value.id in self.env:
                    new = v.elem if not isinstance(base.elem, V) and not isinstance(v.elem, V) else None
                    if base.elem == BOT and isinstance(r, V) and r.axes == () and v.axes is not None and v.axes != () and v.elem is not None:
                        new = v
                    self.env[t.value.id] = V(base.axes, join_elem(base.elem, new))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, TOP)

    def stored(self, d, v, n):
        """v is stored where entries of d are expected"""
        a, b = res(d.elem), res(v.elem)
        if isinstance(a, V) and isinstance(b, V):
            a, b = res(a.elem), res(b.elem)
        if a and b and not isinstance(a, V) and not isinstance(b, V):
            if a[0] == "num" and b[0] == "num":
                self.done("store", n)
                if clash(a, b):
                    self.bad(n, "%s is stored among the entries of %s, each of which is %s" % (show(b), ast.unparse(n if isinstance(n, ast.Attribute) else n.value), show(a)))
        if d.axes and v.axes and isinstance(n, ast.Attribute) and len(d.axes) == len(v.axes) == 1:
            x, y = d.axes[0], v.axes[0]
            if x and y and x.upper() != y.upper():
                self.bad(n, "%s is indexed by %ss, not by %ss" % (ast.unparse(n), NAMES[x], NAMES[y]))

    # ------------------------------------------------------------------------------------ reporting
    def done(self, what, n):
        self.k.checked[(what, id(n))] = self.where

    def bad(self, n, msg):
        w = self.where
        key = "%s.%s|%s" % (w.module.name.rsplit(".", 1)[-1], w.qual if hasattr(w, "qual") else w.node.name, msg)
        self.k.found.setdefault(key, (w, n, msg))

    # ------------------------------------------------------------------------------------ expressions
    def item(self, v):
        """an element of an iteration over v"""
        if isinstance(v, Tup):
            out = None
            for x in v.vs:
                out = join(out, x) if out is not None else x
            return out or TOP
        if isinstance(v.elem, tuple) and v.elem and v.elem[0] == "iter":
            return v.elem[1]
        if isinstance(v.elem, V):
            return v.elem
        return V(v.axes[1:] if v.axes else None if v.axes is None else (), v.elem)

    def declared(self, n):
        """declared value of an attribute"""
        r = self.ev(n.value)
        cls = r.elem[1] if isinstance(r, V) and not r.axes and isinstance(r.elem, tuple) and r.elem and r.elem[0] == "obj" else None
        if cls in OF and n.attr in OF[cls]:
            return OF[cls][n.attr]
        if n.attr in ANY and not (cls == "FunctionalBases"):
            return ANY[n.attr]
        return None

    def ev(self, n):
        if n is None:
            return TOP
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            v = m(n)
            return v if v is not None else TOP
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return TOP

    def e_Constant(self, n):
        if n.value is None:
            return V(None, BOT)
        if isinstance(n.value, bool):
            return scalar(BOOL)
        return scalar(("const", n.value)) if isinstance(n.value, int) else scalar(None)

    def e_Name(self, n):
        return self.env.get(n.id, TOP)

    def e_Attribute(self, n):
        d = self.declared(n)
        if d is not None:
            return d
        key = ast.unparse(n)
        if key in self.env:
            return self.env[key]
        r = self.ev(n.value)
        if isinstance(r, V):
            if n.attr == "size" and r.axes and len(r.axes) == 1 and r.axes[0]:
                return scalar(("count", r.axes[0], 0))
            if n.attr == "shape" and r.axes is not None and r.axes:
                return Tup([scalar(("count", x, 0)) if x and x.isupper() else scalar(None) for x in r.axes])
            if n.attr == "T":
                return V(r.axes[::-1] if r.axes else None, r.elem)
        if n.attr in ("tensor",):
            return V(None, None)
        return TOP

    def e_IfExp(self, n):
        self.ev(n.test)
        return join(self.ev(n.body), self.ev(n.orelse))

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_Starred(self, n):
        self.ev(n.value)
        return TOP

    def e_Tuple(self, n):
        vs = [self.ev(x) for x in n.elts]
        return Tup(vs) if not any(isinstance(x, ast.Starred) for x in n.elts) else TOP

    def e_List(self, n):
        if not n.elts:
            return V((None,), BOT)
        if any(isinstance(x, ast.Starred) for x in n.elts):
            for x in n.elts:
                self.ev(x)
            return V((None,), None)
        e = BOT
        for x in n.elts:
            v = self.ev(x)
            e = join_elem(e, (v if v.axes not in ((), None) else v.elem) if isinstance(v, V) else None)
        return V((None,), e)

    e_Set = e_List

    def e_Lambda(self, n):
        old = dict(self.env)
        for p in n.args.args:
            self.env[p.arg] = TOP
        self.ev(n.body)
        self.env = old
        return TOP

    def comp(self, n, elt):
        old = dict(self.env)
        ax = None
        for i, g in enumerate(n.generators):
            it = self.ev(g.iter)
            if i == 0 and len(n.generators) == 1 and not g.ifs:
                ax = self.span(it, g.iter)
            self.assign(g.target, self.item(it))
            for c in g.ifs:
                self.ev(c)
        v = self.ev(elt)
        for k in list(self.env):
            if k not in old:
                del self.env[k]
        self.env.update(old)
        e = v if isinstance(v, V) and v.axes is not None and v.axes != () else v.elem if isinstance(v, V) else None
        if isinstance(v, V) and v.axes is None and v.elem is not None and not isinstance(v.elem, V):
            e = v.elem if v.elem[0] in ("num", "obj", "bool", "const", "count") else None
        return V((ax,), e)

    def span(self, it, n):
        """kind of the positions of an iteration that goes through all of them, in order"""
        if isinstance(it, V) and it.axes and it.axes[0]:
            return it.axes[0]
        return None

    def e_ListComp(self, n):
        return self.comp(n, n.elt)

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, n):
        self.comp(n, n.value)
        return TOP

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if not isinstance(v, V):
            return TOP
        if isinstance(n.op, ast.USub) and isinstance(v.elem, tuple) and v.elem and v.elem[0] == "const":
            return V(v.axes, ("const", -v.elem[1]))
        if isinstance(n.op, (ast.Not, ast.Invert)):
            return V(v.axes, BOOL)
        return V(v.axes, None)

    def e_BoolOp(self, n):
        for x in n.values:
            self.ev(x)
        return scalar(BOOL)

    def aligned(self, a, b, n):
        """elementwise operation: the axes of both operands are the same"""
        if isinstance(a, V) and isinstance(b, V) and a.axes and b.axes and len(a.axes) == len(b.axes):
            for x, y in zip(a.axes, b.axes):
                if x and y and x.isupper() and y.isupper():
                    self.done("align", n)
                    if x != y:
                        self.bad(n, "an array indexed by %ss is combined entry by entry with one indexed by %ss" % (NAMES[x], NAMES[y]))
            return tuple(x or y for x, y in zip(a.axes, b.axes))
        if isinstance(a, V) and isinstance(b, V):
            if a.axes == () or a.axes is None and b.axes and len(b.axes) == 1:
                return b.axes
            if b.axes == () or b.axes is None and a.axes and len(a.axes) == 1:
                return a.axes
        return None

    def e_Compare(self, n):
        l = self.ev(n.left)
        ax = None
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c)
            if isinstance(l, V) and isinstance(r, V):
                if isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
                    self.same(l, r, n, "compared with")
                if not isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
                    ax = self.aligned(l, r, n)
            else:
                ax = None
            l = r
        return V(ax, BOOL)

    def same(self, a, b, n, verb):
        x, y = res(a.elem), res(b.elem)
        if x and y and not isinstance(x, V) and not isinstance(y, V) and x[0] == "num" and y[0] == "num":
            self.done("mix", n)
            if clash(x, y):
                self.bad(n, "%s is %s %s: %s" % (show(x), verb, show(y), ast.unparse(n)))

    def e_BinOp(self, n):
        return self.arith(n.op, self.ev(n.left), self.ev(n.right), n)

    def arith(self, op, a, b, n):
        if not (isinstance(a, V) and isinstance(b, V)):
            return TOP
        ea, eb = res(a.elem), res(b.elem)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):       # [None] * number of nodes
                if x.axes == (None,) and isinstance(y.elem, tuple) and y.elem and y.elem[0] == "count" and isinstance(n, ast.BinOp):
                    l = n.left if x is a else n.right
                    if isinstance(l, ast.List):
                        return V((y.elem[1],), x.elem)
                if x.axes == (None,) and isinstance(y.elem, tuple) and y.elem and y.elem[0] == "const" and isinstance(n, ast.BinOp) \
                        and isinstance(n.left if x is a else n.right, ast.List):
                    return V((None,), x.elem)
        ax = self.aligned(a, b, n)
        if isinstance(op, ast.Add) and isinstance(n, ast.BinOp) and (isinstance(n.left, ast.List) or isinstance(n.right, ast.List)):
            return V((None,), join_elem(ea, eb))
        if isinstance(ea, V) or isinstance(eb, V):
            return V(ax, None)
        if isinstance(op, (ast.Add, ast.Sub)) and ea and eb:
            s = 1 if isinstance(op, ast.Add) else -1
            if ea[0] in ("num", "count", "var") and eb[0] == "const":
                return V(a.axes if b.axes == () else ax, (ea[0], ea[1], ea[2] + s * eb[1]))
            if eb[0] in ("num", "count", "var") and ea[0] == "const" and s == 1:
                return V(b.axes if a.axes == () else ax, (eb[0], eb[1], eb[2] + ea[1]))
            if ea[0] == eb[0] == "const":
                return V(ax, ("const", ea[1] + s * eb[1]))
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            return V(ax, BOOL if ea == BOOL and eb == BOOL else None)
        return V(ax, None)

    # ------------------------------------------------------------------------------------ subscripts
    def e_Subscript(self, n):
        return self.index(self.ev(n.value), n)

    def at(self, kind, v, n, text, base=None):
        """an axis of this kind is indexed by v"""
        e = res(v.elem)
        if e is None or isinstance(e, V):
            return
        if e == BOOL:
            if v.axes and v.axes[0] and kind:
                self.done("mask", n)
                if v.axes[0].upper() != kind.upper():
                    self.bad(n, "%s is indexed by %ss and masked by an array indexed by %ss" % (text, NAMES[kind], NAMES[v.axes[0]]))
            return
        if kind is not None and kind.islower():
            return
        if kind is None:
            if e[0] == "num" and base is not None and base.axes is None:
                self.seen.setdefault(text, []).append((e, n))
            return
        if e[0] == "count" and e[1] == kind and e[2] >= 0:
            self.bad(n, "%s is read or written past its last entry, at the %s" % (text, show(e)))
        if e[0] == "var":
            var, off = e[1], e[2]
            var.some = var.some or var.sol is None and self.some > 0
            var.sol = (kind, -off)
            self.done("index", n)
            return
        if e[0] == "num":
            self.done("index", n)
            if e[1] != kind or (kind in "NA" and e[2] != 0):
                self.bad(n, "%s is indexed by %s positions and read or written at %s" % (text, NAMES[kind], show(e)))

    def index(self, base, n):
        s = n.slice
        text = ast.unparse(n.value)
        if isinstance(base, Tup):
            self.ev(s)
            if isinstance(s, ast.Constant) and isinstance(s.value, int) and -len(base.vs) <= s.value < len(base.vs):
                return base.vs[s.value] or TOP
            return TOP
        if isinstance(s, ast.Tuple):
            axes = list(base.axes) if base.axes is not None else None
            out, rank = [], 0
            known = axes is not None
            for x in s.elts:
                if isinstance(x, ast.Constant) and x.value is None or ast.unparse(x) in ("np.newaxis", "numpy.newaxis"):
                    out.append(None)
                    continue
                if isinstance(x, ast.Constant) and x.value is Ellipsis:
                    known = False
                    continue
                kind = axes[rank] if known and rank < len(axes) else None
                rank += 1
                if isinstance(x, ast.Slice):
                    self.slice(x, kind, n, text)
                    out.append(kind if x.lower is None and x.upper is None and x.step is None else None)
                else:
                    v = self.ev(x)
                    if isinstance(v, V):
                        self.at(kind, v, n, text)
                        if v.axes is None:
                            known = False
                        elif v.axes != ():
                            out.append(v.axes[0] if res(v.elem) != BOOL else sub(v.axes[0] or kind))
                    else:
                        known = False
            if known and base.axes is not None:
                rest = [x for x in out] + axes[rank:]
                return V(tuple(rest), base.elem)
            return V(None, base.elem if not isinstance(base.elem, V) else None)
        if isinstance(s, ast.Slice):
            kind = base.axes[0] if base.axes else None
            self.slice(s, kind, n, text)
            full = s.lower is None and s.upper is None and s.step is None
            if base.axes:
                return V(((kind if full else None),) + tuple(base.axes[1:]), base.elem)
            return V(base.axes, base.elem)
        v = self.ev(s)
        if not isinstance(v, V):
            return V(None, None)
        kind = base.axes[0] if base.axes else None
        self.at(kind, v, n, text, base)
        if isinstance(base.elem, V):
            if v.axes == () or v.axes is None and res(v.elem) != BOOL:
                return base.elem
            return V((v.axes[0] if v.axes and res(v.elem) != BOOL else sub(v.axes[0] if v.axes else kind),), base.elem)
        if base.axes is None:
            return V(None, base.elem)
        rest = tuple(base.axes[1:])
        if v.axes is None:
            return V(None, base.elem)
        if v.axes == ():
            return V(rest, base.elem)
        return V(((v.axes[0] if res(v.elem) != BOOL else sub(v.axes[0] or kind)),) + rest, base.elem)

    def slice(self, s, kind, n, text):
        for x in (s.lower, s.upper, s.step):
            if x is not None:
                self.ev(x)

    # ----------------------------------------------------------------------------------------- calls
    def arg(self, v, want, c):
        """an argument for which `want` is expected"""
        if want is None or not isinstance(v, V):
            return
        e = res(v.elem)
        if isinstance(e, V):
            e = res(e.elem)
        if not e or isinstance(e, V):
            return
        if e[0] == "var":
            e[1].some = e[1].some or e[1].sol is None and self.some > 0
            e[1].sol = (want[1], want[2] - e[2])
            self.done("argument", c)
        elif e[0] == "count" and e[1] == want[1] and e[2] >= 0 and want[2] == 0:
            self.bad(c, "%s is given to %s, which takes %s" % (show(e), fname(c), show(want)))
        elif e[0] == "num":
            self.done("argument", c)
            if e[1] != want[1] or (want[1] in "NA" and e[2] != want[2]):
                self.bad(c, "%s is given to %s, which takes %s" % (show(e), fname(c), show(want)))

    def e_Call(self, c):
        n = fname(c)
        args = [self.ev(a) for a in c.args]
        kw = {k.arg: self.ev(k.value) for k in c.keywords}
        recv = None
        if isinstance(c.func, ast.Attribute):
            recv = self.ev(c.func.value)
        elif not isinstance(c.func, ast.Name):
            self.ev(c.func)
        if n == "reduce" and len(args) >= 2 and isinstance(args[1], Tup):
            c2 = ast.Call(func=c.args[0], args=c.args[1].elts if isinstance(c.args[1], (ast.Tuple, ast.List)) else [], keywords=[])
            if fname(c2) in SETS:
                vs = args[1].vs
                out = vs[0]
                for x in vs[1:]:
                    if isinstance(x, V) and isinstance(out, V):
                        self.same(out, x, c, "mixed with")
                        out = V((None,), join_elem(out.elem, x.elem) or out.elem)
                return out
        a0 = args[0] if args else TOP
        if lib(c) and not (isinstance(c.func, ast.Name) and (c.func.id in self.local)):
            r = self.library(c, n, args, kw)
            if r is not None:
                return r
        if isinstance(recv, V) and not lib(c):
            if n in OWN:
                return recv
            if n in ("nonzero",):
                return self.nonzero(recv)
            if n in ("max", "min") and not args and not kw:
                return scalar(res(recv.elem)) if not isinstance(recv.elem, V) else TOP
            if n in ("argmax", "argmin") and recv.axes and len(recv.axes) == 1 and recv.axes[0] and recv.axes[0].isupper():
                return scalar(num(recv.axes[0]))
        cls = None
        if isinstance(recv, V) and not recv.axes and isinstance(recv.elem, tuple) and recv.elem and recv.elem[0] == "obj":
            cls = recv.elem[1]
        sig = METHODS.get(cls, {}).get(n) if cls else None
        if sig is None and n in CALLS and recv is not None:
            sig = CALLS[n]
        if sig is not None:
            for v, want in zip(args, sig[1]):
                self.arg(v, want, c)
            return self.fill(sig[0])
        if recv is not None and n in METHODS[CORE] and not lib(c):
            # whatever the receiver, a node or a child number is no axis; the axes of the other operand of a product are those of a core
            core = isinstance(a0, V) and not a0.axes and a0.elem == ("obj", CORE)
            for i, (v, want) in enumerate(zip(args, METHODS[CORE][n][1])):
                e = res(v.elem) if isinstance(v, V) else None
                if isinstance(e, V):
                    e = res(e.elem)
                if want and e and not isinstance(e, V) and e[0] == "num":
                    self.done("argument", c)
                    if e[1] == "N" or e[1] == "A" and e[2] != 0 or core and i in (2, 4) and e[1] != "A":
                        self.bad(c, "%s is given to %s, which takes %s" % (show(e), n, show(want)))
            return TOP
        if isinstance(c.func, ast.Name) and c.func.id in self.local or self.outer is not None and isinstance(c.func, ast.Name) and \
                c.func.id in self.outer.local:
            fn = self.local.get(n) or self.outer.local.get(n)
            self.given(fn, "%s:%s:%s:%s" % (self.where.module.name, self.cls, self.where.node.name, fn.name), fn.args.args, args, kw, c)
            return self.k.local.get(id(fn)) or TOP
        f = self.k.unique.get(n)
        if f is not None and (recv is not None and not lib(c) or isinstance(c.func, ast.Name)):
            ps = f.node.args.posonlyargs + f.node.args.args
            if f.cls is not None and ps and ps[0].arg in ("self", "cls"):
                ps = ps[1:]
            self.given(f.node, "%s:%s:%s:%s" % (f.module.name, f.cls.name if f.cls else None, f.node.name, f.node.name), ps, args, kw, c)
            r = self.k.returns.get(n)
            if r is not None:
                return r
        if cls and cls in getattr(self.k.prog, "classes", {}):
            m = self.k.prog.cls(cls).lookup(n)
            if m is not None and m.cls is not None:
                r = self.k.returns.get((m.cls.name, n))
                if r is not None:
                    return r
        if n in ("TreeBasedTensor",):
            return obj(TBT)
        if n == "DimensionTree":
            for v, d in zip(args, (ANY["dim2ind"], ANY["adjacency_matrix"])):
                if isinstance(v, V):
                    e, w = res(v.elem), d.elem
                    if e and not isinstance(e, V) and e[0] == "num" and w[0] == "num":
                        self.done("argument", c)
                        if clash(e, w):
                            self.bad(c, "%s is given to DimensionTree where %s is expected" % (show(e), show(w)))
            return obj(TREE)
        if isinstance(c.func, ast.Attribute):
            t = ast.unparse(c.func.value).rsplit(".", 1)[-1]
            if t == "TreeBasedTensor":
                return obj(TBT)
            if t == "DimensionTree":
                return obj(TREE)
        if n == "FullTensor":
            return V((), ("obj", "FullTensor"))
        return TOP

    def fill(self, r):
        if isinstance(r, Tup):
            return Tup([x or TOP for x in r.vs])
        return r or TOP

    def given(self, fn, key, ps, args, kw, c):
        for i, p in enumerate(ps):
            v = args[i] if i < len(args) else kw.get(p.arg)
            var = self.k.vars.get((key, p.arg))
            if v is not None and var is not None and var.sol and not var.some and not any(isinstance(x, ast.Starred) for x in c.args):
                if isinstance(v, V) and isinstance(res(v.elem), tuple) and res(v.elem) and res(v.elem)[0] == "var" and res(v.elem)[1] is var:
                    continue
                self.arg(v, ("num", var.sol[0], var.sol[1]), c)

    def order_of(self, v):
        """axis of the increasing enumeration of integers"""
        e = res(v.elem)
        return sub(e[1]) if e and not isinstance(e, V) and e[0] == "num" else None

    def nonzero(self, v):
        if v.axes and len(v.axes) == 1:
            k = v.axes[0]
            return Tup([V((sub(k),), num(k) if k and k.isupper() else None)])
        if v.axes:
            return Tup([V((None,), num(k) if k and k.isupper() else None) for k in v.axes])
        return V((None,), V((None,), None))

    def library(self, c, n, args, kw):
        a0 = args[0] if args else TOP
        one = isinstance(a0, V)
        if n in ("range", "arange"):
            return self.range(args, c)
        if n in SAME and args:
            if isinstance(a0, Tup):
                out = BOT
                for x in a0.vs:
                    out = join_elem(out, (x.elem if x.axes == () else x) if isinstance(x, V) else None)
                return V((None,), out)
            if n in ("array", "asarray") and a0.axes == (None,) and isinstance(a0.elem, V):
                return V((None,) + a0.elem.axes, a0.elem.elem) if a0.elem.axes is not None and not isinstance(a0.elem.elem, V) else a0
            return a0
        if n in ("unique", "sort", "sorted") and one and self.order_of(a0):
            return V((self.order_of(a0),), a0.elem)
        if n in MIXED and one:
            return V((None,) if a0.axes is None or len(a0.axes) == 1 else None, a0.elem)
        if n in SETS and len(args) >= 2 and all(isinstance(x, V) for x in args[:2]):
            self.same(args[0], args[1], c, "mixed with")
            r = V((None,), join_elem(args[0].elem, args[1].elem) or args[0].elem)
            if n in SORTING and not kw:
                r.axes = (self.order_of(r),)
            elif n == "fast_setdiff" and args[0].axes and len(args[0].axes) == 1:
                r.axes = (sub(args[0].axes[0]),)
            return Tup([r, TOP, TOP]) if "return_indices" in kw else r
        if n in CAT and args:
            vs = a0.vs if isinstance(a0, Tup) else None
            if n == "append":
                vs = args[:2]
            if vs is None:
                if one and isinstance(a0.elem, V):
                    return V((None,), a0.elem.elem)
                return V((None,) if one and a0.axes == (None,) else None, a0.elem if one and a0.axes == (None,) else None)
            e = BOT
            known = [x for x in vs if isinstance(x, V)]
            for i, x in enumerate(known):
                for y in known[:i]:
                    self.same(y, x, c, "joined with")
            for x in vs:
                e = join_elem(e, x.elem if isinstance(x, V) else None)
            return V((None,), e)
        if n in ("isin", "in1d") and len(args) == 2 and all(isinstance(x, V) for x in args):
            self.same(args[0], args[1], c, "looked up among")
            return V(args[0].axes, BOOL)
        if n in ("nonzero", "where", "flatnonzero") and len(args) == 1:
            if not one:
                return TOP
            r = self.nonzero(a0)
            return (r.vs[0] if isinstance(r, Tup) and len(r.vs) == 1 else TOP) if n == "flatnonzero" else r
        if n == "where" and len(args) == 3:
            return V(None, join_elem(args[1].elem, args[2].elem) if all(isinstance(x, V) for x in args) else None)
        if n in ("zeros", "ones", "empty", "full") and args:
            ax = self.shape(args[0], c.args[0])
            e = BOT if n in ("zeros", "empty") else ("const", 1) if n == "ones" else args[1].elem if len(args) > 1 and isinstance(args[1], V) else None
            if n == "full" and ax is not None and isinstance(e, V):
                e = None
            return V(ax, e if not (n == "zeros" and "dtype" in kw and "bool" in ast.unparse(c)) else BOOL)
        if n in ("zeros_like", "ones_like", "empty_like", "full_like") and one:
            e = BOT if n != "full_like" and n != "ones_like" else None
            return V(a0.axes, e)
        if n == "repeat" and len(args) == 2 and one and a0.axes == () and isinstance(args[1], V):
            e = res(args[1].elem)
            return V((e[1] if e and not isinstance(e, V) and e[0] == "count" else None,), a0.elem)
        if n in MASK and one:
            ax = a0.axes
            if len(args) > 1 and isinstance(args[1], V):
                ax = self.aligned(a0, args[1], c)
            return V(ax, BOOL)
        if n in ("max", "min", "amax", "amin") and one and (isinstance(c.func, ast.Attribute) or len(args) == 1) and "axis" not in kw and len(args) == 1:
            return scalar(res(a0.elem)) if not isinstance(a0.elem, V) else TOP
        if n in ("argmax", "argmin", "nanargmax", "nanargmin") and one and "axis" not in kw and len(args) == 1:
            return scalar(num(a0.axes[0])) if a0.axes and len(a0.axes) == 1 and a0.axes[0] and a0.axes[0].isupper() else TOP
        if n in ("permutation", "randint", "choice") and one:
            e = res(a0.elem)
            k = e[1] if e and not isinstance(e, V) and e[0] == "count" else None
            if k:
                return V((None,) if n == "permutation" or len(args) + len(kw) > 1 else (), num(k))
            return V((None,), a0.elem) if n != "randint" else TOP
        if n == "argsort" and one:
            return V((None,), num(a0.axes[0]) if a0.axes and len(a0.axes) == 1 and a0.axes[0] and a0.axes[0].isupper() else None)
        if n in ("len", "size") and one:
            if a0.axes and a0.axes[0] and a0.axes[0].isupper() and (n == "len" or len(a0.axes) == 1):
                return scalar(("count", a0.axes[0], 0))
            return scalar(None)
        if n == "enumerate":
            it = self.item(a0)
            k = self.span(a0, None)
            k = k if k and k.isupper() else None
            return V((k,), ("iter", Tup([scalar(num(k)) if k else scalar(None), it])))
        if n == "zip":
            ks = [self.span(x, None) for x in args]
            return V(((ks[0] if ks and all(k == ks[0] for k in ks) else None),), ("iter", Tup([self.item(x) for x in args])))
        if n in ("any", "all", "array_equal", "allclose"):
            return scalar(BOOL)
        if n in ("prod", "sum", "float", "str", "print", "isinstance", "hasattr", "count_nonzero", "mean", "norm"):
            return scalar(None)
        return None

    def shape(self, v, n):
        """axes of an array created with this shape"""
        if isinstance(v, Tup):
            out = []
            for x in v.vs:
                e = res(x.elem) if isinstance(x, V) else None
                out.append(e[1] if e and not isinstance(e, V) and e[0] == "count" else None)
            return tuple(out)
        if isinstance(v, V) and v.axes == ():
            e = res(v.elem)
            return (e[1],) if e and not isinstance(e, V) and e[0] == "count" else (None,)
        if isinstance(n, (ast.List,)) and isinstance(v, V):
            out = []
            for x in n.elts:
                w = self.ev(x)
                e = res(w.elem) if isinstance(w, V) else None
                out.append(e[1] if e and not isinstance(e, V) and e[0] == "count" else None)
            return tuple(out)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and isinstance(n.left, ast.List) and isinstance(n.right, ast.Constant):
            e = res(v.elem) if isinstance(v, V) else None
            k = e[1] if e and not isinstance(e, V) and e[0] == "count" else None
            return (k,) * n.right.value if isinstance(n.right.value, int) else None
        return None

    def range(self, args, c):
        vs = [res(a.elem) if isinstance(a, V) and a.axes in ((), None) and not isinstance(a.elem, V) else None for a in args]
        if not vs or any(v is None for v in vs[:2]):
            known = [v for v in vs[:2] if v and v[0] == "num"]
            return V((None,), num(known[0][1], known[0][2]) if known and known[0][1] in "LD" else None)
        start, end = (("const", 0), vs[0]) if len(vs) == 1 else (vs[0], vs[1])
        step = vs[2] if len(vs) > 2 else ("const", 1)
        for x, y in ((start, end), (end, start)):
            if x[0] == "count" and x[1] == "N" and y[0] == "const" and step[0] == "const" and abs(step[1]) == 1:
                self.done("enumeration", c)
                ok = ((0, 0), (1, 1)) if x is end else ((0, 0), (-1, -1))
                if (y[1], x[2]) not in ok:
                    self.bad(c, "%s enumerates neither the numbers of all nodes nor their positions" % ast.unparse(c))
        if end[0] == "count" and start[0] == "const":
            k = end[1]
            if start[1] == 0:
                return V((k if end[2] == 0 and len(vs) < 3 else None,), num(k))
            if k in "NA":
                return V((None,), num(k, 1) if start[1] == 1 and end[2] == 1 else None)
            return V((None,), num(k))
        if start[0] == "count":
            k = start[1]
            if k in "NA":
                o = start[2] + 1 if end[0] != "const" or end[1] == start[2] else None
                if end[0] == "const" and start[2] == 0 and end[1] == 0:
                    return V((None,), num(k, 1))
                if end[0] == "const" and start[2] == -1 and end[1] == -1:
                    return V((None,), num(k))
                return V((None,), None)
            return V((None,), num(k))
        for v in (start, end):
            if v[0] == "num":
                if v[1] == "N" or v[1] == "A":
                    return V((None,), num(v[1], v[2]) if v is start else None)
                return V((None,), num(v[1]))
        return V((None,), None)
