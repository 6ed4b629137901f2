"""P21: equality compares everything that defines an object, and nothing of another type compares equal."""
import ast

E = frozenset()
SHAPE = {"len", "np.size", "np.shape", "np.ndim"}
SHAPEATTR = {"shape", "size", "ndim", "order", "nb_nodes"}
SHAPEMETH = {"cardinal", "length", "ndim", "size"}
EXACT = {"np.array_equal", "numpy.array_equal", "np.array_equiv", "np.allclose", "operator.eq"}
CAP = 3000


# classes whose computed fields determine what they were computed from: the dimensions of the nodes
# of a tree, level by level, are the tree; elsewhere a computed field does not stand for its sources
DERIVED = {"DimensionTree"}


class V:
    """taint of a value: ('s'|'o', field) pairs; whole objects; tuple of parts"""
    __slots__ = ("d", "whole", "fixed", "const", "elts")

    def __init__(self, d=E, whole=E, fixed=False, const=None, elts=None):
        self.d, self.whole, self.fixed, self.const, self.elts = d, whole, fixed, const, elts


class St:
    __slots__ = ("env", "cover", "guard", "known", "shapes", "warn")

    def __init__(self):
        self.env, self.cover, self.guard, self.known, self.shapes, self.warn = {}, E, False, {}, E, E

    def copy(self):
        s = St()
        s.env, s.cover, s.guard, s.known, s.shapes, s.warn = dict(self.env), self.cover, self.guard, dict(self.known), self.shapes, self.warn
        return s


class TooMany(Exception):
    pass


MUT = {"append", "extend", "insert", "add", "update", "put", "fill", "setdefault"}


def tainted(t):
    """local names whose content an assignment to t changes"""
    if isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from tainted(x)
        return
    while isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
        t = t.value
    if isinstance(t, ast.Name):
        yield t.id


def positions(t, src):
    """what the positions written by an assignment come from"""
    out = set()
    for x in ast.walk(t):
        if isinstance(x, ast.Subscript):
            out |= src(x.slice)
    return out


def helpers(m, me):
    """module functions that the object `me` is handed to: [(function, position)]"""
    out = []
    for n in ast.walk(m.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            g = m.module.functions.get(n.func.id)
            if g is not None and g is not m:
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Name) and a.id == me and i < len(g.params):
                        out.append((g, i))
    return out


class Fields:
    """what the methods of a class read, and which fields are computed from which"""

    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls
        self.memo = {}
        self.anc = {}
        self.assigned = set()
        for c in cls.mro:
            for m in c.methods.values():
                self.scan(m)
        changed = True
        while changed:
            changed = False
            for f in list(self.anc):
                for g in list(self.anc[f]):
                    new = self.anc.get(g, set()) - self.anc[f]
                    if new:
                        self.anc[f] |= new
                        changed = True

    def scan(self, m, me=None, seen=()):
        if not m.params or m.id in seen:
            return
        me = me or m.params[0]
        for g, i in helpers(m, me):
            self.scan(g, g.params[i], seen + (m.id,))
        loc = {}
        assigns = []
        for n in ast.walk(m.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    assigns.append((t, n.value))
            elif isinstance(n, ast.For):
                assigns.append((n.target, n.iter))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                assigns += [(n.func.value, a) for a in n.args]

        def src(e):
            out = set()
            for x in ast.walk(e):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                    t = self.cls.lookup(x.attr)
                    if t is None:
                        out.add(x.attr)
                    elif t is not m:
                        out |= self.reads(t)
                elif isinstance(x, ast.Name) and x.id in loc:
                    out |= loc[x.id]
            return out
        for _ in range(3):
            for t, v in assigns:
                s = src(v) | positions(t, src)
                for x in tainted(t):
                    if x != me:
                        loc.setdefault(x, set()).update(s)
        for t, v in assigns:
            for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                while isinstance(x, ast.Subscript):
                    x = x.value
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                    self.assigned.add(x.attr)
                    self.anc.setdefault(x.attr, set()).update(src(v) - {x.attr})

    def reads(self, m, depth=0):
        """fields a method reads, through the methods it calls on self"""
        if m.id in self.memo:
            return self.memo[m.id]
        self.memo[m.id] = set()
        out = set()
        if m.params and m.kind in ("method", "property", "func") or m.is_property:
            me = m.params[0] if m.params else None
            out |= self.helper_reads(m, me)
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Load):
                    t = self.cls.lookup(x.attr)
                    if t is None:
                        out.add(x.attr)
                    elif t is not m:
                        out |= self.reads(t, depth + 1)
        self.memo[m.id] = out
        return out

    def helper_reads(self, m, me, seen=()):
        """fields read by the functions an object is handed to"""
        out = set()
        for g, i in helpers(m, me):
            if g.id in seen:
                continue
            p = g.params[i]
            for x in ast.walk(g.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == p and isinstance(x.ctx, ast.Load):
                    t = self.cls.lookup(x.attr)
                    out |= {x.attr} if t is None else self.reads(t)
            out |= self.helper_reads(g, p, seen + (g.id,))
        return out

    def full(self, fields):
        out = set(fields)
        for f in fields if self.cls.name in DERIVED else ():
            out |= self.anc.get(f, set())
        return out


def width(f, seen=()):
    """number of values a function always returns as a tuple, or None"""
    if f.id in seen:
        return None
    rets = [n for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None]

    def of(e, depth=0):
        if isinstance(e, ast.Tuple):
            return None if any(isinstance(x, ast.Starred) for x in e.elts) else len(e.elts)
        if isinstance(e, ast.Name) and depth < 4:
            vs = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign)
                  for t in n.targets if isinstance(t, ast.Name) and t.id == e.id]
            ws = {of(v, depth + 1) for v in vs}
            return ws.pop() if len(ws) == 1 else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in f.module.functions:
            return width(f.module.functions[e.func.id], seen + (f.id,))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and f.cls is not None and f.params \
                and isinstance(e.func.value, ast.Name) and e.func.value.id == f.params[0]:
            t = f.cls.lookup(e.func.attr)
            return width(t, seen + (f.id,)) if t is not None else None
        return None
    ws = {of(n.value) for n in rets}
    return ws.pop() if len(ws) == 1 else None


def stub(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


class EqEval:
    """enumerates the paths of an __eq__ body on its boolean skeleton"""

    def __init__(self, prog, cls, flds, f):
        self.prog, self.cls, self.flds, self.f = prog, cls, flds, f
        self.unguarded = []
        self.broadcast = []
        self.n = 0
        self.depth = 0

    # -- taint ---------------------------------------------------------------------
    def val(self, e, st):
        if e is None or isinstance(e, ast.Constant):
            return V(const=e)
        if isinstance(e, ast.Name):
            return st.env.get(e.id, V())
        if isinstance(e, ast.Attribute):
            b = self.val(e.value, st)
            if b.whole:
                d = set(b.d)
                for w in b.whole:
                    if w == "o" and not st.guard and e.attr not in ("__class__", "__dict__"):
                        self.unguarded.append(e)
                    t = self.cls.lookup(e.attr)
                    fs = {e.attr} if t is None else self.flds.reads(t)
                    if e.attr not in ("__class__",):
                        d |= {(w, x) for x in self.flds.full(fs)}
                    if e.attr == "__dict__":
                        d |= {(w, x) for x in self.flds.assigned}
                return V(frozenset(d))
            return V(b.d)
        if isinstance(e, ast.Call):
            return self.call_val(e, st)
        if isinstance(e, (ast.Tuple, ast.List)):
            vs = [self.val(x, st) for x in e.elts]
            return V(frozenset().union(E, *[x.d for x in vs]), frozenset().union(E, *[x.whole for x in vs]) and E, True, None, vs)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            s2 = self.comp_env(e, st)
            if isinstance(e, ast.DictComp):
                return V(self.val(e.key, s2).d | self.val(e.value, s2).d)
            r = self.val(e.elt, s2)
            g = frozenset().union(E, *[self.val(c.iter, s2).d for c in e.generators])
            return V(r.d | g)
        if isinstance(e, ast.Lambda):
            return V()
        d, w = set(), set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                v = self.val(c, st)
                d |= v.d
                if isinstance(e, (ast.IfExp, ast.NamedExpr, ast.Starred)):
                    w |= v.whole
            elif isinstance(c, ast.Slice):
                for x in (c.lower, c.upper, c.step):
                    if x is not None:
                        d |= self.val(x, st).d
        return V(frozenset(d), frozenset(w))

    def comp_env(self, e, st):
        s2 = st.copy()
        for g in e.generators:
            it = self.val(g.iter, s2)
            self.bind(g.target, it, g.iter, s2)
        return s2

    def bind(self, t, v, src, st, elem=True):
        """target of a loop over src (elem) or of an assignment"""
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = None
            if elem and isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == "zip" and len(src.args) == len(t.elts):
                parts = [self.val(a, st) for a in src.args]
            elif elem and isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == "enumerate" and len(t.elts) == 2 and src.args:
                self.bind(t.elts[0], V(), None, st)
                self.bind(t.elts[1], self.val(src.args[0], st), src.args[0], st)
                return
            elif not elem and v.elts is not None and len(v.elts) == len(t.elts):
                parts = v.elts
            for i, x in enumerate(t.elts):
                self.bind(x, V(parts[i].d) if parts and elem else parts[i] if parts else V(v.d), None, st, elem)
        elif isinstance(t, ast.Name):
            st.env[t.id] = v if not elem else V(v.d)

    def call_val(self, e, st):
        fn = ast.unparse(e.func)
        args = [self.val(a, st) for a in e.args] + [self.val(k.value, st) for k in e.keywords]
        d = frozenset().union(E, *[a.d for a in args])
        whole = frozenset().union(E, *[a.whole for a in args])
        if fn in ("isinstance", "type", "issubclass", "hasattr", "id"):
            return V(d)
        if isinstance(e.func, ast.Attribute):
            b = self.val(e.func.value, st)
            if b.whole:
                for w in b.whole:
                    t = self.cls.lookup(e.func.attr)
                    if w == "o" and not st.guard:
                        self.unguarded.append(e.func)
                    fs = self.flds.reads(t) if t is not None else {e.func.attr}
                    d = d | {(w, x) for x in self.flds.full(fs)}
                t = self.cls.lookup(e.func.attr)
                n = width(t) if t is not None else None
                return V(d, E, n is not None)
            d = d | b.d
        if whole and fn not in ("len", "str", "repr"):
            # the object itself handed to a function: every field may be looked at
            d = d | {(w, x) for w in whole for x in self.flds.assigned}
            if fn in ("copy.copy", "copy.deepcopy", "deepcopy", "copy"):
                return V(d, whole)
        if fn in ("len", "str", "repr", "hash") and whole:
            for w in whole:
                t = self.cls.lookup("__%s__" % fn)
                if w == "o" and not st.guard:
                    self.unguarded.append(e)
                if t is not None:
                    d = d | {(w, x) for x in self.flds.full(self.flds.reads(t))}
        return V(d)

    # -- truth ------------------------------------------------------------------------
    def both(self, d):
        s = {x for w, x in d if w == "s"}
        o = {x for w, x in d if w == "o"}
        return frozenset(s & o)

    def atom(self, e, st, ct, cf, gt=False, gf=False, sh=E):
        """fork on a test: covered when true / when false, guard established when true / when false"""
        self.n += 1
        if self.n > CAP:
            raise TooMany()
        key = ast.unparse(e) if all(not isinstance(x, ast.Call) or True for x in ast.walk(e)) else None
        out = []
        for val, c, g in ((True, ct, gt), (False, cf, gf)):
            if st.known.get(key, val) != val:
                continue
            s = st.copy()
            s.known[key] = val
            s.cover = s.cover | c
            s.guard = s.guard or g
            if c:
                s.shapes = s.shapes | (sh & c)
            out.append((s, val))
        return out

    def shape_fields(self, e, st):
        """fields whose size takes part in the comparison"""
        out = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Call) and (ast.unparse(x.func) in SHAPE or isinstance(x.func, ast.Attribute) and x.func.attr in SHAPEMETH):
                out |= {f for w, f in self.val(x, st).d}
                if isinstance(x.func, ast.Attribute):
                    out |= {f for w, f in self.val(x.func.value, st).d}
            elif isinstance(x, ast.Attribute) and x.attr in SHAPEATTR:
                out |= {f for w, f in self.val(x, st).d} | {f for w, f in self.val(x.value, st).d}
        return frozenset(out)

    def is_guard(self, e, st):
        """the test only succeeds for an object of the type of self"""
        if isinstance(e, ast.Call) and ast.unparse(e.func) == "isinstance" and len(e.args) == 2:
            a, b = self.val(e.args[0], st), ast.unparse(e.args[1])
            if "o" in a.whole:
                names = {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(e.args[1]) if isinstance(x, (ast.Name, ast.Attribute))}
                fam = {c.name for c in self.cls.family()} | {"type", "__class__"}
                if not names & {c for c in self.prog.classes}:
                    return "type(" in b or "__class__" in b
                return bool(names & fam)
            if "s" in a.whole and isinstance(e.args[1], ast.Call) and ast.unparse(e.args[1].func) == "type" and e.args[1].args and \
                    "o" in self.val(e.args[1].args[0], st).whole:
                return True
        if isinstance(e, ast.Call) and ast.unparse(e.func) == "issubclass":
            return any("o" in self.val(a, st).whole for x in e.args for a in ast.walk(x) if isinstance(a, ast.Name))
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.Is)):
            t = [e.left, e.comparators[0]]
            w = [self.typed(x, st) for x in t]
            return bool(w[0] and w[1] and w[0] != w[1])
        return False

    def typed(self, x, st):
        if isinstance(x, ast.Call) and ast.unparse(x.func) == "type" and x.args:
            w = self.val(x.args[0], st).whole
        elif isinstance(x, ast.Attribute) and x.attr == "__class__":
            w = self.val(x.value, st).whole
        elif isinstance(x, ast.Attribute) and x.attr in ("__name__", "__qualname__"):
            return self.typed(x.value, st)
        else:
            w = E
        return "".join(sorted(w))

    def truth(self, e, st):
        if isinstance(e, ast.Constant):
            return [(st, bool(e.value))]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not v) for s, v in self.truth(e.operand, st)]
        if isinstance(e, ast.BoolOp) or isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            isand = isinstance(e.op, (ast.And, ast.BitAnd))
            vals = e.values if isinstance(e, ast.BoolOp) else [e.left, e.right]
            out, cur = [], [st]
            for i, x in enumerate(vals):
                nxt = []
                for s in cur:
                    for s2, v in self.truth(x, s):
                        if v == isand and i + 1 < len(vals):
                            nxt.append(s2)
                        else:
                            out.append((s2, v))
                cur = nxt
            return out
        if isinstance(e, ast.IfExp):
            return [r for s, v in self.truth(e.test, st) for r in self.truth(e.body if v else e.orelse, s)]
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if v is not None and v.const is not None:
                return [(st, bool(v.const.value))]
            d = self.both(v.d) if v is not None else E
            return self.atom(e, st, d, d)
        if isinstance(e, ast.NamedExpr):
            return self.truth(e.value, st)
        if self.is_guard(e, st):
            return self.atom(e, st, E, E, True, False)
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1 and isinstance(e.ops[0], (ast.NotEq, ast.IsNot)):
                neg = ast.Compare(left=e.left, ops=[ast.Eq() if isinstance(e.ops[0], ast.NotEq) else ast.Is()], comparators=e.comparators)
                if self.is_guard(neg, st):
                    return self.atom(e, st, E, E, False, True)
            l = self.val(e.left, st)
            d = self.both(l.d | frozenset().union(*[self.val(c, st).d for c in e.comparators]))
            wl, wr = l.whole, self.val(e.comparators[0], st).whole
            if len(e.ops) == 1 and wl and wr and wl != wr:
                if isinstance(e.ops[0], ast.Is):          # the same object
                    return self.atom(e, st, frozenset(self.flds.assigned), E, True, False)
                if isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
                    pos = isinstance(e.ops[0], ast.Eq)
                    a = frozenset(self.flds.assigned) | {"=="}
                    return self.atom(e, st, a if pos else E, E if pos else a, pos, not pos)
            sh = self.shape_fields(e, st)
            op = e.ops[0]
            onlyshape = frozenset()
            if sh and isinstance(op, (ast.Eq, ast.NotEq)) and all(self.sizes(x) for x in [e.left] + e.comparators):
                onlyshape = sh            # compares sizes, not contents
            # comparing sizes is no comparison of the contents
            cov = self.content(e, st) if onlyshape else d
            if isinstance(op, (ast.Eq, ast.Is)):
                out = self.atom(e, st, cov, E)
            elif isinstance(op, (ast.NotEq, ast.IsNot)):
                out = self.atom(e, st, E, cov)
            else:
                out = self.atom(e, st, cov, cov)
            if onlyshape:
                for s, v in out:
                    if v == isinstance(op, ast.Eq):
                        s.shapes = s.shapes | onlyshape
            return out
        if isinstance(e, ast.Call):
            return self.truth_call(e, st)
        d = self.both(self.val(e, st).d)
        return self.atom(e, st, d, d)

    def sizes(self, x):
        return isinstance(x, ast.Call) and (ast.unparse(x.func) in SHAPE or isinstance(x.func, ast.Attribute) and x.func.attr in SHAPEMETH) or \
            isinstance(x, ast.Attribute) and x.attr in SHAPEATTR or \
            isinstance(x, ast.Call) and ast.unparse(x.func) in ("np.max", "max", "int") and False

    def content(self, e, st):
        """fields compared as such by a comparison of sizes (self.order == other.order compares the field order)"""
        out = E
        for x in (e.left,):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                y = e.comparators[0]
                if isinstance(y, ast.Attribute) and y.attr == x.attr and self.val(x.value, st).whole and self.val(y.value, st).whole:
                    out = self.both(self.val(x, st).d | self.val(y, st).d) & {x.attr}
        return out

    def truth_call(self, e, st):
        fn = ast.unparse(e.func)
        attr = e.func.attr if isinstance(e.func, ast.Attribute) else None
        if fn in ("bool", "np.bool_") and len(e.args) == 1:
            return self.truth(e.args[0], st)
        inner = None
        if fn in ("all", "np.all", "any", "np.any") and e.args:
            inner, kind = e.args[0], fn.split(".")[-1]
        elif attr in ("all", "any") and not fn.startswith("np."):
            inner, kind = e.func.value, attr
        if inner is not None:
            return self.quantified(e, inner, kind, st)
        if fn in EXACT and len(e.args) >= 2:
            d = self.both(self.val(e.args[0], st).d | self.val(e.args[1], st).d)
            return self.atom(e, st, d, E, sh=d)
        if fn in ("np.logical_not",) and e.args:
            return [(s, not v) for s, v in self.truth(e.args[0], st)]
        if fn in ("np.logical_and", "np.logical_or") and len(e.args) == 2:
            return self.truth(ast.BoolOp(ast.And() if fn.endswith("and") else ast.Or(), e.args), st)
        # super().__eq__(other), Base.__eq__(self, other)
        if attr in ("__eq__", "__ne__"):
            t = None
            if isinstance(e.func.value, ast.Call) and ast.unparse(e.func.value.func) == "super":
                i = self.cls.mro.index(self.f.cls) if self.f.cls in self.cls.mro else 0
                t = next((c.methods[attr] for c in self.cls.mro[i + 1:] if attr in c.methods), None)
            elif isinstance(e.func.value, ast.Name) and "s" in self.val(e.func.value, st).whole:
                a = frozenset(self.flds.assigned) | {"=="}
                return self.atom(e, st, a if attr == "__eq__" else E, E if attr == "__eq__" else a, attr == "__eq__", attr != "__eq__")
            elif isinstance(e.func.value, (ast.Name, ast.Attribute)):
                c = self.prog.classes.get(ast.unparse(e.func.value).split(".")[-1])
                t = c.lookup(attr) if c is not None else None
            if t is not None and not stub(t) and self.depth < 3:
                return self.inline_truth(t, [V(E, frozenset("s")), V(E, frozenset("o"))], st, e)
            d = self.both(self.val(e, st).d)
            return self.atom(e, st, d if attr == "__eq__" else E, E if attr == "__eq__" else d)
        t = self.target(e, st)
        if t is not None and self.depth < 3:
            f, args = t
            ds = frozenset().union(E, *[a.d for a in args])
            if self.both(ds | {(w, x) for a in args for w in a.whole for x in self.flds.assigned | {"*"}}):
                return self.inline_truth(f, args, st, e)
        d = self.both(self.val(e, st).d)
        return self.atom(e, st, d, d)

    def target(self, e, st):
        """library function called with tracked values"""
        if e.keywords or any(isinstance(a, ast.Starred) for a in e.args):
            return None
        args = [self.val(a, st) for a in e.args]
        if isinstance(e.func, ast.Name):
            f = self.f.module.functions.get(e.func.id) if hasattr(self.f.module, "functions") else None
            if f is not None and len(f.params) == len(args):
                return f, args
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
            b = st.env.get(e.func.value.id)
            if b is not None and "s" in b.whole:
                f = self.cls.lookup(e.func.attr)
                if f is not None and f.kind == "method" and len(f.params) == 1 + len(args):
                    return f, [b] + args
                if f is not None and f.kind == "static" and len(f.params) == len(args):
                    return f, args
            elif e.func.value.id in {c.name for c in self.cls.mro}:
                f = self.cls.lookup(e.func.attr)
                if f is not None and len(f.params) == len(args):
                    return f, args
        return None

    def inline(self, f, args, st):
        self.depth += 1
        try:
            s = st.copy()
            s.env = {p: a for p, a in zip(f.params, args)}
            s.known = {}
            out = []
            for s2, v in self.paths(f, s):
                s3 = st.copy()
                s3.cover, s3.guard, s3.shapes, s3.warn = s2.cover, s2.guard, s2.shapes, s2.warn
                out.append((s3, v))
            return out
        finally:
            self.depth -= 1

    def inline_truth(self, f, args, st, e):
        out = []
        for s, v in self.inline(f, args, st):
            out += self.truth_of(v, s, e)
        return out

    def truth_of(self, v, st, e):
        if v.const is not None:
            return [(st, bool(v.const.value))]
        d = self.both(v.d)
        return self.atom(e, st, d, d)

    def values(self, e, st):
        """[(state, value)]: like val, following the paths of tests and of the functions called"""
        if e is None:
            return [(st, V(const=ast.Constant(value=None)))]
        if isinstance(e, ast.Name):
            if e.id == "NotImplemented":
                return [(st, V(const=ast.Constant(value=None)))]
            return [(st, self.val(e, st))]
        if self.boolish(e, st):
            d = self.looked_at(e, st)
            return [(s, V(d, const=ast.Constant(value=v))) for s, v in self.keep(e, st)]
        if isinstance(e, ast.IfExp):
            return [r for s, v in self.keep(e.test, st) for r in self.values(e.body if v else e.orelse, s)]
        if isinstance(e, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in e.elts):
            out = [(st, [])]
            for x in e.elts:
                out = [(s2, vs + [v]) for s, vs in out for s2, v in self.values(x, s)]
            return [(s, V(frozenset().union(E, *[v.d for v in vs]), E, True, None, vs)) for s, vs in out]
        if isinstance(e, ast.Call) and self.depth < 3:
            t = self.target(e, st)
            if t is not None and not t[0].cls and len(list(ast.walk(t[0].node))) < 600:
                mine = self.rets
                r = self.inline(t[0], t[1], st)
                self.rets = mine
                if r:
                    return r
        return [(st, self.val(e, st))]

    def looked_at(self, e, st):
        n = len(self.unguarded)
        d = self.val(e, st).d
        del self.unguarded[n:]
        return d

    def quantified(self, e, inner, kind, st):
        pos = kind == "all"
        if isinstance(inner, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            s2 = self.comp_env(inner, st)
            ct, cf = self.covers(inner.elt, s2)
            zips = [g.iter for g in inner.generators if isinstance(g.iter, ast.Call) and ast.unparse(g.iter.func) == "zip"]
            filt = any(g.ifs for g in inner.generators)
        elif isinstance(inner, (ast.List, ast.Tuple)):
            # all of explicit tests
            return self.truth(ast.BoolOp(ast.And() if pos else ast.Or(), inner.elts), st) if inner.elts else [(st, pos)]
        else:
            ct, cf = self.covers(inner, st)
            zips, filt = [], False
        cov = (ct if pos else cf) if not filt else E
        out = self.atom(e, st, cov if pos else E, E if pos else cov)
        if zips:
            self.need_length(zips[0], st, out, pos)
        elif not isinstance(inner, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and isinstance(inner, ast.Compare) and cov \
                and self.arraylike(inner, st):
            for s, v in out:
                if v == pos:
                    s.warn = s.warn | {("broadcast", tuple(sorted(cov)), e.lineno)}
        return out

    def arraylike(self, cmp, st):
        """the operands are not objects of a library class with an equality of its own"""
        for x in [cmp.left] + cmp.comparators:
            if isinstance(x, ast.Attribute):
                ks = self.kinds(x.attr)
                if ks and all(k in self.prog.classes for k in ks):
                    return False
        return True

    def kinds(self, attr):
        out = set()
        for c in self.cls.mro:
            doc = ast.get_docstring(c.node) or ""
            for line in doc.splitlines():
                if line.strip().startswith(attr + " :"):
                    out |= {w for w in line.split(":", 1)[1].replace(",", " ").replace(".", " ").split() if w in self.prog.classes}
        return out

    def need_length(self, z, st, out, pos):
        """zip of a part of self with a part of other: the lengths must have been compared too"""
        vs = [self.val(a, st) for a in z.args]
        fs = {x for v in vs for w, x in v.d}
        if all(v.fixed for v in vs):
            return
        sides = [{w for w, x in v.d} for v in vs]
        if any(s == {"s"} for s in sides) and any(s == {"o"} for s in sides):
            for s, v in out:
                if v == pos:
                    s.warn = s.warn | {("zip", tuple(sorted(self.both(frozenset(x for v in vs for x in v.d)))), z.lineno)}

    def covers(self, e, st):
        """(covered if true, covered if false) without forking, for the body of a quantifier"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.covers(e.operand, st)
            return b, a
        if isinstance(e, ast.BoolOp):
            cs = [self.covers(x, st) for x in e.values]
            if isinstance(e.op, ast.And):
                return frozenset().union(*[c[0] for c in cs]), frozenset.intersection(*[c[1] for c in cs])
            return frozenset.intersection(*[c[0] for c in cs]), frozenset().union(*[c[1] for c in cs])
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            d = self.both(self.val(e.left, st).d | self.val(e.comparators[0], st).d)
            if isinstance(e.ops[0], (ast.Eq, ast.Is)):
                return d, E
            if isinstance(e.ops[0], (ast.NotEq, ast.IsNot)):
                return E, d
            return d, d
        if isinstance(e, ast.Call):
            fn = ast.unparse(e.func)
            if fn in EXACT or fn in ("np.equal", "np.isclose"):
                d = self.both(frozenset(x for a in e.args for x in self.val(a, st).d))
                return d, E
            if fn in ("bool", "all", "np.all") and e.args:
                return self.covers(e.args[0], st)[0], E
            if fn in ("any", "np.any") and e.args:
                return E, self.covers(e.args[0], st)[1]
        d = self.both(self.val(e, st).d)
        return d, d

    # -- statements ----------------------------------------------------------------------
    def paths(self, f, st):
        """[(state, True/False/None for no verdict)] over the paths of f"""
        self.rets = []
        save = self.rets
        fall = self.block(f.node.body, [st])
        return save + [(s, V(const=ast.Constant(value=None))) for s in fall]      # falling off the end returns None

    def block(self, body, sts):
        for n in body:
            nxt = []
            for s in sts:
                nxt += self.stmt(n, s)
            sts = self.dedup(nxt)
            if not sts:
                break
        return sts

    def dedup(self, sts):
        seen, out = set(), []
        for s in sts:
            k = (s.cover, s.guard, s.shapes, s.warn, tuple(sorted((a, v.d, v.whole, ast.dump(v.const) if v.const is not None else None) for a, v in s.env.items()))
                 if False else None, frozenset(s.known.items()), tuple((a, ast.dump(v.const) if v.const is not None else "") for a, v in sorted(s.env.items())))
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > 400:
            raise TooMany()
        return out

    def boolish(self, e, st):
        if isinstance(e, ast.Compare) or isinstance(e, ast.BoolOp) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            return True
        if isinstance(e, ast.Call):
            fn = ast.unparse(e.func)
            if fn in EXACT or fn.split(".")[-1] in ("isinstance", "all", "any", "bool", "__eq__", "__ne__", "logical_and", "logical_or", "logical_not"):
                return True
            t = self.target(e, st)
            if t is not None and (len(frozenset().union(E, *[a.whole for a in t[1]])) == 2 or
                                  self.both(frozenset().union(E, *[a.d for a in t[1]]))):
                rets = [n.value for n in ast.walk(t[0].node) if isinstance(n, ast.Return)]
                return bool(rets) and not any(isinstance(r, (ast.Tuple, ast.List)) for r in rets if r is not None)
        return isinstance(e, ast.Constant) and isinstance(e.value, bool)

    def assign_truth(self, t, e, st):
        out = []
        for s, v in self.truth(e, st):
            s = s.copy()
            s.env[t.id] = V(self.looked_at(e, st), const=ast.Constant(value=v))
            s.known = {k: x for k, x in s.known.items() if t.id not in k}
            out.append(s)
        return out

    def stmt(self, n, st):
        if isinstance(n, ast.Return):
            mine = self.rets
            r = self.values(n.value, st)
            self.rets = mine
            self.rets += r
            return []
        if isinstance(n, ast.Raise):
            return []
        if isinstance(n, ast.Assert):
            return [s for s, v in self.keep(n.test, st) if v]
        if isinstance(n, ast.If):
            out = []
            d = self.looked_at(n.test, st)
            ob, oc, orr = getattr(self, "brk", []), getattr(self, "cnt", []), self.rets
            b0, c0 = len(ob), len(oc)
            for s, v in self.keep(n.test, st):
                out += self.block(n.body if v else n.orelse, [s])
            if d:
                # what is assigned under the test depends on it, whichever way it went
                names = {x.id for b in n.body + n.orelse for x in ast.walk(b) if isinstance(x, ast.Name) and
                         (isinstance(x.ctx, ast.Store))} | \
                        {x.value.id for b in n.body + n.orelse for x in ast.walk(b) if isinstance(x, ast.Subscript)
                         and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
                for s in out + ob[b0:] + oc[c0:]:
                    for m in names:
                        o = s.env.get(m)
                        if o is not None and o.const is None:
                            s.env[m] = V(o.d | d, o.whole, o.fixed, None, o.elts)
            return out
        if isinstance(n, ast.Assign):
            t = n.targets[0]
            res = []
            mine = self.rets
            vals = self.values(n.value, st)
            self.rets = mine
            for s, v in vals:
                s = s.copy()
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        o = s.env.get(t.value.id, V())
                        # written under the tests passed so far: what they compared shows in the array
                        s.env[t.value.id] = V(o.d | v.d | {(w, x) for x in s.cover for w in "so"}, o.whole)
                    else:
                        self.bind(t, v, n.value, s, False)
                names = {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                s.known = {q: x for q, x in s.known.items() if not any(m in q for m in names)}
                res.append(s)
            return res
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            if isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.Mult)):
                e = ast.BinOp(ast.Name(n.target.id, ast.Load()), ast.BitOr() if isinstance(n.op, ast.BitOr) else ast.BitAnd(), n.value)
                ast.copy_location(e, n)
                mine = self.rets
                r = self.assign_truth(n.target, e, st)
                self.rets = mine
                return r
            s = st.copy()
            o = s.env.get(n.target.id, V())
            s.env[n.target.id] = V(o.d | self.val(n.value, s).d)
            return [s]
        if isinstance(n, (ast.For, ast.While)):
            s = st.copy()
            zipped = None
            if isinstance(n, ast.For):
                it = self.val(n.iter, s)
                self.bind(n.target, it, n.iter, s)
                if isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == "zip":
                    if isinstance(n.target, ast.Name):
                        s.env[n.target.id] = V(frozenset().union(E, *[self.val(a, s).d for a in n.iter.args]))
                    probe = [(s, True)]
                    self.need_length(n.iter, s, probe, True)
                elif it.d and not isinstance(n.iter, ast.Call):
                    pass
                entry = [s]
            else:
                entry = [x for x, v in self.keep(n.test, s) if v]
            ob = getattr(self, "brk", [])
            self.brk, self.cnt = [], []
            out = self.block(n.body, entry)
            out = out + self.cnt
            brk = self.brk
            self.brk = ob
            if n.orelse:
                out = self.block(n.orelse, out)
            # after the loop the facts of one iteration are no longer facts, what was compared stays compared
            res = []
            names = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for x in out + brk:
                x = x.copy()
                x.known = {k: v for k, v in x.known.items() if not any(m in k for m in names)}
                res.append(x)
            return self.dedup(res)
        if isinstance(n, ast.Break):
            self.brk.append(st)
            return []
        if isinstance(n, ast.Continue):
            self.cnt.append(st)
            return []
        if isinstance(n, ast.Try):
            return self.block(n.body + n.orelse + n.finalbody, [st]) + [s for h in n.handlers for s in self.block(h.body, [st.copy()])]
        if isinstance(n, ast.With):
            return self.block(n.body, [st])
        if isinstance(n, ast.Expr):
            self.val(n.value, st)
        return [st]

    def keep(self, e, st):
        mine = self.rets
        r = self.truth(e, st)
        self.rets = mine
        return r


# -- constructor -------------------------------------------------------------------------
def ctor_params(prog, cls):
    """parameter of the effective constructor -> fields stored from it"""
    out = {}

    def walk(f, inmap, depth, me=None):
        """inmap: parameter -> origins"""
        if depth > 4 or not f.params:
            return
        me = me or f.params[0]
        loc = {p: set(inmap.get(p, ())) for p in f.params + f.kwonly if p != me}
        for x in (f.vararg, f.kwarg):
            if x:
                loc[x] = set(inmap.get(x, ()))

        def src(e):
            return set().union(set(), *[loc.get(x.id, set()) for x in ast.walk(e) if isinstance(x, ast.Name)])
        ass, calls = [], []
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    ass.append((t, n.value))
            elif isinstance(n, ast.For):
                ass.append((n.target, n.iter))
            elif isinstance(n, ast.Call):
                calls.append(n)
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    ass += [(n.func.value, a) for a in n.args]
        for _ in range(4):
            for t, v in ass:
                s = src(v) | positions(t, src)
                for x in tainted(t):
                    if x != me:
                        loc.setdefault(x, set()).update(s)
        for t, v in ass:
            for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                while isinstance(x, ast.Subscript):
                    x = x.value
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                    for o in src(v):
                        out.setdefault(o, set()).add(x.attr)
        for c in calls:
            fn = c.func
            t = None
            args = list(c.args)
            if isinstance(fn, ast.Attribute) and fn.attr == "__init__":
                if isinstance(fn.value, ast.Call) and ast.unparse(fn.value.func) == "super":
                    i = cls.mro.index(f.cls) if f.cls in cls.mro else 0
                    t = next((k.methods["__init__"] for k in cls.mro[i + 1:] if "__init__" in k.methods), None)
                else:
                    k = prog.classes.get(ast.unparse(fn.value).split(".")[-1])
                    t = k.lookup("__init__") if k is not None else None
                    args = args[1:]
            elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == me:
                t = cls.lookup(fn.attr)
            elif isinstance(fn, ast.Name) and fn.id in f.module.functions:
                g = f.module.functions[fn.id]
                for i, a in enumerate(args):
                    if isinstance(a, ast.Name) and a.id == me and i < len(g.params):
                        walk(g, {p: src(b) for p, b in zip(g.params, args)}, depth + 1, g.params[i])
            if t is not None and t is not f and t.kind == "method":
                m = {p: src(a) for p, a in zip(t.params[1:], args)}
                for k in c.keywords:
                    if k.arg:
                        m[k.arg] = src(k.value)
                walk(t, m, depth + 1)
    init = cls.lookup("__init__")
    if init is None:
        return out, None
    walk(init, {p: {p} for p in init.params[1:] + init.kwonly + [x for x in (init.vararg, init.kwarg) if x]}, 0)
    return out, init


# what a comparison does not have to look at, with the reason
EXEMPT = {
    # the number of tabulated polynomials: how far the tables reach, not which family they tabulate
    ("EmpiricalPolynomials", "n"),
}


def p21(ctx, rep):
    prog = ctx.prog
    n = 0
    for cls in sorted(prog.classes.values(), key=lambda c: c.name):
        for nm in ("__eq__", "__ne__"):
            f = cls.lookup(nm)
            if f is None or stub(f):
                continue
            if nm == "__ne__":
                check_ne(prog, cls, f, rep)
                continue
            check_eq(prog, cls, f, rep)
    rep.floor("equalities of a class", 14)
    rep.floor("constructor arguments that must be compared", 12)
    rep.floor("paths to an equal verdict", 14)


def evaluate(prog, cls, f):
    flds = Fields(prog, cls)
    ev = EqEval(prog, cls, flds, f)
    st = St()
    st.env = {f.params[0]: V(E, frozenset("s")), f.params[1]: V(E, frozenset("o"))}
    return flds, ev, ev.paths(f, st)


def where(f, n=None):
    return "%s:%d" % (f.module.rel, getattr(n, "lineno", None) or f.node.lineno)


def check_eq(prog, cls, f, rep):
    rep.count("equalities of a class")
    if len(f.params) != 2:
        return
    try:
        flds, ev, paths = evaluate(prog, cls, f)
    except TooMany:
        rep.count("equalities with too many paths")
        return
    eq = []
    for s, v in paths:
        if v.const is None:
            s = s.copy()
            s.cover = s.cover | ev.both(v.d)
        elif not v.const.value:
            continue
        eq.append(s)
    rep.count("paths to an equal verdict", len(eq))
    rep.count("paths to an unequal verdict", len(paths) - len(eq))
    params, init = ctor_params(prog, cls)
    q = "%s.__eq__" % cls.name
    vector = elementwise(f)
    seen = set()
    for n in ev.unguarded:
        t = ast.unparse(n)
        if t not in seen:
            seen.add(t)
            rep.violation("comparison with another type", "eqtype|%s|%s" % (f.qual, "reads"),
                          "%s is read before the type of the other object is known: comparing with anything else raises" % t, where(f, n), f.qual)
            break
    if any(not s.guard for s in eq):
        rep.violation("equal to another type", "eqother|%s" % f.qual, "an object of another type can be reported equal to %s" % cls.name, where(f), f.qual)
    for p, fs in sorted(params.items()):
        rep.count("constructor arguments that must be compared")
        if (cls.name, p) in EXEMPT:
            continue
        # a field that only carries something computed from the argument does not stand for it
        own = {x for x in fs if x.strip("_") == p.strip("_")}
        if own and cls.name not in DERIVED:
            fs = own
        if any(not (s.cover & fs) and "==" not in s.cover for s in eq):
            rep.violation("not compared", "eqfield|%s|%s" % (cls.name, p),
                          "two %s that differ in %s (stored in %s) can compare equal" % (cls.name, p, ", ".join(sorted(fs))), where(f), f.qual)
    if vector:
        return
    for s in eq:
        for kind, fs, line in s.warn:
            if not set(fs) & s.shapes:
                k = "eq%s|%s|%s" % (kind, f.qual, ",".join(fs))
                if k in seen:
                    continue
                seen.add(k)
                rep.violation("partial comparison", k, "%s are compared %s: objects of different sizes can compare equal" % (
                    ", ".join(fs), "pairwise up to the shorter one" if kind == "zip" else "with broadcasting"), "%s:%d" % (f.module.rel, line), f.qual)


def elementwise(f):
    """the comparison returns an array of answers, one per row: some return value is np.all(.., axis)"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("np.all", "all") and (any(k.arg == "axis" for k in n.keywords) or len(n.args) == 2):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "all" and (n.keywords or n.args) and \
                not ast.unparse(n.func).startswith("np."):
            return True
    return False


def check_ne(prog, cls, f, rep):
    rep.count("inequalities of a class")
    if len(f.params) != 2:
        return
    try:
        flds, ev, paths = evaluate(prog, cls, f)
    except TooMany:
        return
    for s, v in paths:
        if v.const is not None and not v.const.value and "==" not in s.cover and not s.cover >= set(ctor_params(prog, cls)[0]):
            rep.violation("inequality", "ne|%s" % f.qual, "objects can be reported not different although == does not hold", where(f), f.qual)
            return


RULES = {"P21": (p21, """For every class of the library with an equality of its own, the constructor arguments that reach its fields are collected (through
the constructors of the base classes), the body of __eq__ is expanded into its paths on the boolean skeleton (helpers, inherited comparisons and loops included), and on
every path that can answer True it is required that the type of the other object has been established before any of its attributes is read, that
a test relating the same data of both objects has succeeded for every constructor argument, that lengths have been compared where elements are compared pairwise,
and shapes where arrays are compared with broadcasting; __ne__ must be the negation.""",
                 ("a test that relates the same fields of both objects compares them faithfully", "loops are followed for one generic element"))}
TECHNIQUE = {"P21": "path enumeration over the boolean skeleton of the comparison methods with field-level dataflow"}
NOTE = {"P21": "static coverage of constructor arguments by the equality of each class"}
