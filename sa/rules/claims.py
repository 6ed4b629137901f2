"""P12/P13: typestate of tensors: orthogonality claims and derived ranks/shape after core replacement."""
import ast

SLOTS = {"tensors"}
TREE = {"tree"}
CLAIM = {"is_orth", "orth_node"}
SIZES = {"ranks", "shape"}
DERIVED = {"ranks", "shape", "is_active_node"}
REFRESH = "update_attributes"
COPIES = {"deepcopy", "copy"}
ARITH = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.USub: "__neg__"}


# private helpers whose argument is built by the library itself
ASSUMED = {
    "FunctionalTensorPrincipalComponentAnalysis._project":
        "the tensor to project was just built with the TreeBasedTensor constructor and the projections are square "
        "(its shape is the cardinals of the bases)",
}


def text(e):
    return ast.unparse(e)


class State:
    __slots__ = ("txt", "alias", "obj", "slots")

    def __init__(self):
        self.txt, self.alias, self.obj, self.slots = {}, {}, {}, {}

    def copy(self):
        s = State()
        s.txt, s.alias, s.obj, s.slots = dict(self.txt), dict(self.alias), dict(self.obj), dict(self.slots)
        return s

    def key(self):
        return (tuple(sorted(self.txt.items())), tuple(sorted(self.alias.items())), tuple(sorted(self.obj.items(), key=str)),
                tuple(sorted(self.slots.items())))


DEFAULT = ("M", "")     # claim, what is out of date ("" = nothing)


def joinclaim(a, b):
    if a == b:
        return a
    if a.startswith("bad") or b.startswith("bad"):
        return a if a.startswith("bad") else b
    if a == "no":
        return b
    if b == "no":
        return a
    return "M"


def joinobj(a, b):
    return (joinclaim(a[0], b[0]), a[1] or b[1])


class Fn:
    """what is known of one function"""

    def __init__(self, prog, f):
        self.f = f
        self.touches = self.touched(f.node)

    @staticmethod
    def touched(node):
        for n in ast.walk(node):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    for u in ast.walk(t):
                        if isinstance(u, ast.Attribute) and u.attr in SLOTS | CLAIM and (
                                isinstance(u.ctx, ast.Store) or u is not t):
                            return True
        return False


class Exec:
    def __init__(self, an, f, cls, depth=0):
        self.an, self.f, self.cls, self.depth = an, f, cls, depth
        self.returns, self.breaks, self.continues = [], [], []
        self.quiet = depth > 0 or an.summarising
        self.reported = an.reported

    # -- paths -----------------------------------------------------------------------------------------
    def sub(self, e, st):
        """text of an expression with the local names replaced by what they stand for"""
        txt = st.txt

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                t = txt.get(n.id)
                if t is None or t == n.id:
                    return n
                return ast.Name(id=t, ctx=ast.Load())
        import copy
        return ast.unparse(R().visit(copy.deepcopy(e)))

    def path(self, e, st):
        """object designated by a name or a chain of attributes"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        p = st.txt.get(e.id, e.id)
        p = st.alias.get(p, p)
        for a in reversed(parts):
            p = p + "." + a
            k = 0
            while p in st.alias and k < 9:
                p, k = st.alias[p], k + 1
        return p

    def get(self, p, st):
        return st.obj.get(p, DEFAULT)

    def fresh(self, name, node, st):
        t = "%s#%d" % (name, node.lineno)
        self.forget(t, st)
        st.txt[name] = t
        st.slots.pop(name, None)
        return t

    def forget(self, t, st):
        for d in (st.obj, st.alias):
            for k in [k for k in d if k == t or k.startswith(t + ".")]:
                del d[k]

    def copyto(self, src, dst, st):
        for k in [k for k in st.obj if k == src or k.startswith(src + ".")]:
            st.obj[dst + k[len(src):]] = st.obj[k]
        for k in [k for k in st.alias if k.startswith(src + ".")]:
            v = st.alias[k]
            if v in st.obj:
                st.obj[dst + k[len(src):]] = st.obj[v]

    # -- reports ---------------------------------------------------------------------------------------
    def objects(self, p, st):
        out = [k for k in st.obj if k == p or k.startswith(p + ".")]
        out += [v for k, v in st.alias.items() if k == p or k.startswith(p + ".")]
        return out

    def use(self, p, st, node, how, sizes=True, claim=True):
        for k in self.objects(p, st):
            c, s = self.get(k, st)
            if claim and c.startswith("bad"):
                self.an.report("P12", self.f, node, k, how, c, self.quiet)
            if sizes and s:
                self.an.report("P13", self.f, node, k, how, s, self.quiet)

    # -- expressions -----------------------------------------------------------------------------------
    def ev(self, e, st):
        """(kind, payload): ('p', path) existing object; ('c', path) copy of an object; ('n', {suffix: state}) new; ('t', [..]); None"""
        if e is None:
            return None
        if isinstance(e, ast.Name):
            return ("p", self.path(e, st))
        if isinstance(e, ast.Attribute):
            p = self.path(e, st)
            base = self.path(e.value, st)
            if base is None:
                self.ev(e.value, st)
            elif isinstance(e.ctx, ast.Load):
                if e.attr in SIZES:
                    self.use_exact(base, st, e, "reads ." + e.attr, True, False)
                if e.attr in CLAIM:
                    self.use_exact(base, st, e, "reads ." + e.attr, False, True)
                r = self.an.tree_method(self.f, e.attr)
                if r is not None and (r.is_property):
                    self.method(base, e.attr, None, e, st)
            return ("p", p) if p else None
        if isinstance(e, (ast.Tuple, ast.List)):
            return ("t", [self.ev(x, st) for x in e.elts])
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, ast.IfExp):
            self.ev(e.test, st)
            self.ev(e.body, st)
            self.ev(e.orelse, st)
            return None
        if isinstance(e, (ast.BinOp, ast.UnaryOp)):
            op = ARITH.get(type(e.op))
            vals = [self.ev(x, st) for x in ((e.left, e.right) if isinstance(e, ast.BinOp) else (e.operand,))]
            if op and vals and vals[0] and vals[0][0] == "p" and vals[0][1] in st.obj:
                return self.method(vals[0][1], op, None, e, st)
            if op and len(vals) > 1 and vals[1] and vals[1][0] == "p" and vals[1][1] in st.obj:
                return self.method(vals[1][1], "__r" + op[2:], None, e, st)
            return None
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.Lambda)):
            return None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return None

    def use_exact(self, p, st, node, how, sizes, claim):
        c, s = self.get(p, st)
        if claim and c.startswith("bad"):
            self.an.report("P12", self.f, node, p, how, c, self.quiet)
        if sizes and s:
            self.an.report("P13", self.f, node, p, how, s, self.quiet)

    def method(self, p, name, call, node, st):
        """o.name(...) on an object that may be a tree tensor"""
        m = self.an.tree_method(self.f, name)
        if m is None:
            return None
        if name == REFRESH:
            c, s = self.get(p, st)
            st.obj[p] = (c, "")
            return ("p", p)
        c, s = self.get(p, st)
        if s and self.an.reads(m, SIZES):
            self.an.report("P13", self.f, node, p, "calls " + name, s, self.quiet)
        if c.startswith("bad") and self.an.reads(m, CLAIM):
            self.an.report("P12", self.f, node, p, "calls " + name, c, self.quiet)
        r = self.an.result(m, c)
        if r is None:
            return None
        if r.startswith("at:"):
            par, rest = r[3:], ""
            names = [x for x in m.params if x != "self"]
            if call is not None and par in names:
                i = names.index(par)
                arg = call.args[i] if i < len(call.args) else next((k.value for k in call.keywords if k.arg == par), None)
                rest = self.sub(arg, st) if arg is not None else ""
            return ("n", {"": (("at:" + rest) if rest else "M", "")})
        return ("n", {"": (r, "")})

    def call(self, e, st):
        fn = e.func
        args = list(e.args) + [k.value for k in e.keywords]
        vals = [self.ev(a.value if isinstance(a, ast.Starred) else a, st) for a in args]
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        if name is None:
            self.ev(fn, st)
            return None
        if name in COPIES and len(args) == 1 and not (isinstance(fn, ast.Attribute) and not isinstance(fn.value, ast.Name)):
            return ("c", vals[0][1]) if vals[0] and vals[0][0] == "p" else vals[0]
        cls = self.an.prog_class(name)
        if cls is not None:
            return self.construct(cls, e, args, vals, st)
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id == "self" and self.cls is not None:
                m = self.cls.lookup(name)
                if m is not None and self.an.inlinable(m) and self.depth < 3:
                    return self.inline(m, e, st)
            base = self.path(fn.value, st)
            if base is None:
                v = self.ev(fn.value, st)
                if v and v[0] == "n":
                    m = self.an.tree_method(self.f, name)
                    if m is not None and "" in v[1]:
                        r = self.an.result(m, v[1][""][0])
                        return ("n", {"": (r, "")}) if r and not r.startswith("at:") else None
            else:
                for v in vals:
                    if v and v[0] == "p" and v[1]:
                        self.use(v[1], st, e, "passes it to " + name)
                if base in st.obj or self.an.tree_method(self.f, name) is not None:
                    m = self.an.tree_method(self.f, name)
                    if m is not None:
                        return self.method(base, name, e, e, st)
                self.use(base, st, e, "calls " + name)
                return None
        if name not in ("print", "isinstance", "len", "type", "hasattr", "id", "str", "repr"):
            for v in vals:
                if v and v[0] == "p" and v[1]:
                    self.use(v[1], st, e, "passes it to " + name)
        return None

    def construct(self, cls, e, args, vals, st):
        if cls.name == "FullTensor":
            return ("n", {"": ("no", "")})
        if cls.name == "TreeBasedTensor":
            if len(args) == 1:
                return ("c", vals[0][1]) if vals[0] and vals[0][0] == "p" else vals[0]
            return ("n", {"": ("no", "")})
        binds = self.an.stored_params(cls)
        init = cls.lookup("__init__")
        if init is None or not binds:
            return None
        names = [x for x in init.params if x != "self"]
        out = {}
        for i, a in enumerate(e.args):
            if i < len(names) and names[i] in binds and vals[i] and not isinstance(a, ast.Starred):
                out["." + binds[names[i]]] = vals[i]
        for j, k in enumerate(e.keywords):
            v = vals[len(e.args) + j]
            if k.arg in binds and v:
                out["." + binds[k.arg]] = v
        return ("o", out)

    def inline(self, m, e, st):
        names = list(m.params)
        self.an.inlined.add(m.id)
        sub = Exec(self.an, m, self.cls, self.depth + 1)
        sub.quiet = True
        st2 = st.copy()
        saved_txt, saved_slots = st.txt, st.slots
        binds = {}
        if names and names[0] == "self":
            binds["self"] = st.txt.get("self", "self")
            names = names[1:]
        for i, a in enumerate(e.args):
            if i < len(names):
                binds[names[i]] = self.argtext(a, st)
        for k in e.keywords:
            if k.arg:
                binds[k.arg] = self.argtext(k.value, st)
        st2.txt = {n: binds.get(n, "%s@%s" % (n, m.name)) for n in m.params}
        st2.slots = {}
        out = sub.block(m.node.body, st2)
        rets = sub.returns + ([(None, out)] if out is not None else [])
        if not rets:
            return None
        first = None
        vals = []
        for v, s in rets:
            first = s if first is None else join(first, s, m.node)
            vals.append(v)
        st.obj, st.alias = first.obj, first.alias
        return vals[0] if all(v == vals[0] for v in vals) else None

    def argtext(self, a, st):
        p = self.path(a, st)
        return p if p is not None else self.sub(a, st)

    # -- stores ----------------------------------------------------------------------------------------
    def bind(self, t, v, st, node, value=None):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if v and v[0] == "t" and len(v[1]) == len(t.elts) else [None] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.bind(x, y, st, node)
            return
        if isinstance(t, ast.Starred):
            return self.bind(t.value, None, st, node)
        if isinstance(t, ast.Name):
            return self.bind_name(t.id, v, st, node, value)
        if isinstance(t, ast.Attribute):
            return self.bind_attr(t, v, st, node, value)
        if isinstance(t, ast.Subscript):
            return self.bind_item(t, st, node, value)

    def bind_name(self, name, v, st, node, value):
        if value is not None and isinstance(value, ast.Attribute) and value.attr in SLOTS:
            p = self.path(value.value, st)
            if p:
                self.fresh(name, node, st)
                st.slots[name] = p
                return
        if v and v[0] == "p" and v[1]:
            st.slots.pop(name, None)
            st.txt[name] = v[1]
            return
        if value is not None and pure(value):
            st.slots.pop(name, None)
            tx = self.sub(value, st)
            if len(tx) < 120 and "#" not in tx.split(".")[0][:0]:
                st.txt[name] = tx
                return
        self.place(self.fresh(name, node, self.snapshot(st, v)), v, st)

    def snapshot(self, st, v):
        # the value is read before the name is rebound
        if v and v[0] in "c" and v[1]:
            self._copied = {k[len(v[1]):]: s for k, s in st.obj.items() if k == v[1] or k.startswith(v[1] + ".")}
            for k, w in st.alias.items():
                if k.startswith(v[1] + ".") and w in st.obj:
                    self._copied[k[len(v[1]):]] = st.obj[w]
        elif v and v[0] == "o":
            self._parts = {s: (w, st.obj.get(w[1], None) if w[0] == "p" else None) for s, w in v[1].items()}
        return st

    def place(self, p, v, st):
        if not v:
            return
        if v[0] == "n":
            for s, x in v[1].items():
                st.obj[p + s] = x
        elif v[0] == "c" and v[1]:
            for s, x in self._copied.items():
                st.obj[p + s] = x
        elif v[0] == "o":
            for s, w in v[1].items():
                if w[0] == "p" and w[1]:
                    q = w[1]
                    if q == p or q.startswith(p + "."):
                        if self._parts[s][1] is not None:
                            st.obj[p + s] = self._parts[s][1]
                    else:
                        st.alias[p + s] = q
                elif w[0] == "n":
                    for s2, x in w[1].items():
                        st.obj[p + s + s2] = x

    def bind_attr(self, t, v, st, node, value):
        base = self.path(t.value, st)
        if t.attr == "data" and isinstance(t.value, ast.Subscript):
            return self.slot_store(t.value, st, node, value, data=True)
        if t.attr in CLAIM and isinstance(t.value, ast.Subscript):
            so = self.slot_of(t.value, st)
            if so is not None and t.attr == "is_orth":
                if isinstance(value, ast.Constant) and value.value is True:
                    self.an.count("claims made", (self.f.id, node.lineno))
                    self.an.claim_core(self, t, so, node, st)
                st.obj.pop(so[0] + ".tensors[" + so[1] + "]", None)
            return
        if base is None:
            return
        if t.attr == "data" and (self.f.cls is not None and self.f.cls.name == "FullTensor"):
            c, s = self.get(base, st)
            self.an.count("data replacements", (self.f.id, node.lineno))
            if c != "no":
                st.obj[base] = ("bad data", s)
            return
        if t.attr in DERIVED and (base in st.obj or self.has_slots(t.value)) and self.an.by_hand(value, t.attr):
            c, s = self.get(base, st)
            st.obj[base] = (c, t.attr + " (set by hand)")
            return
        c, s = self.get(base, st)
        if t.attr == "is_orth":
            if isinstance(value, ast.Constant) and value.value is False:
                st.obj[base] = ("no", s)
                self.an.count("claims dropped", (self.f.id, node.lineno))
            elif isinstance(value, ast.Constant) and value.value is True:
                self.an.count("claims made", (self.f.id, node.lineno))
                self.an.evidence(self, t, base, node, st)
                st.obj[base] = ("root", s)
            else:
                st.obj[base] = ("M", s)
            return
        if t.attr == "orth_node":
            if c == "no" and value is not None:
                st.obj[base] = (c, s)
            return
        if t.attr in SLOTS:
            self.an.count("core replacements", (self.f.id, node.lineno))
            st.obj[base] = ("bad all cores" if c != "no" else c, "ranks and shape (cores replaced)")
            return
        if t.attr in TREE and (base in st.obj or self.has_slots(t.value)):
            st.obj[base] = (c if c == "no" else "bad tree", "ranks and shape (tree replaced)")
            return
        p = base + "." + t.attr
        if p == (v[1] if v and v[0] == "p" else None):
            return
        self.snapshot(st, v)
        self.forget(p, st)
        if v and v[0] == "p" and v[1]:
            st.alias[p] = v[1]
        else:
            self.place(p, v, st)
            if p not in st.obj and self.opened(p, st):
                st.obj[p] = DEFAULT

    def opened(self, p, st):
        return False

    def has_slots(self, e):
        tx = text(e)
        return tx in self.an.slot_texts(self.f)

    def slot_of(self, sub, st):
        """(object, index text) when a subscript designates a core"""
        b = sub.value
        if isinstance(b, ast.Attribute) and b.attr in SLOTS:
            p = self.path(b.value, st)
        elif isinstance(b, ast.Name) and b.id in st.slots:
            p = st.slots[b.id]
        else:
            return None
        if p is None:
            return None
        return p, self.sub(sub.slice, st)

    def bind_item(self, t, st, node, value):
        b = t.value
        if isinstance(b, ast.Attribute) and b.attr in SIZES | {"is_active_node"}:
            p = self.path(b.value, st)
            if p and (p in st.obj or self.has_slots(b.value)) and self.an.by_hand(value, b.attr):
                st.obj[p] = (self.get(p, st)[0], b.attr + " (set by hand)")
            return
        if isinstance(b, ast.Attribute) and b.attr == "data" and isinstance(b.value, ast.Subscript):
            return self.slot_store(b.value, st, node, None, data=True, inplace=True)
        if self.slot_of(t, st):
            self.slot_store(t, st, node, value)

    def slot_store(self, sub, st, node, value, data=False, inplace=False):
        so = self.slot_of(sub, st)
        if so is None:
            return
        p, idx = so
        self.an.count("core replacements", (self.f.id, node.lineno))
        c, s = self.get(p, st)
        if data and not inplace:
            st.obj[p + ".tensors[" + idx + "]"] = ("bad core data", "")
        else:
            st.obj.pop(p + ".tensors[" + idx + "]", None)
        if not self.root_index(idx, p):
            if c.startswith("at:"):
                if strip1(idx) != c[3:]:
                    c = "bad core " + strip1(idx)
            elif c not in ("no",) and not c.startswith("bad"):
                c = "bad core " + strip1(idx)
        elif c.startswith("at:"):
            pass
        if not (inplace or self.same_shape(value, sub, st, node)):
            s = "ranks and shape (core replaced)"
        st.obj[p] = (c, s)

    def root_index(self, idx, p):
        i = strip1(idx)
        return i.endswith(".root") or i.endswith(".nb_nodes[0]")

    def same_shape(self, v, sub, st, node):
        if isinstance(node, ast.AugAssign):
            return True
        if v is None:
            return False
        me = text(sub).replace(" ", "")
        if isinstance(v, ast.UnaryOp):
            return text(v.operand).replace(" ", "") == me
        if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Mult, ast.Div)):
            return me in (text(v.left).replace(" ", ""), text(v.right).replace(" ", ""))
        if isinstance(v, ast.Call):
            for k in v.keywords:
                if k.arg == "shape" and isinstance(k.value, ast.Attribute) and k.value.attr == "shape" and isinstance(
                        k.value.value, ast.Subscript):
                    o = self.slot_of(k.value.value, st)
                    return o is not None and o[1] == self.sub(sub.slice, st)
        return False

    # -- statements ------------------------------------------------------------------------------------
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.bind(t, v, st, s, s.value)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, st), st, s, s.value)
            return st
        if isinstance(s, ast.AugAssign):
            self.ev(s.value, st)
            if isinstance(s.target, ast.Name):
                self.fresh(s.target.id, s, st)
            elif isinstance(s.target, ast.Subscript):
                self.bind_item(s.target, st, s, s.value)
            elif isinstance(s.target, ast.Attribute) and s.target.attr == "data" and isinstance(s.target.value, ast.Subscript):
                self.slot_store(s.target.value, st, s, None, True, True)
            return st
        if isinstance(s, ast.Expr):
            self.ev(s.value, st)
            return st
        if isinstance(s, ast.Return):
            v = self.ev(s.value, st)
            self.escape(s.value, v, st, s)
            self.exit(st, s)
            self.returns.append((v, st))
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, ast.If):
            self.ev(s.test, st)
            a = self.block(s.body, st.copy())
            b = self.block(s.orelse, st.copy())
            return merge(a, b, s)
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, st)
        if isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            a = self.block(s.body + s.orelse, st.copy())
            for h in s.handlers:
                a = merge(a, self.block(h.body, st.copy()), h)
            return self.block(s.finalbody, a) if a is not None else None
        if isinstance(s, ast.Break):
            self.breaks[-1].append(st)
            return None
        if isinstance(s, ast.Continue):
            self.continues[-1].append(st)
            return None
        if isinstance(s, ast.Assert):
            self.ev(s.test, st)
        return st

    def loop(self, s, st):
        if isinstance(s, ast.For):
            self.ev(s.iter, st)
        exits = None
        cur = st.copy()
        for _ in range(6):
            if isinstance(s, ast.While):
                self.ev(s.test, cur)
            head = cur.copy()
            if isinstance(s, ast.For):
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        self.fresh(n.id, s, head)
            self.breaks.append([])
            self.continues.append([])
            out = self.block(s.body, head)
            for c in self.continues.pop():
                out = merge(out, c, s)
            for b in self.breaks.pop():
                exits = merge(exits, b, s)
            new = merge(cur.copy(), out, s)
            if new.key() == cur.key():
                break
            cur = new
        res = self.block(s.orelse, cur.copy()) if s.orelse else cur
        return merge(res, exits, s)

    # -- handing out -----------------------------------------------------------------------------------
    def escape(self, e, v, st, node):
        if not v:
            return
        if v[0] == "t":
            for x in v[1]:
                self.escape(None, x, st, node)
        elif v[0] in "pc" and v[1]:
            self.use(v[1], st, node, "returns it")
        elif v[0] == "o":
            for w in v[1].values():
                self.escape(None, w, st, node)
        elif v[0] == "n":
            for c, s in v[1].values():
                if c.startswith("bad"):
                    self.an.report("P12", self.f, node, "the result", "returns it", c, self.quiet)

    def exit(self, st, node):
        if self.depth:
            return
        for p, (c, s) in st.obj.items():
            r = p.split(".")[0]
            if r in self.f.params:
                if c.startswith("bad"):
                    self.an.report("P12", self.f, node, p, "leaves it", c, self.quiet)
                if s:
                    self.an.report("P13", self.f, node, p, "leaves it", s, self.quiet)

    def run(self):
        st = State()
        for p in self.f.params:
            st.txt[p] = p
        out = self.block(self.f.node.body, st)
        if out is not None:
            self.exit(out, self.f.node)
            self.returns.append((None, out))


def strip1(idx):
    i = idx.replace(" ", "")
    while i.startswith("(") and i.endswith(")"):
        i = i[1:-1]
    if i.endswith("-1"):
        i = i[:-2]
    while i.startswith("(") and i.endswith(")"):
        i = i[1:-1]
    return i


def pure(e):
    ok = (ast.Name, ast.Attribute, ast.BinOp, ast.Constant, ast.Subscript, ast.Load, ast.operator, ast.UnaryOp, ast.unaryop, ast.Call)
    for n in ast.walk(e):
        if not isinstance(n, ok):
            return False
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Attribute) and n.func.attr in ("parent", "child_number")):
            return False
    return True


def merge(a, b, node):
    if a is None:
        return b
    if b is None:
        return a
    return join(a, b, node)


def join(a, b, node):
    o = State()
    for k in set(a.obj) | set(b.obj):
        if k in a.obj and k in b.obj:
            o.obj[k] = joinobj(a.obj[k], b.obj[k])
        else:
            o.obj[k] = a.obj.get(k) or b.obj.get(k)
            if "#" not in k and "|" not in k and "[" not in k:      # an object received as argument
                o.obj[k] = joinobj(o.obj[k], DEFAULT)
    for k in set(a.alias) | set(b.alias):
        x, y = a.alias.get(k), b.alias.get(k)
        if x == y:
            o.alias[k] = x
        else:
            sx = a.obj.get(x) if x else a.obj.get(k)
            sy = b.obj.get(y) if y else b.obj.get(k)
            if sx or sy:
                o.obj[k] = joinobj(sx, sy) if sx and sy else (sx or sy)
    for n in set(a.txt) | set(b.txt):
        x, y = a.txt.get(n), b.txt.get(n)
        if x == y:
            o.txt[n] = x
            continue
        if x is None or y is None:
            o.txt[n] = x or y
            continue
        t = "%s|%d" % (n, getattr(node, "lineno", 0))
        o.txt[n] = t
        for src, s in ((a, x), (b, y)):
            if s == t:
                continue
            for k in list(src.obj):
                if k == s or k.startswith(s + "."):
                    q = t + k[len(s):]
                    o.obj[q] = joinobj(o.obj[q], src.obj[k]) if q in o.obj else src.obj[k]
            for k in list(src.alias):
                if k.startswith(s + "."):
                    w = src.obj.get(src.alias[k])
                    if w:
                        q = t + k[len(s):]
                        o.obj[q] = joinobj(o.obj[q], w) if q in o.obj else w
        for have, lack, h, l in ((a, b, x, y), (b, a, y, x)):
            if h in have.obj and l not in lack.obj and t in o.obj:
                o.obj[t] = joinobj(o.obj[t], DEFAULT)
    for n in set(a.slots) | set(b.slots):
        if a.slots.get(n) == b.slots.get(n):
            o.slots[n] = a.slots[n]
    return o


class Analysis:
    def __init__(self, ctx):
        self.prog = ctx.flat()
        self.summarising = False
        self.inlined = set()
        self.reported = set()
        self.found = {"P12": [], "P13": []}
        self.counts = {}
        self.tree = self.prog.cls("TreeBasedTensor")
        self._res, self._reads, self._stored, self._inl, self._slots = {}, {}, {}, {}, {}

    def count(self, k, what):
        self.counts.setdefault(k, set()).add(what)

    def report(self, prop, f, node, path, how, why, quiet):
        if quiet:
            return
        p = path.split("#")[0].split("|")[0] if "." not in path else path.split("#")[0].split("|")[0] + "." + path.split(".", 1)[1]
        k = (prop, f.id, p, why)
        if k in self.reported:
            return
        self.reported.add(k)
        self.found[prop].append((f, node, p, how, why))

    def tree_method(self, f, name):
        if f.cls is not None and f.cls.name == "FullTensor":
            return f.cls.lookup(name)
        return self.tree.lookup(name)

    def prog_class(self, name):
        for m in self.prog.modules.values():
            if name in m.classes:
                return m.classes[name]
        return None

    def reads(self, m, attrs):
        key = (m.id, tuple(sorted(attrs)))
        if key in self._reads:
            return self._reads[key]
        self._reads[key] = False
        r = False
        me = {"self"}
        for n in ast.walk(m.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.value.args) == 1 and isinstance(
                    n.value.args[0], ast.Name) and n.value.args[0].id == "self" and isinstance(n.targets[0], ast.Name):
                me.add(n.targets[0].id)
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in me:
                if n.attr in attrs:
                    r = True
                else:
                    t = (m.cls or self.tree).lookup(n.attr)
                    if t is not None and t is not m and self.reads(t, attrs):
                        r = True
        self._reads[key] = r
        return r

    def result(self, m, claim):
        """claim of the tree tensor a method returns, given the claim of self"""
        if claim.startswith("bad"):
            c0 = "root"
        elif claim.startswith("at:"):
            c0 = "M"
        else:
            c0 = claim
        key = (m.id, c0)
        if key not in self._res:
            self._res[key] = "M" if m.name not in ("__neg__",) else c0
            old = self.summarising
            self.summarising = True
            try:
                x = Exec(self, m, m.cls or self.tree)
                st = State()
                for p in m.params:
                    st.txt[p] = p
                st.obj["self"] = (c0, "")
                out = x.block(m.node.body, st)
                r = None
                for v, s in x.returns:
                    w = self.value_claim(v, s)
                    if w is not None:
                        r = w if r is None else joinclaim2(r, w)
                self._res[key] = r
            finally:
                self.summarising = old
        r = self._res[key]
        if claim.startswith("bad") and r in ("root", "M") and c0 == "root" and self.result(m, "no") == "no" and not self.makes(m):
            return claim
        return r

    def makes(self, m):
        return self.result(m, "no") not in ("no", None)

    def value_claim(self, v, s):
        if not v:
            return None
        if v[0] in "pc" and v[1]:
            x = s.obj.get(v[1])
            return x[0] if x else None
        if v[0] == "n" and "" in v[1]:
            return v[1][""][0]
        if v[0] == "t" and v[1]:
            ws = [self.value_claim(w, s) for w in v[1]]
            ws = [w for w in ws if w]
            return ws[0] if ws else None
        return None

    def stored_params(self, cls):
        """{parameter: attribute} of a constructor that keeps its argument"""
        if cls.name not in self._stored:
            out = {}
            init = cls.lookup("__init__")
            if init is not None:
                for n in ast.walk(init.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(
                            n.value, ast.Name) and n.value.id in init.params:
                        out[n.value.id] = n.targets[0].attr
            self._stored[cls.name] = out
        return self._stored[cls.name]

    def inlinable(self, m):
        if m.id not in self._inl:
            r = Fn.touched(m.node)
            if not r:
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and n.attr in ("orth_at_node", "orth"):
                        r = True
            self._inl[m.id] = r
        return self._inl[m.id]

    def calls_inlinable(self, f):
        """the function calls a method of its own class, or of a subclass, that replaces cores"""
        if f.cls is None:
            return False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                for c in [f.cls] + f.cls.all_subclasses():
                    m = c.lookup(n.func.attr)
                    if m is not None and self.inlinable(m):
                        return True
        return False

    def slot_texts(self, f):
        if f.id not in self._slots:
            self._slots[f.id] = {text(n.value) for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and n.attr in SLOTS}
        return self._slots[f.id]

    @staticmethod
    def by_hand(value, attr):
        """a derived attribute is written from something else than the cores or the same attribute of another tensor"""
        if value is None:
            return True
        for n in ast.walk(value):
            if isinstance(n, ast.Attribute) and (n.attr in SLOTS or n.attr == attr):
                return False
        return not (attr == "is_active_node" and any(isinstance(n, ast.Attribute) and n.attr in DERIVED for n in ast.walk(value)))

    def claim_core(self, ex, t, so, node, st):
        self.report("P12", ex.f, node, "core " + so[1], "claims it is orthogonal", "bad claim without orthogonalisation", ex.quiet)

    def evidence(self, ex, t, base, node, st):
        """the function that claims orthogonality has established it"""
        c = ex.get(base, st)[0]
        why = None
        if c == "root":
            return
        if c.startswith("bad"):
            why = c
        else:
            why = self.orthogonalised(ex.f, t, node)
        if why:
            self.report("P12", ex.f, node, base, "claims it is orthogonal", why, ex.quiet)

    def orthogonalised(self, f, t, node):
        """None when the cores of the tensor come from orthogonal factorisations, else what is missing"""
        if f.cls is not None and f.cls.name not in ("TreeBasedTensor", "FullTensor"):
            return None
        qr, orth = [], []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                m = n.value.func.attr if isinstance(n.value.func, ast.Attribute) else getattr(n.value.func, "id", None)
                if m == "qr" or m == "svd":
                    qr.append(n)
                if m == "orth" and len(n.targets) == 1:
                    tt = n.targets[0]
                    first = tt.elts[0] if isinstance(tt, ast.Tuple) else tt
                    orth.append((n, first))
        if f.cls is not None and f.cls.name == "FullTensor":
            return None if qr else "bad claim without orthogonalisation"
        return self.bottom_up(f, orth)

    def bottom_up(self, f, orth):
        if not orth:
            return "bad claim without orthogonalisation"
        loops = [n for n in ast.walk(f.node) if isinstance(n, ast.For)]
        names = consts(f.node)
        for n, first in orth:
            over = [l for l in loops if any(x is n for x in ast.walk(l))]
            if not over:
                return "bad claim: only one core is orthogonalised"
            outer = max(over, key=lambda l: sum(1 for _ in ast.walk(l)))
            d = direction(outer.iter, names)
            if d == "up":
                return "bad claim: a core is changed after it was orthogonalised (levels visited from the root)"
            c = n.value
            dim = c.args[0] if c.args else next((k.value for k in c.keywords), None)
            if dim is None:
                return "bad claim: orthogonalised with respect to no dimension"
            tx = text(names.get(dim.id, dim) if isinstance(dim, ast.Name) else dim).replace(" ", "")
            if not (tx == "-1" or tx.endswith("order-1") or tx.endswith("ndim-1") or "shape" in tx or "size" in tx):
                return "bad claim: orthogonalised with respect to another dimension than the last one"
            mine = text(first.slice) if isinstance(first, ast.Subscript) else None
            if mine is not None:
                absorbed = False
                for m in ast.walk(outer):
                    if isinstance(m, (ast.Assign, ast.AugAssign)) and m is not n:
                        for u in (m.targets if isinstance(m, ast.Assign) else [m.target]):
                            if isinstance(u, ast.Subscript) and text(u.value) == text(first.value):
                                if text(u.slice) == mine:
                                    return "bad claim: the core is changed after it was orthogonalised"
                                absorbed = True
                if not absorbed:
                    return "bad claim: the triangular factor is not moved to the parent"
        return None


def joinclaim2(a, b):
    if a == b:
        return a
    for x, y in ((a, b), (b, a)):
        if x == "root" and y.startswith("at:"):
            return y
    return joinclaim(a, b)


def consts(fn):
    """names assigned once in a function -> the expression"""
    seen, out = {}, {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            seen[n.id] = seen.get(n.id, 0) + 1
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and seen[n.targets[0].id] == 1:
            out[n.targets[0].id] = n.value
    return out


def direction(it, names):
    """'up' when a loop visits increasing numbers starting from the root, 'down' when decreasing, None when unknown"""
    if isinstance(it, ast.Name) and it.id in names:
        it = names[it.id]
    if isinstance(it, ast.Subscript) and text(it.slice).replace(" ", "") == "::-1":
        return "down"
    if isinstance(it, ast.Call):
        n = it.func.attr if isinstance(it.func, ast.Attribute) else getattr(it.func, "id", "")
        if n in ("reversed", "flip", "flipud"):
            return "down"
        if n in ("range", "arange"):
            if len(it.args) < 3:
                return "up"
            s = text(it.args[2]).replace(" ", "")
            return "down" if s.startswith("-") else "up"
    return None


def refreshes(a):
    """update_attributes sets every derived attribute from the cores; the constructor leaves none unset"""
    out = []
    up = a.tree.lookup(REFRESH)
    init = a.tree.lookup("__init__")
    names = consts(up.node)
    state = DERIVED | SLOTS | TREE | CLAIM | {"order"}

    def go(body, have, exits, seen):
        """attributes of self set on every path that falls through (None: no such path)"""
        for s in body:
            if isinstance(s, ast.Raise):
                return None
            if isinstance(s, ast.Return):
                exits.append(have)
                return None
            v = s.value if isinstance(s, (ast.Assign, ast.Expr)) else None
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        have = have | {t.attr}
                        seen.append((t.attr, s))
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == REFRESH:
                have = have | DERIVED
            if isinstance(s, ast.If):
                x, y = go(s.body, have, exits, seen), go(s.orelse, have, exits, seen)
                if x is None and y is None:
                    return None
                have = x if y is None else y if x is None else x & y
            elif isinstance(s, ast.With):
                have = go(s.body, have, exits, seen)
                if have is None:
                    return None
            elif isinstance(s, (ast.For, ast.While)):
                go(s.body, have, [], seen)
        return have

    def certain(f, seen):
        exits = []
        h = go(f.node.body, frozenset(), exits, seen)
        exits += [h] if h is not None else []
        return frozenset.intersection(*exits) if exits else frozenset()
    stores = []
    sure = certain(up, stores)
    done = {d: [s for x, s in stores if x == d] for d in sure}
    for d in sorted(DERIVED):
        if d not in done:
            out.append((up, up.node, d, "update_attributes does not set %s on every path" % d))
            continue
        src = {u for n in ast.walk(up.node) if isinstance(n, (ast.Assign, ast.AugAssign)) and (n in done[d] or any(
            isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == d
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))) for u in reached(n.value, names)}
        if not src & SLOTS:
            out.append((up, done[d][0], d, "update_attributes does not compute %s from the cores" % d))
    first = [x for x in init.params if x != "self"][:1]
    stores = []
    have = certain(init, stores)
    for d in sorted(state - have):
        out.append((init, init.node, d, "the constructor leaves %s unset on some path" % d))
    for d, st in stores:
        for n in ast.walk(st.value):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in first and n.attr in state \
                    and d in state and n.attr != d:
                out.append((init, st, d, "the copy takes %s from %s" % (d, n.attr)))
    return out, len(done)


def reached(e, names, depth=0):
    out = {n.attr for n in ast.walk(e) if isinstance(n, ast.Attribute)}
    if depth < 3:
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id in names:
                out |= reached(names[n.id], names, depth + 1)
    return out


def analyse(ctx):
    a = Analysis(ctx)
    fs = [f for f in a.prog.all_funcs() if Fn.touched(f.node) or a.inlinable(f) or (
        f.cls is not None and f.cls.name == "FullTensor") or a.calls_inlinable(f)]
    for f in fs:
        if f.name in ("__init__", REFRESH):
            continue
        classes = [f.cls]
        if f.cls is not None and f.cls.subclasses and f.name not in ("__init__",):
            classes = [c for c in [f.cls] + f.cls.all_subclasses() if c.lookup(f.name) is f]
        for c in classes:
            Exec(a, f, c).run()
    return a, fs


def decide(prop):
    def run(ctx, rep):
        a, fs = analyse(ctx)
        rep.count("functions that replace cores or orthogonalise", len(fs))
        for k, v in a.counts.items():
            rep.count(k, len(v))
        rep.floor("functions that replace cores or orthogonalise", 15)
        rep.floor("core replacements", 20)
        if prop == "P12":
            rep.floor("claims made", 2)
        for f, node, path, how, why in a.found[prop]:
            if f.qual in ASSUMED:
                rep.sample("assumed: " + ASSUMED[f.qual])
                continue
            if how in ("leaves it", "returns it") and f.id in a.inlined and path.split(".")[0] in f.params:
                continue        # decided where it is called
            what = why[4:] if why.startswith("bad ") else why
            if prop == "P12":
                rep.violation("false orthogonality claim", "claim|%s|%s|%s" % (f.qual, clean(path), clean(what)),
                              "%s %s while it may still claim to be orthogonal: %s" % (f.qual, how, clean(what)), f.loc, f.qual)
            else:
                rep.violation("stale derived data", "stale|%s|%s|%s" % (f.qual, clean(path), clean(what)),
                              "%s %s (%s) before its %s are refreshed" % (f.qual, how, clean(path), clean(what)), f.loc, f.qual)
        if prop == "P13":
            more, n = refreshes(a)
            rep.count("derived attributes of a tree tensor", n)
            rep.floor("derived attributes of a tree tensor", 3)
            for f, node, d, msg in more:
                rep.violation("derived data not computed", "refresh|%s|%s" % (f.qual, d), msg, f.loc, f.qual)
    return run


def clean(t):
    import re
    return re.sub(r"[#|@]\w+", "", t)


RULES = {
    "P12": (decide("P12"),
            "Typestate analysis of tree based tensors and cores: every store that replaces a core other than the root core (or other "
            "than the core of the node the tensor was orthogonalised at) on an object that may carry an orthogonality claim - a "
            "copy, an argument, the result of an orthogonalisation - must be followed by the withdrawal of the claim before the "
            "object is returned, passed on or asked for something computed from the claim; every claim made must be backed by "
            "orthogonal factorisations of the cores, visited from the leaves to the root, along the last dimension.",
            ("cores of an object received as argument satisfy its claims on entry",)),
    "P13": (decide("P13"),
            "Typestate analysis of tree based tensors: after a store that replaces a core by one that may have another shape, "
            "replaces the cores or the tree, or writes a derived attribute from something else than the cores, the derived "
            "attributes must be recomputed (update_attributes or a constructor) before the tensor is returned, passed on, or its "
            "ranks or shape are read; update_attributes must set every derived attribute from the cores on every path.",
            ("derived attributes of an object received as argument agree with its cores on entry",)),
}
TECHNIQUE = {
    "P12": "typestate (must-withdraw) dataflow analysis of orthogonality claims, path-joined, with inlined helpers and method summaries",
    "P13": "typestate (must-refresh) dataflow analysis of derived attributes, path-joined, with inlined helpers and method summaries",
}
NOTE = {"P12": "decides who may hand out a claim, not the numerical accuracy of the factorisations",
        "P13": "shapes are compared symbolically: a core replaced by one reshaped to its own shape needs no refresh"}
