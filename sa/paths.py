"""Value numbering along the paths of one function (no values, no solver).

Every expression is given a term built from its syntax, in which names are replaced by the
term last assigned to them, a deep copy is the thing copied, and attributes and items that
were stored on the path read back what was stored.  Ifs fork the path (only those that
contain something the caller cares about); loops are entered once with everything they
assign replaced by new terms.  Methods of self that have a single target and no loop are
followed, so that moving statements into a helper changes nothing.
"""
import ast

MAXPATHS = 6000
ALLOC = ("empty", "zeros", "ones", "full", "list", "dict", "empty_like", "zeros_like")


class TooMany(Exception):
    pass


class Path:
    __slots__ = ("env", "store", "conds", "events", "end", "value", "depth")

    def __init__(self):
        self.env, self.store, self.conds, self.events = {}, {}, [], []
        self.end, self.value = None, None

    def copy(self):
        p = Path()
        p.env, p.store = dict(self.env), dict(self.store)
        p.conds, p.events = list(self.conds), list(self.events)
        p.end, p.value = self.end, self.value
        return p


def key(e):
    return ast.dump(e, annotate_fields=False)


def assigned(nodes):
    """names, and (name, attr/item root) stored to in statements"""
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    return out


class Walker:
    """enumerates the paths of a function; subclasses override relevant(), on_store(), on_call()"""
    follow = 3

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.fresh = 0
        self.count = 0

    # overridable ------------------------------------------------------------------------
    def relevant(self, node):
        return True

    def on_store(self, p, target, v, node):
        pass

    def on_append(self, p, target, v, node):
        pass

    def on_loop(self, p, node, outs):
        """outs: the paths through one iteration of a loop (end in None, 'continue', 'break', 'return', 'raise')"""

    def norm(self, t):
        return t

    def inline_target(self, node):
        return None

    # terms ------------------------------------------------------------------------------
    def new(self, why):
        self.fresh += 1
        return ("?", why, self.fresh)

    def ev(self, e, p):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is not None:
            return self.norm(m(e, p))
        return self.norm((type(e).__name__,) + tuple(self.ev(c, p) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)) +
                         tuple(type(c).__name__ for c in ast.iter_child_nodes(e) if isinstance(c, (ast.operator, ast.unaryop, ast.cmpop, ast.boolop))))

    def ev_Name(self, e, p):
        return p.env.get(e.id, ("name", e.id))

    def ev_Constant(self, e, p):
        return ("const", e.value if not isinstance(e.value, bytes) else str(e.value))

    def ev_Attribute(self, e, p):
        b = self.ev(e.value, p)
        t = ("attr", b, e.attr)
        return p.store.get(t, t)

    def ev_Subscript(self, e, p):
        b = self.ev(e.value, p)
        i = self.ev(e.slice, p) if not isinstance(e.slice, ast.Slice) else ("slice",) + tuple(
            self.ev(x, p) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step))
        if b[0] == "tuple" and i[0] == "const" and isinstance(i[1], int) and -len(b) < i[1] < len(b) - 1:
            return b[1:][i[1]]
        t = ("item", b, i)
        return p.store.get(t, t)

    def ev_Tuple(self, e, p):
        return ("tuple",) + tuple(self.ev(x, p) for x in e.elts)

    def ev_List(self, e, p):
        return self.ev_Tuple(e, p) if e.elts else ("list", e.lineno, e.col_offset)

    def ev_Dict(self, e, p):
        return ("dict", e.lineno, e.col_offset)

    def ev_NamedExpr(self, e, p):
        v = self.ev(e.value, p)
        p.env[e.target.id] = v
        return v

    def ev_IfExp(self, e, p):
        a, b = self.ev(e.body, p), self.ev(e.orelse, p)
        return a if a == b else ("if", self.ev(e.test, p), a, b)

    def ev_Lambda(self, e, p):
        return ("lambda", key(e))

    def comp(self, e, p):
        return ("comp", key(e)) + tuple(self.ev(g.iter, p) for g in e.generators)

    ev_ListComp = ev_GeneratorExp = ev_SetComp = ev_DictComp = comp

    def ev_Call(self, e, p):
        fn = e.func
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, p) for a in e.args]
        kws = tuple((k.arg or "**", self.ev(k.value, p)) for k in e.keywords)
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
        if name in ("deepcopy", "copy") and len(args) == 1:
            return args[0]
        if name == "copy" and not args and isinstance(fn, ast.Attribute):
            return self.ev(fn.value, p)
        if name in ("append", "extend", "insert", "add") and isinstance(fn, ast.Attribute):
            t = self.ev(fn.value, p)
            self.on_append(p, t, args[-1] if args else None, e)
            return ("const", None)
        if name in ALLOC:
            return ("new", name, e.lineno, e.col_offset) + tuple(args)
        return ("call", self.ev(fn, p)) + tuple(args) + kws

    # stores -----------------------------------------------------------------------------
    def assign(self, p, t, v, node):
        if isinstance(t, ast.Name):
            if t.id == "self":
                return
            p.env[t.id] = v
            self.on_store(p, ("name", t.id), v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(p, x.value, self.new("star"), node)
                elif v[0] == "tuple" and len(v) - 1 == len(t.elts):
                    self.assign(p, x, v[1 + i], node)
                else:
                    self.assign(p, x, ("item", v, ("const", i)), node)
        elif isinstance(t, ast.Attribute):
            k = ("attr", self.ev(t.value, p), t.attr)
            p.store[k] = v
            self.on_store(p, k, v, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, p)
            i = self.ev(t.slice, p) if not isinstance(t.slice, ast.Slice) else ("slice",)
            k = ("item", b, i)
            if i[0] != "const":
                for q in [q for q in p.store if q[0] == "item" and q[1] == b]:
                    del p.store[q]
            p.store[k] = v
            self.on_store(p, k, v, node)

    def havoc(self, p, nodes, why):
        for n in sorted(assigned(nodes) - {"self"}):
            p.env[n] = self.new(why + ":" + n)
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
                    b = self.ev(x.value, p)
                    if isinstance(x, ast.Attribute):
                        p.store[("attr", b, x.attr)] = self.new(why)
                    elif isinstance(x.slice, ast.Constant):
                        p.store[("item", b, ("const", x.slice.value))] = self.new(why)
                    else:
                        for q in [q for q in p.store if q[0] == "item" and q[1] == b]:
                            del p.store[q]

    # statements ---------------------------------------------------------------------------
    def block(self, body, paths):
        for s in body:
            live = [p for p in paths if p.end is None]
            done = [p for p in paths if p.end is not None]
            if not live:
                return done
            out = []
            for p in live:
                out += self.stmt(s, p)
            if len(out) + len(done) > MAXPATHS:
                raise TooMany(self.f.qual)
            paths = done + out
        return paths

    def call_stmt(self, e, p, sink, node):
        """a call that is followed: its paths, with the result handed to sink"""
        g = self.inline_target(e) if self.depth < self.follow else None
        if g is None:
            return None
        argv = {}
        names = list(g.params)
        vals = []
        if g.kind in ("method",) and isinstance(e.func, ast.Attribute):
            vals.append(self.ev(e.func.value, p))
        elif g.kind == "class" and isinstance(e.func, ast.Attribute):
            vals.append(("name", "cls"))
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            return None
        vals += [self.ev(a, p) for a in e.args]
        for n, v in zip(names, vals):
            argv[n] = v
        for k in e.keywords:
            argv[k.arg] = self.ev(k.value, p)
        a = g.node.args
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if x.arg not in argv:
                argv[x.arg] = self.ev(d, p)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in argv and d is not None:
                argv[x.arg] = self.ev(d, p)
        saved = p.env
        p.env = argv
        self.depth += 1
        outs = self.block(g.node.body, [p])
        self.depth -= 1
        res = []
        for q in outs:
            if q.end == "raise":
                res.append(q)
                continue
            v = q.value if q.end == "return" and q.value is not None else ("const", None)
            q.end, q.value = None, None
            q.env = dict(saved)
            sink(q, v)
            res.append(q)
        return res

    depth = 0

    def stmt(self, s, p):
        if isinstance(s, ast.Assign):
            if isinstance(s.value, ast.Call):
                r = self.call_stmt(s.value, p, lambda q, v: [self.assign(q, t, v, s) for t in s.targets], s)
                if r is not None:
                    return r
            v = self.ev(s.value, p)
            for t in s.targets:
                self.assign(p, t, v, s)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(p, s.target, self.ev(s.value, p), s)
        elif isinstance(s, ast.AugAssign):
            load = ast.copy_location(type(s.target)(**{**{k: getattr(s.target, k) for k in s.target._fields}, "ctx": ast.Load()}), s.target)
            self.assign(p, s.target, self.norm(("BinOp", self.ev(load, p), self.ev(s.value, p), type(s.op).__name__)), s)
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Call):
                r = self.call_stmt(s.value, p, lambda q, v: None, s)
                if r is not None:
                    return r
            self.ev(s.value, p)
        elif isinstance(s, ast.Return):
            if isinstance(s.value, ast.Call):
                def fin(q, v):
                    q.end, q.value = "return", v
                r = self.call_stmt(s.value, p, fin, s)
                if r is not None:
                    return r
            p.value = self.ev(s.value, p) if s.value is not None else ("const", None)
            p.end = "return"
        elif isinstance(s, ast.Raise):
            p.end = "raise"
        elif isinstance(s, (ast.Break, ast.Continue)):
            p.end = type(s).__name__.lower()
        elif isinstance(s, ast.If):
            return self.branch(s, p)
        elif isinstance(s, (ast.For, ast.While)):
            return self.loop(s, p)
        elif isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr, p)
                if it.optional_vars is not None:
                    self.assign(p, it.optional_vars, v, s)
            return self.block(s.body, [p])
        elif isinstance(s, ast.Try):
            q = p.copy()
            outs = self.block(s.body + s.orelse, [p])
            for h in s.handlers:
                r = q.copy()
                self.havoc(r, s.body, "try")
                outs += self.block(h.body, [r])
            if s.finalbody:
                outs = self.block(s.finalbody, outs)
            return outs
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    k = ("item", self.ev(t.value, p), self.ev(t.slice, p) if not isinstance(t.slice, ast.Slice) else ("slice",))
                    p.store[k] = ("deleted",)
        return [p]

    def literals(self, t, truth):
        """conditions known when t has the given truth"""
        if t[0] == "UnaryOp" and t[-1] == "Not":
            return self.literals(t[1], not truth)
        if t[0] == "BoolOp" and (t[-1] == "And") == truth:
            return [x for y in t[1:-1] for x in self.literals(y, truth)]
        return [(t, truth)]

    def consistent(self, p, lits):
        known = dict(p.conds)
        for t, v in lits:
            if known.get(t, v) != v:
                return False
            if t[0] == "const" and bool(t[1]) != v:
                return False
            # one expression equal to two different constants
            if t[0] == "Compare" and t[-1] == "Eq" and len(t) == 4 and t[2][0] == "const" and v:
                for u, w in p.conds:
                    if w and u[0] == "Compare" and u[-1] == "Eq" and len(u) == 4 and u[1] == t[1] and u[2][0] == "const" and u[2] != t[2]:
                        return False
        return True

    def branch(self, s, p):
        if not (self.relevant(s) or any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for x in ast.walk(s))):
            self.ev(s.test, p)
            self.havoc(p, s.body + s.orelse, "if")
            return [p]
        t = self.ev(s.test, p)
        outs = []
        a, b = self.literals(t, True), self.literals(t, False)
        q = p.copy()
        if self.consistent(p, a):
            p.conds += a
            outs += self.block(s.body, [p])
        if self.consistent(q, b):
            q.conds += b
            outs += self.block(s.orelse, [q])
        return outs

    def loop(self, s, p):
        if isinstance(s, ast.For):
            self.ev(s.iter, p)
        else:
            self.ev(s.test, p)
        if not (self.relevant(s) or any(isinstance(x, (ast.Return, ast.Raise)) for x in ast.walk(s))):
            self.havoc(p, [s], "loop")
            return [p]
        skip = p.copy()
        self.havoc(p, [s], "loop")
        if isinstance(s, ast.For):
            for n in assigned([s.target]):
                p.env[n] = self.new("loop:" + n)
        outs = self.block(s.body, [p])
        self.on_loop(p, s, outs)
        res = []
        for q in outs:
            if q.end in ("break", "continue", None):
                brk = q.end == "break"
                q.end = None
                res += self.block(s.orelse, [q]) if not brk and s.orelse else [q]
            else:
                res.append(q)
        return res + self.block(s.orelse, [skip])

    def run(self):
        p = Path()
        return self.block(self.f.node.body, [p])
