"""Normalisation: calls to private helpers are replaced with the body of the helper.

Used by the rules that look at one function at a time, so that a piece of a function moved to a helper is
still seen as part of it.  Only private functions (leading underscore) of the same module, or private methods
called on self that no other class defines, with few call sites, are inlined; returns must be at the end of
the helper unless the call itself is returned.
"""
import ast
import copy

MAXSITES, MAXSTMTS = 4, 120


def private(n):
    return n.startswith("_") and not n.startswith("__")


def stmts(fn):
    return sum(isinstance(x, ast.stmt) for x in ast.walk(fn))


def body_of(fn):
    b = fn.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
        b = b[1:]
    return b


def simple_args(fn):
    a = fn.args
    return not (a.vararg or a.kwarg or a.posonlyargs)


def returns(b):
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, ast.Return):
                out.append(c)
            go(c)
    for s in b:
        if isinstance(s, ast.Return):
            out.append(s)
        go(s)
    return out


class Rename(ast.NodeTransformer):
    """names of a helper: parameters replaced with expressions, locals with fresh names"""

    def __init__(self, sub):
        self.sub = sub

    def visit_Name(self, n):
        r = self.sub.get(n.id)
        if r is None:
            return n
        if isinstance(r, str):
            return ast.copy_location(ast.Name(id=r, ctx=n.ctx), n)
        r = copy.deepcopy(r)
        return ast.copy_location(r, n) if isinstance(n.ctx, ast.Load) else n

    def visit_Lambda(self, n):
        return self.scoped(n)

    def scoped(self, n):
        own = {a.arg for a in n.args.args + n.args.kwonlyargs} & set(self.sub)
        if own:
            old, self.sub = self.sub, {k: v for k, v in self.sub.items() if k not in own}
            self.generic_visit(n)
            self.sub = old
            return n
        self.generic_visit(n)
        return n

    def visit_FunctionDef(self, n):
        return self.scoped(n)


class Inliner:
    def __init__(self, trees):
        self.count = {}
        self.methods = {}
        self.k = 0
        self.inlined = {}     # id(helper node) -> number of inlined call sites
        self.sites = {}
        for t in trees:
            for n in ast.walk(t):
                if isinstance(n, ast.ClassDef):
                    for m in n.body:
                        if isinstance(m, ast.FunctionDef):
                            self.methods[m.name] = self.methods.get(m.name, 0) + 1
                if isinstance(n, ast.Attribute):
                    self.sites[n.attr] = self.sites.get(n.attr, 0) + 1
                if isinstance(n, (ast.ImportFrom, ast.Import)):
                    for x in n.names:
                        self.sites[x.name] = 99
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and private(n.value):
                    self.sites[n.value] = 99

    def module(self, tree):
        self.local = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Name):
                self.local[n.id] = self.local.get(n.id, 0) + 1
        helpers = {s.name: s for s in tree.body if isinstance(s, ast.FunctionDef) and self.eligible(s, self.local.get(s.name, 0))}
        for s in tree.body:
            if isinstance(s, ast.FunctionDef):
                self.function(s, helpers, {}, (s.name,))
            elif isinstance(s, ast.ClassDef):
                ms = {m.name: m for m in s.body if isinstance(m, ast.FunctionDef) and self.eligible(m) and self.methods.get(m.name) == 1}
                for m in s.body:
                    if isinstance(m, ast.FunctionDef):
                        self.function(m, helpers, ms, (m.name,))
        # helpers all of whose uses were inlined are no longer analysed on their own
        drop = {n for n, h in helpers.items() if self.inlined.get(id(h), 0) and self.inlined[id(h)] >= self.local.get(n, 0)}
        tree.body = [s for s in tree.body if not (isinstance(s, ast.FunctionDef) and s.name in drop)]
        for s in tree.body:
            if isinstance(s, ast.ClassDef):
                ms = {m.name: m for m in s.body if isinstance(m, ast.FunctionDef)}
                d = {n for n, h in ms.items() if self.inlined.get(id(h), 0) and self.inlined[id(h)] >= self.sites.get(n, 0)}
                s.body = [m for m in s.body if not (isinstance(m, ast.FunctionDef) and m.name in d)] or s.body

    def eligible(self, f, names=0):
        if not private(f.name) or not simple_args(f) or stmts(f) > MAXSTMTS or not 0 < self.sites.get(f.name, 0) + names <= MAXSITES:
            return False
        if any(ast.unparse(d) != "staticmethod" for d in f.decorator_list):
            return False
        for n in ast.walk(f):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Await)):
                return False
            if isinstance(n, ast.Name) and n.id in (f.name, "super"):
                return False
            if isinstance(n, ast.Attribute) and n.attr == f.name:
                return False
        return True

    def target(self, c, helpers, ms, stack):
        """(helper, its arguments including self) of a call, or None"""
        if not isinstance(c, ast.Call):
            return None
        f = c.func
        if isinstance(f, ast.Name) and f.id in helpers:
            h, pre = helpers[f.id], []
        elif isinstance(f, ast.Attribute) and f.attr in ms and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
            h = ms[f.attr]
            pre = [] if any(ast.unparse(d) == "staticmethod" for d in h.decorator_list) else [f.value]
        else:
            return None
        if h.name in stack or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            return None
        a = h.args
        ps = [x.arg for x in a.args]
        args = pre + list(c.args)
        if len(args) > len(ps):
            return None
        b = dict(zip(ps, args))
        for k in c.keywords:
            if k.arg in b or k.arg not in ps + [x.arg for x in a.kwonlyargs]:
                return None
            b[k.arg] = k.value
        ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in ps + [x.arg for x in a.kwonlyargs]:
            if p not in b:
                if p not in ds:
                    return None
                b[p] = ds[p]
        return h, b

    def instance(self, h, b, names, helpers, ms, stack):
        """statements of the helper with its parameters bound; adds the names it uses to names"""
        h = copy.deepcopy(h)
        self.function(h, helpers, ms, stack + (h.name,))
        body = body_of(h)
        stored = {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        sub, pre = {}, []
        self.k += 1
        for p, a in b.items():
            if p not in stored and (isinstance(a, ast.Name) and a.id not in stored or isinstance(a, ast.Constant)):
                sub[p] = a if isinstance(a, ast.Constant) else a.id
            else:
                n = p if p not in names else "%s__%d" % (p, self.k)
                sub[p] = n
                if not (isinstance(a, ast.Name) and a.id == n):
                    pre.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=copy.deepcopy(a)), a))
        for x in sorted(stored - set(b)):
            if x in names:
                sub[x] = "%s__%d" % (x, self.k)
        r = Rename(sub)
        body = [r.visit(s) for s in body]
        return pre, body

    def function(self, fn, helpers, ms, stack):
        if not helpers and not ms:
            return
        names = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        fn.body = self.block(fn.body, names, helpers, ms, stack)
        ast.fix_missing_locations(fn)

    def block(self, b, names, helpers, ms, stack):
        out = []
        for s in b:
            for k in ("body", "orelse", "finalbody"):
                x = getattr(s, k, None)
                if isinstance(x, list) and x and isinstance(x[0], ast.stmt) and not isinstance(s, ast.ClassDef):
                    setattr(s, k, self.block(x, names, helpers, ms, stack))
            if isinstance(s, ast.Try):
                for hd in s.handlers:
                    hd.body = self.block(hd.body, names, helpers, ms, stack)
            out += self.stmt(s, names, helpers, ms, stack)
        return out

    def stmt(self, s, names, helpers, ms, stack):
        v = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) else None
        t = self.target(v, helpers, ms, stack) if v is not None else None
        if t is not None:
            h, b = t
            rs = returns(body_of(h))
            last = body_of(h)[-1] if body_of(h) else None
            if isinstance(s, ast.Return) or not rs or rs == [last]:
                pre, body = self.instance(h, b, names, helpers, ms, stack)
                self.inlined[id(h)] = self.inlined.get(id(h), 0) + 1
                new = pre + body
                if isinstance(s, ast.Return):
                    if not rs:
                        new.append(ast.copy_location(ast.Return(value=ast.Constant(value=None)), s))
                else:
                    if rs:
                        r = new.pop()
                        val = r.value or ast.Constant(value=None)
                    else:
                        val = ast.Constant(value=None)
                    if isinstance(s, ast.Assign):
                        t0 = s.targets
                        if len(t0) == 1 and isinstance(t0[0], ast.Tuple) and isinstance(val, ast.Tuple) and len(val.elts) == len(t0[0].elts) \
                                and all(isinstance(x, ast.Name) for x in t0[0].elts) and all(isinstance(x, ast.Name) for x in val.elts) \
                                and not {x.id for x in t0[0].elts} & {x.id for x in val.elts}:
                            for x, y in zip(t0[0].elts, val.elts):
                                new.append(ast.copy_location(ast.Assign(targets=[x], value=y), s))
                        else:
                            new.append(ast.copy_location(ast.Assign(targets=t0, value=val), s))
                    elif not isinstance(val, ast.Constant):
                        new.append(ast.copy_location(ast.Expr(value=val), s))
                for x in new:
                    ast.fix_missing_locations(x)
                names |= {n.id for x in new for n in ast.walk(x) if isinstance(n, ast.Name)}
                return new or [ast.copy_location(ast.Pass(), s)]
        if isinstance(s, (ast.If, ast.While, ast.For, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef)):
            heads = {"If": ["test"], "For": ["iter"], "While": ["test"]}.get(type(s).__name__, [])
        else:
            heads = [k for k in s._fields if isinstance(getattr(s, k), ast.expr)]
        pre = []
        for k in heads:
            e = self.expr(getattr(s, k), pre, names, helpers, ms, stack, not isinstance(s, ast.While))
            setattr(s, k, e)
        for x in pre:
            ast.fix_missing_locations(x)
        return pre + [s]

    def expr(self, e, pre, names, helpers, ms, stack, hoist):
        """helper calls inside an expression: one-expression helpers are substituted, others computed before the statement"""
        me = self

        class X(ast.NodeTransformer):
            depth = 0

            def visit_BoolOp(self, n):
                n.values = [self.visit(n.values[0])] + [self.inner(x) for x in n.values[1:]]
                return n

            def visit_IfExp(self, n):
                n.test = self.visit(n.test)
                n.body, n.orelse = self.inner(n.body), self.inner(n.orelse)
                return n

            def inner(self, x):
                self.depth += 1
                x = self.visit(x)
                self.depth -= 1
                return x

            def comp(self, n):
                self.depth += 1
                self.generic_visit(n)
                self.depth -= 1
                return n
            visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_Lambda = comp

            def visit_Call(self, n):
                self.generic_visit(n)
                t = me.target(n, helpers, ms, stack)
                if t is None:
                    return n
                h, b = t
                body = body_of(h)
                if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and all(
                        isinstance(a, (ast.Name, ast.Constant, ast.Attribute)) or sum(
                            isinstance(x, ast.Name) and x.id == p for x in ast.walk(body[0].value)) <= 1 for p, a in b.items()) \
                        and not any(isinstance(x, (ast.comprehension, ast.Lambda)) for x in ast.walk(body[0].value)):
                    me.inlined[id(h)] = me.inlined.get(id(h), 0) + 1
                    return ast.copy_location(Rename(dict(b)).visit(copy.deepcopy(body[0].value)), n)
                rs = returns(body)
                if self.depth or not hoist or len(rs) != 1 or rs[0] is not body[-1] or rs[0].value is None:
                    return n
                p, new = me.instance(h, b, names, helpers, ms, stack)
                me.inlined[id(h)] = me.inlined.get(id(h), 0) + 1
                pre.extend(p + new[:-1])
                names.update(x.id for s in p + new for x in ast.walk(s) if isinstance(x, ast.Name))
                return ast.copy_location(new[-1].value, n)
        if not any(isinstance(x, ast.Call) for x in ast.walk(e)):
            return e
        return X().visit(e)


def inlined(trees):
    """trees with private helpers inlined (in place)"""
    i = Inliner(trees)
    for t in trees:
        i.module(t)
    return i
