"""Intraprocedural dependence: which inputs of a function reach its results, its effects or its refusals.

Reaching definitions over the structured syntax (branches joined, loops iterated to a fixpoint), then a
backward closure over data and control dependences from the sinks: returned and yielded values, raised
errors and assertions, stores into objects received from outside, calls made for their effect.
"""
import ast

QUIET = {"print", "warn"}


def plain(f):
    """a function of Python or numpy, or a conversion"""
    while isinstance(f, ast.Attribute):
        if f.attr in ("any", "all", "item", "get"):
            return True
        f = f.value
    return isinstance(f, ast.Name) and f.id in ("np", "numpy", "math", "float", "int", "bool", "any", "all", "min", "max", "abs", "len", "str", "isinstance",
                                                "hasattr", "getattr")


class Def:
    __slots__ = ("what", "uses", "node", "data")

    def __init__(self, what, node=None):
        self.what, self.uses, self.node, self.data = what, set(), node, set()


class Slice:
    """inputs: {"p"} parameters and {"self.attr"} paths that matter, as names"""

    def __init__(self, fn, params, value_only=False, prune=None, attrs_of=("self",), oracle=None, given=False):
        self.fn, self.params = fn, params
        self.attrs_of = set(attrs_of)
        self.alias = {}
        self.oracle = oracle
        self.inputs = {}
        self.sinks = []
        self.retsinks = []
        self.refusals = []
        self.ctrl = []
        self.prune = prune
        self.opaque = False
        self.local_funcs = {}
        self.calls = {}
        self.cycles = {}
        self.under = {}
        self.given = {} if given else None
        self.sets = {}
        self.escapes = []
        env = {}
        for p in params:
            env[p] = frozenset([self.inp(p)])
        self.env0 = dict(env)
        body = fn.body if isinstance(fn.body, list) else [ast.Return(value=fn.body)]
        self.loops = []
        self.falls = self.block(body, env)

    def completes(self):
        """the function can end normally"""
        return self.falls or bool(self.retsinks)

    def idle(self):
        """the function does nothing and returns nothing"""
        return not (self.sinks or self.escapes or any(isinstance(r.node, ast.Return) and r.node.value is not None for r in self.retsinks))

    def inp(self, name):
        d = self.inputs.get(name)
        if d is None:
            d = self.inputs[name] = Def(("in", name))
        return d

    # -- attributes of objects followed by attribute ------------------------------------------------------
    def attr(self, base, name, env):
        """definitions of base.name, including those of its items"""
        k = base + "." + name
        r = env.get(k)
        if r is None:
            r = frozenset([self.inp(self.alias.get(base, base) + "." + name)])
        for q in env:
            if q.startswith(k + "["):
                r = r | env[q]
        return r

    def item(self, base, name, key, env):
        q = "%s.%s[%s]" % (base, name, key)
        if q in env:
            return env[q]
        k = base + "." + name
        if k in env:
            return env[k]
        return frozenset([self.inp("%s.%s[%s]" % (self.alias.get(base, base), name, key))])

    def known_call(self, n, env, bound):
        """(definitions, expressions) a call of a function of the package depends on, through what the callee uses"""
        f = n.func
        recv = None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in self.attrs_of and f.value.id not in bound:
            recv = f.value.id
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return None
        r = self.oracle(n, recv)
        if r is None:
            return None
        callee, summary = r
        defs, exprs = set(), []
        args, attrs = {}, {}
        ps = list(callee.params)
        off = 1 if recv is not None and callee.kind == "method" else 0
        if off == 0 and callee.kind == "method":
            ps = list(callee.params)
        pos = ps[off:]
        inner = {}
        for x in summary:
            if "." in x:
                p, y = x.split(".", 1)
                inner.setdefault(p, []).append(y)

        def part(p, a):
            """what the callee uses of the argument a of its parameter p"""
            nonlocal defs
            if p in summary:
                exprs.append(a)
            if p in inner:
                if isinstance(a, ast.Name) and a.id in self.attrs_of and a.id not in bound:
                    for y in inner[p]:
                        defs |= self.item(a.id, *y[:-1].split("[", 1), env) if "[" in y else self.attr(a.id, y, env)
                elif p not in summary:
                    exprs.append(a)

        for i, a in enumerate(n.args):
            if i >= len(pos):
                if callee.vararg is None:
                    return None
                if callee.vararg in summary:
                    exprs.append(a)
            else:
                args[pos[i]] = self.uses(a, env, bound)
                part(pos[i], a)
        for k in n.keywords:
            if k.arg in ps or k.arg in callee.kwonly:
                args[k.arg] = self.uses(k.value, env, bound)
                part(k.arg, k.value)
            else:
                exprs.append(k.value)
        if recv is not None and off:
            me = ps[0]
            for x in summary:
                if x == me:
                    exprs.append(f.value)
                elif x.startswith(me + "."):
                    y = x[len(me) + 1:]
                    if "[" in y:
                        a, b = y[:-1].split("[", 1)
                        v = self.item(recv, a, b, env)
                    else:
                        v = self.attr(recv, y, env)
                    attrs[y] = v
                    defs |= v
        self.calls[n] = (callee, args, attrs)
        return defs, exprs

    # -- uses --------------------------------------------------------------------------------------------
    def uses(self, e, env, skip=()):
        """definitions an expression depends on"""
        out = set()
        if e is None:
            return out
        todo = [(e, frozenset(skip))]
        while todo:
            n, bound = todo.pop()
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load) and n.id not in bound:
                    out |= env.get(n.id, frozenset())
                    if n.id in self.attrs_of:
                        for k in env:
                            if k.startswith(n.id + "."):
                                out |= env[k]
                    if n.id in ("eval", "exec", "locals", "vars"):
                        self.opaque = True
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(
                    n.left, ast.Constant) and isinstance(n.left.value, str):
                # whether a key is there is not what is under it
                v = n.comparators[0]
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id in self.attrs_of and v.value.id not in bound:
                    out |= self.item(v.value.id, v.attr, "?" + n.left.value, env)
                    continue
            if isinstance(n, ast.Call):
                self.under[n] = set().union(*self.ctrl) if self.ctrl else set()
                if self.given is not None:
                    a, b = self.given.setdefault(n, (set(), set()))
                    a |= self.uses(n.func, env, bound)
                    for x in n.args + [k.value for k in n.keywords]:
                        b |= self.uses(x, env, bound)
            if isinstance(n, ast.Call) and self.oracle is not None:
                r = self.known_call(n, env, bound)
                if r is not None:
                    out |= r[0]
                    todo.extend((x, bound) for x in r[1])
                    continue
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in self.attrs_of and n.value.id not in bound:
                out |= self.attr(n.value.id, n.attr, env)
                continue
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, (str, int)):
                v = n.value
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id in self.attrs_of:
                    out |= self.item(v.value.id, v.attr, n.slice.value, env)
                    continue
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                a = n.args
                b = bound | {x.arg for x in a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | (
                    {a.kwarg.arg} if a.kwarg else set())
                for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
                    todo.append((d, bound))
                body = n.body if isinstance(n.body, list) else [n.body]
                if isinstance(n, ast.FunctionDef):
                    b = b | {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for s in body:
                    todo.append((s, b))
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                b = bound | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                todo.append((n.generators[0].iter, bound))
                for i, g in enumerate(n.generators):
                    if i:
                        todo.append((g.iter, b))
                    for c in g.ifs:
                        todo.append((c, b))
                for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    todo.append((x, b))
                continue
            for c in ast.iter_child_nodes(n):
                todo.append((c, bound))
        return out

    def walrus(self, e, env):
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                self.define(n.target, self.uses(n.value, env), env, n)

    def make(self, what, uses, node):
        d = Def(what, node)
        d.uses = set(uses)
        d.data = set(uses)
        for c in self.ctrl:
            d.uses |= c
        return d

    def sink(self, uses, node, ret=False):
        d = self.make("sink", uses, node)
        (self.retsinks if ret else self.sinks).append(d)

    # -- definitions -------------------------------------------------------------------------------------
    def define(self, t, uses, env, node, weak=False):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.define(x, uses, env, node)
        elif isinstance(t, ast.Starred):
            self.define(t.value, uses, env, node)
        elif isinstance(t, ast.Name):
            for k in [k for k in env if k.startswith(t.id + ".")]:
                del env[k]
            d = self.make(t.id, uses, node)
            env[t.id] = (env.get(t.id, frozenset()) if weak else frozenset()) | frozenset([d])
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            idx = set()
            x = t
            while isinstance(x, (ast.Attribute, ast.Subscript)):
                if isinstance(x, ast.Subscript):
                    idx |= self.uses(x.slice, env)
                x = x.value
            if isinstance(x, ast.Name):
                root = x.id
                if root in self.attrs_of:
                    self.define_attr(t, root, set(uses) | idx, env, node)
                    return
                d = self.make(root, set(uses) | idx | env.get(root, frozenset()), node)
                ext = any(isinstance(z.what, tuple) for z in env.get(root, frozenset())) or root not in env
                env[root] = env.get(root, frozenset()) | frozenset([d])
                if ext:
                    self.escapes.append(d)
            else:
                self.sink(set(uses) | idx | self.uses(t.value, env), node)

    def define_attr(self, t, root, uses, env, node):
        """store through an object followed by attribute: root.a = / root.a["k"] = / root.a.b[i] ="""
        y, items = t, 0
        chain = []
        while isinstance(y, (ast.Attribute, ast.Subscript)):
            chain.append(y)
            y = y.value
        first = chain[-1]
        if not isinstance(first, ast.Attribute):
            d = self.make(root, uses, node)
            env[root] = env.get(root, frozenset()) | frozenset([d])
        else:
            k = root + "." + first.attr
            if len(chain) == 1:
                for q in [q for q in env if q.startswith(k + "[")]:
                    del env[q]
                d = self.make(k, uses, node)
                env[k] = frozenset([d])
                self.sets[node] = (root, first.attr, d, True)
            elif len(chain) == 2 and isinstance(chain[0], ast.Subscript) and isinstance(chain[0].slice, ast.Constant) and isinstance(
                    chain[0].slice.value, (str, int)):
                d = self.make(k, uses, node)
                env["%s[%s]" % (k, chain[0].slice.value)] = frozenset([d])
            else:
                d = self.make(k, uses, node)
                env[k] = self.attr(root, first.attr, env) | frozenset([d])
                self.sets[node] = (root, first.attr, d, False)
                for q in [q for q in env if q.startswith(k + "[")]:
                    env[q] = env[q] | frozenset([d])
        if root not in self.alias:
            self.escapes.append(d)

    def copied(self, e):
        """the followed object an expression is a copy of"""
        if isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.Name) and e.args[0].id in self.attrs_of:
            f = e.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "copy" else None
            if name in ("copy", "deepcopy"):
                return e.args[0].id
        return None

    def follow(self, name, src, uses, env, node):
        for k in [k for k in env if k.startswith(name + ".")]:
            del env[k]
        self.alias[name] = self.alias.get(src, src)
        self.attrs_of.add(name)
        for k in [k for k in env if k.startswith(src + ".")]:
            env[name + k[len(src):]] = env[k]
        d = self.make(name, uses, node)
        env[name] = frozenset([d])

    def unfollow(self, name, env):
        if name in self.attrs_of and name in self.alias:
            self.attrs_of.discard(name)
            self.alias.pop(name)

    def callwrites(self, e, env, node):
        """attributes of a followed object set by the methods called on it"""
        if self.oracle is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in self.attrs_of:
                r = self.oracle(n, n.func.value.id, True)
                if not r:
                    continue
                root = n.func.value.id
                u = self.uses(n, env)
                for a in r:
                    k = root + "." + a
                    d = self.make(k, u, node)
                    env[k] = self.attr(root, a, env) | frozenset([d])
                    for q in [q for q in env if q.startswith(k + "[")]:
                        env[q] = env[q] | frozenset([d])
                    if root not in self.alias:
                        self.escapes.append(d)

    # -- statements --------------------------------------------------------------------------------------
    def block(self, body, env):
        """False when control does not fall through"""
        for s in body:
            if not self.stmt(s, env):
                return False
        return True

    def root(self, e):
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            e = e.func if isinstance(e, ast.Call) else e.value
        return e.id if isinstance(e, ast.Name) else None

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            if isinstance(s.value, ast.Name) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == s.value.id:
                return True
            u = self.uses(s.value, env)
            self.walrus(s.value, env)
            self.callwrites(s.value, env, s)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and self.copied(s.value):
                self.follow(s.targets[0].id, self.copied(s.value), u, env, s)
                return True
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.unfollow(x.id, env)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(
                    s.targets[0].elts) == len(s.value.elts):
                us = [self.uses(v, env) for v in s.value.elts]
                for t, x in zip(s.targets[0].elts, us):
                    self.define(t, x, env, s)
            else:
                for t in s.targets:
                    self.define(t, u, env, s)
            self.effects(s.value, env, s)
            return True
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.define(s.target, self.uses(s.value, env), env, s)
            return True
        if isinstance(s, ast.AugAssign):
            t = s.target
            u = self.uses(s.value, env)
            if isinstance(t, ast.Name):
                u |= env.get(t.id, frozenset())
            else:
                import copy
                l = copy.deepcopy(t)
                l.ctx = ast.Load()
                u |= self.uses(l, env)
            self.define(t, u, env, s)
            return True
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Constant):
                return True
            if isinstance(v, (ast.Yield, ast.YieldFrom, ast.Await)):
                self.sink(self.uses(v, env), s, True)
                return True
            u = self.uses(v, env)
            self.walrus(v, env)
            self.callwrites(v, env, s)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
                r = self.root(v.func.value)
                if r is not None and r in env and r not in self.attrs_of:
                    d = self.make(r, u, s)
                    ext = any(isinstance(z.what, tuple) for z in env[r])
                    env[r] = env[r] | frozenset([d])
                    if ext:
                        self.escapes.append(d)
                    self.effects(v, env, s)
                    return True
            self.sink(u, s)
            return True
        if isinstance(s, ast.Return):
            self.sink(self.uses(s.value, env), s, True)
            if isinstance(s.value, ast.Name) and s.value.id in self.attrs_of:
                self.retsinks[-1].what = "object"
            return False
        if isinstance(s, ast.Raise):
            self.refusals.append(self.make("refusal", self.uses(s.exc, env), s))
            return False
        if isinstance(s, ast.Assert):
            self.refusals.append(self.make("refusal", self.uses(s.test, env), s))
            return True
        if isinstance(s, ast.If):
            k = self.prune(s.test) if self.prune else None
            if k is True:
                return self.block(s.body, env)
            if k is False:
                return self.block(s.orelse, env)
            u = self.uses(s.test, env)
            self.walrus(s.test, env)
            self.ctrl.append(u)
            e1, e2 = dict(env), dict(env)
            a, b = self.block(s.body, e1), self.block(s.orelse, e2)
            self.ctrl.pop()
            if a != b:
                # what follows is executed under this condition
                self.ctrl.append(u)
                self.pending = getattr(self, "pending", 0)
            self.join(env, [x for x, y in ((e1, a), (e2, b)) if y])
            if a != b:
                c = self.ctrl.pop()
                self.tail(c)
            return a or b
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, env)
        if isinstance(s, ast.With):
            for i in s.items:
                u = self.uses(i.context_expr, env)
                if i.optional_vars is not None:
                    self.define(i.optional_vars, u, env, s)
                else:
                    self.sink(u, s)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            e0 = dict(env)
            a = self.block(s.body + s.orelse, env)
            outs = [dict(env)] if a else []
            for h in s.handlers:
                e = {k: env.get(k, frozenset()) | e0.get(k, frozenset()) for k in set(env) | set(e0)}
                if self.block(h.body, e):
                    outs.append(e)
            self.join(env, outs)
            r = bool(outs)
            return self.block(s.finalbody, env) and r
        if isinstance(s, ast.FunctionDef):
            d = self.make(s.name, self.uses(s, env), s)
            env[s.name] = frozenset([d])
            return True
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.define(t, set(), env, s)
            return True
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1]["out"].append(dict(env))
                self.left()
            return False
        if isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1]["next"].append(dict(env))
                self.left()
            return False
        return True

    def tail(self, cond):
        """a branch that leaves the function makes the rest depend on its condition"""
        self.ctrl.append(cond)
        self.extra = getattr(self, "extra", 0) + 1

    def effects(self, e, env, s):
        """arguments changed by the functions they are passed to are out of reach: nothing to do"""

    def join(self, env, outs):
        if not outs:
            return
        ks = set().union(*outs)
        new = {}
        for k in ks:
            v = frozenset()
            for o in outs:
                if k in o:
                    v |= o[k]
                elif "." in k:
                    b, a = k.split(".", 1)
                    v |= frozenset([self.inp(self.alias.get(b, b) + "." + a)])
            new[k] = v
        env.clear()
        env.update(new)

    def left(self):
        """the conditions under which an iteration is cut short decide what the loop computes"""
        for c in self.ctrl[self.loops[-1]["depth"]:]:
            self.loops[-1]["cond"] |= c

    def loop(self, s, env):
        depth = len(self.ctrl)
        if isinstance(s, ast.For):
            u = self.uses(s.iter, env)
        else:
            u = self.uses(s.test, env)
        k = self.prune(s.test) if self.prune and isinstance(s, ast.While) else None
        if k is False:
            return self.block(s.orelse, env)
        fr = {"out": [], "next": [], "cond": set(), "depth": depth}
        self.cycles[s] = (u, fr["cond"])
        for _ in range(3):
            self.loops.append(fr)
            self.ctrl.append(set(fr["cond"]))
            head = dict(env)
            if isinstance(s, ast.For):
                self.ctrl.append(u)
                self.define(s.target, u, head, s)
            else:
                u = u | self.uses(s.test, head)
                self.cycles[s] = (u, fr["cond"])
                self.ctrl.append(u)
            d = len(self.ctrl)
            fell = self.block(s.body, head)
            del self.ctrl[d:]
            self.ctrl.pop()
            self.ctrl.pop()
            self.loops.pop()
            outs = [dict(env)] + ([head] if fell else []) + fr["next"]
            self.join(env, outs)
        del self.ctrl[depth:]
        ok = True
        if s.orelse:
            ok = self.block(s.orelse, env)
        self.join(env, ([dict(env)] if ok else []) + fr["out"])
        return True

    # -- result --------------------------------------------------------------------------------------------
    def closure(self, defs):
        seen, todo = set(), list(defs)
        while todo:
            d = todo.pop()
            if d in seen:
                continue
            seen.add(d)
            todo.extend(d.uses)
        return seen

    def copied_input(self, n):
        """the statement gives an input, or a copy of it, as it is"""
        e = getattr(n, "value", None)
        if isinstance(e, ast.Call) and len(e.args) == 1 and ast.unparse(e.func) in ("copy", "deepcopy", "copy.copy", "copy.deepcopy"):
            e = e.args[0]
        return isinstance(e, ast.Name) and e.id in self.params

    def values(self, defs):
        """inputs a value is computed from, the choices made on the way set aside"""
        seen, todo = set(), list(defs)
        while todo:
            d = todo.pop()
            if d not in seen:
                seen.add(d)
                todo.extend(d.data)
        return {d.what[1] for d in seen if isinstance(d.what, tuple)}

    def decides(self, defs):
        """inputs compared when the values are: no further than the results of the functions of the package;
        a constant (a flag) stands for the choice that set it"""
        seen, todo = set(), list(defs)
        while todo:
            d = todo.pop()
            if d not in seen:
                seen.add(d)
                if isinstance(d.node, ast.For):
                    continue
                v = getattr(d.node, "value", None) if isinstance(d.node, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) else None
                if v is not None and any(isinstance(x, ast.Call) and not plain(x.func) for x in ast.walk(v)):
                    continue
                todo.extend(d.data or d.uses)
        return {d.what[1] for d in seen if isinstance(d.what, tuple)}

    def influences(self, refusals=True, quiet=None):
        """inputs that reach results or effects (and refusals)"""
        ds = [d for d in self.sinks if not (quiet and quiet(d.node))] + self.retsinks + self.escapes + (self.refusals if refusals else [])
        return {d.what[1] for d in self.closure(ds) if isinstance(d.what, tuple)}

    def results(self):
        """the alternatives a function returns: (node, inputs one of them depends on)"""
        out = []
        for r in self.retsinks:
            if not isinstance(r.node, ast.Return) or r.node.value is None:
                continue
            if isinstance(r.node.value, ast.Name) and r.what != "object":
                ds = [d for d in r.data]
                below = {d: self.closure([d]) for d in ds}
                for d in ds:
                    # a definition refined by another one that reaches the same return is not an alternative of its own
                    if any(e is not d and d in below[e] and not (e in below[d]) for e in ds):
                        continue
                    # where a result is returned from is a choice too
                    out.append((d.node or r.node, {x.what[1] for x in self.closure([d] + list(r.uses - r.data)) if isinstance(x.what, tuple)}))
            else:
                out.append((r.node, {x.what[1] for x in self.closure([r]) if isinstance(x.what, tuple)}))
        return out
