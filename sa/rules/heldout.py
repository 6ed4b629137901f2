"""P10: the held-out data reaches only the test error, early stopping and the selection among recorded iterates.

Forward taint over the syntax, flow-sensitive and interprocedural.  The places that may hold test data or
what is computed from it are named (attributes test_data, bases_eval_test, basis_eval_test, test_error; keys
test_error, test_error_iterations); a tainted value stored anywhere else, returned by a solver as part of the
model, or deciding of something else than leaving a loop, is a violation.
"""
import ast

HELD = {"test_data", "bases_eval_test", "basis_eval_test"}
FLAG = "test_error"
KEYS = {"test_error", "test_error_iterations"}
REPORT_KEYS = KEYS | {"flag", "selected_model_number"}
FREE_ATTRS = HELD | {FLAG, "model_selection", "display", "store_iterates", "_warnings"}
MUTATORS = {"append", "extend", "insert", "update", "setdefault", "add", "fill", "put", "sort", "itemset", "__setitem__"}
TALK = {"print", "warn", "write", "flush", "info", "debug", "warning"}
NONE = frozenset()
T, F, R, I = "held-out", "flag", "records", "record"


def const(e):
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None


def fname(n):
    return n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
        e = e.value
    return e


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, NONE) | v
    return out


class Held:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.memo, self.busy = {}, set()
        self.found, self.seen = {}, {}
        base = prog.cls("Learning")
        self.classes = [base] + base.all_subclasses()
        self.methods = {}
        for c in self.classes:
            for m in c.methods.values():
                self.methods.setdefault(m.name, []).append(m)

    def mentions(self, f):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in HELD or const(n) in KEYS | HELD:
                return True
        return False

    def entries(self):
        fs = {m.id: m for c in self.classes for m in c.methods.values()}
        for f in self.prog.all_funcs():
            if self.mentions(f):
                fs[f.id] = f
        return [fs[k] for k in sorted(fs)]

    def callees(self, f, n):
        """the functions of the learning package a call may run"""
        fn = n.func
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if isinstance(v, ast.Attribute) and v.attr in ("loss_function",) or isinstance(v, ast.Name) and v.id in ("np", "numpy", "scipy", "sp", "tf"):
                return []
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                return [m for m in self.methods.get(fn.attr, []) if f.cls is not None and m.cls in f.cls.mro[1:]]
            if fn.attr in ("eval", "__init__"):
                return []
            if isinstance(v, ast.Name) and f.cls is not None and f.params[:1] == [v.id]:
                return [m for m in self.methods.get(fn.attr, []) if m.cls in f.cls.family()]
            return self.methods.get(fn.attr, [])
        if isinstance(fn, ast.Name):
            g = f.module.functions.get(fn.id)
            if g is None and fn.id in f.module.imports:
                g = self.prog.resolve_dotted(f.module.imports[fn.id])
                g = g[1] if isinstance(g, tuple) and g[0] == "func" else None
            return [g] if g is not None and hasattr(g, "params") and ".approximation." in g.module.name else []
        return []

    def summary(self, f, held, ctl):
        """what the results hold when the parameters `held` do; reports on the way"""
        k = (f.id, held, ctl)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy or len(self.busy) > 40:
            return [NONE]
        self.busy.add(k)
        try:
            r = Walk(self, f, held, ctl).run()
        finally:
            self.busy.discard(k)
        self.memo[k] = r
        return r

    def report(self, f, node, what, msg):
        key = "%s|%s" % (f.qual, what)
        if key not in self.found:
            self.found[key] = (f, node, msg)

    def check(self, kind, f, node):
        self.seen.setdefault((kind, f.id, node.lineno, node.col_offset), f)


class Walk:
    """one function: env maps names and constant-key paths to tags"""

    def __init__(self, H, f, held, ctl):
        self.H, self.f, self.ctl0 = H, f, ctl
        self.held = held
        self.rets = []
        self.guards = []
        self.loops = []
        self.defs = {}
        self.once = {}
        cnt = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.once[n.targets[0].id] = n.value
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                cnt[n.id] = cnt.get(n.id, 0) + 1
        self.once = {k: v for k, v in self.once.items() if cnt.get(k) == 1}

    def run(self):
        f = self.f
        allp = list(f.params) + list(f.kwonly) + [x for x in (f.vararg, f.kwarg) if x]
        self.params = set(allp)
        env = {p: frozenset([T]) if p in self.held else NONE for p in allp}
        self.block(f.node.body, env, self.ctl0)
        n = {len(r) for r in self.rets}
        if len(n) == 1 and n != {1}:
            return [frozenset().union(*(r[i] for r in self.rets)) for i in range(n.pop())]
        return [frozenset().union(NONE, *(x for r in self.rets for x in r))]

    # -- expressions --------------------------------------------------------------------
    def path(self, e):
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and const(e.slice) is not None:
            return "%s[%s]" % (e.value.id, const(e.slice))
        return None

    def ev(self, e, env):
        if e is None or isinstance(e, (ast.Constant, str)):
            return NONE
        if isinstance(e, ast.Name):
            return env.get(e.id, NONE)
        if isinstance(e, ast.Attribute):
            if e.attr in HELD:
                self.H.check("reads of held-out data", self.f, e)
                return frozenset([T])
            if e.attr == FLAG:
                return frozenset([F])
            return self.ev(e.value, env) - {R, I}
        if isinstance(e, ast.Subscript):
            return self.item(e, env)
        if isinstance(e, ast.Call):
            return self.call(e, env, None)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.bind(e.target, v, e.value, env, None)
            return v
        if isinstance(e, ast.IfExp):
            c = self.ev(e.test, env)
            self.guards.append((e.test, True))
            a = self.ev(e.body, env)
            self.guards[-1] = (e.test, False)
            b = self.ev(e.orelse, env)
            self.guards.pop()
            return a | b | (c & {T})
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            cond = NONE
            for g in e.generators:
                self.iterate(g.target, g.iter, env2)
                for c in g.ifs:
                    cond |= self.ev(c, env2) & {T}
            parts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            return frozenset().union(cond, *(self.ev(p, env2) for p in parts))
        if isinstance(e, ast.Lambda):
            env2 = {k: v for k, v in env.items() if k not in [a.arg for a in e.args.args]}
            return self.ev(e.body, env2)
        out = NONE
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.ev(c, env)
            elif isinstance(c, ast.comprehension):
                out |= self.ev(c.iter, env)
        return out

    def item(self, e, env):
        k = const(e.slice)
        if k is not None:
            base = self.ev(e.value, env)
            if k in KEYS:
                self.H.check("reads of test errors", self.f, e)
                return frozenset([T])
            if k == "iterates" or k.endswith("_iterations"):
                return frozenset([R]) | (base & {T}) | env.get(self.path(e) or "", NONE)
            p = self.path(e)
            return (base - {R, I}) | (env.get(p, NONE) if p else NONE)
        b, i = self.ev(e.value, env), self.ev(e.slice, env) if not isinstance(e.slice, ast.Slice) else NONE
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                i |= self.ev(x, env)
            return b | (i & {T})
        if R in b:
            if T in i:
                self.select(e)
            return (b - {R}) | {I}
        return (b - {I}) | (i & {T})

    def select(self, e):
        self.H.check("selections among the records with the test error", self.f, e)
        ok = [self.says(t, p, self.asked) for t, p in self.guards]
        if not any(ok):
            self.H.report(self.f, e, "selection|%s" % ast.unparse(e), "%s is chosen with the test errors although the user did not ask for a selection with the test error" % ast.unparse(e))
        elif self.f.name == "solve" and not any(self.says(t, p, lambda x, pol: pol and any(isinstance(y, ast.Attribute) and y.attr == "model_selection" for y in ast.walk(x)))
                                                for t, p in self.guards):
            self.H.report(self.f, e, "selection|%s|always" % ast.unparse(e), "%s is chosen with the test errors although the model selection may be disabled" % ast.unparse(e))

    @staticmethod
    def asked(t, pol):
        """the atom says that the type of selection is the test error"""
        if not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return False
        names = {const(x) for x in ast.walk(t)}
        if "test_error" not in names:
            return False
        return isinstance(t.ops[0], (ast.Eq, ast.In, ast.Is)) if pol else isinstance(t.ops[0], (ast.NotEq, ast.NotIn, ast.IsNot))

    def says(self, t, pol, atom, depth=0):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.says(t.operand, not pol, atom, depth)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == pol:
                return any(self.says(v, pol, atom, depth) for v in t.values)
            return all(self.says(v, pol, atom, depth) for v in t.values)
        if isinstance(t, ast.Name) and t.id in self.once and depth < 3:
            return self.says(self.once[t.id], pol, atom, depth + 1)
        return atom(t, pol)

    def call(self, n, env, ctl, statement=False):
        name = fname(n)
        args = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
        tags = [self.ev(a, env) for a in args]
        recv = self.ev(n.func.value, env) if isinstance(n.func, ast.Attribute) else NONE
        if isinstance(n.func, ast.Attribute) and n.func.attr in HELD:
            recv |= {T}
        if isinstance(n.func, ast.Name) and n.func.id in env:
            recv |= env[n.func.id]
        if name == "getattr" and len(n.args) >= 2 and const(n.args[1]):
            k = const(n.args[1])
            return frozenset([T]) if k in HELD else frozenset([F]) if k == FLAG else tags[0]
        if name == "get" and n.args and const(n.args[0]) in KEYS:
            return frozenset([T])
        if name in TALK:
            return NONE
        if name == "setattr" and len(n.args) == 3:
            k = const(n.args[1])
            if k is not None:
                self.store_attr(n, k, tags[2], n.args[2], env, ctl, n.args[0])
            return NONE
        allt = frozenset().union(recv, *tags) if tags else recv
        tainted = T in allt
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and (T in frozenset().union(NONE, *tags) or ctl == "C"):
            new = frozenset().union(NONE, *tags) & {T} or frozenset([T])
            self.store_into(n.func.value, n, new, env, ctl)
        if name in ("argmin", "argmax", "nanargmin", "nanargmax", "deepcopy", "copy", "asarray", "array", "list", "tuple"):
            return allt
        gs = self.H.callees(self.f, n)
        out = None
        arg_t = frozenset().union(NONE, *tags)
        for g in gs:
            held = self.held_params(g, n, env) if T in arg_t else frozenset()
            if T in arg_t and not held and g.params:
                continue
            r = self.H.summary(g, held, "C" if ctl == "C" else None)
            if held:
                self.H.check("calls of learning functions given held-out values", self.f, n)
            out = r if out is None else ([x | y for x, y in zip(out, r)] if len(out) == len(r) else [frozenset().union(*out, *r)])
        if out is not None:
            self.parts = (n, out)
            return frozenset().union(*out) & {T, F}
        if statement and (tainted or ctl == "C") and isinstance(n.func, ast.Attribute):
            if isinstance(root(n.func), ast.Name) and root(n.func).id in ("np", "numpy", "tensap", "warnings", "sys", "plt"):
                if n.args and name in ("copyto", "put", "place", "fill_diagonal"):
                    self.store_into(n.args[0], n, frozenset([T]), env, ctl)
            elif n.func.attr not in MUTATORS and T in arg_t:
                self.store_into(n.func.value, n, frozenset([T]), env, ctl)
        return (allt & {T}) | (allt & {R, I} if name in ("enumerate", "reversed", "sorted", "iter", "zip") else NONE)

    def held_params(self, g, n, env):
        ps = list(g.params)
        if isinstance(n.func, ast.Attribute) and g.kind != "static" and g.cls is not None:
            ps = ps[1:]
        out = set()
        for k, a in enumerate(n.args):
            v = a.value if isinstance(a, ast.Starred) else a
            if T in self.ev(v, env):
                if isinstance(a, ast.Starred):
                    out |= set(ps[k:]) | ({g.vararg} if g.vararg else set())
                else:
                    out.add(ps[k] if k < len(ps) else g.vararg)
        for k in n.keywords:
            if T in self.ev(k.value, env):
                out.add(k.arg if k.arg in ps or k.arg in g.kwonly else g.kwarg)
        return frozenset(x for x in out if x)

    # -- stores ---------------------------------------------------------------------------
    def copies(self, e, env):
        """the value exists already, or is a step back in a count"""
        if e is None:
            return False
        if isinstance(e, (ast.Constant, ast.Name, ast.Attribute)):
            return True
        if isinstance(e, ast.Subscript):
            return self.copies(e.value, env)
        if isinstance(e, (ast.Tuple, ast.List)):
            return all(self.copies(x, env) for x in e.elts)
        if isinstance(e, (ast.BinOp,)):
            return self.copies(e.left, env) and self.copies(e.right, env)
        if isinstance(e, ast.UnaryOp):
            return self.copies(e.operand, env)
        if isinstance(e, ast.Compare):
            return True
        if isinstance(e, ast.Call):
            return fname(e) in ("deepcopy", "copy", "FunctionalTensor") and all(self.copies(x, env) for x in e.args)
        return False

    def under(self, tags, value, env, ctl):
        """tags of a value assigned under a condition"""
        if ctl == "C" and not (I in tags and any(self.says(t, p, self.asked) for t, p in self.guards)):
            return tags | {T}
        if ctl == "L" and not self.copies(value, env):
            return tags | {T}
        return tags

    def store_attr(self, node, attr, tags, value, env, ctl, owner):
        tags = self.under(tags, value, env, ctl)
        if ctl == "L" and any(isinstance(x, (ast.BinOp, ast.Call)) for x in ast.walk(value)):
            tags = tags | {T}
        self.H.check("stores into attributes", self.f, node)
        if T in tags and attr not in FREE_ATTRS:
            self.H.report(self.f, node, ".%s" % attr, "%s.%s is given a value that depends on the held-out data" % (ast.unparse(owner) if not isinstance(owner, str) else owner, attr))

    def store_into(self, target, node, tags, env, ctl, key=None):
        """an element of `target` takes a value with these tags"""
        r = target
        # the first attribute, or the first constant key, of the path decides
        while True:
            if isinstance(r, ast.Subscript) and const(r.slice) in REPORT_KEYS:
                return
            if isinstance(r, ast.Attribute):
                if r.attr in FREE_ATTRS:
                    return
                base = root(r)
                if isinstance(base, ast.Name) and base.id not in self.params and base.id in env and r is not target and not self.shared(base.id, env):
                    break
                self.H.check("stores into attributes", self.f, node)
                if T in tags:
                    self.H.report(self.f, node, ".%s" % r.attr, "%s receives a value that depends on the held-out data" % ast.unparse(target))
                return
            if isinstance(r, (ast.Subscript, ast.Starred)):
                if isinstance(r, ast.Subscript) and const(r.slice) is not None and isinstance(r.value, ast.Name):
                    p = self.path(r)
                    if r.value.id in self.params and T in tags:
                        self.H.report(self.f, node, "[%s]" % const(r.slice), "%s receives a value that depends on the held-out data" % ast.unparse(target))
                        return
                    env[p] = env.get(p, NONE) | tags
                    return
                r = r.value
                continue
            break
        r = root(r)
        if isinstance(r, ast.Name):
            if r.id in self.params and T in tags and r.id not in self.held:
                self.H.report(self.f, node, "argument %s" % r.id, "%s, given by the caller, receives a value that depends on the held-out data" % r.id)
            env[r.id] = env.get(r.id, NONE) | (tags & {T})

    def shared(self, name, env):
        return True

    def bind(self, t, tags, value, env, ctl, parts=None):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in value.elts + t.elts):
                old = dict(env)
                for a, v in zip(t.elts, value.elts):
                    self.bind(a, self.ev(v, old), v, env, ctl)
                return
            for k, a in enumerate(t.elts):
                a = a.value if isinstance(a, ast.Starred) else a
                self.bind(a, parts[k] if parts is not None and len(parts) == len(t.elts) else tags, value, env, ctl)
            return
        if isinstance(t, ast.Starred):
            return self.bind(t.value, tags, value, env, ctl)
        if isinstance(t, ast.Name):
            new = self.under(tags, value, env, ctl)
            env[t.id] = new
            for k in [k for k in env if k.startswith(t.id + "[")]:
                del env[k]
            if isinstance(value, ast.Dict):
                env[t.id] = NONE
                for k, v in zip(value.keys, value.values):
                    if k is not None and const(k) is not None:
                        env["%s[%s]" % (t.id, const(k))] = self.ev(v, env)
                    else:
                        env[t.id] = env[t.id] | (self.ev(v, env) & {T})
            return
        if isinstance(t, ast.Attribute):
            return self.store_attr(t, t.attr, tags, value, env, ctl, t.value)
        if isinstance(t, ast.Subscript):
            idx = self.ev(t.slice, env) & {T}
            new = self.under(tags, value, env, ctl) | idx
            k = const(t.slice)
            if k is not None:
                self.H.check("stores under keys", self.f, t)
                if k in REPORT_KEYS:
                    return
                if isinstance(t.value, ast.Name) and t.value.id not in self.params:
                    env[self.path(t)] = new
                    return
                if T in new:
                    return self.store_into(t, t, new, env, ctl)
                return
            if T in new:
                self.store_into(t.value, t, new, env, ctl)

    # -- statements -------------------------------------------------------------------------
    def iterate(self, target, it, env):
        if isinstance(it, ast.Call) and fname(it) == "zip" and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == len(it.args):
            for a, v in zip(target.elts, it.args):
                self.bind(a, self.element(self.ev(v, env)), None, env, None)
            return
        if isinstance(it, ast.Call) and fname(it) == "enumerate" and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2 and it.args:
            self.bind(target.elts[0], NONE, None, env, None)
            self.iterate(target.elts[1], it.args[0], env)
            return
        self.bind(target, self.element(self.ev(it, env)), None, env, None)

    @staticmethod
    def element(tags):
        return (tags - {R}) | ({I} if R in tags else set())

    def leaves(self, body):
        """how a block leaves: 'break', 'return', 'raise', 'continue' or None"""
        if not body:
            return None
        s = body[-1]
        if isinstance(s, ast.Break):
            return "break"
        if isinstance(s, ast.Return):
            return "return"
        if isinstance(s, ast.Raise):
            return "raise"
        if isinstance(s, ast.Continue):
            return "continue"
        if isinstance(s, ast.If) and s.orelse:
            a, b = self.leaves(s.body), self.leaves(s.orelse)
            return a if a and b else None
        if isinstance(s, (ast.With, ast.Try)):
            return self.leaves(s.body)
        return None

    def block(self, body, env, ctl):
        """env after the block, None when it does not end"""
        depth = len(self.guards)
        for s in body:
            if env is None:
                break
            env, ctl = self.stmt(s, env, ctl)
        del self.guards[depth:]
        return env

    def stronger(self, a, b):
        return "C" if "C" in (a, b) else a or b

    def stmt(self, s, env, ctl):
        f = self.f
        self.parts = None
        if isinstance(s, ast.Assign):
            tags = self.ev(s.value, env)
            parts = self.parts[1] if self.parts and self.parts[0] is s.value else None
            for t in s.targets:
                self.bind(t, tags, s.value, env, ctl, parts)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), s.value, env, ctl)
        elif isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target) if isinstance(s.target, ast.Name) else s.target
            tags = self.ev(load, env) | self.ev(s.value, env)
            self.bind(s.target, tags - {R, I}, s.value, env, ctl)
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Call):
                self.call(s.value, env, ctl, statement=True)
            else:
                self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            return self.ret(s, env, ctl), ctl
        elif isinstance(s, (ast.Raise, ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.Assert)):
            if isinstance(s, ast.Raise):
                return None, ctl
        elif isinstance(s, ast.Delete):
            pass
        elif isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1][0] = join(self.loops[-1][0], env)
            return None, ctl
        elif isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1][1] = join(self.loops[-1][1], env)
            return None, ctl
        elif isinstance(s, ast.If):
            return self.branch(s, env, ctl)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(s, env, ctl), ctl
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, None, env, None)
            return self.block(s.body, env, ctl), ctl
        elif isinstance(s, ast.Try):
            out = self.block(s.body, dict(env), ctl)
            if out is not None and s.orelse:
                out = self.block(s.orelse, out, ctl)
            for h in s.handlers:
                out = join(out, self.block(h.body, join(dict(env), out or {}), ctl))
            if s.finalbody:
                out = self.block(s.finalbody, out if out is not None else dict(env), ctl) if out is not None else (self.block(s.finalbody, dict(env), ctl), None)[1]
            return out, ctl
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            inner = {a.arg for a in s.args.args}
            tags = NONE
            for x in ast.walk(s):
                if isinstance(x, ast.expr) and not isinstance(x, ast.Lambda) and isinstance(x, (ast.Attribute, ast.Name, ast.Subscript)) and not (isinstance(x, ast.Name) and x.id in inner):
                    try:
                        tags |= self.ev(x, env) & {T}
                    except RecursionError:
                        raise
            env[s.name] = tags
        elif isinstance(s, ast.Match):
            v = self.ev(s.subject, env)
            outs = None
            for c in s.cases:
                for x in ast.walk(c.pattern):
                    if isinstance(x, ast.MatchValue):
                        self.guards.append((ast.Compare(left=s.subject, ops=[ast.Eq()], comparators=[x.value]), True))
                        break
                else:
                    self.guards.append((ast.Constant(value=None), True))
                outs = join(outs, self.block(c.body, dict(env), "C" if T in v else ctl))
                self.guards.pop()
            return join(outs, env), ctl
        return env, ctl

    def branch(self, s, env, ctl):
        tags = self.ev(s.test, env)
        a, b = self.leaves(s.body), self.leaves(s.orelse)
        inloop = bool(self.loops)
        exits = lambda k: k in ("break", "raise") or k == "return" and inloop
        ca = cb = ctl
        after = ctl
        if T in tags:
            self.H.check("decisions with held-out values", self.f, s.test)
            # a branch that leaves the loop is an early stop: what follows is not conditional
            ca = self.stronger(ctl, "L" if exits(a) else "C")
            cb = self.stronger(ctl, "L" if exits(b) else ctl if exits(a) else "C")
            if exits(b) and not exits(a):
                ca = ctl
            if a in ("continue", "return") and not exits(a) or b in ("continue", "return") and not exits(b):
                after = "C"
            if (exits(a) or exits(b)) and "break" in (a, b) and len(self.loops) > 1:
                # leaving an inner loop decides how far the work of this pass of the outer loop goes
                self.loops[-1][2] = True
        elif F in tags:
            ca = cb = self.stronger(ctl, "L")
        self.guards.append((s.test, True))
        ea = self.block(s.body, dict(env), ca)
        self.guards[-1] = (s.test, False)
        eb = self.block(s.orelse, dict(env), cb) if s.orelse else dict(env)
        self.guards.pop()
        if a and not s.orelse:
            self.guards.append((s.test, False))
        return join(ea, eb), after

    def loop(self, s, env, ctl):
        first = dict(env)
        inner = ctl
        for _ in range(4):
            e = dict(first)
            if isinstance(s, ast.While):
                self.ev(s.test, e)
            else:
                if T in self.ev(s.iter, e):
                    self.H.check("decisions with held-out values", self.f, s)
                self.iterate(s.target, s.iter, e)
            self.loops.append([None, None, False])
            end = self.block(s.body, e, inner)
            br, co, cut = self.loops.pop()
            nxt = join(join(first, end), co)
            done = nxt == first
            first = nxt
            if done:
                break
        out = join(first, br)
        if s.orelse:
            out = join(self.block(s.orelse, dict(out), ctl), br)
        if cut and self.loops:
            # an inner loop cut short by a held-out value
            stored = {x.id for n in s.body for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for x in stored:
                out[x] = out.get(x, NONE) | {T}
        return out

    def ret(self, s, env, ctl):
        v = s.value
        if v is None:
            return None
        elts = v.elts if isinstance(v, ast.Tuple) else [v]
        parts = []
        for e in elts:
            self.parts = None
            t = self.ev(e, env)
            if self.parts and self.parts[0] is e and len(elts) == 1:
                parts.extend(self.parts[1])
                continue
            if ctl == "C" and I not in t:
                t = t | {T}
            if isinstance(e, ast.Name):
                for k, x in env.items():
                    if k.startswith(e.id + "[") and T in x and k[len(e.id) + 1:-1] not in REPORT_KEYS and self.solver():
                        self.H.report(self.f, s, "result %s" % k, "%s of the result depends on the held-out data" % k)
            parts.append(t)
        if self.solver():
            self.H.check("results of the solvers", self.f, s)
            for e, t in zip(elts, parts if len(parts) == len(elts) else parts * len(elts)):
                if T in t:
                    self.H.report(self.f, s, "result %s" % ast.unparse(e), "the result %s of %s depends on the held-out data" % (ast.unparse(e), self.f.name))
            parts = [NONE for _ in parts]
        self.rets.append([x & {T, F, I, R} for x in parts])
        return None

    def solver(self):
        return self.f.cls in self.H.classes and "solve" in self.f.name


LEAST = {"reads of held-out data": 25, "reads of test errors": 15, "stores into attributes": 250, "stores under keys": 60, "results of the solvers": 15,
         "decisions with held-out values": 8, "selections among the records with the test error": 1}


def p10(ctx, rep):
    H = Held(ctx.flat(), rep)
    fs = H.entries()
    for f in fs:
        H.summary(f, frozenset(), None)
    rep.count("functions analysed", len(fs))
    rep.count("pairs of a function and a set of held-out parameters", len(H.memo))
    for (kind, *_), f in H.seen.items():
        rep.count(kind)
    for k, v in LEAST.items():
        rep.floor(k, v)
    rep.floor("functions analysed", 60)
    for key, (f, n, msg) in sorted(H.found.items()):
        rep.violation("held-out data", key, msg, "%s:%d" % (f.module.rel, n.lineno), f.qual)


RULES = {"P10": (p10, "values computed from the test data are held only by the attributes test_data, bases_eval_test, basis_eval_test and the entries test_error, "
                      "test_error_iterations of the outputs; no other attribute, entry or result of a solver takes such a value, a decision taken with one only leaves a loop, "
                      "refuses or reports, and an iterate is chosen with one only where the model selection with the test error was asked for",
                 ["values are followed through locals, arguments and results of the functions of the learning package; objects built from held-out values are held out as a whole",
                  "methods of objects outside the learning package do not keep the held-out values they are given (P01, P02, P03)"])}
TECHNIQUE = {"P10": "interprocedural flow-sensitive taint analysis with explicit and control flows, named admissible sinks and early-exit recognition"}
NOTE = {"P10": "what an outer algorithm does after an inner solver stopped early is not tracked: stopping early is admissible wherever it happens"}
