"""P20: implementations of one interface accept the same calls, establish the same state and return results of the same shape.

An interface is a family of classes with a common base in the package.  Signatures are compared as seen by a caller
(the receiver is removed, static and instance methods are alike); implementations that only raise are refusals (P17), not
implementations.
"""
import ast


def body_of(f):
    b = f.node.body
    return [s for s in b if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]


def idle(s):
    """a statement without effect"""
    if isinstance(s, ast.Pass):
        return True
    if isinstance(s, ast.Expr):
        return isinstance(s.value, ast.Constant) or isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("NotImplementedError", "print")
    return isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and all(isinstance(t, ast.Name) for t in s.targets)


def refuses(f):
    """the method always raises, or is a declaration without a body"""
    if all(idle(s) for s in f.node.body):
        return True
    return not any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and getattr(n, "value", None) is not None for n in ast.walk(f.node)) \
        and not any(isinstance(n, ast.Return) for n in ast.walk(f.node)) and not ends(f.node.body)


class Sig:
    """parameters of a method as its callers see them"""

    def __init__(self, f):
        self.f = f
        self.params = list(f.params) if f.kind == "static" else f.params[1:]
        self.defaults = f.defaults
        self.required = [p for p in self.params if p not in f.defaults]
        self.var = f.vararg is not None
        self.prop = f.is_property

    def max(self):
        return 99 if self.var else len(self.params)

    def min(self):
        return len(self.required)

    def show(self):
        return "(%s)" % ", ".join([p + ("=" + ast.unparse(self.defaults[p]) if p in self.defaults else "") for p in self.params]
                                  + (["*" + self.f.vararg] if self.var else []) + (["**" + self.f.kwarg] if self.f.kwarg else []))


def const(e):
    """value of a default, comparable"""
    try:
        return ("v", repr(ast.literal_eval(e)))
    except (ValueError, SyntaxError, TypeError):
        return ("e", ast.dump(e))


class Arity:
    """number of values a method returns when called with its default flags: set of ints, with None when unknown

    Parameters with an integer default select what is returned (nargout): a test comparing one with a constant is decided for
    the default call, or for the constant a caller passes.
    """

    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def flags(self, f):
        return {p: d.value for p, d in list(f.defaults.items()) if isinstance(d, ast.Constant) and type(d.value) is int}

    def of(self, f, env=None, depth=0):
        env = self.flags(f) if env is None else env
        k = (f.id, tuple(sorted(env.items(), key=str)))
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = frozenset([None])
        own, out = [], set()
        written = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        env = {p: v for p, v in env.items() if p not in written}
        tests = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                t, v = n.targets[0], n.value
                if isinstance(t, ast.Name):
                    tests.setdefault(t.id, []).append(v)
                elif isinstance(t, ast.Tuple):
                    for i, x in enumerate(t.elts):
                        if isinstance(x, ast.Name):
                            tests.setdefault(x.id, []).append(v.elts[i] if isinstance(v, ast.Tuple) and len(v.elts) == len(t.elts) else None)
        env["tests"] = {k: v[0] for k, v in tests.items() if len(v) == 1 and isinstance(v[0], (ast.Compare, ast.UnaryOp, ast.Name))}

        def go(b):
            for s in b:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    continue
                own.append(s)
                if isinstance(s, ast.Return):
                    return False
                if isinstance(s, ast.Raise):
                    return False
                if isinstance(s, ast.If):
                    v = decide(s.test, env)
                    x = go(s.body) if v is not False else False
                    y = go(s.orelse) if v is not True else False
                    if not x and not y:
                        return False
                    continue
                for name in ("body", "orelse", "finalbody"):
                    go(getattr(s, name, []) or [])
                for h in getattr(s, "handlers", []) or []:
                    go(h.body)
                for h in getattr(s, "cases", []) or []:
                    go(h.body)
            return True
        go(f.node.body)
        for n in own:
            if isinstance(n, ast.Return):
                out |= self.expr(f, n.value, own, env, depth)
        self.memo[k] = frozenset(out)
        return self.memo[k]

    def callee(self, f, c, g, bound, env, depth):
        e = self.flags(g)
        ps = g.params[1:] if bound and g.kind != "static" else g.params
        for i, a in enumerate(c.args):
            if isinstance(a, ast.Starred):
                v = chase(a.value, env)
                if not (isinstance(v, ast.Name) and v.id == f.vararg):  # empty in the default call
                    for p in ps[i:]:
                        e.pop(p, None)
                break
            if i < len(ps) and ps[i] in e:
                self.bind(e, ps[i], a, env)
        for w in c.keywords:
            if w.arg is None:
                v = chase(w.value, env)
                if not (isinstance(v, ast.Name) and v.id == f.kwarg):
                    e.clear()
            elif w.arg in e:
                self.bind(e, w.arg, w.value, env)
        return set(self.of(g, e, depth + 1))

    def bind(self, e, p, a, env):
        a = chase(a, env)
        if isinstance(a, ast.Constant) and type(a.value) is int:
            e[p] = a.value
        elif isinstance(a, ast.Name) and type(env.get(a.id)) is int:
            e[p] = env[a.id]
        else:
            e.pop(p, None)

    def expr(self, f, e, own, env, depth):
        if e is None or isinstance(e, ast.Constant):
            return {0} if e is None or e.value is None else {1}
        if isinstance(e, ast.Tuple):
            return {None} if any(isinstance(x, ast.Starred) for x in e.elts) else {len(e.elts)}
        if isinstance(e, ast.IfExp):
            v = decide(e.test, env)
            out = set()
            if v is not False:
                out |= self.expr(f, e.body, own, env, depth)
            if v is not True:
                out |= self.expr(f, e.orelse, own, env, depth)
            return out
        if isinstance(e, (ast.BinOp, ast.Compare, ast.List, ast.ListComp, ast.Dict, ast.UnaryOp, ast.JoinedStr)):
            return {1}
        if isinstance(e, ast.Call):
            t = ast.unparse(e.func)
            if isinstance(e.func, ast.Attribute) and f.cls is not None and depth < 6:
                v, g = e.func.value, None
                if isinstance(v, ast.Name) and v.id == "self":
                    g = f.cls.lookup(e.func.attr)
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                    g = next((b.methods[e.func.attr] for b in f.cls.mro[1:] if e.func.attr in b.methods), None)
                if g is not None:
                    return self.callee(f, e, g, True, env, depth)
            if isinstance(e.func, ast.Name) and e.func.id in f.module.functions and depth < 4:
                return self.callee(f, e, f.module.functions[e.func.id], False, env, depth)
            if t in ("np.array", "np.reshape", "np.sum", "np.ravel", "np.concatenate", "np.transpose", "np.matmul", "np.zeros", "np.ones", "np.sqrt",
                     "np.hstack", "np.vstack", "np.mean", "np.all", "np.any", "np.prod", "deepcopy", "copy.deepcopy", "len", "float", "int", "list", "str"):
                return {1}
            last = t.split(".")[-1]
            if last in self.prog.classes:
                return {1}
            return {None}
        if isinstance(e, ast.Name):
            out = set()
            for n in own:
                if isinstance(n, ast.Assign):
                    for x in n.targets:
                        if isinstance(x, ast.Name) and x.id == e.id:
                            if depth > 5:
                                out.add(None)
                            else:
                                out |= self.expr(f, n.value, own, env, depth + 1)
                        elif isinstance(x, (ast.Tuple, ast.List)) and any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(x)):
                            out.add(None)
            if e.id in f.params or not out:
                out.add(None)
            return out
        return {None}


def chase(e, env):
    """the expression behind local names"""
    for _ in range(6):
        if not (isinstance(e, ast.Name) and isinstance(env["tests"].get(e.id), ast.Name)):
            break
        e = env["tests"][e.id]
    return e


def decide(t, env):
    """truth of a test on flags of known value"""
    if isinstance(t, ast.Name) and t.id in env["tests"]:
        return decide(env["tests"][t.id], {**env, "tests": {k: v for k, v in env["tests"].items() if k != t.id}})
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = decide(t.operand, env)
        return None if v is None else not v
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, r = t.left, t.comparators[0]
        l, r = chase(l, env), chase(r, env)
        x = env.get(l.id) if isinstance(l, ast.Name) else l.value if isinstance(l, ast.Constant) else None
        y = env.get(r.id) if isinstance(r, ast.Name) else r.value if isinstance(r, ast.Constant) else None
        if type(x) is int and type(y) is int:
            op = type(t.ops[0])
            fn = {ast.Eq: int.__eq__, ast.NotEq: int.__ne__, ast.Gt: int.__gt__, ast.GtE: int.__ge__, ast.Lt: int.__lt__, ast.LtE: int.__le__}.get(op)
            return bool(fn(x, y)) if fn else None
    return None


FORMATS = ("FullTensor", "CanonicalTensor", "TreeBasedTensor", "SparseTensor", "DiagonalTensor")


class Family:
    def __init__(self, name):
        self.name, self.mro = name, []


def families(prog):
    """(declaring class, classes) of every interface: a package class together with its subclasses, and the tensor formats"""
    yield Family("tensor formats"), [prog.cls(n) for n in FORMATS]
    for c in sorted(prog.classes.values(), key=lambda c: c.name):
        subs = [x for x in c.all_subclasses()]
        if len(subs) >= 2:
            yield c, sorted([c] + subs, key=lambda x: x.name)


def concrete(prog, c):
    for b in c.mro:
        for m, f in b.methods.items():
            if f.abstract and c.lookup(m) is f:
                return False
    return True


def overrides(ctx, rep):
    """an override accepts the calls its base method accepts, with the same defaults"""
    prog = ctx.flat()
    for c in sorted(prog.classes.values(), key=lambda c: c.name):
        for m, f in sorted(c.methods.items()):
            if m == "__init__" or m.startswith("setter:") or refuses(f):
                continue
            for b in c.mro[1:]:
                if m not in b.methods:
                    continue
                g = b.methods[m]
                s, t = Sig(f), Sig(g)
                rep.count("overriding methods compared")
                key = "override|%s|%s" % (f.qual, m)
                loc = f.loc
                if s.prop != t.prop:
                    rep.violation("override", key + "|property", "%s is a property in one of %s and %s and a method in the other" % (m, c.name, b.name), loc, f.qual)
                    break
                stub = refuses(g)
                bad = None
                if s.max() < len(t.params):
                    bad = "accepts %d arguments where %s accepts %d" % (s.max(), g.qual, len(t.params))
                elif s.min() > t.min() and not (stub and not t.params) and not (t.var and s.min() <= 99 and stub):
                    bad = "requires %s, which %s does not" % (", ".join(s.required[t.min():]), g.qual)
                if bad is None:
                    for p in t.params:
                        if p in t.defaults and p in s.defaults and const(t.defaults[p]) != const(s.defaults[p]):
                            bad = "has default %s=%s where %s has %s" % (p, ast.unparse(s.defaults[p]), g.qual, ast.unparse(t.defaults[p]))
                if bad is None:
                    bad = swapped(s, t)
                if bad is None and not (stub and t.var) and not (m.startswith("__") and m.endswith("__")):
                    for p, q in zip(s.params, t.params):
                        rep.count("parameters of overriding methods compared")
                        if p != q:
                            bad = "names %s the argument that is called %s in %s: a call by keyword fails" % (p, q, g.qual)
                if bad:
                    rep.violation("override", key, "%s%s %s: %s" % (f.qual, s.show(), bad, t.show()), loc, f.qual)
                break


def swapped(s, t):
    for i, p in enumerate(s.params):
        if p in t.params and t.params.index(p) != i and (i < len(t.params) or True):
            j = t.params.index(p)
            if j < len(s.params) and i < len(t.params):
                return "takes %s as argument %d where %s takes it as argument %d" % (p, i + 1, t.f.qual, j + 1)
    return None


class Once:
    """reports a construct once, in the first (smallest) family that shows it"""

    def __init__(self, rep):
        self.rep, self.seen, self.count = rep, set(), rep.count

    def violation(self, rule, key, *a):
        if key not in self.seen:
            self.seen.add(key)
            self.rep.violation(rule, key, *a)


def siblings(ctx, rep):
    """implementations of an operation in classes of one family accept the same calls"""
    prog = ctx.flat()
    rep = Once(rep)
    ar = Arity(prog)
    done = set()
    for base, cs in sorted(families(prog), key=lambda x: len(x[1])):
        names = sorted({m for c in cs for m in c.methods})
        for m in names:
            if m == "__init__" or m.startswith("setter:") or m.startswith("_") and not m.startswith("__"):
                continue
            impl = {}
            for c in cs:
                f = c.lookup(m)
                if f is not None and not refuses(f) and f.cls in cs and f.kind != "class" and not (f.kind == "static" and f.params):
                    impl.setdefault(f.id, (f, []))[1].append(c.name)
            fs = [impl[k][0] for k in sorted(impl)]
            if len(fs) < 2:
                continue
            key0 = (m,) + tuple(f.id for f in fs)
            if key0 in done:
                continue
            done.add(key0)
            rep.count("operations with several implementations")
            rep.count("implementations compared", len(fs))
            decl = next((b.methods[m] for b in base.mro if m in b.methods), None)
            sigs = [Sig(f) for f in fs]
            # number of arguments: what the declaration allows, or what most implementations allow
            firm = [s for s in sigs if not s.var]
            low = min(s.min() for s in firm) if firm else 99
            common = sorted(min(s.max(), 20) for s in sigs if not s.var)
            agreed = max(set(common), key=lambda k: (common.count(k), -k)) if common else 0
            majority = common.count(agreed) * 2 > len(sigs) and len(sigs) > 2
            for s in sigs:
                f = s.f
                key = "sibling|%s" % f.qual
                if s.min() > low:
                    o = next(x.f for x in firm if x.min() == low)
                    rep.violation("sibling", key + "|required", "%s%s requires %s, %s%s does not" % (
                        f.qual, s.show(), ", ".join(s.required[low:]), o.qual, Sig(o).show()), f.loc, f.qual)
                elif majority and s.max() < agreed:
                    o = next(x.f for x in sigs if x.max() == agreed)
                    rep.violation("sibling", key + "|accepted", "%s%s accepts fewer arguments than %s%s and the others" % (
                        f.qual, s.show(), o.qual, Sig(o).show()), f.loc, f.qual)
            # defaults of shared optional parameters
            for s in sigs:
                for t in sigs:
                    if s.f.id < t.f.id:
                        for p in s.params:
                            if p in t.params and p in s.defaults and p in t.defaults and const(s.defaults[p]) != const(t.defaults[p]):
                                rep.violation("sibling", "sibling|%s|default %s" % (t.f.qual, p), "%s has %s=%s, %s has %s" % (
                                    t.f.qual, p, ast.unparse(t.defaults[p]), s.f.qual, ast.unparse(s.defaults[p])), t.f.loc, t.f.qual)
                        w = swapped(t, s)
                        if w:
                            rep.violation("sibling", "sibling|%s|order" % t.f.qual, "%s %s" % (t.f.qual, w), t.f.loc, t.f.qual)
            # names of the optional arguments the implementations share
            for s in sigs:
                for i, p in enumerate(s.params):
                    there = [t.params[i] for t in sigs if t is not s and i < len(t.params)]
                    if len(there) < 2:
                        continue
                    rep.count("argument names compared")
                    if p in s.defaults and p not in there and len(set(there)) == 1 and there[0] not in s.params:
                        rep.violation("sibling", "sibling|%s|name %s" % (s.f.qual, p), "%s names %s the argument %s of the other implementations" % (
                            s.f.qual, p, there[0]), s.f.loc, s.f.qual)
            # number of results
            known = {}
            for f in fs:
                a = ar.of(f)
                if len(a - {None}) == 1:
                    known[f.id] = next(iter(a - {None}))
                elif len(a - {None}) > 1:
                    rep.violation("sibling", "sibling|%s|results" % f.qual, "%s returns %s values, depending on the path" % (
                        f.qual, " or ".join(map(str, sorted(a - {None})))), f.loc, f.qual)
            vals = sorted(set(known.values()))
            rep.count("implementations with a known number of results", len(known))
            if len(vals) > 1:
                best = max(vals, key=lambda v: (decl is not None and known.get(decl.id) == v, list(known.values()).count(v), -v))
                for f in fs:
                    if f.id in known and known[f.id] != best:
                        rep.violation("sibling", "sibling|%s|arity" % f.qual, "%s returns %d values, the other implementations of %s return %d" % (
                            f.qual, known[f.id], m, best), f.loc, f.qual)


def abstract(ctx, rep):
    """a class handed to users or instantiated implements what its abstract bases declare"""
    prog = ctx.flat()
    made = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                t = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if t in prog.classes:
                    made.add(t)
    for c in sorted(prog.classes.values(), key=lambda c: c.name):
        missing = sorted(m for b in c.mro for m, f in b.methods.items() if f.abstract and c.lookup(m) is f)
        own = any(f.abstract for f in c.methods.values())
        leaf = not c.all_subclasses()
        rep.count("classes checked for abstract operations")
        if missing and not own and (leaf or c.name in made):
            rep.violation("abstract", "abstract|%s" % c.name, "%s cannot be created: it does not implement %s" % (c.name, ", ".join(missing)),
                          "%s:%d" % (c.module.rel, c.node.lineno), c.name)


def stores(node, me="self"):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
            out.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
    return out


def established(c, f, seen):
    """attributes set on self by a method of c and by what it calls on self and its bases"""
    if f is None or f.id in seen:
        return set()
    seen.add(f.id)
    out = stores(f.node)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in f.module.functions:
            g = f.module.functions[n.func.id]
            for p, a in list(zip(g.params, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                if p and isinstance(a, ast.Name) and a.id == "self":
                    out |= stores(g.node, p)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            v = n.func.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                if f.cls in c.mro:
                    for b in c.mro[c.mro.index(f.cls) + 1:]:
                        if n.func.attr in b.methods:
                            out |= established(c, b.methods[n.func.attr], seen)
                            break
            elif isinstance(v, ast.Name) and v.id == "self":
                out |= established(c, c.lookup(n.func.attr), seen)
            elif n.func.attr == "__init__":
                for b in c.mro:
                    if ast.unparse(v).split(".")[-1] == b.name and "__init__" in b.methods:
                        out |= established(c, b.methods["__init__"], seen)
    return out


def guarded(f, attr):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 \
                and isinstance(n.args[1], ast.Constant) and n.args[1].value == attr:
            return True
    return False


def state(ctx, rep):
    """an instance has the attributes that the operations it inherits read"""
    prog = ctx.flat()
    for c in sorted(prog.classes.values(), key=lambda c: c.name):
        if not concrete(prog, c):
            continue
        init = c.lookup("__init__")
        have = established(c, init, set())
        for b in c.mro:
            have |= set(b.class_attrs)
        promised = {}
        for b in c.mro:
            if "__init__" in b.methods and b is not c:
                for a in established(b, b.methods["__init__"], set()):
                    promised.setdefault(a, b)
        rep.count("classes whose inherited state is checked")
        lack = {a: b for a, b in promised.items() if a not in have and c.lookup(a) is None}
        rep.count("inherited attributes checked", len(promised))
        if not lack:
            continue
        methods = {}
        for b in c.mro:
            for m, f in b.methods.items():
                methods.setdefault(m, f)
        for a, b in sorted(lack.items()):
            if any(a in stores(f.node) for m, f in c.methods.items()):
                continue
            for m, f in sorted(methods.items()):
                if m == "__init__" or guarded(f, a):
                    continue
                if a in stores(f.node):
                    continue
                if any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name)
                       and n.value.id == "self" for n in ast.walk(f.node)):
                    rep.violation("state", "state|%s|%s" % (c.name, a), "%s.%s reads self.%s, which %s.__init__ sets and the construction of a %s does not" % (
                        c.name, m, a, b.name, c.name), "%s:%d" % (c.module.rel, c.node.lineno), c.name)
                    break


def falls(ctx, rep):
    """a function that returns a value on some path does not end without one on another"""
    for f in ctx.flat().all_funcs():
        rs = []

        def go(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(c, ast.Return):
                    rs.append(c)
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    rs.append(None)
                go(c)
        go(f.node)
        if None in rs or not any(r.value is not None and not (isinstance(r.value, ast.Constant) and r.value.value is None) for r in rs):
            continue
        rep.count("functions that return a value")
        bare = [r for r in rs if r.value is None]
        if ends(f.node.body):
            rep.violation("result", "none|%s" % f.qual, "%s can end without returning a value" % f.qual, f.loc, f.qual)
        elif bare:
            rep.violation("result", "none|%s" % f.qual, "%s returns nothing on one path and a value on another" % f.qual, f.loc, f.qual)


def ends(b):
    """control can reach the end of the block"""
    for s in b:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If):
            if s.orelse and not ends(s.body) and not ends(s.orelse):
                return False
        elif isinstance(s, ast.While):
            if isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                return False
        elif isinstance(s, ast.With):
            if not ends(s.body):
                return False
        elif isinstance(s, ast.Try):
            if s.finalbody and not ends(s.finalbody):
                return False
            main = ends(s.body) and (ends(s.orelse) if s.orelse else True)
            if not main and not any(ends(h.body) for h in s.handlers):
                return False
        elif isinstance(s, ast.Match):
            if not any(ends(x.body) for x in s.cases) and any(isinstance(x.pattern, ast.MatchAs) and x.pattern.pattern is None and x.guard is None for x in s.cases):
                return False
        elif isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
            return False
    return True


def p20(ctx, rep):
    overrides(ctx, rep)
    siblings(ctx, rep)
    abstract(ctx, rep)
    state(ctx, rep)
    rep.floor("overriding methods compared", 100)
    rep.floor("operations with several implementations", 100)
    rep.floor("implementations compared", 300)
    rep.floor("implementations with a known number of results", 150)
    rep.floor("inherited attributes checked", 100)
    rep.floor("classes checked for abstract operations", 50)


RULES = {"P20": (p20, """Families of implementations are the classes with a common base in the package, and the tensor formats.
For each: an override accepts every call that the method it overrides accepts (number, order, names and defaults of the parameters, method
or property); implementations of one operation in sibling classes require and accept the same number of arguments (judged against the
least demanding implementation and against the majority), give shared parameters the same position and default, and return the same
number of values when called with their default flags (tests on nargout-like flags are decided, calls on self and super followed);
every class that is instantiated or is a leaf implements the abstract operations of its bases; the constructor of a class sets, itself
or through the constructors and methods it calls, every attribute that its bases' constructors set and that an operation available on
it reads.""",
                 ["methods that always raise are refusals, not implementations (P17)", "positional parameters of operators (__eq__, ...) may have any name",
                  "a result that the analysis cannot count is not compared"])}
TECHNIQUE = {"P20": "signature conformance over the class hierarchy, path-sensitive count of returned values, and definite initialisation of inherited state"}
NOTE = {"P20": "operations are compared by the calls they accept, the number of results and the state they rely on; the numerical meaning of the results is not compared"}
