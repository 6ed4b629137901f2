"""Syntactic resolution shared by the rules: what an expression names (external dotted name, class, function, module)."""
import ast
import builtins
from .program import resolve_name

BUILTINS = set(dir(builtins))
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def scope_walk(node):
    """nodes of a function body, nested functions and lambdas included"""
    return ast.walk(node)


def own_walk(node):
    """nodes of a function body without the bodies of nested functions (lambdas included)"""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Scope:
    """names of one function (with its nested functions) or of a module"""

    def __init__(self, prog, module, func=None):
        self.prog, self.module, self.func = prog, module, func
        self.local_imports, self.assigned, self.multi = {}, {}, set()
        self.locals = set()
        if func is not None:
            node = func.node
            a = node.args
            self.locals |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            self.locals |= {x.arg for x in (a.vararg, a.kwarg) if x}
            glob = set()
            for n in ast.walk(node):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    if isinstance(n, ast.Global):
                        glob |= set(n.names)
                elif isinstance(n, ast.Import):
                    for x in n.names:
                        self.local_imports[x.asname or x.name.split(".")[0]] = x.name if x.asname else x.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom):
                    base = prog._abs(module, n)
                    for x in n.names:
                        self.local_imports[x.asname or x.name] = base + "." + x.name
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.locals.add(n.id)
                elif isinstance(n, ast.arg):
                    self.locals.add(n.arg)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    self.locals.add(n.name)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not node:
                    self.locals.add(n.name)
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    k = n.targets[0].id
                    if k in self.assigned:
                        self.multi.add(k)
                    self.assigned[k] = n.value
            self.locals -= glob
            self.globals = glob
        else:
            self.globals = set()

    def entity(self, e, depth=0):
        """("ext", dotted) / ("class", Cls) / ("func", Func) / ("module", name) / ("value", name) / None"""
        if depth > 6:
            return None
        if isinstance(e, ast.Name):
            if e.id in self.local_imports:
                t = self.local_imports[e.id]
                if t == "tensap":
                    return ("module", "tensap")
                return self.prog.resolve_dotted(t) or ("ext", t)
            if e.id in self.locals:
                if e.id in self.assigned and e.id not in self.multi and isinstance(
                        self.assigned[e.id], (ast.Name, ast.Attribute)):
                    return self.entity(self.assigned[e.id], depth + 1)
                return None
            r = resolve_name(self.prog, self.module, e.id)
            if r is None and e.id in BUILTINS:
                return ("ext", "builtins." + e.id)
            if r is not None and r[0] == "value" and e.id in self.module.globals:
                v = self.module.globals[e.id]
                if isinstance(v, (ast.Name, ast.Attribute)) and depth < 4:
                    x = Scope(self.prog, self.module).entity(v, depth + 2)
                    if x is not None and x[0] in ("ext", "class", "func", "module"):
                        return x
                return ("value", self.module.name + "." + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.entity(e.value, depth + 1)
            if b is None:
                return None
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "module":
                if b[1] == "tensap":
                    r = self.prog.exports.get(e.attr)
                    if r is not None:
                        return ("value", "tensap." + e.attr) if r[0] == "value" else r
                    return ("missing", "tensap." + e.attr)
                r = self.prog.resolve_dotted(b[1] + "." + e.attr)
                return r or ("missing", b[1] + "." + e.attr)
            if b[0] == "class":
                m = b[1].lookup(e.attr)
                if m is not None:
                    return ("func", m)
                return ("classattr", (b[1], e.attr))
            return None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                fake = ast.Attribute(value=e.args[0], attr=str(e.args[1].value), ctx=ast.Load())
                return self.entity(fake, depth + 1)
            if isinstance(f, ast.Name) and f.id in ("__import__",) and e.args and isinstance(e.args[0], ast.Constant):
                return ("ext", e.args[0].value)
            r = self.entity(f, depth + 1)
            if r == ("ext", "importlib.import_module") and e.args and isinstance(e.args[0], ast.Constant):
                return ("ext", e.args[0].value)
            if isinstance(f, ast.Name) and f.id == "type" and len(e.args) == 1 and self.is_self(e.args[0]):
                return ("class", self.func.cls)
        return None

    def is_self(self, e):
        f = self.func
        return isinstance(e, ast.Name) and f is not None and f.cls is not None and f.kind == "method" and \
            f.params and e.id == f.params[0]

    def dotted(self, e):
        r = self.entity(e)
        return r[1] if r is not None and r[0] == "ext" else None


def norm(d):
    """canonical spelling of an external dotted name"""
    if d is None:
        return None
    if d.startswith("np."):
        d = "numpy." + d[3:]
    return d


class Units:
    """every unit of code: the functions and the module bodies, each with its scope"""

    def __init__(self, prog):
        self.prog = prog
        self.units = []      # (module, func or None, root node, scope)
        for n in sorted(prog.modules):
            m = prog.modules[n]
            self.units.append((m, None, m.tree, Scope(prog, m)))
        for f in prog.all_funcs():
            self.units.append((f.module, f, f.node, Scope(prog, f.module, f)))

    def nodes(self, unit):
        m, f, root, sc = unit
        if f is None:
            return module_nodes(root)
        return [x for x in ast.walk(root)]


def module_nodes(tree):
    """nodes executed when the module is imported (function bodies excluded, their defaults and decorators included)"""
    out, stack = [], list(tree.body)
    while stack:
        n = stack.pop(0)
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack += list(n.decorator_list) + list(n.args.defaults) + [d for d in n.args.kw_defaults if d is not None]
            continue
        if isinstance(n, ast.Lambda):
            continue
        stack += list(ast.iter_child_nodes(n))
    return out


def parents(root):
    p = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p


def qual(unit):
    m, f = unit[0], unit[1]
    return f.qual if f is not None else m.name


def loc(unit, node):
    return "%s:%d" % (unit[0].rel, getattr(node, "lineno", 0))
