"""P19: every path of the library can be executed: the names, attributes, arguments and variables it uses exist."""
import ast
import builtins
import json
import os
import symtable
from ..flow import DefiniteAssignment, noreturn
from ..hooks import Hook, observe
from ..resolve import own_walk, parents, qual, loc

API = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "extapi.json"), encoding="utf-8"))
MODS, EXTCLS = API["modules"], {k: set(v) for k, v in API["classes"].items()}
ND = EXTCLS["nd"]
BUILTINS = set(dir(builtins))
MODULE_NAMES = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__path__", "__loader__", "__builtins__", "__debug__", "__annotations__", "__class__", "__module__", "__qualname__"}
OBJECT = set(dir(object)) | {"__dict__", "__class__", "__module__", "__name__", "__weakref__", "__bases__", "__mro__", "__qualname__"}


# -- guards ---------------------------------------------------------------------------------------------------------
def guarded(node, par, attr=None):
    """the use is inside a try that catches the failure, or behind a hasattr test for that attribute"""
    n = node
    while n in par:
        p = par[n]
        if isinstance(p, ast.Try) and any(n is s for s in p.body) and p.handlers:
            for h in p.handlers:
                t = ast.unparse(h.type) if h.type is not None else "Exception"
                if any(x in t for x in ("Exception", "AttributeError", "NameError", "TypeError", "ImportError")):
                    return True
        if attr is not None and isinstance(p, (ast.If, ast.IfExp, ast.BoolOp, ast.While)):
            t = p.test if not isinstance(p, ast.BoolOp) else p
            for c in ast.walk(t):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "getattr", "isinstance") \
                        and len(c.args) > 1:
                    a = c.args[1]
                    if isinstance(a, ast.Constant) and a.value == attr:
                        return True
        n = p
    # early exit: `if not hasattr(x, "attr"): return` (or a default assigned) earlier in the same function
    root = n
    if attr is not None:
        for c in ast.walk(root):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "getattr") and len(c.args) > 1 \
                    and isinstance(c.args[1], ast.Constant) and c.args[1].value == attr and c.lineno <= getattr(node, "lineno", 0):
                return True
    return False


# -- A: names --------------------------------------------------------------------------------------------------------
def module_names(prog, m):
    names = set(m.imports) | set(m.classes) | set(m.functions) | set(m.globals)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            names |= set(n.names)
    stack = list(m.tree.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            names |= {(a.asname or a.name).split(".")[0] for a in n.names}
        stack.extend(ast.iter_child_nodes(n))
    star = False
    for s in m.star:
        t = prog.modules.get(s)
        if t is None:
            star = True
        else:
            names |= set(prog._public(t))
    if m.path.endswith("__init__.py"):
        names |= {x.rsplit(".", 1)[1] for x in prog.modules if x.rsplit(".", 1)[0] == m.name and "." in x}
    return names, star


def undefined_names(prog, rep):
    for mn in sorted(prog.modules):
        m = prog.modules[mn]
        known, star = module_names(prog, m)
        if star:
            continue
        stack = [symtable.symtable(m.src, m.rel, "exec")]
        bad = set()
        while stack:
            t = stack.pop()
            stack.extend(t.get_children())
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                rep.count("name uses resolved")
                if t.get_type() == "module":
                    if not s.is_assigned() and not s.is_imported() and s.get_name() not in known | BUILTINS | MODULE_NAMES:
                        bad.add((t.get_name(), s.get_name(), t.get_lineno()))
                elif s.is_global() and s.get_name() not in known | BUILTINS | MODULE_NAMES:
                    bad.add((t.get_name(), s.get_name(), t.get_lineno()))
        if not bad:
            continue
        par = parents(m.tree)
        for fn, nm, ln in sorted(bad):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load) and not guarded(n, par) and \
                        not in_annotation(n, par):
                    rep.violation("undefined name", "name|%s|%s|%s" % (mn, fn, nm),
                                  "the name %s is not defined" % nm, "%s:%d" % (m.rel, n.lineno), fn)
                    break


def in_annotation(n, par):
    while n in par:
        p = par[n]
        if isinstance(p, ast.arg) and p.annotation is n or isinstance(p, ast.AnnAssign) and p.annotation is n or \
                isinstance(p, ast.FunctionDef) and p.returns is n:
            return True
        n = p
    return False


# -- B, C: external names and calls, package names ---------------------------------------------------------------------
def external(prog, units, rep):
    for u in units.units:
        m, f, root, sc = u
        par = None
        for n in units.nodes(u):
            if isinstance(n, ast.Attribute):
                e = sc.entity(n)
                if e is None:
                    continue
                if e[0] == "missing":
                    rep.count("package attributes resolved")
                    par = par or parents(root)
                    if not guarded(n, par, n.attr):
                        rep.violation("missing name", "missing|%s|%s" % (qual(u), e[1]),
                                      "%s does not exist in the package" % e[1], loc(u, n), qual(u))
                elif e[0] in ("class", "func", "value", "module", "classattr"):
                    rep.count("package attributes resolved")
                    if e[0] == "classattr":
                        c, a = e[1]
                        if not class_has(prog, c, a) and a not in OBJECT:
                            par = par or parents(root)
                            if not guarded(n, par, a):
                                rep.violation("missing name", "missing|%s|%s.%s" % (qual(u), c.name, a),
                                              "class %s has no attribute %s" % (c.name, a), loc(u, n), qual(u))
                elif e[0] == "ext":
                    owner, _, a = e[1].rpartition(".")
                    if owner in MODS:
                        rep.count("external attributes resolved")
                        if a not in MODS[owner]["names"] and (owner + "." + a) not in MODS and not submodule(owner, a):
                            par = par or parents(root)
                            if not guarded(n, par, a):
                                rep.violation("missing name", "missing|%s|%s" % (qual(u), e[1]),
                                              "%s has no attribute %s" % (owner, a), loc(u, n), qual(u))
            elif isinstance(n, ast.Call):
                d = sc.dotted(n.func)
                if d is None:
                    continue
                owner, _, a = d.rpartition(".")
                sg = MODS.get(owner, {}).get("sigs", {}).get(a)
                if sg is None:
                    continue
                rep.count("external calls checked")
                msg = arity(n, sg[0], sg[1], sg[2])
                if msg:
                    rep.violation("external call", "extcall|%s|%s|%s" % (qual(u), d, msg), "%s is called with %s" % (d, msg), loc(u, n), qual(u))
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module in MODS:
                for x in n.names:
                    rep.count("external attributes resolved")
                    if x.name != "*" and x.name not in MODS[n.module]["names"] and n.module + "." + x.name not in MODS \
                            and not submodule(n.module, x.name):
                        rep.violation("missing name", "missing|%s|%s.%s" % (qual(u), n.module, x.name),
                                      "%s has no attribute %s" % (n.module, x.name), loc(u, n), qual(u))


def submodule(owner, a):
    return any(k.startswith(owner + "." + a + ".") for k in MODS) or (owner, a) in (
        ("scipy", "linalg"), ("matplotlib", "pyplot"), ("os", "path"), ("xml", "etree"))


def arity(n, mn, mx, kws):
    """why the arguments of a call cannot be accepted, or None"""
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return None
    np_, ks = len(n.args), [k.arg for k in n.keywords]
    if mx is not None and np_ > mx:
        return "%d positional arguments (at most %d accepted)" % (np_, mx)
    if np_ + len(ks) < mn:
        return "%d arguments (at least %d required)" % (np_ + len(ks), mn)
    if kws is not None:
        bad = [k for k in ks if k not in kws]
        if bad:
            return "unknown keyword %s" % ", ".join(bad)
    return None


# -- attribute tables ----------------------------------------------------------------------------------------------------
def class_table(prog):
    """class name -> attributes an instance can have (methods and stored attributes of the class, its bases and subclasses)"""
    own = {}
    for c in prog.classes.values():
        s = set(m.split(":")[-1] for m in c.methods) | set(c.class_attrs)
        for m in c.methods.values():
            if not m.params or m.kind == "static":
                continue
            me = m.params[0]
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    s.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and \
                        isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                    s.add(n.args[1].value if isinstance(n.args[1], ast.Constant) else "*")
                if isinstance(n, ast.Attribute) and n.attr in ("__dict__",) and isinstance(n.value, ast.Name) and n.value.id == me and \
                        False:
                    s.add("*")
        if c.ext_bases and any(b.split(".")[-1] not in ("object", "ABC", "ABCMeta") and not b.startswith("metaclass") for b in c.ext_bases):
            s.add("*")
        if "__getattr__" in c.methods:
            s.add("*")
        own[c.name] = s
    full, direct = {}, {}
    for c in prog.classes.values():
        s = set()
        for x in c.mro:
            s |= own.get(x.name, set())
        direct[c.name] = set(s)
        for x in c.all_subclasses() if callable(c.all_subclasses) else c.all_subclasses:
            s |= own.get(x.name, set())
        full[c.name] = s
    return full, direct


_TAB = {}


def table(prog):
    if id(prog) not in _TAB:
        _TAB[id(prog)] = class_table(prog)
    return _TAB[id(prog)]


def class_has(prog, c, a):
    t = table(prog)[0][c.name]
    return a in t or "*" in t


# -- D, E: typed uses --------------------------------------------------------------------------------------------------------
class Uses(Hook):
    def __init__(self):
        self.attr, self.calls, self.stores, self.supers = {}, {}, {}, {}
        self.external_stores = {}

    def attr_use(self, fa, b, attr, node):
        k = (fa.f.id, id(node), attr)
        r = self.attr.get(k)
        if r is None:
            r = self.attr[k] = [fa, node, attr, set(), False, set(), False]
        if b.funcs:
            r[4] = True
        if b.elts is not None:
            r[3].add("tuple")
        for o in b.objs:
            r[3].update(o.kinds or ("?",))
            if o.is_param or o.l.root[0] in ("g", "n") or o.ekinds - {"num"}:
                r[6] = True         # not known to be an array built here
        r[5].update(b.prims)

    def call(self, fa, st, f, args, kw, e):
        if isinstance(e, ast.Call):
            k = (fa.f.id, id(e))
            r = self.calls.setdefault(k, [fa, e, {}])
            r[2].setdefault(f.id, (f, [len(args), any(isinstance(a, tuple) for a in args), sorted(kw)]))
        return None

    def store_attr(self, fa, st, base, attr, v, node):
        for o in base.objs:
            for k in o.kinds:
                if k.startswith("C:"):
                    self.external_stores.setdefault(k[2:], set()).add(attr)
                elif k == "?":
                    self.external_stores.setdefault("?", set()).add(attr)

    def no_super(self, fa, node):
        self.supers[(fa.f.id, id(node))] = (fa, node)


def tested(tree, memo={}):
    """attribute names a module looks up by hasattr or getattr before using them"""
    r = memo.get(id(tree))
    if r is None:
        r = memo[id(tree)] = {n.args[1].value for n in ast.walk(tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                              and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)}
    return r


def typed(ctx, rep):
    prog = ctx.prog
    eng, funcs = ctx.effects(True)
    h = Uses()
    observe(eng, prog.all_funcs(), h)
    full, direct = table(prog)
    stored = {}
    for c, s in h.external_stores.items():
        if c in prog.classes:
            for x in prog.classes[c].family():
                stored.setdefault(x.name, set()).update(s)
    loose = h.external_stores.get("?", set())
    pars = {}

    def has(k, attr):
        if k.startswith("C:"):
            c = k[2:]
            if c not in full:
                return True
            t = full[c]
            return attr in t or "*" in t or attr in OBJECT or attr in stored.get(c, ()) or attr in loose
        if k in ("nd", "objarr", "num"):
            return attr in ND or k == "num" and (attr in dir(float) or attr in dir(int))
        if k in EXTCLS:
            return attr in EXTCLS[k]
        return True
    for (fid, _, attr), (fa, node, attr, kinds, funcs_, prims, outside) in sorted(h.attr.items(), key=lambda kv: (kv[0][0], getattr(kv[1][1], "lineno", 0), kv[0][2])):
        if funcs_ or not hasattr(node, "lineno"):
            continue
        ks = {k for k in kinds | prims if k != "none"}
        if not ks or "?" in ks or "func" in ks:
            continue
        if not any(k.startswith("C:") for k in ks) and (outside or "nd" not in ks or not ks <= {"nd", "num"}):
            continue
        rep.count("typed attribute uses")
        if any(has(k, attr) for k in ks):
            continue
        root = fa.f.node
        if root not in pars:
            pars[root] = parents(root)
        if guarded(node, pars[root], attr) or attr in tested(fa.f.module.tree):
            continue
        rep.violation("missing attribute", "attr|%s|%s|%s" % (fa.f.qual, attr, "/".join(sorted(k.replace("C:", "") for k in ks))),
                      "%s has no attribute %s" % (" or ".join(sorted(k.replace("C:", "") for k in ks)), attr),
                      "%s:%d" % (fa.f.module.rel, node.lineno), fa.f.qual)
    for (fid, _), (fa, e, cands) in sorted(h.calls.items(), key=lambda kv: (kv[0][0], kv[1][1].lineno, kv[1][1].col_offset)):
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            continue
        rep.count("calls of library functions bound to their parameters")
        why = []
        for f, (na, star, kws) in cands.values():
            if star:
                why.append(None)
                continue
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
            if nm != f.name and not (f.name == "__init__") and f.name != "__call__":
                why.append(None)
                continue
            if f.name == "__init__" and na == 1 + len(e.args) or f.name != "__init__":
                why.append(binding(f, na, kws))
            else:
                why.append(None)
        if why and all(why):
            nm = ast.unparse(e.func)
            f0 = sorted(f.qual for f, _ in cands.values())[0]
            rep.violation("call", "call|%s|%s|%s" % (fa.f.qual, nm, f0), "%s cannot accept this call: %s" % (
                " / ".join(sorted({f.qual for f, _ in cands.values()})[:3]), why[0]), "%s:%d" % (fa.f.module.rel, e.lineno), fa.f.qual)


def binding(f, npos, kws):
    names = list(f.params)
    if npos > len(names) and not f.vararg:
        return "%d positional arguments, %d accepted" % (npos, len(names))
    for k in kws:
        if k not in names and k not in f.kwonly and not f.kwarg:
            return "unknown keyword %s" % k
        if k in names[:npos]:
            return "argument %s given twice" % k
    miss = [n for n in names[npos:] + f.kwonly if n not in f.defaults and n not in kws]
    if miss:
        return "argument %s missing" % ", ".join(miss)
    return None


def named(prog, rep):
    """calls of methods on objects of unknown class, and of local functions: some function of that name accepts the arguments"""
    names = {}
    for f in prog.all_funcs():
        if f.cls is not None:
            names.setdefault(f.name, []).append(f)
    known = set().union(*EXTCLS.values()) | set(dir(dict)) | set(dir(list)) | set(dir(str)) | set(dir(set)) | set(dir(float))
    stored = {x.attr for m in prog.modules.values() for x in ast.walk(m.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
    for f in prog.all_funcs():
        local = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.FunctionDef) and n is not f.node:
                local[n.name] = None if n.name in local or n.decorator_list else n
        rebound = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(f.params) | set(f.kwonly)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call) or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            fn = n.func
            kws = [k.arg for k in n.keywords]
            if isinstance(fn, ast.Name):
                g = local.get(fn.id)
                if g is None or fn.id in rebound:
                    continue
                rep.count("calls of local functions bound to their parameters")
                a = g.args
                why = accepts([x.arg for x in a.posonlyargs + a.args], len(a.defaults), [x.arg for x in a.kwonlyargs],
                              {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, a.vararg, a.kwarg, len(n.args), kws)
                if why:
                    rep.violation("call", "local|%s|%s" % (f.qual, fn.id), "the function %s of %s cannot accept this call: %s" % (fn.id, f.qual, why),
                                  "%s:%d" % (f.module.rel, n.lineno), f.qual)
            elif isinstance(fn, ast.Attribute) and fn.attr in names and fn.attr not in known and fn.attr not in stored:
                root = fn.value
                while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                    root = root.func if isinstance(root, ast.Call) else root.value
                if isinstance(fn.value, ast.Call) and isinstance(root, ast.Name) and root.id == "super":
                    continue
                if isinstance(root, ast.Name) and root.id not in rebound and (root.id in f.module.imports or root.id in prog.classes):
                    continue
                gs = names[fn.attr]
                if isinstance(fn.value, ast.Name) and f.cls is not None and f.kind == "method" and fn.value.id == f.params[0] and f.cls.lookup(fn.attr) in gs:
                    g0 = f.cls.lookup(fn.attr)
                    gs = [g0] + [k.methods[fn.attr] for k in f.cls.family() if k.methods.get(fn.attr) not in (None, g0)]
                if any(g.is_property for g in gs):
                    continue
                rep.count("method calls bound by name")
                why = None
                for g in gs:
                    why = binding(g, len(n.args) + (1 if g.kind in ("method", "class") else 0), kws)
                    if why is None:
                        break
                if why:
                    rep.violation("call", "named|%s|%s" % (f.qual, fn.attr), "no method %s accepts this call: %s" % (fn.attr, why),
                                  "%s:%d" % (f.module.rel, n.lineno), f.qual)


def accepts(pos, ndef, kwonly, kwdef, vararg, kwarg, npos, kws):
    if npos > len(pos) and not vararg:
        return "%d positional arguments, %d accepted" % (npos, len(pos))
    bad = [k for k in kws if k not in pos and k not in kwonly]
    if bad and not kwarg:
        return "unknown keyword %s" % bad[0]
    miss = [p for p in pos[npos:len(pos) - ndef] if p not in kws] + [k for k in kwonly if k not in kwdef and k not in kws]
    return "argument %s missing" % ", ".join(miss) if miss else None


def supers(prog, rep):
    """super().m: some base class has m, and accepts the arguments"""
    for f in prog.all_funcs():
        if f.cls is None:
            continue
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call)
                    and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super"):
                continue
            rep.count("super calls")
            a = n.func.attr
            m = next((c.methods[a] for c in f.cls.mro[1:] if a in c.methods), None)
            if m is None:
                if a not in OBJECT and not f.cls.ext_bases:
                    rep.violation("missing attribute", "super|%s|%s" % (f.qual, a), "no base class of %s has %s" % (f.cls.name, a),
                                  "%s:%d" % (f.module.rel, n.lineno), f.qual)
                continue
            if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
                continue
            w = binding(m, len(n.args) + (1 if m.kind in ("method", "class") else 0), [k.arg for k in n.keywords])
            if w:
                rep.violation("call", "super|%s|%s" % (f.qual, a), "%s cannot accept this call: %s" % (m.qual, w),
                              "%s:%d" % (f.module.rel, n.lineno), f.qual)


# -- F ------------------------------------------------------------------------------------------------------------------------
def unbound(prog, rep):
    dead = {}
    for f in prog.all_funcs():
        if f.module.rel not in dead:
            dead[f.module.rel] = noreturn(f.module.tree)
        d = DefiniteAssignment(f.node, dead[f.module.rel]).run()
        rep.count("reads of local variables", d.reads)
        par = None
        for (nm, x) in d.reports:
            par = par or parents(f.node)
            if guarded(x, par):
                continue
            rep.violation("unbound variable", "unbound|%s|%s" % (f.qual, nm),
                          "%s may be read before it is assigned" % nm, "%s:%d" % (f.module.rel, x.lineno), f.qual)


# -- misc -----------------------------------------------------------------------------------------------------------------------
def statements(prog, units, rep):
    for u in units.units:
        m, f, root, sc = u
        for n in units.nodes(u):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Name, ast.Attribute)):
                rep.count("expression statements")
                x = n.value.func if isinstance(n.value, ast.Call) else n.value
                d = sc.dotted(x)
                if d and d.startswith("builtins.") and isinstance(getattr(builtins, d[9:], None), type) and \
                        issubclass(getattr(builtins, d[9:]), BaseException):
                    rep.violation("exception not raised", "noraise|%s|%s" % (qual(u), d), "the exception %s is built and not raised" % d[9:],
                                  loc(u, n), qual(u))
            elif isinstance(n, ast.Assert) and isinstance(n.test, ast.Tuple) and n.test.elts:
                rep.violation("vacuous assert", "assert|%s" % qual(u), "an assertion on a tuple is always true", loc(u, n), qual(u))
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], (ast.Tuple, ast.List)) and not any(isinstance(t, ast.Starred) for t in n.targets[0].elts):
                g = None
                e = sc.entity(n.value.func)
                if e is not None and e[0] == "func":
                    g = e[1]
                elif isinstance(n.value.func, ast.Attribute) and sc.is_self(n.value.func.value):
                    g = f.cls.lookup(n.value.func.attr)
                    if g is not None and any(g.name in c.methods for c in f.cls.all_subclasses()):
                        g = None
                if g is None or g.abstract or g.is_property:
                    continue
                rep.count("unpacked results")
                k = len(n.targets[0].elts)
                ar = return_arity(g)
                if ar is not None and k not in ar:
                    rep.violation("unpacking", "unpack|%s|%s" % (qual(u), g.qual), "%s returns %s values and %d are unpacked" % (
                        g.qual, "/".join(map(str, sorted(ar))), k), loc(u, n), qual(u))
    for c in prog.classes.values():
        meths = {}
        for x in reversed(c.mro):
            meths.update({k: v for k, v in x.methods.items()})
        for mth in c.methods.values():
            if mth.kind != "method" or not mth.params:
                continue
            for n in own_walk(mth.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                        n.value.id == mth.params[0]:
                    rep.count("attributes stored on self")
                    g = meths.get(n.attr)
                    if g is not None and not g.is_property and "setter:" + n.attr not in meths:
                        rep.violation("shadowed method", "shadow|%s|%s" % (c.name, n.attr),
                                      "assigning self.%s hides the method %s of the same name" % (n.attr, g.qual),
                                      "%s:%d" % (mth.module.rel, n.lineno), mth.qual)
                    elif g is not None and g.is_property and "setter:" + n.attr not in meths:
                        rep.violation("read-only property", "setprop|%s|%s" % (c.name, n.attr),
                                      "the property %s has no setter" % g.qual, "%s:%d" % (mth.module.rel, n.lineno), mth.qual)


def return_arity(g):
    out = set()
    for n in own_walk(g.node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return None
        if isinstance(n, ast.Return):
            if isinstance(n.value, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.value.elts):
                out.add(len(n.value.elts))
            else:
                return None
    return out or None


def p19(ctx, rep):
    prog, units = ctx.prog, ctx.units()
    undefined_names(prog, rep)
    external(prog, units, rep)
    unbound(prog, rep)
    supers(prog, rep)
    statements(prog, units, rep)
    typed(ctx, rep)
    named(prog, rep)
    for k, v in (("name uses resolved", 5000), ("package attributes resolved", 500), ("external attributes resolved", 2000),
                 ("external calls checked", 1500), ("reads of local variables", 10000), ("super calls", 4),
                 ("typed attribute uses", 2000), ("calls of library functions bound to their parameters", 600),
                 ("method calls bound by name", 500), ("calls of local functions bound to their parameters", 5)):
        rep.floor(k, v)


RULES = {"P19": (p19, """Every name, attribute, call and local variable of the library is resolved in the source: global names against the
scopes of the module, package and external attributes against the package and the recorded interface of the installed numpy, scipy, networkx and
standard library, attributes of typed receivers (types inferred by the interprocedural analysis) against the attributes the classes define or
store, arguments of resolved calls against the parameters of every possible target, local variables by a path-sensitive definite assignment
analysis; plus exceptions built and not raised, unpacked results of another arity, methods hidden by instance attributes.""",
         ("a receiver whose type is not inferred is not checked", "the installed versions of numpy and scipy are those recorded in sa/extapi.json"))}
TECHNIQUE = {"P19": "name, attribute, signature and definite-assignment resolution over the syntax tree and inferred receiver types"}
NOTE = {"P19": "static resolution of every name, attribute, call binding and local variable"}
