"""Program model: modules, classes, functions, imports and exports of /repo/tensap."""
import ast
import hashlib
import os
import re

REPO = os.environ.get("TENSAP_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor the analysis needs has vanished (error exit, never a verdict)."""


class Func:
    __slots__ = ("module", "cls", "name", "node", "kind", "qual", "params", "defaults",
                 "vararg", "kwarg", "kwonly", "doc_types", "doc_ret", "parent", "abstract",
                 "is_property", "is_setter", "id")

    def __repr__(self):
        return "<%s>" % self.qual

    @property
    def loc(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)


class Cls:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.bases, self.ext_bases, self.methods, self.class_attrs = [], [], {}, {}
        self.subclasses = []
        self.mro = [self]

    def __repr__(self):
        return "<class %s>" % self.name

    def lookup(self, name):
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def family(self):
        r = self.__dict__.get("_family")
        if r is None:
            r = self._family = list(self.mro) + self.all_subclasses()
        return r

    def all_subclasses(self):
        r = self.__dict__.get("_subs")
        if r is None:
            r = self._subs = self._all_subclasses()
        return r

    def _all_subclasses(self):
        out = []
        for s in self.subclasses:
            if s not in out:
                out.append(s)
            for t in s._all_subclasses():
                if t not in out:
                    out.append(t)
        return out


class Module:
    def __init__(self, path, rel, name):
        self.path, self.rel, self.name = path, rel, name
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, filename=path)
        self.imports = {}     # local name -> dotted target ("numpy", "numpy.random.rand", "tensap")
        self.star = []        # star imported dotted modules
        self.classes, self.functions = {}, {}
        self.globals = {}     # module-level assigned names -> value expr


_DOC_PARAM = re.compile(r"^(\s*)([A-Za-z_\*][A-Za-z_0-9\*, ]*?)\s*:\s*(\S.*?)\s*$")


def parse_doc(node):
    """numpy-style docstring -> ({param: type text}, [returned type texts])"""
    doc = ast.get_docstring(node)
    if not doc:
        return {}, []
    params, rets, section, lines = {}, [], None, doc.split("\n")
    i = 0
    while i < len(lines):
        line = lines[i]
        if i + 1 < len(lines) and re.match(r"^\s*-{3,}\s*$", lines[i + 1]):
            section = line.strip().lower()
            i += 2
            continue
        if section == "parameters":
            m = _DOC_PARAM.match(line)
            if m and not m.group(1):
                typ = m.group(3)
                j = i + 1
                if typ.rstrip().endswith((" or", ",", "or")) and j < len(lines):
                    typ = typ + " " + lines[j].strip()
                for n in m.group(2).split(","):
                    params[n.strip().lstrip("*")] = typ
        elif section == "returns":
            if line and not line[0].isspace():
                m = _DOC_PARAM.match(line)
                rets.append(m.group(3) if m else line.strip())
        i += 1
    return params, rets


class Program:
    def __init__(self, repo=None, transform=None):
        self.transform = transform
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, "tensap")
        if not os.path.isdir(self.root):
            raise AnalysisBroken("no package at %s" % self.root)
        self.modules, self.classes, self.funcs = {}, {}, {}
        self.dup_classes = []
        self._load()
        self._resolve_bases()
        self._exports()
        self.by_method = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(self.modules[n].src.encode())
        self.digest = h.hexdigest()[:16]

    # -- loading ---------------------------------------------------------------
    def _load(self):
        for dp, dn, fn in os.walk(self.root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                try:
                    m = Module(path, rel, name)
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
                self.modules[name] = m
        if self.transform is not None:
            self.transform([m.tree for m in self.modules.values()])
        for m in self.modules.values():
            self._scan_module(m)

    def _scan_module(self, m):
        for st in m.tree.body:
            self._scan_stmt(m, st)

    def _scan_stmt(self, m, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(st, ast.ImportFrom):
            base = self._abs(m, st)
            for a in st.names:
                if a.name == "*":
                    m.star.append(base)
                else:
                    m.imports[a.asname or a.name] = base + "." + a.name
        elif isinstance(st, ast.ClassDef):
            c = Cls(m, st)
            m.classes[st.name] = c
            if st.name in self.classes:
                self.dup_classes.append(st.name)
            self.classes[st.name] = c
            for b in st.body:
                if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._func(m, c, b)
                    if f.is_setter:
                        c.methods.setdefault("setter:" + b.name, f)
                    else:
                        c.methods[b.name] = f
                elif isinstance(b, ast.Assign):
                    for t in b.targets:
                        if isinstance(t, ast.Name):
                            c.class_attrs[t.id] = b.value
                elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.value is not None:
                    c.class_attrs[b.target.id] = b.value
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            m.functions[st.name] = self._func(m, None, st)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        m.globals[n.id] = st.value
        elif isinstance(st, (ast.If, ast.Try)):
            for s in ast.iter_child_nodes(st):
                if isinstance(s, ast.stmt):
                    self._scan_stmt(m, s)
                elif isinstance(s, ast.ExceptHandler):
                    for t in s.body:
                        self._scan_stmt(m, t)

    def _abs(self, m, st):
        if not st.level:
            return st.module or ""
        parts = m.name.split(".")
        if not m.path.endswith("__init__.py"):
            parts = parts[:-1]
        parts = parts[: len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))

    def _func(self, m, c, node, parent=None):
        f = Func()
        f.module, f.cls, f.node, f.name, f.parent = m, c, node, node.name, parent
        decs = [ast.unparse(d) for d in node.decorator_list]
        f.kind = "static" if "staticmethod" in decs else "class" if "classmethod" in decs else \
            ("method" if c is not None and parent is None else "func")
        f.abstract = any("abstractmethod" in d for d in decs)
        f.is_property = "property" in decs
        f.is_setter = any(d.endswith(".setter") for d in decs)
        a = node.args
        f.params = [x.arg for x in a.posonlyargs + a.args]
        f.defaults = dict(zip(f.params[len(f.params) - len(a.defaults):], a.defaults))
        f.kwonly = [x.arg for x in a.kwonlyargs]
        for n, d in zip(f.kwonly, a.kw_defaults):
            if d is not None:
                f.defaults[n] = d
        f.vararg = a.vararg.arg if a.vararg else None
        f.kwarg = a.kwarg.arg if a.kwarg else None
        f.doc_types, f.doc_ret = parse_doc(node)
        f.qual = (c.name + "." if c else "") + node.name if parent is None else parent.qual + ".<%s>" % node.name
        f.id = m.name + ":" + f.qual + ("#setter" if f.is_setter else "")
        if parent is None:
            self.funcs[f.id] = f
        return f

    def _resolve_bases(self):
        for c in self.classes.values():
            for b in c.node.bases:
                n = ast.unparse(b).split(".")[-1]
                if n in self.classes and n != c.name:
                    c.bases.append(self.classes[n])
                    self.classes[n].subclasses.append(c)
                else:
                    c.ext_bases.append(ast.unparse(b))

        def mro(c, seen=()):
            out = [c]
            for b in c.bases:
                if b in seen:
                    continue
                for x in mro(b, seen + (c,)):
                    if x in out:
                        out.remove(x)
                    out.append(x)
            return out
        for c in self.classes.values():
            c.mro = mro(c)

    def _exports(self):
        """names reachable as tensap.<name>"""
        init = self.modules.get("tensap")
        if init is None:
            raise AnalysisBroken("tensap/__init__.py not found")
        self.exports = {}
        self.export_values = set(init.globals)
        for n, tgt in init.imports.items():
            r = self.resolve_dotted(tgt)
            if r is not None:
                self.exports[n] = r
            else:
                self.exports[n] = ("ext", tgt)
        for mod in init.star:
            m = self.modules.get(mod)
            if m is None:
                continue
            pub = self._public(m)
            for n in pub:
                self.exports.setdefault(n, pub[n])
        for n in init.globals:
            self.exports.setdefault(n, ("value", n))
        # submodules bound as attributes of the package
        for mod in self.modules:
            p = mod.split(".")
            if len(p) == 2 and p[0] == "tensap":
                self.exports.setdefault(p[1], ("module", mod))

    def _public(self, m):
        allv = m.globals.get("__all__")
        names = {}
        for n, c in m.classes.items():
            names[n] = ("class", c)
        for n, f in m.functions.items():
            names[n] = ("func", f)
        for n, t in m.imports.items():
            names.setdefault(n, self.resolve_dotted(t) or ("ext", t))
        for n in m.globals:
            names.setdefault(n, ("value", n))
        if isinstance(allv, (ast.List, ast.Tuple)):
            keep = [ast.literal_eval(e) for e in allv.elts]
            return {n: names[n] for n in keep if n in names}
        return {n: v for n, v in names.items() if not n.startswith("_")}

    def resolve_dotted(self, dotted):
        """tensap.a.b.Name -> ('class', Cls) / ('func', Func) / ('module', name)"""
        if dotted in self.modules:
            return ("module", dotted)
        if "." in dotted:
            mod, n = dotted.rsplit(".", 1)
            m = self.modules.get(mod)
            if m is not None:
                if n in m.classes:
                    return ("class", m.classes[n])
                if n in m.functions:
                    return ("func", m.functions[n])
                if mod == "tensap" and hasattr(self, "exports") and n in self.exports:
                    return self.exports[n]
                if n in m.imports:
                    return self.resolve_dotted(m.imports[n]) or ("ext", m.imports[n])
                if n in m.globals:
                    return ("value", n)
        return None

    # -- queries ----------------------------------------------------------------
    def cls(self, name):
        if name not in self.classes:
            raise AnalysisBroken("class %s not found" % name)
        return self.classes[name]

    def method(self, cname, mname):
        f = self.cls(cname).lookup(mname)
        if f is None:
            raise AnalysisBroken("operation %s.%s not found" % (cname, mname))
        return f

    def all_funcs(self):
        return [self.funcs[k] for k in sorted(self.funcs)]


def resolve_name(prog, module, name):
    """global name in a module -> resolved entity or None"""
    if name in module.classes:
        return ("class", module.classes[name])
    if name in module.functions:
        return ("func", module.functions[name])
    if name in module.imports:
        t = module.imports[name]
        if t == "tensap":
            return ("module", "tensap")
        return prog.resolve_dotted(t) or ("ext", t)
    if name in module.globals:
        return ("value", name)
    for s in module.star:
        m = prog.modules.get(s)
        if m is not None:
            pub = prog._public(m)
            if name in pub:
                return pub[name]
        else:
            return None
    return None
