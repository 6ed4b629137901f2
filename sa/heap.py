"""Interprocedural alias, effect and dependence analysis (abstract heap + function summaries).

Every function is interpreted once per summary change over an abstract heap:
  * objects are access paths rooted at a parameter (the caller's objects) or
    allocation sites (objects created by the function);
  * numpy views, fancy indexing, shallow and deep copies, containers and
    user-defined classes are modelled (tables below);
  * a summary lists the parameter-rooted locations the function may modify, what
    its result aliases, and what result and written locations depend on.
"""
import ast
from . import npmodel as M
from .types import FIELDS, PARAMS, eval_param
from .program import Program, resolve_name, AnalysisBroken

MAXPATH = 4
CAP = 60
E = frozenset()
BLOB = frozenset(["?"])


class Loc:
    """abstract location: a root (parameter, allocation site, global) and a field path; interned"""
    __slots__ = ("root", "path", "is_param", "_h", "obj")
    table = {}

    def __new__(cls, root, path):
        k = (root, path)
        o = cls.table.get(k)
        if o is None:
            o = object.__new__(cls)
            o.root, o.path, o.is_param = root, path, root[0] == "p"
            o._h = hash(k)
            o.obj = None
            cls.table[k] = o
        return o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "%s%s" % (self.root, "".join("." + p for p in self.path))


class Obj:
    """a location together with what is known of the kind of object there"""
    __slots__ = ("l", "kinds", "ekinds", "_h")
    table = {}

    def __new__(cls, root, path, kinds, ekinds):
        return cls.at(Loc(root, path), kinds, ekinds)

    @classmethod
    def at(cls, l, kinds, ekinds):
        if len(kinds) > 7 and sum(x[1] == ":" for x in kinds if len(x) > 1) > 7:
            kinds = BLOB
        if len(ekinds) > 7 and sum(x[1] == ":" for x in ekinds if len(x) > 1) > 7:
            ekinds = E
        k = (l, kinds, ekinds)
        o = cls.table.get(k)
        if o is None:
            o = object.__new__(cls)
            o.l, o.kinds, o.ekinds = l, kinds, ekinds
            o._h = hash(k)
            cls.table[k] = o
            if l.obj is None:
                l.obj = o
        return o

    def __hash__(self):
        return self._h

    root = property(lambda s: s.l.root)
    path = property(lambda s: s.l.path)
    is_param = property(lambda s: s.l.is_param)

    def __repr__(self):
        return repr(self.l)


def merge_objs(a, b):
    """union of two object sets; entries for the same location are merged"""
    if a is b or not b:
        return a
    if not a:
        return b
    if b <= a:
        return a
    if a <= b:
        return b
    d = {}
    dup = False
    for o in a:
        d[o.l] = o
    for o in b:
        p = d.get(o.l)
        if p is None:
            d[o.l] = o
        elif p is not o:
            d[o.l] = Obj.at(o.l, p.kinds | o.kinds, p.ekinds | o.ekinds)
    if len(d) > CAP:
        # widening: the new objects of an over-large set become one opaque new object
        keep = [o for o in d.values() if o.l.is_param]
        if len(keep) < len(d):
            keep.append(Obj(("n", "many"), (), BLOB, E))
        return frozenset(keep)
    return frozenset(d.values())


class Heap:
    """location -> field -> Val, with copy-on-write sharing of the field tables"""
    __slots__ = ("d", "own")

    def __init__(self, d=None):
        self.d, self.own = d if d is not None else {}, set()

    def copy(self):
        self.own = set()
        return Heap(dict(self.d))

    def get(self, k, default=None):
        t = self.d.get(k[0] if k[0].__class__ is Loc else k[0].l)
        return default if t is None else t.get(k[1], default)

    __getitem__ = get

    def __contains__(self, k):
        t = self.d.get(k[0] if k[0].__class__ is Loc else k[0].l)
        return t is not None and k[1] in t

    def fields(self, o):
        return self.d.get(o if o.__class__ is Loc else o.l) or {}

    def __setitem__(self, k, v):
        l = k[0] if k[0].__class__ is Loc else k[0].l
        t = self.d.get(l)
        if t is None:
            self.d[l] = {k[1]: v}
            self.own.add(l)
        else:
            if t.get(k[1]) is v:
                return
            if l not in self.own:
                t = self.d[l] = dict(t)
                self.own.add(l)
            t[k[1]] = v

    def drop_roots(self, roots):
        for l in [l for l in self.d if l.root in roots]:
            del self.d[l]
            self.own.discard(l)

    def update(self, other):
        for l, t in other.d.items():
            mine = self.d.get(l)
            if mine is t:
                continue
            if mine is None:
                self.d[l] = t
            else:
                m = dict(mine)
                m.update(t)
                self.d[l] = m
                self.own.add(l)
        other.own = set()


class Val:
    __slots__ = ("objs", "prims", "deps", "elts", "funcs", "rk", "const", "_k")

    def __init__(self, objs=E, prims=E, deps=E, elts=None, funcs=E, rk=None, const=None):
        self._k = None
        self.objs, self.prims, self.deps, self.elts, self.funcs, self.rk, self.const = \
            objs, prims, deps, elts, funcs, rk, const

    def key(self):
        return (self.objs, self.prims, self.deps, tuple(e.key() for e in self.elts) if self.elts is not None else None,
                self.funcs, self.rk, self.const)

    def __eq__(self, o):
        return self is o or self.key() == o.key()

    def kinds(self):
        if self.rk is not None:
            return self.rk
        k = self._k
        if k is None:
            k = set(self.prims)
            for o in self.objs:
                k |= o.kinds
            k = self._k = frozenset(k)
        return k

    def with_deps(self, d):
        if not d or d <= self.deps:
            return self
        return Val(self.objs, self.prims, self.deps | d, self.elts, self.funcs, self.rk, self.const)

    def __repr__(self):
        return "Val(%s%s%s)" % (set(self.objs) or "", set(self.prims) or "", " elts" if self.elts else "")


NUM = Val(prims=frozenset(["num"]))
STR = Val(prims=frozenset(["str"]))
BOOL = Val(prims=frozenset(["num"]))
NONE = Val(prims=frozenset(["none"]))
BOT = Val()


def join(a, b):
    if a is b or a is None:
        return b
    if b is None:
        return a
    objs = merge_objs(a.objs, b.objs)
    prims = a.prims if b.prims <= a.prims else a.prims | b.prims
    deps = a.deps if b.deps <= a.deps else a.deps | b.deps
    funcs = a.funcs if b.funcs <= a.funcs else a.funcs | b.funcs
    elts, rk = None, None
    if a.elts is None and b.elts is None:
        pass
    elif a.elts is not None and b.elts is not None and len(a.elts) == len(b.elts):
        elts = tuple(join(x, y) for x, y in zip(a.elts, b.elts))
        if all(x is y for x, y in zip(elts, a.elts)):
            elts = a.elts
    elif a.elts is not None and not b.objs and not b.funcs and b.elts is None:
        elts = a.elts
    elif b.elts is not None and not a.objs and not a.funcs and a.elts is None:
        elts = b.elts
    else:
        for t in (a, b):
            for e in t.elts or ():
                for x in flat_elts(e):
                    objs, deps, funcs = merge_objs(objs, x.objs), deps | x.deps, funcs | x.funcs
        prims = prims | frozenset(["tuple"])
    const = a.const if a.const == b.const and type(a.const) is type(b.const) else None
    if objs is a.objs and prims is a.prims and deps is a.deps and funcs is a.funcs and elts is a.elts and const is a.const:
        return a
    return Val(objs, prims, deps, elts, funcs, rk, const)


def flat_elts(v):
    yield v
    for e in v.elts or ():
        for x in flat_elts(e):
            yield x


class State:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env=None, heap=None, pc=E):
        self.env, self.heap, self.pc = env or {}, heap if heap is not None else Heap(), pc

    def copy(self):
        return State(dict(self.env), self.heap.copy(), self.pc)


class Summary:
    def __init__(self):
        self.ret = None          # Val or None (does not return)
        self.effects = {}        # (param index, path, field) -> Effect
        self.out = {}            # (Obj, field) -> Val, param rooted or reachable new objects
        self.analysed = False

    def sig(self):
        return (self.ret.key() if self.ret is not None else None,
                frozenset((k, e.deps) for k, e in self.effects.items()),
                frozenset((o, f, v.key()) for (o, f), v in self.out.items()))


class Effect:
    __slots__ = ("desc", "loc", "chain", "origin", "deps", "how")

    def __init__(self, desc, loc, origin, chain=(), deps=E, how="store"):
        self.desc, self.loc, self.origin, self.chain, self.deps, self.how = desc, loc, origin, chain, deps, how


class Closure:
    __slots__ = ("func", "node", "env", "_h", "owner")

    def __init__(self, node, env, owner):
        self.node, self.env, self.owner = node, env, owner
        self._h = hash(("closure", id(node)))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Closure) and o.node is self.node


class Bound:
    """bound method / function reference used as a value"""
    __slots__ = ("targets", "recv", "name")

    def __init__(self, targets, recv, name):
        self.targets, self.recv, self.name = targets, recv, name

    def __hash__(self):
        return hash((self.targets, self.name))

    def __eq__(self, o):
        return isinstance(o, Bound) and (self.targets, self.name) == (o.targets, o.name) and self.recv == o.recv


class ClassRef:
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls

    def __hash__(self):
        return hash(("cref", self.cls.name))

    def __eq__(self, o):
        return isinstance(o, ClassRef) and o.cls is self.cls


class ExtRef:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("ext", self.name))

    def __eq__(self, o):
        return isinstance(o, ExtRef) and o.name == self.name


class Engine:
    """Global driver: summaries, attribute types, worklist."""

    def __init__(self, prog=None, track_deps=False, hooks=None):
        self.prog = prog or Program()
        self.track = track_deps
        self.summaries = {}
        self.deps_on = {}         # func id -> set of dependents
        self.attr_kinds = {}      # (class, attr) -> (kinds, ekinds)
        self.attr_readers = {}
        self.work, self.inwork = [], set()
        self.g_effects = {}       # writes to module level, class level and default objects
        self.active = []
        self.hooks = hooks
        self.stats = {"functions": 0, "calls": 0, "resolved_calls": 0, "unknown_calls": 0, "rounds": 0}
        self.param_hint = {}
        self.ck_cache = {}
        self.heavy = lambda f: False
        self.fixed = set()
        self.nf_cache = {}
        self.have_cache = {}
        self.duck_cache = {}
        self.decl_cache, self.untyped_cache = {}, {}
        self.param_kinds = {}
        self.unknown_call_names = {}
        self._seed_attr_kinds()

    # -- attribute types --------------------------------------------------------
    def _seed_attr_kinds(self):
        for c in self.prog.classes.values():
            doc = ast.get_docstring(c.node) or ""
            lines = doc.split("\n")
            on = False
            for (cn, a), (k, e) in FIELDS.items():
                if cn == c.name and "?" not in k:
                    self.attr_kinds[(cn, a)] = (k, e)
            for i, l in enumerate(lines):
                if i + 1 < len(lines) and lines[i + 1].strip().startswith("---"):
                    on = l.strip().lower() == "attributes"
                    continue
                if on and " : " in l and l and not l[0].isspace():
                    n, t = l.split(" : ", 1)
                    k, e = self.kinds_of_text(t)
                    if k and "?" not in k:
                        self.note_attr(c.name, n.strip(), k, e, False)

    def note_attr(self, cname, attr, kinds, ekinds, requeue=True):
        old = self.attr_kinds.get((cname, attr), (E, E))
        if (cname, attr) in self.fixed:
            return
        c = self.prog.classes.get(cname)
        for b in c.mro if c is not None else ():
            if (b.name, attr) in FIELDS:
                self.fixed.add((cname, attr))
                return
        if kinds <= old[0] and ekinds <= old[1]:
            return
        kinds, ekinds = kinds - {"none"}, ekinds - {"none"}
        new = (old[0] | kinds, old[1] | ekinds)
        if new != old:
            self.attr_kinds[(cname, attr)] = new
            self.ck_cache.clear()
            if requeue:
                for f in self.attr_readers.get(attr, ()):
                    self.enqueue(f)

    def kinds_of_text(self, text):
        """docstring type text -> (kinds, element kinds)"""
        t = text.replace("optional", "").replace("tap.", "tensap.").strip(" ,.")
        kinds, ek = set(), set()
        for alt in [x.strip() for x in t.replace(" or ", ",").split(",") if x.strip()]:
            a, elem = alt, None
            for w in ("list of ", "List of ", "tuple of "):
                if alt.startswith(w):
                    a, elem = w.split()[0].lower(), alt[len(w):]
            low = a.lower().strip(" .()[]")
            if low in ("int", "float", "bool", "boolean", "scalar", "number", "numpy.inf", "integer", "double", "real"):
                kinds.add("num")
            elif low in ("str", "string") or low.startswith(("'", '"')):
                kinds.add("str")
            elif low in ("none", "[]"):
                kinds.add("none")
            elif low.startswith(("numpy", "np.", "array", "2-by", "1-by", "ndarray", "(n,")):
                kinds.add("nd")
            elif low.startswith("list"):
                kinds.add("list")
            elif low.startswith("tuple"):
                kinds.add("tuple")
            elif low.startswith("dict"):
                kinds.add("dict")
            elif low.startswith(("fun", "callable")) and low in ("fun", "function", "func", "callable"):
                kinds.add("func")
            else:
                n = a.strip(" .()").split(".")[-1]
                if n in self.prog.classes:
                    kinds.add("C:" + n)
                elif low in ("tensor", "tensap.tensor"):
                    kinds.update("C:" + x for x in ("FullTensor", "TreeBasedTensor", "CanonicalTensor",
                                                     "DiagonalTensor", "SparseTensor") if x in self.prog.classes)
                else:
                    kinds.add("?")
            if elem:
                k2, _ = self.kinds_of_text(elem.rstrip("s") if elem.rstrip("s") in ("tensor",) else elem)
                ek |= k2
        return frozenset(kinds), frozenset(ek)

    def child_kinds(self, obj_kinds, ekinds, field, reader=None):
        """kinds of field of an object with the given kinds"""
        if field.startswith(("[", "{")):
            if ekinds:
                return ekinds, E
            if obj_kinds <= {"nd", "num"}:
                return frozenset(["num"]), E
            return frozenset(["?"]), E
        if reader is not None:
            self.attr_readers.setdefault(field, set()).add(reader)
        key = (obj_kinds, field)
        r = self.ck_cache.get(key)
        if r is not None:
            return r
        k, e = set(), set()
        for kd in obj_kinds:
            if kd.startswith("C:"):
                c = self.prog.classes.get(kd[2:])
                if c is None:
                    continue
                for x in c.mro:
                    t = self.attr_kinds.get((x.name, field))
                    if t is not None and (x.name, field) in FIELDS:
                        break
                else:
                    t = None
                if t is not None:
                    k |= t[0]
                    e |= t[1]
                    continue
                for x in c.family():
                    t = self.attr_kinds.get((x.name, field))
                    if t is not None:
                        k |= t[0]
                        e |= t[1]
        if not k:
            k.add("?")
        elif len(k) > 1:
            k.discard("?")
        if len(e) > 1:
            e.discard("?")
        r = self.ck_cache[key] = (frozenset(k), frozenset(e))
        return r

    def narrow(self, v, kinds, ekinds):
        """restrict the objects of v to the declared kinds of the place they were read from"""
        if "?" in kinds or not v.objs:
            return v
        objs, same = [], True
        cont = {"nd", "objarr", "list", "tuple", "dict", "set"}
        want = set()
        for k in kinds:
            want.add(k)
            if k.startswith("C:") and k[2:] in self.prog.classes:
                want.update("C:" + x.name for x in self.prog.classes[k[2:]].all_subclasses())
        for o in v.objs:
            ks = o.kinds
            if ks <= want:
                objs.append(o)
                continue
            got = ks & want
            for k in ks:
                if k.startswith("C:") and k not in want and k[2:] in self.prog.classes:
                    subs = {"C:" + x.name for x in self.prog.classes[k[2:]].all_subclasses()}
                    got = got | (want & subs)
            if "?" in ks or "ext" in ks:
                got = got | (kinds - {"none"})
            if not got and ks & cont and kinds & cont:
                got = ks & cont
            if not got:
                same = False
                continue
            n = Obj.at(o.l, frozenset(got), (o.ekinds - {"?"}) or ekinds)
            if n is not o:
                same = False
            objs.append(n)
        if same:
            return v
        return Val(frozenset(objs), v.prims, v.deps, v.elts, v.funcs, None, v.const)

    def can_have(self, kinds, fl):
        """may an object of these kinds have elements / an attribute fl at all?"""
        if not kinds or "?" in kinds or "ext" in kinds or fl in ("#", "@", "~"):
            return True
        key = (kinds, fl if not fl.startswith("[") else "[")
        r = self.have_cache.get(key)
        if r is None:
            if fl.startswith("["):
                r = bool(kinds & {"nd", "list", "objarr", "dict", "set", "tuple"}) or any(
                    k.startswith("C:") and k[2:] in self.prog.classes and
                    any("__setitem__" in x.methods or "__getitem__" in x.methods for x in self.prog.classes[k[2:]].family())
                    for k in kinds)
            else:
                r = any((x.name, fl) in self.attr_kinds for k in kinds if k.startswith("C:") and k[2:] in self.prog.classes
                        for x in self.prog.classes[k[2:]].family())
            if r or fl.startswith("["):
                self.have_cache[key] = r
        return r

    def duck(self, name):
        """classes an object must have if all we know is that .name is used on it (at most two families)"""
        r = self.duck_cache.get(name)
        if r is None:
            cs = [c for c in self.prog.classes.values()
                  if name in c.methods or (c.name, name) in self.attr_kinds]
            tops = [c for c in cs if not any(b in cs for b in c.mro[1:])]
            common = name in M.MUTATORS or name in M.VIEW_METHODS or name in M.FRESH_METHODS or name in M.STR_METHODS \
                or name in M.PRIM_ATTRS or name in M.VIEW_ATTRS or name == "shape"
            r = frozenset("C:" + c.name for c in tops) if 0 < len(tops) <= 2 and not common else E
            self.duck_cache[name] = r
        return r

    def declared(self, f, n):
        """(kinds, element kinds) of parameter n from its documentation and default"""
        key = (f.id, n)
        r = self.decl_cache.get(key)
        if r is None:
            if n in f.doc_types:
                r = self.kinds_of_text(f.doc_types[n])
            elif eval_param(f.module.name, f.cls, f.name, n) is not None:
                r = eval_param(f.module.name, f.cls, f.name, n)
            else:
                kinds = PARAMS.get(n, frozenset(["?"]))
                d = f.defaults.get(n)
                if isinstance(d, ast.Constant) and isinstance(d.value, (bool, int, float)):
                    kinds = frozenset(["num"])
                elif isinstance(d, ast.Constant) and isinstance(d.value, str):
                    kinds = frozenset(["str"])
                r = (kinds, E)
            if not r[0]:
                r = (frozenset(["?"]), r[1])
            self.decl_cache[key] = r
        return r

    def untyped(self, f):
        """indices of the parameters whose kind is inferred from call sites"""
        r = self.untyped_cache.get(f.id)
        if r is None:
            r = []
            for i, n in enumerate(list(f.params) + list(f.kwonly)):
                if i == 0 and f.kind in ("method", "class"):
                    continue
                if "?" in self.declared(f, n)[0]:
                    r.append(i)
            self.untyped_cache[f.id] = r
        return r

    def note_param(self, f, i, kinds, ekinds):
        old = self.param_kinds.get((f.id, i), (E, E))
        if kinds <= old[0] and ekinds <= old[1]:
            return
        new = (old[0] | kinds, old[1] | ekinds)
        self.param_kinds[(f.id, i)] = new
        self.enqueue(f)

    # -- summaries ---------------------------------------------------------------
    def enqueue(self, f):
        if f.id not in self.inwork:
            self.inwork.add(f.id)
            self.work.append(f)

    def summary(self, f, user=None):
        if user is not None and user is not f:
            self.deps_on.setdefault(f.id, set()).add(user)
        elif user is f:
            self.deps_on.setdefault(f.id, set()).add(user)
        s = self.summaries.get(f.id)
        if s is None:
            s = self.summaries[f.id] = Summary()
            if self.heavy(f):
                return s
            if len(self.active) < 60:
                self._analyse(f)
                s = self.summaries[f.id]
            else:
                self.enqueue(f)
        return s

    def _analyse(self, f):
        self.active.append(f)
        self.inwork.discard(f.id)
        old = self.summaries.get(f.id)
        osig = old.sig() if old is not None and old.analysed else None
        new = FuncAnalysis(self, f).run()
        new.analysed = True
        self.stats["rounds"] += 1
        self.active.pop()
        # monotone: keep earlier effects
        self.summaries[f.id] = new
        if osig is None or new.sig() != osig:
            for d in self.deps_on.get(f.id, ()):
                if d not in self.active or d is f:
                    self.enqueue(d)
                else:
                    self.enqueue(d)

    def run(self, funcs, heavy=lambda f: False, heavy_rounds=2):
        """fixpoint over funcs; functions for which heavy(f) holds are analysed last, callees first,
        at most heavy_rounds times"""
        self.heavy = heavy
        light = [f for f in funcs if not heavy(f)]
        self._fix(light, 12)
        self.heavy = lambda f: False
        big = [f for f in funcs if heavy(f)]
        if big:
            for f in big:
                self.summaries.pop(f.id, None)
            self._fix(big, heavy_rounds)
        self.stats["functions"] = len([s for s in self.summaries.values() if s.analysed])
        return self

    def _fix(self, funcs, cap):
        for f in funcs:
            self.summary(f)
        guard = 0
        counts = {}
        while self.work:
            f = self.work.pop(0)
            if f.id not in self.inwork:
                continue
            counts[f.id] = counts.get(f.id, 0) + 1
            if counts[f.id] > cap:
                self.inwork.discard(f.id)
                continue
            self._analyse(f)
            guard += 1
            if guard > 60000:
                raise AnalysisBroken("fixpoint did not converge")


from .interp import FuncAnalysis  # noqa: E402  (cyclic by design)
