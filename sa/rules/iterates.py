"""P23: recorded iterates are snapshots; the selected model is the reported one."""
import ast

from ..heap import Val, E, join
from ..hooks import Hook, observe
from ..paths import Walker, TooMany

MARK = "%recorded"
KEY = "iterates"
MODEL = ("tensor", "tensors", "core", "space", "data", "tree", "[*]", "shape", "indices", "is_active_node", "ranks", "bases")


def containers(st, ret):
    """the objects under the key 'iterates' of the dictionaries a function returns"""
    out = set()
    for v in (ret,) + (ret.elts or ()):
        for o in v.objs:
            for fl, w in st.heap.fields(o).items():
                if isinstance(fl, str) and fl.startswith("[") and KEY in fl:
                    out.update(x.l for x in w.objs)
    return out


class Find(Hook):
    def __init__(self):
        self.found = {}

    def leave(self, fa, st, ret):
        c = {l for l in containers(st, ret) if not l.is_param} if ret is not None else None
        if c:
            self.found.setdefault(fa.f.id, set()).update(c)


def reach(fa, st, v):
    """objects reachable from a value"""
    seen, out = set(), []
    todo = [v]
    while todo:
        x = todo.pop()
        for y in x.elts or ():
            todo.append(y)
        for o in x.objs:
            if o.l in seen:
                continue
            seen.add(o.l)
            out.append(o)
            for fl, w in list(st.heap.fields(o).items()):
                if fl in ("@", "#", "~"):
                    continue
                todo.append(w)
        if len(seen) > 400:
            break
    return out


class Watch(Hook):
    """marks what a recorded iterate is made of (one environment entry per object) and reports later changes to it"""

    def __init__(self, found, kinds):
        self.found = found
        self.kinds = kinds
        self.records, self.hits = {}, {}

    def marked(self, st):
        return {l for k in st.env if k.__class__ is str and k.startswith(MARK) for l in (o.l for o in st.env[k].objs)}

    def dropped(self, fa, st, roots):
        for k in [k for k in st.env if k.startswith(MARK) and any(o.l.root in roots for o in st.env[k].objs)]:
            del st.env[k]

    def record(self, fa, st, o, v, node):
        if o.l not in self.found.get(fa.f.id, ()):
            return
        objs = self.parts(fa, st, v)
        self.records.setdefault((fa.f.id, id(node)), (fa, node, len(objs)))
        for x in objs:
            st.env["%s%d" % (MARK, id(x.l))] = Val(objs=frozenset((x,)))

    def parts(self, fa, st, v):
        """the recorded model: the functional tensors in v, their tensor and its nodes"""
        seen, out = set(), []
        todo = list(v.objs)
        for e in v.elts or ():
            todo += e.objs
        while todo:
            o = todo.pop()
            if o.l in seen:
                continue
            seen.add(o.l)
            out.append(o)
            for fl, w in list(st.heap.fields(o).items()):
                if fl in ("tensor", "tensors", "core", "space", "data", "tree") or (fl.startswith("[") and o.l not in self.found[fa.f.id]):
                    todo += w.objs
        return out

    def changed(self, fa, st, objs, fl, node, what):
        if fl not in MODEL:
            return
        marked = None
        for o in objs:
            if o.l in self.found.get(fa.f.id, ()):
                continue
            if marked is None:
                marked = self.marked(st)
            if not marked:
                return
            if o.l in marked or (o.l.is_param and any(l.root == o.l.root and o.l.path[:len(l.path)] == l.path for l in marked)):
                self.hits.setdefault((fa.f.id, fl, what), (fa, node, o))

    def store_attr(self, fa, st, base, attr, v, node):
        self.changed(fa, st, base.objs, attr, node, "attribute %s is assigned" % attr)

    def store_elem(self, fa, st, base, idx, v, node):
        for o in base.objs:
            self.record(fa, st, o, v, node)
        self.changed(fa, st, base.objs, "[*]", node, "an element is assigned")

    def appended(self, fa, st, o, v, e):
        self.record(fa, st, o, v, e)

    def mutate(self, fa, st, o, node, desc):
        self.changed(fa, st, (o,), "[*]", node, desc)

    def inst_effect(self, fa, st, o, fl, e, f, ef):
        if "linear_model_learning" in fa.effect_path or "options" in fa.effect_path:
            return      # the state of the linear solvers is no part of a model
        self.changed(fa, st, (o,), fl, e, "%s modifies it (%s)" % (f.qual, ef.desc))

    def inst_store(self, fa, st, o, fl, v, e, f):
        # a helper that stores into the caller's container (not the content of a container it returns)
        if fl.startswith("[") and tuple(o.l.root[2:4]) != (e.lineno, e.col_offset):
            self.record(fa, st, o, v, e)


def snapshots(ctx, rep):
    eng, _ = ctx.effects(True)
    funcs = [f for f in ctx.prog.all_funcs() if "tensor_learning" in f.module.name]
    fd = Find()
    observe(eng, funcs, fd)
    w = Watch(fd.found, None)
    observe(eng, funcs, w)
    byid = {f.id: f for f in funcs}
    for fid, cs in fd.found.items():
        rep.count("functions that keep iterates")
    for fa, node, n in w.records.values():
        rep.count("places where an iterate is recorded")
        rep.count("objects reachable from recorded iterates", n)
        rep.sample("%s: iterate recorded at %s (%d objects)" % (fa.f.qual, fa.loc(node), n))
    for (fid, fl, what), (fa, node, o) in sorted(w.hits.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][2])):
        f = byid[fid]
        rep.violation("iterate modified", "iterate|%s|%s" % (f.qual, fl), "an iterate recorded earlier is modified: %s" % what, fa.loc(node), f.qual)
    rep.floor("functions that keep iterates", 3)
    rep.floor("places where an iterate is recorded", 5)


# the selected model is the reported one ------------------------------------------------------
LISTS = {"error": "error_iterations", "test_error": "test_error_iterations"}
CRITERION = {"test_error": "test_error_iterations", "cv_error": "error_iterations"}
SELECTED = "selected_model_number"
WRAP = ("float", "int", "abs", "asarray", "array", "FunctionalTensor")


def subterms(t):
    todo = [t]
    while todo:
        x = todo.pop()
        yield x
        todo += [y for y in x[1:] if isinstance(y, tuple) and y]


def consts(t):
    return {x[1] for x in subterms(t) if x[0] == "const" and isinstance(x[1], str)}


def called(t):
    """name of the function a call term calls"""
    if t[0] == "call" and t[1][0] == "attr":
        return t[1][2]
    if t[0] == "call" and t[1][0] == "name":
        return t[1][1]
    return None


class Reported(Walker):
    """events: stores into output[...] and into the lists of iterates and errors"""

    def __init__(self, prog, f, cls, names=(), lists=None):
        super().__init__(prog, f)
        self.cls = cls
        self.names = set(names)
        self.lists = lists or {}
        self.loops = []
        self.containers = {}

    def norm(self, t):
        # wrappers that keep the model: FunctionalTensor(x, bases), x.tensor, float(x)
        if t[0] == "call" and called(t) in WRAP and len(t) > 2:
            return t[2]
        if t[0] == "attr" and t[2] == "tensor":
            return t[1]
        return t

    def mentions(self, node):
        for x in ast.walk(node):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.slice, ast.Constant) \
                    and x.slice.value in KEYS:
                return True
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in self.names:
                return True
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in self.names:
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend"):
                b = x.func.value
                if isinstance(b, ast.Name) and b.id in self.names:
                    return True
                if isinstance(b, ast.Subscript) and isinstance(b.slice, ast.Constant) and b.slice.value in KEYS:
                    return True
        return False

    def relevant(self, node):
        if self.mentions(node):
            return True
        for x in ast.walk(node):
            if isinstance(x, ast.Call):
                g = self.inline_target(x)
                if g is not None and self.mentions(g.node):
                    return True
        return False

    def inline_target(self, e):
        fn = e.func
        if not (isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls", self.cls.name)):
            if isinstance(fn, ast.Name):
                g = self.f.module.functions.get(fn.id)
                if g is not None and self.followable(g):
                    return g
            return None
        m = self.cls.lookup(fn.attr)
        if m is None or m.abstract or any(fn.attr in c.methods for c in self.cls.all_subclasses()):
            return None
        return m if self.followable(m) else None

    def followable(self, g):
        if g is self.f or any(isinstance(x, (ast.For, ast.While, ast.Yield, ast.YieldFrom, ast.Try)) for x in ast.walk(g.node)):
            return False
        return bool({x.value for x in ast.walk(g.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)} & set(KEYS)) or \
            any(a in self.names for a in g.params) or len(g.node.body) < 12

    def retensor(self, p, k, v):
        """x.tensor = v makes x another model"""
        p.store.pop(k, None)
        for n in [n for n, t in p.env.items() if t == k[1]]:
            p.env[n] = v
        if k[1][0] == "name" and k[1][1] not in p.env:
            p.env[k[1][1]] = v

    def havoc(self, p, nodes, why):
        super().havoc(p, nodes, why)
        for k in [k for k in p.store if k[0] == "attr" and k[2] == "tensor"]:
            self.retensor(p, k, p.store[k])

    def on_store(self, p, k, v, node):
        if k[0] == "attr" and k[2] == "tensor":
            self.retensor(p, k, v)
        if k[0] == "item" and k[2][0] == "const" and k[2][1] in KEYS:
            c = v[1] if v[0] == "item" and v[2][0] == "slice" else v
            self.containers.setdefault(k[2][1], set()).add(c)
        if k[0] == "item":
            for key, cs in self.lists.items():
                if k[1] in cs or (k[1][0] == "item" and k[1][2] == ("const", key)):
                    p.events.append((key, k[2], v, node))

    def on_append(self, p, t, v, node):
        for key, cs in self.lists.items():
            if t in cs or (t[0] == "item" and t[2] == ("const", key)):
                p.events.append((key, "end", v, node))

    def on_loop(self, p, node, outs):
        if self.depth == 0:
            self.loops.append((node, [(q.end, dict(q.env), list(q.events), list(q.conds)) for q in outs]))


KEYS = ("iterates", "error_iterations", "test_error_iterations", SELECTED, "error", "test_error")


def has(t, x):
    return any(y == x for y in subterms(t))


def selection(rep, f, cls, prog):
    """every path that reports a selected model returns it, with the errors of that model"""
    rets = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Return) and x.value is not None]
    names = {n.id for r in rets for n in ast.walk(r) if isinstance(n, ast.Name)} - {"self"}
    w = Reported(prog, f, cls, names)
    paths = w.run()
    n = 0
    bad = {}
    for p in paths:
        if p.end != "return" or p.value is None:
            continue
        sel = [(k, v) for k, v in p.store.items() if k[0] == "item" and k[2] == ("const", SELECTED)]
        for (_, out, _k), ind in sel:
            n += 1
            ks = [c for c in consts(ind) if c in LISTS.values()]
            if len(ks) != 1 or not any((called(x) or "") in ("argmin", "nanargmin", "argsort", "index", "min") for x in subterms(ind)):
                bad.setdefault("index", "the selected index is not the position of the smallest recorded error")
                continue
            crit = [c for t, v in p.conds if v and t[0] == "Compare" and t[-1] == "Eq" for c in consts(t) if c in CRITERION]
            if crit and CRITERION[crit[-1]] != ks[0]:
                bad.setdefault("criterion", "selection by '%s' minimises '%s'" % (crit[-1], ks[0]))
            r = p.value[1] if p.value[0] == "tuple" and len(p.value) > 1 else p.value
            if not (r[0] == "item" and r[2] == ind and r[1] == ("item", out, ("const", "iterates"))):
                bad.setdefault("model", "the function returned is not output['iterates'][%s]" % SELECTED)
            for e, lst in LISTS.items():
                v = p.store.get(("item", out, ("const", e)))
                if v is None:
                    absent = any(not tv and lst in consts(t) for t, tv in p.conds)
                    # a conjunction known to be false that tests whether the list is there
                    if not absent:
                        bad.setdefault(e, "output['%s'] is not updated to the error of the selected model" % e)
                elif ks[0] == lst and called(v) in ("min", "amin", "nanmin") and has(v, ("item", out, ("const", lst))):
                    pass
                elif not (v[0] == "item" and v[2] == ind and v[1] == ("item", out, ("const", lst))):
                    bad.setdefault(e, "output['%s'] is not the entry of output['%s'] at the selected index" % (e, lst))
    for k, m in sorted(bad.items()):
        rep.violation("selected model", "selection|%s|%s" % (f.qual, k), m, f.module.rel + ":%d" % f.node.lineno, f.qual)
    rep.count("paths reporting a selected model", n)
    if n:
        rep.sample("%s: %d paths that report a selected model" % (f.qual, n))


def loops(rep, f, cls, prog):
    """models and errors recorded for one iteration belong to the same model; the loop is left with that model"""
    w = Reported(prog, f, cls)
    w.names = names_of(f)
    try:
        w.run()
        lists = {k: v for k, v in w.containers.items() if k in ("iterates",) + tuple(LISTS.values())}
        if "iterates" not in lists:
            return
        w = Reported(prog, f, cls, w.names, lists)
        w.run()
    except TooMany:
        rep.count("loops with too many paths")
        return
    model = model_names(f)
    bad = {}
    n = 0
    for node, outs in w.loops:
        if not any(ev[0] == "iterates" for q in outs for ev in q[2]):
            continue
        idx = [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)] if isinstance(node, ast.For) else []
        for end, env, events, conds in outs:
            if end in ("return", "raise"):
                continue
            last = {}
            for key, i, v, nd in events:
                last[(key, i)] = (v, nd)
            for (key, i), (v, nd) in last.items():
                if key == "iterates" or ("iterates", i) not in last:
                    continue
                m = last[("iterates", i)][0]
                n += 1
                call = m[1] if m[0] == "item" and m[2][0] == "const" else None
                if has(v, m) or (call is not None and has(v, call)) or v[0] == "?":
                    continue
                if any(x[0] == "?" for x in subterms(v)) and not any(called(x) == "test_error" for x in subterms(v)):
                    continue
                if any(called(x) == "test_error" for x in subterms(v)) or call is not None:
                    bad.setdefault(key, ("the error recorded in '%s' is not that of the iterate recorded with it" % key, nd))
            for x in idx:
                now = env.get(x)
                if now is None:
                    continue
                start = now[1] if now[0] == "BinOp" and now[-1] == "Sub" and now[2] == ("const", 1) else None
                here = last.get(("iterates", now))
                for mname in model:
                    m = env.get(mname)
                    if m is None:
                        continue
                    if start is not None:
                        n += 1
                        if not (m[0] == "?" and m[1].endswith("loop:" + mname) or m[0] == "?" and m[1] == "loop:" + mname):
                            bad.setdefault("back|" + mname, ("the iteration is undone but %s is not the previous model" % mname, node))
                    elif end == "break" and here is not None and not has(m, here[0]) and m[0] != "?":
                        bad.setdefault("exit|" + mname, ("the loop is left with a %s that is not the iterate recorded last" % mname, node))
    for k, (m, nd) in sorted(bad.items()):
        rep.violation("iterate and error", "parallel|%s|%s" % (f.qual, k), m, "%s:%d" % (f.module.rel, nd.lineno), f.qual)
    rep.count("recorded (model, error) pairs compared over paths", n)
    if n:
        rep.sample("%s: %d recorded (model, error) pairs" % (f.qual, n))


def model_names(f):
    """variables the function returns as the model"""
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Return) and x.value is not None:
            v = x.value.elts[0] if isinstance(x.value, ast.Tuple) and x.value.elts else x.value
            out |= {n.id for n in ast.walk(v) if isinstance(n, ast.Name)} - {"self", "tensap"}
    return out


def aliases(f, key):
    """local names stored (possibly sliced) under output[key]"""
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].slice, ast.Constant) \
                and x.targets[0].slice.value == key:
            v = x.value
            while isinstance(v, ast.Subscript):
                v = v.value
            if isinstance(v, ast.Name):
                out.add(v.id)
    return out


def names_of(f):
    out = set(model_names(f))
    for k in ("iterates",) + tuple(LISTS.values()):
        out |= aliases(f, k)
    return out


def p23(ctx, rep):
    snapshots(ctx, rep)
    for c in ctx.prog.classes.values():
        for f in c.methods.values():
            strs = {x.value for x in ast.walk(f.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
            if SELECTED in strs:
                selection(rep, f, c, ctx.prog)
            if "iterates" in strs:
                loops(rep, f, c, ctx.prog)
    rep.floor("paths reporting a selected model", 2)
    rep.floor("recorded (model, error) pairs compared over paths", 2)


RULES = {"P23": (p23, """Everything reachable from a model recorded in output['iterates'] is marked (alias analysis over the learning package, calls
included); a later write to a marked object is a violation, as recorded iterates are snapshots. Value numbering along the paths of the function
that reports selected_model_number: the index is the argmin of the error list the model selection type names, the function returned is
output['iterates'][index], output['error'] and output['test_error'] are the entries of their lists at that index or known to have no list.
Along the paths of the recording loops: an error recorded with an iterate is computed from that iterate, and a loop that is left or undoes an
iteration leaves the model of the iterate recorded last.""",
                 ["external functions do not keep references to their arguments other than documented by numpy's view semantics",
                  "dictionaries returned by the solvers have the key set of the code that builds them"])}
TECHNIQUE = {"P23": "interprocedural alias analysis with typestate marks (recorded => never written) and path-sensitive value numbering"}
NOTE = {"P23": "paths through loops are cut after one iteration with loop-carried values replaced by new unknowns"}
