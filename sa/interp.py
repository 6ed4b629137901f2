"""Abstract interpreter for one function (see heap.py)."""
import ast
from . import npmodel as M
from .program import resolve_name
from .types import FIELDS
from .heap import (flat_elts, Obj, Loc, Heap, merge_objs, Val, State, Summary, Effect, Closure, Bound, ClassRef, ExtRef, join,
                   NUM, STR, BOOL, NONE, BOT, E, MAXPATH)

CONTAINERS = frozenset(["nd", "list", "objarr", "dict", "set", "tuple", "?"])


# fields whose elements have declared kinds in every class that has the field
ELEM_KINDS = {}
for (_c, _n), (_k, _e) in FIELDS.items():
    ELEM_KINDS[_n] = E if not _e or (_n in ELEM_KINDS and not ELEM_KINDS[_n]) else ELEM_KINDS.get(_n, E) | _e
ITER = ("element of a numeric array",)


class FuncAnalysis:
    def __init__(self, eng, f):
        self.eng, self.f, self.prog = eng, f, eng.prog
        self.track = eng.track
        self.mod = f.module
        self.effects = {}
        self.rets = []          # (Val, State)
        self.breaks, self.conts = [], []
        self.depth = 0
        self.hook = eng.hooks
        self.unified = {}
        self.alternatives = False   # the call being instantiated is one of several possible targets

    # -- entry ---------------------------------------------------------------------
    def run(self):
        f, st = self.f, State()
        names = list(f.params) + list(f.kwonly)
        self.param_names = names + [x for x in (f.vararg, f.kwarg) if x]
        self.pvals = {}
        for i, n in enumerate(self.param_names):
            st.env[n] = self.param_val(i, n)
        if self.hook:
            self.hook.enter(self, st)
        out = self.block(f.node.body, st)
        if out is not None:
            self.rets.append((NONE.with_deps(out.pc), out, None))
        s = Summary()
        s.effects = self.effects
        if self.rets:
            final = None
            for v, t, nd in self.rets:
                s.ret = join(s.ret, v)
                final = t.copy() if final is None else self.join_states(final, t)
            if self.hook:
                self.hook.leave(self, final, s.ret)
            s.ret, s.out = self.reachable_out(final, s.ret)
            self.final = final
        return s

    def param_val(self, i, n):
        f = self.f
        kinds, ek = E, E
        if f.kind == "method" and i == 0 and f.cls is not None:
            kinds = frozenset(["C:" + f.cls.name])
        elif f.kind == "class" and i == 0:
            return Val(funcs=frozenset([ClassRef(f.cls)]))
        elif n == f.vararg:
            kinds = frozenset(["tuple"])
        elif n == f.kwarg:
            kinds = frozenset(["dict"])
        else:
            kinds, ek = self.eng.declared(f, n)
            if "?" in kinds:
                pk = self.eng.param_kinds.get((f.id, i))
                if pk is not None:
                    kinds, ek = kinds | pk[0], ek | pk[1]
                    if len(kinds - {"?", "none"}):
                        kinds = kinds - {"?"}
        dep = frozenset([("p", i, ())]) if self.track else E
        if kinds and kinds <= {"num", "str", "none"}:
            return Val(prims=kinds, deps=dep)
        o = Obj(("p", i), (), kinds or frozenset(["?"]), ek)
        prims = kinds & {"num", "str", "none"}
        return Val(objs=frozenset([o]), prims=prims, deps=dep, rk=None)

    OUTDEPTH = 4

    def reachable_out(self, st, ret):
        """(canonical result, canonical heap reachable from the result and the parameters).

        New objects are renamed by the access path that first reaches them, so that a
        summary has a bounded size whatever the number of allocation sites behind it."""
        name, kinds, todo = {}, {}, []

        def visit(v, path):
            for x in flat_elts(v):
                for o in x.objs:
                    if o.l.root[0] == "n" and o.l.root[1] != "shape":
                        if o.l not in name:
                            name[o.l] = path
                            todo.append(o.l)
                        k = kinds.get(o.l)
                        kinds[o.l] = (o.kinds, o.ekinds) if k is None else (k[0] | o.kinds, k[1] | o.ekinds)
                for fr in x.funcs:
                    if isinstance(fr, Bound) and fr.recv is not None:
                        visit(fr.recv, path)

        entries = []
        for l, t in st.heap.d.items():
            if l.is_param:
                for fl, v in t.items():
                    if fl not in ("@", "~"):
                        entries.append((l, fl, v))
        if ret is not None:
            if ret.elts is not None:
                for i, x in enumerate(ret.elts):
                    visit(x, ("r%d" % i,))
                visit(Val(ret.objs, funcs=ret.funcs), ("r",))
            else:
                visit(ret, ("r",))
        entries.sort(key=lambda t: (len(t[0].path), repr(t[0]), t[1]))
        for l, fl, v in entries:
            visit(v, ("p%d" % l.root[1],) + l.path[:2] + ("[*]" if fl.startswith("[") else fl,))
        i = 0
        while i < len(todo):
            l = todo[i]
            i += 1
            p = name[l]
            for fl, v in sorted(st.heap.fields(l).items()):
                if fl == "@":
                    continue
                f2 = "[*]" if fl.startswith("[") else fl
                visit(v, p + (f2,) if len(p) < self.OUTDEPTH else p[:-1] + (f2,))
        new = {}
        merged = {}
        for l, p in name.items():
            nl = Loc(("n", self.f.id, p), ())
            new[l] = nl
            k = merged.get(nl)
            merged[nl] = kinds[l] if k is None else (k[0] | kinds[l][0], k[1] | kinds[l][1])
        rn_memo = {}

        def rn(v):
            r = rn_memo.get(id(v))
            if r is not None:
                return r[0]
            objs, ch = E, False
            for o in v.objs:
                nl = new.get(o.l)
                if nl is None:
                    objs = merge_objs(objs, frozenset([o]))
                else:
                    objs = merge_objs(objs, frozenset([Obj.at(nl, *merged[nl])]))
            elts = tuple(rn(x) for x in v.elts) if v.elts is not None else None
            funcs = frozenset(Bound(fr.targets, rn(fr.recv), fr.name) if isinstance(fr, Bound) and fr.recv is not None else fr
                              for fr in v.funcs)
            r = Val(objs, v.prims, v.deps, elts, funcs, v.rk, v.const)
            rn_memo[id(v)] = (r, v)
            return r

        out, count = {}, {}
        for l, fl, v in entries:
            out[(l.obj, fl)] = rn(v)
        members = {}
        for l, nl in new.items():
            members.setdefault(nl, []).append(l)
        for nl, ls in members.items():
            for l in ls:
                for fl, v in st.heap.fields(l).items():
                    if fl == "@":
                        continue
                    k = (Obj.at(nl, *merged[nl]), fl)
                    out[k] = join(out[k], rn(v)) if k in out else rn(v)
        # normalise shared values so that equal summaries compare equal
        return (rn(ret) if ret is not None else None), out

    @staticmethod
    def val_objs(v):
        out = list(v.objs)
        if v.elts is not None:
            for e in v.elts:
                out.extend(FuncAnalysis.val_objs(e))
        for fr in v.funcs:
            if isinstance(fr, Bound) and fr.recv is not None:
                out.extend(FuncAnalysis.val_objs(fr.recv))
        return out

    # -- state helpers ---------------------------------------------------------------
    def join_states(self, a, b):
        """join of two states; a is returned unchanged (same object) when b adds nothing"""
        if a is None:
            return b
        if b is None or a is b:
            return a
        env, changed = None, False
        for k, v in b.env.items():
            if k in a.env:
                j = join(a.env[k], v)
                if j is a.env[k]:
                    continue
            else:
                j = v
            if env is None:
                env = dict(a.env)
            env[k] = j
        heap = None
        ad, bd = a.heap.d, b.heap.d
        for l, t in bd.items():
            mine = ad.get(l)
            if mine is t:
                continue
            if mine is None:
                if l.root[0] == "n" and not l.path and "@" in t:
                    # allocated on one side only
                    if heap is None:
                        heap = dict(ad)
                    heap[l] = t
                    continue
                mine = {}
            upd = None
            for fl, v in t.items():
                w = mine.get(fl)
                if w is v:
                    continue
                if w is None:
                    j = self.join_default(a, l, fl, v)
                else:
                    j = join(w, v)
                    if j is w:
                        continue
                if upd is None:
                    upd = dict(mine)
                upd[fl] = j
            for fl, v in mine.items():
                if fl not in t:
                    j = self.join_default(b, l, fl, v)
                    if j is not v:
                        if upd is None:
                            upd = dict(mine)
                        upd[fl] = j
            if upd is not None:
                if heap is None:
                    heap = dict(ad)
                heap[l] = upd
        for l, t in ad.items():
            if l not in bd and not (l.root[0] == "n" and not l.path and "@" in t):
                upd = None
                for fl, v in t.items():
                    j = self.join_default(b, l, fl, v)
                    if j is not v:
                        if upd is None:
                            upd = dict(t)
                        upd[fl] = j
                if upd is not None:
                    if heap is None:
                        heap = dict(ad)
                    heap[l] = upd
        pc = a.pc & b.pc if a.pc != b.pc else a.pc
        if env is None and heap is None and pc == a.pc:
            return a
        a.heap.own = set()
        b.heap.own = set()
        return State(env if env is not None else a.env, Heap(heap) if heap is not None else Heap(dict(ad)), pc)

    def join_default(self, other, l, fl, v):
        if fl in ("@", "~", "#"):
            return v
        if not l.is_param and l.root[0] == "n" and "@" not in other.heap.fields(Loc(l.root, ())):
            return v
        kinds, ek = E, E
        o = l.obj
        if o is None:
            return v
        return join(v, self.default_field(other, o, fl))

    def alloc(self, st, node, kinds, ekinds=E, tag="", deps=E):
        site = ("n", self.f.id, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag)
        w = self.unified.get(site)
        o = Obj(w or site, (), frozenset(kinds), frozenset(ekinds))
        if w is None:
            st.heap.drop_roots({site})
            if self.hook:
                self.hook.dropped(self, st, {site})
        st.heap[(o, "@")] = NONE
        if self.track and deps:
            st.heap[(o, "#")] = Val(deps=deps)
        return o

    def fresh(self, st, node, kinds=("nd",), ekinds=E, tag="", deps=E, elems=None):
        o = self.alloc(st, node, kinds, ekinds, tag, deps | st.pc if self.track else E)
        if elems is not None and (elems.objs or elems.funcs or elems.elts):
            st.heap[(o, "[*]")] = elems
        return Val(objs=frozenset([o]), deps=deps | st.pc if self.track else E)

    def default_field(self, st, o, fl):
        sh = st.heap.get((o, "~"))
        if sh is not None:
            r = None
            for s in sh.objs:
                r = join(r, self.initial_field(s, fl))
            if r is not None:
                return r
        return self.initial_field(o, fl)

    OPAQUE = frozenset(["?", "num", "none", "ext", "func", "str"])

    def initial_field(self, o, fl):
        if o.kinds <= self.OPAQUE and not o.ekinds:
            # nothing known: one opaque blob
            return Val(objs=frozenset([o]), prims=frozenset(["num"]),
                       deps=frozenset([("p", o.root[1], o.path)]) if self.track and o.is_param else E)
        k, ek = self.eng.child_kinds(o.kinds, o.ekinds, fl, self.f)
        deps = E
        path = o.path
        f2 = fl if not fl.startswith("[") or not path and o.ekinds <= {"?"} else "[*]"
        if f2 in path:
            path = path[:path.index(f2) + 1] if f2 != "[*]" or path[-1] == f2 else path + (f2,)
        elif len(path) < MAXPATH:
            path = path + (f2,)
        if self.track and o.is_param:
            deps = frozenset([("p", o.root[1], path)])
        if k <= {"num", "str", "none"}:
            return Val(prims=k, deps=deps)
        return Val(objs=frozenset([Obj(o.root, path, k, ek)]), prims=k & {"num", "str", "none"}, deps=deps)

    def read_field(self, st, o, fl):
        v = st.heap.get((o, fl))
        if v is None:
            return self.default_field(st, o, fl)
        if v.objs and fl[:1] not in "[#@~":
            k, ek = self.eng.child_kinds(o.kinds, o.ekinds, fl, self.f)
            v = self.eng.narrow(v, k, ek)
        return v

    def read_elem(self, st, o, idx=None):
        """element of a container object, restricted to the declared kinds of its elements"""
        r = self.read_elem_any(st, o, idx)
        if r.objs and o.path:
            want = ELEM_KINDS.get(o.path[-1])
            if want:
                r = self.eng.narrow(r, want, E)
        return r

    def read_elem_any(self, st, o, idx=None):
        if idx is not None and (o, idx) in st.heap:
            v = st.heap[(o, idx)]
            w = st.heap.get((o, "[*]"))
            return join(v, w) if w is not None else v
        r = st.heap.get((o, "[*]"))
        if r is None:
            # explicit element writes present?
            ex = [v for f2, v in st.heap.fields(o).items() if f2.startswith("[") and f2 != "[*]"]
            base_new = not o.is_param and not o.path and (o, "~") not in st.heap
            if ex and base_new and idx is None:
                for v in ex:
                    r = join(r, v)
                return r
            if base_new and (o, "[*]") not in st.heap and not o.ekinds:
                if "dict" in o.kinds or "list" in o.kinds or "objarr" in o.kinds:
                    return Val(prims=frozenset(["num"])) if not ex else self._joinall(ex)
            r = self.default_field(st, o, idx or "[*]")
            if idx is None:
                for v in ex:
                    r = join(r, v)
            return r
        if idx is None:
            for f2, v in st.heap.fields(o).items():
                if f2.startswith("[") and f2 != "[*]":
                    r = join(r, v)
        return r

    @staticmethod
    def _joinall(vs):
        r = None
        for v in vs:
            r = join(r, v)
        return r

    def content_deps(self, st, v, seen=None):
        """everything the content of v depends on"""
        if not self.track or v is None:
            return E
        d = v.deps
        seen = set() if seen is None else seen
        for e in v.elts or ():
            d = d | self.content_deps(st, e, seen)
        for fr in v.funcs:
            if isinstance(fr, Bound) and fr.recv is not None:
                d = d | self.content_deps(st, fr.recv, seen)
        todo = list(v.objs)
        while todo:
            o = todo.pop()
            if o.l in seen:
                continue
            seen.add(o.l)
            if o.is_param:
                d = d | frozenset([("p", o.root[1], o.path)])
            for w in st.heap.fields(o).values():
                d = d | w.deps
                todo.extend(self.val_objs(w))
        return d

    # -- effects ---------------------------------------------------------------------
    def loc(self, node):
        return "%s:%d" % (self.mod.rel, getattr(node, "lineno", 0))

    def effect(self, o, fl, node, desc, origin=None, chain=(), deps=E, how="store", loc=None):
        if not o.is_param:
            if o.root[0] == "g":
                k = (o.root[1], o.path, fl, self.f.id)
                if k not in self.eng.g_effects:
                    self.eng.g_effects[k] = Effect(desc, loc or self.loc(node), origin or self.f.id, chain, deps, how)
            return
        key = (o.root[1], o.path, fl)
        new = Effect(desc, loc or self.loc(node), origin or self.f.id, chain, deps, how)
        old = self.effects.get(key)
        if old is None:
            self.effects[key] = new
        else:
            if self.track and not deps <= old.deps:
                old.deps = old.deps | deps
            if len(old.chain) > len(chain):
                new.deps = old.deps
                self.effects[key] = new

    def store_attr(self, st, base, attr, v, node):
        v2 = v.with_deps(st.pc) if self.track else v
        if self.hook:
            self.hook.store_attr(self, st, base, attr, v2, node)
        objs = base.objs
        for o in objs:
            setter = None
            for k in o.kinds:
                if k.startswith("C:") and k[2:] in self.prog.classes:
                    c = self.prog.classes[k[2:]]
                    setter = next((x.methods["setter:" + attr] for x in c.mro if "setter:" + attr in x.methods), None)
            if setter is not None:
                self.call_func(st, setter, [Val(objs=frozenset([o])), v], {}, node)
                continue
            self.effect(o, attr, node, "attribute '%s' assigned" % attr,
                        deps=v2.deps if self.track else E)
            for k in o.kinds:
                if k.startswith("C:") and v2 is not None:
                    ek = E
                    for x in v2.objs:
                        ek = ek | x.ekinds
                        w = st.heap.get((x, "[*]"))
                        if w is not None:
                            ek = ek | w.kinds()
                    kk = v2.kinds()
                    if v2.elts is not None:
                        kk = kk | {"tuple"}
                    if v2.funcs:
                        kk = kk | {"func"}
                    self.eng.note_attr(k[2:], attr, kk, ek)
            if len(objs) == 1 and "[*]" not in o.path:
                st.heap[(o, attr)] = v2
            else:
                st.heap[(o, attr)] = join(self.read_field(st, o, attr), v2)

    def store_elem(self, st, base, idx, v, node, how="item assigned"):
        v2 = v.with_deps(st.pc) if self.track else v
        cd = self.content_deps(st, v2) | st.pc if self.track else E
        if self.hook:
            self.hook.store_elem(self, st, base, idx, v2, node)
        for o in base.objs:
            ks = o.kinds
            if base.rk is not None:
                ks = base.rk
            done = False
            for k in ks:
                if k.startswith("C:"):
                    c = self.prog.classes.get(k[2:])
                    m = c.lookup("__setitem__") if c else None
                    if m is not None:
                        self.call_func(st, m, [Val(objs=frozenset([o])), NUM, v], {}, node)
                        done = True
            if done and not ks & CONTAINERS:
                continue
            if ks and ks <= {"num", "str", "none", "func"}:
                continue
            self.effect(o, "[*]", node, how, deps=cd)
            if v2.objs or v2.elts or v2.funcs:
                numeric = "nd" in o.kinds and not ("list" in o.kinds or "objarr" in o.kinds or "?" in o.kinds) and \
                    all(not k.startswith("C:") for k in v2.kinds())
                if not numeric:
                    fl = idx or "[*]"
                    if idx is not None and len(base.objs) == 1 and not o.is_param:
                        st.heap[(o, fl)] = v2
                    else:
                        st.heap[(o, fl)] = join(self.read_elem(st, o, idx), v2)
                    if any(k.startswith("C:") for k in v2.kinds()) and o.is_param and o.path:
                        pass
            elif idx is not None and len(base.objs) == 1 and not o.is_param and v2.prims:
                st.heap[(o, idx)] = v2
            if self.track:
                old = st.heap.get((o, "#"))
                st.heap[(o, "#")] = Val(deps=(old.deps if old else E) | cd)

    def mutate(self, st, base, node, desc, extra=None):
        cd = (self.content_deps(st, extra) if extra is not None else E) | st.pc if self.track else E
        for o in base.objs:
            ks = o.kinds
            if ks and ks <= {"num", "str", "none", "func"}:
                continue
            if self.hook:
                self.hook.mutate(self, st, o, node, desc)
            self.effect(o, "[*]", node, desc, deps=cd)
            if self.track:
                old = st.heap.get((o, "#"))
                st.heap[(o, "#")] = Val(deps=(old.deps if old else E) | cd)

    # -- widening ---------------------------------------------------------------------
    LIMIT = 24

    def unify_large(self, st):
        """merge the new objects of over-large points-to sets, one class of objects per kind"""
        roots = {}
        for v in list(st.env.values()) + [v for t in st.heap.d.values() for v in t.values()]:
            if len(v.objs) > self.LIMIT:
                for o in v.objs:
                    r = o.l.root
                    if r[0] == "n" and r[1] != "shape" and r not in self.unified:
                        k = tuple(sorted(x for x in o.kinds if x.startswith("C:"))) or ("container",)
                        roots.setdefault(r, k)
        if not roots:
            return st
        for r, k in roots.items():
            self.unified[r] = ("n", self.f.id, 0, 0, "unified:" + ",".join(k))
        return self.apply_unified(st)

    def uobj(self, o):
        w = self.unified.get(o.l.root)
        return o if w is None else Obj.at(Loc(w, o.l.path[-1:] if o.l.path else ()), o.kinds, o.ekinds)

    def uval(self, v, memo):
        r = memo.get(id(v))
        if r is not None:
            return r[0]
        if any(o.l.root in self.unified for o in v.objs) or v.elts or v.funcs:
            objs = E
            for o in v.objs:
                objs = merge_objs(objs, frozenset([self.uobj(o)]))
            elts = tuple(self.uval(x, memo) for x in v.elts) if v.elts is not None else None
            funcs = frozenset(Bound(fr.targets, self.uval(fr.recv, memo), fr.name)
                              if isinstance(fr, Bound) and fr.recv is not None else fr for fr in v.funcs)
            n = Val(objs, v.prims, v.deps, elts, funcs, v.rk, v.const)
        else:
            n = v
        memo[id(v)] = (n, v)
        return n

    def apply_unified(self, st):
        memo = {}
        env = {k: self.uval(v, memo) for k, v in st.env.items()}
        d = {}
        for l, t in st.heap.d.items():
            w = self.unified.get(l.root)
            nl = l if w is None else Loc(w, l.path[-1:] if l.path else ())
            if nl.obj is None and l.obj is not None:
                Obj.at(nl, l.obj.kinds, l.obj.ekinds)
            tgt = d.setdefault(nl, {})
            for fl, v in t.items():
                n = self.uval(v, memo)
                tgt[fl] = join(tgt[fl], n) if fl in tgt else n
        return State(env, Heap(d), st.pc)

    # -- statements --------------------------------------------------------------------
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(s):
                if isinstance(ch, ast.expr):
                    self.ev(ch, st)
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st
    s_Import = s_ImportFrom = s_Global = s_Nonlocal = None

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = Val(funcs=frozenset([ExtRef(a.name if a.asname else a.name.split(".")[0])]))
        return st

    def s_ImportFrom(self, s, st):
        for a in s.names:
            r = self.prog.resolve_dotted((s.module or "") + "." + a.name)
            st.env[a.asname or a.name] = self.entity(r) if r else \
                Val(funcs=frozenset([ExtRef((s.module or "") + "." + a.name)]))
        return st

    def s_Global(self, s, st):
        return st
    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, st):
        st.env[s.name] = Val(funcs=frozenset([Closure(s, None, self)]))
        return st
    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        st.env[s.name] = Val(prims=frozenset(["num"]))
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if self.track:
            v = v.with_deps(st.pc)
        self.rets.append((v, st, s))
        return None

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        return None

    def s_Assert(self, s, st):
        c = self.ev(s.test, st)
        t, _ = self.refine(s.test, st)
        return t

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                for o in b.objs:
                    self.effect(o, t.attr, s, "attribute '%s' deleted" % t.attr)
                    if self.hook:
                        self.hook.store_attr(self, st, b, t.attr, NONE, s)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                self.ev(t.slice, st)
                self.mutate(st, b, s, "item deleted")
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if self.track:
            v = v.with_deps(st.pc)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st).with_deps(st.pc), st, s)
        return st

    def s_AugAssign(self, s, st):
        load = ast.copy_location(self.as_load(s.target), s.target)
        cur = self.ev(load, st)
        v = self.ev(s.value, st)
        res = self.binop(st, s, cur, s.op, v, aug=True)
        inplace = self.aug_inplace(cur)
        if inplace:
            self.mutate(st, cur, s, "in-place operator on %s" % ast.unparse(s.target), v)
            if isinstance(s.op, ast.Add) and v is not None:
                for o in cur.objs:
                    if "list" in o.kinds:
                        st.heap[(o, "[*]")] = join(self.read_elem(st, o), self.element(st, v, s))
            keep = Val(cur.objs, cur.prims, cur.deps | v.deps, None, E, cur.rk)
            if any(k.startswith("C:") for k in cur.kinds()) or cur.kinds() & {"num", "?"}:
                keep = join(keep, res)
            if isinstance(s.target, ast.Name):
                st.env[s.target.id] = keep.with_deps(st.pc)
            elif isinstance(s.target, ast.Attribute):
                b = self.ev(s.target.value, st)
                self.store_attr(st, b, s.target.attr, keep, s)
            else:
                self.assign(s.target, keep, st, s)
        else:
            self.assign(s.target, res.with_deps(st.pc) if self.track else res, st, s)
        return st

    def aug_inplace(self, cur):
        ks = cur.kinds()
        if not cur.objs:
            return False
        if ks & {"nd", "list", "objarr", "set", "dict"} and "num" not in ks:
            return True
        if ks & {"?"} and "num" not in ks:
            return True
        if "num" in cur.prims and any(o.is_param and not o.path and "nd" in o.kinds for o in cur.objs):
            return True
        return False

    @staticmethod
    def as_load(t):
        t2 = ast.parse(ast.unparse(t), mode="eval").body
        for n in ast.walk(t2):
            ast.copy_location(n, t) if hasattr(n, "lineno") else None
            if hasattr(n, "lineno"):
                n.lineno, n.col_offset = t.lineno, t.col_offset
        return t2

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            if v.elts is not None and len(v.elts) == n and not star:
                for e, w in zip(t.elts, v.elts):
                    self.assign(e, w.with_deps(v.deps) if self.track else w, st, node)
            else:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, self.fresh(st, e, ["list"], elems=self.element(st, v, node)), st, node)
                    else:
                        w = self.elem_at(st, v, i, node)
                        self.assign(e, w.with_deps(v.deps) if self.track else w, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.store_attr(st, b, t.attr, v, node)
            for fr in b.funcs:
                if self.hook:
                    self.hook.store_global(self, fr, t.attr, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            iv = self.ev(t.slice, st)
            idx = self.const_index(t.slice)
            if b.funcs and self.hook:
                for fr in b.funcs:
                    self.hook.store_global(self, fr, "[...]", node)
            if self.track:
                v = v.with_deps(self.content_deps(st, iv))
            self.store_elem(st, b, idx, v, node, "item of %s assigned" % ast.unparse(t.value))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    @staticmethod
    def const_index(sl):
        if isinstance(sl, ast.Constant):
            if isinstance(sl.value, bool):
                return None
            if isinstance(sl.value, int):
                return "[%d]" % sl.value
            if isinstance(sl.value, str):
                return "[%r]" % sl.value
        return None

    def pc_push(self, st, cond, node):
        if self.track:
            d = self.content_deps(st, cond)
            if self.hook and hasattr(self.hook, "branch_deps"):
                d = self.hook.branch_deps(self, st, node, d)
            st.pc = st.pc | d

    def s_If(self, s, st):
        c = self.ev(s.test, st)
        t, f = self.refine(s.test, st)
        pc0 = st.pc
        raises_only = self.only_raises(s.body) or (s.orelse and self.only_raises(s.orelse))
        if t is not None:
            if not raises_only:
                self.pc_push(t, c, s)
            t = self.block(s.body, t)
        if f is not None:
            if not raises_only:
                self.pc_push(f, c, s)
            f = self.block(s.orelse, f)
        if t is not None and f is not None:
            r = self.join_states(t, f)
            r.pc = pc0
            return r
        r = t if t is not None else f
        return r  # keeps the condition in pc: later code runs only if this branch fell through

    @staticmethod
    def only_raises(body):
        return bool(body) and isinstance(body[-1], ast.Raise) and \
            not any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for b in body for n in ast.walk(b))

    def s_While(self, s, st):
        return self.loop(s, st, None)

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        return self.loop(s, st, it)
    s_AsyncFor = s_For

    def loop(self, s, st, it):
        pc0 = st.pc
        sb, sc = self.breaks, self.conts
        cur, brk = st, None
        for n in range(5):
            self.breaks, self.conts = [], []
            b = cur.copy()
            if it is not None:
                e = self.element(b, it, s.iter)
                if self.track:
                    e = e.with_deps(it.deps)
                    self.pc_push(b, Val(deps=it.deps), s)
                self.assign(s.target, e, b, s)
            else:
                c = self.ev(s.test, b)
                self.pc_push(b, c, s)
                b, _ = self.refine(s.test, b)
            b = self.block(s.body, b) if b is not None else None
            for x in self.conts:
                b = self.join_states(b, x)
            brk = None
            for x in self.breaks:
                brk = self.join_states(brk, x)
            nxt = self.join_states(cur, b) if b is not None else cur
            same = nxt is cur
            cur = nxt
            if same:
                break
        self.breaks, self.conts = sb, sc
        out = cur.copy()
        out.pc = pc0
        if it is None and isinstance(s.test, ast.Constant) and s.test.value:
            out = None
        elif s.orelse:
            out = self.block(s.orelse, out)
        if brk is not None:
            bpc = brk.pc
            out = self.join_states(out, brk)
            out.pc = pc0 | bpc if self.track else pc0
        return out

    def s_Break(self, s, st):
        self.breaks.append(st)
        return None

    def s_Continue(self, s, st):
        self.conts.append(st)
        return None

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        return self.block(s.body, st)
    s_AsyncWith = s_With

    def s_Try(self, s, st):
        pre = st.copy()
        mid = pre
        cur = st
        for x in s.body:
            if cur is None:
                break
            cur = self.stmt(x, cur)
            if cur is not None:
                mid = self.join_states(mid.copy(), cur)
        out = cur
        if out is not None and s.orelse:
            out = self.block(s.orelse, out)
        for h in s.handlers:
            hs = mid.copy()
            if h.type is not None:
                self.ev(h.type, hs)
            if h.name:
                hs.env[h.name] = STR
            hs = self.block(h.body, hs)
            out = self.join_states(out, hs) if out is not None else hs
        if s.finalbody:
            if out is None:
                self.block(s.finalbody, mid.copy())
            else:
                out = self.block(s.finalbody, out)
        return out

    # -- refinement ----------------------------------------------------------------------
    def refine(self, test, st):
        """(state if true, state if false); refines isinstance / None tests on names and attribute chains"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            f, t = self.refine(test.operand, st)
            return t, f
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                t = st.copy()
                for v in test.values:
                    t, _ = self.refine(v, t)
                    if t is None:
                        break
                return t, st.copy()
            f = st.copy()
            for v in test.values:
                _, f = self.refine(v, f)
                if f is None:
                    break
            return st.copy(), f
        t, f = st.copy(), st.copy()
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            want = self.type_kinds(test.args[1], st)
            if want:
                self.refine_to(test.args[0], t, want, True)
                self.refine_to(test.args[0], f, want, False)
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None:
            if isinstance(test.ops[0], ast.Is):
                self.refine_to(test.left, t, frozenset(["none"]), True)
                self.refine_to(test.left, f, frozenset(["none"]), False)
            elif isinstance(test.ops[0], ast.IsNot):
                self.refine_to(test.left, f, frozenset(["none"]), True)
                self.refine_to(test.left, t, frozenset(["none"]), False)
        elif isinstance(test, ast.Call) and ast.unparse(test.func) in ("np.isscalar",) and test.args:
            self.refine_to(test.args[0], t, frozenset(["num", "str"]), True)
        return t, f

    def type_kinds(self, node, st):
        if isinstance(node, ast.Tuple):
            out = E
            for e in node.elts:
                k = self.type_kinds(e, st)
                if not k:
                    return E
                out = out | k
            return out
        n = ast.unparse(node)
        last = n.split(".")[-1]
        base = {"list": ["list"], "tuple": ["tuple"], "dict": ["dict"], "str": ["str"], "int": ["num"], "float": ["num"],
                "bool": ["num"], "np.ndarray": ["nd", "objarr"], "ndarray": ["nd", "objarr"], "set": ["set"], "range": ["list"]}
        if n in base:
            return frozenset(base[n])
        if last in self.prog.classes:
            c = self.prog.classes[last]
            return frozenset(["C:" + last] + ["C:" + s.name for s in c.all_subclasses()])
        return E

    def refine_to(self, expr, st, want, positive):
        v = self.ev_quiet(expr, st)
        if v is None:
            return
        def adj(v):
            ks = v.kinds()
            if positive:
                got = ks & want
                # superclass kinds narrowed to the tested class
                for k in ks:
                    if k.startswith("C:") and k not in want and k[2:] in self.prog.classes:
                        subs = {"C:" + s.name for s in self.prog.classes[k[2:]].all_subclasses()}
                        got = got | (want & subs)
                if "?" in ks or not got:
                    got = got | (want if "?" in ks else E)
                if not got:
                    if not v.objs or want <= {"num", "str", "none"}:
                        return v
                    got = want
                    return Val(frozenset(Obj(o.root, o.path, got, o.ekinds) for o in v.objs), E, v.deps, None, v.funcs, None, None)
                if got <= {"num", "str", "none"}:
                    return Val(prims=got, deps=v.deps)
                return Val(frozenset(Obj(o.root, o.path, (o.kinds & got) or got, o.ekinds) for o in v.objs
                                     if "?" in o.kinds or not o.kinds or o.kinds & got or any(k.startswith("C:") for k in o.kinds & got | got)),
                           v.prims & got, v.deps, v.elts, v.funcs, None, None) if v.objs else v
            rest = ks - want
            if not rest or rest == ks:
                if want == {"none"} and "none" in v.prims:
                    return Val(v.objs, v.prims - {"none"}, v.deps, v.elts, v.funcs, v.rk)
                return v
            return Val(frozenset(Obj(o.root, o.path, o.kinds - want or o.kinds, o.ekinds) for o in v.objs
                                 if o.kinds - want), v.prims - want, v.deps, v.elts, v.funcs, None)
        nv = adj(v)
        if nv is v:
            return
        if isinstance(expr, ast.Name):
            st.env[expr.id] = nv
        elif isinstance(expr, ast.Attribute):
            b = self.ev_quiet(expr.value, st)
            if b is not None and len(b.objs) == 1 and not b.funcs:
                o = next(iter(b.objs))
                if (o, expr.attr) in st.heap or o.is_param:
                    st.heap[(o, expr.attr)] = nv

    def ev_quiet(self, expr, st):
        if isinstance(expr, ast.Name):
            return st.env.get(expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.ev_quiet(expr.value, st)
            if b is None or not b.objs or b.funcs:
                return None
            r = None
            for o in b.objs:
                for k in o.kinds:
                    if k.startswith("C:") and k[2:] in self.prog.classes:
                        m = self.prog.classes[k[2:]].lookup(expr.attr)
                        if m is not None:
                            return None
                r = join(r, self.read_field(st, o, expr.attr))
            return r
        return None

    # -- expressions ------------------------------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            d = E
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    d = d | self.content_deps(st, self.ev(ch, st))
            return Val(prims=frozenset(["num"]), deps=d)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, str):
            return Val(prims=frozenset(["str"]), const=v)
        if isinstance(v, bool):
            return Val(prims=frozenset(["num"]), const=v)
        return NUM

    def e_JoinedStr(self, e, st):
        d = E
        for ch in ast.walk(e):
            if isinstance(ch, ast.FormattedValue):
                d = d | self.content_deps(st, self.ev(ch.value, st))
        return Val(prims=frozenset(["str"]), deps=d)

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        return self.global_name(e.id)

    def entity(self, r):
        if r is None:
            return Val(objs=E, prims=frozenset(["num"]))
        k, x = r
        if k == "class":
            return Val(funcs=frozenset([ClassRef(x)]))
        if k == "func":
            return Val(funcs=frozenset([Bound(frozenset([x]), None, x.name)]))
        if k == "module":
            return Val(funcs=frozenset([ExtRef(x)]))
        if k == "ext":
            return Val(funcs=frozenset([ExtRef(x)]))
        return Val(objs=frozenset([Obj(("g", str(x)), (), frozenset(["?"]), E)]))

    def global_name(self, n):
        r = resolve_name(self.prog, self.mod, n)
        if r is not None:
            if r[0] == "value":
                return Val(objs=frozenset([Obj(("g", self.mod.name + "." + n), (), frozenset(["?"]), E)]))
            return self.entity(r)
        if n in M.BUILTINS:
            return Val(funcs=frozenset([ExtRef("builtins." + n)]))
        if n in self.mod.imports:
            return Val(funcs=frozenset([ExtRef(self.mod.imports[n])]))
        return Val(funcs=frozenset([ExtRef("builtins." + n)]))

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.get_attr(st, b, e.attr, e)

    def get_attr(self, st, b, attr, node):
        if self.hook and hasattr(self.hook, "attr_use"):
            self.hook.attr_use(self, b, attr, node)
        r = None
        for fr in b.funcs:
            if isinstance(fr, ExtRef):
                full = fr.name + "." + attr
                ent = None
                if fr.name == "tensap" and attr in self.prog.exports:
                    ent = self.entity(self.prog.exports[attr])
                elif fr.name.startswith("tensap"):
                    d = self.prog.resolve_dotted(full)
                    ent = self.entity(d) if d else None
                if ent is None:
                    ent = Val(funcs=frozenset([ExtRef(full)]))
                r = join(r, ent)
            elif isinstance(fr, ClassRef):
                m = fr.cls.lookup(attr)
                if m is not None:
                    r = join(r, Val(funcs=frozenset([Bound(frozenset([m]), None, attr)])))
                else:
                    r = join(r, Val(objs=frozenset([Obj(("g", fr.cls.name), (attr,), frozenset(["?"]), E)])))
        b = self.duck(st, b, attr)
        for o in self.order(b.objs):
            oks = o.kinds
            hit = False
            for k in sorted(oks):
                if not k.startswith("C:"):
                    continue
                c = self.prog.classes.get(k[2:])
                if c is None:
                    continue
                tgs = self.method_targets(c, attr)
                props = [t for t in tgs if t.is_property]
                if props:
                    hit = True
                    for t in props:
                        r = join(r, self.call_func(st, t, [Val(objs=frozenset([o]), deps=b.deps)], {}, node))
                elif tgs:
                    hit = True
                    r = join(r, Val(funcs=frozenset([Bound(frozenset(tgs), Val(objs=frozenset([o]), deps=b.deps), attr)])))
            if hit:
                continue
            if oks & {"nd", "objarr"} and attr in M.VIEW_ATTRS:
                r = join(r, Val(objs=frozenset([o]), deps=b.deps))
                continue
            if attr in M.PRIM_ATTRS and oks & {"nd", "objarr", "list", "?"} and not any(k.startswith("C:") for k in oks):
                r = join(r, Val(prims=frozenset(["num"]), deps=self.content_deps(st, Val(objs=frozenset([o])))))
                continue
            if attr == "shape" and oks & {"nd", "objarr"} and not any(k.startswith("C:") for k in oks):
                r = join(r, Val(objs=frozenset([Obj(("n", "shape"), (), frozenset(["tuple"]), frozenset(["num"]))]),
                                deps=self.content_deps(st, Val(objs=frozenset([o])))))
                continue
            v = self.read_field(st, o, attr)
            r = join(r, v.with_deps(b.deps) if self.track and not o.is_param else v)
            if self.hook:
                self.hook.read_attr(self, st, o, attr, node)
        if r is None:
            return Val(prims=frozenset(["num"]), deps=b.deps)
        return r

    @staticmethod
    def order(objs):
        if len(objs) <= 1:
            return list(objs)
        return sorted(objs, key=lambda o: (repr(o.l), sorted(o.kinds)))

    def duck(self, st, b, name):
        """narrow objects of unknown kind by the attribute used on them"""
        if not any("?" in o.kinds for o in b.objs):
            return b
        c = self.eng.duck(name)
        if not c:
            return b
        objs = E
        for o in b.objs:
            if "?" in o.kinds and not any(k.startswith("C:") for k in o.kinds):
                o = Obj.at(o.l, (o.kinds - {"?"}) | c, o.ekinds)
            objs = merge_objs(objs, frozenset([o]))
        return Val(objs, b.prims, b.deps, b.elts, b.funcs, None, b.const)

    def method_targets(self, c, name):
        out = []
        m = c.lookup(name)
        if m is not None:
            out.append(m)
        for s in c.all_subclasses():
            if name in s.methods and s.methods[name] not in out:
                out.append(s.methods[name])
        if len(out) > 1:
            out = [x for x in out if not x.abstract] or out
        return out

    # subscripts -------------------------------------------------------------------------
    def idx_class(self, sl, iv, st):
        if isinstance(sl, ast.Slice):
            return "slice"
        if isinstance(sl, ast.Tuple):
            cl = [self.idx_class(x, None, st) for x in sl.elts]
            if "fancy" in cl:
                return "fancy"
            if "unknown" in cl:
                return "unknown"
            if all(c == "int" for c in cl):
                return "int"
            return "slice"
        if isinstance(sl, ast.Constant):
            if sl.value is None or sl.value is Ellipsis:
                return "slice"
            return "str" if isinstance(sl.value, str) else "int"
        if isinstance(sl, (ast.Compare, ast.List, ast.ListComp)):
            return "fancy"
        if isinstance(sl, ast.Attribute) and sl.attr == "newaxis":
            return "slice"
        if iv is None:
            iv = self.ev(sl, st)
        if iv.const == ITER:
            return "int"
        ks = iv.kinds()
        if iv.elts is not None:
            return "unknown"
        if ks and ks <= {"num", "none"} and not iv.objs:
            return "int"
        if ks & {"nd", "list", "objarr"} and not ks & {"num"}:
            return "fancy"
        if ks == {"str"}:
            return "str"
        return "unknown"

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        sl = e.slice
        if isinstance(sl, ast.Slice):
            iv = None
            for x in (sl.lower, sl.upper, sl.step):
                if x is not None:
                    iv = join(iv, self.ev(x, st))
            iv = iv or BOT
        else:
            iv = self.ev(sl, st)
        cls = self.idx_class(sl, iv if not isinstance(sl, (ast.Slice, ast.Tuple)) else None, st)
        idx = self.const_index(sl)
        ideps = self.content_deps(st, iv) if self.track else E
        if isinstance(sl, ast.UnaryOp) and isinstance(sl.op, ast.USub) and isinstance(sl.operand, ast.Constant):
            cls = "int"
            if b.elts is not None and isinstance(sl.operand.value, int) and sl.operand.value <= len(b.elts):
                return b.elts[-sl.operand.value].with_deps(b.deps | ideps)
        r = None
        if b.elts is not None:
            if isinstance(sl, ast.Constant) and isinstance(sl.value, int) and sl.value < len(b.elts):
                r = b.elts[sl.value]
            elif cls == "slice":
                lo = sl.lower.value if isinstance(sl, ast.Slice) and isinstance(sl.lower, ast.Constant) else (0 if isinstance(sl, ast.Slice) and sl.lower is None else None)
                hi = sl.upper.value if isinstance(sl, ast.Slice) and isinstance(sl.upper, ast.Constant) else (len(b.elts) if isinstance(sl, ast.Slice) and sl.upper is None else None)
                if isinstance(lo, int) and isinstance(hi, int) and sl.step is None:
                    r = Val(elts=b.elts[lo:hi])
                else:
                    r = self._joinall(b.elts)
                    r = self.fresh(st, e, ["tuple"], elems=r)
            else:
                r = self._joinall(b.elts)
        for o in self.order(b.objs):
            ks = o.kinds
            v = None
            for k in sorted(ks):
                if k.startswith("C:"):
                    c = self.prog.classes.get(k[2:])
                    g = self.method_targets(c, "__getitem__") if c else []
                    for m in g:
                        v = join(v, self.call_func(st, m, [Val(objs=frozenset([o]), deps=b.deps), iv], {}, e))
            if ks & CONTAINERS or not any(k.startswith("C:") for k in ks):
                v = join(v, self.sub_obj(st, o, cls, idx, e))
            r = join(r, v)
        if r is None:
            r = Val(prims=frozenset(["num"]), deps=b.deps)
        if self.track:
            r = r.with_deps(b.deps | ideps)
        return r

    def sub_obj(self, st, o, cls, idx, node):
        ks = o.kinds
        me = Val(objs=frozenset([o]))
        r = None
        numeric = bool(ks) and ks <= {"nd", "num", "none"} and not any(k.startswith("C:") for k in o.ekinds) and "objarr" not in ks
        has_elem = (o, "[*]") in st.heap
        if numeric and not has_elem:
            if cls == "fancy":
                return self.fresh(st, node, ["nd"], deps=self.content_deps(st, me))
            if cls == "int":
                return Val(objs=frozenset([o]), prims=frozenset(["num"]), deps=self.content_deps(st, me))
            return Val(objs=frozenset([o]), deps=self.content_deps(st, me))
        if cls in ("int", "str"):
            r = self.read_elem(st, o, idx)
            if ks & {"nd", "?"}:
                r = join(r, Val(objs=frozenset([o]), prims=frozenset(["num"])) if "nd" in ks and "list" not in ks else None)
            return r
        el = self.read_elem(st, o)
        if cls == "fancy":
            kk = [k for k in ("nd", "objarr", "list") if k in ks] or ["nd"]
            return self.fresh(st, node, kk, o.ekinds, elems=el if not numeric else None, deps=self.content_deps(st, me))
        if cls == "slice":
            if ks <= {"list", "tuple", "num", "none"}:
                return self.fresh(st, node, ks & {"list", "tuple"} or ["list"], o.ekinds, elems=el, deps=self.content_deps(st, me))
            return me
        # unknown index
        if "dict" in ks or ks <= {"list", "tuple"}:
            return el
        if ks <= {"list", "tuple", "objarr", "none"} and el.objs and "?" not in el.kinds() and not el.prims:
            return join(me, el) if "objarr" in ks else el
        r = join(r, me)
        if not (ks and ks <= {"nd"} and not o.ekinds and not has_elem):
            r = join(r, el)
        return Val(r.objs, r.prims | {"num"}, r.deps, r.elts, r.funcs, r.rk)

    def element(self, st, v, node):
        """value bound by iterating over v; an element of a numeric array is taken to be a scalar when
        it is used as an index (iterating over the rows of a matrix to index with them is not modelled)"""
        if v.objs and not v.elts and all(o.kinds and o.kinds <= {"nd", "num", "none"} and not o.ekinds and
                                         (o, "[*]") not in st.heap for o in v.objs):
            return Val(objs=v.objs, prims=frozenset(["num"]), deps=v.deps, const=ITER)
        r = None
        for e in v.elts or ():
            r = join(r, e)
        for o in v.objs:
            ks = o.kinds
            if ks and ks <= {"nd", "num", "none"} and (o, "[*]") not in st.heap and not o.ekinds:
                r = join(r, Val(objs=frozenset([o]), prims=frozenset(["num"])))
                continue
            if ks == {"dict"}:
                r = join(r, STR)
                continue
            it = None
            for k in ks:
                if k.startswith("C:"):
                    c = self.prog.classes.get(k[2:])
                    m = c.lookup("__iter__") if c else None
                    if m is not None:
                        it = join(it, self.call_func(st, m, [Val(objs=frozenset([o]))], {}, node))
            r = join(r, it) if it is not None else join(r, self.read_elem(st, o))
            if "nd" in ks:
                r = join(r, Val(objs=frozenset([o]), prims=frozenset(["num"])))
        if r is None:
            r = Val(prims=frozenset(["num"]))
        return r.with_deps(v.deps)

    def elem_at(self, st, v, i, node):
        if v.elts is not None and i < len(v.elts):
            r = v.elts[i]
        else:
            r = None
            for o in v.objs:
                if o.kinds and o.kinds <= {"nd", "num"}:
                    r = join(r, Val(objs=frozenset([o]), prims=frozenset(["num"])))
                else:
                    r = join(r, self.read_elem(st, o, "[%d]" % i))
            if r is None:
                r = NUM
        return r

    # operators -----------------------------------------------------------------------------
    BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.MatMult: "matmul",
           ast.Pow: "pow", ast.Mod: "mod", ast.FloorDiv: "floordiv"}

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        return self.binop(st, e, a, e.op, b)

    def binop(self, st, node, a, op, b, aug=False):
        nm = self.BIN.get(type(op))
        r = None
        deps = self.content_deps(st, a) | self.content_deps(st, b) if self.track else E
        if nm:
            for x, y, d in ((a, b, "__%s__" % nm), (b, a, "__r%s__" % nm)):
                for o in x.objs:
                    for k in o.kinds:
                        if k.startswith("C:"):
                            c = self.prog.classes.get(k[2:])
                            for t in (self.method_targets(c, d) if c else []):
                                r = join(r, self.call_func(st, t, [Val(objs=frozenset([o]), deps=x.deps), y], {}, node))
            if aug:
                for o in a.objs:
                    for k in o.kinds:
                        if k.startswith("C:"):
                            c = self.prog.classes.get(k[2:])
                            for t in (self.method_targets(c, "__i%s__" % nm) if c else []):
                                r = join(r, self.call_func(st, t, [Val(objs=frozenset([o]), deps=a.deps), b], {}, node))
        ka, kb = a.kinds(), b.kinds()
        if "str" in ka and isinstance(op, ast.Mod):
            return Val(prims=frozenset(["str"]), deps=deps)
        if a.prims == {"str"} and b.prims == {"str"} and not a.objs and not b.objs:
            c = a.const + b.const if isinstance(a.const, str) and isinstance(b.const, str) else None
            return Val(prims=frozenset(["str"]), deps=deps, const=c)
        if (ka == {"list"} and (kb == {"list"} or isinstance(op, ast.Mult))) or (kb == {"list"} and ka <= {"num"} and isinstance(op, ast.Mult)):
            el = None
            for v in (a, b):
                if "list" in v.kinds():
                    el = join(el, self.element(st, v, node))
            return self.fresh(st, node, ["list"], elems=el, deps=deps, tag="op")
        if a.elts is not None and b.elts is not None and isinstance(op, ast.Add):
            return Val(elts=a.elts + b.elts, deps=deps)
        cls_a = any(k.startswith("C:") for k in ka)
        cls_b = any(k.startswith("C:") for k in kb)
        if r is not None and (cls_a and not ka & {"nd", "num", "?", "list"} or cls_b and not kb & {"nd", "?", "num", "list"}):
            return r
        if not a.objs and not b.objs:
            return join(r, Val(prims=frozenset(["num"]) | (a.prims & b.prims & {"str"}), deps=deps))
        kk = "nd"
        out = self.fresh(st, node, [kk], tag="op", deps=deps)
        if ka | kb <= {"nd", "num", "?", "none"} and "nd" not in (ka | kb):
            out = Val(out.objs, frozenset(["num"]), out.deps)
        if r is None and ITER in (a.const, b.const) and all(v.const == ITER or not v.objs for v in (a, b)):
            return Val(out.objs, frozenset(["num"]), out.deps, const=ITER)
        # object arrays: elementwise results keep nothing shared
        return join(r, out)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        deps = self.content_deps(st, v)
        r = None
        nm = {ast.USub: "__neg__", ast.Invert: "__invert__"}.get(type(e.op))
        if nm:
            for o in v.objs:
                for k in o.kinds:
                    if k.startswith("C:"):
                        c = self.prog.classes.get(k[2:])
                        for t in (self.method_targets(c, nm) if c else []):
                            r = join(r, self.call_func(st, t, [Val(objs=frozenset([o]), deps=v.deps)], {}, e))
        if r is not None:
            return r
        if isinstance(e.op, ast.Not) or not v.objs:
            return Val(prims=frozenset(["num"]), deps=deps)
        return self.fresh(st, e, ["nd"], tag="op", deps=deps)

    def e_BoolOp(self, e, st):
        r, cur = None, st
        for x in e.values:
            r = join(r, self.ev(x, cur))
            if isinstance(e.op, ast.And):
                t, _ = self.refine(x, cur)
            else:
                _, t = self.refine(x, cur)
            if t is not None:
                cur = t
        if r.kinds() <= {"num", "str", "none"}:
            return Val(prims=r.prims, deps=self.content_deps(st, r))
        return r

    def e_Compare(self, e, st):
        vals = [self.ev(e.left, st)] + [self.ev(c, st) for c in e.comparators]
        deps = E
        for v in vals:
            deps = deps | self.content_deps(st, v)
        ops = {ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}
        for i, op in enumerate(e.ops):
            nm = ops.get(type(op))
            if nm == "__ne__":
                nm = "__eq__"
            if nm:
                for a, b in ((vals[i], vals[i + 1]),):
                    for o in a.objs:
                        for k in o.kinds:
                            if k.startswith("C:"):
                                c = self.prog.classes.get(k[2:])
                                for t in (self.method_targets(c, nm) if c else []):
                                    self.call_func(st, t, [Val(objs=frozenset([o])), b], {}, e)
        if any(v.objs and v.kinds() & {"nd", "?"} for v in vals) and not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops):
            v = self.fresh(st, e, ["nd"], tag="cmp", deps=deps)
            return Val(v.objs, frozenset(["num"]) if any("?" in v2.kinds() for v2 in vals) else E, v.deps)
        return Val(prims=frozenset(["num"]), deps=deps)

    def e_IfExp(self, e, st):
        c = self.ev(e.test, st)
        t, f = self.refine(e.test, st)
        a = self.ev(e.body, t if t is not None else st)
        b = self.ev(e.orelse, f if f is not None else st)
        if t is not None and f is not None:
            st.heap = self.join_states(State({}, t.heap), State({}, f.heap)).heap
        return join(a, b).with_deps(self.content_deps(st, c))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = None
            for x in e.elts:
                r = join(r, self.element(st, self.ev(x.value, st), x) if isinstance(x, ast.Starred) else self.ev(x, st))
            return self.fresh(st, e, ["tuple"], elems=r, deps=r.deps)
        vals = tuple(self.ev(x, st) for x in e.elts)
        return Val(elts=vals)

    def e_List(self, e, st):
        r, vals = None, []
        for x in e.elts:
            v = self.element(st, self.ev(x.value, st), x) if isinstance(x, ast.Starred) else self.ev(x, st)
            vals.append(v)
            r = join(r, v)
        d = E
        if self.track:
            for v in vals:
                d = d | self.content_deps(st, v)
        o = self.alloc(st, e, ["list"], deps=d)
        if len(vals) <= 4 and not any(isinstance(x, ast.Starred) for x in e.elts):
            for i, v in enumerate(vals):
                st.heap[(o, "[%d]" % i)] = v
        elif r is not None:
            st.heap[(o, "[*]")] = r
        return Val(objs=frozenset([o]))

    def e_Set(self, e, st):
        for x in e.elts:
            self.ev(x, st)
        return self.fresh(st, e, ["set"])

    def e_Dict(self, e, st):
        o = self.alloc(st, e, ["dict"])
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st)
            if k is None:
                el = self.element_values(st, vv, e)
                st.heap[(o, "[*]")] = join(st.heap.get((o, "[*]")), el)
                continue
            kv = self.ev(k, st)
            fl = self.const_index(k) or "[*]"
            st.heap[(o, fl)] = join(st.heap.get((o, fl)), vv) if fl == "[*]" else vv
            if self.track:
                old = st.heap.get((o, "#"))
                st.heap[(o, "#")] = Val(deps=(old.deps if old else E) | self.content_deps(st, vv))
        return Val(objs=frozenset([o]))

    def element_values(self, st, v, node):
        r = None
        for o in v.objs:
            r = join(r, self.read_elem(st, o))
        return r or NUM

    def e_Lambda(self, e, st):
        return Val(funcs=frozenset([Closure(e, dict(st.env), self)]))

    def comp(self, e, st, elt_fn):
        s2 = State(dict(st.env), st.heap, st.pc)
        for g in e.generators:
            it = self.ev(g.iter, s2)
            el = self.element(s2, it, g.iter)
            self.assign(g.target, el, s2, e)
            for c in g.ifs:
                cv = self.ev(c, s2)
                if self.track:
                    s2.pc = s2.pc | self.content_deps(s2, cv)
        r = elt_fn(s2)
        if self.track:
            r = r.with_deps(s2.pc)
        st.heap.update(s2.heap)
        return r

    def e_ListComp(self, e, st):
        el = self.comp(e, st, lambda s: self.ev(e.elt, s))
        o = self.alloc(st, e, ["list"], el.kinds() if not el.objs else E,
                       deps=self.content_deps(st, el) if self.track else E)
        st.heap[(o, "[*]")] = el
        return Val(objs=frozenset([o]))
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        el = self.comp(e, st, lambda s: self.ev(e.elt, s))
        return self.fresh(st, e, ["set"], elems=el)

    def e_DictComp(self, e, st):
        el = self.comp(e, st, lambda s: join(self.ev(e.value, s), Val(deps=self.ev(e.key, s).deps)))
        o = self.alloc(st, e, ["dict"], deps=el.deps)
        st.heap[(o, "[*]")] = el
        return Val(objs=frozenset([o]))

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Slice(self, e, st):
        d = E
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                d = d | self.content_deps(st, self.ev(x, st))
        return Val(prims=frozenset(["num"]), deps=d)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        self.rets.append((v, st.copy(), e))
        return NONE
    e_YieldFrom = e_Yield

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # calls ------------------------------------------------------------------------------------
    def e_Call(self, e, st):
        self.eng.stats["calls"] += 1
        # super().m(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            args, kw = self.ev_args(e, st)
            me = st.env.get(self.f.params[0]) if self.f.params else None
            cls = self.f.cls
            m = None
            if cls is not None:
                for c in cls.mro[1:]:
                    if e.func.attr in c.methods:
                        m = c.methods[e.func.attr]
                        break
            if m is None or me is None:
                if self.hook and hasattr(self.hook, "no_super"):
                    self.hook.no_super(self, e)
                return NONE
            return self.call_func(st, m, [me] + args, kw, e)
        fv = None
        if isinstance(e.func, ast.Attribute):
            b = self.ev(e.func.value, st)
            return self.call_attr(st, b, e.func.attr, e)
        fv = self.ev(e.func, st)
        return self.call_value(st, fv, e)

    def ev_args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if v.elts is not None:
                    args.extend(v.elts)
                else:
                    args.append(("*", v))
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                kw["**"] = v
            else:
                kw[k.arg] = v
        return args, kw

    def call_value(self, st, fv, e, args=None, kw=None):
        if args is None:
            args, kw = self.ev_args(e, st)
        r = None
        known = False
        for fr in sorted(fv.funcs, key=lambda x: (type(x).__name__, getattr(x, "name", ""), getattr(getattr(x, "node", None), "lineno", 0))):
            if isinstance(fr, ClassRef):
                known = True
                r = join(r, self.construct(st, fr.cls, args, kw, e))
            elif isinstance(fr, Bound):
                known = True
                for t in sorted(fr.targets, key=lambda x: x.id):
                    aa = args
                    if fr.recv is not None and t.kind in ("method",):
                        aa = [fr.recv] + list(args)
                    elif t.kind == "class":
                        aa = [Val(funcs=frozenset([ClassRef(t.cls)]))] + list(args)
                    r = join(r, self.call_func(st, t, aa, kw, e, len(fr.targets) > 1))
            elif isinstance(fr, ExtRef):
                known = True
                r = join(r, self.call_ext(st, fr.name, args, kw, e))
            elif isinstance(fr, Closure):
                known = True
                r = join(r, self.call_closure(st, fr, args, kw, e))
        for o in fv.objs:
            for k in o.kinds:
                if k.startswith("C:"):
                    c = self.prog.classes.get(k[2:])
                    for t in (self.method_targets(c, "__call__") if c else []):
                        known = True
                        r = join(r, self.call_func(st, t, [Val(objs=frozenset([o]), deps=fv.deps)] + list(args), kw, e))
        unk = not known or (fv.objs and any(o.kinds & {"?", "func"} or not o.kinds for o in fv.objs))
        if unk:
            r = join(r, self.unknown_call(st, args, kw, e, self.content_deps(st, fv)))
        return r if r is not None else NONE

    def flat(self, args, kw):
        out = []
        for a in args:
            out.append(a[1] if isinstance(a, tuple) else a)
        out.extend(kw.values())
        return out

    def unknown_call(self, st, args, kw, e, deps=E, kinds=("?",)):
        self.eng.stats["unknown_calls"] += 1
        n = ast.unparse(e.func) if isinstance(e, ast.Call) else "?"
        self.eng.unknown_call_names[n] = self.eng.unknown_call_names.get(n, 0) + 1
        for v in self.flat(args, kw):
            if self.track:
                deps = deps | self.content_deps(st, v)
            for fr in v.funcs:
                if isinstance(fr, Closure):
                    self.call_closure(st, fr, [], {}, e, unknown=True)
        return self.fresh(st, e, kinds, tag="call", deps=deps)

    def call_closure(self, st, cl, args, kw, e, unknown=False):
        if self.depth > 6:
            return self.fresh(st, e, ["?"], tag="deepcall")
        node = cl.node
        a = node.args
        env = dict(st.env) if cl.owner is self and cl.env is None else dict(cl.env or st.env)
        if cl.env is None:
            env = dict(st.env)
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        s2 = State(env, st.heap, st.pc)
        pos = list(args)
        for i, n in enumerate(names):
            if i < len(pos):
                v = pos[i]
                if isinstance(v, tuple):
                    v = self.element(st, v[1], e)
                    pos = pos[:i] + [("*", pos[i][1])] * (len(names) - i)
            elif n in kw:
                v = kw[n]
            elif n in defaults:
                v = self.ev(defaults[n], s2)
            else:
                v = self.fresh(st, e, ["?"], tag="carg" + n)
            s2.env[n] = v
        if a.vararg:
            s2.env[a.vararg.arg] = Val(elts=tuple(x if not isinstance(x, tuple) else x[1] for x in pos[len(names):]))
        for x in a.kwonlyargs:
            s2.env[x.arg] = kw.get(x.arg, NUM)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                r = self.ev(node.body, s2)
                st.heap.update(s2.heap)
            else:
                saved, self.rets = self.rets, []
                sb, sc, self.breaks, self.conts = self.breaks, self.conts, [], []
                out = self.block(node.body, s2)
                r, h = None, None
                for v, t, nd in self.rets:
                    r = join(r, v)
                    h = self.join_states(h, t) if h is not None else t
                if out is not None:
                    r = join(r, NONE)
                    h = self.join_states(h, out) if h is not None else out
                self.rets, self.breaks, self.conts = saved, sb, sc
                if h is not None:
                    st.heap.update(h.heap)
                r = r if r is not None else NONE
        finally:
            self.depth -= 1
        return r

    def construct(self, st, cls, args, kw, e):
        o = self.alloc(st, e, ["C:" + cls.name], tag="new" + cls.name)
        init = cls.lookup("__init__")
        me = Val(objs=frozenset([o]))
        if init is not None:
            self.call_func(st, init, [me] + list(args), kw, e)
        elif self.track:
            d = E
            for v in self.flat(args, kw):
                d = d | self.content_deps(st, v)
            st.heap[(o, "#")] = Val(deps=d)
        return me

    def bind(self, st, f, args, kw, e):
        names = list(f.params)
        out = {}
        pos = []
        for a in args:
            if isinstance(a, tuple):
                el = self.element(st, a[1], e)
                need = max(0, len(names) - len(pos))
                pos.extend([el] * max(need, 1))
            else:
                pos.append(a)
        if f.kind == "static" or f.kind == "func":
            pass
        for i, n in enumerate(names):
            if i < len(pos):
                out[n] = pos[i]
        if f.vararg and len(pos) > len(names):
            out[f.vararg] = Val(elts=tuple(pos[len(names):]))
        elif f.vararg:
            out[f.vararg] = Val(elts=())
        extra = None
        for k, v in kw.items():
            if k in names or k in f.kwonly:
                out[k] = v
            elif k != "**" and f.kwarg:
                extra = join(extra, v)
            elif k == "**":
                el = self.element_values(st, v, e)
                for n in names + f.kwonly:
                    if n not in out and n in f.defaults:
                        out[n] = el
        if f.kwarg:
            o = self.alloc(st, e, ["dict"], tag="kw" + f.name)
            if extra is not None:
                st.heap[(o, "[*]")] = extra
            out[f.kwarg] = Val(objs=frozenset([o]))
        for n in names + f.kwonly:
            if n not in out:
                d = f.defaults.get(n)
                if isinstance(d, ast.Constant):
                    out[n] = self.e_Constant(d, st)
                elif d is not None:
                    out[n] = Val(objs=frozenset([Obj(("g", f.id + "=" + n), (), frozenset(["?"]), E)]))
                else:
                    out[n] = BOT
        return out

    def call_func(self, st, f, args, kw, e, several=False):
        """call of an analysed function: instantiate its summary (several: other functions may be called instead)"""
        self.eng.stats["resolved_calls"] += 1
        if self.hook:
            r = self.hook.call(self, st, f, args, kw, e)
            if r is not None:
                return r
        s = self.eng.summary(f, self.f)
        b = self.bind(st, f, args, kw, e)
        pn = list(f.params) + list(f.kwonly) + [x for x in (f.vararg, f.kwarg) if x]
        argv = [b.get(n, BOT) for n in pn]
        for i in self.eng.untyped(f):
            v = argv[i]
            if v is not BOT:
                ks, ek = v.kinds() - {"?"}, E
                if v.elts is not None:
                    ks = ks | {"tuple"}
                if v.funcs:
                    ks = ks | {"func"}
                for o in v.objs:
                    ek = ek | o.ekinds
                self.eng.note_param(f, i, ks, ek)
        self.alternatives = several
        try:
            return self.instantiate(st, s, f, argv, e)
        finally:
            self.alternatives = False

    def instantiate(self, st, s, f, argv, e):
        pre = State(st.env, st.heap.copy(), st.pc)
        memo = {}
        fresh_idx = {}

        def follow(i, path):
            """value in the caller at parameter i, access path"""
            key = ("v", i, path)
            if key in memo:
                return memo[key]
            if i >= len(argv):
                r = BOT
            elif not path:
                r = argv[i]
            else:
                b = follow(i, path[:-1])
                fl = path[-1]
                r = None
                if b.elts is not None and fl.startswith("["):
                    if fl != "[*]" and fl[1:-1].isdigit() and int(fl[1:-1]) < len(b.elts):
                        r = b.elts[int(fl[1:-1])]
                    else:
                        r = self._joinall(b.elts) if b.elts else BOT
                for o in b.objs:
                    if fl.startswith("["):
                        if o.kinds and o.kinds <= {"nd", "num"}:
                            v = Val(objs=frozenset([o]), prims=frozenset(["num"]))
                        else:
                            v = self.read_elem(pre, o, None if fl == "[*]" else fl)
                    else:
                        # resolve properties to nothing shared
                        v = self.read_field(pre, o, fl)
                        tg = None
                        for k in o.kinds:
                            if k.startswith("C:") and k[2:] in self.prog.classes:
                                tg = tg or next((m for m in self.method_targets(self.prog.classes[k[2:]], fl)), None)
                        if tg is not None and (o, fl) not in pre.heap:
                            v = BOT
                        elif o.kinds <= {"nd", "num"} and fl in M.VIEW_ATTRS:
                            v = Val(objs=frozenset([o]))
                        elif o.kinds and not any(k.startswith("C:") or k == "?" for k in o.kinds) and (o, fl) not in pre.heap:
                            v = BOT
                    r = join(r, v)
                r = r if r is not None else BOT
            memo[key] = r
            return r

        site = ("n", self.f.id, getattr(e, "lineno", 0), getattr(e, "col_offset", 0))

        def mapobj(o):
            key = ("o", o)
            if key in memo:
                return memo[key]
            if o.is_param:
                r = follow(o.root[1], o.path)
            elif o.root[0] == "n":
                if o.root not in fresh_idx:
                    fresh_idx[o.root] = "%s/%d" % (f.name, len(fresh_idx))
                base = site + (fresh_idx[o.root],)
                base = self.unified.get(base, base)
                r = Val(objs=frozenset([Obj(base, o.path, o.kinds, o.ekinds)]))
            else:
                r = Val(objs=frozenset([o]))
            memo[key] = r
            return r

        def mapdeps(d):
            if not d:
                return E
            out = set()
            for t in d:
                if t[0] == "p":
                    key = ("d", t[1], t[2])
                    if key not in memo:
                        memo[key] = self.content_deps(pre, follow(t[1], t[2]))
                    out |= memo[key]
                else:
                    out.add(t)
            return frozenset(out)

        def mapval(v):
            key = ("mv", id(v))
            if key in memo:
                return memo[key]
            objs, prims, elts, deps, funcs = E, v.prims, None, mapdeps(v.deps), E
            extra = None
            for o in v.objs:
                w = mapobj(o)
                if w.elts is not None and not v.elts and len(v.objs) == 1:
                    extra = w.elts
                elif w.elts is not None:
                    for x in w.elts:
                        objs = merge_objs(objs, x.objs)
                objs, prims, funcs = merge_objs(objs, w.objs), prims | w.prims, funcs | w.funcs
                if self.track and o.is_param:
                    deps = deps | w.deps
            for fr in v.funcs:
                if isinstance(fr, Bound) and fr.recv is not None:
                    funcs = funcs | {Bound(fr.targets, mapval(fr.recv), fr.name)}
                else:
                    funcs = funcs | {fr}
            if v.elts is not None:
                elts = tuple(mapval(x) for x in v.elts)
            elif extra is not None:
                elts = extra
            r = Val(objs, prims, deps, elts, funcs, None, v.const)
            memo[key] = r
            return r

        # effects on the caller's objects
        for (i, path, fl), ef in list(s.effects.items()):
            tgt = follow(i, path)
            d = mapdeps(ef.deps) | st.pc if self.track else E
            for o in tgt.objs:
                if not self.eng.can_have(o.kinds, fl):
                    continue
                ch = ("%s (%s)" % (f.qual, self.loc(e)),) + ef.chain
                if self.hook:
                    self.effect_path = path
                    self.hook.inst_effect(self, st, o, fl, e, f, ef)
                self.effect(o, fl, e, ef.desc, ef.origin, ch[:8], d, ef.how, ef.loc)
        # allocate new objects (drop what an earlier iteration left)
        roots = set()
        if s.ret is not None:
            for o in self.val_objs(s.ret):
                if not o.is_param and o.root[0] == "n":
                    roots.add(o.root)
        for (o, fl), v in s.out.items():
            if not o.is_param and o.root[0] == "n":
                roots.add(o.root)
            for x in self.val_objs(v):
                if not x.is_param and x.root[0] == "n":
                    roots.add(x.root)
        order = sorted(roots, key=repr)
        for rt in order:
            fresh_idx[rt] = "%s/%d" % (f.name, len(fresh_idx))
        mine = {site + (fresh_idx[r],) for r in order}
        if mine:
            st.heap.drop_roots({m2 for m2 in mine if m2 not in self.unified})
            if self.hook:
                self.hook.dropped(self, st, {m2 for m2 in mine if m2 not in self.unified})
            for m2 in {self.unified.get(m2, m2) for m2 in mine}:
                st.heap[(Obj(m2, (), E, E), "@")] = NONE
        # heap updates
        for (o, fl), v in s.out.items():
            if fl == "@":
                continue
            tv = mapobj(o)
            if fl == "~":
                nv = Val(objs=frozenset(x for q in v.objs for x in mapobj(q).objs))
                for t in tv.objs:
                    st.heap[(t, "~")] = nv
                continue
            nv = mapval(v)
            if self.track:
                nv = nv.with_deps(st.pc)
            if fl == "#":
                for t in tv.objs:
                    old = st.heap.get((t, "#"))
                    st.heap[(t, "#")] = Val(deps=(old.deps if old else E) | nv.deps)
                continue
            strong = len(tv.objs) == 1 and fl != "[*]" and "[*]" not in o.path and not self.alternatives
            for t in tv.objs:
                if not self.eng.can_have(t.kinds, fl):
                    continue
                if t.kinds and t.kinds <= {"nd", "num"} and fl.startswith("[") and not any(k.startswith("C:") for k in nv.kinds()):
                    continue
                if o.is_param:
                    for k in t.kinds:
                        if k.startswith("C:") and not fl.startswith("["):
                            self.eng.note_attr(k[2:], fl, nv.kinds() | ({"tuple"} if nv.elts is not None else set()), E)
                if (strong or not o.is_param) and not (len(t.l.root) > 4 and str(t.l.root[4]).startswith("unified")):
                    st.heap[(t, fl)] = nv
                elif not o.is_param:
                    w = st.heap.get((t, fl))
                    st.heap[(t, fl)] = nv if w is None else join(w, nv)
                elif fl.startswith("["):
                    st.heap[(t, fl)] = join(self.read_elem(pre, t, None if fl == "[*]" else fl), nv)
                else:
                    st.heap[(t, fl)] = join(self.read_field(pre, t, fl), nv)
                if self.hook:
                    self.hook.inst_store(self, st, t, fl, nv, e, f)
        if s.ret is None:
            if s.analysed:
                return Val(prims=frozenset(["none"]))
            return BOT
        r = mapval(s.ret)
        if self.hook:
            r = self.hook.result(self, st, f, argv, r, e)
        return r

    def call_attr(self, st, b, name, e):
        """b.name(args)"""
        if self.hook and hasattr(self.hook, "attr_use"):
            self.hook.attr_use(self, b, name, e)
        args, kw = self.ev_args(e, st)
        r = None
        handled = False
        # modules, classes
        if b.funcs:
            fv = self.get_attr(st, Val(funcs=b.funcs), name, e)
            r = join(r, self.call_value(st, fv, e, args, kw))
            handled = True
        b = self.duck(st, b, name)
        several = sum(len(self.method_targets(c, name)) for o in b.objs for c in
                      [self.prog.classes.get(k[2:]) for k in o.kinds if k.startswith("C:")] if c is not None) > 1
        for o in self.order(b.objs):
            me = Val(objs=frozenset([o]), deps=b.deps)
            ks = o.kinds
            cls_hit = False
            for k in sorted(ks):
                if not k.startswith("C:"):
                    continue
                c = self.prog.classes.get(k[2:])
                if c is None:
                    continue
                tg = self.method_targets(c, name)
                if tg:
                    cls_hit = handled = True
                    for t in tg:
                        if t.is_property:
                            v = self.call_func(st, t, [me], {}, e)
                            r = join(r, self.call_value(st, v, e, args, kw))
                        else:
                            aa = ([me] if t.kind == "method" else [Val(funcs=frozenset([ClassRef(t.cls)]))] if t.kind == "class" else []) + list(args)
                            r = join(r, self.call_func(st, t, aa, kw, e, several))
                else:
                    # attribute holding a callable
                    v = st.heap.get((o, name)) or self.initial_field(o, name)
                    if v is not None and (v.funcs or any(x.kinds != {"?"} for x in v.objs)):
                        cls_hit = handled = True
                        r = join(r, self.call_value(st, v, e, args, kw))
                    elif (c.name, name) in self.eng.attr_kinds:
                        cls_hit = handled = True
                        r = join(r, self.call_value(st, v, e, args, kw))
            cont = ks & {"nd", "list", "objarr", "dict", "set", "tuple"}
            if cont:
                handled = True
                r = join(r, self.call_container(st, o, cont, name, args, kw, e, b))
            if "?" in ks or not ks:
                handled = True
                r = join(r, self.call_unknown_method(st, o, name, args, kw, e, b))
        if b.elts is not None:
            handled = True
            r = join(r, NUM)
        if b.prims and not handled:
            d = self.content_deps(st, b)
            for v in self.flat(args, kw):
                d = d | self.content_deps(st, v)
            return Val(prims=frozenset(["str" if "str" in b.prims else "num"]), deps=d)
        if not handled:
            r = join(r, self.unknown_call(st, args, kw, e, self.content_deps(st, b)))
        return r if r is not None else NONE

    def call_unknown_method(self, st, o, name, args, kw, e, b):
        me = Val(objs=frozenset([o]), deps=b.deps)
        r = None
        builtin = name in M.MUTATORS or name in M.VIEW_METHODS or name in M.FRESH_METHODS or name in M.STR_METHODS
        if builtin:
            return self.call_container(st, o, frozenset(["nd", "list", "dict"]), name, args, kw, e, b)
        v = st.heap.get((o, name))
        if v is not None:
            return self.call_value(st, v, e, args, kw)
        return self.unknown_call(st, args, kw, e, self.content_deps(st, me))

    def call_container(self, st, o, ks, name, args, kw, e, b):
        me = Val(objs=frozenset([o]), deps=b.deps)
        fl = self.flat(args, kw)
        deps = self.content_deps(st, me)
        if self.track:
            for v in fl:
                deps = deps | self.content_deps(st, v)
        mut = set()
        if ks & {"nd", "objarr"}:
            mut |= M.ND_MUTATORS
        if "list" in ks:
            mut |= M.LIST_MUTATORS
        if "dict" in ks:
            mut |= M.DICT_MUTATORS
        if "set" in ks:
            mut |= M.SET_MUTATORS
        if name in mut:
            ex = None
            for v in fl:
                ex = join(ex, v)
            self.mutate(st, me, e, "method .%s() on %s" % (name, ast.unparse(e.func.value) if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) else "container"), ex)
            if name in ("append", "add") and fl:
                v = fl[0]
                if v.objs or v.elts or v.funcs or v.deps:
                    old = st.heap.get((o, "[*]"))
                    if old is None and o.is_param:
                        old = self.read_elem(st, o)
                    st.heap[(o, "[*]")] = join(old, v.with_deps(st.pc))
                if self.hook:
                    self.hook.appended(self, st, o, v, e)
            elif name in ("extend", "update") and fl:
                v = self.element(st, fl[0], e)
                st.heap[(o, "[*]")] = join(self.read_elem(st, o), v)
                if self.hook and name == "extend":
                    self.hook.appended(self, st, o, v, e)
            elif name == "insert" and len(fl) > 1:
                st.heap[(o, "[*]")] = join(self.read_elem(st, o), fl[1])
                if self.hook:
                    self.hook.appended(self, st, o, fl[1], e)
            elif name in ("pop", "setdefault", "popitem"):
                r = self.read_elem(st, o)
                for v in fl[1:]:
                    r = join(r, v)
                return r
            return NONE
        if "out" in kw:
            self.mutate(st, kw["out"], e, "out= argument")
        if ks & {"nd", "objarr"} and name in M.VIEW_METHODS:
            return me
        if ks & {"nd"} and name == "flatten":
            return self.fresh(st, e, ["nd"], tag="m", deps=deps, elems=st.heap.get((o, "[*]")))
        if name in ("copy", "tolist", "astype", "flatten"):
            kk = (ks & {"nd", "objarr", "list", "dict", "set"}) if name == "copy" else (["list"] if name == "tolist" else ks & {"nd", "objarr"} or ["nd"])
            el = self.read_elem(st, o) if not (o.kinds <= {"nd", "num"}) or (o, "[*]") in st.heap else None
            r = self.fresh(st, e, kk, o.ekinds, tag="m", deps=deps, elems=el)
            if name == "astype" and "copy" in kw:
                r = join(r, me)
            return r
        if name in ("values", "items", "get"):
            el = self.read_elem(st, o)
            if name == "get":
                idx = self.const_index(e.args[0]) if isinstance(e, ast.Call) and e.args else None
                el = self.read_elem(st, o, idx)
                for v in fl[1:]:
                    el = join(el, v)
                return el
            if name == "items":
                el = Val(elts=(STR, el))
            return self.fresh(st, e, ["list"], tag="m", elems=el, deps=deps)
        if name == "keys":
            return self.fresh(st, e, ["list"], frozenset(["str"]), tag="m", deps=deps)
        if name in ("nonzero",):
            return self.fresh(st, e, ["tuple"], frozenset(["nd"]), tag="m", deps=deps)
        if name in ("item", "index", "count"):
            return Val(prims=frozenset(["num"]), deps=deps)
        r = self.fresh(st, e, ["nd"], tag="m", deps=deps)
        if name in ("sum", "prod", "mean", "max", "min", "any", "all", "std", "var", "dot", "argmax", "argmin"):
            r = Val(r.objs, r.prims | {"num"}, r.deps)
        return r

    # external functions ------------------------------------------------------------------------
    def call_ext(self, st, name, args, kw, e):
        fl = self.flat(args, kw)
        deps = E
        if self.track:
            for v in fl:
                deps = deps | self.content_deps(st, v)
        if self.hook:
            self.hook.ext_call(self, st, name, args, kw, e)
        short = name.split(".")[-1]
        pos = [a[1] if isinstance(a, tuple) else a for a in args]
        if "out" in kw and not kw["out"].kinds() <= {"none"}:
            self.mutate(st, kw["out"], e, "out= argument of %s" % name)
            return kw["out"]
        for k in ("overwrite_a", "overwrite_b", "overwrite_x", "overwrite_input"):
            if k in kw and kw[k].const is True and pos:
                self.mutate(st, pos[0], e, "%s= argument of %s" % (k, name))
        if name in ("copy.deepcopy",) and pos:
            return self.deep(st, pos[0], e, deps)
        if name == "copy.copy" and pos:
            return self.shallow(st, pos[0], e, deps)
        if name.startswith("builtins."):
            return self.call_builtin(st, short, args, pos, kw, e, deps)
        if name.startswith("numpy") or name.startswith("np."):
            sub = name.split(".", 1)[1] if "." in name else name
            if sub in M.INPLACE and len(pos) > M.INPLACE[sub]:
                self.mutate(st, pos[M.INPLACE[sub]], e, "numpy.%s" % sub)
                return NONE
            if sub.endswith(".at") and pos:
                self.mutate(st, pos[0], e, "numpy.%s" % sub)
                return NONE
            if sub == "nan_to_num" and pos and "copy" in kw and kw["copy"].const is False:
                self.mutate(st, pos[0], e, "numpy.nan_to_num(copy=False)")
                return pos[0]
            view = sub in M.VIEW0 or (sub == "array" and "copy" in kw and kw["copy"].const is not True)
            if view and pos:
                if sub in ("split", "array_split", "hsplit", "vsplit"):
                    return self.fresh(st, e, ["list"], tag="np", elems=pos[0], deps=deps)
                return self.np_view(st, pos, kw, e, deps)
            if sub == "vectorize" or sub.startswith("errstate"):
                r = None
                for v in pos:
                    r = join(r, v)
                return r if r is not None else NUM
            if sub in M.TUPLE_N:
                if sub == "linalg.svd" and "compute_uv" in kw:
                    return self.fresh(st, e, ["nd"], tag="np", deps=deps)
                if sub == "linalg.qr" and ("mode" in kw and kw["mode"].const == "r"):
                    return self.fresh(st, e, ["nd"], tag="np", deps=deps)
                return Val(elts=tuple(self.fresh(st, e, ["nd"], tag="np%d" % i, deps=deps) for i in range(M.TUPLE_N[sub])), deps=deps)
            if sub in M.SCALAR:
                return Val(prims=frozenset(["num"]), deps=deps)
            if sub in ("all", "any", "isscalar"):
                r = self.fresh(st, e, ["nd"], tag="np", deps=deps)
                return Val(r.objs, frozenset(["num"]), r.deps)
            if sub == "where" and len(pos) == 1 or sub in M.TUPLE_ND and sub != "where":
                return self.fresh(st, e, ["tuple"], frozenset(["nd"]), tag="np", deps=deps)
            if sub in M.LIST_ND:
                return self.fresh(st, e, ["list"], frozenset(["nd"]), tag="np", deps=deps)
            if sub == "shape":
                return Val(objs=frozenset([Obj(("n", "shape"), (), frozenset(["tuple"]), frozenset(["num"]))]), deps=deps)
            if sub in ("unique", "intersect1d", "histogram") and (len(kw) or len(pos) > (2 if sub == "intersect1d" else 1)):
                rets = [k for k in kw if k.startswith("return_")]
                if rets:
                    n = len(rets) + (2 if sub == "intersect1d" else 1)
                    return Val(elts=tuple(self.fresh(st, e, ["nd"], tag="np%d" % i, deps=deps) for i in range(n)), deps=deps)
            if sub in ("pi", "inf", "nan", "finfo"):
                return Val(prims=frozenset(["num"]), deps=deps)
            for v in pos:
                for fr in v.funcs:
                    if isinstance(fr, Closure):
                        self.call_closure(st, fr, [], {}, e, unknown=True)
            isobj = "dtype" in kw and any(isinstance(x, ExtRef) and x.name == "builtins.object" for x in kw["dtype"].funcs)
            el = None
            if sub in M.ELEM:
                el = self.np_elements(st, pos, sub)
                if sub == "full" and len(pos) > 1:
                    el = pos[1] if pos[1].objs else None
            if isobj or (el is not None and any(k.startswith("C:") for k in el.kinds())):
                return self.fresh(st, e, ["objarr"], tag="np", deps=deps, elems=el)
            if el is not None and (el.kinds() & {"?"}):
                return self.fresh(st, e, ["nd"], tag="np", deps=deps)
            r = self.fresh(st, e, ["nd"], tag="np", deps=deps)
            if sub in ("sum", "prod", "max", "min", "mean", "std", "var", "dot", "trace", "median", "amax", "amin", "argmax", "argmin",
                       "nanmax", "nanmin", "linalg.norm", "abs", "sqrt", "ceil", "floor", "log", "exp", "array", "round", "cos", "sin",
                       "power", "maximum", "minimum", "random.randn", "random.rand", "random.randint", "random.choice", "isnan", "isinf", "isfinite"):
                if sub in ("array",):
                    return r
                r = Val(r.objs, frozenset(["num"]), r.deps)
            return r
        if name.startswith("scipy") or name.startswith("sklearn") or name.startswith("tensorflow") or name.startswith("networkx"):
            for v in pos:
                for fr in v.funcs:
                    if isinstance(fr, Closure):
                        self.call_closure(st, fr, [], {}, e, unknown=True)
            if name.endswith(("eigh_tridiagonal", "linalg.qr")):
                return Val(elts=(self.fresh(st, e, ["nd"], tag="s0", deps=deps), self.fresh(st, e, ["nd"], tag="s1", deps=deps)))
            if name.endswith("linalg.svd"):
                return Val(elts=tuple(self.fresh(st, e, ["nd"], tag="s%d" % i, deps=deps) for i in range(3)))
            return self.fresh(st, e, ["ext", "nd"] if "sparse" in name else ["ext"], tag="ext", deps=deps)
        if name == "functools.reduce" and len(pos) >= 2:
            el = self.element(st, pos[1], e)
            return join(el, self.call_value(st, pos[0], e, [el, el], {}))
        if name == "functools.partial" and pos:
            return pos[0]
        if name == "random.shuffle" and pos:
            self.mutate(st, pos[0], e, "random.shuffle")
            return NONE
        if name.startswith("itertools."):
            el = None
            for v in pos:
                el = join(el, self.element(st, v, e))
            return self.fresh(st, e, ["list"], tag="it", deps=deps, elems=self.fresh(st, e, ["tuple"], tag="it2", elems=el))
        return self.unknown_call(st, args, kw, e, deps, ["ext"])

    def np_elements(self, st, pos, sub):
        r = None
        srcs = pos[:2] if sub in ("append", "delete", "insert") else pos[:1]
        for v in srcs:
            for w in ([v] if v.elts is None else list(v.elts)):
                for o in w.objs:
                    if o.kinds and o.kinds <= {"nd", "num"} and (o, "[*]") not in st.heap:
                        continue
                    el = self.read_elem(st, o)
                    # concatenate((a, b)): elements of the elements
                    if sub in ("concatenate", "hstack", "vstack", "stack", "column_stack", "block") and v.elts is None:
                        e2 = None
                        for q in el.objs:
                            if q.kinds & {"objarr", "list", "nd", "?"}:
                                if q.kinds <= {"nd", "num"}:
                                    continue
                                e2 = join(e2, self.read_elem(st, q))
                        el = e2
                    r = join(r, el)
        return r

    def np_view(self, st, pos, kw, e, deps):
        v = pos[0]
        if v.elts is not None:
            el = self._joinall(v.elts) if v.elts else None
            if el is not None and any(k.startswith("C:") for k in el.kinds()):
                return self.fresh(st, e, ["objarr"], tag="np", deps=deps, elems=el)
            return self.fresh(st, e, ["nd"], tag="np", deps=deps)
        objs, r = [], None
        for o in v.objs:
            ks = o.kinds
            if ks & {"nd", "objarr", "?", "ext"}:
                ok = (ks & {"nd", "objarr", "ext"}) or frozenset(["?"])
                objs.append(Obj(o.root, o.path, ks if "list" not in ks and "tuple" not in ks else (ks - {"list", "tuple"}) or ok, o.ekinds)
                            if True else o)
            if ks & {"list", "tuple"}:
                el = self.read_elem(st, o)
                isob = any(k.startswith("C:") for k in el.kinds())
                r = join(r, self.fresh(st, e, ["objarr" if isob else "nd"], tag="np", deps=deps, elems=el if isob else None))
            if any(k.startswith("C:") for k in ks) and not ks & {"nd", "objarr", "?", "ext", "list", "tuple"}:
                # e.g. numpy view of a single library object: an array holding it
                r = join(r, self.fresh(st, e, ["objarr"], tag="npo", deps=deps, elems=Val(objs=frozenset([o]))))
        if objs:
            r = join(r, Val(objs=frozenset(objs), deps=v.deps | deps))
        if v.prims and not objs:
            r = join(r, self.fresh(st, e, ["nd"], tag="npp", deps=deps))
        if r is None:
            r = self.fresh(st, e, ["nd"], tag="np", deps=deps)
        return r.with_deps(deps)

    def deep(self, st, v, e, deps):
        if v.elts is not None:
            return Val(elts=tuple(self.deep(st, x, e, deps) for x in v.elts), deps=deps)
        ks, ek = E, E
        for o in v.objs:
            ks, ek = ks | o.kinds, ek | o.ekinds
            w = st.heap.get((o, "[*]"))
            if w is not None:
                ek = ek | w.kinds()
        if v.rk is not None:
            ks = v.rk
        if not v.objs:
            return Val(prims=v.prims, deps=deps, funcs=v.funcs)
        o = self.alloc(st, e, ks, ek, "deep", deps)
        # known attribute kinds survive
        if len(v.objs) == 1:
            src = next(iter(v.objs))
            for fl, w in list(st.heap.fields(src).items()):
                if fl not in ("@", "~", "#") and w.objs and not fl.startswith("["):
                    kk, ee = E, E
                    for x in w.objs:
                        kk, ee = kk | x.kinds, ee | x.ekinds
                    st.heap[(o, fl)] = Val(objs=frozenset([Obj(o.root, (fl,), kk, ee)]), prims=w.prims, deps=w.deps)
                elif fl not in ("@", "~", "#") and not w.objs and w.elts is None:
                    st.heap[(o, fl)] = w
        if self.hook:
            self.hook.copied(self, st, v, o, True, e)
        return Val(objs=frozenset([o]), prims=v.prims, deps=deps, funcs=v.funcs)

    def shallow(self, st, v, e, deps):
        if v.elts is not None:
            return v
        r = None
        for o in v.objs:
            n = self.alloc(st, e, o.kinds, o.ekinds, "shallow", deps)
            base = o
            old = st.heap.get((o, "~"))
            st.heap[(n, "~")] = old if old is not None and not o.is_param else Val(objs=frozenset([base]))
            for fl, w in list(st.heap.fields(o).items()):
                if fl not in ("@", "~"):
                    st.heap[(n, fl)] = w
            r = join(r, Val(objs=frozenset([n]), deps=deps))
            if self.hook:
                self.hook.copied(self, st, Val(objs=frozenset([o])), n, False, e)
        if r is None:
            return v
        return Val(r.objs, v.prims, r.deps, None, v.funcs)

    def call_builtin(self, st, n, args, pos, kw, e, deps):
        if n in ("eval", "exec"):
            return self.call_eval(st, e, deps)
        if n == "setattr" and len(pos) >= 3:
            nm = pos[1].const
            self.store_attr(st, pos[0], nm if isinstance(nm, str) else "*", pos[2], e)
            return NONE
        if n == "delattr" and len(pos) >= 2:
            nm = pos[1].const
            for o in pos[0].objs:
                self.effect(o, nm if isinstance(nm, str) else "*", e, "attribute deleted")
            return NONE
        if n == "getattr" and len(pos) >= 2:
            nm = pos[1].const
            if isinstance(nm, str):
                r = self.get_attr(st, pos[0], nm, e)
                for v in pos[2:]:
                    r = join(r, v)
                return r
            return self.unknown_call(st, args, kw, e, deps)
        if n in ("list", "tuple", "sorted", "reversed", "set", "frozenset", "iter"):
            if not pos:
                return self.fresh(st, e, ["list" if n == "list" else "tuple" if n == "tuple" else "set"], tag="b")
            if n == "tuple" and pos[0].elts is not None:
                return pos[0]
            el = self.element(st, pos[0], e)
            if pos[0].elts is not None and n == "list":
                o = self.alloc(st, e, ["list"], tag="b", deps=deps)
                for i, v in enumerate(pos[0].elts):
                    st.heap[(o, "[%d]" % i)] = v
                return Val(objs=frozenset([o]), deps=deps)
            kk = {"list": "list", "tuple": "tuple", "sorted": "list", "reversed": "list", "iter": "list"}.get(n, "set")
            # keep position-wise elements of a literal list
            o = self.alloc(st, e, [kk], el.kinds() if not el.objs else E, tag="b", deps=deps)
            if n == "list" and len(pos[0].objs) == 1:
                src = next(iter(pos[0].objs))
                cp = [(fl, w) for fl, w in st.heap.fields(src).items() if fl.startswith("[")]
                if cp and (not src.is_param):
                    for fl, w in cp:
                        st.heap[(o, fl)] = w
                    return Val(objs=frozenset([o]), deps=deps)
            st.heap[(o, "[*]")] = el
            return Val(objs=frozenset([o]), deps=deps)
        if n == "dict":
            o = self.alloc(st, e, ["dict"], tag="b", deps=deps)
            for k, v in kw.items():
                st.heap[(o, "[%r]" % k if k != "**" else "[*]")] = v
            for v in pos:
                st.heap[(o, "[*]")] = join(st.heap.get((o, "[*]")), self.element_values(st, v, e))
            return Val(objs=frozenset([o]), deps=deps)
        if n == "enumerate" and pos:
            return self.fresh(st, e, ["list"], tag="b", deps=deps, elems=Val(elts=(NUM, self.element(st, pos[0], e))))
        if n == "zip":
            if any(isinstance(a, tuple) for a in args):
                el = None
                for v in pos:
                    el = join(el, self.element(st, v, e))
                return self.fresh(st, e, ["list"], tag="b", deps=deps, elems=self.fresh(st, e, ["tuple"], tag="bz", elems=el))
            return self.fresh(st, e, ["list"], tag="b", deps=deps, elems=Val(elts=tuple(self.element(st, v, e) for v in pos)))
        if n in ("map", "filter") and len(pos) >= 2:
            els = [self.element(st, v, e) for v in pos[1:]]
            if n == "filter":
                self.call_value(st, pos[0], e, els, {})
                return self.fresh(st, e, ["list"], tag="b", deps=deps, elems=els[0])
            r = self.call_value(st, pos[0], e, els, {})
            o = self.alloc(st, e, ["list"], tag="b", deps=deps)
            st.heap[(o, "[*]")] = r
            return Val(objs=frozenset([o]), deps=deps)
        if n == "range":
            return self.fresh(st, e, ["list"], frozenset(["num"]), tag="b", deps=deps)
        if n in ("max", "min", "sum", "next"):
            r = None
            for v in pos:
                r = join(r, self.element(st, v, e) if len(pos) == 1 or n == "next" else v)
            if n == "sum":
                # repeated addition
                rr = self.binop(st, e, r if r is not None else NUM, ast.Add(), r if r is not None else NUM)
                return Val(rr.objs, rr.prims | {"num"}, deps | rr.deps)
            r = r if r is not None else NUM
            return r.with_deps(deps)
        if n in ("vars",) and pos:
            return pos[0]
        if n in ("abs",) and pos and pos[0].objs:
            r = self.fresh(st, e, ["nd"], tag="b", deps=deps)
            return Val(r.objs, frozenset(["num"]), r.deps)
        if n in M.BUILTIN_STR:
            return Val(prims=frozenset(["str"]), deps=deps)
        if n == "isinstance" or n == "hasattr" or n == "len" or n == "callable":
            return Val(prims=frozenset(["num"]), deps=deps)
        if n in M.BUILTIN_NUM:
            return Val(prims=frozenset(["num"]), deps=deps)
        return Val(prims=frozenset(["num"]), deps=deps)

    def call_eval(self, st, e, deps):
        """eval("self._solve_" + x + "()"): calls any method whose name has that prefix/suffix"""
        if not e.args:
            return NUM
        parts = []

        def flat(x):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                flat(x.left)
                flat(x.right)
            else:
                parts.append(x.value if isinstance(x, ast.Constant) and isinstance(x.value, str) else None)
        flat(e.args[0])
        if not parts or not isinstance(parts[0], str) or "." not in parts[0]:
            return self.unknown_call(st, [], {}, e, deps)
        recv, pre = parts[0].split(".", 1)
        suf = parts[-1] if isinstance(parts[-1], str) and len(parts) > 1 else ""
        suf = suf.split("(")[0]
        b = st.env.get(recv)
        if b is None:
            return self.unknown_call(st, [], {}, e, deps)
        r = None
        names = set()
        for o in b.objs:
            for k in o.kinds:
                cs = []
                if k.startswith("C:") and k[2:] in self.prog.classes:
                    c = self.prog.classes[k[2:]]
                    cs = list(c.mro) + c.all_subclasses()
                for c in cs:
                    for m in c.methods:
                        if m.startswith(pre) and m.endswith(suf) and pre and not m.startswith("setter:"):
                            names.add(m)
            for m in sorted(names):
                for k in sorted(o.kinds):
                    if k.startswith("C:") and k[2:] in self.prog.classes:
                        for t in self.method_targets(self.prog.classes[k[2:]], m):
                            if t is not self.f and len(t.params) == 1:
                                r = join(r, self.call_func(st, t, [Val(objs=frozenset([o]), deps=b.deps)], {}, e))
        if r is None:
            return self.unknown_call(st, [b], {}, e, deps)
        return r.with_deps(deps)
