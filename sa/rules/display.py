"""P11: progress display never changes the result (information flow from the display switches)."""
import ast

from ..hooks import Hook, observe
from .effects import STORE
from .equality import tainted as bases_of

MUT = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "remove", "clear", "sort", "reverse", "put", "fill"}


def display_name(s):
    return isinstance(s, str) and (s == "display" or s.endswith("_display") or s == "verbose")


class Watch(Hook):
    """per function: call targets, heap writes and random draws, by syntax node"""

    def __init__(self):
        self.targets, self.writes, self.ext = {}, {}, {}

    def call(self, fa, st, f, args, kw, e):
        self.targets.setdefault(id(e), set()).add(f)
        return None

    def ext_call(self, fa, st, name, args, kw, e):
        self.ext.setdefault(fa.f.id, []).append((e, name))

    def _w(self, fa, node, objs, what, fl):
        self.writes.setdefault(fa.f.id, []).append((node, frozenset(objs), what, fl))

    def store_attr(self, fa, st, base, attr, v, node):
        self._w(fa, node, base.objs, "attribute %s is assigned" % attr, attr)

    def store_elem(self, fa, st, base, idx, v, node):
        self._w(fa, node, base.objs, "an element is assigned", "[*]")

    def mutate(self, fa, st, o, node, desc):
        self._w(fa, node, (o,), desc, "[*]")

    def store_global(self, fa, fr, attr, node):
        self._w(fa, node, (), "module state is assigned", attr)

    def inst_effect(self, fa, st, o, fl, e, f, ef):
        self._w(fa, e, (o,), "%s is called and modifies it" % f.qual, fl)


def plain_return(f):
    """the function never returns a value"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            return False
    return True


class Flow:
    def __init__(self, A, f):
        self.A, self.f = A, f
        self.pc = 0             # open tests on display
        self.perm = 0           # left early under a display test: what follows runs or not depending on it
        self.region, self.sinks = {}, []
        self.none = plain_return(f)

    def run(self):
        env = {p for p in list(self.f.params) + list(self.f.kwonly) if (self.f.id, p) in self.A.tparams or display_name(p)}
        self.block(self.f.node.body, env)

    def under(self):
        return self.pc + self.perm > 0

    # -- expressions -----------------------------------------------------------------
    def ex(self, e, env):
        if e is None:
            return False
        if self.under():
            self.region[id(e)] = e
        if isinstance(e, ast.Name):
            return e.id in env
        if isinstance(e, ast.Constant):
            return False
        if isinstance(e, ast.Attribute):
            t = self.ex(e.value, env)
            if display_name(e.attr) and isinstance(e.ctx, ast.Load):
                self.A.sources.add(id(e))
                return True
            return t
        if isinstance(e, ast.Subscript):
            t = self.ex(e.value, env) | self.ex(e.slice, env)
            if isinstance(e.slice, ast.Constant) and display_name(e.slice.value) and isinstance(e.ctx, ast.Load):
                self.A.sources.add(id(e))
                return True
            return t
        if isinstance(e, ast.BoolOp):
            t = False
            n = 0
            for v in e.values:
                t |= self.ex(v, env)
                if t and not n:
                    n = 1
                    self.pc += 1
            self.pc -= n
            return t
        if isinstance(e, ast.IfExp):
            t = self.ex(e.test, env)
            self.pc += t
            r = self.ex(e.body, env) | self.ex(e.orelse, env)
            self.pc -= t
            return r or t
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = set(env)
            t = False
            for g in e.generators:
                ti = self.ex(g.iter, inner)
                t |= ti
                if ti:
                    inner |= set(bases_of(g.target))
                for c in g.ifs:
                    t |= self.ex(c, inner)
            n = int(t)
            self.pc += n
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                t |= self.ex(x, inner)
            self.pc -= n
            return t
        if isinstance(e, ast.Lambda):
            return self.ex(e.body, env)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.NamedExpr):
            t = self.ex(e.value, env)
            self.set(e.target, t, env)
            return t
        t = False
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                t |= self.ex(c, env)
        return t

    def call(self, e, env):
        fn = self.ex(e.func, env)
        args = [self.ex(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
        kws = [(k.arg, self.ex(k.value, env)) for k in e.keywords]
        any_ = any(args) or any(t for _, t in kws)
        targets = self.A.targets.get(id(e), ())
        if not targets:
            if any_ and isinstance(e.func, ast.Attribute) and e.func.attr in MUT:
                self.put(e.func.value, e, env)
            return fn or any_
        r = fn
        for g in targets:
            if any_:
                ps = list(g.params)
                if ps and g.cls is not None and g.kind != "static" and not (isinstance(e.func, ast.Attribute) and len(e.args) == len(ps)):
                    ps = ps[1:]
                for p, t in zip(ps, args):
                    if t:
                        self.A.taint_param(g, p)
                for k, t in kws:
                    if t and k:
                        self.A.taint_param(g, k)
            r |= g.id in self.A.trets
        return r

    # -- stores --------------------------------------------------------------------------
    def put(self, t, node, env):
        """a value that depends on the display goes into the object t denotes"""
        b = t
        while isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Name):
            env.add(b.id)
        else:
            self.sinks.append((node, "a value that depends on the display is stored in %s" % ast.unparse(t), ast.unparse(t)))

    def set(self, t, tv, env):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.set(x, tv, env)
        elif isinstance(t, ast.Starred):
            self.set(t.value, tv, env)
        elif isinstance(t, ast.Name):
            if self.under():
                self.region[id(t)] = t
            if tv or self.under():
                env.add(t.id)
            else:
                env.discard(t.id)
        elif isinstance(t, ast.Attribute):
            self.ex(t, env)
            if tv and not display_name(t.attr):
                self.sinks.append((t, "a value that depends on the display is stored in %s" % ast.unparse(t), t.attr))
        elif isinstance(t, ast.Subscript):
            ti = self.ex(t, env)
            if (tv or ti) and not (isinstance(t.slice, ast.Constant) and display_name(t.slice.value)):
                self.put(t, t, env)

    # -- statements ----------------------------------------------------------------------
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        if self.under():
            self.region[id(s)] = s
            self.A.controlled.add(id(s))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s, env)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ex(c, env)

    def s_Assign(self, s, env):
        t = self.ex(s.value, env)
        for x in s.targets:
            self.set(x, t, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.set(s.target, self.ex(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = self.ex(s.value, env)
        if isinstance(s.target, ast.Name):
            t |= s.target.id in env
        self.set(s.target, t, env)

    def s_Return(self, s, env):
        t = self.ex(s.value, env)
        if t or (self.under() and not self.none):
            self.A.taint_ret(self.f, s)
        if self.under():
            self.perm += 1

    def s_Raise(self, s, env):
        if self.under():
            self.sinks.append((s, "an error is raised depending on the display", "raise"))
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ex(c, env)

    def s_Break(self, s, env):
        if self.under():
            self.broke = True

    s_Continue = s_Break

    def s_If(self, s, env):
        t = self.ex(s.test, env)
        self.pc += t
        a, b = set(env), set(env)
        self.block(s.body, a)
        self.block(s.orelse, b)
        self.pc -= t
        env.clear()
        env |= a | b

    def loop(self, s, env, head):
        old = getattr(self, "broke", False)
        self.broke = False
        for _ in range(3):
            t = head(env)
            n = t + (1 if self.broke else 0)
            self.pc += n
            e2 = set(env)
            self.block_loop(s.body, e2)
            self.pc -= n
            before = set(env)
            env |= e2
            if env == before and not (self.broke and n == t):
                break
        self.block(s.orelse, env)
        self.broke = old

    def block_loop(self, body, env):
        """what follows an early exit of the iteration that depends on the display depends on it too"""
        n = 0
        for s in body:
            was = self.broke
            self.stmt(s, env)
            if self.broke and not was:
                self.pc += 1
                n += 1
        self.pc -= n

    def s_For(self, s, env):
        def head(env):
            t = self.ex(s.iter, env)
            self.set(s.target, t, env)
            return int(t)
        self.loop(s, env, head)

    def s_While(self, s, env):
        self.loop(s, env, lambda env: int(self.ex(s.test, env)))

    def s_With(self, s, env):
        for i in s.items:
            t = self.ex(i.context_expr, env)
            if i.optional_vars is not None:
                self.set(i.optional_vars, t, env)
        self.block(s.body, env)

    def s_Try(self, s, env):
        self.block(s.body, env)
        for h in s.handlers:
            e2 = set(env)
            self.block(h.body, e2)
            env |= e2
        self.block(s.orelse, env)
        self.block(s.finalbody, env)

    def s_FunctionDef(self, s, env):
        self.block(s.body, set(env))

    def s_ClassDef(self, s, env):
        pass


class Analysis:
    def __init__(self, prog, watch):
        self.prog, self.watch = prog, watch
        self.targets = watch.targets
        self.tparams, self.trets, self.retat = set(), set(), {}
        self.sources, self.controlled = set(), set()
        self.dirty = True

    def taint_param(self, g, p):
        if p in list(g.params) + list(g.kwonly) and (g.id, p) not in self.tparams:
            self.tparams.add((g.id, p))
            self.dirty = True

    def taint_ret(self, f, node):
        if f.id not in self.trets:
            self.trets.add(f.id)
            self.retat[f.id] = node
            self.dirty = True

    def run(self, funcs):
        while self.dirty:
            self.dirty = False
            out = []
            for f in funcs:
                fl = Flow(self, f)
                fl.run()
                out.append((f, fl))
        return out


def draws(prog, watch, funcs):
    """functions from which a random number may be drawn"""
    byid = {f.id: f for f in funcs}
    bad = {i for i, xs in watch.ext.items() for e, n in xs if is_draw(n)}
    calls = {}
    for f in funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                for g in watch.targets.get(id(n), ()):
                    calls.setdefault(g.id, set()).add(f.id)
    work = list(bad)
    while work:
        g = work.pop()
        for c in calls.get(g, ()):
            if c not in bad and c in byid:
                bad.add(c)
                work.append(c)
    return bad


def is_draw(n):
    return n.startswith(("numpy.random.", "np.random.", "random.")) or n.endswith(".rvs")


def p11(ctx, rep):
    prog = ctx.prog
    eng, funcs = ctx.effects(True)
    w = Watch()
    funcs = prog.all_funcs()
    observe(eng, funcs, w)
    an = Analysis(prog, w)
    res = an.run(funcs)
    rnd = draws(prog, w, funcs)
    for f, fl in res:
        rep.count("functions analysed")
        if fl.region:
            rep.count("functions with code that runs only for display")
            rep.count("expressions and statements under a display test", len(fl.region))
            rep.sample("%s: %d statements under a display test, none with an effect" % (
                f.qual, sum(isinstance(n, ast.stmt) for n in fl.region.values())))
        own = {(getattr(n, "lineno", 0), getattr(n, "col_offset", 0)) for n in fl.region.values()}
        for node, what, k in fl.sinks:
            rep.violation("display flow", "display|%s|%s" % (f.qual, k), what, "%s:%d" % (f.module.rel, node.lineno), f.qual)
        for node, objs, what, field in w.writes.get(f.id, ()):
            if id(node) not in fl.region or display_name(field) or field in STORE:
                continue
            if names_display(node):
                continue
            rep.count("writes under a display test examined")
            bad = [o for o in objs if not local(o, f, own)]
            if objs and not bad:
                continue
            if not objs and what != "module state is assigned":
                continue
            if any(o.path and o.path[-1] in STORE for o in bad):
                continue
            rep.violation("effect of display", "displayeffect|%s|%s" % (f.qual, field),
                          "only when progress is displayed, %s" % what, "%s:%d" % (f.module.rel, getattr(node, "lineno", f.node.lineno)), f.qual)
        for e in fl.region.values():
            if not isinstance(e, ast.Call):
                continue
            rep.count("calls under a display test")
            for g in w.targets.get(id(e), ()):
                if g.id in rnd:
                    rep.violation("draw under display", "displaydraw|%s|%s" % (f.qual, g.qual),
                                  "random numbers are drawn only when progress is displayed (through %s)" % g.qual,
                                  "%s:%d" % (f.module.rel, e.lineno), f.qual)
        for e, n in w.ext.get(f.id, ()):
            if id(e) in fl.region and is_draw(n):
                rep.violation("draw under display", "displaydraw|%s|%s" % (f.qual, n),
                              "random numbers are drawn only when progress is displayed (%s)" % n, "%s:%d" % (f.module.rel, e.lineno), f.qual)
        if f.id in an.trets and not f.name.startswith("_") and not display_name(f.name):
            node = an.retat[f.id]
            rep.violation("result depends on display", "displayresult|%s" % f.qual,
                          "what %s returns depends on whether progress is displayed" % f.qual, "%s:%d" % (f.module.rel, node.lineno), f.qual)
    rep.count("reads of a display switch", len(an.sources))
    rep.count("statements under a display test", len(an.controlled))
    rep.floor("reads of a display switch", 15)
    rep.floor("statements under a display test", 25)
    rep.floor("calls under a display test", 25)
    rep.floor("functions analysed", 700)


def names_display(node):
    """the statement assigns a display switch itself"""
    ts = node.targets if isinstance(node, ast.Assign) else [node.target] if isinstance(node, (ast.AugAssign, ast.AnnAssign)) else [node]
    for t in ts:
        if isinstance(t, ast.Attribute) and display_name(t.attr):
            continue
        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and display_name(t.slice.value):
            continue
        return False
    return True


def local(o, f, own):
    """an object created under the display test itself"""
    r = o.l.root
    return r[0] == "n" and len(r) >= 4 and r[1] == f.id and (r[2], r[3]) in own


RULES = {"P11": (p11, """Information flow from the display switches (attributes, options and parameters named display, *_display or verbose) through
locals, parameters, results and control: code that runs only under a test on such a switch may not write to anything that exists outside of it
(alias analysis, calls included), draw random numbers, raise, or decide what the function returns; and no value computed from a switch is stored
or returned by a public operation. Values assigned under such a test are tracked as depending on it.""",
                 ["functions of external libraries other than the random generators have no effect but on their arguments",
                  "user-supplied callables have no effects"])}
TECHNIQUE = {"P11": "information-flow analysis (explicit and implicit flows) over the syntax tree, with interprocedural write effects"}
NOTE = {"P11": "flow-sensitive within a function, context-insensitive across calls; the write set of the code under display tests comes from "
               "the alias and effect analysis"}
