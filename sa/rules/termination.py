"""P22: every loop has a reason to stop, whatever the data."""
import ast
import copy

SHRINK = {"setdiff1d", "fast_setdiff", "delete", "difference"}
POP = {"pop", "popleft", "remove", "popitem", "discard"}
DESCENT = {"parent", "children", "_parent", "_children", "ascendants", "descendants"}
SIZED = {"size", "len", "any", "count_nonzero", "shape"}
ENDLESS = {"count", "cycle", "repeat"}
CAP = 4000

# loops whose termination rests on an argument about values that is made here, recognised by what they do
# (all names listed are used in the loop): the names, and the argument
ARGUED = [
    ({"randint", "permutation", "append"},
     "random tree: the dimensions of a node are partitioned among at least two children, so the lists get strictly shorter and the "
     "array of nodes is allocated for the largest possible tree"),
    ({"array_equal", "nonzero", "flip"},
     "permutation of leaves: each step swaps one entry into its final position, and never moves an entry already in place"),
]


class Path:
    __slots__ = ("ev", "end")

    def __init__(self, ev=(), end=None):
        self.ev, self.end = tuple(ev), end


class TooMany(Exception):
    pass


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def stored(body):
    out = set()
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                b0 = x.value
                while isinstance(b0, (ast.Subscript, ast.Attribute)):
                    b0 = b0.value
                if isinstance(b0, ast.Name):
                    out.add(b0.id)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                    x.func.attr in POP | {"append", "extend", "insert", "add", "update"}:
                out.add(x.func.value.id)
    return out


def single(g):
    """the expression a one-line helper returns"""
    body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None:
        return body[0].value
    return None


class Subst(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        r = self.m.get(n.id)
        if r is None:
            return n
        if isinstance(r, ast.Name):
            return ast.copy_location(ast.Name(r.id, n.ctx), n)
        return r


class Paths:
    """paths through one iteration"""

    def __init__(self, f, helper):
        self.f, self.helper = f, helper
        self.depth = self.inside = self.nth = 0

    def expand(self, e):
        """helpers of one line are read in place"""
        if e is None or self.depth > 2:
            return e
        me = self

        class X(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                g = me.helper(n)
                if g is not None and single(g) is not None and not n.keywords and len(n.args) == len(g.params):
                    return Subst(dict(zip(g.params, n.args))).visit(copy.deepcopy(single(g)))
                return n
        return X().visit(copy.deepcopy(e))

    def seq(self, body, ps):
        for s in body:
            live = [p for p in ps if p.end is None]
            out = [p for p in ps if p.end is not None]
            for p in live:
                out += self.stmt(s, p)
            if len(out) > CAP:
                raise TooMany()
            ps = out
        return ps

    def test(self, e, p):
        """[(path, truth)]"""
        e = self.expand(e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(q, not v) for q, v in self.test(e.operand, p)]
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out, live = [], [p]
            for v in e.values:
                nxt = []
                for q in live:
                    for r, t in self.test(v, q):
                        (out if t == stop else nxt).append((r, t) if t == stop else r)
                live = nxt
            return out + [(q, not stop) for q in live]
        if isinstance(e, ast.Constant):
            return [(p, bool(e.value))]
        if isinstance(e, ast.Name):
            # a flag given a value earlier in the iteration
            nm = e.id
            for i in range(len(p.ev) - 1, -1, -1):
                k = p.ev[i]
                if k[0] == "set" and k[1] == nm:
                    if isinstance(k[2], ast.Name):
                        nm = k[2].id
                        continue
                    if isinstance(k[2], ast.Constant):
                        return [(p, bool(k[2].value))]
                    if isinstance(k[2], (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call)) and \
                            not any(x[0] in ("set", "havoc", "aug", "mut") and x[1] in names(k[2]) for x in p.ev[i:]):
                        return [(Path(q.ev + (("cond", e, t),)), t) for q, t in self.test(k[2], p)]
                    break
                if k[0] in ("aug", "mut", "havoc") and k[1] == nm:
                    break
        for k in reversed(p.ev):
            if k[0] == "cond" and ast.dump(k[1]) == ast.dump(e):
                return [(p, k[2])]
            if k[0] in ("set", "aug", "mut", "havoc") and k[1] in names(e):
                break
        return [(Path(p.ev + (("cond", e, True),)), True), (Path(p.ev + (("cond", e, False),)), False)]

    def stmt(self, s, p):
        if isinstance(s, ast.If):
            out = []
            for q, v in self.test(s.test, p):
                out += self.seq(s.body if v else s.orelse, [q])
            return out
        if isinstance(s, ast.Return) and self.inside:
            return [Path(p.ev, ("ret", self.expand(s.value)))]
        if isinstance(s, (ast.Return, ast.Raise)):
            return [Path(p.ev, "exit")]
        if isinstance(s, ast.Break):
            return [Path(p.ev, "exit")]
        if isinstance(s, ast.Continue):
            return [Path(p.ev, "next")]
        if isinstance(s, ast.Assert):
            return [q for q, v in self.test(s.test, p) if v]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            ins = self.inline(s.value, p)
            if ins is not None:
                return [r for q, v in ins for r in self.assign(ts, v, q)]
            return self.assign(ts, self.expand(s.value), p)
        if isinstance(s, ast.Expr) and self.inline_target(s.value) is not None:
            return [q for q, _ in self.inline(s.value, p)]
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                return [Path(p.ev + (("aug", s.target.id, s.op, self.expand(s.value)),))]
            return [Path(p.ev + tuple(("havoc", x) for x in stored([s])))]
        return self.other(s, p)

    def inline_target(self, e):
        if not isinstance(e, ast.Call) or self.inside >= 2:
            return None
        g = self.helper(e)
        if g is None or g is self.f or e.keywords or any(isinstance(a, ast.Starred) for a in e.args) or len(e.args) != len(g.params):
            return None
        ns = list(ast.walk(g.node))
        if len(ns) > 800 or any(isinstance(n, (ast.FunctionDef, ast.Yield, ast.While)) and n is not g.node for n in ns):
            return None
        return g

    def inline(self, e, p):
        """[(path, value)] of a call to a helper of the same module, its body read in place"""
        g = self.inline_target(e)
        if g is None:
            return None
        self.nth += 1
        own = stored(g.node.body)
        m, pre = {}, []
        for q, a in zip(g.params, e.args):
            if isinstance(a, ast.Name) and q not in own:
                m[q] = a
            else:
                m[q] = ast.Name("%s@%d" % (q, self.nth), ast.Load())
                pre.append(("set", m[q].id, a))
        for x in own:
            m.setdefault(x, ast.Name("%s@%d" % (x, self.nth), ast.Load()))
        body = [Subst(m).visit(copy.deepcopy(b)) for b in g.node.body]
        self.inside += 1
        try:
            out = []
            for q in self.seq(body, [Path(p.ev + tuple(pre))]):
                if q.end == "exit":
                    continue            # raises
                v = q.end[1] if q.end else None
                out.append((Path(q.ev), v if v is not None else ast.Constant(None)))
            return out
        finally:
            self.inside -= 1

    def assign(self, ts, v, p):
        ev = list(p.ev)
        for t in ts:
            if isinstance(t, ast.Name):
                ev.append(("set", t.id, v))
            elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts) and \
                    all(isinstance(x, ast.Name) for x in t.elts):
                ev += [("set", x.id, y) for x, y in zip(t.elts, v.elts)]
            else:
                for x in stored([ast.Assign([t], ast.Constant(None))]):
                    ev.append(("item", x, t, v) if isinstance(t, ast.Subscript) else ("havoc", x))
        return [Path(ev)]

    def other(self, s, p):
        if isinstance(s, ast.Expr):
            ev = []
            for n in ast.walk(s.value):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    ev.append(("mut", n.func.value.id, n))
            return [Path(p.ev + tuple(ev))]
        if isinstance(s, ast.With):
            return self.seq(s.body, [p])
        if isinstance(s, ast.Try):
            h = Path(p.ev + tuple(("havoc", x) for x in stored(s.body)))
            out = self.seq(s.body + s.orelse, [p])
            for k in s.handlers:
                out += self.seq(k.body, [h])
            if s.finalbody:
                out = [r for q in out for r in (self.seq(s.finalbody, [Path(q.ev)]) if q.end is None else [q])]
            return out
        if isinstance(s, (ast.For, ast.While)):
            ev = list(p.ev)
            inc = {}
            for n in [x for b in s.body for x in ast.walk(b)]:
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    inc.setdefault(n.target.id, []).append((type(n.op), const(n.value)))
            for x in stored(s.body) | stored([ast.Assign([s.target], ast.Constant(None))] if isinstance(s, ast.For) else []):
                ks = inc.get(x)
                if ks and all(o is ast.Add and (c or 0) > 0 for o, c in ks) and \
                        sum(isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Store) for b in s.body for n in ast.walk(b)) == len(ks):
                    ev.append(("up", x))
                else:
                    ev.append(("havoc", x))
            return [Path(ev)]
        return [p]


def const(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        c = const(e.operand)
        return None if c is None else -c
    return None


def step(k, v):
    """effect of an event on a counter: +1 strictly up, -1 strictly down, 0 none, 2 weakly up, None unknown"""
    if k[0] in ("cond",) or k[1] != v:
        return 0
    if k[0] == "up":
        return 2
    if k[0] == "aug" and isinstance(k[2], (ast.Add, ast.Sub)):
        c = const(k[3])
        if c:
            return (1 if c > 0 else -1) * (1 if isinstance(k[2], ast.Add) else -1)
    if k[0] == "set" and isinstance(k[2], ast.BinOp) and isinstance(k[2].op, (ast.Add, ast.Sub)):
        a, b = k[2].left, k[2].right
        if isinstance(a, ast.Name) and a.id == v and const(b):
            return (1 if const(b) > 0 else -1) * (1 if isinstance(k[2].op, ast.Add) else -1)
        if isinstance(b, ast.Name) and b.id == v and const(a) and isinstance(k[2].op, ast.Add):
            return 1 if const(a) > 0 else -1
    if k[0] == "mut":
        return 0
    return None


def counter(p, v, sign):
    """'strict', 'weak' or None"""
    r = "weak"
    for k in p.ev:
        d = step(k, v)
        if d == 0 or (d == 2 and sign > 0):
            continue
        if d == sign:
            r = "strict"
        else:
            return None
    return r


def changed(p):
    return {k[1] for k in p.ev if k[0] not in ("cond",)}


def bounds(p, body_names):
    """(v, +1|-1) that a condition of the path bounds by something the loop does not change"""
    out = set()
    for k in p.ev:
        if k[0] != "cond" or not isinstance(k[1], ast.Compare):
            continue
        terms = [k[1].left] + list(k[1].comparators)
        if len(terms) > 2 and not k[2]:
            continue
        for a, op, b in zip(terms, k[1].ops, terms[1:]):
            t = type(op)
            if not k[2]:
                t = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(t)
            for x, y, up in ((a, b, (ast.Lt, ast.LtE)), (b, a, (ast.Gt, ast.GtE))):
                x = shifted(x)
                if x is None:
                    continue
                if not names(y) & body_names:
                    if t in up:
                        out.add((x, 1))
                    elif t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                        out.add((x, -1))
    return out


def shifted(x):
    """v, v + c, v - c: the name v"""
    if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)) and const(x.right) is not None:
        x = x.left
    return x.id if isinstance(x, ast.Name) else None


def called(e):
    out = set()
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            out.add(x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else "")
        elif isinstance(x, ast.Attribute):
            out.add(x.attr)
    return out


def worklist(p, v):
    """'strict' when the path removes something from v or moves along the tree, 'weak' when v is kept or filtered"""
    r = "weak"
    alias = {}
    for k in p.ev:
        if k[0] == "cond":
            continue
        if k[0] == "set" and k[1] != v:
            if names(k[2]) & ({v} | set(alias)):
                how = shrinking(k[2], {v} | set(alias))
                alias[k[1]] = "strict" if how == "strict" or any(alias.get(n) == "strict" for n in names(k[2])) else how
            else:
                alias.pop(k[1], None)
            continue
        if k[1] != v:
            continue
        if k[0] == "set":
            how = shrinking(k[2], {v} | set(alias))
            if any(alias.get(n) == "strict" for n in names(k[2])):
                how = "strict"
            if how is None:
                return None
            if how == "strict":
                r = "strict"
        elif k[0] == "mut":
            a = k[2].func.attr
            if a in POP:
                r = "strict"
            elif a in ("append", "extend", "insert", "add", "update"):
                return None
        elif k[0] in ("havoc", "aug", "up"):
            return None
    return r


def shrinking(e, vs):
    """how the new value compares with the old ones in vs"""
    cs = called(e)
    if not names(e) & vs:
        return None
    if cs & SHRINK:
        n = next((x for x in ast.walk(e) if isinstance(x, ast.Call) and
                  (x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")) in SHRINK), None)
        if n is not None and ((n.args and names(n.args[0]) & vs) or (isinstance(n.func, ast.Attribute) and names(n.func.value) & vs)):
            return "strict"
        return None
    if cs & DESCENT:
        return "strict"
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id in vs:
        s = e.slice
        if isinstance(s, ast.Slice) and s.step is None:
            if (s.lower is not None and (const(s.lower) or 0) > 0 and s.upper is None) or \
                    (s.lower is None and s.upper is not None and (const(s.upper) or 0) < 0):
                return "strict"
            return "weak"
        return "weak"       # a selection
    if isinstance(e, ast.Name):
        return "weak"
    if isinstance(e, ast.Call) and cs & {"copy", "array", "asarray", "reshape", "ravel", "unique", "sort", "flip", "list", "atleast_1d"}:
        return "weak"
    return None


def growth(p, v):
    """the set v strictly grows: indices of its margin are added, and the path knows there is one"""
    margins = {}
    grown = None
    for i, k in enumerate(p.ev):
        if k[0] == "set":
            cs = called(k[2])
            if k[1] == v:
                if "add_indices" in cs and any(n in margins for n in names(k[2])):
                    grown = i
                    continue
                return None
            if any(c.startswith("get_") and c.endswith("margin") for c in cs) and v in names(k[2]):
                margins[k[1]] = i
            elif names(k[2]) & set(margins):
                margins[k[1]] = i
            else:
                margins.pop(k[1], None)
        elif k[0] != "cond" and k[1] == v:
            return None
    if grown is None:
        return "weak"
    for k in p.ev[:grown]:
        if k[0] == "cond" and names(k[1]) & set(margins) and at_zero(k[1], set(margins)) in (None, not k[2]):
            return "strict"
    return None


def at_zero(e, vs):
    """truth of a test when the arrays in vs are empty, None when that does not decide it"""
    class Z(ast.NodeTransformer):
        def visit_Attribute(self, n):
            if n.attr == "size" and names(n) <= vs:
                return ast.Constant(0)
            return self.generic_visit(n)

        def visit_Call(self, n):
            if isinstance(n.func, ast.Name) and n.func.id == "len" and names(n.args[0]) <= vs:
                return ast.Constant(0)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("cardinal", "size") and names(n) <= vs:
                return ast.Constant(0)
            return self.generic_visit(n)

        def visit_Subscript(self, n):
            if isinstance(n.value, ast.Attribute) and n.value.attr == "shape" and names(n) <= vs:
                return ast.Constant(0)
            return self.generic_visit(n)
    z = Z().visit(copy.deepcopy(e))
    try:
        for x in ast.walk(z):
            if not isinstance(x, (ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.cmpop, ast.boolop, ast.unaryop,
                                  ast.operator)):
                return None
        return bool(eval(compile(ast.fix_missing_locations(ast.Expression(z)), "", "eval"), {"__builtins__": {}}))
    except Exception:
        return None


def threshold(p, v):
    """v moves to a value among those strictly above it: what is not above was discarded in this iteration"""
    cut = set()
    done = None
    for k in p.ev:
        if k[0] == "item" and isinstance(k[2], ast.Subscript) and isinstance(k[2].slice, ast.Compare):
            c = k[2].slice
            if strictly(c, k[1], v, discard=True):
                cut.add(k[1])
        elif k[0] == "set" and k[1] != v:
            ok = False
            for c in ast.walk(k[2]):
                if isinstance(c, ast.Compare):
                    for x in names(c) - {v}:
                        w = isinstance(k[2], ast.Call) and "where" in called(k[2]) and k[2].args and k[2].args[0] is c
                        if strictly(c, x, v, discard=bool(w)) or (w and strictly(c, x, v, discard=False)):
                            ok = True
            if ok or (names(k[2]) & cut and not names(k[2]) & {v}):
                cut.add(k[1])
            else:
                cut.discard(k[1])
        elif k[0] == "set":
            cs = called(k[2])
            if cs & {"nanmin", "min", "amin"} and names(k[2]) & cut:
                done = "strict"
            else:
                return None
        elif k[0] in ("aug", "havoc", "up") and k[1] == v:
            return None
        elif k[0] in ("aug", "havoc", "up"):
            cut.discard(k[1])
    return done or "weak"


def strictly(c, x, v, discard):
    """c is x <= v (what to discard) or x > v (what to keep)"""
    if not isinstance(c, ast.Compare) or len(c.ops) != 1:
        return False
    a, b, t = c.left, c.comparators[0], type(c.ops[0])
    if isinstance(b, ast.Name) and b.id == v and isinstance(a, ast.Name) and a.id == x:
        return t is (ast.LtE if discard else ast.Gt)
    if isinstance(a, ast.Name) and a.id == v and isinstance(b, ast.Name) and b.id == x:
        return t is (ast.GtE if discard else ast.Lt)
    return False


def reason(f, loop, helper):
    """(why the loop stops | None, number of paths)"""
    used = called(ast.Module(body=list(loop.body) + ([ast.Expr(loop.test)] if isinstance(loop, ast.While) else []), type_ignores=[]))
    ps = Paths(f, helper)
    test = loop.test if isinstance(loop, ast.While) else ast.Constant(True)
    try:
        start = [q for q, v in ps.test(test, Path()) if v]
        paths = ps.seq(loop.body, start)
    except TooMany:
        return "too many paths", 0, []
    again = []
    for p in paths:
        if p.end == "exit":
            continue
        # the paths after which the test is known to be false do not come back
        try:
            if not any(v for _, v in ps.test(test, Path([k for k in p.ev if k[0] != "cond" or fresh(k, p)]))):
                continue
        except TooMany:
            pass
        again.append(p)
    n = len(paths)
    if not again:
        return "one iteration", n, []
    body_names = stored(loop.body)
    vs = sorted(set().union(*[changed(p) for p in again]) | body_names)
    left = list(again)
    used_by = []
    progress = True
    while left and progress:
        progress = False
        for v in vs:
            for kind, judge in (("counter", None), ("worklist", worklist), ("growing set", growth), ("moving threshold", threshold)):
                if kind == "counter":
                    for sign in (1, -1):
                        js = [counter(p, v, sign) for p in left]
                        if None in js or "strict" not in js:
                            continue
                        hit = [p for p, j in zip(left, js) if j == "strict" and (v, sign) in bounds(p, body_names)]
                        if not hit:
                            continue
                        left = [p for p in left if not any(p is h for h in hit)]
                        used_by.append("%s %s" % (v, "counts up to its bound" if sign > 0 else "counts down to its bound"))
                        progress = True
                else:
                    js = [judge(p, v) for p in left]
                    if None in js or "strict" not in js:
                        continue
                    if kind == "worklist" and not all(any(k[0] == "cond" and v in names(k[1]) and at_zero(k[1], {v}) in (None, not k[2]) for k in p.ev) for p in left):
                        continue
                    left = [p for p, j in zip(left, js) if j != "strict"]
                    used_by.append("%s is a %s" % (v, kind))
                    progress = True
                if not left:
                    return "; ".join(used_by), n, []
    for feats, why in ARGUED:
        if feats <= used:
            return "argued: " + why, n, []
    return None, n, left


def fresh(k, p):
    """a condition still true at the end of the path"""
    seen = False
    for x in p.ev:
        if x is k:
            seen = True
        elif seen and x[0] != "cond" and x[1] in names(k[1]):
            return False
    return True


def p22(ctx, rep):
    prog = ctx.prog
    for f in prog.all_funcs():
        rep.count("functions analysed")
        mod = f.module

        def helper(n, f=f, mod=mod):
            if isinstance(n.func, ast.Name):
                return mod.functions.get(n.func.id)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and f.cls is not None and f.params and \
                    n.func.value.id == f.params[0] and n.func.attr.startswith("_"):
                g = f.cls.lookup(n.func.attr)
                return g if g is not None and g.kind == "static" else None
            return None
        nth = 0
        for n in ast.walk(f.node):
            if isinstance(n, ast.While):
                nth += 1
                rep.count("while loops")
                why, np_, left = reason(f, n, helper)
                rep.count("paths through one iteration", np_)
                where = "%s:%d" % (mod.rel, n.lineno)
                if why is None:
                    rep.violation("no bound", "loop|%s" % f.qual, "nothing bounds the number of iterations of 'while %s': %s" % (
                        ast.unparse(n.test)[:80], explain(left)), where, f.qual)
                else:
                    rep.sample("%s: while %s: %s" % (f.qual, ast.unparse(n.test)[:60], why), 20)
            elif isinstance(n, (ast.For, ast.comprehension)):
                rep.count("for loops")
                endless(prog, f, n, helper, rep)
            elif isinstance(n, ast.Call):
                recursion(f, n, rep)
    rep.floor("functions analysed", 700)
    rep.floor("while loops", 8)
    rep.floor("for loops", 300)


def explain(left):
    p = left[0]
    cs = ["%s%s" % ("" if k[2] else "not ", ast.unparse(k[1])[:50]) for k in p.ev if k[0] == "cond"]
    return "an iteration with %s changes none of the quantities that bound it" % (" and ".join(cs) or "no condition")


def endless(prog, f, n, helper, rep):
    it = n.iter
    e = it
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("enumerate", "zip", "iter") and e.args:
        if e.func.id == "zip":
            break
        if e.func.id == "iter" and len(e.args) == 2:
            break
        e = e.args[0]
    where = "%s:%d" % (f.module.rel, it.lineno)
    nm = ""
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        ext = isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "itertools" or \
            isinstance(e.func, ast.Name) and f.module.imports.get(nm, "").startswith("itertools") if hasattr(f.module, "imports") else False
        if (nm in ENDLESS and ext and not (nm == "repeat" and len(e.args) > 1)) or (nm == "iter" and len(e.args) == 2):
            why = None
            if isinstance(n, ast.For):
                why, _, left = reason(f, n, helper)
            if why is None:
                rep.violation("no bound", "endless|%s|%s" % (f.qual, nm), "the iteration over %s has no end" % ast.unparse(it)[:60], where, f.qual)
    if isinstance(n, ast.For):
        src = ast.unparse(e)
        if isinstance(e, (ast.Name, ast.Attribute)):
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "insert") \
                            and ast.unparse(x.func.value) == src:
                        rep.violation("no bound", "grows|%s|%s" % (f.qual, src), "%s grows while it is iterated over" % src, where, f.qual)
                    if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and ast.unparse(x.target) == src and \
                            isinstance(x.value, (ast.List, ast.ListComp)):
                        rep.violation("no bound", "grows|%s|%s" % (f.qual, src), "%s grows while it is iterated over" % src, where, f.qual)


def recursion(f, n, rep):
    """a function that calls itself with the arguments it was given never returns"""
    if isinstance(n.func, ast.Name) and f.cls is None and n.func.id == f.name:
        args, ps = n.args, f.params
    elif isinstance(n.func, ast.Attribute) and f.cls is not None and n.func.attr == f.name and f.params and \
            isinstance(n.func.value, ast.Name) and n.func.value.id == f.params[0] and f.kind == "method":
        args, ps = n.args, f.params[1:]
    else:
        return
    rep.count("direct recursive calls")
    given = dict(zip(ps, args))
    for k in n.keywords:
        if k.arg:
            given[k.arg] = k.value
    st = stored(f.node.body)
    same = all(p in given and isinstance(given[p], ast.Name) and given[p].id == p and p not in st for p in ps if p in given)
    if same and len(given) == len(ps):
        rep.violation("no bound", "recursion|%s" % f.qual, "%s calls itself with the arguments it was given" % f.qual,
                      "%s:%d" % (f.module.rel, n.lineno), f.qual)


RULES = {"P22": (p22, """For every while loop of the library the paths through one iteration are enumerated (conditions, assignments, helpers of one
line read in place), and a lexicographic ranking is searched for: on every path that comes back to the loop some counter moves strictly
towards a bound that a condition of the path compares it with and that the loop does not change, or a work list loses an element or moves along the
tree, or a finite index set gains an element of its margin, or a threshold moves to a strictly larger candidate. A path that changes none of
these is reported. For loops must not iterate over something they extend, nor over an endless iterator without such a bound; a function must
not call itself with the arguments it was given.""",
                 ["trees are trees: following parents or children ends", "index sets bounded by a norm, a degree or a product are finite",
                  "indices passed to setdiff are among those removed from", "loops listed in sa/rules/termination.py (ARGUED) stop for the reason given there"])}
TECHNIQUE = {"P22": "ranking-function search over the paths of every loop body"}
NOTE = {"P22": "termination of every loop of the library by a lexicographic ranking found in the source; recursion is only checked for "
               "direct calls with unchanged arguments"}
