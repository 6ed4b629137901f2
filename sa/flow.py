"""Definite assignment of local variables, path-sensitive on the tests that guard them."""
import ast

NEG = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}
CAP = 96


class S:
    """assigned variables, known truth of tests, tests held by boolean variables"""
    __slots__ = ("a", "f", "al")

    def __init__(self, a, f, al):
        self.a, self.f, self.al = a, f, al

    def key(self):
        return (self.a, frozenset(self.f.items()), frozenset(self.al.items()))

    def copy(self):
        return S(self.a, dict(self.f), dict(self.al))


def canon(t):
    """(text, polarity) of a test"""
    pol = True
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, pol = t.operand, not pol
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == "logical_not" and len(t.args) == 1:
        x, p = canon(t.args[0])
        return x, p != pol
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        op, l, r = t.ops[0], t.left, t.comparators[0]
        if type(op) in NEG:
            op, pol = NEG[type(op)](), not pol
        if isinstance(op, (ast.GtE, ast.Lt)):          # a >= b  ==  not a < b
            if isinstance(op, ast.GtE):
                pol = not pol
            return "%s < %s" % (ast.unparse(l), ast.unparse(r)), pol
        if isinstance(op, (ast.Gt, ast.LtE)):          # a > b == b < a ; a <= b == not b < a
            if isinstance(op, ast.LtE):
                pol = not pol
            return "%s < %s" % (ast.unparse(r), ast.unparse(l)), pol
        sym = {ast.Eq: "==", ast.Is: "is", ast.In: "in"}[type(op)]
        return "%s %s %s" % (ast.unparse(l), sym, ast.unparse(r)), pol
    return ast.unparse(t), pol


def test_of(t):
    """operand of an equality with a constant: (expression text, constant) or None"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and isinstance(t.comparators[0], ast.Constant):
        return ast.unparse(t.left), t.comparators[0].value
    return None


def members(t):
    """membership of an expression in constants: (expression text, values, positive) or None"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)) \
            and isinstance(t.comparators[0], (ast.Tuple, ast.List, ast.Set)) \
            and all(isinstance(e, ast.Constant) for e in t.comparators[0].elts):
        return ast.unparse(t.left), frozenset(e.value for e in t.comparators[0].elts), isinstance(t.ops[0], ast.In)
    return None


def empties(facts):
    """number of distinct collections the path assumes empty (or not nonempty)"""
    n = set()
    for k, v in facts.items():
        k = k.lstrip("~")
        if v is True and k.endswith(".size == 0"):
            n.add(k)
        if v is True and k.startswith("len(") and k.endswith(" == 0"):
            n.add(k)
        if v is False and (k.startswith("0 < len(") or (k.startswith("0 < ") and k.endswith(".size"))):
            n.add(k)
        if v is False and (k.endswith(".size") and k.isidentifier() or k.replace(".", "").isidentifier() and k.endswith(".size")):
            n.add(k)
    return len(n)


def names_in(text, memo={}):
    r = memo.get(text)
    if r is None:
        try:
            tree = ast.parse(text, mode="eval")
            r = frozenset([n.id for n in ast.walk(tree) if isinstance(n, ast.Name)] +
                          ["." + n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute)])
        except SyntaxError:
            r = frozenset()
        memo[text] = r
    return r


def noreturn(tree):
    """names of the functions and methods of a module that never complete normally (they only raise)"""
    def falls(body, known):
        for st in body:
            if isinstance(st, ast.Raise):
                return False
            if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) and any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)) for x in ast.walk(st)):
                return True
            if isinstance(st, ast.If) and st.orelse and not falls(st.body, known) and not falls(st.orelse, known):
                return False
            if isinstance(st, (ast.Expr, ast.Assign)) and never(st.value, known):
                return False
        return True
    known = set()
    for _ in range(3):
        n = len(known)
        for top in tree.body:
            for fn in [top] + (top.body if isinstance(top, ast.ClassDef) else []):
                if isinstance(fn, ast.FunctionDef) and not falls(fn.body, known):
                    known.add(fn.name if fn is top else "." + fn.name)
        if len(known) == n:
            break
    return known


def never(v, known):
    if not isinstance(v, ast.Call):
        return False
    if isinstance(v.func, ast.Name):
        return v.func.id in known
    return isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id in ("self", "cls") and \
        "." + v.func.attr in known


class DefiniteAssignment:
    def __init__(self, fnode, noret=frozenset()):
        self.fnode = fnode
        self.noret = noret
        a = fnode.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.locals = set()
        self.outer = set()
        self._collect(fnode.body)
        self.locals -= self.outer
        self.reports = {}       # (name, node) -> True
        self.reads = 0
        self.loop_assigned = []  # stack of names assigned in the enclosing loop bodies
        self.depth_in_loop = []
        self.cond_depth = 0

    def _collect(self, body):
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        self.locals.add(x.target.id)
                continue
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.outer |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    self.locals.add(x.asname or x.name.split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            stack.extend(ast.iter_child_nodes(n))

    def run(self):
        st = [S(frozenset(self.params), {}, {})]
        self.brk, self.cont = [], []
        self.block(self.fnode.body, st)
        return self

    # -- states -----------------------------------------------------------------
    def merge(self, sts):
        seen, out = set(), []
        for s in sts:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > CAP:
            # forget the oldest facts first: merge states that agree on what is assigned
            by = {}
            for s in out:
                o = by.get(s.a)
                if o is None:
                    by[s.a] = s
                else:
                    by[s.a] = S(s.a, {k: v for k, v in s.f.items() if o.f.get(k) == v}, {k: v for k, v in s.al.items() if o.al.get(k) == v})
            out = list(by.values())
            if len(out) > CAP:
                # too many: keep the union of what may be assigned (no alarm rather than a false one)
                a = frozenset().union(*[s.a for s in out])
                out = [S(a, {}, {})]
        return out

    def kill(self, s, names):
        f = {}
        for k, v in s.f.items():
            if k[0] == "~" or not names_in(k) & names:
                f[k] = v
            elif empties({k: v}):
                f["~" + k] = v     # no longer a fact about the current value, but the path did assume it
        s.f = f
        s.al = {k: v for k, v in s.al.items() if k not in names and not names_in(v) & names}

    # -- expressions ------------------------------------------------------------
    def read(self, e, sts):
        if e is None or not sts:
            return
        stack = [(e, sts, frozenset())]
        while stack:
            n, cur, hidden = stack.pop()
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                h = hidden | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for i, g in enumerate(n.generators):
                    stack.append((g.iter, cur, hidden if i == 0 else h))
                    for c in g.ifs:
                        stack.append((c, cur, h))
                for part in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    stack.append((part, cur, h))
                continue
            if isinstance(n, ast.IfExp):
                stack.append((n.test, cur, hidden))
                stack.append((n.body, [y for s in cur for y in self.assume(s, n.test, True)], hidden))
                stack.append((n.orelse, [y for s in cur for y in self.assume(s, n.test, False)], hidden))
                continue
            if isinstance(n, ast.BoolOp):
                c2 = cur
                for v in n.values:
                    stack.append((v, c2, hidden))
                    c2 = [y for s in c2 for y in self.assume(s, v, isinstance(n.op, ast.And))]
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in hidden:
                self.reads += 1
                if any(n.id not in s.a for s in cur):
                    if self.loop_assigned and n.id in self.loop_assigned[-1] and self.cond_depth > self.depth_in_loop[-1]:
                        continue       # assigned in an earlier iteration
                    if all(empties(s.f) > 1 for s in cur if n.id not in s.a):
                        continue       # several collections empty at once: decided by the data, not by the paths
                    if self.correlated(n):
                        continue       # guarded by a flag set together with the variable
                    self.reports[(n.id, n)] = True
                    for s in cur:
                        s.a = s.a | {n.id}
                continue
            if isinstance(n, ast.NamedExpr):
                stack.append((n.value, cur, hidden))
                for s in cur:
                    s.a = s.a | {n.target.id}
                continue
            for c in ast.iter_child_nodes(n):
                stack.append((c, cur, hidden))

    def tables(self):
        """guards and conditional assignments of the function, syntactically"""
        self.guard = {}         # id(name node) -> tests above it
        self.arms = {}          # variable -> names assigned in some arm of a conditional that assigns the variable
        self.own = {}           # variable -> names in the tests above its assignments
        self.opaque = set()     # locals assigned something other than a constant

        def note(n, tests):
            if isinstance(n, ast.Name):
                self.guard[id(n)] = tests
                if isinstance(n.ctx, ast.Store):
                    self.own.setdefault(n.id, set()).update(x for t in tests for x in t)
            if isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
                for t in n.targets:
                    self.opaque |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not self.fnode:
                return
            if isinstance(n, ast.If):
                names = {x.id for b in n.body + n.orelse for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for x in names:
                    self.arms.setdefault(x, set()).update(names)
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                t = tests + (frozenset(x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)),)
                note(n.test, tests)
                for f in ("body", "orelse"):
                    b = getattr(n, f)
                    for c in (b if isinstance(b, list) else [b]):
                        note(c, t)
                return
            for c in ast.iter_child_nodes(n):
                note(c, tests)
        note(self.fnode, ())

    def correlated(self, n):
        if not hasattr(self, "arms"):
            self.tables()
        flags = self.arms.get(n.id, set()) - {n.id}
        g = {x for t in self.guard.get(id(n), ()) for x in t} | self.own.get(n.id, set())
        return bool(flags & g & self.opaque)

    def assume(self, s, t, val):
        """states in which the test t has the truth value val (none when contradicted)"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(s, t.operand, not val)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == val
            if conj:
                out = [s]
                for v in t.values:
                    out = [y for x in out for y in self.assume(x, v, val)]
                return out
            out, rest = [], [s]
            for v in t.values:
                nxt = []
                for x in rest:
                    out += self.assume(x, v, val)
                    nxt += self.assume(x, v, not val)
                rest = nxt
            return self.merge(out)
        if isinstance(t, ast.Constant):
            return [s] if bool(t.value) == val else []
        if isinstance(t, ast.Name) and t.id in s.al:
            try:
                e = ast.parse(s.al[t.id], mode="eval").body
                out = []
                for x in self.assume(s, e, val):
                    out += self.fact(x, t.id, val)
                return out
            except SyntaxError:
                pass
        txt, pol = canon(t)
        out = self.fact(s, txt, val == pol)
        eq = test_of(t) if pol else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotEq):
            eq = test_of(ast.Compare(left=t.left, ops=[ast.Eq()], comparators=t.comparators))
        truth = val == pol
        if eq and out:
            lhs, c = eq
            res = []
            for x in out:
                k = "=" + lhs
                pv = x.f.get("?" + lhs)
                if truth:
                    if k in x.f and x.f[k] != c:
                        continue
                    if pv is not None and c not in pv:
                        continue
                    y = x.copy()
                    y.f[k] = c
                    res.append(y)
                else:
                    if k in x.f and x.f[k] == c and type(x.f[k]) is type(c):
                        continue
                    if pv is not None and c in pv:
                        pv = pv - {c}
                        if not pv:
                            continue
                        x = x.copy()
                        x.f["?" + lhs] = pv
                    res.append(x)
            return res
        mem = members(t)
        if mem is not None and out:
            lhs, vals, pos = mem
            if pos == val:
                res = []
                for x in out:
                    pv = x.f.get("?" + lhs, vals) & vals
                    if "=" + lhs in x.f:
                        pv = pv & {x.f["=" + lhs]}
                    if not pv:
                        continue
                    y = x.copy()
                    y.f["?" + lhs] = pv
                    res.append(y)
                return res
            res = []
            for x in out:
                if "=" + lhs in x.f and x.f["=" + lhs] in vals:
                    continue
                pv = x.f.get("?" + lhs)
                if pv is not None:
                    pv = pv - vals
                    if not pv:
                        continue
                    x = x.copy()
                    x.f["?" + lhs] = pv
                res.append(x)
            return res
        return out

    def fact(self, s, txt, truth):
        k = s.f.get(txt)
        if k is not None:
            return [s] if k == truth else []
        y = s.copy()
        y.f[txt] = truth
        return [y]

    # -- targets ----------------------------------------------------------------
    def targets(self, t, names):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.targets(e, names)
        elif isinstance(t, ast.Starred):
            self.targets(t.value, names)
        elif isinstance(t, ast.Attribute):
            names.add("." + t.attr)

    def bind(self, ts, sts, value=None):
        names = set()
        for t in ts:
            self.targets(t, names)
            for x in ast.walk(t):
                if isinstance(x, (ast.Attribute, ast.Subscript)):
                    self.read(x.value, sts)
                    if isinstance(x, ast.Subscript):
                        self.read(x.slice, sts)
        plain = {n for n in names if not n.startswith(".")}
        for s in sts:
            self.kill(s, names)
            s.a = s.a | plain
            if value is not None and len(ts) == 1 and isinstance(ts[0], ast.Name):
                n = ts[0].id
                if isinstance(value, ast.Constant):
                    if value.value is None:
                        s.f["%s is None" % n] = True
                    else:
                        s.f["%s is None" % n] = False
                    s.f[n] = bool(value.value)
                    if isinstance(value.value, (str, int, bool)):
                        s.f["=" + n] = value.value
                elif isinstance(value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call, ast.Subscript, ast.Attribute, ast.Name)) \
                        and n not in names_in(ast.unparse(value)) and len(ast.unparse(value)) < 200:
                    s.al[n] = ast.unparse(value)
                elif isinstance(value, (ast.List, ast.Dict, ast.Tuple, ast.ListComp)):
                    s.f["%s is None" % n] = False
        return sts

    # -- statements -------------------------------------------------------------
    def block(self, body, sts):
        for st in body:
            if not sts:
                return []
            sts = self.merge(self.stmt(st, sts))
        return sts

    def stmt(self, n, sts):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is not None:
            return m(n, [s.copy() for s in sts])
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.read(c, sts)
        return sts

    def s_Assign(self, n, sts):
        self.read(n.value, sts)
        if never(n.value, self.noret):
            return []
        return self.bind(n.targets, sts, n.value)

    def s_AnnAssign(self, n, sts):
        if n.value is None:
            return sts
        self.read(n.value, sts)
        return self.bind([n.target], sts, n.value)

    def s_AugAssign(self, n, sts):
        self.read(n.value, sts)
        if isinstance(n.target, ast.Name):
            self.read(ast.copy_location(ast.Name(id=n.target.id, ctx=ast.Load()), n.target), sts)
        return self.bind([n.target], sts)

    def s_Expr(self, n, sts):
        self.read(n.value, sts)
        return [] if never(n.value, self.noret) else sts

    def s_Return(self, n, sts):
        self.read(n.value, sts)
        return []

    def s_Raise(self, n, sts):
        self.read(n.exc, sts)
        return []

    def s_Assert(self, n, sts):
        self.read(n.test, sts)
        return [y for s in sts for y in self.assume(s, n.test, True)]

    def s_Delete(self, n, sts):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.read(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), sts)
                for s in sts:
                    s.a = s.a - {t.id}
            else:
                self.read(t, sts)
        return sts

    def s_Import(self, n, sts):
        for s in sts:
            s.a = s.a | {x.asname or x.name.split(".")[0] for x in n.names}
        return sts

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, sts):
        for d in n.decorator_list + n.args.defaults:
            self.read(d, sts)
        for s in sts:
            s.a = s.a | {n.name}
        return sts

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, sts):
        for s in sts:
            s.a = s.a | {n.name}
        return sts

    def s_If(self, n, sts):
        self.read(n.test, sts)
        yes = [y.copy() for s in sts for y in self.assume(s, n.test, True)]
        no = [y.copy() for s in sts for y in self.assume(s, n.test, False)]
        self.cond_depth += 1
        a = self.block(n.body, self.merge(yes))
        b = self.block(n.orelse, self.merge(no)) if n.orelse else no
        self.cond_depth -= 1
        return a + b

    def assigned_in(self, body):
        names = set()
        for st in body:
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    names.add("." + x.attr)
        return names

    def loop(self, n, sts, always):
        changed = self.assigned_in(n.body)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            self.targets(n.target, changed)
        ob, oc = self.brk, self.cont
        self.brk, self.cont = [], []
        self.loop_assigned.append(changed | (self.loop_assigned[-1] if self.loop_assigned else set()))
        self.depth_in_loop.append(self.cond_depth)
        first = self.block(n.body, [s.copy() for s in sts])         # first iteration
        again = [s.copy() for s in self.merge(first + self.cont)]
        for s in again:
            self.kill(s, changed)
            if isinstance(n, (ast.For, ast.AsyncFor)):
                names = set()
                self.targets(n.target, names)
                s.a = s.a | {x for x in names if not x.startswith(".")}
        self.cont = []
        out = self.block(n.body, self.merge(again))                 # any later iteration
        self.loop_assigned.pop()
        self.depth_in_loop.pop()
        brk, cont = self.brk, self.cont
        self.brk, self.cont = ob, oc
        end = [] if always else self.merge(again + out + cont)
        end = [s.copy() for s in end]
        for s in end:
            # facts established in one iteration need not hold after the last one
            self.kill(s, changed)
        if n.orelse:
            end = self.block(n.orelse, end)
        return self.merge(end + brk)

    def s_For(self, n, sts):
        self.read(n.iter, sts)
        sts = self.bind([n.target], sts)
        return self.loop(n, sts, False)

    def s_While(self, n, sts):
        self.read(n.test, sts)
        always = isinstance(n.test, ast.Constant) and bool(n.test.value)
        return self.loop(n, sts, always)

    def s_Break(self, n, sts):
        self.brk += sts
        return []

    def s_Continue(self, n, sts):
        self.cont += sts
        return []

    def s_With(self, n, sts):
        for it in n.items:
            self.read(it.context_expr, sts)
            if it.optional_vars is not None:
                sts = self.bind([it.optional_vars], sts)
        return self.block(n.body, sts)

    def s_Try(self, n, sts):
        entry = [s.copy() for s in sts]
        cur = sts
        self.cond_depth += 1
        for st in n.body:
            if not cur:
                break
            cur = self.merge(self.stmt(st, cur))
            entry += [s.copy() for s in cur]
        entry = self.merge(entry)
        out = self.block(n.orelse, cur) if n.orelse else cur
        for h in n.handlers:
            hs = [s.copy() for s in entry]
            if h.name:
                for s in hs:
                    s.a = s.a | {h.name}
            hs = self.block(h.body, hs)
            out = out + hs
        self.cond_depth -= 1
        out = self.merge(out)
        if n.finalbody:
            out = self.block(n.finalbody, out)
        return out
