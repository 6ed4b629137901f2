"""P17: a value of an option that nothing handles is rejected.

Abstract execution of every function that compares an option with constants, under the hypothesis that the option has
none of the values it is compared with: a normal exit reached after the function has dispatched on the option is a violation.
"""
import ast


import re

from . import interface


def is_const(e):
    return isinstance(e, ast.Constant) and isinstance(e.value, str)


def is_value(e, subject):
    """a value an option can have: a string, or an integer when the option is a type by its name"""
    return is_const(e) or isinstance(e, ast.Constant) and type(e.value) is int and re.search(
        r"(type|kind|method|mode)('\])?$", ast.unparse(subject)) is not None


class Norm:
    """text of an expression with single-assignment local aliases resolved"""

    def __init__(self, f):
        self.f = f
        self.defs = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self.defs.setdefault(x.id, []).extend([None, None])
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.defs.setdefault(x.id, []).extend([None, None])
        self.loads = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        self.params = set(f.params) | set(f.kwonly)

    def single(self, name):
        d = self.defs.get(name, [])
        return d[0] if len(d) == 1 and name not in self.params else None

    def text(self, e, depth=0):
        if isinstance(e, ast.Name) and depth < 4:
            d = self.single(e.id)
            if isinstance(d, (ast.Attribute, ast.Name)) or isinstance(d, ast.Subscript) and is_const(d.slice):
                return self.text(d, depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("lower", "upper", "strip") and not e.args:
            return self.text(e.func.value, depth)
        return ast.unparse(e)

    def test(self, e, depth=0):
        if isinstance(e, ast.Name) and depth < 4:
            d = self.single(e.id)
            if d is not None and isinstance(d, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                return d
        return e


def option_like(e, norm):
    """the expression denotes a stored option or a parameter"""
    if isinstance(e, ast.Name):
        d = norm.single(e.id)
        if d is not None:
            return isinstance(d, (ast.Attribute, ast.Subscript)) and option_like(d, norm)
        return e.id in norm.params
    if isinstance(e, ast.Attribute):
        return True
    if isinstance(e, ast.Subscript):
        return is_const(e.slice)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Attribute) and e.func.attr in ("lower", "upper", "strip") and not e.args and option_like(e.func.value, norm)
    return False


def values(e):
    if is_const(e):
        return {e.value}
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)) and e.elts and all(is_const(x) for x in e.elts):
        return {x.value for x in e.elts}
    if isinstance(e, ast.Dict) and e.keys and all(x is not None and is_const(x) for x in e.keys):
        return {x.value for x in e.keys}
    return None


def comparison(e, norm):
    """(option text, constants, truth when the option has none of them) of an elementary test"""
    if not (isinstance(e, ast.Compare) and len(e.ops) == 1):
        return None
    l, r, op = e.left, e.comparators[0], e.ops[0]
    if isinstance(op, (ast.Eq, ast.NotEq)):
        if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
            l, r = r, l
        if not is_value(r, l) or not option_like(l, norm):
            return None
        return norm.text(l), {r.value}, isinstance(op, ast.NotEq)
    if isinstance(op, (ast.In, ast.NotIn)) and option_like(l, norm):
        v = values(r)
        if v:
            return norm.text(l), v, isinstance(op, ast.NotIn)
    return None


def reports(b):
    """the block starts by telling the user that the value is not supported"""
    return any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("print", "warnings.warn", "warn") for s in b)


class Run:
    """abstract execution under: option not in its constants; a state is (dispatched, used, free)"""

    def __init__(self, rule, f, norm, subject, value=None):
        self.rule, self.f, self.norm, self.subject, self.value = rule, f, norm, subject, value
        self.base = subject.split("[")[0]
        self.exits = []
        self.depth = 0

    def truth(self, e):
        """(possible truth values, dispatches on the option) of a test"""
        e = self.norm.test(e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v, d = self.truth(e.operand)
            return {not x for x in v}, d
        if isinstance(e, ast.BoolOp):
            vals, disp = None, False
            for x in e.values:
                v, d = self.truth(x)
                if isinstance(e.op, ast.And):
                    if vals is None or True in vals:
                        disp = disp or d
                    vals = v if vals is None else {a and b for a in vals for b in v}
                else:
                    disp = disp or d
                    vals = v if vals is None else {a or b for a in vals for b in v}
            return vals, disp
        c = comparison(e, self.norm)
        if c is not None and c[0] == self.subject:
            if self.value is not None and self.value in set(map(str, c[1])):
                return {not c[2]}, True
            return {c[2]}, True
        if isinstance(e, ast.Constant):
            return {bool(e.value)}, False
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and is_const(e.left) \
                and "%s[%r]" % (self.norm.text(e.comparators[0]), e.left.value) == self.subject:
            # the option is present
            return {isinstance(e.ops[0], ast.In)}, False
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and self.norm.text(e.left) == self.subject:
            # the unsupported value is not None
            return {isinstance(e.ops[0], ast.IsNot)}, False
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and e.args \
                and self.norm.text(e.args[0]) == self.subject:
            return {ast.unparse(e.args[1]) == "str"}, False
        return {True, False}, False

    def uses(self, e):
        """the option is read as data in the expression (not in an elementary comparison)"""
        skip = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Compare):
                skip |= {id(x) for x in ast.walk(n)}
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "print", "len", "type", "format", "str"):
                skip |= {id(x) for x in ast.walk(n)}
            if isinstance(n, ast.JoinedStr):
                skip |= {id(x) for x in ast.walk(n)}
        for n in ast.walk(e):
            if id(n) in skip or not isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) or not isinstance(getattr(n, "ctx", None), ast.Load):
                continue
            if self.norm.text(n) == self.subject:
                return True
        return False

    def rejects(self, e):
        """the expression calls a function that raises whenever the option has none of its values"""
        if self.value is not None:
            return False
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and self.rule.callee_rejects(self.f, n, self.subject, self.norm):
                return True
        return False

    def block(self, b, sts):
        """states after the block (normal completion), recording exits"""
        for s in b:
            if not sts:
                return sts
            sts = self.stmt(s, sts)
        return sts

    def mark(self, sts, used=False, disp=False, free=False):
        return {(d or (disp and not fr), u or used, fr or free) for d, u, fr in sts}

    def stmt(self, s, sts):
        if isinstance(s, ast.Raise):
            return set()
        if isinstance(s, ast.Return):
            if s.value is not None:
                if self.rejects(s.value):
                    return set()
                if self.uses(s.value):
                    sts = self.mark(sts, used=True)
                sts = self.inexpr(s.value, sts)
            self.exits.append((s, sts))
            return set()
        if isinstance(s, (ast.Break, ast.Continue)):
            self.loop[-1] |= sts
            return set()
        if isinstance(s, ast.If):
            return self.branch(s.test, s.body, s.orelse, sts)
        if isinstance(s, (ast.For, ast.While)):
            head = s.iter if isinstance(s, ast.For) else s.test
            if self.rejects(head):
                return set()
            if self.uses(head):
                sts = self.mark(sts, used=True)
            self.loop = getattr(self, "loop", []) + [set()]
            v, d = self.truth(s.test) if isinstance(s, ast.While) else ({True, False}, False)
            inside = self.mark(sts, disp=d and not self.settles(s.body)) if True in v else set()
            out = set() if v == {True} else sts
            a = self.block(s.body, inside)
            a |= self.block(s.body, a - inside)
            out = out | (a if v != {True} else set()) | self.loop[-1]
            self.loop = self.loop[:-1]
            return self.block(s.orelse, out) if s.orelse else out
        if isinstance(s, ast.With):
            return self.block(s.body, sts)
        if isinstance(s, ast.Try):
            a = self.block(s.body, sts)
            for h in s.handlers:
                a = a | self.block(h.body, sts)
            a = self.block(s.orelse, a) if s.orelse else a
            return self.block(s.finalbody, a) if s.finalbody else a
        if isinstance(s, ast.Match):
            if self.norm.text(s.subject) == self.subject:
                for c in s.cases:
                    if self.value is not None and any(isinstance(x, ast.MatchValue) and isinstance(x.value, ast.Constant) and str(x.value.value) == self.value
                                                      for x in ast.walk(c.pattern)):
                        return self.block(c.body, self.mark(sts, disp=True))
                    if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                        return self.block(c.body, self.mark(sts, disp=True))
                return self.mark(sts, disp=True)
            out = set(sts)
            for c in s.cases:
                out |= self.block(c.body, sts)
            return out
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return sts
        if isinstance(s, ast.Assert):
            v, d = self.truth(s.test)
            return set() if v == {False} else sts
        # simple statement
        if self.rejects(s):
            return set()
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            ts = s.targets if isinstance(s, (ast.Assign, ast.Delete)) else [s.target]
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load) \
                            and ast.unparse(x) in (self.subject, self.base):
                        return self.mark(sts, free=True)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                    and self.norm.text(s.targets[0]) == self.subject:
                return sts
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    isinstance(s.value, (ast.Compare, ast.BoolOp)) and self.norm.single(s.targets[0].id) is not None:
                return sts
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                if self.uses(e):
                    sts = self.mark(sts, used=True)
                sts = self.inexpr(e, sts)
        return sts

    def inexpr(self, e, sts):
        """conditional expressions that dispatch on the option"""
        for n in ast.walk(e):
            if isinstance(n, ast.IfExp):
                v, d = self.truth(n.test)
                if d and not self.uses(n.orelse if v == {False} else n.body):
                    sts = self.mark(sts, disp=True)
        return sts

    def branch(self, test, body, orelse, sts):
        if self.rejects(test):
            return set()
        t = self.norm.test(test)
        v, d = self.truth(t)
        if self.uses(t):
            sts = self.mark(sts, used=True)
        if d and self.settles(body) and (len(orelse) == 1 and isinstance(orelse[0], ast.If) or self.settles(orelse)):
            d = False
        out = set()
        s2 = self.mark(sts, disp=d)
        if True in v:
            out |= self.block(body, self.mark(s2, free=d and reports(body)))
        if False in v:
            out |= self.block(orelse, self.mark(s2, free=d and reports(orelse))) if orelse else s2
        return out

    def settles(self, body):
        """the block only adjusts settings or complains: it produces nothing"""
        for s in body:
            if isinstance(s, (ast.Raise, ast.Pass, ast.Delete)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant,)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("print", "warnings.warn", "warn"):
                continue
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and all(
                    isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(t, ast.Name) and t.id in self.norm.params for t in s.targets):
                continue
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and (is_const(s.value) or all(
                    isinstance(t, ast.Name) and t.id not in self.norm.loads for t in s.targets)):
                continue
            if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant):
                continue
            if isinstance(s, ast.If) and self.settles(s.body) and self.settles(s.orelse):
                continue
            return False
        return True

    def run(self):
        self.loop = []
        end = self.block(self.f.node.body, {(False, False, False)})
        if end:
            self.exits.append((self.f.node, end))
        return self.exits


class Options:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.norms, self.memo = {}, {}

    def norm(self, f):
        if f.id not in self.norms:
            self.norms[f.id] = Norm(f)
        return self.norms[f.id]

    def subjects(self, f):
        out = {}
        nm = self.norm(f)
        for n in ast.walk(f.node):
            c = comparison(n, nm)
            if c is not None:
                out.setdefault(c[0], set()).update(c[1])
            table = key = None
            if isinstance(n, ast.Subscript):
                table, key = n.value, n.slice
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and n.args:
                table, key = n.func.value, n.args[0]
            if table is not None:
                if isinstance(table, ast.Name) and nm.single(table.id) is not None:
                    table = nm.single(table.id)
                if isinstance(table, ast.Dict) and values(table) and option_like(key, nm):
                    out.setdefault(nm.text(key), set()).update(values(table))
            if isinstance(n, ast.Match) and option_like(n.subject, nm):
                vs = {p.value.value for c in n.cases for p in ast.walk(c.pattern) if isinstance(p, ast.MatchValue) and is_const(p.value)}
                if vs:
                    out.setdefault(nm.text(n.subject), set()).update(vs)
        return out

    def strong(self, f, subject, depth=0):
        """f never completes normally when the option has none of its values"""
        k = (f.id, subject)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        nm = self.norm(f)
        if subject.split(".")[0].split("[")[0] not in ("self",) and subject not in nm.params:
            return False
        if subject in self.subjects(f) or depth < 3:
            r = Run(self, f, nm, subject)
            self.memo[k] = not any(sts for _, sts in r.run()) and subject in self.subjects(f)
        return self.memo[k]

    def callee_rejects(self, f, c, subject, nm):
        g, pre = None, 0
        if isinstance(c.func, ast.Attribute):
            v = c.func.value
            if isinstance(v, ast.Name) and v.id in ("self",) and f.cls is not None:
                g, pre = f.cls.lookup(c.func.attr), 1
                if g is not None and subject.startswith("self."):
                    if self.strong(g, subject, 1):
                        return True
            elif isinstance(v, (ast.Name, ast.Attribute)) and subject.startswith(ast.unparse(v) + "."):
                # obj.m() where the option is obj.x: every class with m and such an option rejects
                rest = "self" + subject[len(ast.unparse(v)):]
                ms = [h for h in self.prog.by_method.get(c.func.attr, ()) if rest in self.subjects(h)]
                if ms and all(self.strong(h, rest, 1) for h in ms):
                    return True
            elif isinstance(v, ast.Name) and v.id[:1].isupper() and v.id in self.prog.classes:
                g = self.prog.classes[v.id].lookup(c.func.attr)
        elif isinstance(c.func, ast.Name) and c.func.id in f.module.functions:
            g = f.module.functions[c.func.id]
        if g is None:
            return False
        ps = g.params[1:] if pre and g.kind != "static" else g.params
        for p, a in list(zip(ps, c.args)) + [(k.arg, k.value) for k in c.keywords]:
            if p and not isinstance(a, ast.Starred) and nm.text(a) == subject and self.strong(g, p, 1):
                return True
        return False

    def check(self, f):
        nm = self.norm(f)
        for subject, vals in sorted(self.subjects(f).items()):
            if subject.startswith(("sys.", "os.", "np.", "__")) or subject in ("__name__",):
                continue
            r = Run(self, f, nm, subject)
            exits = r.run()
            self.rep.count("options dispatched on")
            self.rep.count("option values compared", len(vals))
            bad = [(n, sts) for n, sts in exits if any(d and not u and not fr for d, u, fr in sts)]
            if bad and self.validated(f, subject):
                self.rep.count("options checked by the callers")
                continue
            if not bad:
                self.rep.count("options whose other values are rejected")
                continue
            n = bad[0][0]
            self.rep.violation("unsupported option", "option|%s|%s" % (f.qual, subject), "%s completes normally when %s is none of %s" % (
                f.qual, subject, ", ".join(sorted(map(repr, vals)))), "%s:%d" % (f.module.rel, n.lineno), f.qual)

    def validated(self, f, subject):
        """every constructor or caller of the method rejects the value before the method is reached"""
        if not subject.startswith("self.") or f.cls is None:
            return False
        # an attribute fixed when the object is built: __init__ or its setter rejects other values
        attr = subject[5:].split("[")[0].split(".")[0]
        for c in f.cls.mro:
            g = c.methods.get("setter:" + attr)
            if g is not None and len(g.params) > 1 and self.strong(g, g.params[1]):
                return True
        return False


# what the solvers, tensors and functions of the library support: (class or function, option) -> values, or methods reached by name
SUPPORTED = {
    ("LinearModelLearningSquareLoss", "error_estimation_type"): "leave_out k_fold residuals",
    ("LinearModelLearningSquareLoss", "regularization_type"): "l0 l1 l2",
    ("LinearModelLearningSquareLoss", "linear_solver"): "qr solve",
    ("LinearModelLearningDensityL2", "error_estimation_type"): "leave_out",
    ("SquareLossFunction", "error_type"): "absolute relative",
    ("CustomLossFunction", "error_type"): "absolute relative",
    ("DensityL2LossFunction", "error_type"): "risk",
    ("FunctionalTensorPrincipalComponentAnalysis", "projection_type"): "interpolation",
    ("TensorPrincipalComponentAnalysis", "subsampling"): "eim random",
    ("CanonicalTensorLearning", "initialization_type"): "greedy initial_guess mean mean_randomized ones random",
    ("TreeBasedTensorLearning", "initialization_type"): "canonical initial_guess mean mean_randomized ones random",
    ("TensorLearning", "model_selection_options['type']"): "cv_error test_error",
    ("TreeBasedTensorLearning", "rank_adaptation_options['type']"): "dmrg dmrg_low_rank",
    ("Truncator", "thresholding_type"): "hard soft",
    ("Truncator", "_hsvd_type"): "1 2",
    ("Tensorizer", "ordering_type"): "1 2",
    ("DiscreteRandomVariable.plot", "quantity"): "cdf icdf pdf",
    ("RandomVariable.plot", "quantity"): "cdf icdf pdf",
    ("magic_indices", "option"): "left left_right right",
    ("MultiIndices.sort", "mode"): "ascend descend",
    ("MultiIndices.sort_by_norm", "mode"): "ascend descend",
    ("MultiIndices.sort_by_weighted_norm", "mode"): "ascend descend",
    ("ModelSelection.complexity_tree_based_tensor", "c_type"): "grassman standard stiefel",
    ("multivariate_functions_benchmark", "case"): "anisotropic borehole canonical_rank_2 continuous corner_peak discontinuous field gaussian "
        "henon_heiles ishigami linear_additive linear_rank_one mixture oscillatory polynomial product_peak quadratic_rank_one sin_of_a_sum sobol",
}
# values of options that name the method that implements them
NAMED = {("TreeBasedTensorLearning", "_solve_dmrg_rank_adaptation"): "rank_adaptation_options['type'] = 'dmrg'",
         ("CanonicalTensorLearning", "_solve_greedy"): "algorithm = 'greedy'", ("TensorLearning", "_solve_standard"): "algorithm = 'standard'"}


def entries(doc):
    """parameters and attributes described in a docstring: {name: text}"""
    out, cur, ind = {}, None, 0
    for l in (doc or "").splitlines():
        m = re.match(r"^(\s*)([A-Za-z_][\w, ]*?) : (.*)$", l)
        if m:
            cur, ind = [x.strip() for x in m.group(2).split(",")], len(m.group(1))
            for c in cur:
                out[c] = out.get(c, "") + m.group(3) + " "
        elif cur and l.strip() and len(l) - len(l.lstrip()) > ind:
            for c in cur:
                out[c] += l.strip() + " "
        elif l.strip():
            cur = None
    return out


def handled(o):
    """{class name or function qual: {option: values compared}}"""
    out = {}
    for f in o.prog.all_funcs():
        for s, v in o.subjects(f).items():
            owner = f.qual
            if s.startswith("self.") and f.cls is not None:
                owner, s = f.cls.name, s[5:]
            elif "." in s.split("[")[0]:
                # the option of another object: belongs to whatever class stores it
                owner, s = (f.cls.name if f.cls is not None else f.qual), s.split(".", 1)[1]
            out.setdefault(owner, {}).setdefault(s, set()).update(map(str, v))
    return out


def values_handled(o, rep):
    have = handled(o)
    prog = o.prog

    def of(owner, option):
        vs = set(have.get(owner, {}).get(option, ()))
        if owner in prog.classes:
            for b in prog.classes[owner].mro[1:] + list(prog.classes[owner].all_subclasses()):
                vs |= have.get(b.name, {}).get(option, set())
        return vs

    # 1. the values of the library's options
    for (owner, option), vals in sorted(SUPPORTED.items()):
        short = owner.split(".")[0]
        c = prog.classes.get(short)
        f = None
        if c is None or "." in owner:
            f = next((g for g in prog.all_funcs() if g.qual == owner), None)
        obj = f or c
        if obj is None:
            rep.broken.append("%s is gone: its option %s is not checked" % (owner, option))
            continue
        got = of(owner, option)
        for v in vals.split():
            rep.count("supported option values checked")
            if v not in got:
                rep.violation("value not handled", "value|%s|%s|%s" % (owner, option, v), "%s does not handle the value %r of the option %s" % (owner, v, option),
                              "%s:%d" % (obj.module.rel, obj.node.lineno), owner)
    # a function that rejects unknown values lets the supported ones through
    for f in prog.all_funcs():
        for subject in o.subjects(f):
            option = subject[5:] if subject.startswith("self.") else subject
            owner = next(((w, op) for w, op in SUPPORTED if op == option and (w == f.qual or subject.startswith("self.") and f.cls is not None and (
                w == f.cls.name or w in prog.classes and f.cls in prog.classes[w].mro))), None)
            if owner is None or not o.strong(f, subject):
                continue
            for v in sorted(set(map(str, o.subjects(f)[subject])) & set(SUPPORTED[owner].split())):
                rep.count("supported values followed through a dispatch")
                if not any(sts for _, sts in Run(o, f, o.norm(f), subject, v).run()):
                    rep.violation("value not handled", "rejected|%s|%s|%s" % (f.qual, option, v), "%s rejects the value %r of the option %s" % (f.qual, v, option),
                                  "%s:%d" % (f.module.rel, f.node.lineno), f.qual)
    for (owner, m), what in sorted(NAMED.items()):
        c = prog.classes.get(owner)
        rep.count("option values implemented by a method")
        if c is None or c.lookup(m) is None:
            rep.violation("value not handled", "method|%s|%s" % (owner, m), "%s has no method %s: %s is not handled" % (owner, m, what),
                          "%s:%d" % (c.module.rel, c.node.lineno) if c else "", owner)
    # 2. the values that the documentation lists
    for obj in list(prog.classes.values()) + prog.all_funcs():
        name = getattr(obj, "qual", None) or obj.name
        for option, text in entries(ast.get_docstring(obj.node, clean=False)).items():
            vals = set(re.findall(r"['\"]([A-Za-z_]\w*)['\"]", text))
            owner = name if option in have.get(name, {}) else name.split(".")[0]
            if not vals or option not in have.get(owner, {}) and not (owner in prog.classes and of(owner, option)):
                continue
            if owner == name.split(".")[0] and owner != name and name.split(".")[-1] != "__init__":
                continue
            for v in sorted(vals - of(owner, option)):
                rep.violation("value not handled", "documented|%s|%s|%s" % (name, option, v), "%s documents the value %r of %s and does not handle it" % (
                    name, v, option), "%s:%d" % (obj.module.rel, obj.node.lineno), name)
            rep.count("documented option values checked", len(vals))
    # 3. the values that the library itself gives to options
    known = {}
    for owner, d in have.items():
        for option, vs in d.items():
            known.setdefault(option, set()).update(vs)
    extra = {"algorithm": {"greedy", "standard"}}
    for f in prog.all_funcs():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and is_const(n.value):
                for t in n.targets:
                    k = None
                    if isinstance(t, ast.Attribute):
                        k = t.attr
                    elif isinstance(t, ast.Subscript) and is_const(t.slice) and isinstance(t.value, ast.Attribute):
                        k = "%s[%r]" % (t.value.attr, t.slice.value)
                    if k in known:
                        rep.count("option values set by the library")
                        if n.value.value not in known[k] | extra.get(k, set()):
                            rep.violation("value not handled", "set|%s|%s|%s" % (f.qual, k, n.value.value), "%s sets %s to %r, which nothing handles" % (
                                f.qual, k, n.value.value), "%s:%d" % (f.module.rel, n.lineno), f.qual)


def p17(ctx, rep):
    o = Options(ctx.flat(), rep)
    for f in o.prog.all_funcs():
        o.check(f)
    values_handled(o, rep)
    interface.falls(ctx, rep)
    rep.floor("options dispatched on", 28)
    rep.floor("option values compared", 65)
    rep.floor("functions that return a value", 500)
    rep.floor("option values set by the library", 15)
    rep.floor("documented option values checked", 20)


RULES = {"P17": (p17, """Every function that compares an option (a parameter, a stored attribute or an entry of a dictionary of options) with
constant values is executed abstractly, path by path, under the hypothesis that the option has none of these values; helpers, validated
setters and asserts are followed.  A normal exit reached after the function has branched on the option, without the value being used as
data and without a message to the user, is reported.  Every value the library supports (table in the rule), documents, or gives itself to
an option is compared or named by a method somewhere in the class that owns the option.  A function that returns a value on one path
does not end without one on another.""",
                 ["a branch that prints or warns about the value counts as a rejection that the user sees",
                  "values that are used to build the name of a method (eval) are rejected by the failing lookup"])}
TECHNIQUE = {"P17": "path-sensitive abstract execution under a complement hypothesis, and value coverage of option dispatches against documentation and table"}
NOTE = {"P17": "options are strings, and integers named as types; flags tested by truth value are not options"}
