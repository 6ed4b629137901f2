#!/usr/bin/env python3
"""refactor.py SRC DST KIND : copy the package SRC/tensap to DST/tensap with a behaviour-preserving rewrite.

Used to test that the checks stay quiet on code that does the same thing written differently.
Kinds: rename, forwhile, invert, temps, listcomp, ret, noop, kwargs, extract, all."""
import ast
import builtins
import os
import random
import shutil
import sys
import symtable


def locals_of(fn):
    """names a function (no nested function, no global/nonlocal) assigns, parameters excluded"""
    params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    params |= {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
    out = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)):
            return None, params
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.ExceptHandler)):
            for a in getattr(n, "names", []):
                out.discard((a.asname or a.name).split(".")[0])
    imported = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            imported |= {(a.asname or a.name).split(".")[0] for a in n.names}
        if isinstance(n, ast.ExceptHandler) and n.name:
            imported.add(n.name)
    return out - params - imported, params


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def blocks(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def rename(tree):
    for fn in functions(tree):
        loc, _ = locals_of(fn)
        if not loc:
            continue
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + "_loc"


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            return ast.If(t, n.orelse, n.body)
        return n


def forwhile(tree):
    """for i in range(..) / over anything -> while over an explicit counter (bodies without continue)"""
    cnt = [0]

    class T(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            if n.orelse or any(isinstance(x, ast.Continue) for b in n.body for x in ast.walk(b)):
                return n
            it = n.iter
            if not (isinstance(it, ast.Call) and ast.unparse(it.func) in ("range", "np.arange") and len(it.args) == 1):
                return n
            cnt[0] += 1
            k, s = "_k%d" % cnt[0], "_n%d" % cnt[0]
            pre = [ast.Assign([ast.Name(s, ast.Store())], it.args[0]), ast.Assign([ast.Name(k, ast.Store())], ast.Constant(0))]
            body = [ast.Assign([n.target], ast.Name(k, ast.Load())),
                    ast.AugAssign(ast.Name(k, ast.Store()), ast.Add(), ast.Constant(1))] + n.body
            return pre + [ast.While(ast.Compare(ast.Name(k, ast.Load()), [ast.Lt()], [ast.Name(s, ast.Load())]), body, [])]
    return T().visit(tree)


def temps(tree):
    """x = f(g(a)) -> t = g(a); x = f(t); return e -> r = e; return r"""
    cnt = [0]

    def do(b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                cnt[0] += 1
                v = "_r%d" % cnt[0]
                out += [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]
                continue
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and s.value.args and isinstance(s.value.args[0], ast.Call) \
                    and not isinstance(s.value.func, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute)) \
                    and not any(isinstance(x, ast.Call) for x in ast.walk(s.value.func)):
                cnt[0] += 1
                v = "_t%d" % cnt[0]
                out.append(ast.Assign([ast.Name(v, ast.Store())], s.value.args[0]))
                s.value.args[0] = ast.Name(v, ast.Load())
            if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and cnt[0] % 2:
                cnt[0] += 1
                v = "_c%d" % cnt[0]
                out.append(ast.Assign([ast.Name(v, ast.Store())], s.test))
                s.test = ast.Name(v, ast.Load())
            cnt[0] += 1
            out.append(s)
        b[:] = out
    for fn in functions(tree):
        for n, f, b in list(blocks(fn)):
            if isinstance(n, ast.If) and f == "orelse" and len(b) == 1 and isinstance(b[0], ast.If):
                continue
            do(b)
    return tree


def listcomp(tree):
    """x = [e for v in it] -> x = []; for v in it: x.append(e)"""
    cnt = [0]
    for fn in functions(tree):
        for n, f, b in list(blocks(fn)):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 \
                        and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    g = s.value.generators[0]
                    names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    others = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id in names]
                    inner = {id(x) for x in ast.walk(s.value)}
                    if all(id(x) in inner for x in others) and not g.is_async:
                        cnt[0] += 1
                        v = "_l%d" % cnt[0]
                        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
                        for c in reversed(g.ifs):
                            body = [ast.If(c, body, [])]
                        out += [ast.Assign([ast.Name(v, ast.Store())], ast.List([], ast.Load())),
                                ast.For(g.target, g.iter, body, []),
                                ast.Assign(s.targets, ast.Name(v, ast.Load()))]
                        continue
                out.append(s)
            b[:] = out
    return tree


def ret(tree):
    """if c: return a / rest -> if c: return a / else: rest (and the converse)"""
    for fn in functions(tree):
        for n, f, b in list(blocks(fn)):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                    break
                if isinstance(s, ast.If) and s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                    b[i + 1:i + 1] = s.orelse
                    s.orelse = []
                    break
    return tree


def noop(tree):
    for fn in functions(tree):
        for n, f, b in list(blocks(fn)):
            if isinstance(n, ast.If) and f == "orelse" and len(b) == 1 and isinstance(b[0], ast.If):
                continue
            i = 1 if f == "body" and n is fn and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
            if not b[i:] or isinstance(b[i], (ast.Import, ast.ImportFrom)):
                continue
            b.insert(i, ast.parse("_unused = None").body[0] if len(b) % 2 else ast.Pass())
            if n is fn and f == "body":
                b.insert(i, ast.parse("assert True").body[0])
    return tree


def reads_writes(stmts):
    r, w = set(), set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name):
                (w if isinstance(n.ctx, (ast.Store, ast.Del)) else r).add(n.id)
                if isinstance(n.ctx, ast.Store):
                    pass
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                r.add(n.target.id)
    return r, w


def extract(tree, rng, mod_names):
    """move some statements of a function body to a new module-level function"""
    new = []
    cnt = [0]
    top = [n for x in tree.body for n in ([x] if isinstance(x, ast.FunctionDef) else
                                          [m for m in x.body if isinstance(m, ast.FunctionDef)] if isinstance(x, ast.ClassDef) else [])]
    for fn in top:
        loc, params = locals_of(fn)
        if loc is None or any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(fn)):
            continue
        scope = loc | params
        body = fn.body
        start = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        best = None
        for b in [body] + [bb for n, f, bb in blocks(fn) if bb is not body]:
            lo = start if b is body else 0
            ok = [not any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Import, ast.ImportFrom,
                                         ast.Global, ast.Nonlocal, ast.Delete)) or
                          (isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__"))
                          for x in ast.walk(s)) for s in b]
            runs, i = [], lo
            while i < len(b):
                j = i
                while j < len(b) and ok[j]:
                    j += 1
                if j - i >= 2:
                    runs.append((i, j))
                i = max(j, i + 1)
            if runs and (best is None or rng.random() < 0.3):
                i, j = runs[rng.randrange(len(runs))]
                L = min(j - i, rng.randrange(2, 7))
                i = rng.randrange(i, j - L + 1)
                best = (b, i, i + L)
        if best is None:
            continue
        b, i, j = best
        sel = b[i:j]
        r, w = reads_writes(sel)
        comp = set()
        for s in sel:
            for n in ast.walk(s):
                if isinstance(n, ast.comprehension):
                    comp |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        # definitely assigned at the top level of the selection
        definite = set()
        for s in sel:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    definite |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        w = w - comp
        if not w <= definite:
            continue
        # inputs: names read before being assigned inside
        ins, done = [], set()
        for s in sel:
            rr, _ = reads_writes([s])
            for x in sorted(rr):
                if x in scope and x not in done and x not in ins and x not in comp:
                    ins.append(x)
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                done |= {x.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) for x in ast.walk(t)
                         if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if comp & scope & set(ins):
            continue
        # every input must be assigned for sure before: parameters or top-level assignments before the block in the same list or outer
        pre = set(params)
        if b is body:
            for s in b[:i]:
                if isinstance(s, ast.Assign):
                    pre |= {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if isinstance(s, ast.AugAssign):
                    pass
        else:
            pre |= {x.id for s in b[:i] if isinstance(s, ast.Assign) for t in s.targets for x in ast.walk(t)
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            # assigned at the top of the function, before the statement that holds this block
            for s in body:
                if any(x is b[0] for x in ast.walk(s)):
                    break
                if isinstance(s, ast.Assign):
                    pre |= {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if not set(ins) <= pre:
            continue
        if "self" in w:
            continue
        rest = {x.id for n in ast.walk(fn) if n not in sel for x in ast.walk(n) if False}
        inner = {id(x) for s in sel for x in ast.walk(s)}
        used = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inner and isinstance(x.ctx, ast.Load)}
        in_loop = b is not body
        outs = sorted(x for x in w if x in used or in_loop)
        if any(ast.unparse(s).find("__") >= 0 for s in sel):
            continue
        cnt[0] += 1
        name = "_part_%s_%d" % (fn.name.strip("_"), cnt[0])
        if name in mod_names:
            continue
        helper = ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), list(sel), [], None)
        helper.type_params = []
        call = ast.Call(ast.Name(name, ast.Load()), [ast.Name(x, ast.Load()) for x in ins], [])
        if not outs:
            rep = ast.Expr(call)
        elif len(outs) == 1:
            helper.body.append(ast.Return(ast.Name(outs[0], ast.Load())))
            rep = ast.Assign([ast.Name(outs[0], ast.Store())], call)
        else:
            helper.body.append(ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in outs], ast.Load())))
            rep = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in outs], ast.Store())], call)
        b[i:j] = [rep]
        new.append(helper)
    tree.body += new
    return tree


def main():
    src, dst, kind = sys.argv[1:4]
    rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 0)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.ipynb", "doc*"))
    nfiles = 0
    for d, _, fs in os.walk(os.path.join(dst, "tensap")):
        for f in fs:
            if not f.endswith(".py") or f == "__init__.py":
                continue
            p = os.path.join(d, f)
            tree = ast.parse(open(p).read())
            ks = ["rename", "forwhile", "listcomp", "temps", "ret", "invert", "noop", "extract"] if kind == "all" else [kind]
            for k in ks:
                if k == "rename":
                    rename(tree)
                elif k == "invert":
                    tree = Invert().visit(tree)
                elif k == "forwhile":
                    tree = forwhile(tree)
                elif k == "temps":
                    temps(tree)
                elif k == "listcomp":
                    listcomp(tree)
                elif k == "ret":
                    ret(tree)
                elif k == "noop":
                    noop(tree)
                elif k == "extract":
                    ast.fix_missing_locations(tree)
                    extract(tree, rng, {n.name for n in tree.body if hasattr(n, "name")})
            ast.fix_missing_locations(tree)
            s = ast.unparse(tree)
            compile(s, p, "exec")
            open(p, "w").write(s + "\n")
            nfiles += 1
    print(nfiles, "files rewritten:", kind)


if __name__ == "__main__":
    main()
