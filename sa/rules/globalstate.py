"""P07 sources of randomness, P08 process-wide state, P09 shared mutable state, P24 optional dependencies."""
import ast
import os
import sys
from ..program import AnalysisBroken
from ..resolve import Units, Scope, parents, qual, loc, module_nodes, own_walk
from .effects import public

STDLIB = set(getattr(sys, "stdlib_module_names", ())) | {"__future__"}


def calls(units):
    for u in units.units:
        for n in units.nodes(u):
            if isinstance(n, ast.Call):
                yield u, n, u[3].entity(n.func)


def has_prefix(d, table):
    return any(d == t or d.startswith(t + ".") for t in table)


# ---------------------------------------------------------------- P07
ENTROPY = ("random", "secrets", "uuid", "os.urandom", "os.getpid", "os.getrandom", "tensorflow.random", "torch.rand",
           "torch.randn", "torch.randperm", "torch.randint")
RESEED = ("numpy.random.seed", "numpy.random.set_state", "numpy.random.mtrand.seed", "numpy.random.mtrand.set_state",
          "numpy.random.mtrand._rand.seed", "numpy.random.mtrand._rand.set_state", "numpy.random.set_bit_generator",
          "random.seed", "random.setstate")
# constructors of separate generators: reproducible only when seeded from numpy's global generator (or by an argument)
GENERATORS = {"numpy.random.default_rng": ("seed",), "numpy.random.RandomState": ("seed",), "numpy.random.SeedSequence": ("entropy",),
              "numpy.random.PCG64": ("seed",), "numpy.random.MT19937": ("seed",), "numpy.random.Philox": ("seed",),
              "numpy.random.SFC64": ("seed",), "numpy.random.Generator": ("bit_generator",), "random.Random": ("x",),
              "random.SystemRandom": ()}
# samplers of scipy that make their own generator unless one is passed
OWN_RNG = {"scipy.stats.qmc.LatinHypercube": ("seed", "rng"), "scipy.stats.qmc.Sobol": ("seed", "rng"),
           "scipy.stats.qmc.Halton": ("seed", "rng"), "scipy.stats.qmc.PoissonDisk": ("seed", "rng"),
           "scipy.stats.qmc.MultinomialQMC": ("seed", "rng"), "scipy.stats.qmc.MultivariateNormalQMC": ("seed", "rng"),
           "scipy.stats.bootstrap": ("random_state", "rng"), "scipy.sparse.linalg.svds": ("v0", "random_state", "rng"),
           "scipy.sparse.linalg.eigs": ("v0", "rng"), "scipy.sparse.linalg.eigsh": ("v0", "rng"),
           "scipy.sparse.random": ("random_state", "rng"), "scipy.sparse.random_array": ("random_state", "rng")}
TIME = ("time", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "os.getpid", "os.times")
UNORDERED = ("os.listdir", "os.scandir", "glob.glob")


def seed_args(call, names):
    out = [a for a in call.args if not isinstance(a, ast.Starred)][:1] if names else []
    out += [k.value for k in call.keywords if k.arg in names]
    return out


def p07(ctx, rep):
    us = ctx.units()
    for u, n, ent in calls(us):
        rep.count("calls resolved for sources of randomness")
        d = ent[1] if ent is not None and ent[0] == "ext" else None
        if d is None:
            continue
        m, f, root, sc = u
        where = qual(u)
        if d.startswith("numpy.random."):
            rep.count("draws from numpy.random")
            rep.sample("%s %s: %s" % (loc(u, n), where, d))
        if has_prefix(d, RESEED):
            rep.violation("reseed", "%s|%s" % (where, d), "%s resets the state of a global generator (%s)" % (where, d), loc(u, n), where)
            continue
        if d in GENERATORS or d in OWN_RNG:
            rep.count("separate generators")
            names = GENERATORS.get(d, OWN_RNG.get(d, ()))
            args = seed_args(n, names) if d in GENERATORS else [k.value for k in n.keywords if k.arg in names]
            args = [a for a in args if not (isinstance(a, ast.Constant) and a.value is None)]
            why = None
            if not args:
                why = "is not seeded"
            elif f is None or persistent(u, n):
                why = "outlives the call that creates it, so its state is not reset by seeding numpy"
            else:
                for a in args:
                    w = entropy_in(sc, f, a)
                    if w:
                        why = "is seeded from %s" % w
            if why:
                rep.violation("generator", "%s|%s" % (where, d), "%s creates a generator (%s) that %s" % (where, d, why), loc(u, n), where)
            else:
                rep.sample("%s %s: %s seeded from the global generator" % (loc(u, n), where, d))
            continue
        if has_prefix(d, ENTROPY):
            rep.violation("entropy", "%s|%s" % (where, d), "%s draws from %s, which seeding numpy does not control" % (where, d), loc(u, n), where)
        if has_prefix(d, UNORDERED):
            rep.violation("entropy", "%s|%s" % (where, d), "%s depends on the order of %s" % (where, d), loc(u, n), where)
    # hash- or address-dependent orders
    for u in us.units:
        par = None
        for n in us.nodes(u):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("id", "hash") and n.func.id not in u[3].locals:
                par = par or parents(u[2])
                rep.count("uses of id and hash")
                p = par.get(n)
                if isinstance(p, (ast.Subscript, ast.Index)) or (isinstance(p, ast.Compare)) or \
                        (u[1] is not None and u[1].name in ("__hash__", "__deepcopy__", "__eq__", "__repr__")):
                    continue
                if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ("get", "add", "pop"):
                    continue
                rep.violation("address", "%s|%s" % (qual(u), n.func.id), "%s computes with %s(), which differs from run to run" % (
                    qual(u), n.func.id), loc(u, n), qual(u))
    # references to foreign sources without a call (aliases, callbacks)
    for u in us.units:
        for n in us.nodes(u):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                d = u[3].dotted(n)
                if d and has_prefix(d, ("random", "secrets", "uuid")) and "." in d:
                    rep.violation("entropy", "%s|%s" % (qual(u), d), "%s uses %s, which seeding numpy does not control" % (qual(u), d), loc(u, n), qual(u))
    rep.floor("draws from numpy.random", 20)


def persistent(u, call):
    """the created generator is stored on an object, in a module or class, or is a default value"""
    m, f, root, sc = u
    par = parents(root)
    n = call
    names = set()
    while n in par:
        p = par[n]
        if isinstance(p, ast.arguments):
            return True
        if isinstance(p, (ast.Assign, ast.AnnAssign)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            for t in ts:
                if isinstance(t, ast.Name) and t.id not in sc.globals:
                    names.add(t.id)
                elif isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(t, ast.Name):
                    return True
            break
        if isinstance(p, ast.stmt):
            break
        n = p
    for x in ast.walk(root):
        if isinstance(x, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in x.targets) \
                and isinstance(x.value, ast.Name) and x.value.id in names:
            return True
    return False


def entropy_in(sc, f, e, depth=0):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            d = sc.dotted(n.func)
            if d and (has_prefix(d, TIME) or has_prefix(d, ENTROPY)):
                return d
            if isinstance(n.func, ast.Name) and n.func.id in ("id", "hash"):
                return n.func.id
            if d in GENERATORS and not [a for a in seed_args(n, GENERATORS[d]) if not (isinstance(a, ast.Constant) and a.value is None)]:
                return "an unseeded %s" % d
        if isinstance(n, ast.Name) and depth < 3 and n.id in sc.assigned:
            w = entropy_in(sc, f, sc.assigned[n.id], depth + 1)
            if w:
                return w
    return None


# ---------------------------------------------------------------- P08
SETTERS = ("numpy.seterr", "numpy.seterrcall", "numpy.seterrobj", "numpy.set_printoptions", "numpy.set_string_function",
           "numpy.setbufsize", "numpy.set_numeric_ops", "numpy.random.seed", "numpy.random.set_state",
           "numpy.random.set_bit_generator", "scipy.special.seterr", "warnings.filterwarnings", "warnings.simplefilter",
           "warnings.resetwarnings", "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.path.insert", "sys.path.append",
           "sys.path.extend", "sys.path.remove", "sys.path.pop", "sys.path.clear", "sys.path.reverse", "sys.path.sort",
           "sys.modules.pop", "sys.modules.update", "sys.modules.clear", "sys.set_int_max_str_digits", "sys.setswitchinterval",
           "os.chdir", "os.fchdir", "os.umask", "os.putenv", "os.unsetenv", "os.environ.update", "os.environ.setdefault",
           "os.environ.pop", "os.environ.clear", "os.environ.popitem", "os.nice", "os.system", "os.remove", "os.unlink", "os.rmdir",
           "os.mkdir", "os.makedirs", "os.rename", "os.replace", "os.removedirs", "os.truncate", "os.symlink", "os.link", "os.chmod",
           "os.chown", "os.kill", "os.killpg", "os.setpriority", "os.sched_setaffinity", "shutil", "subprocess", "tempfile",
           "numpy.save", "numpy.savez",
           "numpy.savez_compressed", "numpy.savetxt", "numpy.memmap", "pickle.dump", "locale.setlocale", "gc.disable", "gc.enable",
           "gc.set_threshold", "gc.freeze", "signal.signal", "signal.alarm", "signal.setitimer", "atexit.register",
           "logging.basicConfig", "logging.disable", "logging.captureWarnings", "logging.setLoggerClass", "logging.root.setLevel",
           "faulthandler.enable", "threading.stack_size", "threading.setprofile", "threading.settrace", "multiprocessing.set_start_method",
           "matplotlib.use", "matplotlib.rc", "matplotlib.rcdefaults", "matplotlib.rcParams.update", "matplotlib.pyplot.ion",
           "matplotlib.pyplot.ioff", "matplotlib.pyplot.rc", "matplotlib.pyplot.rcParams.update", "matplotlib.pyplot.style.use",
           "matplotlib.style.use", "matplotlib.pyplot.switch_backend", "tensorflow.config", "tensorflow.random.set_seed",
           "tensorflow.keras.backend.set_floatx", "torch.set_default_dtype", "torch.set_num_threads", "torch.manual_seed",
           "random.seed", "random.setstate", "decimal.setcontext", "socket.setdefaulttimeout", "linecache.clearcache",
           "fpectl.turnon_sigfpe", "mpmath.mp.dps", "builtins.setattr.module")
SCOPED = {"warnings.filterwarnings": "warnings.catch_warnings", "warnings.simplefilter": "warnings.catch_warnings",
          "warnings.resetwarnings": "warnings.catch_warnings"}
STATE_VARS = ("os.environ", "sys.path", "sys.modules", "warnings.filters", "matplotlib.rcParams", "matplotlib.pyplot.rcParams",
              "sys.stdout", "sys.stderr", "sys.stdin", "sys.argv", "sys.meta_path", "sys.flags")
ENV_OK = "TF_CPP_MIN_LOG_LEVEL"
INPLACE = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "sort", "reverse", "add",
           "discard", "fill", "put", "itemset", "resize", "__setitem__", "appendleft", "popleft"}


def opens_for_writing(call):
    mode = None
    if len(call.args) > 1:
        mode = call.args[1]
    for k in call.keywords:
        if k.arg == "mode":
            mode = k.value
    if mode is None:
        return False
    return not (isinstance(mode, ast.Constant) and isinstance(mode.value, str) and not set(mode.value) & set("wax+"))


def restored(u, n, d):
    """the call stands in a with block that restores the state on exit"""
    ctxm = SCOPED.get(d)
    par = parents(u[2])
    p = n
    while p in par:
        p = par[p]
        if isinstance(p, ast.With) and ctxm:
            for it in p.items:
                if isinstance(it.context_expr, ast.Call) and u[3].dotted(it.context_expr.func) == ctxm:
                    return True
    return False


def mutable_expr(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        return n not in ("tuple", "frozenset", "int", "float", "str", "bool", "finfo", "iinfo", "namedtuple", "range", "compile",
                         "getLogger", "sqrt", "exp", "log", "TypeVar", "len", "max", "min", "sum", "abs", "round", "bytes", "slice",
                         "float64", "int64", "dtype", "property", "staticmethod", "classmethod", "partial", "attrgetter", "itemgetter")
    return False


def p08(ctx, rep):
    us = ctx.units()
    for u, n, ent in calls(us):
        rep.count("calls resolved")
        where = qual(u)
        d = ent[1] if ent is not None and ent[0] == "ext" else None
        if d is not None:
            rep.count("calls to external functions")
            if has_prefix(d, SETTERS) and not restored(u, n, d):
                if d.startswith("os.environ.") and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == ENV_OK:
                    continue
                rep.violation("process state", "%s|%s" % (where, d), "%s changes process-wide state by calling %s" % (where, d), loc(u, n), where)
            if d in ("builtins.open", "io.open", "os.open", "codecs.open") and (d == "os.open" or opens_for_writing(n)):
                rep.violation("file", "%s|%s" % (where, d), "%s opens a file for writing" % where, loc(u, n), where)
            if d in ("builtins.setattr", "builtins.delattr") and n.args:
                t = u[3].entity(n.args[0])
                if t is not None and t[0] in ("ext", "module", "class"):
                    rep.violation("module state", "%s|setattr %s" % (where, tname(t)), "%s sets an attribute of %s" % (where, tname(t)), loc(u, n), where)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("tofile", "savefig") and d is None and n.func.attr == "tofile":
            rep.violation("file", "%s|tofile" % where, "%s writes a file" % where, loc(u, n), where)
    n_st = 0
    for u in us.units:
        m, f, root, sc = u
        for n in us.nodes(u):
            ts = []
            if isinstance(n, ast.Assign):
                ts = list(n.targets)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                ts = [n.target] if getattr(n, "value", None) is not None else []
            elif isinstance(n, ast.Delete):
                ts = list(n.targets)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                ts = [n.target]
            elif isinstance(n, ast.With):
                ts = [i.optional_vars for i in n.items if i.optional_vars is not None]
            flat = []
            while ts:
                t = ts.pop()
                if isinstance(t, (ast.Tuple, ast.List)):
                    ts += t.elts
                elif isinstance(t, ast.Starred):
                    ts.append(t.value)
                else:
                    flat.append(t)
            for t in flat:
                n_st += 1
                if f is not None and isinstance(t, ast.Name) and t.id in sc.globals:
                    rep.violation("module state", "%s|global %s" % (qual(u), t.id), "%s rebinds the module variable %s" % (qual(u), t.id), loc(u, n), qual(u))
                elif isinstance(t, ast.Attribute):
                    b = sc.entity(t.value)
                    whole = sc.dotted(t)
                    if b is not None and b[0] in ("ext", "module", "class") or whole in STATE_VARS:
                        rep.violation("module state", "%s|%s.%s" % (qual(u), tname(b), t.attr), "%s assigns %s, an attribute shared by the whole process" % (
                            qual(u), ast.unparse(t)), loc(u, n), qual(u))
                    if isinstance(t.value, ast.Attribute) and t.value.attr == "__class__":
                        rep.violation("module state", "%s|__class__.%s" % (qual(u), t.attr), "%s assigns %s, an attribute of the class" % (
                            qual(u), ast.unparse(t)), loc(u, n), qual(u))
                    if f is not None and f.kind == "class" and isinstance(t.value, ast.Name) and f.params and t.value.id == f.params[0]:
                        rep.violation("module state", "%s|cls.%s" % (qual(u), t.attr), "%s assigns %s, an attribute of the class" % (
                            qual(u), ast.unparse(t)), loc(u, n), qual(u))
                elif isinstance(t, ast.Subscript):
                    b = sc.dotted(t.value)
                    if b in STATE_VARS:
                        if b == "os.environ" and isinstance(t.slice, ast.Constant) and t.slice.value == ENV_OK:
                            rep.count("documented environment variable")
                            continue
                        rep.violation("process state", "%s|%s[]" % (qual(u), b), "%s assigns %s" % (qual(u), ast.unparse(t)), loc(u, n), qual(u))
    rep.counts["assignments examined"] = n_st
    # module-level and class-level containers modified by functions (through any alias or callee)
    eng, fs = ctx.effects(True)
    for (root, path, fl, fid), ef in sorted(eng.g_effects.items(), key=lambda kv: str(kv[0])):
        if not shared_mutable(ctx.prog, root, path):
            continue
        rep.violation("shared object", "%s|%s|%s" % (root, ".".join(path), fid.split(":")[-1]),
                      "%s modifies %s, which the whole process shares (%s)" % (fid.split(":")[-1], ".".join((root,) + path), ef.desc), ef.loc,
                      fid.split(":")[-1], ef.chain)
    for cl, attr, f, ef in class_level_writes(ctx.prog, eng, fs):
        rep.violation("shared object", "%s|class attribute %s" % (f.qual, attr), "%s modifies the class attribute %s.%s (%s)" % (
            f.qual, cl, attr, ef.desc), ef.loc, f.qual, ef.chain)
    rep.counts["functions analysed for writes to shared objects"] = len(fs)
    rep.floor("calls to external functions", 1500)
    rep.floor("assignments examined", 3000)
    rep.floor("documented environment variable", 0)


def tname(t):
    if t is None:
        return "?"
    return t[1].name if t[0] == "class" else str(t[1])


def shared_mutable(prog, root, path):
    """is this a module variable, class attribute or default value that holds something mutable?"""
    if "=" in root:
        fid, n = root.split("=", 1)
        f = prog.funcs.get(fid)
        return f is not None and n in f.defaults and mutable_expr(f.defaults[n])
    if root in prog.classes:
        a = path[0] if path else None
        for c in prog.classes[root].mro:
            if a in c.class_attrs:
                return mutable_expr(c.class_attrs[a])
        return False
    mod, _, n = root.rpartition(".")
    m = prog.modules.get(mod)
    if m is not None and n in m.globals:
        return mutable_expr(m.globals[n])
    return False


def instance_assigned(prog, cls):
    """attributes every instance gets of its own: assigned on self in a constructor of the family"""
    out = set()
    for c in cls.mro:
        f = c.methods.get("__init__")
        if f is None or not f.params:
            continue
        for n in ast.walk(f.node):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == f.params[0] and isinstance(x.ctx, ast.Store):
                        out.add(x.attr)
    return out


def class_level_writes(prog, eng, fs):
    for f in fs:
        if f.cls is None or f.kind != "method" or f.id not in eng.summaries:
            continue
        attrs = {}
        for c in f.cls.mro:
            for a, v in c.class_attrs.items():
                if mutable_expr(v):
                    attrs.setdefault(a, c.name)
        if not attrs:
            continue
        own = instance_assigned(prog, f.cls)
        for (i, path, fl), ef in eng.summaries[f.id].effects.items():
            if i == 0 and path and path[0] in attrs and path[0] not in own:
                yield attrs[path[0]], path[0], f, ef


# ---------------------------------------------------------------- P09
def stateless(prog, e, sc):
    """the expression builds an object of a class that has no state at all"""
    if not isinstance(e, ast.Call):
        return False
    r = sc.entity(e.func)
    if r is None or r[0] != "class":
        return False
    for c in r[1].family():
        if c.class_attrs:
            return False
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) \
                        and f.params and n.value.id == f.params[0]:
                    return False
    return True


CACHES = ("functools.lru_cache", "functools.cache", "functools.cached_property")


def p09(ctx, rep):
    prog = ctx.prog
    eng, fs = ctx.effects(True)
    scopes = {m.name: Scope(prog, m) for m in prog.modules.values()}
    shared = set()
    for f in prog.all_funcs():
        for n, d in f.defaults.items():
            rep.count("default values examined")
            if mutable_expr(d) and not stateless(prog, d, scopes[f.module.name]):
                shared.add(f.id + "=" + n)
                rep.count("mutable default values")
                rep.sample("%s: default of %s is %s" % (f.qual, n, ast.unparse(d)[:40]))
        for dec in f.node.decorator_list:
            e = dec.func if isinstance(dec, ast.Call) else dec
            d = scopes[f.module.name].dotted(e)
            if d in CACHES[:2]:
                rep.violation("cached result", "%s|%s" % (f.qual, d), "%s returns the same object to every caller (%s)" % (f.qual, d), f.loc, f.qual)
    for c in prog.classes.values():
        own = instance_assigned(prog, c)
        for a, v in c.class_attrs.items():
            rep.count("class attributes examined")
            if mutable_expr(v) and a not in own and not a.startswith("__") and not stateless(prog, v, scopes[c.module.name]):
                if only_read(prog, c, a):
                    rep.count("class-level constants never handed out")
                    continue
                rep.violation("class attribute", "%s.%s" % (c.name, a), "%s.%s is one mutable object shared by all instances" % (c.name, a),
                              "%s:%d" % (c.module.rel, v.lineno), c.name)
    # defaults: kept, returned or modified
    for f in prog.all_funcs():
        names = [n for n in f.defaults if f.id + "=" + n in shared]
        if not names:
            continue
        s = eng.summaries.get(f.id)
        if s is None:
            raise AnalysisBroken("no summary for %s" % f.qual)
        pn = list(f.params) + list(f.kwonly)
        for n in names:
            i = pn.index(n)
            how = None
            for (j, path, fl), ef in s.effects.items():
                if j == i:
                    how = ("modified (%s)" % ef.desc, ef.loc)
            if how is None:
                for v in ([s.ret] if s.ret is not None else []):
                    if any(o.is_param and o.root[1] == i and not o.path for x in flat(v) for o in x.objs):
                        how = ("returned", f.loc)
            if how is None:
                for (o, fl), v in s.out.items():
                    if fl.startswith("#"):
                        continue
                    if any(x.is_param and x.root[1] == i and not x.path for w in flat(v) for x in w.objs):
                        how = ("stored in %s" % fl, f.loc)
            if how:
                rep.violation("default", "%s|%s" % (f.qual, n), "the mutable default of %s of %s is shared by all calls and is %s" % (n, f.qual, how[0]),
                              how[1], f.qual)
    # objects of the process stored in, or returned as part of, what is handed out
    for f in fs:
        s = eng.summaries.get(f.id)
        if s is None:
            continue
        rep.count("functions examined for escaping shared objects")
        for o, fl, v in [(None, "result", s.ret)] + [(o, fl, v) for (o, fl), v in s.out.items()]:
            if v is None or fl.startswith(("#", "@", "~")):
                continue
            for x in flat(v):
                for g in x.objs:
                    if g.root[0] == "g" and shared_mutable(prog, g.root[1], g.path):
                        if "=" in g.root[1] and g.root[1] not in shared:
                            continue
                        if "=" in g.root[1]:
                            continue      # reported for the function that owns the default
                        rep.violation("escape", "%s|%s" % (f.qual, ".".join((g.root[1],) + g.path)), "%s hands out %s, which every other object shares" % (
                            f.qual, ".".join((g.root[1],) + g.path)), f.loc, f.qual)
    rep.floor("default values examined", 200)
    rep.floor("class attributes examined", 2)
    rep.floor("functions examined for escaping shared objects", 700)


def flat(v):
    yield v
    for e in v.elts or ():
        for x in flat(e):
            yield x


def only_read(prog, c, a):
    """the class attribute is private to the class and only indexed, iterated or tested"""
    if not (a.startswith("_") or a.isupper()):
        return False
    for m in prog.modules.values():
        par = None
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr == a:
                par = par or parents(m.tree)
                p = par.get(n)
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    return False
                if isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, ast.Load):
                    continue
                if isinstance(p, (ast.Compare, ast.For, ast.comprehension)):
                    continue
                if isinstance(p, ast.Attribute) and p.attr in ("get", "items", "keys", "values", "index", "count"):
                    continue
                return False
    return True


# ---------------------------------------------------------------- P24
OPTIONAL_FEATURES = {
    # package -> what may need it: public operations by (class or None, name pattern)
    "plot": ("matplotlib", "networkx", "seaborn"),
}


def required(prog):
    """packages the distribution declares as required (setup.py), besides the standard library"""
    p = os.path.join(prog.repo, "setup.py")
    if not os.path.exists(p):
        raise AnalysisBroken("setup.py not found")
    for n in ast.walk(ast.parse(open(p, encoding="utf-8").read())):
        if isinstance(n, ast.keyword) and n.arg == "install_requires":
            return {x.split("=")[0].split(">")[0].split("<")[0].strip() for x in ast.literal_eval(n.value)}
    raise AnalysisBroken("install_requires not found in setup.py")


def import_targets(prog, module, n):
    if isinstance(n, ast.Import):
        return [a.name for a in n.names]
    if isinstance(n, ast.ImportFrom):
        return [prog._abs(module, n)]
    return []


def guarded(n, par):
    """inside the body of a try whose handlers catch ImportError"""
    c, p = n, par.get(n)
    while p is not None:
        if isinstance(p, ast.Try) and any(c is x for x in p.body):
            for h in p.handlers:
                t = h.type
                names = [ast.unparse(x).split(".")[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])] if t is not None else ["Exception"]
                if set(names) & {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}:
                    if not any(isinstance(x, ast.Raise) for x in h.body):
                        return True
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            return False
        c, p = p, par.get(p)
    return False


def unconditional(n, par, root):
    """executed whenever the function is called (not inside a branch, loop, handler or nested function)"""
    c, p = n, par.get(n)
    while p is not None and p is not root:
        if isinstance(p, (ast.If, ast.IfExp)) and c is not p.test:
            return False
        if isinstance(p, (ast.For, ast.While)) and any(c is x for x in p.body + p.orelse):
            return False
        if isinstance(p, (ast.ExceptHandler, ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp)):
            return False
        if isinstance(p, ast.BoolOp) and c is not p.values[0]:
            return False
        c, p = p, par.get(p)
    return True


def after_early_exit(n, root, par):
    """an earlier statement of the function body may leave the function"""
    c = n
    while par.get(c) is not root:
        c = par.get(c)
        if c is None:
            return False
    for st in root.body:
        if st is c:
            return False
        if isinstance(st, (ast.Assert,)):
            continue
        if any(isinstance(x, ast.Return) for x in ast.walk(st)):
            return True
    return False


def needs_feature(f, pkg):
    """operations that exist to use the optional package"""
    name = f.name.lower()
    cls = f.cls.name.lower() if f.cls is not None else ""
    if pkg in ("matplotlib", "networkx", "seaborn"):
        return "plot" in name or "surf" in name
    if pkg in ("tensorflow", "torch"):
        return "customloss" in cls
    return False


def p24(ctx, rep):
    prog = ctx.prog
    req = required(prog) | {"tensap"}
    ok = lambda t: t.split(".")[0] in req or t.split(".")[0] in STDLIB
    need = {}      # func id -> {package: (location, chain)}
    aliases = {}   # module -> {name: package} for guarded module-level imports
    for m in prog.modules.values():
        par = parents(m.tree)
        for n in module_nodes(m.tree):
            for t in import_targets(prog, m, n):
                rep.count("imports executed when the package is imported")
                if ok(t):
                    continue
                if guarded(n, par):
                    rep.count("guarded optional imports")
                    rep.sample("%s:%d %s: import of %s is guarded" % (m.rel, n.lineno, m.name, t))
                    for a in n.names:
                        aliases.setdefault(m.name, {})[a.asname or a.name.split(".")[0]] = t.split(".")[0]
                    continue
                rep.violation("import", "%s|%s" % (m.name, t), "importing tensap requires %s (%s)" % (t, m.name), "%s:%d" % (m.rel, n.lineno), m.name)
    for f in prog.all_funcs():
        par = parents(f.node)
        for n in ast.walk(f.node):
            for t in import_targets(prog, f.module, n):
                rep.count("imports inside functions")
                if t.split(".")[0] in ("numpy", "scipy", "tensap") or t.split(".")[0] in STDLIB:
                    continue
                if guarded(n, par):
                    rep.count("guarded optional imports")
                    continue
                pkg = t.split(".")[0]
                if pkg in req and pkg not in ("networkx",):
                    continue
                rep.count("optional imports inside operations")
                if unconditional(n, par, f.node) and not after_early_exit(n, f.node, par):
                    need.setdefault(f.id, {})[pkg] = ("%s:%d" % (f.module.rel, n.lineno), [])
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in aliases.get(f.module.name, {}):
                rep.count("uses of guarded optional modules")
                if unconditional(n, par, f.node) and not after_early_exit(n, f.node, par) and not guarded(n, par):
                    need.setdefault(f.id, {})[aliases[f.module.name][n.id]] = ("%s:%d" % (f.module.rel, n.lineno), [])
    # unconditional calls propagate the need
    changed = True
    edges = {}
    for f in prog.all_funcs():
        par = parents(f.node)
        sc = Scope(prog, f.module, f)
        for n in own_walk(f.node):
            if not isinstance(n, ast.Call) or not unconditional(n, par, f.node) or after_early_exit(n, f.node, par) or guarded(n, par):
                continue
            tg = None
            if isinstance(n.func, ast.Attribute) and sc.is_self(n.func.value):
                tg = f.cls.lookup(n.func.attr)
            else:
                r = sc.entity(n.func)
                if r is not None and r[0] == "func":
                    tg = r[1]
                elif r is not None and r[0] == "class":
                    tg = r[1].lookup("__init__")
            if tg is not None:
                edges.setdefault(f.id, []).append((tg.id, "%s (%s:%d)" % (tg.qual, f.module.rel, n.lineno)))
    while changed:
        changed = False
        for a, lst in edges.items():
            for b, txt in lst:
                for pkg, (l, ch) in list(need.get(b, {}).items()):
                    if pkg not in need.setdefault(a, {}):
                        need[a][pkg] = (l, [txt] + ch)
                        changed = True
    for f in prog.all_funcs():
        if not public(f):
            continue
        rep.count("public operations examined")
        for pkg, (l, ch) in sorted(need.get(f.id, {}).items()):
            if needs_feature(f, pkg):
                rep.count("operations that need an optional package")
                rep.sample("%s needs %s by its purpose" % (f.qual, pkg))
                continue
            rep.violation("need", "%s|%s" % (f.qual, pkg), "%s cannot be used without %s" % (f.qual, pkg), l, f.qual, ch)
    rep.floor("imports executed when the package is imported", 100)
    rep.floor("optional imports inside operations", 5)
    rep.floor("operations that need an optional package", 3)


RULES = {
    "P07": (p07, "Query over every resolved call of the package: the only generator is numpy's global one; a separate generator (numpy, "
                 "random, scipy's own samplers) must be created inside the call and be seeded from it; nothing reseeds it; no result "
                 "depends on object addresses or hashes.",
            ["scipy and scikit-learn samplers not listed in OWN_RNG use numpy's global generator when no random state is given"]),
    "P08": (p08, "Query over every resolved call, assignment and with statement: no call of a function that changes process-wide settings "
                 "(outside a context manager that restores them), no assignment to module, class or interpreter state, no file opened for "
                 "writing; plus the alias and effect analysis for writes to module-level, class-level and default objects through "
                 "any alias or callee.",
            ["external functions change process-wide state only if listed in SETTERS"]),
    "P09": (p09, "Every default value, class attribute and module-level object that is mutable must neither be modified, returned, nor "
                 "stored in an object handed out (alias analysis of every function).",
            []),
    "P24": (p24, "Closure of the imports executed when the package is imported (all must be declared required or guarded by an "
                 "ImportError handler), and the unconditional need of an optional package propagated through unconditional calls: a public "
                 "operation with such a need must be one of those that exist for it (plots, custom losses).",
            []),
}
TECHNIQUE = {
    "P07": "query over the resolved calls of the package (sources of randomness)",
    "P08": "query over resolved calls and assignments, plus interprocedural effect analysis",
    "P09": "alias (escape) analysis of mutable defaults, class attributes and module objects",
    "P24": "import closure and must-need propagation over the call graph",
}
