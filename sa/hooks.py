"""No-op observer of the abstract interpreter; rules override what they watch."""


class Hook:
    def __getattr__(self, name):
        if name.startswith("_") or name == "branch_deps":
            raise AttributeError(name)
        return lambda *a, **k: None
    def enter(self, fa, st): pass
    def leave(self, fa, st, ret): pass
    def store_attr(self, fa, st, base, attr, v, node): pass
    def store_elem(self, fa, st, base, idx, v, node): pass
    def mutate(self, fa, st, o, node, desc): pass
    def store_global(self, fa, fr, attr, node): pass
    def read_attr(self, fa, st, o, attr, node): pass
    def call(self, fa, st, f, args, kw, e): return None
    def inst_store(self, fa, st, o, fl, v, e, f): pass
    def result(self, fa, st, f, argv, r, e): return r
    def attr_use(self, fa, b, attr, node): pass
    def ext_call(self, fa, st, name, args, kw, e): pass
    def copied(self, *a): pass
    def default_read(self, *a): pass
    def dropped(self, fa, st, roots): pass
    def inst_effect(self, fa, st, o, fl, e, f, ef): pass
    def appended(self, fa, st, o, v, e): pass
    def no_super(self, fa, node): pass


def observe(eng, funcs, hook):
    """one pass over funcs with the summaries of the finished fixpoint, watched by hook"""
    from .interp import FuncAnalysis
    old, work, inwork = eng.hooks, list(eng.work), set(eng.inwork)
    stats = dict(eng.stats)
    eng.hooks = hook
    try:
        for f in funcs:
            FuncAnalysis(eng, f).run()
    finally:
        eng.hooks = old
        eng.work[:] = work
        eng.inwork.clear()
        eng.inwork.update(inwork)
        eng.stats.clear()
        eng.stats.update(stats)
