"""One module per family of rules; RULES maps a property to the function that decides it."""
from . import claims, display, effects, equality, executable, fresh, globalstate, heldout, honour, iterates, interface, nodes, options, ordering, scale, termination
from ..inline import inlined
from ..program import Program
from ..heap import Engine
from ..resolve import Units
from ..report import Report


class Context:
    """the program and the interprocedural analyses, built on demand"""

    def __init__(self, repo=None):
        self.prog = Program(repo)
        self._eng = {}
        self._units = self._flat = None

    def effects(self, learning):
        """engine after analysis of the whole package (learning: also the learning package)"""
        return self._engine(learning)

    def flat(self):
        """the program with private helpers inlined in their callers"""
        if self._flat is None:
            self._flat = Program(self.prog.repo, transform=inlined)
        return self._flat

    def units(self):
        if self._units is None:
            self._units = Units(self.prog)
        return self._units

    def _engine(self, learning, hooks=None, track=False, key=None):
        k = (learning, key, track)
        if k not in self._eng:
            e = Engine(self.prog, track_deps=track, hooks=hooks)
            fs = self.prog.all_funcs()
            heavy = lambda f: "tensor_learning" in f.module.name
            if not learning:
                fs = [f for f in fs if not heavy(f)]
                e.run(fs)
            else:
                e.run(fs, heavy=heavy, heavy_rounds=1)
            self._eng[k] = (e, fs)
        return self._eng[k]


RULES, TECHNIQUE, NOTE = {}, {}, {}
for _m in (fresh, effects, globalstate, executable, equality, display, termination, iterates, interface, nodes, options, ordering, claims, honour, nodes, heldout, scale):
    RULES.update(_m.RULES)
    TECHNIQUE.update(getattr(_m, "TECHNIQUE", {}))
    NOTE.update(getattr(_m, "NOTE", {}))


def run(prop, tier):
    fn, text, assumptions = RULES[prop]
    rep = Report(prop, tier, text)
    ctx = Context()
    fn(ctx, rep)
    return rep.finish(assumptions)
