"""P14: node numbers, node positions, axes, child numbers, dimensions and levels are never confused.

The kinds of the integers and of the axes of the arrays are inferred in every function (sa/kinds.py)
from what the trees and the tree based tensors declare; every subscript, argument, comparison, set
operation, store and enumeration whose kinds are known is an obligation.
"""
from ..kinds import Kinds

WHAT = {"index": "subscripts of known kind", "mask": "masks of known kind", "argument": "arguments of known kind", "mix": "comparisons and set operations of known kinds",
        "store": "stores of known kind", "enumeration": "enumerations of the nodes", "align": "elementwise operations of known kinds", "result": "results of known kind"}
LEAST = {"index": 400, "mask": 20, "argument": 140, "mix": 110, "store": 15, "enumeration": 15, "align": 4, "result": 4}


def p14(ctx, rep):
    k = Kinds(ctx.flat())
    rep.count("functions analysed", len(k.funcs))
    rep.count("parameters whose kind is solved from their use", sum(1 for v in k.vars.values() if v.sol))
    funcs = set()
    for (what, _), f in k.checked.items():
        rep.count(WHAT[what])
        funcs.add(f.qual)
    rep.count("functions with obligations", len(funcs))
    for what, least in LEAST.items():
        rep.floor(WHAT[what], least)
    rep.floor("functions with obligations", 60)
    for key, (f, n, msg) in sorted(k.found.items()):
        rep.violation("index kind", key, msg, "%s:%d" % (f.module.rel, n.lineno), f.qual)


RULES = {"P14": (p14, "every integer used as an index, as an argument of a tree method, in a comparison or in a set operation designates what the array, the method or "
                      "the other operand is about: the position of a node in per-node arrays, the number of a node in the methods of the tree, a dimension, an axis of a core "
                      "(not the number of a child), a level",
                 ["attributes and methods of DimensionTree and TreeBasedTensor mean what their documentation says (table in sa/kinds.py)",
                  "values whose kind cannot be inferred are not checked: the counts of the evidence say how many obligations were decided"])}
TECHNIQUE = {"P14": "abstract interpretation over a domain of index kinds (node, axis, dimension, level with constant offsets; kinds of array axes), with parameters solved from their use"}
NOTE = {"P14": "values of unknown kind are not checked; two node numbers of the same kind exchanged (a node for its parent) are out of reach"}
