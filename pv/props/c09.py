"""C09: building formulas preserves their logical meaning."""

import itertools

from .. import build, gen, model, render, view
from ..core import check, lib, parse
from ..harness import Part

RULE = (
    "A case is an expression over up to 6 atoms (predicates, equalities, comparisons, quantified formulas as opaque "
    "atoms) built by the constructors and by the operators & | ~ >>, with duplicates, atoms that differ in the type of a variable only, deep nesting and 0, 1 or many "
    "operands. The object's truth table (all assignments) must be that of the expression, operands keep their "
    "first-appearance order, and printing and parsing keeps the truth table. "
    "Non-trivial: at least 3 distinct atoms and 4 connectives."
)
ASSUMPTIONS = ["quantified formulas and comparisons are opaque: only and/or/not/imply are interpreted"]

ATOMS = [
    ["atom", "p", []],
    ["atom", "q", []],
    ["atom", "r", []],
    ["atom", "r", [["c", "a", []]]],
    ["atom", "r", [["c", "b", []]]],
    ["atom", "r", [["c", "a", []], ["c", "b", []]]],
    ["atom", "r", [["c", "b", []], ["c", "a", []]]],
    ["eq", ["c", "a", []], ["c", "b", []]],
    ["eq", ["c", "b", []], ["c", "a", []]],
    ["exists", [["x", []]], ["atom", "r", [["v", "x", []]]]],
    ["forall", [["x", []]], ["atom", "r", [["v", "x", []]]]],
    ["forall", [["x", []], ["y", []]], ["atom", "r", [["v", "x", []]]]],
    ["forall", [["x", []]], ["not", ["atom", "r", [["v", "x", []]]]]],
    ["cmp", ">=", ["fn", "f", []], ["num", "1"]],
    ["cmp", "<=", ["fn", "f", []], ["num", "1"]],
    ["cmp", "=", ["fn", "f", []], ["num", "1"]],
    ["cmp", "=", ["num", "1"], ["fn", "f", []]],
    ["cmp", "<", ["fn", "f", []], ["num", "2"]],
    ["cmp", ">", ["fn", "f", []], ["num", "2"]],
    ["cmp", ">=", ["fn", "f", []], ["num", "2"]],
]
PLAIN = len(ATOMS)
# told apart by the types of a variable only, with the same text
_X = [["v", "x", ts] for ts in ([], ["t"], ["u"], ["t", "u"], ["object"])]
ATOMS += [["atom", "s", [x]] for x in _X]
ATOMS += [["eq", x, ["c", "a", []]] for x in _X[:3]]
ATOMS += [["cmp", "<", ["fn", "g", [x]], ["num", "1"]] for x in _X[:3]]
ATOMS += [["exists", [["x", ts]], ["atom", "s", [["v", "x", ts]]]] for ts in ([], ["t"], ["u"], ["t", "u"])]
ATOMS += [["forall", [["y", []]], ["atom", "s", [x]]] for x in _X[:3]]


def tree_of(e):
    """The plain resolved tree of an expression."""
    k = e[0]
    if k == "x":
        return ATOMS[e[1]]
    if k in ("and", "or"):
        return [k, [tree_of(x) for x in e[1]]]
    if k == "&":
        return ["and", [tree_of(e[1]), tree_of(e[2])]]
    if k == "|":
        return ["or", [tree_of(e[1]), tree_of(e[2])]]
    if k in ("not", "~"):
        return ["not", tree_of(e[1])]
    if k in ("imply", ">>"):
        return ["imply", tree_of(e[1]), tree_of(e[2])]
    raise AssertionError(k)


def obj_of(e, cache):
    """The object, through constructors and operators."""
    from pddl.logic.base import And, Imply, Not, Or

    k = e[0]
    if k == "x":
        if e[2]:
            return build.tree(ATOMS[e[1]])
        if e[1] not in cache:
            cache[e[1]] = build.tree(ATOMS[e[1]])
        return cache[e[1]]
    if k == "and":
        return And(*[obj_of(x, cache) for x in e[1]])
    if k == "or":
        return Or(*[obj_of(x, cache) for x in e[1]])
    if k == "&":
        return obj_of(e[1], cache) & obj_of(e[2], cache)
    if k == "|":
        return obj_of(e[1], cache) | obj_of(e[2], cache)
    if k == "not":
        return Not(obj_of(e[1], cache))
    if k == "~":
        return ~obj_of(e[1], cache)
    if k == "imply":
        return Imply(obj_of(e[1], cache), obj_of(e[2], cache))
    return obj_of(e[1], cache) >> obj_of(e[2], cache)


def nnf_like(c):
    """Canonical form with imply as or, no double negation, and/or simplified again."""
    k = c[0]
    if k == "not":
        x = nnf_like(c[1])
        return x[1] if x[0] == "not" else ("not", x)
    if k == "imply":
        return nnf_like(("or", (("not", c[1]), c[2])))
    if k in ("and", "or"):
        out = []
        for x in c[1]:
            y = nnf_like(x)
            for z in y[1] if y[0] == k else [y]:
                if z not in out:
                    out.append(z)
        return out[0] if len(out) == 1 else (k, tuple(out))
    return c


def atoms_of(c, out):
    if c[0] in ("and", "or"):
        for x in c[1]:
            atoms_of(x, out)
    elif c[0] == "not":
        atoms_of(c[1], out)
    elif c[0] == "imply":
        atoms_of(c[1], out)
        atoms_of(c[2], out)
    elif c not in out:
        out.append(c)
    return out


def table(c, atoms):
    return tuple(
        model.truth(c, dict(zip(atoms, vs)).__getitem__) for vs in itertools.product([False, True], repeat=len(atoms))
    )


def check_expr(case):
    e = case
    t = tree_of(e)
    want = raw(t)
    atoms = atoms_of(want, [])
    cache = {}
    obj = lib("building a formula", obj_of, e, cache)
    got = view.guarded(view.tree, obj)
    gc = raw(got)
    extra = [a for a in atoms_of(gc, []) if a not in atoms]
    check(not extra, "the formula has atoms that were never given", repr(extra), str(obj))
    wt = table(want, atoms)
    check(table(gc, atoms) == wt, "the formula has another truth table", repr(t), str(obj))
    check(
        nnf_like(model.canon(got)) == nnf_like(model.canon(t)),
        "operands lost, merged or reordered", repr(t), str(obj),
    )
    if any(e >= PLAIN for e in used(e)):
        # one variable with several types: no text
        return len(atoms) >= 3 and count(e) >= 4, ["atoms %d" % len(atoms), "typed"]
    # through text, as a precondition
    text = (
        "(define (domain d) (:requirements :adl :fluents) (:constants a b) (:predicates (p) (q) (r)) "
        f"(:functions (f)) (:action x :parameters () :precondition {obj} :effect (p)))"
    )
    p2 = parse("domain", text)
    back = next(iter(p2.actions)).precondition
    bc = raw(view.guarded(view.tree, back))
    check(not [a for a in atoms_of(bc, []) if a not in atoms], "the reparsed formula has other atoms", text, str(back))
    check(table(bc, atoms) == wt, "printing and parsing changes the truth table", text, str(back))
    n = count(e)
    return len(atoms) >= 3 and n >= 4, ["atoms %d" % len(atoms)]


def raw(t):
    """Tuples of a tree, without any simplification."""
    k = t[0]
    if k in ("and", "or"):
        return (k, tuple(raw(x) for x in t[1]))
    if k == "not":
        return (k, raw(t[1]))
    if k == "imply":
        return (k, raw(t[1]), raw(t[2]))
    return model.drop_const_types(model.canon(t))


def used(e):
    if e[0] == "x":
        return {e[1]}
    return set().union(*map(used, e[1] if e[0] in ("and", "or") else e[1:]), ())


def count(e):
    if e[0] == "x":
        return 0
    if e[0] in ("and", "or"):
        return 1 + sum(map(count, e[1]))
    return 1 + sum(count(x) for x in e[1:])


def g_expr(d, pool, depth):
    k = d.i(0, 9) if depth > 0 else 0
    if k <= 1:
        return ["x", d.pick(pool), d.i(0, 1)]
    r = lambda: g_expr(d, pool, depth - 1)  # noqa: E731
    if k <= 4:
        n = d.pick([2, 3, 2, 1, 0, 4, 6, d.i(6, 14) if depth <= 2 else 5])
        xs = [r() for _ in range(n)]
        if n >= 2 and d.b(1, 4):
            xs[-1] = d.pick(xs)
        return [d.pick(["and", "or"]), xs]
    if k <= 6:
        return [d.pick(["&", "|"]), r(), r()]
    if k == 7:
        return [d.pick(["not", "~"]), r()]
    return [d.pick(["imply", ">>"]), r(), r()]


def g_case(d):
    if d.b(1, 2):
        pool = d.subset(list(range(PLAIN if d.b(2, 3) else len(ATOMS))), 1, 6)
    else:
        n = d.pick([PLAIN, len(ATOMS)])
        i = d.i(0, n - 4)
        pool = list(range(i, i + 4))
    return g_expr(d, pool, d.pick([2, 3, 4, 5]))


PARTS = [Part("expr", gen.strategy(g_case), check_expr, 16000)]
A, B, C = ["x", 0, 0], ["x", 1, 0], ["x", 2, 1]
REGRESSIONS = [
    ("expr", ["and", []]),
    ("expr", ["or", []]),
    ("expr", ["not", ["or", []]]),
    ("expr", ["or", [["and", [A, B]], ["and", [A, B, C]], ["or", [B, A]]]]),
    ("expr", ["and", [["x", 9, 1], ["x", 10, 1]]]),
    ("expr", ["and", [["x", 15, 1], ["x", 16, 1], ["x", 13, 1], ["x", 14, 0]]]),
]
