"""C24: typed lists assign each name its own group's type, once."""

from .. import build, gen, model, view
from ..core import check, outcome, parser, short_tb
from ..harness import Part

RULE = (
    "A case is a typed list of 0-7 groups (1-6 names each, one or several types, the last group possibly untyped) at "
    "one of 11 places (types, constants, objects, functions, and the variables of predicates, functions, actions, "
    "derived heads, exists, forall, universal effects and goal quantifiers), with repeated names: none, with the same "
    "types, with others, or typed once and untyped once. The parsed object must have each item with exactly its "
    "group's types, in order, or the text must be refused with a parsing error. Non-trivial: two groups or more and "
    "three names or more, or a repeated name."
)
ASSUMPTIONS = ["functions of one name and different arguments: no demand"]

TYPES = ["t", "u", "w", "number", "either1", "T", "t-1"]
VARS = ["predicate", "function-args", "action", "derived", "exists", "forall", "eforall", "goal"]
NAMES = ["types", "constants", "objects"]


def tokens(place, groups, style):
    out = []
    for n, (names, types) in enumerate(groups):
        out += [("?" + x if place in VARS else x) for x in names]
        if types:
            one = (style >> (n % 4)) & 1
            out.append("-")
            if place in NAMES or (len(types) == 1 and not one):
                out.append(types[0])
            else:
                out += ["(", "either", *types, ")"]
    return out


def document(place, groups, style):
    """(kind, text)"""
    toks = " ".join(tokens(place, groups, style))
    head = "( define ( domain d ) ( :requirements :adl :fluents :derived-predicates ) "
    declared = "( :types " + " ".join(TYPES) + " ) "
    if place == "types":
        return "domain", head + f"( :types {toks} ) ( :predicates ( q ) ) )"
    if place == "constants":
        return "domain", head + declared + f"( :constants {toks} ) ( :predicates ( q ) ) )"
    if place == "objects":
        return "problem", f"( define ( problem p ) ( :domain d ) ( :objects {toks} ) ( :init ) ( :goal ( q ) ) )"
    if place == "goal":
        return "problem", f"( define ( problem p ) ( :domain d ) ( :init ) ( :goal ( forall ( {toks} ) ( q ) ) ) )"
    if place == "predicate":
        return "domain", head + declared + f"( :predicates ( q ) ( p {toks} ) ( r ) ) )"
    if place == "function-args":
        return "domain", head + declared + f"( :predicates ( q ) ) ( :functions ( f {toks} ) ) )"
    if place == "derived":
        n = sum(len(g) for g, _ in groups)
        ps = " ".join(f"?v{i}" for i in range(n))
        return "domain", head + declared + f"( :predicates ( q ) ( p {ps} ) ) ( :derived ( p {toks} ) ( q ) ) )"
    if place == "action":
        return "domain", head + declared + f"( :predicates ( q ) ) ( :action a :parameters ( {toks} ) :effect ( q ) ) )"
    if place == "eforall":
        body = f":effect ( and ( forall ( {toks} ) ( q ) ) )"
    else:
        body = f":precondition ( and ( q ) ( {place} ( {toks} ) ( q ) ) )"
    return "domain", head + declared + f"( :predicates ( q ) ) ( :action a :parameters ( ) {body} ) )"


def listed(groups):
    return [(n, sorted(set(ts))) for names, ts in groups for n in names]


def read(place, x):
    """(ordered?, items) of the list in the parsed object."""
    if place == "types":
        return False, [(str(n), [] if p is None else [str(p)]) for n, p in x.types.items()]
    if place in ("constants", "objects"):
        return False, [(t[1], t[2]) for t in map(view.term, x.constants if place == "constants" else x.objects)]
    if place == "goal":
        return False, view.params(x.goal.variables)
    if place == "predicate":
        (p,) = [p for p in x.predicates if p.name == "p"]
        return True, view.params(p.terms)
    if place == "function-args":
        (f,) = x.functions
        return True, view.params(f.terms)
    if place == "derived":
        (dp,) = x.derived_predicates
        return True, view.params(dp.predicate.terms)
    (a,) = x.actions
    if place == "action":
        return True, view.params(a.parameters)
    if place == "eforall":
        return False, view.params(a.effect.variables)
    (qc,) = [o for o in a.precondition.operands if hasattr(o, "variables")]
    return False, view.params(qc.variables)


def refused(x):
    from lark.exceptions import LarkError
    from pddl.exceptions import PDDLError

    return isinstance(x, (PDDLError, LarkError))


def check_list(case):
    place, groups, style = case
    kind, text = document(place, groups, style)
    want = listed(groups)
    first, clash, again = {}, False, False
    for n, ts in want:
        if n in first:
            again = True
            clash = clash or first[n] != ts
        first.setdefault(n, ts)
    bad = again if place in NAMES else clash
    res, x = outcome(parser(kind), text)
    if bad:
        check(res == "err", "a list that repeats a name is accepted", text)
        check(refused(x), f"a repeated name is refused, but with {short_tb(x)}", text)
    else:
        check(res == "ok", f"a correct typed list is refused: {x!r}"[:600], text)
        ordered, got = read(place, x)
        got = [(n, list(ts)) for n, ts in got]
        if place == "types":
            want = [(n, [] if ts == ["object"] else ts) for n, ts in want]
        if place in ("predicate", "function-args", "derived"):
            exp = want
        else:
            exp = [(n, ts) for i, (n, ts) in enumerate(want) if n not in [m for m, _ in want[:i]]]
        if not ordered:
            got, exp = sorted(got), sorted(exp)
        check(got == exp, "items with the wrong types or order", text, f"expected {exp}", f"got {got}")
    return len(want) >= 3 and len(groups) >= 2 or again, [place, "refused" if bad else "repeated" if again else "distinct"]


def g_list(d):
    place = d.pick(VARS + NAMES + NAMES)
    pool = d.names(24) if d.b(1, 2) else [f"a{i}" for i in range(24)]
    types = TYPES
    if place == "types":
        pool = [f"a{i}" for i in range(24)]
        types = ["b", "c", "object", "number", "B"]
    if place == "objects":
        types = TYPES + ["object"]
    left = list(pool)
    groups = []
    for k in range(d.pick([2, 3, 1, 0, 4, 7, 12])):
        names = [left.pop() for _ in range(min(len(left), d.i(1, 6 if k < 2 else 2)))]
        if not names:
            break
        n = 1 if place in NAMES else d.pick([1, 1, 2, 3, 5])
        ts = d.subset(types, n, n)
        groups.append([names, ts])
    if groups and d.b(1, 2):
        groups[-1][1] = []
    if len(groups) > 1 and d.b(1, 4):
        groups[1][1] = list(groups[0][1])
        if len(groups) > 2 and not groups[1][1]:
            groups[1][1] = ["t"]
    groups = [g for i, g in enumerate(groups) if g[1] or i == len(groups) - 1]
    if groups and place != "derived" and d.b(1, 2):
        a = d.i(0, len(groups) - 1)
        src = d.pick(groups[a][0])
        k = d.i(0, 3)
        if k == 0:
            groups[a][0].insert(d.i(0, len(groups[a][0])), src)
        elif k == 1:
            b = d.i(0, len(groups) - 1)
            groups[b][0].append(src)
        elif k == 2:
            groups.insert(0, [[src], list(groups[a][1]) or [types[0]]])
        else:
            ts = d.shuffled(groups[a][1])
            at = len(groups) if groups[-1][1] else len(groups) - 1
            if ts or at == len(groups):
                groups.insert(d.i(0, at) if ts else at, [[src], ts])
    return [place, groups, d.i(0, 15)]


# -------------------------------------------------------------- functions


def check_functions(case):
    groups, costs = case
    items = [f for g, _ in groups for f in g]
    toks = []
    for fs, num in groups:
        for n, ps in fs:
            toks.append(f"( {n} {' '.join('?' + v + (' - ' + t if t else '') for v, t in ps)} )")
        toks += ["-", "number"] if num else []
    text = f"( define ( domain d ) ( :requirements :adl :fluents :action-costs ) ( :types t u ) ( :functions {' '.join(toks)} ) )"
    keys = [(n, tuple((v, (t,) if t else ()) for v, t in ps)) for n, ps in items]
    same = len(set(keys)) < len(keys)
    over = not same and len({n for n, _ in keys}) < len(keys)
    res, x = outcome(parser("domain"), text)
    if same:
        check(res == "err", "a function declared twice is accepted", text)
        check(refused(x), f"a function declared twice is refused, but with {short_tb(x)}", text)
    elif not over or res == "ok":
        check(res == "ok", f"a correct function list is refused: {x!r}"[:600], text)
        want = {k: ("number" if num else None) for (fs, num) in groups for k in [(n, tuple((v, (t,) if t else ()) for v, t in ps)) for n, ps in fs]}
        got = {(f, tuple((v, tuple(ts)) for v, ts in ps)): t for (f, ps), t in view.domain_c(x)["funcs"].items()}
        if not over:
            check(got == want, "functions with the wrong types or arguments", text, f"expected {want}", f"got {got}")
    return len(items) >= 3, ["declared twice" if same else "overloaded" if over else "distinct"]


def g_functions(d):
    names = d.names(12)
    items = []
    for n in names[: d.i(1, 12 if d.b(1, 8) else 6)]:
        vs = d.names(d.i(0, 8 if d.b(1, 12) else 3))
        typed = d.i(0, len(vs))
        items.append([n, [[v, d.pick(["t", "u"]) if k < typed else None] for k, v in enumerate(vs)]])
    if d.b(1, 3):
        items.insert(d.i(0, len(items)), ["total-cost", []])
    if d.b(1, 2):
        items.insert(d.i(0, len(items)), d.pick(items))
    groups = []
    while items:
        k = d.i(1, len(items))
        groups.append([items[:k], True])
        items = items[k:]
    if d.b(1, 2):
        groups[-1][1] = False
    return [groups, 0]


PARTS = [
    Part("list", gen.strategy(g_list), check_list, 12000),
    Part("functions", gen.strategy(g_functions), check_functions, 3000),
]
REGRESSIONS = [
    ("list", [place, groups, style])
    for place in VARS + NAMES
    for groups in (
        [],
        [[["a"], []]],
        [[["a", "b"], ["t"]], [["c"], ["u"]], [["e", "f"], []]],
        [[["a"], ["t"]], [["b"], ["t"]], [["c"], ["u"]]],
        [[["numbers", "either1"], ["number"]]],
    )
    for style in (0, 15)
] + [
    ("list", [place, groups, 0])
    for place in VARS + NAMES
    if place != "derived"
    for groups in (
        [[["a", "a"], ["t"]]],
        [[["a", "a"], []]],
        [[["a"], ["t"]], [["a"], ["t"]]],
        [[["a"], ["t"]], [["a"], ["u"]]],
        [[["a"], ["t"]], [["a"], []]],
        [[["a"], ["t"]], [["b"], ["u"]], [["a"], ["t"]]],
    )
] + [
    ("list", [place, [[["a", "b"], ["t", "u"]], [["a"], ["u", "t"]], [["c"], ["t", "w", "u"]]], 0]) for place in VARS if place != "derived"
] + [
    ("functions", [[[[["f", []], ["f", []]], n]], 0]) for n in (True, False)
] + [("functions", [[[[["f", []]], True], [[["g", []], ["f", []]], False]], 0])]
