"""C05: plans are read and written faithfully, step by step."""

from .. import build, gen, render, view
from ..core import check, lib, parse
from ..harness import Part

RULE = (
    "A case is two random plans (the second often an edit of the first: steps swapped, dropped, repeated, an "
    "argument changed) plus a layout. Parsing, printing, equality and the round trip are compared with the lists "
    "themselves. Non-trivial: at least two steps and two arguments."
)
ASSUMPTIONS = []


def steps_of(plan):
    return [(n, tuple(a)) for n, a in plan]


def check_plan(case):
    one, two, layout = case
    text = render.text_of("plan", one, layout)
    p = parse("plan", text)
    check(view.plan_c(p) == steps_of(one), "the parsed plan is not what the text says", view.plan_c(p), text)
    b = lib("building a plan", build.plan, one)
    check(view.plan_c(b) == steps_of(one), "the built plan has other steps", view.plan_c(b), repr(one))
    for x in (p, b):
        printed = lib("printing a plan", str, x)
        p2 = parse("plan", printed)
        check(view.plan_c(p2) == steps_of(one), "steps lost by printing and parsing", printed, text)
        check(p2 == x and x == p2 and not (p2 != x), "the reparsed plan differs", printed)
        check(str(p2) == printed, "printing again gives another text", printed, str(p2))
    other = lib("building a plan", build.plan, two)
    q = parse("plan", render.text_of("plan", two))
    same = steps_of(one) == steps_of(two)
    for x in (p, b):
        for y in (other, q):
            check((x == y) == same and (y == x) == same, f"equality should be {same}", repr(one), repr(two))
            check((x != y) != same, f"inequality should be {not same}", repr(one), repr(two))
    n_args = sum(len(a) for _, a in one)
    cl = ["equal" if same else "different"]
    if len({repr(s) for s in one}) < len(one):
        cl.append("repeated steps")
    return len(one) > 1 and n_args > 1, cl


def g_plan(d):
    one = gen.gen_plan(d)
    if d.b(1, 8):
        one = one + gen.gen_plan(d) + gen.gen_plan(d)
    if one and d.b(1, 3):
        one.insert(d.i(0, len(one)), d.pick(one))
    k = d.i(0, 7)
    two = [[n, list(a)] for n, a in one]
    if k == 0:
        two = gen.gen_plan(d)
    elif k == 1 and two:
        two.pop(d.i(0, len(two) - 1))
    elif k == 2 and two:
        two.insert(d.i(0, len(two)), d.pick(two))
    elif k == 3 and len(two) > 1:
        i, j = d.i(0, len(two) - 1), d.i(0, len(two) - 1)
        two[i], two[j] = two[j], two[i]
    elif k == 4 and two:
        s = two[d.i(0, len(two) - 1)]
        if s[1]:
            s[1][d.i(0, len(s[1]) - 1)] = d.name()
    elif k == 5 and two:
        s = two[d.i(0, len(two) - 1)]
        if len(s[1]) > 1:
            i, j = d.i(0, len(s[1]) - 1), d.i(0, len(s[1]) - 1)
            s[1][i], s[1][j] = s[1][j], s[1][i]
    elif k == 6 and two:
        two[d.i(0, len(two) - 1)][0] = d.name()
    return [one, two, gen.gen_layout(d)]


PARTS = [Part("plan", gen.strategy(g_plan), check_plan, 30000)]
REGRESSIONS = [
    ("plan", [[], [], []]),
    ("plan", [[["a", []]], [["a", []], ["a", []]], []]),
    ("plan", [[["a", ["x", "y"]], ["b", []]], [["b", []], ["a", ["x", "y"]]], [3]]),
]
