"""C02: parsing a problem yields exactly what the text declares."""

from .. import gen, model, render, view
from ..cases import at, c, fn, num, op, prob, v
from ..core import check, parse
from ..harness import Part

RULE = (
    "A case is a random well-formed problem AST (alone, or fitting a random domain) plus a random layout; its text "
    "is parsed and the object's public content must be the AST's canonical content. Non-trivial: at least two "
    "initial facts and a goal of nesting depth 3 or more."
)
ASSUMPTIONS = [
    "the supported subset: sections in grammar order, untyped objects last, goals other than ()",
    "the types carried by the constants inside goals, metrics and numeric facts are not compared (a constant is its name)",
]


def classes(ast):
    out = {n[0] for n in model.walk(ast["goal"])}
    out |= {"init-" + e[0] for e in ast["init"]}
    if len({repr(e) for e in ast["init"]}) < len(ast["init"]):
        out.add("repeated facts")
    if ast["metric"]:
        out.add("metric")
    return sorted(out)


def check_problem(case):
    ast, layout = case
    text = render.text_of("problem", ast, layout)
    p = parse("problem", text)
    e, a = model.problem_c(ast), view.problem_c(p)
    check(e == a, "the parsed problem is not what the text says", view.diff(e, a), text)
    for x in p.init:
        f = view.tree(x)
        f = f[1] if f[0] == "not" else f
        for t in f[2] if f[0] == "atom" else []:
            want = e["objects"].get(t[1])
            check(t[2] == ([want] if want else []), f"the object {t[1]} has the types {t[2]} in the fact {x}", text)
    return len(ast["init"]) > 1 and model.depth(ast["goal"]) > 3, classes(ast)


def g_problem(d):
    return [gen.gen_problem(d), gen.gen_layout(d)]


def g_fitting(d):
    dom, ctx = gen.gen_domain(d, small=True, structs=0)
    return [gen.gen_problem(d, ctx, dom), gen.gen_layout(d)]


def g_wide(d):
    """Many objects and many facts."""
    p = gen.gen_problem(d, small=True)
    p["objects"] = gen.gen_typed_names(d, ["t", "u", "w"], 5, 20)
    objs = [n for n, _ in p["objects"]]
    init, seen = [], set()
    for _ in range(d.i(5, 30)):
        args = [["c", d.pick(objs)] for _ in range(d.i(0, 4))]
        k = d.i(0, 4)
        n = d.pick(["p", "q", "on", "at"])
        if k == 0:
            if repr((n, args)) in seen:
                continue
            seen.add(repr((n, args)))
            init.append(["assign", ["fn", n, args], ["num", gen.numeral(d)]])
        else:
            init.append(["not", ["atom", n, args]] if k == 1 else ["atom", n, args])
    p["init"] = init
    return [p, gen.gen_layout(d)]


def check_wide(case):
    _, cl = check_problem(case)
    return len(case[0]["init"]) >= 10, []


PARTS = [
    Part("problem", gen.strategy(g_problem), check_problem, 16000),
    Part("fitting", gen.strategy(g_fitting), check_problem, 6000),
    Part("wide", gen.strategy(g_wide), check_wide, 3000),
]
E1 = ["exists", [["x", ["t"]]], ["or", [at("p", "?x"), ["not", at("q", "?x", "o1")]]]]
REGRESSIONS = [
    ("problem", [prob(goal=E1), []]),
    ("problem", [prob(goal=["imply", at("q"), ["eq", c("o1"), c("o2")]]), []]),
    ("problem", [prob(goal=["forall", [["x", []]], ["cmp", "<=", fn("f", "?x"), num("2.50")]]), []]),
    ("problem", [prob(metric=["minimize", op("-", op("+", fn("g"), num("1")), num("2.50"))]), []]),
    ("problem", [prob(metric=["maximize", fn("total-cost")]), [2]]),
    ("problem", [prob(metric=["maximize", num("3")], init=[at("q"), at("q"), ["assign", fn("f", "o1"), num("3.0")]]), []]),
]
