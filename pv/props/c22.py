"""C22: every variable occurrence gets the type of its own binder."""

from .. import gen, model, render, view
from ..cases import act, at, c, der, dom, fn, prob, v
from ..core import check, parse
from ..harness import Part

RULE = (
    "A case is a domain of 1-5 actions and derived predicates over very few variable names, so that parameters, "
    "nested exists, forall and universal effects re-bind each other with other types (and some variables have no "
    "binder at all); constants share the names too. Every occurrence of every variable must carry exactly its "
    "innermost binder's types, and each declaration must come out the same alone, in reverse and in a random order "
    "with others removed; the same for problem goals. Non-trivial: a variable name is bound with two different "
    "types in the domain and a quantifier re-binds a name of an enclosing scope."
)
ASSUMPTIONS = ["a variable without a binder has no types"]


def rebinds(f, scope):
    k = f[0]
    if k in model.BINDERS:
        if any(n in scope for n, _ in f[1]):
            return True
        return rebinds(f[2], scope | {n for n, _ in f[1]})
    if k == "not":
        return rebinds(f[1], scope)
    if k in ("and", "or", "oneof"):
        return any(rebinds(x, scope) for x in f[1])
    if k in ("imply", "when"):
        return rebinds(f[1], scope) or rebinds(f[2], scope)
    return False


def struct_c(s, preds, consts):
    r = model.resolve_struct(s, preds, consts)
    if s[0] == "derived":
        return ("derived", r[1], model.params_c(r[2]), model.canon(r[3]))
    return ("action", r[1], model.params_c(r[2]), model.cond_c(r[3]), model.cond_c(r[4]))


def parsed(ast, structs):
    x = parse("domain", render.text_of("domain", dict(ast, structs=structs)))
    got = view.domain_c(x)
    return {("derived",) + d for d in got["derived"]} | {("action",) + a for a in got["actions"]}


def check_domain(case):
    ast, order = case
    consts = {n: t for n, t in ast["consts"] or []}
    preds = ast["preds"]
    want = [struct_c(s, preds, consts) for s in ast["structs"]]
    text = render.text_of("domain", ast)

    def judge(structs, expected, what):
        got, exp = parsed(ast, structs), set(expected)
        check(
            got == exp,
            f"wrong types on variable occurrences ({what})",
            render.text_of("domain", dict(ast, structs=structs)),
            f"expected {sorted(map(repr, exp - got))}",
            f"got {sorted(map(repr, got - exp))}",
        )

    n = len(want)
    judge(ast["structs"], want, "as written")
    if n > 1:
        judge(ast["structs"][::-1], want, "in reverse")
        picked = [i for i in order if i < n]
        judge([ast["structs"][i] for i in picked], [want[i] for i in picked], "other order and neighbours")
        k = order[0] % n if order else 0
        judge([ast["structs"][k]], [want[k]], "alone")
    bound = {}
    for s in ast["structs"]:
        for name, ts in s[2]:
            bound.setdefault(name, set()).add(tuple(ts))
        for f in s[3:]:
            if f is not None and f[0] != "empty":
                for nd in model.walk(f):
                    if nd[0] in model.BINDERS:
                        for name, ts in nd[1]:
                            bound.setdefault(name, set()).add(tuple(ts))
    inner = any(
        f is not None and f[0] != "empty" and rebinds(f, {m for m, _ in s[2]}) for s in ast["structs"] for f in s[3:]
    )
    mixed = any(len(ts) > 1 for ts in bound.values())
    return inner and mixed, ["rebinding" if inner else "no rebinding", f"declarations {min(n, 4)}"] + (
        ["derived"] if any(s[0] == "derived" for s in ast["structs"]) else []
    )


def g_domain(d):
    ctx = gen.Ctx()
    ctx.f = set(gen.FEATURES)
    ctx.types = ["t", "u", "w"]
    d._limit = 3  # almost all names are a, b, c
    ast = dom()
    ast["consts"] = d.pick([None, [["a", "t"]], [["a", "u"], ["b", None]], [["k", None]]])
    ctx.consts = [n for n, _ in ast["consts"] or []]
    ast["preds"] = [["q", []], ["p", gen.gen_params(d, ctx, 1, 1)], ["r", gen.gen_params(d, ctx, 2, 2)], ["s", gen.gen_params(d, ctx, 3, 3)]]
    ast["funcs"] = [["f", [["x", []]], True], ["g", [], True]]
    ctx.preds, ctx.funcs = ast["preds"], [[n, ps] for n, ps, _ in ast["funcs"]]
    structs = []
    for k in range(d.pick([2, 3, 1, 5, 4])):
        loose = ["free", "a", "b"] if d.b(1, 5) else []
        if d.b(1, 3):
            n, decl = d.pick(ctx.preds)
            head = gen.gen_head(d, ctx, ast["types"], decl)
            scope = [m for m, _ in head]
            scope += [m for m in loose if m not in scope]
            structs.append(["derived", n, head, gen.gen_gd(d, ctx, scope, d.pick([3, 2, 4]))])
        else:
            ps = gen.gen_params(d, ctx, 0, 3)
            scope = [m for m, _ in ps]
            scope += [m for m in loose if m not in scope]
            structs.append(["action", f"act{k}", ps, gen.gen_gd(d, ctx, scope, d.pick([2, 3, 4])), gen.gen_effect(d, ctx, scope, 3)])
    ast["structs"] = structs
    return [ast, d.subset(range(len(structs)), 1, len(structs))]


def check_goal(case):
    ast = case
    text = render.text_of("problem", ast)
    x = parse("problem", text)
    got = model.drop_const_types(view.formula_c(x.goal))
    want = model.drop_const_types(model.canon(model.resolve_problem(ast)["goal"]))
    check(got == want, "wrong types on variable occurrences in the goal", text, f"expected {want}", f"got {got}")
    return rebinds(ast["goal"], set()), ["goal"]


def g_goal(d):
    ctx = gen.Ctx()
    ctx.f = set(gen.FEATURES)
    ctx.types = ["t", "u", "w"]
    d._limit = 3
    ctx.consts = d.subset(["a", "b", "o"], 0, 3)
    ctx.preds = [["q", []], ["p", [["x", []]]], ["r", [["x", []], ["y", []]]]]
    ctx.funcs = [["f", [["x", []]]], ["g", []]]
    objs = sorted([[n, d.pick(["t", "u", None])] for n in ctx.consts], key=lambda o: o[1] is None)
    body = gen.gen_gd(d, ctx, ["a", "b", "c"], d.pick([3, 2, 4]))
    goal = [d.pick(["exists", "forall"]), gen.gen_params(d, ctx, 0, 0, names=["a", "b", "c"][: d.i(0, 3)]), body]
    if d.b(1, 4):
        goal = ["and", [goal, gen.gen_gd(d, ctx, ["a"], 2)]]
    return prob(objects=objs, init=[], goal=goal)


PARTS = [
    Part("domain", gen.strategy(g_domain), check_domain, 4500),
    Part("goal", gen.strategy(g_goal), check_goal, 3500),
]
XT, XU, X0 = [["x", ["t"]]], [["x", ["u", "w"]]], [["x", []]]
P = at("p", "?x")
NEST = ["and", [P, ["exists", XU, ["and", [P, ["forall", X0, P], P, ["imply", P, ["exists", XT, ["eq", v("x"), v("x")]]]]]], P]]
ENEST = ["and", [P, ["eforall", XU, ["and", [P, ["when", NEST, P], ["eforall", X0, ["neff", "increase", fn("f", "?x"), fn("f", "?x")]]]]], ["oneof", [["not", P]]]]]
REGRESSIONS = [
    ("domain", [dom(act("a", XT, NEST, ENEST), act("b", X0, NEST, ENEST), der("p", X0, NEST)), [2, 0]]),
    ("domain", [dom(act("a", XT, P, P), der("q", [], P), act("b", [], P, P)), [1, 2]]),
    ("domain", [dom(der("r", [["y", ["u"]], ["x", []]], ["and", [at("r", "?y", "?x"), NEST]]), der("r", [["x", []], ["y", []]], at("r", "?x", "?y"))), [1]]),
    ("domain", [dom(act("a", XT, ["eq", c("x"), v("x")], at("p", "x")), consts=[["x", "u"]]), [0]]),
    ("goal", prob(goal=["forall", XT, NEST])),
    ("goal", prob(objects=[["x", "t"]], goal=["exists", XU, ["and", [at("p", "x"), NEST]]])),
]
