"""C01: parsing a domain yields exactly what the text declares."""

from .. import gen, model, render, view
from ..cases import act, at, der, dom, fn, num, op
from ..core import check, parse
from ..harness import Part

RULE = (
    "A case is a random well-formed domain AST plus a random layout (separators, comments, grouping of typed "
    "lists, bare function names); its text is parsed and the object, read through public attributes, must have "
    "the AST's canonical content. Non-trivial: at least one action or derived predicate whose formulas have "
    "nesting depth 3 or more. Part 'wide' has many declarations instead."
)
ASSUMPTIONS = [
    "the supported subset: sections in grammar order, untyped list items last, ASCII names, keywords in lower case",
    "lark and Python are trusted",
]


def classes(ast):
    out = set()
    for s in ast["structs"]:
        out.add(s[0])
        if s[0] == "action":
            for i, w in ((3, "precondition"), (4, "effect")):
                if s[i] is None:
                    out.add("no " + w)
                elif s[i][0] == "empty":
                    out.add("empty " + w)
        for f in s[3:]:
            if f is not None and f[0] != "empty":
                for n in model.walk(f):
                    out.add(n[0])
    return sorted(out)


def nontrivial(ast):
    return any(f is not None and model.depth(f) > 3 for s in ast["structs"] for f in s[3:])


def check_domain(case):
    ast, layout = case
    text = render.text_of("domain", ast, layout)
    d = parse("domain", text)
    e = model.domain_c(ast)
    a = view.domain_c(d)
    check(e == a, "the parsed domain is not what the text says", view.diff(e, a), text)
    return nontrivial(ast), classes(ast)


def g_domain(d):
    return [gen.gen_domain(d, twins=True)[0], gen.gen_layout(d)]


def g_wide(d):
    """Many declarations of every kind."""
    dom_, ctx = gen.gen_domain(d, small=True, structs=0)
    ns = d.names(d.i(6, 20))
    dom_["preds"] = [[n, gen.gen_params(d, ctx, 0, 3)] for n in ns]
    ctx.preds = dom_["preds"]
    ss = []
    for n in d.names(d.i(3, 9)):
        if d.b(1, 4):
            ss.append(gen.gen_derived(d, ctx, dom_["types"] or [], ss))
        else:
            ps = gen.gen_params(d, ctx, 0, 3)
            sc = [x for x, _ in ps]
            ss.append(["action", n, ps, gen.gen_gd(d, ctx, sc, 1), gen.gen_effect(d, ctx, sc, 1)])
    dom_["structs"] = ss
    dom_["consts"] = gen.gen_typed_names(d, ctx.types, 0, 14, avoid=()) if d.b(1, 2) else dom_["consts"]
    if ctx.consts:
        have = [n for n, _ in dom_["consts"] or []]
        dom_["consts"] = sorted(
            (dom_["consts"] or []) + [[n, None] for n in ctx.consts if n not in have], key=lambda x: x[1] is None
        )
    dom_["reqs"] = gen.gen_reqs(d, gen.domain_features(dom_))
    return [dom_, gen.gen_layout(d)]


def check_wide(case):
    _, cl = check_domain(case)
    return len(case[0]["preds"]) + len(case[0]["structs"]) >= 10, []


PARTS = [
    Part("domain", gen.strategy(g_domain), check_domain, 9000),
    Part("wide", gen.strategy(g_wide), check_wide, 1600),
]

X, Y = ["x", []], ["y", []]
REGRESSIONS = [
    ("domain", [dom(act("a", [X], None, at("p", "?x")), act("b", [], ["and", []], None), act("c")), []]),
    ("domain", [dom(act("a", [X], ["empty"], ["empty"])), []]),
    ("domain", [dom(act("a", [["k", []]], at("p", "k"), ["and", [at("p", "?k"), ["not", at("p", "k")]]])), []]),
    ("domain", [dom(act("a", [X], ["cmp", ">=", op("-", fn("f", "?x"), num("1")), op("-", num("2.50"))], None)), []]),
    ("domain", [dom(act("a", [["x", ["t"]]], at("p", "?x")), der("p", [X], ["exists", [["y", ["u"]]], at("r", "?y", "?x")])), []]),
    ("domain", [dom(act("a", [], None, ["neff", "increase", fn("g"), op("+", fn("g"), fn("g"), num("1"))])), []]),
    ("domain", [dom(act("a", [], None, ["neff", "assign", fn("g"), op("*", num("2"), num("2"))])), []]),
    ("domain", [dom(reqs=["strips"], types=None, consts=None, preds=[["p", []]], funcs=[]), []]),
    ("domain", [dom(reqs=["adl"], funcs=[], types=[["a", "b"], ["b", None]], consts=None, preds=[]), []]),
]
