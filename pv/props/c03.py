"""C03: printing a domain and parsing it back loses nothing."""

from .. import build, gen, model, render, view
from ..cases import act, at, der, dom, fn, num, op
from ..core import check, lib, parse
from ..harness import Part
from .c01 import classes, g_wide, nontrivial

RULE = (
    "A case is a random domain AST; the domain is obtained by parsing its text (part 'parsed') or through the "
    "constructors, with typed and untyped items in any order (part 'built'). Its printed text must be accepted, "
    "the content of the reparsed domain must be the expected one (types used only as supertypes count as "
    "declared; an untyped item before a typed one comes back with type object), and printing again must give the same text. "
    "Non-trivial: a formula of nesting depth 3 or more."
)
ASSUMPTIONS = ["constructs that PDDL syntax can express: at least one operand where the grammar asks for one, finite non-negative numerals"]


def norm_params(c):
    """Object is the same as no type in a canonical form."""
    if isinstance(c, tuple):
        if len(c) == 2 and isinstance(c[0], str) and isinstance(c[1], tuple) and c[1] == ("object",):
            return (c[0], ())
        if len(c) == 3 and c[0] in ("v", "c") and c[2] == ("object",):
            return (c[0], c[1], ())
        return tuple(norm_params(x) for x in c)
    if isinstance(c, frozenset):
        return frozenset(norm_params(x) for x in c)
    if isinstance(c, dict):
        return {norm_params(k): norm_params(x) for k, x in c.items()}
    return c


def norm(content):
    out = {k: norm_params(x) for k, x in content.items()}
    out["types"] = model.with_undeclared_supertypes(content["types"])
    out["types"].pop("object", None)
    return out


def typed_last(ps):
    """An untyped item before a typed one is printed (and read back) with type object."""
    return any(t and not all(u for _, u in ps[:i]) for i, (_, t) in enumerate(ps))


def exact(content):
    """What must come back as it was, object types included."""
    for k in ("preds", "derived"):
        for x in content[k]:
            if not typed_last(x[1]):
                yield k, x
    for x, t in content["funcs"].items():
        if not typed_last(x[1]):
            yield "funcs", x
    for x in content["actions"]:
        if not typed_last(x[1]):
            yield "actions", x


def round_trip(d, e, what):
    text = lib("printing " + what, str, d)
    d2 = parse("domain", text)
    a = norm(view.domain_c(d2))
    check(norm(e) == a, "content lost by printing and parsing", view.diff(norm(e), a), text)
    back = view.domain_c(d2)
    for k, x in exact(e):
        check(x in back[k], f"not the same {k} after printing and parsing", x, text)
    text2 = lib("printing the reparsed domain", str, d2)
    check(text2 == text, "printing again gives another text", text, text2)


def check_parsed(case):
    ast, layout = case
    d = parse("domain", render.text_of("domain", ast, layout))
    round_trip(d, model.domain_c(ast), "a parsed domain")
    return nontrivial(ast), classes(ast)


def check_built(case):
    ast = case
    d = lib("building a domain", build.domain, model.resolve_domain(ast))
    round_trip(d, model.domain_c(ast), "a built domain")
    return nontrivial(ast), classes(ast)


def g_parsed(d):
    return [gen.gen_domain(d, twins=True)[0], []]


def g_built(d):
    return gen.gen_domain(d, free_order=True, twins=True)[0]


PARTS = [
    Part("parsed", gen.strategy(g_parsed), check_parsed, 4500),
    Part("built", gen.strategy(g_built), check_built, 5000),
    Part("wide", gen.strategy(g_wide), check_parsed, 1000),
]
EI = ["t", "u"]
REGRESSIONS = [
    ("built", dom(act("a", [["x", EI], ["y", ["w"]]], at("p", "?x"), at("p", "?y")))),
    ("built", dom(act("a", [["x", []], ["y", ["w"]]], at("p", "?x"), at("p", "?y")))),
    ("built", dom(preds=[["p", [["x", []], ["y", ["t"]]]], ["r", [["x", EI]]]], structs=[])),
    ("built", dom(funcs=[["f", [["x", EI]], True], ["h", [["x", []], ["y", ["t"]]], True]], structs=[])),
    ("built", dom(act("a", [], ["exists", [["x", EI], ["y", []]], at("r", "?x", "?y")], ["eforall", [["x", EI], ["a", []]], at("p", "?x")]))),
    ("built", dom(act("a", [], ["cmp", "<", op("-", op("-", fn("g"), num("1")), num("2")), op("/", fn("g"), op("/", fn("g"), num("3")))], None))),
    ("parsed", [dom(act("a", [], ["cmp", ">", fn("g"), num("0.000000000123")], ["neff", "assign", fn("g"), num("100000000000000000000.0")])), []]),
    ("parsed", [dom(reqs=["strips"], types=[["a", None], ["b", None]], consts=None, preds=[], funcs=[]), []]),
    ("parsed", [dom(types=[["a", "b"], ["c", "object"]], consts=None, preds=[]), []]),
    ("built", dom(der("p", [["x", ["u"]]], at("p", "?x")), consts=[["k", "u"], ["j", None], ["o", "object"]])),
]
