"""C04: printing a problem and parsing it back loses nothing."""

from .. import build, gen, model, render, view
from ..cases import at, c, fn, num, op, prob
from ..core import check, lib, parse
from ..harness import Part
from .c02 import classes, g_fitting, g_problem, g_wide
from .c14 import used

RULE = (
    "A case is a random problem AST, turned into an object by the parser or by the constructors (objects, facts in "
    "any order). Its printed text must be accepted with the same content, and printing again must give the same "
    "text. Non-trivial: at least two facts and a goal of nesting depth 3 or more."
)
ASSUMPTIONS = ["constructs that PDDL syntax can express; finite non-negative numerals"]


def round_trip(p, e):
    text = lib("printing a problem", str, p)
    p2 = parse("problem", text)
    a = view.problem_c(p2)
    check(e == a, "content lost by printing and parsing", view.diff(e, a), text)
    text2 = lib("printing the reparsed problem", str, p2)
    check(text2 == text, "printing again gives another text", text, text2)


def nontrivial(ast):
    return len(ast["init"]) > 1 and model.depth(ast["goal"]) > 3


def check_parsed(case):
    ast, layout = case
    p = parse("problem", render.text_of("problem", ast, layout))
    round_trip(p, model.problem_c(ast))
    return nontrivial(ast), classes(ast)


def check_built(case):
    ast = case
    p = lib("building a problem", build.problem, model.resolve_problem(ast))
    round_trip(p, model.problem_c(ast))
    return nontrivial(ast), classes(ast)


def g_built(d):
    p = gen.gen_problem(d)
    if p["objects"]:
        p["objects"] = d.shuffled(p["objects"])
    p["goal"] = free(d, p["goal"])
    if d.b(1, 8):
        p["goal"] = ["and", []]
    return p


def free(d, f):
    """Shuffle the variables of quantifiers, so that untyped ones come anywhere."""
    if f[0] in ("exists", "forall"):
        return [f[0], d.shuffled(f[1]), free(d, f[2])]
    if f[0] in ("and", "or"):
        return [f[0], [free(d, x) for x in f[1]]]
    if f[0] == "not":
        return [f[0], free(d, f[1])]
    if f[0] == "imply":
        return [f[0], free(d, f[1]), free(d, f[2])]
    return f


def check_bound(case):
    """A problem object that knows its domain prints what it declares (with the domain's requirements)."""
    dast, past, late = case
    domain = lib("building the domain", build.domain, model.resolve_domain(dast))
    kw = build.problem_kwargs(model.resolve_problem(past))
    kw.pop("requirements")
    if late:
        p = lib("building a problem", build.Problem, **kw)
        lib("assigning the domain", setattr, p, "domain", domain)
    else:
        kw.pop("domain_name")
        p = lib("building a problem with its domain", build.Problem, domain=domain, **kw)
    past = dict(past, reqs=dast["reqs"])
    round_trip(p, model.problem_c(past))
    both = {n for n, _ in dast["consts"] or []} & {n for n, _ in past["objects"] or []}
    return nontrivial(past), ["bound late" if late else "bound"] + (["object is a constant"] if both else [])


def g_bound(d):
    dast, ctx = gen.gen_domain(d, small=True, structs=0)
    past = gen.gen_problem(d, ctx, dast)
    past["goal"] = free(d, past["goal"])
    if used(model.resolve_problem(past)) and not {"typing", "adl"} & set(dast["reqs"]):
        dast["reqs"] = dast["reqs"] + ["typing"]
    return [dast, past, d.b()]


PARTS = [
    Part("parsed", gen.strategy(g_problem), check_parsed, 8000),
    Part("fitting", gen.strategy(g_fitting), check_parsed, 3500),
    Part("built", gen.strategy(g_built), check_built, 8000),
    Part("bound", gen.strategy(g_bound), check_bound, 3500),
    Part("wide", gen.strategy(g_wide), check_parsed, 2000),
]
REGRESSIONS = [
    ("parsed", [prob(metric=["minimize", op("+", num("1"), op("*", num("2.50"), fn("g")))]), []]),
    ("built", prob(goal=["exists", [["x", ["t", "u"]], ["y", []]], ["eq", ["v", "x"], c("o1")]])),
    ("built", prob(goal=["cmp", ">=", op("-", fn("g"), op("-", num("3"), num("1"))), num("0.00001")])),
    ("built", prob(init=[["assign", fn("g"), num("1")], at("q"), ["not", at("p", "o2")]], reqs=["fluents"])),
    ("built", prob(goal=["and", []], init=[], objects=None)),
]
