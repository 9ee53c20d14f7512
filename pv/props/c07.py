"""C07: printed text is canonical: order and hash seed do not matter."""

from .. import gen, model, render
from ..cases import act, at, c, dom, fn, num, prob
from ..core import Violation, check, lib, parse
from ..harness import Part
from ..peer import PeerError, make, peer

RULE = (
    "A case is a random domain or problem AST and a copy of it whose unordered collections (requirements, types, "
    "constants, predicates, functions, actions, derived predicates, objects, initial facts, quantified variables, "
    "alternative types) are permuted; both are built by constructors (as lists, tuples, sets or frozensets) and by "
    "the parser, here and in a process with another hash seed, and all printed texts must be identical. "
    "Non-trivial: the permuted copy differs from the original."
)
ASSUMPTIONS = ["parameters and and/or operands are ordered; everything else listed in the property is not"]


def perm_types(d, params):
    return [[n, d.shuffled(ts)] for n, ts in params]


def perm_f(d, f):
    k = f[0]
    r = lambda x: perm_f(d, x)  # noqa: E731
    if k in model.BINDERS:
        ps = d.shuffled(perm_types(d, f[1]))
        return [k, sorted(ps, key=lambda p: not p[1]), r(f[2])]
    if k in ("and", "or", "oneof"):
        return [k, [r(x) for x in f[1]]]
    if k == "not":
        return [k, r(f[1])]
    if k in ("imply", "when"):
        return [k, r(f[1]), r(f[2])]
    return f


def untyped_last(xs):
    return sorted(xs, key=lambda x: x[1] is None)


def perm_domain(d, ast):
    out = dict(ast)
    out["reqs"] = d.shuffled(ast["reqs"])
    if ast["types"]:
        out["types"] = untyped_last(d.shuffled(ast["types"]))
    if ast["consts"]:
        out["consts"] = untyped_last(d.shuffled(ast["consts"]))
    out["preds"] = [[n, perm_types(d, ps)] for n, ps in d.shuffled(ast["preds"])]
    out["funcs"] = sorted(
        [[n, perm_types(d, ps), x] for n, ps, x in d.shuffled(ast["funcs"])], key=lambda x: not x[2]
    )
    ss = []
    for s in d.shuffled(ast["structs"]):
        ss.append([s[0], s[1], perm_types(d, s[2])] + [f if f is None else perm_f(d, f) for f in s[3:]])
    out["structs"] = ss
    return out


def perm_problem(d, ast):
    out = dict(ast)
    out["reqs"] = d.shuffled(ast["reqs"])
    if ast["objects"]:
        out["objects"] = untyped_last(d.shuffled(ast["objects"]))
    out["init"] = d.shuffled(ast["init"])
    out["goal"] = perm_f(d, ast["goal"])
    return out


COLL = [list, tuple, set, frozenset, lambda x: list(reversed(list(x)))]


def build_with(kind, ast, colls):
    """Build with other kinds of collections."""
    from .. import build
    from pddl.core import Domain, Problem

    if kind == "domain":
        kw = build.domain_kwargs(model.resolve_domain(ast))
        for i, k in enumerate(["requirements", "constants", "predicates", "derived_predicates", "actions"]):
            kw[k] = COLL[colls[i % len(colls)]](kw[k])
        return Domain(**kw)
    kw = build.problem_kwargs(model.resolve_problem(ast))
    for i, k in enumerate(["requirements", "objects", "init"]):
        if kw[k] is not None:
            kw[k] = COLL[colls[i % len(colls)]](kw[k])
    return Problem(**kw)


def check_perm(case):
    kind, a, b, colls, use_peer = case
    texts = {}
    for what, x in (("original", a), ("permuted", b)):
        texts[f"built from the {what}"] = lib("printing", str, lib("building", make, kind, x))
        texts[f"parsed from the {what}"] = lib("printing", str, parse(kind, render.text_of(kind, x)))
    texts["built with other collections"] = lib("printing", str, lib("building", build_with, kind, b, colls))
    if use_peer:
        try:
            texts["built under another hash seed"] = peer().ask("text", kind, b, "build")
            texts["parsed under another hash seed"] = peer().ask("text", kind, a, "parse")
        except PeerError as e:
            raise Violation(f"failure under another hash seed: {e}") from None
    ref_b, ref_p = texts["built from the original"], texts["parsed from the original"]
    for what, t in texts.items():
        ref = ref_b if what.startswith("built") else ref_p
        check(t == ref, f"the text {what} differs", ref, t)
    return a != b, [kind] + (["peer"] if use_peer else [])


def g_case(d):
    colls = [d.i(0, 4) for _ in range(3)]
    if d.b(1, 3):
        a = gen.gen_problem(d)
        return ["problem", a, perm_problem(d, a), colls, d.b(1, 2)]
    a, _ = gen.gen_domain(d, twins=True)
    return ["domain", a, perm_domain(d, a), colls, d.b(1, 2)]


def g_quant(d):
    """Domains full of quantifiers and alternative types."""
    a, _ = gen.gen_domain(d, features=["typing", "exists", "forall", "cond", "fluents"], small=True, structs=d.i(1, 3))
    return ["domain", a, perm_domain(d, a), [d.i(0, 4) for _ in range(3)], d.b(1, 2)]


PARTS = [
    Part("perm", gen.strategy(g_case), check_perm, 4500),
    Part("quantifiers", gen.strategy(g_quant), check_perm, 2000),
]
Q1 = [["x", ["t", "u", "w"]], ["y", ["w", "u"]], ["a", []], ["b", []]]
Q2 = [["y", ["u", "w"]], ["x", ["w", "t", "u"]], ["b", []], ["a", []]]
REGRESSIONS = [
    (
        "perm",
        ["domain", dom(act("a", [["z", ["t", "u"]]], ["exists", Q1, at("p", "?x")], ["eforall", Q1, at("p", "?a")])),
         dom(act("a", [["z", ["u", "t"]]], ["exists", Q2, at("p", "?x")], ["eforall", Q2, at("p", "?a")])), [2, 3, 4], True],
    ),
    (
        "perm",
        ["problem", prob(init=[at("q"), at("p", "o1"), ["assign", fn("g"), num("1")], ["not", at("p", "o2")]]),
         prob(init=[["not", at("p", "o2")], ["assign", fn("g"), num("1")], at("p", "o1"), at("q")]), [2, 3, 4], True],
    ),
]
