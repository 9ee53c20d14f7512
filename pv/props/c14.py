"""C14: a problem is accepted against a domain exactly when it fits."""

import copy

from .. import build, gen, model, render
from ..cases import at, c, dom, fn, num, prob
from ..core import Violation, check, lib, outcome, parse, short_tb
from ..harness import Part
from .c13 import bad_type

RULE = (
    "A case is a random domain, a problem written for it, and 0-3 edits of the problem (domain name in another case or "
    "another name; requirements a subset, an extra one, one only implied by the domain's; an undeclared type on an "
    "object, on a quantified variable deep in the goal, on a constant inside a built fact or goal; typing removed "
    "from the domain). The verdict of an explicit check, of assigning the domain and of the constructor is compared "
    "with a reference, and a rejected assignment must leave the problem as it was. A second part puts non-literals among the initial facts. Non-trivial: the problem has at least "
    "one fault, or it declares requirements, typed objects and a goal with a quantifier or two facts."
)
ASSUMPTIONS = [
    "assigning the domain takes over its name, so it never fails on names",
    "the constructor, given both a domain and requirements, wants them to be the domain's (ValueError otherwise)",
    "comparisons among the initial facts: no demand",
]


def types_of(f):
    out = set()
    for n in model.walk(f):
        for t in model.terms_of(n):
            out.update(t[2])
        if n[0] in model.BINDERS:
            for _, ts in n[1]:
                out.update(ts)
    return out


def used(rp):
    out = {t for _, t in rp["objects"] or [] if t} | types_of(rp["goal"])
    for e in rp["init"]:
        out |= types_of(e[1]) if e[0] == "assign" else types_of(e)
    return out


def typing_fault(rd, rp):
    u = used(rp)
    if u - model.type_names(rd["types"]):
        return "undeclared type"
    if u and not {"typing", "adl"} & set(rd["reqs"]):
        return "typing is not enabled"
    return None


def verdict(what, res, x, fault, text, cls=None):
    from pddl.exceptions import PDDLValidationError

    if fault is None:
        check(res == "ok", f"{what}: a fitting problem is rejected: {x!r}"[:900], text)
    else:
        check(res == "err", f"{what}: accepted in spite of: {fault}", text)
        ok = isinstance(x, cls or PDDLValidationError)
        check(ok, f"{what}: rejected ({fault}), but with {short_tb(x) if res == 'err' else x}", text)


def check_fit(case):
    via, dast, past, typed, empty_reqs = case
    rd = model.resolve_domain(dast)
    rp = model.resolve_problem(past)
    text = render.text_of("domain", dast) + "\n  " + render.text_of("problem", past)
    if via == "build":
        if any(len(e) > 2 for e in typed):
            rp["init"] = [f for i, f in enumerate(rp["init"]) if f not in rp["init"][:i]]
        for name, ty, *only in typed:
            places = rp["init"] + [rp["goal"]]
            for f in [places[i % len(places)] for i in only] or places:
                for n in model.walk(f[1] if f[0] == "assign" else f):
                    for t in model.terms_of(n):
                        if t[:2] == ["c", name]:
                            t[2] = [ty]
        text += f"\n  {typed}"
        domain = lib("building the domain", build.domain, rd)

        def fresh():
            kw = build.problem_kwargs(rp)
            if not rp["reqs"] and empty_reqs:
                kw["requirements"] = []
            return build.Problem(**kw)

    else:
        domain = parse("domain", render.text_of("domain", dast))

        def fresh():
            return parse("problem", render.text_of("problem", past))

    typ = typing_fault(rd, rp)
    name = None if rp["domain"].lower() == rd["name"].lower() else "another domain name"
    extra = set(rp["reqs"]) - set(rd["reqs"])
    req = "undeclared requirements" if extra else None

    p = lib("making the problem", fresh)
    verdict("check", *outcome(p.check, domain), name or req or typ, text)
    verdict("check again", *outcome(p.check, domain), name or req or typ, text)
    # a domain that cannot be told from the first by its name and requirements
    rl = dict(rd, types=[], consts=[], preds=[], funcs=[], structs=[])
    lesser = build.Domain(rd["name"], requirements=build.reqs(rd["reqs"]))
    verdict("check with no types declared", *outcome(p.check, lesser), name or req or typing_fault(rl, rp), text)
    verdict("check once more", *outcome(p.check, domain), name or req or typ, text)
    p = fresh()
    verdict("assigning", *outcome(lambda: setattr(p, "domain", domain)), req or typ, text)
    if req or typ:
        q = fresh()
        check(p == q and str(p) == str(q) and p.domain_name == q.domain_name, "the rejected domain is kept", str(q), str(p), text)
        check(outcome(lambda: p.domain)[0] == "err", "the rejected domain is the problem's domain", text)
    else:
        check(p.domain is domain and p.domain_name == domain.name, "the domain assigned is not the problem's", text)
        before = str(p)
        bare = build.Domain("bare-domain")
        no = ("undeclared requirements" if rp["reqs"] else None) or ("types used" if used(rp) else None)
        verdict("assigning a bare domain", *outcome(lambda: setattr(p, "domain", bare)), no, text)
        check(p.domain is (domain if no else bare), "the problem's domain after assigning a bare one", text)
        check(not no or str(p) == before, "a rejected domain changed the problem's text", before, str(p), text)
    # the constructor
    kw = build.problem_kwargs(rp)
    if via == "parse":
        kw.update(objects=p.objects, init=p.init, goal=p.goal, metric=p.metric)
    kw.pop("domain_name")
    kw.pop("requirements")
    verdict("constructor", *outcome(lambda: build.Problem(domain=domain, **kw)), typ, text)
    rq = build.reqs(rd["reqs"])
    verdict("constructor", *outcome(lambda: build.Problem(domain=domain, requirements=rq, **kw)), typ, text)
    if set(rp["reqs"]) != set(rd["reqs"]):
        rq = build.reqs(rp["reqs"])
        verdict(
            "constructor with other requirements",
            *outcome(lambda: build.Problem(domain=domain, requirements=rq, **kw)),
            "requirements differ",
            text,
            (ValueError, build_error()),
        )
    for other in (rd["name"] + "-other", rd["name"].swapcase()):
        verdict(
            "constructor with another domain name",
            *outcome(lambda: build.Problem(domain=domain, domain_name=other, **kw)),
            "names differ",
            text,
            (ValueError, build_error()),
        )
    verdict("constructor with the name", *outcome(lambda: build.Problem(domain=domain, domain_name=rd["name"], **kw)), typ, text)
    fs = [f for f in (name, req, typ) if f]
    rich = bool(rp["reqs"]) and len(used(rp)) > 0 and (rp["goal"][0] in ("exists", "forall") or len(rp["init"]) > 1)
    return bool(fs) or rich, [via] + (fs or ["fits"])


def build_error():
    from pddl.exceptions import PDDLError

    return PDDLError


def g_fit(d):
    plain = d.b(1, 6)
    if plain:  # a domain without typing that may still declare types
        dast, ctx = gen.gen_domain(d, small=True, structs=0, features=d.subset(["fluents", "neg"], 0, 2))
    else:
        dast, ctx = gen.gen_domain(d, small=True, structs=d.i(0, 1))
    dast = copy.deepcopy(dast)
    if plain:
        dast["reqs"] = [r for r in dast["reqs"] if r not in ("typing", "adl")]
    past = copy.deepcopy(gen.gen_problem(d, ctx, dast, small=d.b(1, 2)))
    via = d.pick(["parse", "build"])
    typed = []
    goal_params = [p for n in model.walk(past["goal"]) if n[0] in model.BINDERS for p in n[1]]
    for _ in range(d.pick([0, 1, 1, 1, 2, 3])):
        k = d.i(0, 7)
        if plain and k in (2, 3, 4):
            k = d.pick([5, 6, 7])
        if k == 0:
            past["domain"] = d.pick([n for n in (dast["name"].upper(), gen.recased(dast["name"]), dast["name"].lower()) if n not in gen.KEYWORDS])
        elif k == 1:
            past["domain"] = d.pick([dast["name"] + "x", "x" + dast["name"], dast["name"][:-1] or "zz", dast["name"] + "-"])
            if past["domain"].lower() in gen.KEYWORDS or not past["domain"][0].isalpha():
                past["domain"] = "zz"
        elif k == 2:
            past["reqs"] = list(dast["reqs"])
        elif k == 3:
            past["reqs"] = d.shuffled(past["reqs"] + [d.pick([r for r in gen.ALL_REQS if r not in past["reqs"]])])
        elif k == 4:
            # implied by what the domain declares, but not declared
            imp = [r for r in ("typing", "strips", "equality", "disjunctive-preconditions") if "adl" in dast["reqs"]]
            imp += ["numeric-fluents"] if "fluents" in dast["reqs"] else []
            imp += ["universal-preconditions"] if "quantified-preconditions" in dast["reqs"] else []
            if imp:
                r = d.pick(imp)
                if r not in past["reqs"]:
                    past["reqs"] = past["reqs"] + [r]
        elif k == 5:
            if not past["objects"]:
                past["objects"] = [[d.name([n for n, _ in dast["consts"] or []]), None]]
            o = d.pick(past["objects"])
            twins = [x for x in past["objects"] if x[0] in [n for n, _ in dast["consts"] or []]]
            if twins and d.b(1, 2):
                o = d.pick(twins)
            o[1] = d.pick([n for n, _ in dast["types"] or []] + ["object"]) if plain else bad_type(d, dast)
            past["objects"].sort(key=lambda x: x[1] is None)
        elif k == 6:
            if goal_params and d.b(1, 2):
                n = d.pick([m for m in model.walk(past["goal"]) if m[0] in model.BINDERS and m[1]] or [None])
                if n:
                    v = d.pick(n[1])[0]
                    n[1][:] = [[m, [bad_type(d, dast)] if m == v else ts] for m, ts in n[1]]
                    seen = {}
                    for m, ts in n[1]:
                        seen.setdefault(m, ts)
                    n[1][:] = sorted([[m, ts] for m, ts in seen.items()], key=lambda x: not x[1])
            else:
                ty = d.pick([bad_type(d, dast), "object"] + [n for n, _ in dast["types"] or []])
                past["goal"] = ["and", [past["goal"], [d.pick(["exists", "forall"]), [["z", [ty]]], past["goal"]]]]
        elif k == 7 and via == "build":
            names = sorted(
                {t[1] for e in past["init"] + [past["goal"]] for n in model.walk(e[1] if e[0] == "assign" else e) for t in model.terms_of(n) if t[0] == "c"}
            )
            if names:
                typed.append([d.pick(names), d.pick([n for n, _ in dast["types"] or []] + ["object", bad_type(d, dast)])])
                if d.b(1, 2):  # in one of the facts, or in the goal, only
                    places = past["init"] + [past["goal"]]
                    i = d.i(0, len(places) - 1)
                    here = [t[1] for n in model.walk(places[i][1] if places[i][0] == "assign" else places[i]) for t in model.terms_of(n) if t[0] == "c"]
                    if here:
                        typed[-1] = [d.pick(sorted(set(here))), bad_type(d, dast), i]
    return [via, dast, past, typed, d.b(1, 2)]


# ------------------------------------------------------------- non-literals


def check_literals(case):
    rp, extra, literal = case
    from pddl.exceptions import PDDLValidationError

    kw = build.problem_kwargs(model.resolve_problem(rp))
    objs = [build.tree(e) for e in extra]
    kw["init"] = kw["init"] + objs
    res, x = outcome(lambda: build.Problem(**kw))
    text = f"{list(map(str, kw['init']))}"
    if literal:
        check(res == "ok", f"initial facts that are all literals are rejected: {x!r}"[:600], text)
    else:
        check(res == "err", "an initial fact that is not a literal is accepted", text)
        check(isinstance(x, PDDLValidationError), f"non-literal fact rejected, but with {x!r}", text)
    return len(kw["init"]) > 1, ["literals" if literal else extra[0][0]]


def g_literals(d):
    a = ["atom", "p", [["c", d.name(), []]]]
    b = ["atom", "q", []]
    n = ["not", d.pick([a, b])]
    p = prob(objects=None, init=d.subset([["atom", "q", []], ["atom", "s", [["c", "x"]]], ["not", ["atom", "q", []]]], 0, 3), domain="d")
    if d.b(1, 3):
        return [p, d.subset([a, b, ["not", a], ["not", b]], 1, 4), True]
    inner = d.pick([a, b, n])
    f = d.pick(
        [
            [d.pick(["and", "or"]), d.shuffled([a, b])],
            [d.pick(["and", "or"]), d.shuffled([a, b, n])],
            ["and", []],
            ["or", []],
            ["imply", inner, b],
            [d.pick(["exists", "forall"]), [["z", []]], inner],
            ["when", b, inner],
            ["eforall", [["z", []]], inner],
            ["oneof", [inner]],
            ["oneof", [a, b]],
        ]
    )
    if f[0] not in ("when", "eforall", "oneof") and d.b(1, 3):
        f = ["not", f]
    rest = d.subset([a, b], 0, 2)
    return [p, [f] + rest, False]


PARTS = [
    Part("fit", gen.strategy(g_fit), check_fit, 9000),
    Part("literals", gen.strategy(g_literals), check_literals, 2500),
]
D0 = dom()
NT = dom(reqs=["strips"], types=None, consts=None, preds=[["q", []]], funcs=[])
REGRESSIONS = [
    ("fit", [via, d_, p_, t_, False])
    for via in ("parse", "build")
    for d_, p_, t_ in (
        (D0, prob(), []),
        (D0, prob(domain="D"), []),
        (D0, prob(domain="dd"), []),
        (D0, prob(reqs=["typing"]), []),
        (D0, prob(reqs=["adl", "fluents"]), []),
        (D0, prob(objects=[["o", "nope"]]), []),
        (D0, prob(objects=[["o", "object"]]), []),
        (D0, prob(objects=[["k", "nope"]]), []),
        (D0, prob(objects=[["j", "nope"], ["k", "t"]]), []),
        (NT, prob(objects=[["o", "object"]]), []),
        (NT, prob(objects=[["o", None]]), []),
        (D0, prob(goal=["not", ["forall", [["x", ["t", "nope"]]], at("q")]]), []),
        (D0, prob(goal=["or", [at("q"), ["imply", at("q"), ["exists", [["x", ["nope"]]], at("q")]]]]), []),
        (D0, prob(init=[["assign", fn("f", "o1"), num("1")], ["not", at("p", "o2")]]), [["o1", "nope"]]),
        (D0, prob(goal=["cmp", ">", fn("f", "o2"), ["op", "+", [fn("g"), fn("f", "o1")]]]), [["o1", "nope"]]),
        (D0, prob(goal=["eq", c("o1"), c("o2")]), [["o2", "nope"]]),
        (D0, prob(init=[at("p", "o1"), ["not", at("p", "o1")], at("q")]), [["o1", "nope", 1]]),
        (D0, prob(init=[["assign", fn("f", "o1"), num("1")], at("p", "o1")]), [["o1", "nope", 0]]),
        (D0, prob(init=[at("p", "o1")], goal=at("p", "o1")), [["o1", "nope", 1]]),
    )
]
