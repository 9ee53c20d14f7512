"""C28: a rejection names what is wrong."""

import copy
import re

from .. import build, gen, model, render
from ..cases import act, at, der, dom, prob
from ..core import check, lib, outcome, parse, parser, short_tb
from ..harness import Part
from . import c13, c16

RULE = (
    "Every case is a valid random document with one fault, and the message of the error must name the culprit. Part "
    "'requirement': C16's cases; the requirement the error carries (or the text names) must be one that grants a missing "
    "feature, and with it added the error, if any, is about another one. Part 'type': an undeclared type at a random "
    "site (text, constructor, or a problem's objects, facts and goal against its domain): the type and a term that has "
    "it are named. Part 'cycle': hierarchies of up to 9 types with one or two cycles and tails into them: the declared "
    "types named are those of one cycle, all of them. Part 'step': a plan with one bad step: the message of check "
    "has that step, and no other; that of instantiate the unknown action. Part 'item': an undefined constant, a derived "
    "predicate that is not declared, or with another number of arguments or a wider type, a name repeated in a typed list, "
    "an ill-formed name or keyword given to a constructor. Non-trivial: the document is rejected."
)
ASSUMPTIONS = [
    "how the message is worded is free: only the names in it are judged",
    "syntax errors point at a place instead (C27)",
    "facts that are no literals and names or requirements that differ between problem and domain: no demand on the message",
]
BAD = "zq7"


def message(x):
    from lark.exceptions import VisitError

    if isinstance(x, VisitError):
        return f"{x.orig_exc}"
    return str(x)


def words(text):
    return re.findall(r"[A-Za-z][A-Za-z0-9_-]*", text)


# ---------------------------------------------------------------- requirements


def named(x):
    """The requirements the error is about."""
    from lark.exceptions import VisitError
    from pddl.exceptions import PDDLMissingRequirementError

    if isinstance(x, VisitError):
        x = x.orig_exc
    if isinstance(x, PDDLMissingRequirementError):
        r = x.requirement
        check(getattr(r, "value", None) in gen.ALL_REQS, f"the missing requirement is {r!r}", short_tb(x))
        check(r.value in str(x), f"the message does not tell the missing requirement {r.value}", short_tb(x))
        return {r.value}
    text = str(x).replace(" ", "-")
    return {r for r in gen.ALL_REQS if r in text} or {"nothing"}


def check_requirement(case):
    ast, order = case
    used = c16.uses(ast)
    blamed = set()
    reqs = list(order)
    for _ in range(len(used) + 1):
        missing = {f for f in used if not c16.TABLE[f] & set(reqs)}
        if not missing:
            return bool(blamed), ["blamed %d" % len(blamed)] + sorted(blamed)
        text = render.text_of("domain", dict(ast, reqs=reqs))
        res, x = outcome(parser("domain"), text)
        check(res == "err", f"accepted although nothing grants {sorted(missing)}", text)
        grants = set().union(*(c16.TABLE[f] for f in missing))
        got = named(x)
        told = f"{short_tb(x)}\n{text}"
        check(got & grants, f"nothing grants {sorted(missing)}, but the error is about {sorted(got)}", told)
        blamed |= got & grants
        reqs = reqs + sorted(got & grants)
    return True, ["granted one by one"]


def g_requirement(d):
    ast, order = c16.g_gate(d)
    if d.b(1, 2):  # take away one or two of the grants
        used = sorted(c16.uses(ast))
        gone = set()
        for f in d.subset(used, 1, 2) if used else []:
            gone |= c16.TABLE[f]
        order = [r for r in gen.ALL_REQS if r not in gone]
    return [ast, order]


# ---------------------------------------------------------------- types


def bearers(r):
    """Names of what has the undeclared type, in a resolved domain."""
    out = {n for n, t in r["consts"] or [] if t == BAD}
    for _, ps in r["preds"]:
        out |= {n for n, ts in ps if BAD in ts}
    for _, ps, _k in r["funcs"]:
        out |= {n for n, ts in ps if BAD in ts}
    for s in r["structs"]:
        out |= {n for n, ts in s[2] if BAD in ts}
        for f in s[3:]:
            out |= formula_bearers(f)
    return out


def formula_bearers(f):
    out = set()
    if f is None or f[0] == "empty":
        return out
    for n in model.walk(f):
        out |= {t[1] for t in model.terms_of(n) if BAD in t[2]}
        if n[0] in model.BINDERS:
            out |= {v for v, ts in n[1] if BAD in ts}
    return out


def check_type(case):
    via, dast, past, site = case
    r = model.resolve_domain(dast)
    if past is None:
        if via == "build" and site:
            i, j, k = site
            terms = [t for n in model.walk(r["structs"][i][j]) for t in model.terms_of(n)]
            terms[k][1:] = ["zz" + str(k), [BAD]]
        who = bearers(r)
        text = render.text_of("domain", dast)
        res, x = outcome(build.domain, r) if via == "build" else outcome(parser("domain"), text)
    else:
        rp = model.resolve_problem(past)
        if site:
            what, k = site
            f = rp["goal"] if what == "goal" else rp["init"][what]
            terms = [t for n in model.walk(f) for t in model.terms_of(n)]
            terms[k][1:] = ["zz" + str(k), [BAD]]
        who = {n for n, t in rp["objects"] or [] if t == BAD} | formula_bearers(rp["goal"])
        for e in rp["init"]:
            who |= formula_bearers(e[1] if e[0] == "assign" else e)
        text = "\n".join([render.text_of("domain", dast), render.text_of("problem", past), repr(site)])
        domain = lib("building the domain", build.domain, r)
        if via == "parse" and not site:
            problem = parse("problem", render.text_of("problem", past))
        else:
            problem = lib("building the problem", build.problem, rp)
        res, x = outcome(problem.check, domain)
    if not who:
        return False, ["no fault"]
    check(res == "err", f"the undeclared type {BAD} is accepted", text)
    said = words(message(x))
    told = f"{short_tb(x)}\n{text}"
    check(BAD in said, f"the undeclared type {BAD} is not named", told)
    check(who & set(said), f"{sorted(who)} with the undeclared type {BAD}: not named", told)
    return True, [via, "problem" if past else "domain", "inside" if site else "declared"]


def g_type(d):
    dast, ctx = gen.gen_domain(
        d, small=d.b(1, 2), features=None if d.b(1, 3) else ["typing", "exists", "forall", "cond", "fluents", "disj"]
    )
    dast = copy.deepcopy(dast)
    dast["reqs"] = sorted(set(dast["reqs"]) | {"typing"})
    via = d.pick(["parse", "build"])
    if d.b(1, 3):
        past = copy.deepcopy(gen.gen_problem(d, ctx, dast, small=d.b(1, 2)))
        rp = model.resolve_problem(past)
        sites = [[i, k] for i, e in enumerate(rp["init"]) for k in range(len(terms_in(e)))]
        sites += [["goal", k] for k in range(len(terms_in(rp["goal"])))]
        binders = [n for n in model.walk(past["goal"]) if n[0] in model.BINDERS and n[1]]
        m = d.i(0, 2)
        if m == 0 and sites:
            return [via, dast, past, d.pick(sites)]
        if m == 1 and binders:
            p = d.pick(d.pick(binders)[1])
            p[1] = [BAD] if d.b(1, 2) else d.shuffled(p[1] + [BAD])
            for n in binders:
                c13_fix(n[1])
        elif past["objects"]:
            o = d.pick(past["objects"])
            o[1] = BAD
            past["objects"].sort(key=lambda x: x[1] is None)
        return [via, dast, past, None]
    if via == "parse":
        for s in dast["structs"]:
            if s[0] == "derived":
                s[2] = [[v, []] for v, _ in s[2]]
    sites = c13.param_sites(dast)
    m = d.i(0, 2)
    if m == 0 and via == "build":
        r = model.resolve_domain(dast)
        deep = [[i, j, k] for i, s in enumerate(r["structs"]) for j in range(3, len(s)) for k in range(len(terms_in(s[j])))]
        if deep:
            return [via, dast, None, d.pick(deep)]
    if dast["consts"] and (m == 1 or not sites):
        k = d.pick(dast["consts"])
        k[1] = BAD
        dast["consts"].sort(key=lambda x: x[1] is None)
    elif sites:
        w = d.pick(sorted({w for w, _ in sites}))
        p = d.pick([q for v, q in sites if v == w])
        p[1] = d.shuffled(p[1] + [BAD]) if p[1] and d.b(1, 2) else [BAD]
        c13.untyped_last(dast)
    return [via, dast, None, None]


def terms_in(f):
    if f is None or f[0] == "empty":
        return []
    return [t for n in model.walk(f) for t in model.terms_of(n)]


def c13_fix(ps):
    types = {}
    for n, ts in ps:
        if len(ts) >= len(types.get(n, [])):
            types[n] = ts
    ps[:] = sorted(([n, list(types[n])] for n, _ in ps), key=lambda p: not p[1])


# ---------------------------------------------------------------- cycles


def cycles(types):
    """The sets of nodes of the cycles of a functional graph."""
    up = dict(types)
    out = []
    for n in up:
        seen = []
        while n is not None and n not in seen:
            seen.append(n)
            n = up.get(n)
        if n is not None:
            c = set(seen[seen.index(n) :])
            if c not in out:
                out.append(c)
    return out


def check_cycle(case):
    via, types = case
    found = cycles(types)
    ast = {"name": "d", "reqs": ["typing"], "types": types, "consts": None, "preds": [], "funcs": [], "structs": []}
    text = render.text_of("domain", ast)
    if via == "build":
        res, x = outcome(build.domain, model.resolve_domain(ast))
    else:
        res, x = outcome(parser("domain"), text)
    if not found:
        check(res == "ok", "a hierarchy without cycles is rejected", repr(x), text)
        return False, ["no cycle"]
    check(res == "err", "a cyclic hierarchy is accepted", text)
    all_names = {n for n, _ in types} | {p for _, p in types if p}
    said = set(words(message(x))) & all_names
    check(said in found, f"cycles {[sorted(c) for c in found]}, but {sorted(said)} are named", f"{short_tb(x)}\n{text}")
    tail = any(p in c and n not in c for n, p in types for c in found)
    return True, ["with a tail" if tail else "alone", f"length {len(said)}", f"cycles {len(found)}"]


def g_cycle(d):
    names = d.shuffled([f"z{i}" for i in range(1, d.pick([d.i(2, 10), d.i(2, 10), d.i(11, 60)]))])
    types = []
    for n in names:
        types.append([n, d.pick(names) if d.b(5, 6) else d.pick([None, "zroot", "object"])])
    if d.b(2, 3):  # one cycle, and tails into it
        k = d.i(1, len(names))
        ring = names[:k]
        types = [[n, ring[(i + 1) % k]] for i, n in enumerate(ring)]
        for i, n in enumerate(names[k:]):
            types.append([n, d.pick(names[: k + i] + [None])])
    return [d.pick(["parse", "build"]), sorted(d.shuffled(types), key=lambda x: x[1] is None)]


# ---------------------------------------------------------------- plans


def flat(text):
    return " ".join(re.sub(r"([()])", r" \1 ", text).split())


def check_step(case):
    via, dast, past, good, at_, bad = case
    domain = lib("building", build.domain, model.resolve_domain(dast))
    problem = lib("building", build.problem, model.resolve_problem(past))
    steps = good[:at_] + [bad] + good[at_:]
    plan = lib("building", build.plan, steps) if via == "build" else parse("plan", render.text_of("plan", steps))
    schemas = {s[1]: len(model.dedup_params(s[2])) for s in dast["structs"] if s[0] == "action"}
    known = {n for n, _ in dast["consts"] or []} | {n for n, _ in past["objects"] or []}
    n, args = bad
    unknown, arity = n not in schemas, n in schemas and len(args) != schemas[n]
    foreign = set(args) - known
    if not (unknown or arity or foreign):
        return False, ["fits"]
    text = "\n".join([render.text_of("domain", dast), render.text_of("problem", past), repr(steps)])
    res, x = outcome(plan.check, domain, problem)
    check(res == "err", "a plan with a bad step passes the check", text)
    said = flat(message(x))
    check(flat(show(bad)) in said, f"the bad step {show(bad)} is not told", short_tb(x), text)
    for g in good:
        check(flat(show(g)) not in said, f"the good step {show(g)} is told instead of {show(bad)}", short_tb(x), text)
    if unknown:
        res, x = outcome(plan.instantiate, domain)
        check(res == "err", "instantiating a plan with an unknown action succeeds", text)
        check(n in words(message(x)), f"instantiating: the unknown action {n} is not named", short_tb(x), text)
    elif arity:
        res, x = outcome(plan.instantiate, domain)
        check(res == "err", "instantiating a step with a wrong number of arguments succeeds", text)
    return True, ["unknown action" if unknown else "arity" if arity else "object"]


def show(step):
    return "(" + " ".join([step[0]] + list(step[1])) + ")"


def g_step(d):
    from .c15 import g_plan, near

    _v, dast, past, _steps = g_plan(d)
    acts = [(s[1], len(model.dedup_params(s[2]))) for s in dast["structs"] if s[0] == "action"]
    known = [n for n, _ in (dast["consts"] or [])] + [n for n, _ in past["objects"] or []]
    usable = [a for a in acts if known or not a[1]]
    good = []
    for _ in range(d.i(0, 5)):
        if usable:
            n, ar = d.pick(usable)
            good.append([n, [d.pick(known) for _ in range(ar)]])
    n, ar = d.pick(usable) if usable else ("no-such", 0)
    args = [d.pick(known) for _ in range(ar)]
    m = d.i(0, 5)
    if m == 0 or not usable:
        n = near(d, n, [a for a, _ in acts])
    elif m == 1 and args:
        args = args[:-1]
    elif m <= 2 or not args:
        args = args + [d.pick(known or ["o"])]
    else:
        j = d.i(0, len(args) - 1)
        args[j] = near(d, args[j], known)
    return [d.pick(["parse", "build"]), dast, past, good, d.i(0, len(good)), [n, args]]


# ---------------------------------------------------------------- single items


def check_item(case):
    what = case[0]
    res, x, culprits, told = ITEMS[what](*case[1:])
    if culprits is None:
        return False, ["no fault"]
    check(res == "err", f"{what}: accepted", told)
    msg = message(x)
    for c in culprits:
        check(c in words(msg) or f"'{c}'" in msg or repr(c) in msg, f"{what}: {c!r} is not named", f"{short_tb(x)}\n{told}")
    return True, [what]


def of_domain(ast):
    text = render.text_of("domain", ast)
    return *outcome(parser("domain"), text), text


def i_constant(ast, i, j, k):
    ast = copy.deepcopy(ast)
    s = ast["structs"][i]
    terms = terms_in(s[j])
    if s[j] is None or k >= len(terms):
        return None, None, None, ""
    terms[k][:] = ["c", "zc9"]
    res, x, text = of_domain(ast)
    return res, x, ["zc9"], text


def i_undeclared(ast, i):
    ast = copy.deepcopy(ast)
    ast["structs"][i][1] = "zp9"
    res, x, text = of_domain(ast)
    return res, x, ["zp9"], text


def i_arity(ast, i, k):
    ast = copy.deepcopy(ast)
    s = ast["structs"][i]
    s[2] = s[2] + [[f"zv{n}", []] for n in range(k)]
    s[2].sort(key=lambda p: not p[1])
    res, x, text = of_domain(ast)
    return res, x, [s[1]], text


def i_wider(via_either, types, at_, n):
    """A derived head whose argument has a type that is not below the declared one."""
    below = types[0][0]
    head = [[f"y{i}", ["object"]] for i in range(n)]
    decl = [[f"x{i}", ["object"]] for i in range(n)]
    decl[at_] = [f"x{at_}", [below]]
    head[at_] = ["zv9", ["zwide"]]
    if via_either:
        head[at_][1] = sorted([below, "zwide"])
    ast = dom(
        der("zp8", head, at("q")), types=types + [["zwide", None]], consts=None, preds=[["q", []], ["zp8", decl]], funcs=[]
    )
    res, x, text = of_domain(ast)
    return res, x, ["zwide", "zv9", "zp8"], text


def i_twice(section, names, i, same):
    names = list(names)
    names.insert(i, names[0] if i else names[-1])
    culprit = names[i]
    items = [[n, "t" if same else None] for n in names]
    ast = dom(types=[["t", None]], consts=None, preds=[], funcs=[])
    if section == "types":
        ast["types"] = items + ([] if same else [["t", None]])
    if section == "consts":
        ast["consts"] = items
    if section == "objects":
        p = prob(objects=items, init=[], goal=["and", []])
        text = render.text_of("problem", p)
        return *outcome(parser("problem"), text), [culprit], text
    if section == "action":
        ast["structs"] = [act(n) for n in names]
        res, x = outcome(build.domain, model.resolve_domain(ast))
        if res == "ok":  # equal actions given twice: C24 and C26 say what happens
            return None, None, None, ""
        return res, x, [culprit], repr(names)
    res, x, text = of_domain(ast)
    return res, x, [culprit], text


def i_name(what, w):
    from pddl.action import Action
    from pddl.core import Domain, Problem
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable
    from pddl.requirements import Requirements

    make = {
        "constant": lambda: Constant(w),
        "constant type": lambda: Constant("k", w),
        "variable": lambda: Variable(w),
        "variable type": lambda: Variable("k", ["t", w]),
        "predicate": lambda: Predicate(w),
        "function": lambda: NumericFunction(w),
        "action": lambda: Action(w, []),
        "domain": lambda: Domain(w),
        "problem": lambda: Problem(w, domain_name="d"),
        "type": lambda: Domain("d", requirements=[Requirements.TYPING], types={"a": None, w: None}),
        "supertype": lambda: Domain("d", requirements=[Requirements.TYPING], types={"a": w}),
    }[what]
    return *outcome(make), [w], f"{what} {w!r}"


def i_mixed(pred, names, i, a, b):
    """One name with two types in an atom."""
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Variable

    terms = [Variable(n) for n in names]
    terms.insert(i, Variable("zv5", a))
    terms.append(Variable("zv5", b))
    return *outcome(Predicate, pred, *terms), ["zv5"], repr(terms)


ITEMS = {
    "undefined constant": i_constant,
    "derived predicate not declared": i_undeclared,
    "derived predicate with another number of arguments": i_arity,
    "derived predicate with a wider type": i_wider,
    "declared twice": i_twice,
    "bad name": i_name,
    "variable with two types": i_mixed,
}
NAMED = ["constant", "constant type", "variable", "variable type", "predicate", "function", "action", "domain", "problem", "type", "supertype"]


def g_item(d):
    what = d.pick(sorted(ITEMS))
    if what in ("undefined constant", "derived predicate not declared", "derived predicate with another number of arguments"):
        ast, _ = gen.gen_domain(d, small=d.b(1, 2))
        ast = copy.deepcopy(ast)
        if what == "undefined constant":
            sites = [
                [i, j, k] for i, s in enumerate(ast["structs"]) for j in range(3, len(s)) for k in range(len(terms_in(s[j])))
            ]
            if sites:
                return [what, ast] + d.pick(sites)
        else:
            names = [n for n, _ in ast["preds"]]
            sites = [i for i, s in enumerate(ast["structs"]) if s[0] == "derived" and names.count(s[1]) == 1]
            if sites:
                i = d.pick(sites)
                return [what, ast, i] if what.endswith("declared") else [what, ast, i, d.i(1, 3)]
        what = "bad name"
    if what == "derived predicate with a wider type":
        names = d.shuffled(["t1", "t2", "t3", "t4"])[: d.i(1, 4)]
        types = [[n, d.pick([None, "zwide"] + names[i + 1 :])] for i, n in enumerate(names)]
        n = d.i(1, 4)
        return [what, d.b(1, 2), sorted(types, key=lambda p: p[1] is None), d.i(0, n - 1), n]
    if what == "declared twice":
        section = d.pick(["types", "consts", "objects", "action"])
        names = d.shuffled(["za", "zb", "zc", "zd", "ze"])[: d.i(1, 5)]
        return [what, section, names, d.i(1, len(names)), section != "action" and d.b(1, 2)]
    if what == "variable with two types":
        a, b = d.pick([[["t"], []], [[], ["t"]], [["t"], ["u"]], [["t", "u"], ["t"]], [["u"], ["t", "u"]]])
        names = [f"x{i}" for i in range(d.i(0, 3))]
        return [what, "p", names, d.i(0, len(names)), a, b]
    w = d.pick(sorted(gen.KEYWORDS))
    kind = d.pick(NAMED)
    if d.b(1, 2) or (w == "object" and "type" in kind) or (w == "total-cost" and kind == "function"):
        w = d.pick(["1a", "a.b", "a b", "-x", "_x", "a?", "?a", "a(", "ab;", "x=y"])
    return ["bad name", kind, w]


PARTS = [
    Part("requirement", gen.strategy(g_requirement), check_requirement, 2500),
    Part("type", gen.strategy(g_type), check_type, 4000),
    Part("cycle", gen.strategy(g_cycle), check_cycle, 3000),
    Part("step", gen.strategy(g_step), check_step, 2500),
    Part("item", gen.strategy(g_item), check_item, 4000),
]
A1 = act("a", [["x", ["t"]], ["y", []]], at("r", "?x", "?y"), None)
REGRESSIONS = (
    [
        ("cycle", [via, t])
        for via in ("parse", "build")
        for t in (
            [["z1", "z1"]],
            [["z1", "z2"], ["z2", "z1"]],
            [["z3", "z1"], ["z1", "z2"], ["z2", "z1"]],
            [["z4", "z3"], ["z3", "z1"], ["z1", "z2"], ["z2", "z1"]],
            [["z1", "z2"], ["z2", "z1"], ["z3", "z4"], ["z4", "z3"], ["z5", "z4"]],
        )
    ]
    + [("requirement", [dom(s, reqs=[], **c16.BASE), [q for q in gen.ALL_REQS if q not in c16.TABLE[f]]])
       for f, s in (("disj", c16.USES["or"]), ("disj", c16.USES["imply"]), ("exists", c16.USES["exists"]), ("forall", c16.USES["exists"]),
                    ("eq", c16.USES["eq"]), ("nondet", c16.USES["oneof"]), ("typing", c16.USES["typed parameter"]))]
    + [("requirement", [dom(reqs=[], **{**c16.BASE, **kw}), []])
       for kw in ({"funcs": [["f", [], True]]}, {"funcs": [["total-cost", [], True]]}, {"types": [["a", "b"]]}, {"consts": [["k", "object"]]})]
    + [("item", ["bad name", k, w]) for k in NAMED for w in ("define", "1a", "a.b")]
    + [("step", ["build", dom(A1), prob(), [["a", ["o1", "o2"]]], i, b])
       for i in (0, 1) for b in (["zz", []], ["a", ["o1"]], ["a", ["o1", "nope"]], ["a", ["nope", "nope"]])]
)
