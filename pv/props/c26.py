"""C26: constructors and helpers build exactly what they are given."""

from .. import build, gen, model, view
from ..cases import act, at, der, dom, fn, num, prob
from ..core import check, lib, outcome
from ..harness import Part

RULE = (
    "Part 'documents': a random domain, problem and plan are built with every collection given as a list, a tuple, a set, "
    "a frozenset or the keys of a dict, in any order, names as str or as the library's own name type, optional arguments "
    "omitted, None or empty, and the domain given by name or as an object; the public attributes must hold exactly the "
    "content given. Part 'formula': every formula, effect and expression object has exactly the parts it was built from. "
    "Part 'call': a predicate or function applied to other terms equals the one constructed from them, the original "
    "stays as it is, another number of terms is an error, and a predicate with a variable of two different types is a "
    "ValueError. Part 'helpers': variables() and constants() give one term per word, in order, each with the types. "
    "Non-trivial: a document with an action or two facts; a formula of depth 3 or more; a call with a term; two words."
)
ASSUMPTIONS = [
    "applying a function to terms of other types than its own: no demand",
    "a collection is a sized container (no one-shot iterators)",
]


# ---------------------------------------------------------------- documents

KINDS = [list, tuple, set, frozenset, lambda xs: dict.fromkeys(xs).keys(), lambda xs: dict(enumerate(xs)).values()]


class Style:
    """The way the next collection or name is given."""

    def __init__(self, numbers):
        self.numbers = list(numbers) or [0]
        self.at = 0

    def next(self, n):
        x = self.numbers[self.at % len(self.numbers)]
        self.at += 1
        return x % n

    def many(self, xs):
        xs = list(xs)
        if self.next(3) == 1:
            xs.reverse()
        if not xs:
            return [None, [], (), set(), frozenset(), {}.keys()][self.next(6)]
        return KINDS[self.next(len(KINDS))](xs)

    def seq(self, xs):
        return [list, tuple][self.next(2)](xs)

    def name(self, s):
        from pddl.custom_types import name

        if s in (None, "object", "number", "total-cost"):
            return s
        return [str, name, str][self.next(3)](s)


def drop_none(st, kw, keep=()):
    """Leave out some of the optional arguments that are None."""
    return {k: x for k, x in kw.items() if k in keep or x is not None or st.next(2)}


def mk_vars(st, ps):
    return [build.Variable(st.name(n), st.many([st.name(t) for t in ts])) for n, ts in ps]


def mk_domain(st, r):
    from pddl.action import Action
    from pddl.core import Domain

    types = [(st.name(n), st.name(p)) for n, p in r["types"] or []]
    if st.next(2):
        types.reverse()
    actions, derived = [], []
    for s in r["structs"]:
        if s[0] == "derived":
            derived.append(build.DerivedPredicate(build.Predicate(st.name(s[1]), *mk_vars(st, s[2])), build.tree(s[3])))
            continue
        ps = st.seq(mk_vars(st, s[2]))
        if st.next(2):
            actions.append(Action(st.name(s[1]), ps, build.opt(s[3]), build.opt(s[4])))
        else:
            actions.append(Action(**drop_none(st, {"name": st.name(s[1]), "parameters": ps, "precondition": build.opt(s[3]), "effect": build.opt(s[4])})))
    kw = dict(
        requirements=st.many(build.reqs(r["reqs"])),
        types=dict(types) if types else [None, {}][st.next(2)],
        constants=st.many(build.Constant(st.name(n), st.name(t)) for n, t in r["consts"] or []),
        predicates=st.many(build.Predicate(st.name(n), *mk_vars(st, ps)) for n, ps in r["preds"]),
        derived_predicates=st.many(derived),
        functions={build.F.NumericFunction(st.name(n), *mk_vars(st, ps)): ("number" if m else None) for n, ps, m in r["funcs"]}
        or [None, {}][st.next(2)],
        actions=st.many(actions),
    )
    if st.next(3) == 2:
        return Domain(st.name(r["name"]), *kw.values())
    return Domain(st.name(r["name"]), **drop_none(st, kw))


def mk_problem(st, r, domain):
    from pddl.core import Problem

    kw = dict(
        domain=domain,
        domain_name=None if domain is not None and st.next(2) else st.name(r["domain"]),
        requirements=st.many(build.reqs(r["reqs"])) if domain is None else [None, set(domain.requirements), list(domain.requirements)][st.next(3)],
        objects=st.many(build.Constant(st.name(n), st.name(t)) for n, t in r["objects"] or []),
        init=st.many(map(build.init_el, r["init"])),
        goal=[build.tree(r["goal"]), None][st.next(2)] if r["goal"] == ["and", []] else build.tree(r["goal"]),
        metric=None,
    )
    if r["metric"]:
        e = build.tree(r["metric"][1])
        kw["metric"] = build.F.Metric(e) if r["metric"][0] == "minimize" and st.next(2) else build.F.Metric(e, r["metric"][0])
    if st.next(3) == 2:
        return Problem(st.name(r["name"]), *kw.values())
    return Problem(st.name(r["name"]), **drop_none(st, kw))


def check_documents(case):
    st = Style(case[3])
    build.collect[0] = st.many
    try:
        return documents(case, st)
    finally:
        build.collect[0] = list


def documents(case, st):
    dast, past, steps, numbers = case
    text = f"{dast}\n  {past}\n  {steps}\n  {numbers}"
    rd = model.resolve_domain(dast)
    domain = lib("building a domain", mk_domain, st, rd)
    e, a = model.domain_c(rd, resolved=True), view.domain_c(domain)
    check(e == a, "the domain is not what its constructor was given", view.diff(e, a), text)
    for x in domain.actions:
        check(list(x.terms) == list(x.parameters), "the terms of an action are not its parameters", text)
    rp = model.resolve_problem(past)
    given = [None, None, domain][st.next(3)]
    if given is not None:
        rp = dict(rp, domain=rd["name"], reqs=rd["reqs"])
        if not fits(domain, rp):
            given = None
    problem = lib("building a problem", mk_problem, st, rp, given)
    e, a = problem_content(rp), view.problem_c(problem)
    check(e == a, "the problem is not what its constructor was given", view.diff(e, a), text)
    if given is not None:
        check(problem.domain is domain, "the domain of the problem is not the one given", text)
    else:
        check(outcome(lambda: problem.domain)[0] == "err", "a problem with no domain has one", text)
    from pddl.core import Plan

    plan = lib("building a plan", lambda: Plan(st.seq((st.name(n), st.seq([build.Constant(st.name(x)) for x in xs])) for n, xs in steps)))
    e, a = [(n, tuple(xs)) for n, xs in steps], view.plan_c(plan)
    check(e == a, "the plan is not what its constructor was given", view.diff(e, a), text)
    return bool(rd["structs"]) or len(rp["init"]) > 1, ["domain given" if given is not None else "domain name"]


def fits(domain, rp):
    """The problem can be built with the domain (C14 decides that)."""
    return outcome(build.problem(rp).check, domain)[0] == "ok"


def problem_content(r):
    return {
        "name": r["name"],
        "domain": r["domain"],
        "reqs": frozenset(r["reqs"] or []),
        "objects": {n: t for n, t in (r["objects"] or [])},
        "init": frozenset(model.drop_const_types(model.init_c(x)) for x in r["init"]),
        "goal": model.drop_const_types(model.canon(r["goal"])),
        "metric": None if not r["metric"] else (r["metric"][0], model.drop_const_types(model.canon(r["metric"][1]))),
    }


def g_documents(d):
    dast, ctx = gen.gen_domain(d, small=d.b(1, 2), free_order=d.b(1, 2))
    past = gen.gen_problem(d, ctx, dast, small=d.b(1, 2))
    return [dast, past, gen.gen_plan(d), [d.i(0, 11) for _ in range(d.pick([0, 1, 5, 11, 23]))]]


# ------------------------------------------------------------------ formula


def canon(f):
    return (f[1], model.canon(f[2])) if f[0] == "metric" else model.canon(f)


def check_formula(case):
    build.collect[0] = KINDS[sum(map(len, map(str, case))) % len(KINDS)]
    try:
        return formula(case)
    finally:
        build.collect[0] = list


def formula(case):
    for f in case:
        x = lib("building", build.tree, f)
        e, a = canon(f), canon(view.guarded(view.tree, x))
        check(e == a, "the object does not have the parts it was built from", view.diff(e, a), str(f), str(x))
    return max(model.depth(f[-1] if f[0] == "metric" else f) for f in case) > 3, [f[0] for f in case]


def g_formula(d):
    dast, _ = gen.gen_domain(d, small=d.b(1, 2), free_order=True)
    r = model.resolve_domain(dast)
    out = [f for s in r["structs"] for f in s[3:] if f is not None and f != ["empty"]]
    p = model.resolve_problem(gen.gen_problem(d, small=True))
    if p["metric"]:
        out.append(["metric", *p["metric"]])
    return out + [p["goal"]]


# --------------------------------------------------------------------- call


def mixed(terms):
    """A variable occurs with two different sets of types."""
    seen = {}
    for t in terms:
        if t[0] == "v" and seen.setdefault(t[1], set(t[2])) != set(t[2]):
            return True
    return False


def check_call(case):
    what, name, terms, other = case
    cls = {"predicate": build.Predicate, "function": build.F.NumericFunction, "equality": build.EqualTo}[what]
    told = str(case)
    if what == "equality":
        terms, other = (terms + other + [["c", "a", []]] * 2)[:2], []
    objs = [build.term(t) for t in terms]
    args = objs if what == "equality" else [name] + objs
    res, x = outcome(cls, *args)
    if what != "function" and mixed(terms):
        check(res == "err" and isinstance(x, ValueError), f"a variable with two types is accepted: {x!r}", told)
        return True, [what + ": two types"]
    check(res == "ok", f"a good {what} is rejected: {x!r}", told)
    e, a = [t[:2] + [sorted(t[2])] for t in terms], view.guarded(view.tree, x)
    check(a == (["eq", *e] if what == "equality" else [{"predicate": "atom", "function": "fn"}[what], name, e]), f"the {what} is not what it was given", str(a), told)
    if what == "equality":
        return True, [what]
    check(x.arity == len(terms) and list(x.terms) == objs, "the terms or the arity differ from those given", told)
    before, h = str(x), hash(x)
    new = [build.term(t) for t in other]
    res, y = outcome(x, *new)
    same_types = [sorted(t[2]) for t in terms] == [sorted(t[2]) for t in other]
    if len(other) != len(terms):
        check(res == "err", f"applied to {len(other)} terms, a {what} of {len(terms)} gives {y!r}", told)
    elif what == "predicate" and mixed(other):
        check(res == "err" and isinstance(y, ValueError), f"a variable with two types is accepted: {y!r}", told)
    elif what == "predicate" or same_types:
        check(res == "ok", f"applying a {what} fails: {y!r}", told)
        z = cls(name, *new)
        check(y == z and z == y and str(y) == str(z) and hash(y) == hash(z), f"applying a {what} gives {y!r}", told)
        e = [t[:2] + [sorted(t[2])] for t in other]
        check(view.guarded(view.tree, y)[2] == e, f"applying a {what} gives {y!r}", told)
    check(str(x) == before and hash(x) == h and list(x.terms) == objs, f"applying a {what} changed it", before, str(x), told)
    return len(terms) > 0, [what]


def g_term(d, pool, types):
    if d.b(1, 2):
        return ["c", d.pick(pool), d.subset(types, 0, 1)]
    return ["v", d.pick(pool), d.subset(types, 0, 2)]


def g_call(d):
    pool = [d.name() for _ in range(4)]
    types = ["t", "u", "object"]
    terms = [g_term(d, pool, types) for _ in range(d.i(0, 10 if d.b(1, 8) else 4))]
    k = d.i(0, 3)
    if k == 0:  # the same number, any types
        other = [g_term(d, pool, types) for _ in terms]
    elif k == 1:
        other = [g_term(d, pool, types) for _ in range(d.i(0, 10 if d.b(1, 8) else 4))]
    else:  # the same types
        other = []
        for t in terms:
            c = len(t[2]) < 2 and d.b(1, 2)
            other.append(["c" if c else "v", d.pick(pool), list(t[2])])
    if d.b(1, 2):  # one type per variable name
        first = {}
        for t in terms + other:
            if t[0] == "v":
                t[2] = first.setdefault(t[1], t[2])
    what = d.pick(["predicate", "predicate", "function", "equality"])
    return [what, d.name(), terms, other]


# ------------------------------------------------------------------ helpers

SPACES = [" ", "  ", "\t", "\n", " \r\n ", "   "]


def check_helpers(case):
    from pddl.logic import constants, variables

    words, seps, types, kind, lead = case
    text = ""
    for i, w in enumerate(words):
        text += w + (SPACES[seps[i % len(seps)] % len(SPACES)] if i + 1 < len(words) or lead else "")
    text = (SPACES[lead] if lead else "") + text
    given = [None, [], (), set()][kind % 4] if not types else KINDS[kind % len(KINDS)](types)
    vs = lib("variables", variables, text, given) if kind % 2 else lib("variables", variables, text, types=given)
    e = [["v", w, sorted(types)] for w in words]
    check(type(vs) is list and [view.term(v) for v in vs] == e, "variables() gives other variables", repr(text), str(types), repr(vs))
    check(vs == [build.Variable(w, types) for w in words], "variables() gives variables that are not equal to the plain ones", repr(text))
    one = types[0] if types else None
    cs = lib("constants", constants, text, one) if kind % 2 else lib("constants", constants, text, type_=one)
    e = [["c", w, [one] if one else []] for w in words]
    check(type(cs) is list and [view.term(c) for c in cs] == e, "constants() gives other constants", repr(text), str(one), repr(cs))
    if not types:
        check(variables(text) == vs and constants(text) == cs, "variables() or constants() without types", repr(text))
    v = build.Variable("x", ["w"]) if kind % 2 else build.Variable("x")
    y = v.with_type_tags(given)
    check(view.term(y) == ["v", "x", sorted(types)], "with_type_tags gives another variable", str(types), repr(y), str(y.type_tags))
    check(view.term(v) == ["v", "x", ["w"] if kind % 2 else []], "with_type_tags changed the variable")
    if types:
        res, x = outcome(build.Variable, "x", types + [types[0]])
        check(res == "err" and isinstance(x, ValueError), f"a list with a type twice is accepted: {x!r}")
    return len(words) > 1, [f"{min(len(words), 3)} words"]


def g_helpers(d):
    words = [d.name() for _ in range(d.i(0, 14 if d.b(1, 8) else 5))]
    return [words, [d.i(0, 5) for _ in range(3)], d.subset(["t", "u", "object", "w-1"], 0, 3), d.i(0, 11), d.i(0, 5)]


PARTS = [
    Part("documents", gen.strategy(g_documents), check_documents, 7000),
    Part("formula", gen.strategy(g_formula), check_formula, 3000),
    Part("call", gen.strategy(g_call), check_call, 6000),
    Part("helpers", gen.strategy(g_helpers), check_helpers, 3000),
]
C0 = ["c", "k", ["t"]]
REGRESSIONS = [
    ("documents", [dom(act(pre=at("q"), eff=at("q")), der("q", [], at("q"))), prob(), [["a", ["x"]]], [n]]) for n in range(12)
]
REGRESSIONS += [("documents", [dom(), prob(metric=["minimize", fn("g")], init=[["assign", fn("g"), num("1")]]), [], [n, n + 1]]) for n in range(12)]
REGRESSIONS += [
    ("call", ["predicate", "p", [["v", "x", ["t"]], ["v", "x", []]], []]),
    ("call", ["equality", "p", [["v", "x", ["t"]], ["v", "x", ["u"]]], []]),
    ("call", ["function", "p", [C0], [["v", "x", ["t"]]]]),
    ("call", ["function", "p", [C0], []]),
    ("call", ["predicate", "p", [], [C0]]),
]
