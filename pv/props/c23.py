"""C23: looking at objects never changes them."""

import copy
import pickle

from .. import build, gen, model, render, view
from ..cases import act, at, c, der, dom, fn, num, prob
from ..core import Violation, check, lib, outcome, parse
from ..harness import Part

RULE = (
    "Part 'history': a world (domain, problem and plan, parsed or built, and all their parts: actions, formulas, "
    "effects, terms, functions) goes through 1-25 random operations (print, repr, hash, compare, order, sort, format, "
    "check against its own or a wrong domain, instantiate rightly and wrongly, copy, deepcopy, pickle, combine into "
    "new formulas, new documents from the same parts, reading every public attribute, collection membership); then "
    "every member must have the text, content and hash of an independently built twin that went through nothing, and "
    "equal it both ways. Part 'collections': objects are built from caller-owned lists, sets, dicts; the constructor "
    "and later operations must leave these as they are, and changing them afterwards must not alter the object. "
    "Non-trivial: at least 5 operations on a world with an action or fact; or a non-empty collection is changed."
)
ASSUMPTIONS = ["attributes are only read; assigning a problem's domain is not one of the operations"]


# ------------------------------------------------------------------ the world


class World:
    def __init__(self, dast, past, steps, via):
        if via == "parse":
            self.domain = parse("domain", render.text_of("domain", dast))
            self.problem = parse("problem", render.text_of("problem", past))
            self.plan = parse("plan", render.text_of("plan", steps))
        else:
            self.domain = lib("building", build.domain, model.resolve_domain(dast))
            self.problem = lib("building", build.problem, model.resolve_problem(past))
            self.plan = lib("building", build.plan, steps)
        self.members = [("domain", self.domain), ("problem", self.problem), ("plan", self.plan)]
        d, p = self.domain, self.problem
        for what, xs in (
            ("predicate", d.predicates), ("function", d.functions), ("constant", d.constants), ("object", p.objects),
            ("action", d.actions), ("derived", d.derived_predicates), ("fact", p.init),
        ):
            for x in sorted(xs, key=str):
                self.members.append((what, x))
        for a in sorted(d.actions, key=str):
            for f in (a.precondition, a.effect):
                self.tree(f)
            self.members += [("parameter", v) for v in a.parameters]
        for x in sorted(d.derived_predicates, key=str):
            self.tree(x.predicate)
            self.tree(x.condition)
        self.tree(p.goal)
        if p.metric is not None:
            self.members.append(("metric", p.metric))
            self.tree(p.metric.expression)
        self.members = self.members[:150]

    def tree(self, f):
        """A formula and everything in it."""
        if f is None:
            return
        self.members.append((type(f).__name__, f))
        for attr in ("operands", "terms", "variables"):
            xs = getattr(f, attr, None)
            if xs is not None:
                for x in xs if attr != "variables" else sorted(xs, key=str):
                    self.tree(x)
        for attr in ("argument", "condition", "effect", "left", "right"):
            x = getattr(f, attr, None)
            if x is not None:
                self.tree(x)


def content(what, x):
    if what == "domain":
        return view.domain_c(x)
    if what == "problem":
        return view.problem_c(x)
    if what == "plan":
        return view.plan_c(x)
    if what == "action":
        return view.action_c(x)
    if what == "derived":
        return (view.formula_c(x.predicate), view.formula_c(x.condition))
    if what in ("constant", "object", "parameter", "Variable", "Constant"):
        return view.term(x)
    if what == "metric":
        return (x.optimization, view.formula_c(x.expression))
    return view.formula_c(x)


def hash_of(x):
    try:
        return ("hash", hash(x))
    except TypeError:
        return ("none",)


def raw(what, x):
    """What the view makes equal (no parent and the parent 'object') kept apart."""
    if what == "domain":
        return (dict(x.types), {str(f): t for f, t in x.functions.items()})
    return None


def same(world, twin, ops):
    """Every member is what its twin is; the twin has gone through nothing yet.

    What does not touch the twin's text comes first: printing must not be able to change both alike.
    """

    def told():
        return "\n  ".join(map(str, ops))

    check(len(world.members) == len(twin.members), "the worlds differ in size", told())
    pairs = list(zip(world.members, twin.members))
    for (what, x), (_w, y) in pairs:
        a, b = raw(what, y), raw(what, x)
        check(a == b, f"the declarations of a {what} changed", a, b, told())
        a, b = content(what, y), content(what, x)
        check(a == b, f"the content of a {what} changed", view.diff(a, b), told())
    for (what, x), (_w, y) in pairs:
        check(bool(x == y) and bool(y == x) and not (x != y), f"a {what} no longer equals its twin", str(y), told())
    for (what, x), (_w, y) in pairs:
        check(hash_of(x) == hash_of(y), f"the hash of a {what} changed", str(y), told())
        if hash_of(x)[0] == "hash":
            check(x in {y} and y in {x: 1}, f"a {what} is not found in a set of its twin", str(y), told())
    for (what, x), (_w, y) in pairs:
        check(str(x) == str(y), f"the text of a {what} changed", str(y), str(x), told())


class Ops:
    """The operations; each gets the world, its twin and two members."""

    def __init__(self, world, twin, spare):
        self.w, self.t, self.spare = world, twin, spare

    def print(self, x, _y):
        str(x), repr(x), f"{x}", "%s" % x

    def hash(self, x, y):
        hash_of(x), hash_of(y)

    def compare(self, x, y):
        outcome(lambda: (x == y, y == x, x != y, x is y))

    def twin(self, x, _y):
        for _what, z in self.t.members[:40]:
            outcome(lambda: x == z)

    def order(self, x, y):
        for f in (lambda: x < y, lambda: x <= y, lambda: x > y, lambda: x >= y):
            outcome(f)

    def sort(self, x, y):
        for xs in (
            self.w.domain.predicates, self.w.domain.actions, self.w.domain.constants, self.w.domain.functions,
            self.w.domain.derived_predicates, self.w.domain.requirements, self.w.problem.objects, self.w.problem.init, [x, y],
        ):
            outcome(sorted, xs)
            outcome(lambda: (min(xs), max(xs)))

    def format(self, _x, _y):
        from pddl.formatter import domain_to_string, plan_to_string, problem_to_string

        outcome(domain_to_string, self.w.domain)
        outcome(problem_to_string, self.w.problem)
        outcome(plan_to_string, self.w.plan)

    def check(self, _x, _y):
        outcome(self.w.problem.check, self.w.domain)

    def check_wrong(self, _x, _y):
        outcome(self.w.problem.check, self.spare.domain)
        outcome(self.spare.problem.check, self.w.domain)

    def plan_check(self, _x, _y):
        outcome(self.w.plan.check, self.w.domain, self.w.problem)
        outcome(self.w.plan.check, self.spare.domain, self.w.problem)
        outcome(self.spare.plan.check, self.w.domain, self.w.problem)

    def plan_instantiate(self, _x, _y):
        for p in (self.w.plan, self.spare.plan):
            res, xs = outcome(p.instantiate, self.w.domain)
            if res == "ok":
                [str(a) for a in xs]
                xs.clear()

    def ground(self, x, y):
        from pddl.logic.terms import Constant

        actions = [z for what, z in self.w.members if what == "action"]
        for a in [x, y] + actions[:3]:
            n = len(getattr(a, "parameters", []) or [])
            args = [Constant(f"k{i}") for i in range(n)]
            kept = list(args)
            outcome(lambda: str(a.instantiate(args)))
            check(all(p is q for p, q in zip(args, kept)) and len(args) == n, "instantiate changed the list of arguments")

    def ground_wrong(self, x, y):
        from pddl.logic.terms import Constant

        for a in [x, y] + [z for what, z in self.w.members if what == "action"][:3]:
            outcome(lambda: a.instantiate([Constant("k")] * 7))
            outcome(lambda: a.instantiate([]))
            outcome(lambda: a.instantiate([None] * len(a.parameters)))

    def substitute(self, x, y):
        from pddl.logic.terms import Constant, Variable

        vs = [z for _w, z in self.w.members if isinstance(z, Variable)]
        m = {v: Constant("kk") if i % 2 else Variable(f"vv{i}") for i, v in enumerate(vs)}
        kept = dict(m)
        for f in [x, y] + [z for what, z in self.w.members if what not in ("domain", "problem", "plan", "action")][:12]:
            outcome(lambda: str(f.instantiate(m)))
        check(m == kept, "instantiate changed the mapping")

    def copy(self, x, y):
        for z in (x, y):
            lib("copy", lambda: str(copy.copy(z)))

    def deepcopy(self, x, y):
        lib("deepcopy", lambda: str(copy.deepcopy(x)))
        lib("deepcopy", lambda: copy.deepcopy([x, y, {"k": x}]))

    def pickle(self, x, y):
        for p in (2, 4):
            lib("pickle", lambda: pickle.loads(pickle.dumps([x, y], p)))

    def combine(self, x, y):
        from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or
        from pddl.logic.effects import Forall, When
        from pddl.logic.terms import Constant, Variable

        u = Variable("uu")
        for f in (
            lambda: x & y, lambda: x | y, lambda: ~x, lambda: x >> y, lambda: And(x, y, x), lambda: Or(y, x), lambda: Imply(x, y),
            lambda: Not(x), lambda: OneOf(x, y), lambda: When(x, y), lambda: ForallCondition(x, [u]), lambda: ExistsCondition(y, [u]),
            lambda: Forall(x, [u]), lambda: x + y, lambda: x - y, lambda: x * y, lambda: x / y,
        ):
            res, z = outcome(f)
            if res == "ok":
                outcome(lambda: (str(z), hash_of(z), z == x, z == y))
                outcome(lambda: z.instantiate({u: Constant("kk")}))

    def reuse(self, _x, _y):
        """New documents from the same parts."""
        from pddl.core import Domain, Plan, Problem

        d, p = self.w.domain, self.w.problem
        parts = dict(
            types=d.types, constants=d.constants, predicates=d.predicates, derived_predicates=d.derived_predicates,
            functions=d.functions, actions=d.actions,
        )
        outcome(lambda: str(Domain("other", requirements=d.requirements, **parts)))
        outcome(lambda: str(Domain("other", requirements=[], **parts)))
        outcome(lambda: str(Domain("other", requirements=d.requirements, **dict(parts, types={"zz": "zzz"}))))
        kw = dict(objects=p.objects, init=p.init, goal=p.goal, metric=p.metric)
        outcome(lambda: str(Problem("other", domain=d, **kw)))
        outcome(lambda: str(Problem("other", domain=self.spare.domain, **kw)))
        outcome(lambda: str(Problem("other", domain_name="dd", requirements=p.requirements, **kw)))
        res, x = outcome(lambda: Problem("other", domain_name="dd", **kw))
        if res == "ok":
            outcome(lambda: setattr(x, "domain", d))
            outcome(lambda: setattr(x, "domain", self.spare.domain))
        outcome(lambda: str(Plan(self.w.plan.actions + self.w.plan.actions)))

    def unrelated(self, x, _y):
        for z in (None, 0, "x", str(x), (), [], {}, object(), type(x)):
            check(not lib("comparing", lambda: x == z) or isinstance(z, (str, int)), f"{x} equals {z!r}")
            outcome(lambda: x < z)
            outcome(lambda: z in {x: 1})

    def read(self, x, y):
        for z in (x, y):
            for a in dir(type(z)):
                if not a.startswith("_"):
                    res, q = outcome(getattr, z, a)
                    if res == "ok" and isinstance(q, (list, tuple, set, frozenset, dict)):
                        [str(e) for e in q]

    def member(self, x, y):
        outcome(lambda: (x in {y}, y in [x], {x: 1, y: 2}[x], {x, y} - {x}))

    def tags(self, x, y):
        from pddl.logic.terms import Variable

        for z in [x, y] + [q for _w, q in self.w.members if isinstance(q, Variable)][:5]:
            tags = {"t1", "t2"}
            res, q = outcome(lambda: z.with_type_tags(tags))
            if res == "ok":
                str(q)
                check(tags == {"t1", "t2"}, "with_type_tags changed its argument")


OPS = [n for n in vars(Ops) if not n.startswith("_")]


def check_history(case):
    dast, past, steps, via, sp, ops = case
    twin = World(dast, past, steps, via)
    w = World(dast, past, steps, via)
    spare = World(sp[0], sp[1], sp[2], "build")
    o = Ops(w, World(dast, past, steps, via), spare)
    told = []
    for name, i, j in ops:
        (a, x), (b, y) = w.members[i % len(w.members)], w.members[j % len(w.members)]
        told.append(f"{name} on {a} and {b}")
        getattr(o, name)(x, y)
    same(w, twin, told + [render.text_of("domain", dast), render.text_of("problem", past)])
    # and the library as a whole still builds the same
    same(World(dast, past, steps, via), twin, told + ["(a world built afterwards)"])
    return len(ops) >= 5 and bool(dast["structs"] or past["init"]), [via] + sorted({n for n, _, _ in ops})


def g_world(d):
    dast, ctx = gen.gen_domain(d, small=d.b(2, 3))
    past = gen.gen_problem(d, ctx if d.b(4, 5) else None, dast, small=d.b(2, 3))
    acts = [[s[1], len(s[2])] for s in dast["structs"] if s[0] == "action"]
    objs = [n for n, _ in (past["objects"] or []) + (dast["consts"] or [])]
    steps = gen.gen_plan(d, acts or None, objs or None)
    if d.b(1, 8):
        steps.append([d.name(), [d.pick(objs or ["a"]) for _ in range(d.i(7, 15))]])
    return [dast, past, steps]


def g_spare(d):
    return [
        dom(act("a", [["x", ["t"]]], at("p", "?x"), ["not", at("p", "?x")]), name=d.pick(["d", "e"]), reqs=d.pick([["typing", "fluents", "action-costs"], ["adl", "fluents", "action-costs"]])),
        prob(), [[d.pick(["a", "b"]), ["o1"] * d.i(0, 2)]],
    ]


def g_history(d):
    w = g_world(d)
    ops = [[d.pick(OPS), d.i(0, 149), d.i(0, 149)] for _ in range(d.pick([1, 3, 6, 12, 25]))]
    via = d.pick(["parse", "build"])
    if via == "build" and {"typing", "adl"} & set(w[0]["reqs"]) and d.b(1, 4):
        w[0]["types"] = d.shuffled((w[0]["types"] or []) + [["object", None]])
    return w + [via, g_spare(d), ops]


# ------------------------------------------------------------------ collections

KINDS = ["list", "set", "frozenset", "tuple"]


def make(kind, xs):
    xs = list(xs)
    return {"list": list, "set": set, "frozenset": frozenset, "tuple": tuple}[kind](xs)


def snapshot(coll):
    if isinstance(coll, dict):
        return [(id(k), id(v)) for k, v in coll.items()]
    if isinstance(coll, list):
        return [(id(x), snapshot(x[1])) if isinstance(x, tuple) and isinstance(x[1], list) else id(x) for x in coll]
    return sorted(map(id, coll))


def disturb(coll, how, extra):
    """Change a collection of the caller; False if it cannot be changed."""
    if isinstance(coll, (frozenset, tuple)):
        return False
    if isinstance(coll, dict):
        k, v = extra
        if how == 0:
            coll[k] = v
        elif how == 1:
            coll.clear()
        elif how == 2 and coll:
            coll.pop(next(iter(coll)))
        elif coll:
            for q in coll:
                coll[q] = v
    elif isinstance(coll, set):
        if how == 0:
            coll.add(extra)
        elif how == 1:
            coll.clear()
        elif coll:
            coll.pop()
    else:
        if how == 0:
            coll.append(extra)
        elif how == 1:
            coll.clear()
        elif how == 2 and coll:
            del coll[0]
        else:
            coll[:] = list(reversed(coll)) + [extra]
    return True


def extras():
    from pddl.action import Action
    from pddl.core import Requirements
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable

    q = Predicate("extra-q")
    return {
        "requirements": Requirements.EQUALITY, "types": ("extra-t", None), "constants": Constant("extra-c"), "predicates": q,
        "derived_predicates": DerivedPredicate(q, q), "functions": (NumericFunction("extra-f"), "number"),
        "actions": Action("extra-a", []), "objects": Constant("extra-o"), "init": q, "parameters": Variable("extra-v"),
        "variables": Variable("extra-v"), "type_tags": "extra-t",
    }


def targets(dast, past, steps):
    """What can be built from collections: name -> (constructor, keyword arguments, content)."""
    from pddl.action import Action
    from pddl.core import Domain, Plan, Problem
    from pddl.logic.base import ExistsCondition, ForallCondition
    from pddl.logic.effects import Forall
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Variable

    rd, rp = model.resolve_domain(dast), model.resolve_problem(past)
    out = {
        "domain": (Domain, build.domain_kwargs(rd), view.domain_c),
        "problem": (Problem, build.problem_kwargs(rp), view.problem_c),
        "plan": (Plan, {"actions": [(n, [build.Constant(a) for a in args]) for n, args in steps]}, view.plan_c),
    }
    vs = build.variables([["x", ["t", "u"]], ["y", []], ["z", ["t"]]])
    body = Predicate("p", *vs)
    for s in rd["structs"]:
        if s[0] == "action":
            out["action"] = (
                Action, dict(name=s[1], parameters=build.variables(s[2]), precondition=build.opt(s[3]), effect=build.opt(s[4])),
                view.action_c,
            )
    out["exists"] = (ExistsCondition, dict(cond=body, variables=vs), view.formula_c)
    out["forall"] = (ForallCondition, dict(cond=body, variables=vs), view.formula_c)
    out["eforall"] = (Forall, dict(effect=body, variables=vs), view.formula_c)
    out["variable"] = (Variable, dict(name="x", type_tags=["t", "u"]), view.term)
    return out


COLLECTIONS = {
    "domain": ["requirements", "constants", "predicates", "derived_predicates", "actions", "types", "functions"],
    "problem": ["requirements", "objects", "init"],
    "action": ["parameters"], "exists": ["variables"], "forall": ["variables"], "eforall": ["variables"],
    "variable": ["type_tags"], "plan": ["actions"],
}
SEQUENCES = {"parameters", "variables"}


def check_collections(case):
    (dast, past, steps), what, kinds, early, hows, inner = case
    x, y = targets(dast, past, steps), targets(dast, past, steps)
    if what not in x:
        return False, ["no " + what]
    cls, kw, content_of = x[what]
    colls = {}
    for i, name in enumerate(COLLECTIONS[what]):
        if isinstance(kw[name], list) and name != "actions" or what == "domain" and name == "actions":
            kind = kinds[i % len(kinds)]
            if name in SEQUENCES and kind in ("set", "frozenset"):
                kind = "list"
            kw[name] = make(kind, kw[name])
        colls[name] = kw[name]
    before = {n: snapshot(q) for n, q in colls.items() if q is not None}
    obj = lib("building", lambda: cls(**kw))
    twin = lib("building", lambda: cls(**y[what][1]))
    want, text, h = content_of(twin), str(twin), hash_of(twin)

    def judge(when):
        check(content_of(obj) == want, f"a {what} changed {when}", text, view.diff(want, content_of(obj)))
        check(str(obj) == text, f"the text of a {what} changed {when}", text, str(obj))
        check(hash_of(obj) == h, f"the hash of a {what} changed {when}", text)
        check(obj == twin and twin == obj, f"a {what} no longer equals its twin {when}", text)

    if early:
        judge("by building it")
        outcome(sorted, [obj, twin])
        copy.deepcopy(obj), pickle.dumps(obj), repr(obj)
    after = {n: snapshot(q) for n, q in colls.items() if q is not None}
    check(before == after, f"the collections given to a {what} were changed", text)
    ex = extras()
    nontrivial = False
    done = []
    for i, (name, q) in enumerate(colls.items()):
        if q is None:
            continue
        how = hows[i % len(hows)]
        filled = len(q) > 0
        if what == "plan":
            if inner and q and any(args for _n, args in q):
                for _n, args in q:
                    disturb(args, how, build.Constant("extra-c"))
            else:
                disturb(q, how, ("extra-a", []))
            changed = True
        else:
            changed = disturb(q, how, ex[name])
        nontrivial = nontrivial or (changed and filled)
        if changed:
            done.append(f"{what}.{name} {type(q).__name__} {how}")
    judge(f"with the caller's collections ({done})")
    return nontrivial, done


def g_collections(d):
    w = g_world(d)
    if d.b(1, 6):
        w[2] = w[2] or [["a", ["o"]]]
    what = d.pick(["domain", "domain", "domain", "problem", "problem", "plan", "plan", "action", "exists", "forall", "eforall", "variable"])
    return [w, what, [d.pick(KINDS[:2] if d.b(2, 3) else KINDS) for _ in range(5)], d.b(1, 2), [d.i(0, 3) for _ in range(7)], d.b(1, 2)]


PARTS = [
    Part("history", gen.strategy(g_history), check_history, 3000),
    Part("collections", gen.strategy(g_collections), check_collections, 4000),
]
ROOT = dom(types=[["t", None], ["u", "t"], ["w", None], ["object", None]])
BIG = [
    dom(
        act("a", [["x", ["t"]], ["y", []]], ["and", [at("p", "?x"), ["exists", [["x", ["u"]], ["z", []]], ["or", [at("p", "?x"), at("q")]]]]],
            ["and", [["when", at("p", "?x"), ["not", at("p", "?y")]], ["eforall", [["z", ["u"]]], ["neff", "increase", fn("f", "?z"), num("1")]]]]),
        der("p", [["x", ["t"]]], ["imply", at("p", "?x"), ["cmp", ">", fn("g"), num("0.5")]]),
        preds=[["p", [["x", ["object"]]]], ["q", []], ["r", [["x", ["t"]], ["y", []]]]],
    ),
    prob(init=[at("q"), ["not", at("p", "o1")], ["assign", fn("g"), num("2")]], goal=["and", [at("p", "o1"), ["not", at("q")]]],
         metric=["minimize", fn("g")], reqs=["typing"]),
    [["a", ["o1", "o2"]], ["a", ["k", "o1"]], ["b", []]],
]
SPARE = [dom(), prob(), [["b", ["o1"]]]]
LONG = [["a", list("abcdefghijklmno")]]
REGRESSIONS = [("history", [ROOT, prob(), LONG, "build", SPARE, [[o, 2, 5]]]) for o in OPS] + [
    ("history", BIG + [via, SPARE, [[o, i, i + 5] for i in (0, 1, 2, 8, 15, 20)]]) for via in ("parse", "build") for o in OPS
] + [
    ("collections", [BIG, what, [kind], True, [how], inner])
    for what in COLLECTIONS for kind in ("list", "set") for how in range(4) for inner in ((False, True) if what == "plan" else (False,))
]
