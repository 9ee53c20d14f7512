"""C15: a plan is accepted exactly when every step fits the schemas."""

from .. import build, gen, model, render, view
from ..cases import act, at, dom, prob
from ..core import Violation, check, lib, outcome, parse, short_tb
from ..harness import Part

RULE = (
    "A case is a random domain (actions of every shape), a problem and a plan for them of up to 8 steps, with 0-2 "
    "steps spoilt (unknown or nearly right action name, an argument more or less, an unknown object); all three are "
    "parsed or built. Checking must succeed exactly when the reference says every step fits; instantiating must give, "
    "step by step, the reference substitution and what the schema itself gives, or fail. "
    "Non-trivial: at least two steps, one of them with arguments."
)
ASSUMPTIONS = [
    "a parameter that occurs twice in a built action and gets two values: no demand on the ground action",
    "names that differ only in case from a declared one: no demand",
]


def check_plan(case):
    vias, dast, past, steps = case
    from pddl.exceptions import PDDLValidationError

    rd = model.resolve_domain(dast)
    if vias & 9 == 8:  # the constructor keeps repeated parameters
        rd["structs"] = [s[:2] + [raw_params(a)] + s[3:] if s[0] == "action" else s for s, a in zip(rd["structs"], dast["structs"])]
    schemas = {s[1]: s for s in rd["structs"] if s[0] == "action"}
    known = {n for n, _ in rd["consts"] or []} | {n for n, _ in past["objects"] or []}
    text = "\n  ".join([render.text_of("domain", dast), render.text_of("problem", past), repr(steps)])
    if vias & 1:
        domain = parse("domain", render.text_of("domain", dast))
    else:
        domain = lib("building", build.domain, rd)
    if vias & 2:
        problem = parse("problem", render.text_of("problem", past))
    else:
        problem = lib("building", build.problem, model.resolve_problem(past))
    if vias & 4:
        plan = parse("plan", render.text_of("plan", steps))
    else:
        plan = lib("building", build.plan, steps)

    fault, bad_inst, at_step = None, None, None
    for i, (n, args) in enumerate(steps):
        f = b = None
        if n not in schemas:
            f = b = "unknown action"
        elif len(args) != len(schemas[n][2]):
            f = b = "number of arguments"
        elif set(args) - known:
            f = "unknown object"
        fault = fault or f
        if b and bad_inst is None:
            bad_inst, at_step = b, i
    before = view.plan_c(plan)
    for _ in range(2):
        res, x = outcome(plan.check, domain, problem)
        if fault:
            check(res == "err", f"a plan with a bad step ({fault}) passes the check", text)
            check(isinstance(x, PDDLValidationError), f"bad step ({fault}) rejected, but with {short_tb(x)}", text)
        else:
            check(res == "ok", f"a plan that fits fails the check: {x!r}"[:700], text)
    res, x = outcome(plan.instantiate, domain)
    if bad_inst:
        check(res == "err", f"instantiating a plan whose step {at_step} is bad ({bad_inst}) succeeds", text)
    else:
        check(res == "ok", f"instantiating the plan fails: {x!r}"[:700], text)
        check(len(x) == len(steps), "not one ground action per step", text, str(x))
        objs = {a.name: a for a in domain.actions}
        for (n, args), g, (_, terms) in zip(steps, x, plan.actions):
            s = schemas[n]
            m = {(v, tuple(ts)): ["c", a, []] for (v, ts), a in zip(s[2], args)}
            if len({(v, a) for (v, _), a in zip(s[2], args)}) != len(m):
                continue  # one parameter, two values
            want = (
                n,
                tuple(("c", a, ()) for a in args),
                ("and", ()) if s[3] is None else model.canon(model.substitute(s[3], m)),
                ("and", ()) if s[4] is None else model.canon(model.substitute(s[4], m)),
            )
            got = view.action_c(g)
            check(got == want, "a step is not the ground action of its schema", text, f"{n} {args}", repr(want), repr(got))
            own = lib("instantiating the schema", objs[n].instantiate, terms)
            check(own == g and view.action_c(own) == got, "a step differs from the schema's own instance", text, str(g))
    check(view.plan_c(plan) == before, "checking or instantiating changed the plan", text)
    cl = [fault or "fits", bad_inst or "instantiable"]
    if fault:
        cl.append("bad step in front of a good one" if at_step is not None and at_step < len(steps) - 1 else "bad step last")
    return len(steps) > 1 and any(a for _, a in steps), cl


def raw_params(a):
    """The parameters of an action as written, repeated ones included."""
    types = {n: ts for n, ts in model.dedup_params(a[2])}
    return [[n, types[n]] for n, _ in a[2]]


def near(d, name, taken):
    c = d.pick([name + "x", name[:-1], name + "-1", "x" + name, "no-such"])
    if not c or c.lower() in {t.lower() for t in taken} or c.lower() in gen.KEYWORDS or not c[0].isalpha():
        return "no-such-0"
    return c


def g_plan(d):
    dast, ctx = gen.gen_domain(d, small=d.b(2, 3), structs=d.pick([2, 3, 1, 3]))
    past = gen.gen_problem(d, ctx, dast, small=True)
    vias = d.i(0, 15)
    if d.b(1, 4):
        for s in dast["structs"]:
            if s[0] == "action" and s[2] and d.b(1, 2):
                again = list(d.pick(s[2]))
                s[2].insert(d.i(0, s[2].index(again)) if again[1] else len(s[2]), again)
    count = raw_params if vias & 9 == 8 else lambda s: model.dedup_params(s[2])
    acts = [(s[1], len(count(s))) for s in dast["structs"] if s[0] == "action"]
    known = [n for n, _ in (dast["consts"] or [])] + [n for n, _ in past["objects"] or []]
    steps = []
    usable = [a for a in acts if known or not a[1]]
    for _ in range(d.pick([2, 3, 4, 2, 1, 5, 8, 0, d.i(9, 25)])):
        if usable:
            n, ar = d.pick(usable)
            steps.append([n, [d.pick(known) for _ in range(ar)]])
    for _ in range(d.pick([0, 0, 1, 1, 2])):
        if not steps or not acts:
            steps.append(["no-such", []])
            continue
        k = d.i(0, len(steps) - 1)
        n, args = steps[k]
        m = d.i(0, 5)
        if m == 0:
            steps[k] = [near(d, n, [a for a, _ in acts]), args]
        elif m == 1:
            steps[k] = [n, args + [d.pick(known or ["o"])]]
        elif m == 2 and args:
            steps[k] = [n, args[:-1]]
        elif m == 3 and args:
            j = d.i(0, len(args) - 1)
            bad = near(d, args[j], known)
            steps[k] = [n, args[:j] + [bad] + args[j + 1 :]]
        elif m == 4 and len(acts) > 1:
            steps[k] = [d.pick(acts)[0], args]
        elif m == 5 and args and ctx.preds:
            bad = near(d, ctx.preds[0][0], known)
            steps[k] = [n, [bad] * len(args)]
    return [vias, dast, past, steps]


PARTS = [Part("plan", gen.strategy(g_plan), check_plan, 10000)]
A2 = act("a", [["x", ["t"]], ["y", []]], at("r", "?x", "?y"), ["forall", [["x", []]], at("p", "?x")])
A2[4] = ["when", at("p", "?y"), ["not", at("r", "?y", "?x")]]
A0 = act("b", [], None, at("q"))
DD = dom(A2, A0, act("c", [["x", []], ["x", []]], at("p", "?x"), None))
REGRESSIONS = [
    ("plan", [via, DD, prob(), s])
    for via in (0, 7)
    for s in (
        [],
        [["a", ["o1", "o2"]], ["b", []], ["a", ["k", "k"]], ["c", ["j"]]],
        [["a", ["o1", "o2"]], ["zz", []]],
        [["zz", []], ["b", []]],
        [["b", []], ["a", ["o1"]], ["b", []]],
        [["b", ["o1"]]],
        [["c", ["o1", "o1"]]],
        [["a", ["o1", "nope"]]],
        [["a", ["nope", "o1"]], ["a", ["o1", "o1"]]],
    )
]
REGRESSIONS += [("plan", [8, DD, prob(), [["c", ["o1", "o1"]], ["c", ["o1", "o2"]]]]), ("plan", [8, DD, prob(), [["c", ["o1"]]]])]
