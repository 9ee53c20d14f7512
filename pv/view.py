"""Objects -> canonical forms, through public attributes only."""

from . import env  # noqa: F401
from .core import Violation
from .model import canon

from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or
from pddl.logic.effects import Forall, When
from pddl.logic import functions as F
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Constant, Variable

CMP = {
    F.EqualTo: "=",
    F.LesserThan: "<",
    F.LesserEqualThan: "<=",
    F.GreaterThan: ">",
    F.GreaterEqualThan: ">=",
}
NEFF = {
    F.Assign: "assign",
    F.ScaleUp: "scale-up",
    F.ScaleDown: "scale-down",
    F.Increase: "increase",
    F.Decrease: "decrease",
}
OPS = {F.Plus: "+", F.Minus: "-", F.Times: "*", F.Divide: "/"}


def bad(what, x):
    raise Violation(f"unexpected {what}: {type(x).__name__} {x!r}")


def tags(t):
    return sorted(map(str, t.type_tags))


def term(t):
    """View of a term."""
    if type(t) is Variable:
        return ["v", str(t.name), tags(t)]
    if type(t) is Constant:
        tg = tags(t)
        if [str(t.type_tag)] != tg and not (t.type_tag is None and tg == []):
            bad("type_tag", t)
        return ["c", str(t.name), tg]
    return bad("term", t)


def params(ts):
    """View of a parameter list."""
    out = []
    for t in ts:
        v = term(t)
        if v[0] != "v":
            bad("parameter", t)
        out.append([v[1], v[2]])
    return out


def tree(f):
    """Resolved tree of a formula, expression or effect object."""
    ty = type(f)
    if ty is Predicate:
        if f.arity != len(f.terms):
            bad("arity", f)
        return ["atom", str(f.name), [term(t) for t in f.terms]]
    if ty is EqualTo:
        return ["eq", term(f.left), term(f.right)]
    if ty is F.NumericFunction:
        return ["fn", str(f.name), [term(t) for t in f.terms]]
    if ty is F.NumericValue:
        v = f.value
        if type(v) not in (int, float):
            bad("number", v)
        return ["num", v]
    if ty in CMP or ty in NEFF:
        if len(f.operands) != 2:
            bad("number of operands", f)
        return [
            "cmp" if ty in CMP else "neff",
            CMP.get(ty) or NEFF.get(ty),
            tree(f.operands[0]),
            tree(f.operands[1]),
        ]
    if ty in OPS:
        return ["op", OPS[ty], [tree(x) for x in f.operands]]
    if ty is Not:
        return ["not", tree(f.argument)]
    if ty in (And, Or, OneOf):
        return [{And: "and", Or: "or", OneOf: "oneof"}[ty], [tree(x) for x in f.operands]]
    if ty is Imply:
        if len(f.operands) != 2:
            bad("number of operands", f)
        return ["imply", tree(f.operands[0]), tree(f.operands[1])]
    if ty in (ForallCondition, ExistsCondition):
        return [
            "forall" if ty is ForallCondition else "exists",
            sorted(params(f.variables)),
            tree(f.condition),
        ]
    if ty is When:
        return ["when", tree(f.condition), tree(f.effect)]
    if ty is Forall:
        return ["eforall", sorted(params(f.variables)), tree(f.effect)]
    if ty is F.Metric:
        return ["metric", str(f.optimization), tree(f.expression)]
    if ty is DerivedPredicate:
        return ["derived", tree(f.predicate), tree(f.condition)]
    return bad("formula", f)


def guarded(fn, x):
    """Views never crash on good objects."""
    try:
        return fn(x)
    except Violation:
        raise
    except Exception as e:  # noqa
        raise Violation(f"malformed result {type(x).__name__}: {type(e).__name__}: {e}") from None


def formula_c(f):
    """Canonical form of a formula object (None: no condition)."""
    return ("and", ()) if f is None else canon(guarded(tree, f))


def params_c(ps):
    return tuple((n, tuple(ts)) for n, ts in params(ps))


def any_params_c(ps):
    """Parameters that may be constants (ground actions)."""
    return tuple((t[0], t[1], tuple(t[2])) for t in map(term, ps))


def action_c(a):
    """Canonical form of an action object."""
    if type(a) is not Action:
        bad("action", a)
    return (str(a.name), any_params_c(a.parameters), formula_c(a.precondition), formula_c(a.effect))


def _uniq(seq, what):
    out = {}
    for k, v in seq:
        if k in out:
            raise Violation(f"duplicate {what} {k!r}")
        out[k] = v
    return out


def _domain(d):
    if type(d) is not Domain:
        bad("domain", d)

    def act(a):
        c = action_c(a)
        for p in c[1]:
            if p[0] != "v":
                bad("parameter", a)
        return (c[0], tuple((p[1], p[2]) for p in c[1]), c[2], c[3])

    def pred(p):
        if type(p) is not Predicate:
            bad("predicate", p)
        return (str(p.name), params_c(p.terms))

    def func(f):
        if type(f) is not F.NumericFunction:
            bad("function", f)
        return (str(f.name), params_c(f.terms))

    actions, predicates, derived = list(d.actions), list(d.predicates), list(d.derived_predicates)
    acts = [act(a) for a in actions]
    preds = [pred(p) for p in predicates]
    ders = [(pred(x.predicate) + (formula_c(x.condition),)) for x in derived]
    for objs, xs in ((actions, acts), (predicates, preds), (derived, ders)):
        # an absent and an empty effect are the same here, but not twice the same declaration
        if len({(x, str(o)) for x, o in zip(xs, objs)}) != len(xs):
            raise Violation(f"duplicate declarations: {xs}")
    return {
        "name": str(d.name),
        "reqs": frozenset(str(r)[1:] for r in d.requirements),
        "types": _uniq(
            ((str(n), None if p is None or str(p) == "object" else str(p)) for n, p in d.types.items()), "type"
        ),
        "consts": _uniq(((t[1], t[2][0] if t[2] else None) for t in map(_const, d.constants)), "constant"),
        "preds": frozenset(preds),
        "funcs": _uniq(((func(f), None if t is None else str(t)) for f, t in d.functions.items()), "function"),
        "derived": frozenset(ders),
        "actions": frozenset(acts),
    }


def _const(c):
    v = term(c)
    if v[0] != "c":
        bad("constant", c)
    return v


def domain_c(d):
    """Canonical content of a domain object."""
    return guarded(_domain, d)


def _problem(p):
    from .model import drop_const_types

    if type(p) is not Problem:
        bad("problem", p)
    init = [drop_const_types(canon(tree(x))) for x in p.init]
    metric = None
    if p.metric is not None:
        m = tree(p.metric)
        metric = (m[1], drop_const_types(canon(m[2])))
    return {
        "name": str(p.name),
        "domain": str(p.domain_name),
        "reqs": frozenset(str(r)[1:] for r in p.requirements),
        "objects": _uniq(((t[1], t[2][0] if t[2] else None) for t in map(_const, p.objects)), "object"),
        "init": frozenset(init),
        "goal": drop_const_types(canon(tree(p.goal))),
        "metric": metric,
    }


def problem_c(p):
    """Canonical content of a problem object."""
    return guarded(_problem, p)


def _plan(p):
    if type(p) is not Plan:
        bad("plan", p)
    return [(str(n), tuple(_const(c)[1] for c in args)) for n, args in p.actions]


def plan_c(p):
    """Steps of a plan object."""
    return guarded(_plan, p)


def diff(expected, actual):
    """Describe the difference between two document contents."""
    if isinstance(expected, dict) and isinstance(actual, dict):
        out = []
        for k in expected:
            if expected[k] != actual.get(k):
                e, a = expected[k], actual.get(k)
                if isinstance(e, frozenset) and isinstance(a, frozenset):
                    out.append(f"{k}: missing {sorted(map(repr, e - a))} unexpected {sorted(map(repr, a - e))}")
                else:
                    out.append(f"{k}: expected {e!r} got {a!r}")
        return "\n  ".join(out)
    return f"expected {expected!r}\n  got {actual!r}"
