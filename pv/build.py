"""Resolved trees -> objects, through the public constructors."""

from . import env  # noqa: F401
from .model import num_of

from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or
from pddl.logic.effects import Forall, When
from pddl.logic import functions as F
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Constant, Variable
from pddl.requirements import Requirements

from .view import CMP, NEFF, OPS

CMP_C = {v: k for k, v in CMP.items()}
NEFF_C = {v: k for k, v in NEFF.items()}
OPS_C = {v: k for k, v in OPS.items()}


def term(t):
    """Build a term."""
    if t[0] == "v":
        return Variable(t[1], list(t[2]) if t[2] else None)
    return Constant(t[1], t[2][0] if t[2] else None)


# how the variables of a quantifier are given to its constructor
collect = [list]


def variables(params):
    """Build typed variables."""
    return [Variable(n, list(ts) if ts else None) for n, ts in params]


def tree(f):
    """Build a formula / expression / effect from a resolved tree."""
    k = f[0]
    if k == "atom":
        return Predicate(f[1], *map(term, f[2]))
    if k == "eq":
        return EqualTo(term(f[1]), term(f[2]))
    if k == "fn":
        return F.NumericFunction(f[1], *map(term, f[2]))
    if k == "num":
        return F.NumericValue(num_of(f[1])[1] if isinstance(f[1], str) else f[1])
    if k == "cmp":
        return CMP_C[f[1]](tree(f[2]), tree(f[3]))
    if k == "neff":
        return NEFF_C[f[1]](tree(f[2]), tree(f[3]))
    if k == "op":
        return OPS_C[f[1]](*map(tree, f[2]))
    if k == "not":
        return Not(tree(f[1]))
    if k == "and":
        return And(*map(tree, f[1]))
    if k == "or":
        return Or(*map(tree, f[1]))
    if k == "oneof":
        return OneOf(*map(tree, f[1]))
    if k == "imply":
        return Imply(tree(f[1]), tree(f[2]))
    if k == "exists":
        return ExistsCondition(tree(f[2]), collect[0](variables(f[1])))
    if k == "forall":
        return ForallCondition(tree(f[2]), collect[0](variables(f[1])))
    if k == "when":
        return When(tree(f[1]), tree(f[2]))
    if k == "eforall":
        return Forall(tree(f[2]), collect[0](variables(f[1])))
    if k == "empty":
        return And()
    if k == "metric":
        return F.Metric(tree(f[2]), f[1])
    raise AssertionError(k)


def opt(f):
    return None if f is None else tree(f)


def struct(s):
    """Build an action or derived predicate from its resolved form."""
    if s[0] == "derived":
        return DerivedPredicate(Predicate(s[1], *variables(s[2])), tree(s[3]))
    return Action(s[1], variables(s[2]), opt(s[3]), opt(s[4]))


def reqs(names):
    return [Requirements(n) for n in names]


def domain_kwargs(r):
    """Constructor arguments of a resolved domain."""
    return dict(
        name=r["name"],
        requirements=reqs(r["reqs"]),
        types={n: p for n, p in (r["types"] or [])},
        constants=[Constant(n, t) for n, t in (r["consts"] or [])],
        predicates=[Predicate(n, *variables(ps)) for n, ps in r["preds"]],
        derived_predicates=[struct(s) for s in r["structs"] if s[0] == "derived"],
        functions={F.NumericFunction(n, *variables(ps)): ("number" if num else None) for n, ps, num in r["funcs"]},
        actions=[struct(s) for s in r["structs"] if s[0] == "action"],
    )


def domain(r):
    """Build a domain from its resolved form."""
    return Domain(**domain_kwargs(r))


def init_el(e):
    if e[0] == "assign":
        return F.EqualTo(tree(e[1]), tree(e[2]))
    return tree(e)


def problem_kwargs(r):
    """Constructor arguments of a resolved problem."""
    return dict(
        name=r["name"],
        domain_name=r["domain"],
        requirements=reqs(r["reqs"]) if r["reqs"] else None,
        objects=[Constant(n, t) for n, t in (r["objects"] or [])],
        init=[init_el(e) for e in r["init"]],
        goal=tree(r["goal"]),
        metric=F.Metric(tree(r["metric"][1]), r["metric"][0]) if r["metric"] else None,
    )


def problem(r):
    """Build a problem from its resolved form."""
    return Problem(**problem_kwargs(r))


def plan(steps):
    """Build a plan."""
    return Plan([(n, [Constant(a) for a in args]) for n, args in steps])
