"""C16: features are accepted only under the requirements that grant them."""

import copy

from .. import gen, model, render
from ..cases import act, at, c, der, dom, fn, num, op, v
from ..core import check, outcome, parser, short_tb
from ..harness import Part

RULE = (
    "A case is a random domain using any mix of the gated features at any place and depth, with a requirement set "
    "that is either the needed one with one grant taken away, exchanged or added, or a random subset in random order "
    "with repetitions. The text must parse exactly when every used feature is granted (a table in the check), and a "
    "refusal must be a PDDL error. Non-trivial: the domain uses at least one gated feature."
)
ASSUMPTIONS = [
    "negation, conditional effects, derived predicates and numeric comparisons are not gated",
    "a numeric function counts as used when it is declared",
]

TABLE = {
    "disj": {"disjunctive-preconditions", "adl"},
    "exists": {"existential-preconditions", "quantified-preconditions", "adl"},
    "forall": {"universal-preconditions", "quantified-preconditions", "adl"},
    "eq": {"equality", "adl"},
    "nondet": {"non-deterministic"},
    "typing": {"typing", "adl"},
    "fluents": {"numeric-fluents", "fluents"},
    "costs": {"action-costs"},
}


def uses(ast):
    """{feature: where} of the gated features."""
    out = {}
    if any(p for _, p in ast["types"] or []):
        out.setdefault("typing", set()).add("hierarchy")
    typed = [("constants", [t]) for _, t in ast["consts"] or [] if t]
    typed += [("predicates", ts) for _, ps in ast["preds"] for _, ts in ps]
    typed += [("functions", ts) for _, ps, _n in ast["funcs"] for _, ts in ps]
    typed += [(s[0], ts) for s in ast["structs"] for _, ts in s[2]]
    for n, _, _k in ast["funcs"]:
        out.setdefault("costs" if n == "total-cost" else "fluents", set()).add("functions")
    for s in ast["structs"]:
        for i, f in enumerate(s[3:]):
            place = s[0] + ("" if s[0] == "derived" else (" precondition", " effect")[i])
            if f is None or f[0] == "empty":
                continue
            for n in model.walk(f):
                k = n[0]
                if k in ("or", "imply"):
                    out.setdefault("disj", set()).add(place)
                elif k in ("exists", "forall", "eq"):
                    out.setdefault(k, set()).add(place)
                elif k == "oneof":
                    out.setdefault("nondet", set()).add(place)
                if k in model.BINDERS:
                    typed += [(k + " in " + place, ts) for _, ts in n[1]]
    for place, ts in typed:
        if ts:
            out.setdefault("typing", set()).add(place)
    return out


def is_pddl_error(x):
    from lark.exceptions import VisitError
    from pddl.exceptions import PDDLError

    return isinstance(x, PDDLError) or (isinstance(x, VisitError) and isinstance(x.orig_exc, PDDLError))


def check_gate(case):
    ast, order = case
    used = uses(ast)
    missing = sorted(f for f in used if not TABLE[f] & set(ast["reqs"]))
    text = render.text_of("domain", dict(ast, reqs=order))
    res, x = outcome(parser("domain"), text)
    if missing:
        check(res == "err", f"accepted although nothing grants {missing}", text)
        check(is_pddl_error(x), f"rejected for {missing}, but with {short_tb(x) if res == 'err' else ''}", text)
    else:
        check(res == "ok", f"rejected although {sorted(used)} are all granted: {x!r}"[:800], text)
    classes = ["refused" if missing else "granted", "missing %d" % len(missing)]
    if len(missing) == 1:
        classes += [f"only {missing[0]}: {w}" for w in used[missing[0]]]
    return bool(used), classes


FEATS = ["typing", "disj", "exists", "forall", "eq", "nondet", "fluents"]


def solo_typing(d, ast):
    """Leave types at one place at most."""
    from .c13 import param_sites

    ast["types"] = [[n, None] for n in sorted(model.type_names(ast["types"]) - {"object"})]
    ast["consts"] = ast["consts"] and [[n, None] for n, _ in ast["consts"]]
    sites = [p for _, p in param_sites(ast)]
    kinds = sorted({w for w, _ in param_sites(ast)})
    keep = [p for w, p in param_sites(ast) if w == d.pick(kinds)][-1:] if kinds else []
    for p in sites:
        if all(p is not q for q in keep):
            p[1] = []
    for ps in {id(q): q for q in keep}.values():
        ps[1] = ps[1] or ["object"]
    for lst in lists_of(ast):
        types = {}
        for n, ts in lst:
            types[n] = types.get(n) or ts
        lst[:] = sorted([[n, list(types[n])] for n, _ in lst], key=lambda p: not p[1])
    for s in ast["structs"]:
        if s[0] == "derived":
            s[2] = [[n, []] for n, _ in s[2]]
    # (a typed derived head is tried by the other cases)


def lists_of(ast):
    out = [ps for _, ps in ast["preds"]] + [ps for _, ps, _ in ast["funcs"]]
    for s in ast["structs"]:
        out.append(s[2])
        for f in s[3:]:
            if f is not None and f[0] != "empty":
                out += [n[1] for n in model.walk(f) if n[0] in model.BINDERS]
    return out


def g_gate(d):
    feats = d.subset(FEATS, 0, d.pick([2, 3, 7]))
    if d.b(1, 3):
        feats = [f for f in FEATS if d.b(4, 5)]
    ast, _ = gen.gen_domain(d, small=d.b(1, 2), features=feats + ["neg", "cond", "cmp"])
    ast = copy.deepcopy(ast)
    if "typing" in feats and d.b(1, 4):
        solo_typing(d, ast)
    used = uses(ast)
    reqs = list(ast["reqs"])
    k = d.i(0, 6)
    if k == 0:
        reqs = d.subset(gen.ALL_REQS, 0, len(gen.ALL_REQS))
    elif k == 1 and used:
        gone = TABLE[d.pick(sorted(used))]
        reqs = [r for r in reqs if r not in gone]
    elif k == 2 and used:
        gone = d.pick(sorted(used))
        reqs = [r for r in gen.ALL_REQS if r not in TABLE[gone]]
    elif k == 3:
        reqs = [r for r in gen.ALL_REQS if r not in d.subset(gen.ALL_REQS, 1, 3)]
    elif k == 4:
        reqs = ["adl"] + d.subset(["fluents", "numeric-fluents", "action-costs", "non-deterministic", "derived-predicates"], 0, 4)
    elif k == 5 and used:
        # one grant exchanged for another one
        f = d.pick(sorted(used))
        reqs = [r for r in reqs if r not in TABLE[f]] + [d.pick(sorted(TABLE[f]))]
        for g in sorted(used):
            if not TABLE[g] & set(reqs) and d.b(2, 3):
                reqs.append(sorted(TABLE[g])[-1])
    ast["reqs"] = reqs
    order = d.shuffled(reqs)
    if order and d.b(1, 5):
        order.append(order[0])
    return [ast, order]


PARTS = [Part("gate", gen.strategy(g_gate), check_gate, 11000)]

PX, Q = at("p", "?x"), at("q")
BASE = dict(types=None, consts=None, preds=[["p", [["x", []]]], ["q", []]], funcs=[])
USES = {
    "or": act("a", [["x", []]], ["not", ["or", [PX, Q]]], None),
    "or in when": act("a", [["x", []]], None, ["eforall", [["y", []]], ["when", ["and", [["or", []], Q]], Q]]),
    "imply": der("p", [["x", []]], ["imply", PX, Q]),
    "exists": act("a", [], ["forall", [["y", []]], ["exists", [["x", []]], PX]], None),
    "exists in derived": der("q", [], ["exists", [["x", []]], PX]),
    "forall": act("a", [], None, ["when", ["forall", [["x", []]], PX], Q]),
    "eq": act("a", [["x", []]], ["not", ["eq", v("x"), v("x")]], None),
    "oneof": act("a", [], None, ["and", [Q, ["oneof", [["not", Q]]]]]),
    "oneof in forall": act("a", [], None, ["eforall", [], ["oneof", [Q]]]),
    "eforall": act("a", [], None, ["eforall", [["x", []]], PX]),
    "typed eforall": act("a", [], None, ["eforall", [["x", ["object"]]], PX]),
    "typed parameter": act("a", [["x", ["object"]]], None, None),
    "cmp": act("a", [], ["cmp", "<", num("1"), num("2")], None),
}
REGRESSIONS = [("gate", [dom(s, reqs=r, **BASE), r]) for s in USES.values() for r in [[]] + [[q] for q in gen.ALL_REQS]]
REGRESSIONS += [
    ("gate", [dom(reqs=r, **{**BASE, **kw}), r])
    for kw in (
        {"funcs": [["f", [], True]]},
        {"funcs": [["total-cost", [], True]]},
        {"funcs": [["total-cost", [], True], ["f", [], True]]},
        {"types": [["a", None]]},
        {"types": [["a", "object"]]},
        {"types": [["a", "b"]]},
        {"consts": [["k", "object"]]},
        {"preds": [["p", [["x", ["object"]]]]]},
    )
    for r in [[]] + [[q] for q in gen.ALL_REQS] + [["action-costs", "fluents"]]
]
