"""C30: what is not referred to does not matter: unrelated declarations change nothing else."""

import copy
from collections import Counter

from .. import build, gen, model, render, view
from ..cases import act, at, dom, prob
from ..core import check, lib, outcome, parser, short_tb
from ..harness import Part
from . import c13, c15

RULE = (
    "A case is a domain, a problem and a plan (of a reference generator, 0-2 steps spoilt, sometimes with a fault of "
    "C13 in the domain or one in the problem), and up to 40 further declarations with names of their own: constants, "
    "types (above nothing that is there), predicates, functions, actions, derived predicates, requirements, objects, "
    "facts, steps, put at random places of their sections; or the actions and derived predicates the plan does not use "
    "taken away. All are parsed or built, before and after. The verdicts for the domain, for Problem.check, Plan.check "
    "and Plan.instantiate must be the same, and the objects, ground actions and printed items that were there before "
    "too. Non-trivial: at least three declarations are added or taken away."
)
ASSUMPTIONS = [
    "a further requirement may make a refused document acceptable, never the other way round",
    "with a fault in the domain, only additions that are valid by themselves are made",
]
MARK = "zzq"


def is_new(x):
    """Whether a canonical item is about something added."""
    if isinstance(x, str):
        return x.startswith(MARK)
    if isinstance(x, (tuple, list)):
        return any(is_new(y) for y in x)
    return False


def without(v, gone):
    """A view without what was added or taken away."""
    out = {}
    for k, x in v.items():
        if isinstance(x, dict):
            out[k] = {n: y for n, y in x.items() if not is_new(n)}
        elif isinstance(x, frozenset) and k != "reqs":
            names = [n for n in gone if n] if k == "actions" else ()
            out[k] = frozenset(y for y in x if not (is_new(y[0] if k != "init" else y) or y[0] in names))
        else:
            out[k] = x
    return out


def make(kind, ast, parsed):
    if parsed:
        return outcome(parser(kind), render.text_of(kind, ast))
    if kind == "domain":
        return outcome(lambda: build.domain(model.resolve_domain(ast)))
    if kind == "problem":
        return outcome(lambda: build.problem(model.resolve_problem(ast)))
    return outcome(build.plan, ast)


def same(what, r1, r2, monotone, text):
    """Compare two outcomes."""
    (v1, x), (v2, y) = r1, r2
    if monotone:
        check(v1 == "err" or v2 == "ok", f"{what}: refused with a further requirement: {short_tb(y) if v2 == 'err' else ''}", *text)
        return
    why = short_tb(x) if v1 == "err" else short_tb(y) if v2 == "err" else ""
    check(v1 == v2, f"{what}: '{v1}' with and '{v2}' without other declarations: {why}", *text)


def check_unrelated(case):
    vias, small, large, gone, monotone = case
    (d0, p0, q0), (d1, p1, q1) = small, large
    text = [render.text_of(k, a) for k, a in zip(("domain", "problem"), small)] + [repr(q0)]
    text += ["---"] + [render.text_of(k, a) for k, a in zip(("domain", "problem"), large)] + [repr(q1)]
    rs, rl = [
        [make(k, a, vias >> i & 1) for i, (k, a) in enumerate(zip(("domain", "problem", "plan"), docs))]
        for docs in (small, large)
    ]
    same("domain", rs[0], rl[0], monotone, text)
    same("problem", rs[1], rl[1], False, text)
    same("plan", rs[2], rl[2], False, text)
    classes = [f"domain {rs[0][0]}", "parsed" if vias & 1 else "built"]
    (vd, da), (vp, pa), (vq, qa) = rs
    db, pb, qb = (r[1] for r in rl)
    new = [i for i, s in enumerate(q1) if s[0].startswith(MARK)]
    vd = "ok" if vd == rl[0][0] == "ok" else "err"
    if vd == "ok":
        a, b = view.domain_c(da), view.domain_c(db)
        a, b = without(a, gone), without(b, gone)
        if "" in gone:
            check(a["derived"] <= b["derived"], "a derived predicate changes with other declarations", *text)
            b["derived"] = a["derived"]
        if monotone:
            check(a["reqs"] <= b["reqs"], "a requirement is gone", *text)
            b["reqs"] = a["reqs"]
        check(a == b, "the rest of the domain changes with other declarations", *text, view.diff(a, b))
        for k in ("actions", "derived_predicates", "predicates", "constants"):
            left = [x for x in getattr(da, k) if x not in getattr(db, k)]
            check(not left, f"{k} are not equal to those of the domain with other declarations", *text, str(left[:1]))
    if vp == "ok":
        a, b = view.problem_c(pa), view.problem_c(pb)
        check(without(a, ()) == without(b, ()), "the rest of the problem changes with other declarations", *text, view.diff(a, b))
    if vq == "ok":
        a, b = view.plan_c(qa), view.plan_c(qb)
        check(a == [s for i, s in enumerate(b) if i not in new], "the other steps change", *text)
    if vd == vp == "ok":
        r1, r2 = outcome(pa.check, da), outcome(pb.check, db)
        same("Problem.check", r1, r2, monotone, text)
        classes.append(f"Problem.check {r1[0]}")
    if vd == vp == vq == "ok":
        r1, r2 = outcome(qa.check, da, pa), outcome(qb.check, db, pb)
        same("Plan.check", r1, r2, False, text)
        classes.append(f"Plan.check {r1[0]}")
    if vd == vq == "ok":
        r1, r2 = outcome(qa.instantiate, da), outcome(qb.instantiate, db)
        same("Plan.instantiate", r1, r2, False, text)
        classes.append(f"Plan.instantiate {r1[0]}")
        if r1[0] == r2[0] == "ok":
            check(len(r2[1]) == len(qb.actions), "not one ground action per step", *text)
            rest = [g for i, g in enumerate(r2[1]) if i not in new]
            check([view.action_c(g) for g in r1[1]] == [view.action_c(g) for g in rest] and r1[1] == rest, "the ground actions change with other declarations", *text)
    n = sum(len(x or []) for k in ("types", "consts", "preds", "funcs", "structs", "reqs") for x in [d1[k]]) - sum(
        len(x or []) for k in ("types", "consts", "preds", "funcs", "structs", "reqs") for x in [d0[k]]
    )
    n += len(p1["objects"] or []) + len(p1["init"]) + len(q1) - len(p0["objects"] or []) - len(p0["init"]) - len(q0)
    return n >= 3, classes


def put(d, xs, x, last):
    """Insert at a random place; what last() holds for comes behind the others."""
    k = len([y for y in xs if not last(y)])
    lo, hi = (k, len(xs)) if last(x) else (0, k)
    xs.insert(d.pick([lo, hi, d.i(lo, hi)]), x)


def untyped(x):
    return x[1] is None


class Adder:
    """Adds declarations to the documents."""

    def __init__(self, d, docs, domain_ok):
        self.d, self.docs, self.n, self.ok = d, docs, 0, domain_ok
        dast = docs[0]
        self.reqs = set(dast["reqs"])
        self.typing = bool(self.reqs & {"typing", "adl"})
        self.types = [n for n, _ in dast["types"] or [] if n != "object"]
        if not domain_ok:
            self.types = []
        self.preds, self.arity = [], {}

    def name(self, what):
        self.n += 1
        return MARK + what + self.d.pick(["", "-"]) + str(self.n)

    def some_type(self):
        if not self.typing:
            return None
        return self.d.pick(self.types + ["object", None, None])

    def params(self, hi=3):
        """Parameters; often with the names that others have."""
        d = self.d
        known = sorted({v for s in self.docs[0]["structs"] for v, _ in s[2]} | {v for _, ps in self.docs[0]["preds"] for v, _ in ps})
        out = []
        lists = [s[2] for s in self.docs[0]["structs"] if s[2]]
        if lists and d.b(1, 2):  # those of another action or head, with other types
            for n in dict.fromkeys(v for v, _ in d.pick(lists)):
                t = self.some_type()
                out.append([n, [t] if t else []])
            return sorted(out, key=lambda p: not p[1])
        for _ in range(d.i(0, hi)):
            n = d.pick(known) if known and d.b(2, 3) else self.name("v")
            if n not in [m for m, _ in out]:
                t = self.some_type()
                out.append([n, [t] if t else []])
        return sorted(out, key=lambda p: not p[1])

    def atom(self, scope):
        d = self.d
        ps = self.docs[0]["preds"]
        if not ps:
            return ["and", []]
        n, decl = d.pick(ps)
        pool = [["v", v] for v in scope] + [["c", c] for c, _ in self.docs[0]["consts"] or []]
        if decl and not pool:
            return ["and", []]
        return ["atom", n, [list(d.pick(pool)) for _ in decl]]

    def struct(self, derived):
        d = self.d
        if derived:
            keep = d.i(0, len(derived[1])) if d.b(1, 3) else len(derived[1])  # the others take the declared types
            return ["derived", derived[0], [[v, ts if i < keep else []] for i, (v, ts) in enumerate(derived[1])], self.atom([v for v, _ in derived[1]])]
        ps = self.params()
        scope = [v for v, _ in ps]
        atoms = [self.atom(scope) for _ in range(d.i(0, 3))]
        eff = [a for a in atoms if a[0] == "atom"]
        eff = [["not", a] if d.b(1, 3) else a for a in eff]
        return ["action", self.name("a"), ps, ["and", atoms] if d.b(3, 4) else None, ["and", eff] if d.b(3, 4) else None]

    def add(self, kind):
        """Add one declaration; True if it is a requirement."""
        d, (dast, past, steps) = self.d, self.docs
        if kind == "type":
            n, p = self.name("t"), self.some_type()
            if self.typing and d.b(1, 10):
                p = self.name("u")
            dast["types"] = list(dast["types"] or [])
            put(d, dast["types"], [n, p], untyped)
            if self.ok:
                self.types.append(n)
        elif kind == "const":
            dast["consts"] = list(dast["consts"] or [])
            put(d, dast["consts"], [self.name("c"), self.some_type()], untyped)
        elif kind == "pred":
            p = [self.name("p"), self.params()]
            put(d, dast["preds"], p, lambda x: False)
        elif kind == "func" and self.reqs & {"fluents", "numeric-fluents"}:
            put(d, dast["funcs"], [self.name("f"), self.params(2), d.b(1, 2)], lambda x: not x[2])
        elif kind == "action":
            put(d, dast["structs"], self.struct(None), lambda x: False)
        elif kind == "derived" and "derived-predicates" in self.reqs:
            p = [self.name("p"), self.params()]
            put(d, dast["preds"], p, lambda x: False)
            put(d, dast["structs"], self.struct(p), lambda x: False)
        elif kind == "req" and self.ok:
            more = [r for r in gen.ALL_REQS if r not in dast["reqs"]]
            if more:
                put(d, dast["reqs"], d.pick(more), lambda x: False)
                return True
        elif kind == "object":
            past["objects"] = list(past["objects"] or [])
            put(d, past["objects"], [self.name("o"), self.some_type()], untyped)
        elif kind == "fact":
            new = [o for o, _ in past["objects"] or [] if o.startswith(MARK)]
            if new:
                n, k = d.pick([[n, len(ps)] for n, ps in dast["preds"]] or [["zzqp", 1]])
                pool = [o for o, _ in past["objects"]]
                args = [["c", d.pick(pool)] for _ in range(max(k, 1))]
                args[d.i(0, len(args) - 1)] = ["c", d.pick(new)]
                a = ["atom", n, args]
                a = ["not", a] if d.b(1, 4) else a
                if a not in past["init"]:
                    put(d, past["init"], a, lambda x: False)
        elif kind == "step":
            acts = [s for s in dast["structs"] if s[0] == "action" and s[1].startswith(MARK)]
            pool = [o for o, _ in (past["objects"] or []) + (dast["consts"] or [])]
            if acts:
                s = d.pick(acts)
                n = len(model.dedup_params(s[2]))
                if pool or not n:
                    put(d, steps, [s[1], [d.pick(pool) for _ in range(n)]], lambda x: False)
        return False


KINDS = ["type", "const", "pred", "func", "action", "derived", "req", "object", "fact", "step", "object", "action", "step"]


def problem_fault(d, dast, past):
    k = d.i(0, 3)
    if k == 0:
        past["domain"] = past["domain"] + d.pick(["x", "-1"])
    elif k == 1:
        past["reqs"] = past["reqs"] + [d.pick([r for r in gen.ALL_REQS if r not in past["reqs"]])]
    elif past["objects"]:
        o = d.pick(past["objects"])
        o[1] = d.pick(["zq7", "zq7"] + [n for n, _ in dast["types"] or []])
        past["objects"].sort(key=lambda x: x[1] is None)


def g_case(d):
    _v, dast, past, steps = c15.g_plan(d)
    small = copy.deepcopy([dast, past, steps])
    vias, gone, fault = d.i(0, 7), [], False
    monotone = False
    if d.b(1, 5):
        fault = True
        if vias & 1:
            c13.untyped_heads(small[0])
        c13.add_fault(d, small[0])
    if d.b(1, 5):
        problem_fault(d, small[0], small[1])
    large = copy.deepcopy(small)
    if not fault and d.b(1, 3):  # take away what the plan does not use
        used = {n for n, _ in steps}
        keep = []
        for s in small[0]["structs"]:
            if (s[0] == "action" and s[1] in used) or d.b(1, 4):
                keep.append(s)
            elif s[0] == "action":
                gone.append(s[1])
            else:
                keep.append(s) if not d.b(1, 2) else gone.append("")
        small[0]["structs"] = keep
    adder = Adder(d, large, not fault)
    only = d.pick([None, None, d.subset(KINDS, 1, 3)])
    for _ in range(d.pick([2, 3, 4, 5, 8, 12, d.i(10, 40)])):
        k = d.pick(only or KINDS)
        if k == "req" and not d.b(1, 3):
            continue
        monotone |= adder.add(k)
    return [vias, small, large, gone, monotone]


PARTS = [Part("unrelated", gen.strategy(g_case), check_unrelated, 9000)]


def _regressions():
    t = [["t", None]]
    d0 = dom(act("a", [["x", ["t"]]], at("p", "?x"), ["not", at("p", "?x")]), types=t, consts=[["k", "t"]])
    p0 = prob(objects=[["o1", "t"]], init=[at("p", "o1")], goal=at("p", "o1"))
    q0 = [["a", ["o1"]], ["a", ["k"]]]
    d1 = copy.deepcopy(d0)
    d1["types"] = [["zzqt1", "t"], ["zzqt2", "zzqt1"], ["t", None], ["zzqt3", None]]
    d1["consts"] = [["zzqc1", "zzqt2"], ["k", "t"], ["zzqc2", None]]
    d1["structs"] = [act("zzqa1", [["x", ["zzqt2"]]], at("p", "?x"), at("p", "k"))] + d1["structs"] + [act("zzqa2", [["x", []]])]
    d1["preds"] = [["zzqp1", [["x", ["zzqt1"]]]]] + d1["preds"] + [["zzqp2", []]]
    p1 = copy.deepcopy(p0)
    p1["objects"] = [["zzqo1", "zzqt2"]] + p1["objects"]
    p1["init"] = [at("p", "zzqo1")] + p1["init"]
    q1 = [["zzqa1", ["zzqo1"]]] + q0[:1] + [["zzqa2", ["o1"]]] + q0[1:]
    return [("unrelated", [vias, [d0, p0, q0], [d1, p1, q1], [], False]) for vias in (0, 7)]


REGRESSIONS = _regressions()
