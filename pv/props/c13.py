"""C13: a domain is accepted only if its typing is coherent."""

import copy

from .. import build, gen, model, mutate, render
from ..cases import act, at, der, dom, fn, num
from ..core import Violation, check, outcome, parser, short_tb
from ..harness import Part

RULE = (
    "A case is a random domain AST with 0-2 typing edits (a cycle of any length, a supertype for object, an undeclared "
    "type at a random site - constant, predicate, function, parameter, derived head, nested quantified variable, a "
    "term inside a built formula - or no requirement that includes typing), or a hierarchy alone of up to 60 types (chains, forests, rings with "
    "tails) with its uses, given as text or to the constructor. A "
    "reference checker on the AST decides whether it must be accepted or rejected with a PDDL error. "
    "Non-trivial: the domain is faulty, or it declares a hierarchy and uses at least three typed names."
)
ASSUMPTIONS = ["in a text, a type called object is a syntax error, which counts as rejection"]

BAD = "no-such-type"
ADL_PARTS = [
    "strips", "negative-preconditions", "disjunctive-preconditions", "equality", "conditional-effects",
    "universal-preconditions", "existential-preconditions",
]


def all_term_types(r):
    """Types used anywhere in a resolved domain, inside formulas too."""
    out = set(model.used_types(r))
    for s in r["structs"]:
        for f in s[3:]:
            if f is not None:
                for n in model.walk(f):
                    for t in model.terms_of(n):
                        out.update(t[2])
    return out


def faults(r):
    types = r["types"] or []
    out = []
    if model.has_cycle(types):
        out.append("cycle")
    if any(n == "object" and p is not None for n, p in types):
        out.append("object has a supertype")
    used = all_term_types(r)
    if used - model.type_names(types):
        out.append("undeclared type")
    if (used or any(p for _, p in types)) and not {"typing", "adl"} & set(r["reqs"]):
        out.append("no typing requirement")
    return out


def check_typing(case):
    via, ast, extra = case
    r = model.resolve_domain(ast)
    if via == "build":
        for (i, j, k), types, *fresh in extra:
            s = r["structs"][i]
            terms = [t for n in model.walk(s[j]) for t in model.terms_of(n)]
            if isinstance(k, list):  # one constant, written with other types in the same atom
                for m, ts in zip(k, types):
                    terms[m][:] = ["c", fresh[0], list(ts)]
                continue
            if fresh:  # only this occurrence, with a name of its own
                terms[k][1:3] = [fresh[0], list(types)]
                continue
            for t in terms:  # equal operands are merged: change them alike
                if t[:2] == terms[k][:2]:
                    t[2] = list(types)
    fs = faults(r)
    text = render.text_of("domain", ast)
    if via == "build":
        res, x = outcome(build.domain, r)
    else:
        res, x = outcome(parser("domain"), text)
    shown = text if via == "parse" else f"{text}\n{extra}"
    if not fs:
        check(res == "ok", f"a coherent domain is rejected: {x!r}"[:900], shown)
    else:
        check(res == "err", f"a domain with a typing fault ({', '.join(fs)}) is accepted", shown)
        if via == "build":
            check(is_pddl_error(x), f"typing fault ({', '.join(fs)}): rejected, but with {short_tb(x)}", shown)
        else:
            ok = is_pddl_error(x) or any(n == "object" for n, _ in ast["types"] or []) and is_lark(x)
            check(ok, f"typing fault ({', '.join(fs)}): rejected, but with {short_tb(x)}", shown)
    typed = len([1 for _, p in (ast["types"] or []) if p]) > 0 and len(all_term_types(r)) >= 2
    return bool(fs) or typed, [via] + (fs or ["coherent"])


def is_pddl_error(x):
    from lark.exceptions import VisitError
    from pddl.exceptions import PDDLError

    return isinstance(x, PDDLError) or (isinstance(x, VisitError) and isinstance(x.orig_exc, PDDLError))


def is_lark(x):
    from lark.exceptions import LarkError

    return isinstance(x, LarkError)


def param_sites(ast):
    """All [name, types] pairs of an AST, with where they are."""
    out = []
    for _, ps in ast["preds"]:
        out += [("predicate", p) for p in ps]
    for _, ps, _n in ast["funcs"]:
        out += [("function", p) for p in ps]
    for s in ast["structs"]:
        out += [(s[0] + " parameter", p) for p in s[2]]
        for f in s[3:]:
            if f is not None and f[0] != "empty":
                for n in model.walk(f):
                    if n[0] in model.BINDERS:
                        out += [(n[0], p) for p in n[1]]
    return out


def add_fault(d, ast):
    k = d.i(0, 5)
    types = ast["types"] or []
    if k <= 1 and types:
        # a cycle: point an ancestor at one of its descendants (or itself)
        names = [n for n, _ in types]
        n = d.pick(names)
        below = [m for m in names if n in model.ancestors(m, types)] or [n]
        target = d.pick(below)
        ast["types"] = sorted([[m, target if m == n else p] for m, p in types], key=lambda x: x[1] is None)
    elif k == 2 and types:
        ast["types"] = [["object", d.pick([n for n, _ in types])]] + types
    elif k in (3, 4):
        sites = param_sites(ast)
        if ast["consts"] and d.b(1, 4):
            c = d.pick(ast["consts"])
            c[1] = bad_type(d, ast)
            ast["consts"].sort(key=lambda x: x[1] is None)
        elif sites:
            kinds = sorted({w for w, _ in sites})
            w = d.pick(kinds)
            p = d.pick([q for v, q in sites if v == w])
            bt = bad_type(d, ast)
            p[1] = d.shuffled([t for t in p[1] if t != bt] + [bt]) if p[1] and d.b(1, 2) else [bt]
            untyped_last(ast)
    elif k == 5:
        if "adl" in ast["reqs"]:
            ast["reqs"] = [r for r in ast["reqs"] if r != "adl"] + [r for r in ADL_PARTS if r not in ast["reqs"]]
        ast["reqs"] = [r for r in ast["reqs"] if r != "typing"]


def bad_type(d, ast):
    names = [n for n, _ in ast["types"] or []]
    known = model.type_names(ast["types"])
    for n in d.shuffled(names)[:2]:
        for c in (n.upper(), n.lower(), n + "s", n[:-1], *n.replace("_", "-").split("-")):
            if c and c not in known and c not in gen.KEYWORDS and c[0].isalpha() and d.b(1, 4):
                return c
    return BAD


def untyped_last(ast):
    """Keep the untyped items last, and repeated variables in agreement."""

    def fix(ps):
        types = {}
        for n, ts in ps:
            if len(ts) >= len(types.get(n, [])):
                types[n] = ts
        ps[:] = sorted(([n, list(types[n])] for n, _ in ps), key=lambda p: not p[1])

    for _, ps in ast["preds"]:
        fix(ps)
    for _, ps, _n in ast["funcs"]:
        fix(ps)
    for s in ast["structs"]:
        fix(s[2])
        for f in s[3:]:
            if f is not None and f[0] != "empty":
                for n in model.walk(f):
                    if n[0] in model.BINDERS:
                        fix(n[1])


def untyped_heads(ast):
    """Take the types off the heads of derived predicates (and those away that could then go with several declarations)."""
    out = []
    for s in ast["structs"]:
        if s[0] == "derived":
            s[2] = [[v, []] for v, _ in s[2]]
            if len([1 for n, ps in ast["preds"] if n == s[1] and len(ps) == len(s[2])]) > 1:
                continue
        out.append(s)
    ast["structs"] = out


def g_case(d):
    ast, ctx = gen.gen_domain(
        d, small=d.b(1, 2), features=None if d.b(1, 3) else ["typing", "exists", "forall", "cond", "fluents", "disj"]
    )
    ast = copy.deepcopy(ast)
    # heads of derived predicates follow their declarations: drop them when declarations may be edited
    n = d.pick([0, 1, 1, 1, 2])
    via = d.pick(["parse", "build"])
    if via == "parse" and n:
        untyped_heads(ast)
    for _ in range(n):
        add_fault(d, ast)
    extra = []
    if via == "build" and d.b(2, 3):
        r = model.resolve_domain(ast)
        sites, every, pairs = [], [], []
        for i, s in enumerate(r["structs"]):
            for j in range(3, len(s)):
                if s[j] is not None:
                    terms = [t for x in model.walk(s[j]) for t in model.terms_of(x)]
                    every += [(i, j, k, t[0]) for k, t in enumerate(terms)]
                    k = 0
                    for x in model.walk(s[j]):
                        n = len(model.terms_of(x))
                        pairs += [[i, j, [k + a, k + b]] for a in range(n) for b in range(a)]
                        k += n
                    # constants only: a variable may occur twice in one atom
                    sites += [(i, j, k) for k, t in enumerate(terms) if t[0] == "c"]
        if pairs and d.b(1, 4):
            ts = d.pick([[[BAD], []], [[BAD], ["object"]], [["object"], [BAD]], [[], [BAD]], [["object"], []]])
            extra.append([d.pick(pairs), ts, "zz" + str(d.i(0, 9))])
        elif every and d.b(2, 3):
            *site, kind = d.pick(every)
            ts = [d.pick(ctx.types + [BAD])] if kind == "c" or d.b(1, 2) else sorted({BAD, d.pick(ctx.types + ["object"])})
            extra.append([site, ts, "zz" + str(d.i(0, 9))])
        elif sites:
            extra.append([list(d.pick(sites)), [d.pick(ctx.types + [BAD])]])
    return [via, ast, extra]


def g_graph(d):
    """A domain of types alone: chains, rings with tails, forests of up to 60 types."""
    n = d.pick([d.i(1, 8), d.i(5, 20), d.i(20, 60)])
    stem = d.pick(["t", "ty-", "T", "object"])
    names = d.shuffled([f"{stem}{i}" for i in range(n)])
    root = d.pick([None, None, "object", "extra-root"])
    shape = d.i(0, 3)
    if shape == 0:
        types = [[m, names[i + 1] if i + 1 < n else root] for i, m in enumerate(names)]
    else:
        types = [[m, d.pick(names[:i] + [root]) if i else root] for i, m in enumerate(names)]
    if shape >= 2 or d.b(1, 2):  # one type put below one of its descendants
        i = d.i(0, n - 1)
        below = [m for m in names if names[i] in model.ancestors(m, types)] or [names[i]]
        types[i] = [names[i], d.pick([below[-1], d.pick(below)])]
    used = [m for m, _ in types] + (["extra-root"] if any(p == "extra-root" for _, p in types) else [])
    if d.b(1, 6):
        used = [stem + str(n)]
    consts = [[f"c{i}", m] for i, m in enumerate(d.shuffled(used)[: d.i(0, 20)])] or None
    preds = [["p", [["x", sorted(d.subset(used, 1, min(len(used), d.pick([1, 2, 12]))))]]]] if d.b(1, 2) else []
    types = sorted(d.shuffled(types), key=lambda x: x[1] is None)
    ast = dom(reqs=[d.pick(["typing", "typing", "adl", "equality"])], types=types, consts=consts, preds=preds, funcs=[])
    return [d.pick(["parse", "build"]), ast, []]


def check_sound(case):
    return check_typing(case)


PARTS = [Part("typing", gen.strategy(g_case), check_sound, 11000), Part("graph", gen.strategy(g_graph), check_sound, 3000)]
T3 = [["a", "b"], ["b", "c"], ["c", "a"]]
BADP = [["x", [BAD]]]
OK = dict(types=[["t", "u"]], consts=None, preds=[["p", [["x", ["u"]]]]], funcs=[["f", [["x", ["t"]]], True]])
REGRESSIONS = [
    ("typing", [via, d_, []])
    for via in ("parse", "build")
    for d_ in (
        dom(types=T3, consts=None, preds=[], funcs=[]),
        dom(types=[["a", "a"]], consts=None, preds=[], funcs=[]),
        dom(**OK),
        dom(**{**OK, "funcs": [["f", BADP, True]]}),
        dom(der("p", [["x", []]], ["exists", [["y", [BAD]]], at("p", "?y")]), **OK),
        dom(act("a", [], None, ["when", ["forall", [["y", [BAD]]], at("p", "?y")], at("p", "?y")]), **OK),
        dom(act("a", [], ["not", ["exists", [["y", [BAD]]], ["cmp", ">", fn("f", "?y"), num("1")]]], None), **OK),
        dom(act("a", [], None, ["oneof", [["eforall", BADP, at("p", "?x")]]]), **OK),
        dom(act("a", [["x", ["object"]]], None, None), consts=[["k", "object"]], **{k: v for k, v in OK.items() if k != "consts"}),
    )
] + [
    ("typing", ["parse", dom(reqs=["adl"], types=[["a", "b"]], consts=None, preds=[], funcs=[]), []]),
    ("typing", ["build", dom(reqs=["strips"], types=[["a", None]], consts=None, preds=[["p", [["x", ["a"]]]]], funcs=[]), []]),
    ("typing", ["build", dom(act("a", [], ["cmp", ">", fn("f", "k"), num("1")], None)), [[[0, 3, 0], [BAD]]]]),
    ("typing", ["build", dom(act("a", [], at("r", "k", "k"), None)), [[[0, 3, [1, 0]], [[BAD], ["t"]], "k"]]]),
    ("typing", ["build", dom(act("a", [], ["eq", ["c", "k"], ["c", "k"]], None)), [[[0, 3, [1, 0]], [[BAD], []], "k"]]]),
]
