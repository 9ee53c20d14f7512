"""C21: derived predicates are typed against their declaration."""

from .. import gen, model, render, view
from ..cases import at, der, dom
from ..core import check, clean_errors, lib, outcome, parser, short_tb
from ..harness import Part

RULE = (
    "A case is a random type hierarchy (chains up to 40 deep, trees, supertypes that are not declared, sometimes a "
    "cycle or none at all), 1-3 predicates with 0-4 arguments declared with no type, object, one type or "
    "alternatives, and 1-3 derived predicates whose heads take for each argument no type, the declared ones, "
    "subtypes, supertypes, siblings, mixtures or undeclared types, sometimes with another number of arguments or an "
    "undeclared predicate; conditions use the arguments under quantifiers that re-bind some of them. A reference "
    "subtype relation decides acceptance; accepted heads and every occurrence must carry the resolved types. "
    "Non-trivial: some head argument has a type and the position is declared with another type."
)
ASSUMPTIONS = ["a head does not repeat a variable; predicate names are declared once"]


def fits(ts, decl, types):
    """The reference subtype relation."""
    if not decl or "object" in decl:
        return True
    return all(any(a in decl for a in model.ancestors(t, types)) for t in ts)


def faults(ast):
    types = ast["types"] or []
    out = []
    for _, n, ps, _cond in ast["structs"]:
        decls = [ds for m, ds in ast["preds"] if m == n]
        right = [ds for ds in decls if len(ds) == len(ps)]
        if not decls:
            out.append("undeclared predicate")
        elif not right:
            out.append("number of arguments")
        elif not any(all(not ts or fits(ts, dts, types) for (_v, ts), (_w, dts) in zip(ps, ds)) for ds in right):
            out.append("not a subtype")
    if model.has_cycle(types):
        out.append("cyclic hierarchy")
    if model.used_types(ast) - model.type_names(types):
        out.append("undeclared type")
    return out


def check_heads(case):
    ast, layout = case
    fs = faults(ast)
    text = render.text_of("domain", ast, layout)
    res, x = outcome(parser("domain"), text)
    types = ast["types"] or []
    interesting, classes = False, []
    names = [n for n, _ in ast["preds"]]
    for _, n, ps, _c in ast["structs"]:
        if names.count(n) > 1:
            classes.append("one of several declarations")
            interesting = True
        for (_v, ts), (_w, ds) in zip(ps, ([*model.declarations(ast["preds"], n, ps, types)] or [[]])[-1]):
            if ts and ds and sorted(ts) != sorted(ds):
                interesting = True
                if not fs:
                    below = [t for t in ts if t not in ds]
                    classes.append("indirect subtype accepted" if below and "object" not in ds and any(
                        not any(p in ds for p in model.ancestors(t, types)[:2]) for t in below) else "subtype accepted")
            if not ts and ds and not fs:
                classes.append("declared types taken")
    if fs:
        check(res == "err", f"a bad derived predicate ({', '.join(fs)}) is accepted", text)
        check(isinstance(x, clean_errors()), f"rejected ({', '.join(fs)}), but with {short_tb(x)}", text)
        return interesting, sorted(set(fs))
    check(res == "ok", f"a good derived predicate is rejected: {short_tb(x)}" if res == "err" else "", text)
    want, got = model.domain_c(ast), view.domain_c(x)
    check(got["derived"] == want["derived"], "derived predicates are not typed as they should", text, view.diff(want, got))
    check(got == want, "wrong content", text, view.diff(want, got))
    again = lib("printing", str, x)
    y = lib("parsing it back", parser("domain"), again)
    check(view.domain_c(y)["derived"] == want["derived"], "derived predicates change in print", again)
    return interesting, ["accepted"] + sorted(set(classes))


TYPES = ["t0", "t1", "t2", "t3", "t4", "t5", "t6"]


def g_hierarchy(d):
    """Random types in random order: [[name, parent]], typed first; None at times."""
    k = d.i(0, 11)
    if k == 0:
        return None
    if k == 1:  # a deep chain
        n = d.i(8, 40)
        out = [[f"c{i}", f"c{i + 1}"] for i in range(n)] + [[f"c{n}", None]]
        return d.shuffled(out[:-1]) + out[-1:] if n < 12 else out
    n = d.i(1, 7)
    names = TYPES[:n]
    out = []
    for i, t in enumerate(names):
        p = None
        if i and d.b(4, 5):
            p = names[i - 1] if d.b(1, 2) else names[d.i(0, i - 1)]
        elif d.b(1, 5):
            p = d.pick(["top", "object", "other"])
        out.append([t, p])
    if k in (2, 3):  # a cycle
        i, j = d.i(0, n - 1), d.i(0, n - 1)
        out[i][1] = names[j]
    out = d.shuffled(out)
    return sorted(out, key=lambda x: x[1] is None)


def known(types):
    return sorted(model.type_names(types)) if types else ["object"]


def g_types(d, types, decl):
    """Types of a head argument, near the declared ones."""
    k = d.i(0, 11)
    names = known(types)
    if k <= 1:
        return []
    if k == 2:
        return list(decl)
    below = [t for t in names if any(p in decl for p in model.ancestors(t, types or []))]
    above = [a for t in decl for a in model.ancestors(t, types or [])]
    if k <= 8 and below:
        return d.subset(below, 1, 3 if d.b(1, 3) else 1)
    if k == 9 and above:
        return [d.pick(above)]
    if k == 10:
        return d.subset(names, 1, 3)
    if d.b(1, 8):
        return [d.pick(["undeclared", "T0", "t0x"])]
    return [d.pick(names)]


def g_formula(d, scope, preds, types, depth):
    k = d.i(0, 6) if depth else 0
    if k <= 1 and scope:
        n, ps = d.pick(preds)
        return ["atom", n, [["v", d.pick(scope)] for _ in ps]]
    if k <= 1:
        return ["and", []]
    if k == 2:
        return ["not", g_formula(d, scope, preds, types, depth - 1)]
    if k == 3:
        return ["imply", g_formula(d, scope, preds, types, depth - 1), g_formula(d, scope, preds, types, depth - 1)]
    if k == 4 and scope:
        return ["eq", ["v", d.pick(scope)], ["v", d.pick(scope)]]
    if k == 5:
        return [d.pick(["and", "or"]), [g_formula(d, scope, preds, types, depth - 1) for _ in range(2)]]
    vs = d.subset(["x", "y", "z", "u", "w"], 1, 2)
    ps = [[v, [d.pick(known(types))] if d.b(2, 3) else []] for v in vs]
    ps.sort(key=lambda p: not p[1])
    return [d.pick(["exists", "forall"]), ps, g_formula(d, sorted(set(scope) | set(vs)), preds, types, depth - 1)]


def g_case(d):
    types = g_hierarchy(d)
    names = known(types)
    preds = []
    names_of = ["p", "q", "r"] if d.b(2, 3) else d.pick([["p", "p"], ["p", "q", "p"], ["p", "p", "p"], ["p", "q", "q", "p"]])
    for n in names_of[: d.i(1, len(names_of))]:
        ps = []
        for v in ["x", "y", "z", "w"][: d.pick([0, 1, 1, 2, 2, 3, 4])]:
            k = d.i(0, 9)
            ts = [] if k == 0 else ["object"] if k == 1 else d.subset(names, 1, 3) if k <= 3 else [d.pick(names)]
            ps.append([v, ts])
        ps.sort(key=lambda p: not p[1])
        preds.append([n, ps])
    structs = []
    for _ in range(d.i(1, 3)):
        n, decl = d.pick(preds)
        if d.b(1, 30):
            n = d.pick(["P", "undeclared"])
        vs = d.subset(["x", "y", "z", "u", "w", "v1", "v2", "v3"], len(decl), len(decl))
        if d.b(1, 30):
            vs = vs[:-1] if vs and d.b(1, 2) else vs + ["v9"]
        head = [[v, g_types(d, types, decl[i][1] if i < len(decl) else [])] for i, v in enumerate(vs)]
        # in a text, an argument without a type takes that of the next group
        last = max([i for i, h in enumerate(head) if h[1]], default=-1)
        for h in head[: last + 1]:
            if not h[1]:
                h[1] = ["object"] if d.b(1, 8) else list(head[last][1])
        # declarations that give it different types: no demand
        if len({str(model.head_types(head, ds)) for ds in model.declarations(preds, n, head, types or []) if len(ds) == len(head)}) > 1:
            continue
        structs.append(["derived", n, head, g_formula(d, vs, preds, types, d.i(0, 3))])
    reqs = [d.pick(["adl", "typing"]), "adl", "equality", "derived-predicates"]
    ast = {
        "name": "d", "reqs": sorted(set(reqs)), "types": types, "consts": None, "preds": preds, "funcs": [], "structs": structs,
    }
    return [ast, gen.gen_layout(d) if d.b(1, 6) else []]


PARTS = [Part("heads", gen.strategy(g_case), check_heads, 20000)]


def R(types, decl, head, cond=None):
    n = dom(der("p", head, cond or at("p", *["?" + v for v, _ in head])))
    return ("heads", [dict(n, types=types, consts=None, preds=[["p", decl]], funcs=[]), []])


CHAIN = [["a", "b"], ["b", "c"], ["c", "e"], ["e", None], ["f", None]]
X = lambda *ts: [["x", list(ts)]]  # noqa
REGRESSIONS = [
    R(CHAIN, X("e"), X("a")),
    R(CHAIN, X("c"), X("b")),
    R(CHAIN, X("a"), X("b")),
    R(CHAIN, X("f"), X("a")),
    R(CHAIN, X("f", "c"), X("a", "f")),
    R(CHAIN, X("f", "c"), X("a", "e")),
    R(CHAIN, X(), X("a")),
    R(CHAIN, X("object"), X("f", "a")),
    R(CHAIN, X("a"), X("object")),
    R(CHAIN, X("a", "object"), X("f")),
    R(CHAIN, X("a", "f"), X()),
    R(CHAIN, X("e"), X("nope")),
    R([["a", "b"], ["b", "a"]], X("b"), X("a")),
    R([["a", "b"], ["b", "c"], ["c", "b"], ["e", None]], X("e"), X("a")),
    R([["a", "a"], ["b", None]], X("b"), X("a")),
    R(None, X(), X("a")),
    R(None, X("object"), X("object")),
    R(CHAIN, [["x", ["e"]], ["y", ["f"]]], [["y", ["a"]], ["x", ["f"]]], at("p", "?y", "?x")),
    R(CHAIN, [["x", ["e"]], ["y", ["f"]]], [["y", ["f"]], ["x", ["a"]]], at("p", "?y", "?x")),
    R(CHAIN, X("e"), X("a"), ["and", [at("p", "?x"), ["exists", [["x", ["b"]]], at("p", "?x")], ["forall", [["x", []]], at("p", "?x")]]]),
    R([["a", "u"]], X("u"), X("a")),
]
TWICE = [[["p", X()], ["p", [["x", []], ["y", []]]]], [["p", X("e")], ["p", X("f")]], [["p", X("e")], ["p", [["x", ["f"]], ["y", ["f"]]]], ["q", X()]]]
REGRESSIONS += [
    ("heads", [dict(R(CHAIN, X(), h)[1][0], preds=list(ps)), []])
    for two in TWICE
    for ps in (two, two[::-1])
    for h in (X("a"), X("f"), X("a", "f"), [["x", ["f"]], ["y", ["f"]]])
]
