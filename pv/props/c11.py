"""C11: equality is structural and consistent with hashing."""

from .. import build, gen, model, mutate, render
from ..core import check, lib, parse
from ..harness import Part
from ..peer import make

RULE = (
    "A case is a pool of 2-7 object descriptions (terms, formulas, effects, functions, metrics, actions, derived "
    "predicates, domains, problems, problems given their domain, plans), many of them small edits of each other; every one is built twice. Over "
    "all pairs: reflexive, symmetric, transitive; equal when the descriptions are the same, different when their "
    "canonical contents differ; equal objects hash alike and collapse in sets and dictionaries; comparing with "
    "unrelated objects is False. Non-trivial: the pool has both an equal pair of different descriptions' builds and "
    "a differing pair of the same kind."
)
ASSUMPTIONS = [
    "no demand when two descriptions differ only in and/or simplification, number kinds, constants' types, an absent "
    "versus empty condition, or object versus no type",
]


def loose(x):
    """Content up to what equality may ignore."""
    if isinstance(x, frozenset):
        return frozenset(loose(y) for y in x)
    if isinstance(x, dict):
        return frozenset((loose(k), loose(v)) for k, v in x.items())
    return model.same_up_to_numbers(x)


def content(kind, ast):
    if kind == "domain":
        c = model.domain_c(ast)
        c["consts"] = frozenset(c["consts"])
        return loose(c)
    if kind == "problem":
        c = model.problem_c(ast)
        c["objects"] = frozenset(c["objects"])
        return loose(c)
    if kind == "plan":
        return tuple((n, tuple(a)) for n, a in ast)
    if kind == "fitted":
        return (ast[0], content("domain", ast[1]))
    if kind == "term":
        return loose(("t", model.term_c(ast)))[1]
    if kind == "struct":
        if ast[0] == "derived":
            return ("derived", ast[1], model.params_c(ast[2]), loose(model.canon(ast[3])))
        return ("action", ast[1], model.params_c(ast[2]), loose(model.cond_c(ast[3])), loose(model.cond_c(ast[4])))
    if ast[0] == "metric":
        return ("metric", ast[1], loose(model.canon(ast[2])))
    return loose(model.canon(ast))


def construct(kind, ast, via="build"):
    """The object of a description; a fitted problem is one that was given its domain."""
    if kind == "fitted":
        return build.Problem(ast[0], domain=make("domain", ast[1], via))
    return make(kind, ast, via)


UNRELATED = [None, 0, 1, 1.5, "", "a", "p", (), [], {}, frozenset(), object(), NotImplemented, True, b"a", int]


def hash_of(x):
    try:
        return hash(x)
    except TypeError:
        return None


def check_pool(case):
    objs = []
    for i, (kind, ast, via) in enumerate(case):
        cat = "tree" if kind in ("tree", "term", "struct") else kind
        x = lib("building", construct, kind, ast)
        y = lib("building", construct, kind, ast, via) if cat == kind and kind != "tree" else lib("building", construct, kind, ast)
        ct = (cat, content(kind, ast))
        objs.append((i, x, ct))
        objs.append((i, y, ct))
    n = len(objs)
    eq = [[False] * n for _ in range(n)]
    for a in range(n):
        ia, x, ca = objs[a]
        for b in range(n):
            ib, y, cb = objs[b]
            r = lib("comparing", lambda: x == y)
            ne = lib("comparing", lambda: x != y)
            check(r is True or r is False, "== is not a truth value", repr(r))
            check(ne is (not r), "!= is not the negation of ==", str(x), str(y))
            eq[a][b] = r
            if ia == ib or case[ia][:2] == case[ib][:2]:
                check(r, "objects of the same content differ", repr(case[ia]), str(x), str(y))
            elif ca != cb:
                check(not r, "objects of different content are equal", repr(case[ia]), repr(case[ib]), str(x), str(y))
            elif case[ia][0] == "term":
                check(r, "constants of the same name differ", repr(case[ia]), repr(case[ib]))
            if r:
                check(hash_of(x) == hash_of(y), "equal objects hash differently", str(x), str(y))
        for u in UNRELATED:
            check(lib("comparing", lambda: x == u) is False, "equal to an unrelated object", str(x), repr(u))
            check(lib("comparing", lambda: u == x) is False, "equal to an unrelated object", str(x), repr(u))
    for a in range(n):
        for b in range(n):
            check(eq[a][b] == eq[b][a], "== is not symmetric", str(objs[a][1]), str(objs[b][1]))
            if eq[a][b]:
                for c in range(n):
                    check(
                        eq[a][c] == eq[b][c], "== is not transitive", str(objs[a][1]), str(objs[b][1]), str(objs[c][1])
                    )
    hashable = [k for k in range(n) if hash_of(objs[k][1]) is not None]
    reps = [k for k in hashable if not any(eq[k][j] for j in hashable if j < k)]
    xs = [objs[k][1] for k in hashable]
    check(len(set(xs)) == len(reps), "a set does not treat equal objects as one", *map(str, xs))
    dd = {}
    for k in hashable:
        dd[objs[k][1]] = k
    check(len(dd) == len(reps), "a dictionary does not treat equal objects as one", *map(str, xs))
    for k in hashable:
        check(eq[dd[objs[k][1]]][k], "a dictionary finds another object", str(objs[k][1]))
    near = any(
        not eq[a][b] and case[objs[a][0]][0] == case[objs[b][0]][0] and objs[a][0] != objs[b][0]
        for a in range(n)
        for b in range(a)
    )
    kinds = sorted({c[0] if c[0] != "tree" else c[1][0] for c in case})
    cross = any(eq[a][b] and objs[a][0] != objs[b][0] for a in range(n) for b in range(a))
    return near, kinds + (["equal, described apart"] if cross else [])


def g_ctx(d):
    ctx = gen.Ctx()
    ctx.f = set(gen.FEATURES)
    ctx.types = ["t", "u", "w"]
    ctx.consts = ["a", "b"]
    ctx.preds = [["p", []], ["q", [["x", []]]], ["a", [["x", []], ["y", []]]]]
    ctx.funcs = [["p", []], ["f", [["x", []]]], ["a", [["x", []], ["y", []]]]]
    return ctx


SCOPE = {"x": [], "y": ["t"], "a": ["t", "u"]}
POOL = ["a", "b", "p", "q", "x", "y"]


def g_tree(d, ctx):
    k = d.i(0, 7)
    names = sorted(SCOPE)
    if k <= 2:
        f = gen.gen_gd(d, ctx, names, d.i(0, 3))
    elif k <= 4:
        f = gen.gen_effect(d, ctx, names, 2)
    elif k == 5:
        f = gen.gen_fexp(d, ctx, names, 2)
    elif k == 6:
        f = gen.gen_fn(d, ctx, names)
    else:
        f = gen.gen_fexp(d, ctx, [], 2)
        return ["metric", d.pick(["minimize", "maximize"]), model.resolve(f, SCOPE, {})]
    return model.resolve(f, SCOPE, {})


def buildable(f):
    """A variable may not occur with two types in one atom."""
    for n in mutate.nodes(f):
        if n and n[0] in ("atom", "eq"):
            seen = {}
            for t in n[2] if n[0] == "atom" else n[1:]:
                if t[0] == "v" and seen.setdefault(t[1], t[2]) != t[2]:
                    return False
    return True


def g_pool(d):
    ctx = g_ctx(d)
    which = d.i(0, 4)
    out = []
    if which == 0:
        for _ in range(d.i(2, 6)):
            t = d.pick(["v", "c"])
            out.append(["term", [t, d.pick(POOL), sorted(d.subset(["t", "u"], 0, 2 if t == "v" else 1))], "build"])
        out.append(["tree", g_tree(d, ctx), "build"])
        return out
    if which == 1:
        if d.b(1, 3):
            names = d.subset(sorted(SCOPE), 0, 3)
            cond = model.resolve(gen.gen_gd(d, ctx, names, 2), SCOPE, {})
            s = ["derived", d.pick(POOL), [[n, SCOPE[n]] for n in names], cond]
        else:
            s = gen.gen_action(d, ctx, d.pick(POOL), small=True)
            s = model.resolve_struct(s, {}, {})
        out.append(["struct", s, "build"])
        for _ in range(d.i(1, 4)):
            m = mutate.mutate_tree(d, d.pick(out)[1], POOL)
            if buildable(m):
                out.append(["struct", m, "build"])
        return out
    for _ in range(d.i(1, 2)):
        out.append(["tree", g_tree(d, ctx), "build"])
    for _ in range(d.i(1, 4)):
        m = mutate.mutate_tree(d, d.pick(out)[1], POOL)
        if buildable(m):
            out.append(["tree", m, "build"])
    return out


def edit_doc(d, kind, ast):
    """A small edit of a document, keeping it well formed."""
    from .c07 import perm_domain, perm_problem

    if kind == "plan":
        a = [[n, list(x)] for n, x in ast]
        if a:
            k = d.i(0, 3)
            i = d.i(0, len(a) - 1)
            if k == 0:
                a.pop(i)
            elif k == 1:
                a.append(a[i])
            elif k == 2:
                a.reverse()
            else:
                a[i] = [a[i][0], a[i][1] + ["zz"]]
        return a
    out = dict(ast)
    k = d.i(0, 8)
    if kind == "domain":
        if k == 0:
            return perm_domain(d, ast)
        if k == 1:
            out["name"] = d.name()
        elif k == 2:
            out["reqs"] = ast["reqs"] + [r for r in ["strips", "adl", "fluents"] if r not in ast["reqs"]][:1]
        elif k == 3 and ast["structs"]:
            out["structs"] = list(ast["structs"])
            out["structs"].pop(d.i(0, len(ast["structs"]) - 1))
        elif k == 4:
            new = d.name([n for n, _ in ast["preds"]])
            out["preds"] = ast["preds"] + [[new, []]]
        elif k == 5:
            out["consts"] = (ast["consts"] or []) + [[d.name([n for n, _ in ast["consts"] or []]), None]]
        elif k == 6 and ast["funcs"]:
            fs = [list(x) for x in ast["funcs"]]
            fs[-1][2] = not fs[-1][2]
            out["funcs"] = fs if all(x[0] != "total-cost" for x in fs) else ast["funcs"]
            out["funcs"] = sorted(out["funcs"], key=lambda x: not x[2])
        elif k == 7 and ast["types"]:
            out["types"] = ast["types"] + [[d.name([x for p in ast["types"] for x in p if x]), None]]
        elif ast["structs"]:
            i = d.i(0, len(ast["structs"]) - 1)
            s = ast["structs"][i]
            if s[0] == "action":
                s = list(s)
                j = d.i(3, 4)
                s[j] = None if s[j] is not None else ["empty"]
                out["structs"] = [s if x == i else y for x, y in enumerate(ast["structs"])]
        return out
    if k == 0:
        return perm_problem(d, ast)
    if k == 1:
        out["name"] = d.name()
    elif k == 2:
        out["domain"] = d.name()
    elif k == 3:
        out["reqs"] = ast["reqs"] + [r for r in ["strips", "adl", "fluents"] if r not in ast["reqs"]][:1]
    elif k == 4 and ast["init"]:
        out["init"] = list(ast["init"])
        out["init"].pop(d.i(0, len(ast["init"]) - 1))
    elif k == 5:
        out["goal"] = ["not", ast["goal"]]
    elif k == 6:
        out["metric"] = None if ast["metric"] else ["minimize", ["num", "1"]]
    elif k == 7 and ast["metric"]:
        out["metric"] = ["maximize" if ast["metric"][0] == "minimize" else "minimize", ast["metric"][1]]
    else:
        out["objects"] = (ast["objects"] or []) + [[d.name([n for n, _ in ast["objects"] or []]), None]]
    return out


def g_docs(d):
    k = d.i(0, 5)
    kind = "domain" if k < 3 else "problem" if k < 5 else "plan"
    if kind == "domain":
        ast = gen.gen_domain(d, small=True, twins=True)[0]
    elif kind == "problem":
        ast = gen.gen_problem(d, small=True)
    else:
        ast = gen.gen_plan(d)
    out = [[kind, ast, "build"]]
    for _ in range(d.i(1, 3)):
        out.append([kind, edit_doc(d, kind, d.pick(out)[1]), "build"])
    if d.b(1, 2):
        for x in out:
            # the parser reads 'a - object' as 'a'
            if kind != "domain" or not any(p == "object" for _, p in x[1]["types"] or []):
                x[2] = "parse"
    if kind == "domain" and d.b(1, 3):
        # problems of these domains
        one = d.name()
        out = [["fitted", [one if d.b(3, 4) else d.name(), ast], via] for _, ast, via in out]
    return out


PARTS = [
    Part("objects", gen.strategy(g_pool), check_pool, 5000),
    Part("documents", gen.strategy(g_docs), check_pool, 2600),
]
_SMALL = dict(name="d", reqs=[], types=None, consts=None, preds=[], funcs=[], structs=[])
REGRESSIONS = [
    ("documents", [["fitted", ["p", _SMALL], "build"], ["fitted", ["p", dict(_SMALL, preds=[["q", []]])], "build"]]),
    ("objects", [["term", ["c", "a", ["t"]], "build"], ["term", ["c", "a", []], "build"], ["term", ["v", "a", []], "build"], ["term", ["v", "a", ["t"]], "build"]]),
    ("objects", [["tree", ["exists", [], ["and", []]], "build"], ["tree", ["forall", [], ["and", []]], "build"], ["tree", ["eforall", [], ["and", []]], "build"]]),
    ("objects", [["tree", ["num", "1"], "build"], ["tree", ["num", "1.0"], "build"], ["tree", ["num", "2"], "build"]]),
    ("objects", [["tree", ["fn", "p", []], "build"], ["tree", ["atom", "p", []], "build"]]),
    ("objects", [["tree", ["and", []], "build"], ["tree", ["or", []], "build"], ["tree", ["oneof", []], "build"]]),
]
