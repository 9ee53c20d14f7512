"""C29: names carry no meaning: consistent renaming commutes with everything."""

import copy
import re
from collections import Counter

from .. import gen, model, render, view
from ..cases import act, at, dom, prob
from ..core import check, lib, outcome, parser, short_tb
from ..harness import Part
from . import c13, c15, c18, c20, c30

RULE = (
    "A case is a domain, a problem and a plan (of a reference generator, with 0-2 spoilt steps), 0-4 token edits in "
    "them (valid or not afterwards) and an injective renaming of all their words (near keywords, very long, equal up "
    "to letter case, prefixes of each other, or the same words permuted). Each renamed text must be accepted exactly "
    "when the text is, the object printed with the names put back must parse to the original object, and the verdicts "
    "of Problem.check, Plan.check and Plan.instantiate, and the ground actions, must be the same. In part 'roles' the "
    "names of each kind (types, variables, constants and objects, predicates, functions, actions, ...) are renamed on "
    "their own, often one of each kind to the same word, in documents with or without a fault of C13, C15 or of the problem; the "
    "verdicts must stay, and what is accepted must read as the reference model says. Non-trivial: at "
    "least five names change and the domain is accepted, or a text that is refused was edited; in 'roles', at least three."
)
ASSUMPTIONS = ["the keywords, object, total-cost and number are no names; domain names that differ stay different up to letter case"]

FIXED = gen.KEYWORDS | {"number"}
WORD = re.compile(r":[A-Za-z][-\w]*|\d[\w.-]*|([A-Za-z][-_A-Za-z0-9]*)", re.A)
KINDS = ("domain", "problem", "plan")


def words_of(text):
    """The words of a text that are names."""
    return [m.group(1) for m in WORD.finditer(text) if m.group(1) and m.group(1) not in FIXED]


def rename(text, m):
    return WORD.sub(lambda x: m.get(x.group(1), x.group(1)) if x.group(1) else x.group(0), text)


def text_of(toks):
    return " ".join(toks)


def check_rename(case):
    docs, pairs, edited = case
    m = {a: b for a, b in pairs}
    back = {b: a for a, b in pairs}
    texts = [text_of(t) for t in docs]
    new = [rename(t, m) for t in texts]
    shown = "\n".join(texts + ["-> " + repr({a: b for a, b in pairs if a != b})[:2000]] + new)
    got, classes = [], []
    for kind, t, n in zip(KINDS, texts, new):
        (r1, x), (r2, y) = outcome(parser(kind), t), outcome(parser(kind), n)
        why = "" if r1 == r2 else short_tb(x if r1 == "err" else y)
        check(r1 == r2, f"{kind}: '{r1}' with one set of names, '{r2}' with another: {why}", shown)
        classes.append(f"{kind} {r1}" + (" edited" if edited else ""))
        if r1 == "err":
            got.append(None)
            continue
        text = lib("printing", str, y)
        r3, z = outcome(parser(kind), rename(text, back))
        r4, x2 = outcome(parser(kind), lib("printing", str, x))  # printing declares all supertypes
        got.append((x, y))
        if r4 == "err":
            check(r3 == "err", f"{kind}: with one set of names its text can be parsed, with another not", shown, text)
            continue
        check(r3 == "ok", f"{kind}: the renamed object printed, with the names put back, is refused", shown, text)
        look = {"domain": view.domain_c, "problem": view.problem_c, "plan": view.plan_c}[kind]
        a, b = look(x2), look(z)
        check(a == b and x2 == z, f"{kind}: the renamed object is another", shown, text, view.diff(a, b) if isinstance(a, dict) else "")
    d, p, q = got
    if d and p:
        v1, v2 = outcome(p[0].check, d[0]), outcome(p[1].check, d[1])
        check(v1[0] == v2[0], f"Problem.check: {v1} and {v2}", shown)
        classes.append(f"Problem.check {v1[0]}")
        if q:
            v1, v2 = outcome(q[0].check, d[0], p[0]), outcome(q[1].check, d[1], p[1])
            check(v1[0] == v2[0], f"Plan.check: {v1} and {v2}", shown)
            classes.append(f"Plan.check {v1[0]}")
    if d and q:
        v1, v2 = outcome(q[0].instantiate, d[0]), outcome(q[1].instantiate, d[1])
        check(v1[0] == v2[0], f"Plan.instantiate: {v1} and {v2}", shown)
        classes.append(f"Plan.instantiate {v1[0]}")
        if v1[0] == "ok":
            a = [Counter(model_tokens(str(x))) for x in v1[1]]
            b = [Counter(model_tokens(rename(str(x), back))) for x in v2[1]]
            check(a == b, "the ground actions are others", shown)
    moved = sum(1 for a, b in pairs if a != b)
    return bool(moved >= 5 and (d or edited)), classes


def model_tokens(text):
    return re.findall(r"[()]|[^\s()]+", text)


def g_target(d):
    k = d.i(0, 9)
    if k <= 5:
        return c20.g_valid(d)
    if k == 6:
        return d.pick("abnxyzAZ") + str(d.i(0, 30))
    if k == 7:
        w = d.pick(sorted(FIXED))
        return d.pick(["a", "A", "z", "Z", w.upper(), w.capitalize(), w.title()])
    return d.name()


def g_renaming(d, words, apart):
    """Pairs for an injective map on the words; the words in apart stay apart up to case."""
    words = sorted(set(words))
    if d.b(1, 4):
        return [list(p) for p in zip(words, d.shuffled(words))]
    out, taken = [], set()
    one = d.name()
    for w in words:
        k = d.i(0, 7)
        n = g_target(d)
        if k == 0 and w not in FIXED:
            n = w
        elif k == 1:
            n = w.swapcase()
        elif k == 2 and out:
            n = d.pick(out)[1] + d.pick(["-", "_", "0", "x"])
        elif k == 3 and out:
            n = d.pick(out)[1].swapcase()
        elif k == 4:
            n = one + str(d.i(0, 20))
        while n in taken or n in FIXED or not c20.well_formed(n):
            n = "n" + n
        taken.add(n)
        out.append([w, n])
    return out


def domain_names(docs):
    out = set()
    for t in docs:
        for i in range(len(t) - 1):
            if t[i] in ("domain", ":domain"):
                out.add(t[i + 1])
    return out


def g_case(d):
    _v, dast, past, steps = c15.g_plan(d)
    asts = [dast, past, steps]
    docs = [render.tokens_of(k, a, render.Layout([d.i(0, 5) for _ in range(2)])) for k, a in zip(KINDS, asts)]
    edited = 0
    for _ in range(d.pick([0, 0, 0, 1, 1, 2, 4])):
        i = d.pick([0, 0, 1, 2])
        docs[i] = c18.edit(d, docs[i], d.pick(docs))[:1500]
        edited += 1
    if d.b(1, 4):  # one name for another, at one place or everywhere in a document
        i = d.pick([0, 0, 1, 2])
        at_ = [j for j, t in enumerate(docs[i]) if words_of(t) == [t]]
        if at_:
            j, k = d.pick(at_), d.pick(at_)
            old, every = docs[i][j], d.b(1, 2)
            docs[i] = [docs[i][k] if n == j or every and t == old else t for n, t in enumerate(docs[i])]
            edited += 1
    pairs = g_renaming(d, [w for t in docs for w in words_of(text_of(t))], None)
    m = dict(pairs)
    names = sorted(n for n in domain_names(docs) if n in m)
    if len({m[n].lower() for n in names}) != len({n.lower() for n in names}):
        pairs = [[a, a] for a, _ in pairs]
    return [docs, pairs, edited]


# ------------------------------------------------------- names of one kind each


def check_roles(case):
    vias, old, new, moved = case
    texts = [[render.text_of(k, a) for k, a in zip(KINDS[:2], docs)] + [repr(docs[2])] for docs in (old, new)]
    shown = "\n".join(texts[0] + ["->"] + texts[1])
    (d1, p1, q1), (d2, p2, q2) = [[c30.make(k, a, vias >> i & 1) for i, (k, a) in enumerate(zip(KINDS, docs))] for docs in (old, new)]
    classes = []
    for what, r1, r2 in zip(KINDS, (d1, p1, q1), (d2, p2, q2)):
        same(what, r1, r2, shown)
        classes.append(f"{what} {r1[0]}")
    (a, d1), (b, p1), (c, q1) = d1, p1, q1
    d2, p2, q2 = d2[1], p2[1], q2[1]
    if a == "ok":
        want, got = model.domain_c(new[0]), view.domain_c(d2)
        check(want == got, "a domain with other names is not read as written", shown, view.diff(want, got))
    if b == "ok":
        want, got = model.problem_c(new[1]), view.problem_c(p2)
        check(want == got, "a problem with other names is not read as written", shown, view.diff(want, got))
    if a == b == "ok":
        r1 = outcome(p1.check, d1)
        same("Problem.check", r1, outcome(p2.check, d2), shown)
        classes.append(f"Problem.check {r1[0]}")
    if a == b == c == "ok":
        same("Plan.check", outcome(q1.check, d1, p1), outcome(q2.check, d2, p2), shown)
        c15.check_plan([vias, *new])
    return moved >= 3, classes


def same(what, r1, r2, shown):
    (v1, x), (v2, y) = r1, r2
    check(v1 == v2, f"{what}: '{v1}' with one set of names, '{v2}' with another: {short_tb(x if v1 == 'err' else y) if v1 != v2 else ''}", shown)


def rename_types(m, ts):
    return [m["type"].get(t, t) for t in ts]


def rename_params(m, ps):
    return [[m["var"].get(n, n), rename_types(m, ts)] for n, ts in ps]


def rename_tree(m, f):
    """A formula with the names of each kind replaced."""
    if not isinstance(f, list) or not f:
        return f
    k = f[0]
    if k in ("v", "c"):
        r = "var" if k == "v" else "object"
        return [k, m[r].get(f[1], f[1])] + [rename_types(m, x) for x in f[2:]]
    if k in ("atom", "fn"):
        r = "predicate" if k == "atom" else "function"
        return [k, m[r].get(f[1], f[1]), [rename_tree(m, t) for t in f[2]]]
    if k in model.BINDERS:
        return [k, rename_params(m, f[1]), rename_tree(m, f[2])]
    return [k] + [[rename_tree(m, y) for y in x] if isinstance(x, list) and x and isinstance(x[0], list) else rename_tree(m, x) for x in f[1:]]


def rename_docs(m, docs):
    dast, past, steps = docs
    t = lambda x: None if x is None else m["type"].get(x, x)  # noqa: E731
    typed = lambda xs, r: xs and [[m[r].get(n, n), t(p)] for n, p in xs]  # noqa: E731
    d = dict(dast, name=m["domain"].get(dast["name"], dast["name"]), types=typed(dast["types"], "type"), consts=typed(dast["consts"], "object"))
    d["preds"] = [[m["predicate"].get(n, n), rename_params(m, ps)] for n, ps in dast["preds"]]
    d["funcs"] = [[m["function"].get(n, n), rename_params(m, ps), num] for n, ps, num in dast["funcs"]]
    d["structs"] = [
        [s[0], m["action" if s[0] == "action" else "predicate"].get(s[1], s[1]), rename_params(m, s[2])] + [rename_tree(m, f) for f in s[3:]]
        for s in dast["structs"]
    ]
    p = dict(past, name=m["problem"].get(past["name"], past["name"]), domain=m["domain"].get(past["domain"], past["domain"]))
    p["objects"] = typed(past["objects"], "object")
    p["init"] = [rename_tree(m, e) for e in past["init"]]
    p["goal"] = rename_tree(m, past["goal"])
    p["metric"] = past["metric"] and [past["metric"][0], rename_tree(m, past["metric"][1])]
    return [d, p, [[m["action"].get(n, n), [m["object"].get(a, a) for a in args]] for n, args in steps]]


class Names:
    """Collects the names of each kind."""

    def __init__(self):
        self.of = {r: set() for r in ROLES}

    def __getitem__(self, r):
        role = self.of[r]

        class Get:
            def get(self, n, _default):
                role.add(n)
                return n

        return Get()


ROLES = ["domain", "problem", "type", "var", "object", "predicate", "function", "action"]


NEAR = {
    "type": ["Object", "OBJECT", "objects", "number", "either-"], "function": ["Total-Cost", "total-costs", "TOTAL-COST"],
    "predicate": ["eq", "NOT", "and-", "either0"], "var": ["object0", "x-t", "Object"], "action": ["not-", "Define", "action"],
}


def g_roles(d):
    _v, dast, past, steps = c15.g_plan(d)
    docs = copy.deepcopy([dast, past, steps])
    if d.b(1, 4):
        c13.untyped_heads(docs[0])
        c13.add_fault(d, docs[0])
    if d.b(1, 4):
        c30.problem_fault(d, docs[0], docs[1])
    names = Names()
    rename_docs(names, docs)
    m, moved = {}, 0
    one = d.name()  # likely to be given to something of each kind
    for r in ROLES:
        words = sorted(names.of[r] - FIXED)
        if d.b(1, 5) or (r == "domain" and len(words) > 1):
            m[r] = {}
            continue
        m[r] = dict(map(tuple, g_renaming(d, words, None)))
        if words and d.b(2, 3) and one not in m[r].values():
            m[r][d.pick(words)] = one
        if words and r in NEAR and d.b(1, 2):  # nearly the word that means something here
            n = d.pick(NEAR[r])
            if n not in m[r].values():
                m[r][d.pick(words)] = n
        moved += sum(1 for a, b in m[r].items() if a != b)
    return [d.i(0, 7), docs, rename_docs(m, docs), moved]


PARTS = [
    Part("rename", gen.strategy(g_case), check_rename, 5000),
    Part("roles", gen.strategy(g_roles), check_roles, 5000),
]


def triple(words):
    """A small domain, problem and plan; 8 words."""
    t, u, x, y, p, f, a, o = words
    d = dom(
        act(a, [[x, [t]]], ["forall", [[y, [t, u]]], ["or", [at(p, "?" + x), ["not", at(p, "?" + y)]]]], ["not", at(p, "?" + x)]),
        types=[[t, u]], consts=None, preds=[[p, [[x, [u]]]]], funcs=[[f, [[y, [t]]], True]],
    )
    return [
        render.tokens_of("domain", d),
        render.tokens_of("problem", prob(objects=[[o, t]], init=[at(p, o)], goal=at(p, o))),
        render.tokens_of("plan", [[a, [o]]]),
    ]


PLAIN = ["qt", "qu", "qx", "qy", "qp", "qf", "qa", "qo"]
SPECIAL = [
    ["not-t", "nota", "and1", "or-x", "exists-", "foralls", "when0", "imply_"],
    ["total-cost1", "objects", "numbers", "domains", "problem-x", "define-", "total-cost-", "either-or"],
    ["A", "a", "B", "b", "AA", "aa", "Aa", "aA"],
    ["t", "tt", "ttt", "tttt", "ttttt", "tttttt", "ttttttt", "tttttttt"],
    ["z9", "z8", "z7", "z6", "z5", "z4", "z3", "z2"],
    ["strips", "typing", "adl", "init", "goal", "types", "action", "requirements"],
    ["None", "True", "self", "name", "type", "key", "id", "in"],
    ["n" + "x" * k for k in range(300, 308)],
]
REGRESSIONS = [("rename", [triple(PLAIN), [list(x) for x in zip(PLAIN, s)] + [["d", "d"], ["p", "p"]], 0]) for s in SPECIAL]
REGRESSIONS += [("rename", [triple(s), [list(x) for x in zip(s, PLAIN)] + [[w, w + "q"] for w in ("d", "p") if w not in s], 0]) for s in SPECIAL]
