"""C18: bad input is rejected cleanly: no crash, hang or half-result."""

from hypothesis import strategies as st

from .. import gen, render, view
from ..cases import act, dom, prob
from ..core import Violation, check, clean_errors, parser, short_tb
from ..harness import Part

RULE = (
    "A case is a text: token soup over the whole vocabulary, a valid text with 1-6 token or character edits "
    "(insertions, deletions, swaps, duplicated or moved subtrees, other names, other documents' parts), random "
    "Unicode, a grammatical text whose meaning is corrupted (arbitrary type graphs, names and variables exchanged or "
    "merged, other heads of derived predicates), or a long or deeply nested text; each goes to the domain, problem and plan parser. The result must be "
    "a clean error (lark, PDDL or value error) or a complete object that prints, compares and hashes. Part corrupt: "
    "a valid text made ungrammatical (a parenthesis removed or added, truncation, trailing tokens, a section keyword "
    "removed) must be refused. Non-trivial: the text has at least 8 tokens and was refused after the first one, or "
    "was accepted."
)
ASSUMPTIONS = ["nesting up to 100 levels (Python's recursion limit is not part of the property)"]

KINDS = ("domain", "problem", "plan")
VIEWS = {"domain": view.domain_c, "problem": view.problem_c, "plan": view.plan_c}

VOCAB = sorted(gen.KEYWORDS) + [
    "(", ")", "-", "?", "=", "<", ">", "<=", ">=", "+", "*", "/", "number", ";", "; c\n", "%", '"', "'", ":", ",", ".",
    "?x", "?y", "? x", "??", "?1", "x", "y", "a", "p", "t", "1", "0", "1.5", "1.2.3", "1.", "-1", "1e5", "9" * 30, "1" + "0" * 400, "1" + "0" * 400 + ".5", "0." + "0" * 400 + "1", "n" + "x" * 300, "A-", "-a", "_a",
    ":requirements", ":types", ":constants", ":predicates", ":functions", ":action", ":parameters", ":precondition",
    ":effect", ":derived", ":domain", ":objects", ":init", ":goal", ":metric", ":typing", ":strips", ":adl", ":equality",
    ":fluents", ":numeric-fluents", ":action-costs", ":non-deterministic", ":conditional-effects", ":object-fluents",
    ":quantified-preconditions", ":universal-preconditions", ":existential-preconditions", ":derived-predicates",
    ":disjunctive-preconditions", ":negative-preconditions", ":constraints", ":durative-action", "AND", "Define",
    "\x00", "\ufeff", "\u00a0", "\u2028", "\u00e9", "\u0660", "\ud7ff", "\U0001f600", "\\", "{", "[", "|", "a b", "()",
]


def parse_clean(kind, text):
    """Parse; returns the object or None; anything unclean is a Violation."""
    from lark.exceptions import VisitError

    try:
        x = parser(kind)(text)
    except clean_errors() as e:
        if isinstance(e, VisitError) and not isinstance(e.orig_exc, clean_errors()):
            raise Violation(f"{kind} parser: unclean rejection {short_tb(e.orig_exc)}\n{text!r}") from None
        return None
    except Exception as e:  # noqa
        raise Violation(f"{kind} parser: unclean rejection {short_tb(e)}\n{text!r}") from None
    return x


def complete(kind, x, text):
    """The accepted object can be printed and compared."""
    try:
        s = str(x)
        repr(x)
        VIEWS[kind](x)
        y = parser(kind)(text)
        same = x == y and y == x and x == x and not (x != y)
        if kind == "domain":
            for z in [*x.actions, *x.derived_predicates, *x.predicates, *x.functions, *x.constants]:
                hash(z), str(z), repr(z)
        elif kind == "problem":
            for z in [*x.init, *x.objects, x.goal]:
                hash(z), str(z), repr(z)
            x.metric is None or str(x.metric)
    except Exception as e:  # noqa
        raise Violation(f"{kind} parser: accepted, but the object is broken: {e if isinstance(e, Violation) else short_tb(e)}\n{text!r}") from None
    check(same, f"{kind} parser: two parses of the text differ", repr(text))
    check(isinstance(s, str), "printing gives no text", repr(text))


def check_text(case):
    text = case if isinstance(case, str) else " ".join(case)
    accepted = []
    for kind in KINDS:
        x = parse_clean(kind, text)
        if x is not None:
            complete(kind, x, text)
            accepted.append(kind)
    return len(text.split()) >= 8, ["accepted by " + k for k in accepted] or ["refused"]


SOUP = st.lists(st.sampled_from(VOCAB), max_size=40)
UNICODE = st.text(max_size=60)


def any_doc(d):
    k = d.i(0, 6)
    if k <= 3:
        return "domain", gen.gen_domain(d, small=d.b(2, 3))[0]
    if k <= 5:
        return "problem", gen.gen_problem(d, small=d.b(1, 2))
    return "plan", gen.gen_plan(d)


def closing(toks, i):
    """Index after the subtree that starts at token i."""
    if toks[i] != "(":
        return i + 1
    n = 0
    for j in range(i, len(toks)):
        n += (toks[j] == "(") - (toks[j] == ")")
        if n == 0:
            return j + 1
    return len(toks)


def edit(d, toks, other):
    toks = list(toks)
    if not toks:
        return [d.pick(VOCAB)]
    i = d.i(0, len(toks) - 1)
    k = d.i(0, 9)
    if k == 0:
        del toks[i]
    elif k == 1:
        toks.insert(i, d.pick(VOCAB))
    elif k == 2:
        toks[i] = d.pick(VOCAB)
    elif k == 3:
        toks[i] = toks[d.i(0, len(toks) - 1)]
    elif k == 4:
        j = d.i(0, len(toks) - 1)
        toks[i], toks[j] = toks[j], toks[i]
    else:
        opens = [n for n, t in enumerate(toks) if t == "("] or [0]
        i = d.pick(opens)
        j = closing(toks, i)
        sub = toks[i:j]
        if k == 5:
            del toks[i:j]
        elif k == 6:
            toks[i:i] = sub
        elif k == 7:
            n = d.pick(opens)
            m = closing(toks, n)
            toks[i:j] = toks[n:m]
        elif k == 8:
            at = [n for n, t in enumerate(other) if t == "("] or [0]
            n = d.pick(at)
            toks[i:j] = other[n : closing(other, n)] if other else []
        else:
            rest = toks[:i] + toks[j:]
            at = d.i(0, len(rest))
            toks = rest[:at] + sub + rest[at:]
    return toks


def g_mutant(d):
    kind, ast = any_doc(d)
    kind2, ast2 = any_doc(d) if d.b(1, 2) else (kind, ast)
    toks, other = render.tokens_of(kind, ast), render.tokens_of(kind2, ast2)
    for _ in range(d.pick([1, 1, 2, 3, 6])):
        toks = edit(d, toks, other)
    text = " ".join(toks[:1500])
    for _ in range(d.pick([0, 0, 0, 1, 2])):
        i = d.i(0, max(0, len(text) - 1))
        k = d.i(0, 3)
        if k == 0:
            text = text[:i] + text[i + 1 :]
        elif k == 1:
            text = text[:i] + d.pick(VOCAB) + text[i:]
        elif k == 2:
            text = text[:i] + d.draw(st.characters()) + text[i:]
        else:
            text = text[:i] + text[i : i + 1].swapcase() + text[i + 1 :]
    return text


# ----------------------------------------------------------------- semantic


def g_semantic(d):
    """A grammatical text whose meaning is corrupted: other type graphs, other names, other heads."""
    kind, ast = ("domain", gen.gen_domain(d, small=d.b(2, 3))[0]) if d.b(3, 4) else ("problem", gen.gen_problem(d, small=True))
    toks = render.tokens_of(kind, ast)
    if kind == "domain" and d.b(2, 3):
        # any function on a few names, cycles with and without a tail included
        names = d.pick([["a", "b", "c"], ["t", "u", "w"], ["a", "b", "c", "d", "e", "f"], ["t", "object", "b"], [f"t{i}" for i in range(d.i(7, 40))]])
        kept = [n for n in names if d.b(5, 6)]
        up = names + d.pick([[], [], ["zz"], ["object"]])
        section = ["(", ":types"]
        for n in kept:
            section += [n] + (["-", d.pick(up)] if d.b(6, 7) else [])
        section.append(")")
        if ":types" in toks:
            i = toks.index(":types") - 1
            toks[i : closing(toks, i)] = section
        else:
            i = closing(toks, 2)
            if i < len(toks) - 1 and toks[i + 1] == ":requirements":
                i = closing(toks, i)
            toks[i:i] = section
        if ":typing" not in toks and ":adl" not in toks:
            if ":requirements" in toks:
                toks.insert(toks.index(":requirements") + 1, ":typing")
            else:
                i = closing(toks, 2)
                toks[i:i] = ["(", ":requirements", ":typing", ")"]
    words = [i for i, t in enumerate(toks) if t[0].isalpha() and i > 3 and t not in gen.KEYWORDS]
    variables = [i for i, t in enumerate(toks) if t[0] == "?" and len(t) > 1]
    for _ in range(d.pick([0, 1, 1, 2, 4])):
        k = d.i(0, 5)
        if k <= 1 and words:
            # one occurrence becomes another name, or all of them do
            i, j = d.pick(words), d.pick(words)
            new, old = (toks[j] if d.b(3, 4) else d.pick(["object", "number", "total-cost", "and", "zz", "="])), toks[i]
            for n in words if k else [i]:
                if toks[n] == old:
                    toks[n] = new
        elif k <= 3 and variables:
            i, j = d.pick(variables), d.pick(variables)
            new, old = toks[j] if d.b(4, 5) else "?zz", toks[i]
            for n in variables if k == 3 else [i]:
                if toks[n] == old:
                    toks[n] = new
        elif k == 4 and words and variables:
            i, j = d.pick(words), d.pick(variables)
            if d.b(1, 2):
                toks[i] = toks[j]
            else:
                toks[j] = toks[i]
        elif k == 5 and ":derived" in toks:
            i = toks.index(":derived") + 1
            head = d.pick([["(", "p", ")"], ["(", "p", "?x", ")"], ["(", "p", "?x", "?x", ")"], ["(", "zz", "?x", "-", "zz", ")"],
                           ["(", "p", "?x", "-", "(", "either", "t", "u", ")", ")"]])
            toks[i : closing(toks, i)] = head
            break
    return " ".join(toks[:1500])


# ------------------------------------------------------------------ corrupt

SECTIONS = [
    "define", "domain", "problem", ":requirements", ":types", ":constants", ":predicates", ":functions", ":action",
    ":parameters", ":precondition", ":effect", ":derived", ":domain", ":objects", ":init", ":goal", ":metric",
]


def check_corrupt(case):
    kind, toks, what = case
    text = " ".join(toks)
    x = parse_clean(kind, text)
    if x is not None:
        raise Violation(f"an ungrammatical {kind} ({what}) is accepted:\n{text}\n{x}")
    return len(toks) >= 8, [kind + ": " + what]

# words of the language, outside of the section names, that another word may follow
WORDS = ["either", "minimize", "maximize"]

# lists that stand alone in a document, at most once; those that cannot be left out
ONCE = ["domain", "problem", ":requirements", ":types", ":constants", ":predicates", ":functions", ":domain", ":objects", ":init", ":goal", ":metric"]
NEEDED = {"domain", "problem", ":domain", ":init", ":goal"}
# lists with a fixed number of items after their head
ARITY = {"not": 1, "imply": 2, "exists": 2, "forall": 2, "when": 2, "=": 2, "<": 2, "<=": 2, ">": 2, ">=": 2, "/": 2, "increase": 2,
         "decrease": 2, "assign": 2, "scale-up": 2, "scale-down": 2, ":metric": 2, ":goal": 1, ":derived": 2}


def items_after(toks, i):
    """Spans of the items that follow the head of the list that opens at token i."""
    out, j = [], i + 2
    while toks[j] != ")":
        n = closing(toks, j)
        if toks[j] == "?":
            n = j + 2
        out.append((j, n))
        j = n
    return out


def corrupt_list(d, toks):
    """A mandatory list left out, a section given twice, or an item too many or too few."""
    heads = [i for i in range(len(toks) - 1) if toks[i] == "("]
    m = d.i(0, 3)
    if m == 0:
        at = [i for i in heads if toks[i + 1] in NEEDED and (toks[i + 1][0] == ":" or i <= 2)]
        if at:
            i = d.pick(at)
            return toks[:i] + toks[closing(toks, i) :], f"no {toks[i + 1]} list"
    if m == 1:
        at = [i for i in heads if toks[i + 1] in ONCE and (toks[i + 1][0] == ":" or i <= 2)]
        if at:
            i = d.pick(at)
            e = closing(toks, i)
            j = d.pick([e, len(toks) - 1])
            return toks[:j] + toks[i:e] + toks[j:], f"{toks[i + 1]} list twice"
    at = [i for i in heads if toks[i + 1] in ARITY]
    if not at:
        return None
    words = sorted({toks[i + 1] for i in at})
    w = d.pick(words)
    i = d.pick([j for j in at if toks[j + 1] == w])
    items = items_after(toks, i)
    if len(items) != ARITY[w]:
        return None
    if m == 2:
        a, b = d.pick(items)
        return toks[:a] + toks[b:], f"{w} with an item less"
    a, b = d.pick(items)
    return toks[:b] + toks[a:b] + toks[b:], f"{w} with an item more"


def g_corrupt(d):
    kind, ast = any_doc(d)
    toks = render.tokens_of(kind, ast, render.Layout([d.i(0, 5) for _ in range(3)]))
    if not toks:
        toks = ["(", "a", ")"]
    k = d.i(0, 8)
    parens = [i for i, t in enumerate(toks) if t in "()"]
    if k == 0:
        i = d.pick(parens)
        return [kind, toks[:i] + toks[i + 1 :], "parenthesis removed"]
    if k == 1:
        i = d.i(0, len(toks))
        return [kind, toks[:i] + [d.pick(["(", ")"])] + toks[i:], "parenthesis added"]
    if k == 2 and kind != "plan":
        return [kind, toks[: d.i(0, len(toks) - 1)], "truncated"]
    if k == 2:
        i = d.pick([n for n in range(1, len(toks)) if toks[n - 1] != ")"])
        return [kind, toks[:i], "truncated"]
    if k == 3 and kind != "plan":
        tail = d.pick([["x"], [")"], ["("], ["(", ")"], ["(", "a", ")"], toks, ["?x"], ["1"], [":goal"], ["define"], ["-"]])
        return [kind, toks + tail, "trailing tokens"]
    if k == 3:
        return [kind, toks + d.pick([["x"], [")"], ["("], ["(", ")"], ["?x"], ["1"], ["(", "?x", ")"], ["(", "a", "?x", ")"]]), "trailing tokens"]
    if k == 7 and kind != "plan":
        at = [i for i in range(len(toks) - 1) if toks[i] in SECTIONS + WORDS and (toks[i][0] == ":" or toks[i - 1] == "(" or toks[i - 2] == ":metric") and toks[i + 1][0] not in "():"]
        if at:
            words = sorted({toks[i] for i in at})
            w = d.pick(words)
            i = d.pick([j for j in at if toks[j] == w])
            if w[0] == ":" or i <= 3 or w in WORDS:
                return [kind, toks[:i] + [w + toks[i + 1]] + toks[i + 2 :], f"{w} glued"]
    if k >= 7 and kind != "plan":
        at = [i for i in range(len(toks)) if toks[i][0].isdigit() and toks[i - 1] != "?"]
        if at:
            i = d.pick(at)
            w = toks[i] + d.pick(["x", "e5", "e-5", "_1", "-", "E", ".", ".x", "..1", ",5", "(", ")", "?"])
            return [kind, toks[:i] + [w] + toks[i + 1 :], "malformed number"]
    if 5 <= k <= 6 and kind != "plan":
        out = corrupt_list(d, toks)
        if out:
            return [kind, *out]
    keys = [i for i, t in enumerate(toks) if t in SECTIONS and (t[0] == ":" or i <= 3)]
    if not keys:
        i = d.pick(parens)
        return [kind, toks[:i] + toks[i + 1 :], "parenthesis removed"]
    kinds = sorted({toks[i] for i in keys})
    w = ":derived" if ":derived" in kinds and d.b(1, 3) else d.pick(kinds)
    i = d.pick([j for j in keys if toks[j] == w])
    return [kind, toks[:i] + toks[i + 1 :], f"no {w}"]


# -------------------------------------------------------------------- depth

NEST = {
    "not": ("( not ", " )"),
    "and": ("( and ", " )"),
    "and2": ("( and ( q ) ", " )"),
    "or": ("( or ", " ( q ) )"),
    "imply": ("( imply ( q ) ", " )"),
    "imply-left": ("( imply ", " ( q ) )"),
    "exists": ("( exists ( ?x ) ", " )"),
    "forall": ("( forall ( ?x - t ?y ) ", " )"),
}
ENEST = {"oneof": ("( oneof ", " )"), "forall": ("( forall ( ?x ) ", " )"), "and-forall": ("( and ( p ?x ) ( forall ( ?x - t ) ", " ) )")}
FNEST = {"minus": ("( - ", " )"), "plus": ("( + ", " 1 )"), "divide": ("( / 1 ", " )"), "plus2": ("( + ( f ?x ) ", " )")}


def check_deep(case):
    what, word, n = case
    head = "( define ( domain d ) ( :requirements :adl :fluents :non-deterministic :derived-predicates ) ( :types t ) ( :predicates ( q ) ( p ?x ) ) ( :functions ( f ?x ) ) "
    pairs = []
    for i in range(n):
        pairs.append(word[i % len(word)])
    if what == "pre":
        body = "".join(NEST[w][0] for w in pairs) + "( p ?x )" + "".join(NEST[w][1] for w in reversed(pairs))
        text = head + f"( :action a :parameters ( ?x ) :precondition {body} :effect ( q ) ) )"
    elif what == "derived":
        body = "".join(NEST[w][0] for w in pairs) + "( p ?x )" + "".join(NEST[w][1] for w in reversed(pairs))
        text = head + f"( :derived ( p ?x ) {body} ) )"
    elif what == "eff":
        body = "".join(ENEST[w][0] for w in pairs) + "( p ?x )" + "".join(ENEST[w][1] for w in reversed(pairs))
        text = head + f"( :action a :parameters ( ?x ) :effect {body} ) )"
    elif what == "fexp":
        body = "".join(FNEST[w][0] for w in pairs) + "( f ?x )" + "".join(FNEST[w][1] for w in reversed(pairs))
        text = head + f"( :action a :parameters ( ?x ) :precondition ( > {body} 1 ) :effect ( increase ( f ?x ) {body} ) ) )"
    else:
        body = "".join(NEST[w][0] for w in pairs) + "( p o )" + "".join(NEST[w][1] for w in reversed(pairs))
        text = f"( define ( problem p ) ( :domain d ) ( :objects o ) ( :init ) ( :goal {body} ) )"
    kind = "problem" if what == "goal" else "domain"
    x = parse_clean(kind, text)
    check(x is not None, "a valid nested text is rejected", text)
    complete(kind, x, text)
    if kind == "domain":
        from ..build import term

        for a in x.actions:
            a.instantiate([term(["c", "o", []])])
    return n >= 20, [what]


def g_deep(d):
    what = d.pick(["pre", "derived", "eff", "fexp", "goal"])
    words = sorted({"pre": NEST, "derived": NEST, "goal": NEST, "eff": ENEST, "fexp": FNEST}[what])
    return [what, [d.pick(words) for _ in range(d.i(1, 3))], d.pick([60, 30, 5, 100])]


# --------------------------------------------------------------------- wide


def check_wide(case):
    what, n = case
    names = [f"n{i}" for i in range(n)]
    d, p = dom(structs=[]), None
    if what == "types":
        d["types"] = [[m, names[i + 1]] for i, m in enumerate(names[:-1])] + [[names[-1], None]]
        d["consts"] = [[m, m] for m in names]
        d["preds"] = [["p", [["x", names]]]]
        d["structs"] = [["derived", "p", [["x", [names[0]]]], ["and", []]]]
        d["preds"][0][1][0][1] = [names[-1]]
    elif what == "preds":
        d["preds"] = [[m, [[v, ["t"]] for v in names[:20]]] for m in names]
    elif what == "actions":
        d["structs"] = [act(m, [[v, ["t"]] for v in names[:10]], ["and", []], None) for m in names]
    elif what == "and":
        d["preds"] = [[m, []] for m in names]
        f = ["and", [["atom", m, []] for m in names] + [["or", [["atom", m, []] for m in reversed(names)]]]]
        d["structs"] = [act("a", [], f, None)]
    elif what == "sum":
        d["structs"] = [act("a", [], ["cmp", ">", ["op", "+", [["num", "1"]] * n + [["fn", "g", []]]], ["num", "1"]], None)]
    elif what == "params":
        d["preds"] = [["p", [[v, ["t"]] for v in names]]]
        d["structs"] = [act("a", [[v, ["t"]] for v in names], ["atom", "p", [["v", v] for v in names]], None)]
    elif what == "objects":
        p = prob(objects=[[m, "t"] for m in names], init=[["atom", "p", [["c", m]]] for m in names])
    elif what == "reqs":
        d["reqs"] = d["reqs"] * n
    kind, ast = ("problem", p) if p else ("domain", d)
    text = render.text_of(kind, ast)
    x = parse_clean(kind, text)
    check(x is not None, "a valid long text is rejected", text[:3000])
    complete(kind, x, text)
    return n >= 20, [what]


def g_wide(d):
    return [d.pick(["types", "preds", "actions", "and", "sum", "params", "objects", "reqs"]), d.pick([2, 30, 100, 300])]


PARTS = [
    Part("soup", SOUP, check_text, 8000),
    Part("unicode", UNICODE, check_text, 2500),
    Part("mutant", gen.strategy(g_mutant), check_text, 7000),
    Part("semantic", gen.strategy(g_semantic), check_text, 5000),
    Part("corrupt", gen.strategy(g_corrupt), check_corrupt, 7000),
    Part("deep", gen.strategy(g_deep), check_deep, 240, 1200),
    Part("wide", gen.strategy(g_wide), check_wide, 64, 128),
]
T = [
    "", " ", "\n", ";", "; only a comment", "(", ")", "()", "(define)", "(define (domain d))", "(define (domain d) )x",
    "(define (domain d) (:types a - b b - a))", "(define (domain d) (:requirements :typing) (:types a - a))",
    "(define (domain d) (:requirements :typing) (:types t - t) (:predicates (p ?x - u)) (:derived (p ?x - t) (and)))",
    "(define (domain d) (:requirements :typing) (:predicates (p ?x - t)) (:derived (p ?x - t) (and)))",
    "(define (domain d) (:derived (p ?x) (and)))",
    "(define (domain d) (:predicates (p ?x)) (:derived (p) (and)))",
    "(define (domain d) (:predicates (p ?x)) (:action a :parameters (?x) :precondition (p 1)))",
    "(define (domain d) (:requirements :fluents) (:functions (f)) (:action a :parameters () :precondition (> 1.2.3 1)))",
    "(define (domain d) (:requirements :fluents) (:functions (f) - t))",
    "(define (domain d) (:constants number - number))",
    "(define (domain d) (:requirements :object-fluents))",
    "(define (problem p) (:domain d) (:init) (:goal (p ?x)))",
    "(define (problem p) (:domain d) (:init (= a 1) (= (a) 1) (= (a b) 2)) (:goal (and)) (:metric minimize (a)))",
    "(define (problem p) (:domain d) (:objects a - object) (:init (= a a)) (:goal (and)))",
    "(define (problem p) (:domain d) (:init (= 1 a)) (:goal (= a 1)))",
    "(define (problem p) (:domain d) (:init) (:goal (and)) (:metric minimize total-cost))",
    "(define (problem p) (:domain d) (:init (not (not (a)))) (:goal (and)))",
    "(a)(b c)(and)", "(= a b)", "(a 1)", "(a ?x)", "a", "(a) ; x", "\ufeff(a)", "(a\x00)",
]
REGRESSIONS = [(("soup"), t) for t in T]
REGRESSIONS += [
    ("semantic", f"(define (domain d) (:requirements :typing) (:types {t}) (:constants k - a) (:predicates (p ?x - a)) (:derived (p ?x - b) (and)))")
    for t in ("a - b b - a", "a - b b - c c - b", "a - b b - c c - d d - d", "a - b b - a c - b", "b a - b c - c", "a - b", "a b - (either a c)", "object - a a - object")
]
REGRESSIONS += [
    ("corrupt", [k, t.split(" "), w])
    for k, t, w in (
        ("domain", "( define ( domains ) )", "domain glued"),
        ("domain", "( define ( domain d ) ( :typest u ) )", ":types glued"),
        ("domain", "( define ( domain d ) ( :constantsk l ) )", ":constants glued"),
        ("domain", "( define ( domain d ) ( :predicates ( p ) ) ( :actionmove :parameters ( ) :precondition ( p ) :effect ( p ) ) )", ":action glued"),
        ("domain", "( define ( domain d ) ( :requirements :typing ) ( :types t u ) ( :predicates ( p ?x - ( eithert u ) ) ) )", "either glued"),
        ("problem", "( define ( problemp ) ( :domain d ) ( :init ) ( :goal ( and ) ) )", "problem glued"),
        ("problem", "( define ( problem p ) ( :domaind ) ( :init ) ( :goal ( and ) ) )", ":domain glued"),
        ("problem", "( define ( problem p ) ( :domain d ) ( :objectsa b ) ( :init ) ( :goal ( and ) ) )", ":objects glued"),
        ("problem", "( define ( problem p ) ( :domain d ) ( :init ) ( :goal ( and ) ) ( :metric minimizef ) )", "minimize glued"),
        ("problem", "( define ( problem p ) ( :domain d ) ( :init ) ( :goal ( and ) ) ( :metric minimize ( + f 1e5 ) ) )", "malformed number"),
    )
]
REGRESSIONS += [("deep", [w, [k], 100]) for w, ks in (("pre", NEST), ("derived", NEST), ("goal", NEST), ("eff", ENEST), ("fexp", FNEST)) for k in ks]
