"""C20: only well-formed, non-keyword names get in, wherever they occur."""

import atexit
import functools
import os
import shutil
import tempfile

from .. import build, gen, model, render, view
from ..cases import EVERYTHING
from ..core import check, clean_errors, lib, outcome, parser, short_tb
from ..harness import Part

RULE = (
    "A case puts 1-3 candidate names (random valid names, valid names close to keywords, the keywords themselves, "
    "malformed strings; up to 4500 characters) into random name positions of a domain, problem, plan or single object (22 positions of a "
    "domain: names, variables of every binder, types as declaration, supertype or alternative; 9 of a problem), and "
    "gives it as text, as a UTF-8 file and to the constructors. Accepted exactly when all candidates are names by an independent "
    "predicate; accepted content must carry them unchanged. Non-trivial: a candidate is not one of the plain names "
    "of the template and is in a position other than the document's own name."
)
ASSUMPTIONS = [
    "keywords are compared with their exact letter case",
    "in a text, object can only be used as a supertype or alternative type, total-cost only as a function",
    "malformed candidates containing white space, parentheses, ';' or '?', or starting with '-', are only given to constructors",
]

LETTERS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
REST = LETTERS | set("0123456789-_")
KEYWORDS = sorted(gen.KEYWORDS)
TYPE_SLOTS = {"T1", "T2", "TP", "TE"}
FUNC_SLOTS = {"F", "F0"}

DEFAULTS = {
    "DN": "dd", "T1": "ta", "T2": "tb", "TP": "tp", "TE": "te", "C": "cc", "C2": "ce", "P": "pp", "P2": "pq", "F": "ff",
    "F0": "fg", "A": "aa", "A2": "ab", "PV": "xa", "FV": "xb", "DV": "xc", "EV": "xd", "UV": "xe", "AV": "xf", "QV": "xg",
    "WV": "xh", "PN": "pn", "O": "oo", "O2": "op", "GV": "xi", "HV": "xj",
}
DOMAIN_SLOTS = ["DN", "T1", "T2", "TP", "TE", "C", "C2", "P", "P2", "F", "F0", "A", "A2", "PV", "FV", "DV", "EV", "UV", "AV", "QV", "WV"]
PROBLEM_SLOTS = ["DN", "PN", "O", "O2", "P", "F", "F0", "C", "GV", "HV", "T1", "TE"]
PLAN_SLOTS = ["A", "A2", "O", "O2"]
# names that must differ from each other
GROUPS = [{"T1", "T2", "TP", "TE"}, {"C", "C2", "O", "O2"}, {"P", "P2"}, {"F", "F0"}, {"A", "A2"}]


def well_formed(s):
    return len(s) > 0 and s[0] in LETTERS and all(ch in REST for ch in s)


def allowed(slot, s):
    """The independent name predicate."""
    if not well_formed(s):
        return False
    if s in gen.KEYWORDS:
        return (slot in TYPE_SLOTS and s == "object") or (slot in FUNC_SLOTS and s == "total-cost")
    return True


def in_text(slot, s):
    """Whether a text with this candidate has a verdict."""
    if s == "object" and slot in ("T1", "T2"):
        return False  # a declaration of the type object is not grammatical
    if s == "total-cost" and slot == "F":
        return False  # total-cost takes no arguments
    if well_formed(s):
        return True
    return s != "" and s[0] != "-" and not any(ch.isspace() or ch in "();?\x1c\x1d\x1e\x1f\x85" for ch in s)


def v(n):
    return ["v", n]


def c(n):
    return ["c", n]


def at(p, *ts):
    return ["atom", p, list(ts)]


def fn(f, *ts):
    return ["fn", f, list(ts)]


def domain_of(n):
    return {
        "name": n["DN"],
        "reqs": list(EVERYTHING),
        "types": [[t, None if t == "object" else up] for t, up in ((n["T2"], n["T1"]), (n["T1"], n["TP"]))]
        + [[t, None] for t in (n["TE"], n["TP"]) if t != "object"],
        "consts": [[n["C"], n["T1"]], [n["C2"], None]],
        "preds": [[n["P"], [[n["PV"], [n["T1"]]]]], [n["P2"], [[n["PV"], sorted([n["T1"], n["TE"]])]]]],
        "funcs": [[n["F"], [[n["FV"], [n["T1"]]]], True], [n["F0"], [], True]],
        "structs": [
            ["derived", n["P2"], [[n["DV"], []]], ["exists", [[n["QV"], [n["T2"]]]], at(n["P"], v(n["QV"]))]],
            [
                "action", n["A"], [[n["AV"], [n["T1"]]]],
                ["and", [
                    at(n["P"], v(n["AV"])), at(n["P"], c(n["C"])),
                    ["not", ["exists", [[n["EV"], [n["T1"]]]], at(n["P"], v(n["EV"]))]],
                    ["forall", [[n["UV"], [n["TE"], n["T2"]]]], ["or", [at(n["P2"], v(n["UV"])), ["eq", v(n["UV"]), c(n["C2"])]]]],
                    ["cmp", ">=", fn(n["F"], v(n["AV"])), ["num", "1"]],
                ]],
                ["and", [
                    ["eforall", [[n["WV"], [n["T1"]]]], ["when", at(n["P"], v(n["WV"])), ["not", at(n["P2"], v(n["AV"]))]]],
                    ["neff", "increase", fn(n["F0"]), fn(n["F"], c(n["C"]))],
                ]],
            ],
            ["action", n["A2"], [], None, ["neff", "assign", fn(n["F"], c(n["C"])), fn(n["F0"])]],
        ],
    }


def problem_of(n):
    return {
        "name": n["PN"],
        "domain": n["DN"],
        "reqs": [],
        "objects": [[n["O"], n["T1"]], [n["O2"], None]],
        "init": [at(n["P"], c(n["O"])), ["not", at(n["P"], c(n["C"]))], ["assign", fn(n["F"], c(n["O2"])), ["num", "3"]]],
        "goal": ["and", [
            at(n["P"], c(n["C"])),
            ["exists", [[n["GV"], [n["T1"], n["TE"]]]], at(n["P"], v(n["GV"]))],
            ["forall", [[n["HV"], [n["T1"]]]], ["imply", at(n["P"], v(n["HV"])), ["cmp", "<", fn(n["F0"]), ["num", "2"]]]],
        ]],
        "metric": ["minimize", ["op", "+", [fn(n["F"], c(n["O"])), fn(n["F0"])]]],
    }


def judge(kind, what, res, x, want_ok, content, seen, shown):
    if not want_ok:
        check(res == "err", f"{what}: a {kind} with a bad name is accepted", shown)
        check(isinstance(x, clean_errors()), f"{what}: bad name rejected, but with {short_tb(x)}" if res == "err" else "", shown)
        return
    check(res == "ok", f"{what}: good names rejected: {short_tb(x)}" if res == "err" else "", shown)
    got = seen(x)
    check(got == content, f"{what}: the names are not stored as given", shown, view.diff(content, got))


@functools.lru_cache(None)
def scratch():
    d = tempfile.mkdtemp(prefix="pv-c20-")
    atexit.register(shutil.rmtree, d, ignore_errors=True)
    return d


def from_file(kind, text):
    """Parse the text given as a file."""
    import pddl

    path = os.path.join(scratch(), f"{os.getpid()}.pddl")
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    return {"domain": pddl.parse_domain, "problem": pddl.parse_problem, "plan": pddl.parse_plan}[kind](path)


def via_text(kind, ast, layout):
    """Parse the text of an AST, as a text or as a file."""
    text = render.text_of(kind, ast, layout)
    if sum(layout) % 2 or not text.isascii():
        a = outcome(from_file, kind, text)
        b = outcome(parser(kind), text)
        check(a[0] == b[0], f"the same {kind} is accepted as a text or as a file only", text, a, b)
        return (a, text)
    return (outcome(parser(kind), text), text)


def text_ok(slots):
    return all(in_text(s, n) for s, n in slots.items())


def check_document(case):
    kind, slots, layout = case
    n = dict(DEFAULTS, **slots)
    good = all(allowed(s, w) for s, w in slots.items())
    shown = f"{kind} with {slots!r}"
    classes = [kind]
    if kind == "plan":
        steps = [[n["A"], [n["O"], n["O2"]]], [n["A2"], []], [n["A"], [n["O2"], n["O2"]]]]
        # the names of the steps are not declarations: keywords are not judged
        if not any(slots.get(s) in gen.KEYWORDS for s in ("A", "A2")):
            want = [(a, tuple(b)) for a, b in steps]
            if text_ok(slots):
                (res, x), _ = via_text("plan", steps, layout)
                judge(kind, "parser", res, x, good, want, view.plan_c, shown)
                classes.append("plan/parse/" + ("good" if good else "bad"))
            if all(allowed(s, w) for s, w in slots.items() if s in ("A", "A2")):
                res, x = outcome(build.plan, steps)
                judge(kind, "constructor", res, x, good, want, view.plan_c, shown)
    else:
        ast = domain_of(n) if kind == "domain" else problem_of(n)
        if kind == "domain":
            r, want, seen, make = model.resolve_domain(ast), model.domain_c(ast), view.domain_c, build.domain
        else:
            r, want, seen, make = model.resolve_problem(ast), model.problem_c(ast), view.problem_c, build.problem
        if text_ok(slots):
            (res, x), text = via_text(kind, ast, layout)
            judge(kind, "parser", res, x, good, want, seen, f"{shown}\n{text}")
            classes.append(f"{kind}/parse/" + ("good" if good else "bad"))
            if good:
                again = lib("printing", str, x)
                res, x = outcome(parser(kind), again)
                judge(kind, "reparse", res, x, True, want, seen, f"{shown}\n{again}")
        res, x = outcome(make, r)
        judge(kind, "constructor", res, x, good, want, seen, shown)
        classes.append(f"{kind}/build/" + ("good" if good else "bad"))
    for s, w in slots.items():
        classes.append(f"slot {s} {sort_of(w)}")
    return bool(set(slots) - {"DN", "PN"}), classes


def sort_of(w):
    if not well_formed(w):
        return "malformed"
    return "keyword" if w in gen.KEYWORDS else "name"


CONSTRUCTORS = [
    "constant", "constant type", "variable", "variable type", "predicate", "function", "action", "domain", "problem",
    "domain name of problem", "type", "supertype",
]


def check_object(case):
    """One object alone: what it stores is what was given."""
    what, w, as_name = case
    from pddl.action import Action
    from pddl.core import Domain, Problem
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable
    from pddl.requirements import Requirements

    R = [Requirements.TYPING]
    slot = "P"
    if what in ("constant type", "variable type", "type", "supertype"):
        slot = "T1"
    if what == "function":
        slot = "F"
    good = allowed(slot, w)
    given = w
    if as_name:  # the library's own name class
        from pddl.custom_types import name

        res, given = outcome(name, w)
        if not well_formed(w):
            check(res == "err", f"name({w!r}) is accepted")
            check(isinstance(given, clean_errors()), f"name({w!r}): {short_tb(given)}")
            return True, ["name class, malformed"]
        check(res == "ok", f"name({w!r}) is rejected: {given!r}")
        check(str(given) == w and given == w, f"name({w!r}) is {given!r}")
    make = {
        "constant": lambda s: [Constant(s).name],
        "constant type": lambda s: [Constant("k", s).type_tag, *Constant("k", s).type_tags],
        "variable": lambda s: [Variable(s).name],
        "variable type": lambda s: list(Variable("k", [s]).type_tags),
        "predicate": lambda s: [Predicate(s, Variable("x")).name],
        "function": lambda s: [NumericFunction(s, Variable("x")).name],
        "action": lambda s: [Action(s, []).name],
        "domain": lambda s: [Domain(s).name],
        "problem": lambda s: [Problem(s, domain_name="d").name],
        "domain name of problem": lambda s: [Problem("p", domain_name=s).domain_name],
        "type": lambda s: list(Domain("d", requirements=R, types={s: None}).types),
        "supertype": lambda s: list(Domain("d", requirements=R, types={"kk": s}).types.values()),
    }[what]
    if what == "supertype" and w == "kk":
        return False, ["cycle"]
    res, x = outcome(make, given)
    shown = f"{what} {w!r} ({'name' if as_name else 'str'})"
    if not good:
        check(res == "err", f"a bad name is accepted: {shown}")
        check(isinstance(x, clean_errors()), f"bad name rejected, but with {short_tb(x)}: {shown}" if res == "err" else "")
    else:
        check(res == "ok", f"a good name is rejected: {shown}: {short_tb(x)}" if res == "err" else "")
        check(len(x) >= 1 and all(isinstance(y, str) and str(y) == w for y in x), f"stored as {x!r}: {shown}")
    return True, [f"{what} {sort_of(w)}"]


BAD_CHARS = [
    "1", "0", "-", "_", ".", "+", "/", "*", "=", "<", ">", ":", "?", "(", ")", ";", " ", "\t", "\n", "\r", "\x00", "\x0b",
    "\x7f", "\x85", "\xa0", "\u00e9", "\u00df", "\u0661", "\u2028", "\u4e16", "\u212a", "\u017f", "\uff21", "\u00b2", "'",
    '"', "#", "@", "!", "$", "%", "&", "|", "~", "^", "`", "\\", "[", "]", "{", "}", ",",
]


def g_valid(d):
    k = d.i(0, 6)
    if k == 0:
        return d.name()
    if k == 1:
        return d.draw(gen.RANDOM_NAMES)
    if k == 6:
        return d.pick(["n", "not", "object-", "N_0-"]) + d.pick("xX0-_") * d.pick(gen.TAILS + [d.i(1, 700), 4500])
    kw = d.pick(KEYWORDS + ["number", "action", "types", "init", "goal", "typing", "strips", "either", "object"])
    if k == 2:
        w = kw + d.pick(["-", "_", "1", "s", "X", "-1", "--", "-a", "and", "object", "0", "_"])
    elif k == 3:
        w = d.pick(["a", "x-", "Z_", "not-", "or", "and-", "n0"]) + kw
    elif k == 4:
        cut = d.i(1, max(1, len(kw) - 1))
        w = kw[:cut]
    else:
        w = kw[: d.i(1, len(kw))] + d.pick(["-", "_", "q", "7"]) + d.pick(KEYWORDS)
    if not well_formed(w) or w.lower() in gen.KEYWORDS:
        w = "n" + w
    return w


def g_bad(d):
    k = d.i(0, 6)
    if k == 6:
        long = "n" + d.pick("xX0-_") * d.pick(gen.TAILS)
        return d.pick([long + d.pick(BAD_CHARS[4:]), d.pick(BAD_CHARS) + long, long + d.pick(BAD_CHARS[4:]) + long])
    if k == 0:
        return d.pick(BAD_CHARS) + d.name()
    if k == 1:
        return d.name() + d.pick(BAD_CHARS[4:])
    if k == 2:
        w = d.name() + "zz"
        cut = d.i(1, len(w) - 1)
        return w[:cut] + d.pick(BAD_CHARS[4:]) + w[cut:]
    if k == 3:
        return d.pick(["", "1", "12", "1.5", "-1", "?x", ":action", "-", "=", ">=", "a b", "a\n", "\na", " a", "a ", "a;b", "-a", "_a", "1a", "a.b"])
    if k == 4:
        return d.pick(BAD_CHARS) + d.pick(KEYWORDS)
    return d.pick(KEYWORDS) + d.pick(BAD_CHARS[4:])


def g_candidate(d, slot):
    k = d.i(0, 9)
    if k <= 4:
        return g_valid(d)
    if k <= 7:
        return d.pick(KEYWORDS)
    return g_bad(d)


def clash(slots):
    n = dict(DEFAULTS, **slots)
    for g in GROUPS:
        names = [n[s] for s in g]
        if len(set(names)) < len(names):
            return True
    # an object called like another kind of term cannot be told apart in a text only if it is a variable; those have '?'
    return False


def g_document(d):
    kind = d.pick(["domain", "domain", "domain", "problem", "problem", "plan"])
    pool = {"domain": DOMAIN_SLOTS, "problem": PROBLEM_SLOTS, "plan": PLAN_SLOTS}[kind]
    k = d.pick([1, 1, 1, 2, 3, 5, 8])
    slots = {}
    some_bad = d.b(1, 2)
    for i, s in enumerate(d.subset(pool, 1, k)):
        slots[s] = g_candidate(d, s) if (i == 0 and some_bad) or d.b(1, 8) else g_valid(d)
        if s in TYPE_SLOTS and d.b(1, 6):
            slots[s] = "object"
        if s in FUNC_SLOTS and d.b(1, 6):
            slots[s] = "total-cost"
    while clash(slots):
        slots.pop(sorted(slots)[-1])
        if not slots:
            slots["DN"] = "x"
    layout = [d.i(0, 15) for _ in range(d.i(0, 6))] if d.b(1, 3) else []
    return [kind, slots, layout]


def g_object(d):
    what = d.pick(CONSTRUCTORS)
    return [what, g_candidate(d, what), d.b(1, 3)]


PARTS = [
    Part("document", gen.strategy(g_document), check_document, 7000),
    Part("object", gen.strategy(g_object), check_object, 9000),
]
REGRESSIONS = [
    ("document", [k, {s: w}, []])
    for k, pool in (("domain", DOMAIN_SLOTS), ("problem", PROBLEM_SLOTS), ("plan", PLAN_SLOTS))
    for s in pool
    for w in KEYWORDS + ["objects", "total-costs", "not-x", "or-1", "domain2", "a.b", "1a", "b\n", ""]
] + [("object", [s, w, b]) for s in CONSTRUCTORS for w in KEYWORDS + ["andy", "a\n", "", "1", "\u00e9"] for b in (False, True)]
