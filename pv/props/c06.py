"""C06: layout and comments never change what a text means."""

import os
import re
import tempfile

from .. import gen, render, view
from ..core import check, outcome, parser
from ..harness import Part

RULE = (
    "A case is a token sequence (of a random well-formed text, sometimes corrupted by dropping, repeating, swapping "
    "or replacing tokens) and two random layouts (spaces, tabs, CR/LF/FF/VT, blank lines, ';' comments with any "
    "content). Both texts must be accepted with the same content and printed form, or both rejected; "
    "one of them may be given as a file to parse_domain / parse_problem / parse_plan. "
    "Non-trivial: the texts differ, at least one has a comment, and there are at least 20 tokens (8 for plans)."
)
ASSUMPTIONS = ["a comment ends at a line feed; '?' and the name of a variable are kept together"]

VIEW = {"domain": view.domain_c, "problem": view.problem_c, "plan": view.plan_c}
TAILS = ["", "", ";", ";x", " ; end ) (", "\n;;(", ";\r", "\t", " \n;define \u00e9"]
JUNK = ["(", ")", "-", "and", "or", "not", "?x", "x", "either", "forall", ":action", "=", "1", ":types", "object", ">="]
COMMENTS = ["", " ", ";", "(", ")", "))) (define", "?x - t", "\t", "\u00e9", "\r", "\x0b\x0c", "\u2028\u0085", '"', "'", "\\n", ":goal", "(and)", "\\", "#|", "//", "1.5", "\x00", "\ufeff", "e\u0301\U0001f600", "\u0130\ufb01"]


def check_layout(case):
    kind, tokens, lay1, lay2 = case[:4]
    tails = case[4] if len(case) > 4 else ["", ""]
    t1 = render_text(tokens, lay1) + tails[0]
    t2 = render_text(tokens, lay2) + tails[1]
    r1, x1 = outcome(parser(kind), t1)
    r2, x2 = outcome(parser(kind), t2)
    check(r1 == r2, f"one layout is accepted, the other is not: {x1!r} / {x2!r}"[:900], t1, t2)
    if r1 == "ok":
        check(VIEW[kind](x1) == VIEW[kind](x2), "the layout changes the content", view.diff(VIEW[kind](x1), VIEW[kind](x2)), t1, t2)
        check(x1 == x2, "the layout gives unequal objects", t1, t2)
        check(str(x1) == str(x2), "the layout changes the printed text", t1, t2)
    return (
        t1 != t2 and (";" in t1 or ";" in t2) and len(tokens) >= (8 if kind == "plan" else 20),
        [kind + (" accepted" if r1 == "ok" else " rejected")],
    )


def render_text(tokens, lay):
    """lay: list of separators used cyclically; '' only where it may be empty."""
    out = [lay[-1] if lay else ""]
    prev = None
    i = 0
    for t in tokens:
        if prev is not None:
            s = lay[i % len(lay)] if lay else " "
            i += 1
            if s == "" and not (prev in render.NAMELESS or t in render.NAMELESS):
                s = " "
            out.append(s)
        out.append(t)
        prev = t
    if lay:
        out.append(lay[i % len(lay)])
    return "".join(out)


def g_sep(d):
    k = d.i(0, 5)
    if k <= 1:
        return d.pick(render.SEPS)
    if k == 2:
        return ""
    if k == 3:
        return "".join(d.pick([" ", "\n", "\t", "\r\n", "\f", "\v", "\r", "\n\n"]) for _ in range(d.i(1, 5)))
    body = "".join(d.pick(COMMENTS) for _ in range(d.i(0, 3)))
    return d.pick(["", " ", "\n"]) + ";" + body + d.pick(["\n", "\r\n"]) + d.pick(["", "  ", ";\n"])


def g_lay(d):
    return [g_sep(d) for _ in range(d.i(0, 9))]


def g_case(d):
    k = d.i(0, 9)
    if k < 5:
        kind, ast = "domain", gen.gen_domain(d, small=True, structs=d.i(0, 2))[0]
    elif k < 8:
        kind, ast = "problem", gen.gen_problem(d, small=True)
    else:
        kind, ast = "plan", gen.gen_plan(d)
    toks = render.tokens_of(kind, ast, render.Layout([0] if d.b(1, 2) else gen.gen_layout(d)))
    if d.b(1, 5) and toks:
        for _ in range(d.i(1, 2)):
            i = d.i(0, len(toks) - 1)
            m = d.i(0, 3)
            if m == 0 and len(toks) > 1:
                toks.pop(i)
            elif m == 1:
                toks.insert(i, d.pick(JUNK))
            elif m == 2:
                j = d.i(0, len(toks) - 1)
                toks[i], toks[j] = toks[j], toks[i]
            else:
                toks[i] = d.pick(JUNK)
    return [kind, toks, [] if d.b(1, 4) else g_lay(d), g_lay(d), [d.pick(TAILS), d.pick(TAILS)]]


# ------------------------------------------------------------- through files


def check_file(case):
    """The functions that read a file see what the parsers see."""
    kind, tokens, lay1, lay2, tails = case
    # a lone carriage return is a line break when a text file is read, also inside a comment
    t1 = re.sub("\r(?!\n)", " ", render_text(tokens, lay1) + tails[0])
    t2 = render_text(tokens, lay2) + tails[1]
    fn = os.path.join(scratch(), kind + ".pddl")
    try:
        with open(fn, "w", newline="") as f:
            f.write(t1)
    except UnicodeEncodeError:
        t1 = t1.encode("ascii", "replace").decode("ascii")
        with open(fn, "w", newline="") as f:
            f.write(t1)
    import pddl

    read = {"domain": pddl.parse_domain, "problem": pddl.parse_problem, "plan": pddl.parse_plan}[kind]
    r1, x1 = outcome(read, fn)
    r2, x2 = outcome(parser(kind), t2)
    check(r1 == r2, f"the file is judged otherwise than the text: {x1!r} / {x2!r}"[:900], t1, t2)
    if r1 == "ok":
        check(VIEW[kind](x1) == VIEW[kind](x2), "the file is read otherwise than the text", view.diff(VIEW[kind](x1), VIEW[kind](x2)), t1, t2)
        check(x1 == x2, "the file gives an unequal object", t1, t2)
    return (
        t1 != t2 and ";" in t1 and len(tokens) >= (8 if kind == "plan" else 20),
        [kind + (" accepted" if r1 == "ok" else " rejected")],
    )


_SCRATCH = []


def scratch():
    if not _SCRATCH or _SCRATCH[0] != os.getpid():
        _SCRATCH[:] = [os.getpid(), tempfile.TemporaryDirectory(prefix="pv-files-")]
    return _SCRATCH[1].name


PARTS = [
    Part("layout", gen.strategy(g_case), check_layout, 15000),
    Part("file", gen.strategy(g_case), check_file, 1200),
]
SMALL = "( define ( domain d ) ( :predicates ( p ) ) )".split()
REGRESSIONS = [
    ("layout", ["domain", SMALL, [], ["\r\n", ";x\n", "", "\t", " ;;(\r\n"]]),
    ("layout", ["plan", "( a x y ) ( b )".split(), [], ["\f", "\v", "\r", ";\n"]]),
]
