"""C27: syntax errors point at the first place that does not fit."""

import os

from .. import gen, render
from ..core import check, outcome, parser, short_tb
from ..harness import Part
from .c06 import scratch
from .c18 import VOCAB, any_doc, g_corrupt

RULE = (
    "A case is the token list of a random valid domain, problem or plan with one edit (a token inserted, replaced, removed, "
    "doubled or swapped with the next, or one of C18's corruptions) and two random layouts with comments. When the error has "
    "a position, line and column must be those of the same place (token and offset, or the end of the text) in both layouts; "
    "the text up to that place must not be faulted any earlier than at its end; and the place must not come before the edit. "
    "In the part `file`, a file with the text is refused at the same line and column as the text. "
    "Non-trivial: the error is at the fourth token or later."
)
ASSUMPTIONS = ["errors of meaning (missing requirements, wrong types) carry no position: no demand on where they point"]
JUNK = ["@", "#", "\"", "$x", "!", "{", "::", "\u00e9", "x@", "?x%", ":goal@", "\x00"]


def lay(tokens, layout):
    """(text, start offset of each token)."""
    lo = render.Layout(layout)
    text, starts, prev = render.GAPS[lo.next(len(render.GAPS))], [], None
    for t in tokens:
        if prev is not None:
            seps = render.GAPS if prev in render.NAMELESS or t in render.NAMELESS else render.SEPS
            text += seps[lo.next(len(seps))]
        starts.append(len(text))
        text += t
        prev = t
    return text + render.GAPS[lo.next(len(render.GAPS))], starts


def place(text, starts, e, told):
    """Where the error is: None (no position), 'end' or [token, offset]."""
    line, col = getattr(e, "line", None), getattr(e, "column", None)
    if line is None and col is None:
        return None
    if getattr(getattr(e, "token", None), "type", "") == "$END":
        return "end"
    ok = isinstance(line, int) and isinstance(col, int) and line >= 1 and col >= 1
    lines = text.split("\n")
    check(ok and line <= len(lines) and col <= len(lines[line - 1]) + 1, f"the error is at line {line}, column {col}, outside of the text", told)
    pos = sum(len(x) + 1 for x in lines[: line - 1]) + col - 1
    offset = getattr(e, "pos_in_stream", None)
    check(offset in (None, pos), f"the error is at line {line}, column {col}, which is offset {pos}, but it tells offset {offset}", told)
    k = max((i for i, s in enumerate(starts) if s <= pos), default=None)
    check(k is not None, f"the error is at line {line}, column {col}, before the first token", told)
    return [k, pos - starts[k]]


def check_where(case):
    kind, toks, first, layouts = case
    seen = []
    for layout in layouts:
        text, starts = lay(toks, layout)
        res, x = outcome(parser(kind), text)
        if res == "ok":
            seen.append("accepted")
            continue
        told = f"{kind}: {short_tb(x)}\n{text}"
        at = place(text, starts, x, told)
        if isinstance(at, list):
            check(at[1] < len(toks[at[0]]), f"the error is {at[1]} characters after token {at[0]} ({toks[at[0]]!r})", told)
        seen.append(at)
        check(at == seen[0], f"the error is at {seen[0]} in one layout, at {at} in another", told)
    at = seen[0]
    if at in ("accepted", None):
        return False, [kind + (": accepted" if at else ": no position")]
    if at == "end":
        return len(toks) > 3, [kind + ": end"]
    k, offset = at
    check(k >= first, f"the error is at token {k} ({toks[k]!r}), the first changed one is {first}", " ".join(toks))
    rest = toks[:k] + ([toks[k][:offset]] if offset else [])
    res, x = outcome(parser(kind), " ".join(rest))
    where = getattr(getattr(x, "token", None), "type", None)
    fine = res == "ok" or getattr(x, "line", None) is None or where == "$END"
    check(fine, f"the error is at token {k}, offset {offset}, but what comes before is faulted before its end: {x!r}"[:600], " ".join(toks))
    return k > 3, [kind + ": inside"]


def edited(d):
    kind, ast = any_doc(d)
    toks = render.tokens_of(kind, ast, render.Layout([d.i(0, 5) for _ in range(3)])) or ["(", "a", ")"]
    i = d.i(0, len(toks) - 1)
    k = d.i(0, 4)
    new = d.pick(JUNK if d.b(1, 4) else VOCAB)
    if k == 0:
        return kind, toks[:i] + [new] + toks[i:], i
    if k == 1:
        return kind, toks[:i] + [new] + toks[i + 1 :], i
    if k == 2:
        return kind, toks[:i] + toks[i + 1 :], i
    if k == 3:
        return kind, toks[: i + 1] + toks[i:], i + 1
    return kind, toks[:i] + toks[i + 1 : i + 2] + [toks[i]] + toks[i + 2 :], i


def g_where(d):
    if d.b(1, 4):
        kind, toks, _what = g_corrupt(d)
        first = 0
    else:
        kind, toks, first = edited(d)
    if any(";" in t or t.split() != [t] for t in toks):  # layout, not a token
        return [kind, ["("], 0, [[0]]]
    layouts = [[d.i(0, 33) for _ in range(d.pick([1, 3, 7]))] for _ in range(2)]
    return [kind, toks, min(first, max(len(toks) - 1, 0)), layouts]


def check_file(case):
    """An error in a file is reported at its place in the file."""
    import pddl

    kind, toks, _first, layouts = case
    text, _starts = lay(toks, layouts[0])
    text = "".join(c for c in text if c < "\x80" and c != "\r")
    fn = os.path.join(scratch(), kind + ".pddl")
    with open(fn, "w", newline="") as f:
        f.write(text)
    read = {"domain": pddl.parse_domain, "problem": pddl.parse_problem, "plan": pddl.parse_plan}[kind]
    places = []
    for f, x in ((parser(kind), text), (read, fn)):
        res, e = outcome(f, x)
        places.append([res] if res == "ok" else [res, getattr(e, "line", None), getattr(e, "column", None)])
    check(places[0] == places[1], f"{kind}: the text gives {places[0]}, a file with it {places[1]}", text)
    at = places[0]
    return at[0] != "ok" and (at[1] or 0) > 1, [kind + (": accepted" if at[0] == "ok" else ": refused")]


PARTS = [
    Part("where", gen.strategy(g_where), check_where, 12000),
    Part("file", gen.strategy(g_where), check_file, 1000),
]
LAYS = [[0], [9, 1, 5], [3, 12, 8, 0]]
REGRESSIONS = [
    ("where", [k, t.split(" "), n, LAYS])
    for k, t, n in (
        ("domain", "( define ( domain d ) ( :types a b ) 1 )", 11),
        ("domain", "( define ( domain d ) ( :foo ) )", 7),
        ("domain", "( define ( domain d )", 0),
        ("domain", "( define ( domain d ) ) x", 7),
        ("problem", "( define ( problem p ) ( :domain d ) ( :objects ?x ) )", 12),
        ("problem", "( define ( problem p ) ( :domain d ) ( :init ) ( :goal ( and ) ) ( :metric minimize ( + f 1e5 ) ) )", 22),
        ("plan", "( a b ) ( c @ )", 6),
        ("plan", "( a b ) ( c", 0),
    )
]
