"""C17: a parser's verdict never depends on what it parsed before."""

import copy
import gc
import hashlib
import sys

from .. import forked, gen, render, view
from ..cases import act, at, der, dom, fn, num, op, prob
from ..core import check, parser
from ..harness import Part
from ..overlap import Turns

RULE = (
    "A case is a pool of 2-5 related texts (a domain or problem and variants of it with declarations removed, "
    "retyped or renamed, requirements dropped, or broken syntax) and a history of 2-10 parses over two domain, two "
    "problem and one plan parser, with other uses of the results in between, run in a fork of a pristine process. Each "
    "outcome (object content and text, or exception kind) must be that of the text alone in another pristine fork; "
    "earlier results and interpreter-wide settings must stay. Non-trivial: one parser gets at least three different "
    "texts, at least one accepted and one rejected. Part 'overlap': 2-4 parsers parse such texts in as many threads, "
    "which take turns, at lines of the library, as a random schedule says (pv/overlap.py); same demands. Non-trivial: "
    "the turn was passed on at least twice in the middle of a parse."
)
ASSUMPTIONS = ["one parser object is used by one thread at a time"]

PRISTINE = {}
FRESH = {}


def pristine():
    """Parsers that this process never uses (only its forks do)."""
    if not PRISTINE:
        import decimal
        import locale
        import logging
        import random
        import warnings  # noqa: F401

        locale.getlocale()
        random.random()
        decimal.getcontext()
        logging.getLogger()
        for kind, n in (("domain", 2), ("problem", 2), ("plan", 1)):
            PRISTINE[kind] = [parser(kind, fresh=True) for _ in range(n)]
        forked.warm_patterns(lambda: [run_one(PRISTINE[k][0], k, t) for k, t in WARM])
        gc.collect()
        gc.freeze()
    return PRISTINE


def norm(x):
    """A printable form of a view that does not depend on set order."""
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(map(norm, x))) + "}"
    if isinstance(x, dict):
        return "{" + ",".join(sorted(f"{norm(k)}:{norm(v)}" for k, v in x.items())) + "}"
    if isinstance(x, (list, tuple)):
        return "(" + ",".join(map(norm, x)) + ")"
    return repr(x)


VIEWS = {"domain": view.domain_c, "problem": view.problem_c, "plan": view.plan_c}


def describe(kind, x):
    return ["ok", str(x), norm(VIEWS[kind](x))]


def run_one(p, kind, text):
    try:
        x = p(text)
    except Exception as e:  # noqa
        names = [type(e).__name__]
        while getattr(e, "orig_exc", None) is not None:
            e = e.orig_exc
            names.append(type(e).__name__)
        return None, ["err", *names]
    return x, describe(kind, x)


def alone(kind, text):
    return run_one(pristine()[kind][0], kind, text)[1]


def fresh(kind, text):
    """The outcome of a text given to a new parser in a pristine process."""
    key = hashlib.blake2b(f"{kind} {text}".encode("utf8", "surrogatepass"), digest_size=16).digest()
    if key not in FRESH:
        if len(FRESH) > 50000:
            FRESH.clear()
        FRESH[key] = forked.run(alone, kind, text)
    return FRESH[key]


UNSET = "unset"


def settings():
    """Interpreter-wide settings."""
    import builtins
    import decimal
    import locale
    import logging
    import os
    import random
    import signal
    import threading
    import warnings

    return {
        "sys.tracebacklimit": getattr(sys, "tracebacklimit", UNSET),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "working directory": os.getcwd(),
        "environment": norm(dict(os.environ)),
        "warning filters": repr(warnings.filters),
        "showwarning": id(warnings.showwarning),
        "decimal context": repr(decimal.getcontext()),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "locale": repr(locale.setlocale(locale.LC_ALL)),
        "random": hash(random.getstate()),
        "logging": (logging.root.level, logging.root.manager.disable, len(logging.root.handlers)),
        "streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.gettrace()), id(sys.getprofile())),
        "sys.path": repr(sys.path),
        "builtins": sorted(vars(builtins)),
        "signals": repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGVTALRM)]),
        "threads": threading.active_count(),
        "files": sorted(os.listdir("/proc/self/fd"))[:-1].__len__(),
    }


def history(texts, steps, limit):
    """Run a history in this (forked) process; returns the outcomes or [fault]."""
    ps = {k: list(v) for k, v in pristine().items()}
    if limit != UNSET:
        sys.tracebacklimit = limit
    elif hasattr(sys, "tracebacklimit"):
        del sys.tracebacklimit
    before = settings()
    results = []  # [kind, object, outcome]
    outcomes = []
    for n, (slot, i, look) in enumerate(steps):
        kind, text = texts[i]
        if look == 3:
            parser(kind, fresh=True)  # someone makes another parser
        q = ps[kind][slot % len(ps[kind])]
        x, out = run_one(q, kind, text)
        outcomes.append(out)
        after = settings()
        if after != before:
            bad = [k for k in before if after[k] != before[k]]
            return {"fault": f"step {n} changed {bad}: {[(before[k], after[k]) for k in bad]}"}
        if x is not None:
            results.append([kind, x, out])
        if look in (1, 2):
            use(results, look)
    for kind, x, out in results:
        now = describe(kind, x)
        if now != out:
            return {"fault": f"an earlier result changed:\n  was {out}\n  now {now}"}
    for a, (k1, x, o1) in enumerate(results):
        for k2, y, o2 in results[a + 1 :]:
            if k1 == k2 and (x == y) != (o1[2] == o2[2]) and o1[2] == o2[2]:
                return {"fault": f"two results of the same content differ: {x}"}
    return {"outcomes": outcomes}


def use(results, look):
    """Other uses of the results between the parses."""
    doms = [x for k, x, _ in results if k == "domain"]
    for k, x, _ in results:
        str(x)
        if look == 2:
            try:
                if k == "problem" and doms:
                    x.check(doms[-1])
                if k == "plan" and doms:
                    x.instantiate(doms[-1])
                if k == "domain":
                    for a in x.actions:
                        a.instantiate(list(a.parameters))
                        hash(a)
            except Exception:  # noqa
                pass


def check_history(case):
    texts, steps, limit = case
    pristine()
    r = forked.run(history, texts, steps, limit)
    shown = "\n  ".join([f"{k}: {t}" for k, t in texts] + [repr(steps)])
    check("fault" not in r, r.get("fault", ""), shown)
    per = {}
    for n, ((slot, i, _), got) in enumerate(zip(steps, r["outcomes"])):
        kind, text = texts[i]
        want = fresh(kind, text)
        check(
            got == want,
            f"step {n}: the outcome of a text depends on earlier parses",
            f"text {i}: {text}", f"alone: {want}", f"in the history: {got}", shown,
        )
        per.setdefault((kind, slot % 2 if kind != "plan" else 0), []).append((i, got[0]))
    nontrivial = any(
        len({i for i, _ in v}) >= 3 and {"ok", "err"} <= {o for _, o in v} for v in per.values()
    )
    return nontrivial, [f"{texts[i][0]} {o[0]}" + ("" if o[0] == "ok" else " " + o[-1]) for (_, i, _), o in zip(steps, r["outcomes"])]


def variant(d, kind, ast):
    """A related document, often one that lacks something."""
    a = copy.deepcopy(ast)
    k = d.i(0, 9)
    if kind == "plan":
        return [s for s in a if d.b(2, 3)] or a
    if kind == "problem":
        if k <= 1:
            a["objects"] = None
        elif k <= 3 and a["objects"]:
            a["objects"] = sorted([[n, d.pick([None, "t", "u"])] for n, _ in a["objects"]], key=lambda x: x[1] is None)
        elif k == 4:
            a["metric"] = None
        elif k == 5:
            a["init"] = a["init"][:1]
        elif k == 6:
            a["reqs"] = d.subset(gen.ALL_REQS, 0, 3)
        elif k == 7:
            a["goal"] = ["and", []]
        else:
            a["init"] = list(reversed(a["init"]))
            a["domain"] = d.name()
        return a
    if k == 0:
        a["consts"] = None
    elif k == 1 and a["consts"]:
        a["consts"] = a["consts"][:-1]
    elif k == 2:
        a["reqs"] = d.subset(a["reqs"], 0, 9)
    elif k == 3:
        a["preds"] = a["preds"][:-1] if d.b(1, 2) else []
    elif k == 4:
        a["types"] = None
    elif k == 5 and a["structs"]:
        a["structs"] = d.subset(a["structs"], 0, len(a["structs"]))
    elif k == 6:
        for s in a["structs"]:
            if s[0] == "action" and d.b(1, 2):
                s[2] = s[2][:-1]
    elif k == 7:
        for n, ps in a["preds"]:
            ps[:] = [[v, []] for v, _ in ps]
    elif k == 8:
        a["consts"] = a["consts"] and [[n, None] for n, _ in a["consts"]]
        a["funcs"] = []
    else:
        for s in a["structs"]:
            s[2] = [[v, []] for v, _ in s[2]]
    return a


def broken(d, toks):
    toks = list(toks)
    k = d.i(0, 4)
    i = d.i(0, max(0, len(toks) - 1))
    if k == 0:
        return toks[:i]
    if k == 1:
        return toks + [d.pick([")", "(", "x", "?x", "1", ":action"])]
    if k == 2 and toks:
        return toks[:i] + toks[i + 1 :]
    if k == 3:
        return toks[:i] + [d.pick(["(", ")", "and", "?", "-", ":goal", "either", "%", "\x00", "="])] + toks[i:]
    return toks[:i] + toks[i + 1 :] + toks[i : i + 1]


def relaid(d, text):
    """Texts that look almost the same: other layout, letter case or comments, which may hide a part of the text."""
    words = text.split(" ")
    i = d.i(0, len(words) - 1)
    k = d.i(0, 6)
    if k <= 2:
        # the same words: only the line end decides whether the rest is a comment
        note = d.pick(["; note", ";", ";;", "; ) ("])
        cut = [j for j in range(1, len(words)) if words[j - 1] == ")" and words[j] == "("]
        i = d.pick(cut) if cut and d.b(3, 4) else i
        a, b = " ".join(words[:i]), " ".join(words[i:])
        return [f"{a} {note} \n{b}", f"{a} {note} {b}" + d.pick(["", "\n", "\n)"])]
    if k == 3:
        return [" ".join(words[:i]) + d.pick(["\n", "\t", "  ", "\r\n"]) + " ".join(words[i:])]
    if k == 4:
        return [" ".join(words[:i] + [words[i].swapcase()] + words[i + 1 :])]
    if k == 5:
        return [text + d.pick(["\n", " ", "\n\n; end", " ; end"])]
    return ["".join(w if w in "()" else f" {w} " for w in words)]


def g_history(d):
    dast, ctx = gen.gen_domain(d, small=d.b(2, 3), structs=d.i(1, 3))
    past = gen.gen_problem(d, ctx, dast, small=True)
    steps = [["a", ["b"]], ["b", []], ["c", ["x", "y"]]]
    plan = gen.gen_plan(d) if d.b(1, 2) else steps
    asts = {"domain": dast, "problem": past, "plan": plan}
    # mostly one kind, so that one parser sees many related texts
    main = d.pick(["domain", "domain", "domain", "problem", "problem", "plan"])
    kinds = [main, main, main, main] + [d.pick(["domain", "problem", "plan"]) for _ in range(d.i(0, 2))]
    texts = []
    for n, kind in enumerate(kinds):
        ast = asts[kind]
        if n and d.b(4, 5):
            ast = variant(d, kind, ast)
        try:
            toks = render.tokens_of(kind, ast)
        except Exception:  # noqa
            toks = render.tokens_of(kind, asts[kind])
        if n and (d.b(2, 3) if n == 1 else d.b(1, 5)):
            toks = broken(d, toks)
        texts.append([kind, render.plain(toks)])
        if d.b(1, 4):
            texts += [[kind, x] for x in relaid(d, texts[-1][1])]
    out = []
    for i in d.shuffled(range(len(texts))):
        out.append([0, i, 0])
    for _ in range(d.pick([6, 5, 8, 10, 4, 12])):
        k = d.i(0, len(out))
        out.insert(k, [d.i(0, 1) if d.b(1, 4) else 0, d.i(0, len(texts) - 1), d.pick([0, 0, 1, 2]) if d.b(9, 10) else 3])
    return [texts, out, d.pick([UNSET, UNSET, 0, 1, 7, 1000])]


# ------------------------------------------------------------------ overlap


def overlapping(texts, jobs, gaps, picks, outer, limit):
    """Run the jobs (lists of texts, one parser each) in threads of this (forked) process."""
    ps, left = [], {k: list(v) for k, v in pristine().items()}
    for job in jobs:
        kind = texts[job[0]][0]
        ps.append(left[kind].pop() if left[kind] else parser(kind, fresh=True))
    if limit != UNSET:
        sys.tracebacklimit = limit
    elif hasattr(sys, "tracebacklimit"):
        del sys.tracebacklimit
    before = settings()
    turns = Turns(gaps, outer)
    out = turns.run([lambda p=p, job=job: [run_one(p, *texts[i])[1] for i in job] for p, job in zip(ps, jobs)], picks)
    if out is None:
        return {"fault": "the parses never end"}
    after = settings()
    if after != before:
        bad = [k for k in before if after[k] != before[k]]
        return {"fault": f"overlapping parses changed {bad}: {[(before[k], after[k]) for k in bad]}"}
    return {"outcomes": out, "switches": turns.switches}


def check_overlap(case):
    texts, jobs, gaps, picks, outer, limit = case
    pristine()
    r = forked.run(overlapping, texts, jobs, gaps, picks, outer, limit)
    shown = "\n  ".join([f"{k}: {t}" for k, t in texts] + [repr(case[1:])])
    check("fault" not in r, r.get("fault", ""), shown)
    for k, (job, got) in enumerate(zip(jobs, r["outcomes"])):
        check(got is not None, f"thread {k} has no outcome: a parse ends with something else than an Exception", shown)
        for i, o in zip(job, got):
            want = fresh(*texts[i])
            check(o == want, f"thread {k}: the outcome of a text depends on the parses in other threads", f"text {i}: {texts[i][1]}", f"alone: {want}", f"overlapping: {o}", shown)
    return r["switches"] > 1, [f"{len(jobs)} threads", "outer" if outer else "anywhere"]


def g_overlap(d):
    texts = g_history(d)[0]
    by = {}
    for i, (k, _) in enumerate(texts):
        by.setdefault(k, []).append(i)
    jobs = []
    for _ in range(d.pick([2, 2, 3, 4])):
        ids = by[d.pick(sorted(by))]
        jobs.append([d.pick(ids) for _ in range(d.pick([1, 1, 2, 3]))])
    outer = d.b(1, 2)
    gaps = [d.i(1, 12 if outer else d.pick([5, 60, 400])) for _ in range(d.i(1, 10))]
    return [texts, jobs, gaps, [d.i(0, 3) for _ in range(d.i(1, 9))], outer, d.pick([UNSET, UNSET, 0, 1, 7, 1000])]


PARTS = [
    Part("history", gen.strategy(g_history), check_history, 1100),
    Part("overlap", gen.strategy(g_overlap), check_overlap, 450),
]


def t(kind, ast):
    return [kind, render.text_of(kind, ast)]


TYPED = t("domain", dom(act("a", [["x", ["t"]]], at("r", "?x", "k"), None)))
NO_CONSTS = t("domain", dom(act("a", [["x", ["t"]]], at("r", "?x", "k"), None), consts=None))
NO_REQS = t("domain", dom(act("a", [["x", []]], ["or", [at("p", "?x"), at("q")]], None), reqs=[], types=None, consts=None, preds=[["p", [["x", []]]], ["q", []]], funcs=[]))
NO_PREDS = t("domain", dom(der("p", [["x", []]], at("q")), preds=[["q", []]]))
DER = t("domain", dom(der("p", [["x", ["t"]]], at("q"))))
DER_T = t("domain", dom(der("p", [["x", []]], at("p", "?x"))))
CUT = ["domain", TYPED[1][:-12]]
MID = ["domain", TYPED[1].replace("( r ?x k )", "( r ?x undeclared )")]
FREE = t("domain", dom(der("p", [["z", []]], at("p", "?x"))))
P1, P2 = t("problem", prob(init=[at("p", "o1")], goal=at("p", "o2"))), t("problem", prob(objects=None, init=[at("p", "o1")], goal=at("p", "o2")))
P3 = ["problem", P1[1].replace("( p o2 )", "( p ?x )")]
P4 = ["problem", P1[1] + " )"]
NESTED = act(
    "n", [["x", ["t", "u"]]],
    ["imply", ["not", at("p", "?x")], ["exists", [["y", []]], ["forall", [["z", ["u"]]], ["and", [["cmp", ">=", op("-", num("1")), op("/", fn("g"), num("2"))], ["eq", ["c", "k"], ["v", "y"]]]]]]],
    ["and", [["when", at("q"), ["and", [["not", at("q")], at("q")]]], ["eforall", [["y", []]], ["oneof", [at("q"), ["neff", "increase", fn("f", "k"), num("1")]]]]]],
)
PL = ["plan", "( a o1 ) ( b )"]
WARM = [
    TYPED, t("domain", dom(NESTED, der("p", [["x", []]], NESTED[3]))), P1, P2, P3, PL,
    t("problem", prob(reqs=["strips"], goal=["or", [NESTED[3][2], at("q")]], init=[["assign", fn("f", "o1"), ["num", "1"]], ["not", at("q")]], metric=["minimize", op("+", fn("g"), num("1.5"))])),
]
REGRESSIONS = [
    ("history", [texts, [[0, i, look] for i in order], lim])
    for texts, order in (
        ([TYPED, NO_CONSTS, CUT], [0, 1, 2, 1, 0, 2, 0]),
        ([TYPED, NO_REQS, MID], [0, 1, 2, 1, 0]),
        ([DER, NO_PREDS, DER_T], [0, 1, 2, 1, 0]),
        ([MID, FREE, CUT], [0, 1, 2, 1]),
        ([TYPED, FREE, CUT], [2, 1, 0, 1]),
        ([P1, P2, P3, P4], [0, 1, 2, 3, 1, 0, 2]),
        ([TYPED, P3, P2, PL, MID], [4, 1, 0, 3, 2, 1, 0]),
    )
    for look, lim in ((0, UNSET), (1, 0), (2, 7), (3, 1000))
]
REGRESSIONS += [
    ("overlap", [[TYPED, MID, PL], jobs, gaps, picks, outer, lim])
    for jobs in ([[0], [0]], [[0], [1]], [[1], [1], [2]])
    for gaps, picks in (([1], [0, 1]), ([1], [0, 0, 1]), ([2], [1, 0, 0, 1]), ([4, 1], [0, 1]))
    for outer, lim in ((True, UNSET), (True, 7))
]
