"""C19: the command line tool agrees with the library."""

import gc
import os
import shutil
import subprocess
import sys
import tempfile

from .. import env, forked, gen, render
from ..cases import act, at, dom, prob
from ..core import check, clean_errors, outcome, parser  # noqa: F401
from ..harness import Part

RULE = (
    "A case is 1-3 files in a scratch directory (a generated domain; a problem written for it, or with another domain "
    "name, an undeclared type or extra requirements; a plan that fits or with bad steps; each valid, corrupted by a "
    "token, truncated, empty, garbage, not UTF-8, missing or a directory), names with spaces and accents, absolute or "
    "relative paths, with or without -q at any place. The tool runs in its own process (a forked one calling the "
    "entry point; a few through python -m pddl and through the library's own script entry). Exit status, standard "
    "output and the files afterwards are compared with what the library's parse and check functions say in another "
    "process. Non-trivial: at least two files, or a failing one."
)
ASSUMPTIONS = ["at most three files are given; standard output is a file"]

NAMES = ["domain.pddl", "d", "a b.pddl", "caf\u00e9.pddl", "p.PDDL", "x.txt", "0", "plan", "sub dir/q.pddl", "-dash.pddl"]


def prepare():
    import logging

    logging.getLogger()
    import pddl.__main__  # noqa: F401
    from pddl.core import Domain  # noqa: F401

    if not _READY:
        forked.warm_patterns(lambda: [parser(k, fresh=True) for k in ("domain", "problem", "plan")])
        gc.collect()
        gc.freeze()
        _READY.append(1)


_READY = []


def library(paths, cwd):
    """What the library says: one [stage, ok, text] per stage, up to the first failure."""
    os.chdir(cwd)
    from pddl import parse_domain, parse_plan, parse_problem

    out = []

    def stage(name, fn, text=True):
        res, x = outcome(fn)
        out.append([name, res == "ok", str(x) if res == "ok" and text else ""])
        return x if res == "ok" else None

    d = stage("domain", lambda: parse_domain(paths[0]))
    if d is None or len(paths) == 1:
        return out
    p = stage("problem", lambda: parse_problem(paths[1]))
    if p is None:
        return out
    stage("problem check", lambda: p.check(d), False)
    if not out[-1][1] or len(paths) == 2:
        return out
    q = stage("plan", lambda: parse_plan(paths[2]))
    if q is None:
        return out
    stage("plan check", lambda: q.check(d, p), False)
    return out


def tool(args, cwd, out, err):
    """The tool in this (forked) process: its exit status."""
    os.chdir(cwd)
    for fd, path in ((1, out), (2, err)):
        h = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(h, fd)
        os.close(h)
    stdout = sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
    sys.stderr = open(2, "w", encoding="utf-8", closefd=False)
    sys.argv = ["pddl"] + args
    try:
        from pddl.__main__ import cli

        cli()
        code = 0
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException:  # noqa
        import traceback

        traceback.print_exc()
        code = 1
    stdout.flush()
    if sys.stdout is not stdout:
        sys.stdout.flush()
    sys.stderr.flush()
    return code


def tree(root):
    """Everything about the files of a directory."""
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            s = os.lstat(p)
            data = ""
            if n in files:
                with open(p, "rb") as fh:
                    data = fh.read()
            out[os.path.relpath(p, root)] = (s.st_mode, s.st_ino, s.st_size, s.st_mtime_ns if n in files else 0, data)
    return out


def check_tool(case):
    files, opts, how, absolute = case
    prepare()
    top = tempfile.mkdtemp(prefix="pv19-")
    try:
        root = os.path.join(top, "files")
        os.mkdir(root)
        paths = []
        for name, kind, text in files:
            p = os.path.join(root, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if kind == "dir":
                os.makedirs(p, exist_ok=True)
            elif kind != "missing":
                data = text.encode("utf-8") if kind != "bytes" else text.encode("utf-8") + b"\xff\xfe\n"
                if os.path.isdir(p):
                    return False, ["clash"]
                with open(p, "wb") as fh:
                    fh.write(data)
            paths.append(p if absolute else os.path.join(".", name))
        before = tree(root)
        said = forked.run(library, paths, root)
        after_lib = tree(root)
        quiet = any(o is not None for o in opts)
        args = []
        for i, p in enumerate(paths):
            if i < len(opts) and opts[i]:
                args.append(opts[i])
            args.append(p)
        if len(opts) > len(paths) and opts[-1]:
            args.append(opts[-1])
        out, err = os.path.join(top, "out"), os.path.join(top, "err")
        if how == "fork":
            code = forked.run(tool, args, root, out, err)
        else:
            cmd = [sys.executable, "-m", "pddl"] if how == "module" else [
                sys.executable, "-c", "import sys; from pddl.__main__ import cli; sys.exit(cli())"
            ]
            e = dict(os.environ, PYTHONPATH=env.REPO, PYTHONDONTWRITEBYTECODE="1")
            with open(out, "wb") as o, open(err, "wb") as r:
                code = subprocess.run(cmd + args, cwd=root, env=e, stdin=subprocess.DEVNULL, stdout=o, stderr=r, timeout=60).returncode
        with open(out, "rb") as fh:
            stdout = fh.read().decode("utf-8", "replace")
        with open(err, "rb") as fh:
            stderr = fh.read().decode("utf-8", "replace")[-600:]
        after = tree(root)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    shown = "\n".join([f"args {args} ({how})"] + [f"{n} [{k}]:\n{t}" for n, k, t in files] + [f"stderr: {stderr}"])
    check(before == after_lib, "the parse functions modified the files", shown)
    check(before == after, "the tool modified the files", shown)
    good = all(ok for _s, ok, _t in said)
    texts = [t + "\n" for s, ok, t in said if ok and "check" not in s]
    last = said[-1][0]
    if good:
        check(code == 0, f"the library accepts the files, the tool exits with {code}", shown)
        want = "" if quiet else "".join(texts)
        check(stdout == want, "wrong output", shown, f"expected {want!r}", f"got {stdout!r}")
    else:
        check(code != 0, f"the library rejects the files ({last}), the tool exits with 0", shown)
        if last.endswith("check"):
            texts = texts[:-1]  # the document that does not pass the check
        allowed = [""] if quiet else ["".join(texts[:n]) for n in range(len(texts) + 1)]
        check(stdout in allowed, f"wrong output before a failure ({last})", shown, f"allowed {allowed!r}", f"got {stdout!r}")
    return len(paths) > 1 or not good, [
        how, "files %d" % len(paths), "quiet" if quiet else "loud", "good" if good else f"fails at {last}",
    ] + sorted({k for _n, k, _t in files})


# ------------------------------------------------------------------ generation


def spoil(d, kind, text, tokens):
    """A version of a text that is probably not valid."""
    k = d.i(0, 6)
    if k == 0:
        return "text", text[: d.i(0, max(0, len(text) - 1))]
    if k == 1:
        i = d.i(0, max(0, len(tokens) - 1))
        return "text", " ".join(tokens[:i] + tokens[i + 1 :])
    if k == 2:
        i = d.i(0, max(0, len(tokens)))
        return "text", " ".join(tokens[:i] + [d.pick(["(", ")", "x", "?x", "and", "-", "1", ";"])] + tokens[i:])
    if k == 3:
        return d.pick(["missing", "missing", "dir"]), ""
    if k == 4:
        return "bytes", text
    if k == 5:
        return "text", d.pick(["", "(", ")", "()", "garbage", "\x00", "(define)", "(define (domain d))", "; nothing\n"])
    return "text", text + d.pick([")", "(", " x", "\n(define (domain d))", "\x00"])


def g_case(d):
    dast, ctx = gen.gen_domain(d, small=True, structs=d.pick([1, 2, 0]))
    past = gen.gen_problem(d, ctx, dast, small=True)
    acts = [[s[1], s[2]] for s in dast["structs"] if s[0] == "action"]
    objs = [n for n, _ in (past["objects"] or []) + (dast["consts"] or [])]
    steps = []
    for _ in range(d.i(0, 3)):
        if acts:
            n, ps = d.pick(acts)
            if not ps or objs:
                # a repeated parameter counts once
                k = len({v for v, _ in ps})
                steps.append([n, [d.pick(objs) for _ in range(k)]])
    fail = d.pick(["plan check", "problem check", "plan", "problem", None, "domain", None, "any"])
    if fail == "problem check":
        k = d.i(0, 3)
        if k == 0:
            past = dict(past, domain=d.name())
        elif k == 1:
            past = dict(past, objects=[["oo1", "no-such-type"]] + (past["objects"] or []))
        elif k == 2:
            extra = [r for r in gen.ALL_REQS if r not in dast["reqs"]]
            past = dict(past, reqs=(past["reqs"] or []) + extra[:1])
        else:
            past = dict(past, domain=dast["name"].swapcase())
    if fail == "plan check":
        k = d.i(0, 2)
        if k == 0 or not steps:
            steps.insert(d.i(0, len(steps)), [d.name(), []])
        elif k == 1:
            d.pick(steps)[1].append(d.name())
        else:
            s = d.pick(steps)
            s[1][:] = [d.name() for _ in s[1]]
    n = d.pick([3, 3, 2, 3, 2, 1])
    lay = gen.gen_layout(d) if d.b(1, 2) else []
    files = []
    names = d.subset(NAMES, 3, 3)
    for i, (kind, ast) in enumerate((("domain", dast), ("problem", past), ("plan", steps))[:n]):
        text = render.text_of(kind, ast, lay)
        what = "text"
        if fail == kind or fail == "any" and d.b(1, 2):
            what, text = spoil(d, kind, text, render.tokens_of(kind, ast))
        files.append([names[i], what, text])
    opts = [None] * (n + 1)
    if d.b(1, 4):
        opts[d.i(0, n)] = d.pick(["-q", "--quiet"])
    absolute = d.b(1, 2)
    how = "fork" if d.b(11, 12) else d.pick(["module", "script"])
    return [files, opts, how, absolute]


PARTS = [Part("tool", gen.strategy(g_case), check_tool, 600)]

D_OK = render.text_of("domain", dom(act("a", [["x", ["t"]]], at("p", "?x"), None)))
D_BAD = D_OK[:-1]
P_OK = render.text_of("problem", prob())
P_OTHER = render.text_of("problem", prob(domain="other"))
P_BAD = P_OK + ")"
L_OK = "(a o1)\n(a o2)"
L_OTHER = "(a o1)\n(b o1)"
L_BAD = "(a o1"


def F(*texts):
    return [[f"f{i}.pddl", "text", t] for i, t in enumerate(texts)]


REGRESSIONS = [
    ("tool", [F(*ts), opts, how, False])
    for ts in (
        (D_OK,), (D_BAD,), (D_OK, P_OK), (D_OK, P_OTHER), (D_OK, P_BAD), (D_BAD, P_OK), (D_OK, P_OK, L_OK), (D_OK, P_OK, ""),
        (D_OK, P_OK, L_OTHER), (D_OK, P_OK, L_BAD), (D_OK, P_OTHER, L_OK), (D_OK, P_BAD, L_OK), (D_BAD, P_OK, L_OK),
    )
    for opts in ([None] * 4, ["-q"] + [None] * 3)
    for how in ("fork", "module")
]
