#!/usr/bin/env python3
"""Author's tool (no check uses it): mutation analysis of the machinery.

usage: mutants.py OUT.jsonl [--jobs 8] [--sample N] [--rng N] [--only FILE,FILE]
Every mutant of the sources (one small change each) runs, in scratch copies under /tmp/mt, one worker of each
property's quick campaign until one reports it; a mutant nothing reports goes through the test suite. What
survives both is either equivalent or a gap, and is printed for reading.
"""
import argparse
import ast
import copy
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
FILES = [
    "pddl/_validation.py", "pddl/action.py", "pddl/core.py", "pddl/custom_types.py", "pddl/formatter.py",
    "pddl/requirements.py", "pddl/helpers/base.py", "pddl/helpers/cache_hash.py", "pddl/logic/base.py",
    "pddl/logic/effects.py", "pddl/logic/functions.py", "pddl/logic/predicates.py", "pddl/logic/terms.py",
    "pddl/parser/_update_type_tags.py", "pddl/parser/base.py", "pddl/parser/domain.py", "pddl/parser/plan.py",
    "pddl/parser/problem.py", "pddl/parser/symbols.py", "pddl/parser/typed_list_parser.py", "pddl/__main__.py",
    "pddl/__init__.py",
]
ORDER = [
    "C01", "C02", "C03", "C04", "C13", "C14", "C11", "C08", "C09", "C10", "C16", "C24", "C20", "C21", "C22", "C05", "C15", "C30", "C29",
    "C25", "C26", "C28", "C27", "C07", "C12", "C23", "C18", "C06", "C19", "C17",
]
SWAP = {
    ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt],
    ast.GtE: [ast.Gt, ast.LtE], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
}
UNWRAP = {"sorted", "reversed", "list", "set", "frozenset", "tuple", "dict", "ensure_set", "str", "parse_name", "parse_type", "map",
          "check_no_duplicates", "to_type", "to_types", "ensure", "repr", "update_type_tags"}
PAIRS = {"left": "right", "right": "left", "keys": "values", "values": "keys", "issuperset": "issubset", "name": None}


def is_doc(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)


def mutations(tree):
    """Yield (line, what, function that changes a deep copy's node)."""
    nodes = list(ast.walk(tree))
    parents = {}
    for p in nodes:
        for c in ast.iter_child_nodes(p):
            parents[c] = p
    for i, n in enumerate(nodes):
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for new in SWAP.get(type(op), []):
                    yield line, f"{type(op).__name__}->{new.__name__}", i, lambda m, j=j, new=new: m.ops.__setitem__(j, new())
        elif isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield line, "and<->or", i, lambda m, new=new: setattr(m, "op", new())
            for j in range(len(n.values)):
                yield line, f"drop operand {j}", i, lambda m, j=j: m.values.pop(j)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield line, "drop not", i, lambda m: (setattr(m, "op", ast.Not()), setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield line, "condition false", i, lambda m: setattr(m, "test", ast.Constant(False))
            if not isinstance(n, ast.While):
                yield line, "condition true", i, lambda m: setattr(m, "test", ast.Constant(True))
        elif isinstance(n, ast.Constant):
            p = parents.get(n)
            if isinstance(n.value, bool):
                yield line, "flip bool", i, lambda m: setattr(m, "value", not m.value)
            elif isinstance(n.value, int):
                yield line, "+1", i, lambda m: setattr(m, "value", m.value + 1)
                if n.value > 0:
                    yield line, "-1", i, lambda m: setattr(m, "value", m.value - 1)
            elif isinstance(n.value, str) and not isinstance(p, (ast.Expr, ast.JoinedStr, ast.FormattedValue)) and len(n.value) < 25:
                call = p
                if not (isinstance(call, ast.Call) and "rror" in ast.unparse(call.func)):
                    yield line, f"string {n.value!r}", i, lambda m: setattr(m, "value", m.value + "x" if m.value.strip() else "")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in UNWRAP and n.args:
                yield line, f"unwrap {f.id}", i, ("replace", lambda m: m.args[-1])
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                yield line, "swap arguments", i, lambda m: m.args.reverse()
            for j, k in enumerate(n.keywords):
                yield line, f"drop keyword {k.arg}", i, lambda m, j=j: m.keywords.pop(j)
            if isinstance(f, ast.Attribute) and f.attr in ("lower", "strip", "union", "copy", "difference"):
                yield line, f"drop .{f.attr}()", i, ("replace", lambda m: m.func.value)
        elif isinstance(n, ast.Attribute) and PAIRS.get(n.attr):
            yield line, f"{n.attr}->{PAIRS[n.attr]}", i, lambda m: setattr(m, "attr", PAIRS[m.attr])
        elif isinstance(n, ast.Set) and len(n.elts) > 1:
            for j in range(len(n.elts)):
                yield line, f"drop element {j}", i, lambda m, j=j: m.elts.pop(j)
        elif isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
            for j in range(len(n.elts)):
                yield line, f"drop element {j}", i, lambda m, j=j: m.elts.pop(j)
        elif isinstance(n, ast.BinOp):
            for new in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr]}.get(type(n.op), []):
                yield line, "operator", i, lambda m, new=new: setattr(m, "op", new())
            yield line, "left only", i, ("replace", lambda m: m.left)
            yield line, "right only", i, ("replace", lambda m: m.right)
        if isinstance(n, (ast.Raise, ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.For, ast.Delete)) and not is_doc(n):
            if not isinstance(parents.get(n), ast.Module):
                yield line, f"delete {type(n).__name__}", i, ("replace", lambda m: ast.Pass())
        if isinstance(n, ast.If) and n.orelse:
            yield line, "drop else", i, lambda m: setattr(m, "orelse", [])
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            yield line, "return None", i, lambda m: setattr(m, "value", ast.Constant(None))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.decorator_list:
            for j, dec in enumerate(n.decorator_list):
                if "property" not in ast.unparse(dec) and "abstract" not in ast.unparse(dec):
                    yield line, f"drop decorator {ast.unparse(dec)[:30]}", i, lambda m, j=j: m.decorator_list.pop(j)


class Replace(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        if node is self.target:
            return self.new
        return self.generic_visit(node)


def python_mutants(path, text):
    tree = ast.parse(text)
    seen = {ast.unparse(tree)}
    for line, what, i, f in list(mutations(tree)):
        t = copy.deepcopy(tree)
        node = list(ast.walk(t))[i]
        try:
            if isinstance(f, tuple):
                t = Replace(node, f[1](node)).visit(t)
            else:
                f(node)
            out = ast.unparse(ast.fix_missing_locations(t))
        except Exception:
            continue
        if out in seen:
            continue
        seen.add(out)
        yield {"file": path, "line": line, "what": what, "source": text.splitlines()[line - 1].strip() if line else "", "text": out}


def grammar_mutants(path, text):
    lines = text.splitlines()
    for n, l in enumerate(lines):
        if l.startswith("//") or not l.strip() or l.startswith("%"):
            continue
        for m in re.finditer(r"[*+?](?=[\s)|]|$)", l):
            for new in "*+?":
                if new != m.group() and m.start() > 0 and l[m.start() - 1] not in '"':
                    yield {"file": path, "line": n + 1, "what": f"{m.group()} -> {new}", "source": l.strip(),
                           "text": "\n".join(lines[:n] + [l[: m.start()] + new + l[m.end():]] + lines[n + 1:]) + "\n"}
        for m in re.finditer(r"[*+?](?=[\s)|]|$)", l):
            if m.start() > 0 and l[m.start() - 1] not in '"':
                yield {"file": path, "line": n + 1, "what": f"drop {m.group()}", "source": l.strip(),
                       "text": "\n".join(lines[:n] + [l[: m.start()] + l[m.end():]] + lines[n + 1:]) + "\n"}
        if l.lstrip().startswith("|"):
            yield {"file": path, "line": n + 1, "what": "drop alternative", "source": l.strip(), "text": "\n".join(lines[:n] + lines[n + 1:]) + "\n"}
        elif "|" in l and ":" in l:
            head, body = l.split(":", 1)
            alts = body.split("|")
            for j in range(len(alts)):
                b = "|".join(alts[:j] + alts[j + 1:])
                yield {"file": path, "line": n + 1, "what": f"drop alternative {j}", "source": l.strip(),
                       "text": "\n".join(lines[:n] + [head + ":" + b] + lines[n + 1:]) + "\n"}


def run(cmd, cwd, env, timeout):
    e = dict(os.environ, **env)
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return "timeout", ""


def judge(m, slot):
    repo, verif = f"/tmp/mt/r{slot}", f"/tmp/mt/v{slot}"
    target = f"{repo}/{m['file']}"
    original = open(f"{REPO}/{m['file']}", newline="").read()
    open(target, "w").write(m["text"])
    try:
        env = {"PV_REPO": repo, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1", "TMPDIR": f"/tmp/mt/t{slot}",
               "HYPOTHESIS_STORAGE_DIRECTORY": f"/tmp/mt/t{slot}/hyp"}
        rc, out = run([PY, "-c", "import pddl, pddl.parser.domain as d, pddl.parser.problem as p; d.DomainParser(); p.ProblemParser()"],
                      repo, {"PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1"}, 60)
        if rc != 0:
            return "does not load", None
        quick = m.get("props") or ORDER
        for prop in quick:
            o = f"/tmp/mt/t{slot}/out"
            if os.path.exists(o):
                os.remove(o)
            rc, out = run([sys.executable, "-m", "pv.worker", prop, "quick", "1", str(slot % 8), "8", o], verif, env, 600)
            if not os.path.exists(o):
                return "check broke", f"{prop}: rc={rc} {out[-1500:]}"
            if json.load(open(o))["failed"]:
                return "reported", prop
        rc, out = run([PY, "-m", "pytest", "-q", "-x", "--doctest-modules", "pddl", "tests", "-p", "no:cacheprovider", "-p", "no:randomly", "--timeout=120", "-o", "log_cli=0",
                       "--deselect", "tests/test_docs"], repo, {"PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}, 1500)
        failed = [l for l in out.splitlines() if l.startswith(("FAILED", "ERROR"))]
        if failed:
            return "tests only", failed[0][:200]
        return "SURVIVED", None
    finally:
        open(target, "w", newline="").write(original)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--rng", type=int, default=0)
    ap.add_argument("--only", default="")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    files = a.only.split(",") if a.only else FILES + ["pddl/parser/grammar.lark"]
    ms = []
    for f in files:
        text = open(f"{REPO}/{f}").read()
        ms += list(grammar_mutants(f, text) if f.endswith(".lark") else python_mutants(f, text))
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["what"], r["source"]))
    random.Random(a.rng).shuffle(ms)
    ms = [m for m in ms if (m["file"], m["line"], m["what"], m["source"]) not in done]
    if a.sample:
        ms = ms[: a.sample]
    print(len(ms), "mutants", flush=True)
    if a.list:
        for m in ms:
            print(m["file"], m["line"], m["what"], "::", m["source"][:100])
        return
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()

    def work(slot):
        for p in (f"/tmp/mt/r{slot}", f"/tmp/mt/v{slot}", f"/tmp/mt/t{slot}"):
            shutil.rmtree(p, ignore_errors=True)
        os.makedirs(f"/tmp/mt/t{slot}")
        subprocess.run(["cp", "-a", REPO, f"/tmp/mt/r{slot}"], check=True)
        os.makedirs(f"/tmp/mt/v{slot}")
        subprocess.run(["cp", "-a", f"{VERIF}/pv", f"/tmp/mt/v{slot}/pv"], check=True)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            try:
                res, info = judge(m, slot)
            except Exception as e:
                res, info = "tool error", repr(e)
            r = {k: m[k] for k in ("file", "line", "what", "source")}
            r.update(result=res, info=info)
            with lock:
                with open(a.out, "a") as fh:
                    fh.write(json.dumps(r) + "\n")
                if res not in ("reported", "does not load"):
                    print(res, m["file"], m["line"], m["what"], "::", m["source"][:110], "::", (info or "")[:300], flush=True)
        for p in (f"/tmp/mt/r{slot}", f"/tmp/mt/v{slot}", f"/tmp/mt/t{slot}"):
            shutil.rmtree(p, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
