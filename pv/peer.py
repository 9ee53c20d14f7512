"""A child process with another hash seed, used by the checks about processes."""

import atexit
import base64
import json
import os
import pickle
import subprocess
import sys

from . import env

_PEERS = {}


class PeerError(Exception):
    """The peer reported an error of the library (the text says which)."""


class Peer:
    def __init__(self, hashseed):
        e = dict(os.environ)
        e["PYTHONHASHSEED"] = str(hashseed)
        self.p = subprocess.Popen(
            [sys.executable, "-m", "pv.peer"], cwd=env.VERIF, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE
        )

    def ask(self, *request):
        self.p.stdin.write(json.dumps(request).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("peer process ended")
        ok, value = json.loads(line)
        if not ok:
            raise PeerError(value)
        return value

    def stop(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:  # noqa
            self.p.kill()


def peer():
    """The peer of this process."""
    if "p" not in _PEERS:
        mine = int(os.environ.get("PYTHONHASHSEED", "0") or 0) if os.environ.get("PYTHONHASHSEED") != "random" else 1
        _PEERS["p"] = Peer((mine * 31 + 12345) % 4294967295)
        atexit.register(_PEERS["p"].stop)
    return _PEERS["p"]


def b64(data):
    return base64.b64encode(data).decode()


def unb64(text):
    return base64.b64decode(text)


def make(kind, ast, via="build"):
    """Build an object of a kind from its (resolved, if a tree) AST."""
    from . import build, core, model, render

    if via == "parse":
        return core.parse(kind, render.text_of(kind, ast))
    if kind == "domain":
        return build.domain(model.resolve_domain(ast))
    if kind == "problem":
        return build.problem(model.resolve_problem(ast))
    if kind == "plan":
        return build.plan(ast)
    if kind == "tree":
        return build.tree(ast)
    if kind == "term":
        return build.term(ast)
    if kind == "struct":
        return build.struct(ast)
    raise AssertionError(kind)


def same_hash(x, y):
    """Equal objects hash alike (or neither can be hashed)."""
    try:
        hx = hash(x)
    except TypeError:
        hx = None
    try:
        hy = hash(y)
    except TypeError:
        hy = None
    return hx == hy


def compare_loaded(y, x):
    """Faults of y, an unpickled object, compared with x built here."""
    out = []
    if not (y == x and x == y):
        out.append("the loaded object differs from a fresh one")
    if str(y) != str(x):
        out.append(f"the loaded object prints {y!s} instead of {x!s}")
    if not same_hash(x, y):
        out.append("the loaded object hashes differently")
    else:
        try:
            hash(x)
            if y not in {x} or x not in {y} or len({x, y}) != 1 or {x: 1}.get(y) != 1:
                out.append("the loaded object is not found in a set or dictionary")
        except TypeError:
            pass
    return out


def serve(request):
    op = request[0]
    if op == "text":
        return str(make(*request[1:]))
    if op == "dump":
        _, kind, ast, via, protocol, prehash = request
        x = make(kind, ast, via)
        if prehash:
            touch(x)
        return b64(pickle.dumps(x, protocol))
    if op == "load":
        _, kind, ast, via, data = request
        y = pickle.loads(unb64(data))
        before = str(y)
        out = compare_loaded(y, make(kind, ast, via))
        if str(y) != before:
            out.append(f"the loaded object prints {before!r}, then {y!s}")
        return out
    raise AssertionError(op)


def touch(x):
    """Compute hashes as deep as possible."""
    try:
        hash(x)
    except TypeError:
        pass
    for attr in ("actions", "derived_predicates", "init", "objects", "constants", "predicates", "functions"):
        for y in getattr(x, attr, ()) or ():
            try:
                hash(y)
            except TypeError:
                pass
    for attr in ("goal", "metric", "precondition", "effect", "condition"):
        try:
            hash(getattr(x, attr, None))
        except TypeError:
            pass


def warm_up():
    """Give this process a history of its own: objects that the other one has not made, or in another order."""
    from . import build
    from .core import parse

    for ts in (["t", "u"], ["warm"], ["u"], ["warm", "t"], [], ["t"]):
        for n in ("x", "y", "warm"):
            hash(build.term(["v", n, ts]))
            hash(build.term(["c", n, ts[:1]]))
    text = (
        "(define (domain warm) (:requirements :adl :fluents) (:types warm t - u) (:constants y - t x - warm) "
        "(:predicates (q ?w - warm) (p ?y - t)) (:functions (g) (f ?y - t)) "
        "(:action w :parameters (?y - t) :precondition (and (p ?y) (> (f ?y) 2)) :effect (q x)))"
    )
    d = parse("domain", text)
    touch(d)
    touch(parse("problem", "(define (problem w) (:domain warm) (:objects a - warm) (:init (p y) (= (g) 1.0)) (:goal (q a)))"))
    parse("plan", "(w y)")


def main():
    from .core import short_tb

    warm_up()
    for line in sys.stdin.buffer:
        try:
            reply = [True, serve(json.loads(line))]
        except Exception as e:  # noqa
            reply = [False, short_tb(e)]
        sys.stdout.write(json.dumps(reply) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
