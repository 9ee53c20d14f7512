"""C12: copies and pickles are faithful, in any process."""

import copy
import pickle

from .. import gen, model
from ..core import Violation, check, lib
from ..harness import Part
from ..peer import PeerError, b64, compare_loaded, make, peer, touch, unb64
from .c11 import SCOPE, g_ctx, g_tree

RULE = (
    "A case is an object description (term, formula, effect, function, metric, action, derived predicate, domain, "
    "problem or plan, built or parsed), whether hashes are computed first, and a pickle protocol. copy, deepcopy, "
    "pickling here and in a process with another hash seed (both directions) must give an object that equals, prints "
    "like, hashes like and is found in sets with a freshly built one; the original stays intact. "
    "Non-trivial: documents with an action, derived predicate or fact, or trees of depth 3 or more, with hashes "
    "computed before."
)
ASSUMPTIONS = ["both processes run the same version of the library"]


def check_copy(case):
    kind, ast, via, protocol, prehash = case
    x = lib("building", make, kind, ast, via)
    twin = lib("building", make, kind, ast, via)
    text = str(twin)
    if prehash:
        touch(x)
    h = None
    if prehash:
        try:
            h = hash(x)
        except TypeError:
            pass

    def faults(what, y):
        f = compare_loaded(y, twin) + compare_loaded(y, x)
        check(not f, f"{what}: {f}", text)
        check(type(y) is type(x), f"{what}: another type")
        check(str(x) == text and x == twin, f"{what}: the original changed", text, str(x))
        if h is not None:
            check(hash(x) == h, f"{what}: the hash of the original changed", text)

    faults("copy", lib("copy", copy.copy, x))
    faults("deepcopy", lib("deepcopy", copy.deepcopy, x))
    data = lib("pickling", pickle.dumps, x, protocol)
    faults("pickle", lib("unpickling", pickle.loads, data))
    both = lib("pickling a list", lambda: pickle.loads(pickle.dumps([x, {"k": x}, (x, twin)], protocol)))
    faults("pickle in a list", both[0])
    faults("pickle in a dictionary", both[1]["k"])
    try:
        f = peer().ask("load", kind, ast, via, b64(data))
        check(not f, f"pickle read by another process: {f}", text)
        data2 = unb64(peer().ask("dump", kind, ast, via, protocol, prehash))
    except PeerError as e:
        raise Violation(f"failure in another process: {e}\n{text}") from None
    faults("pickle from another process", lib("unpickling", pickle.loads, data2))
    if kind in ("domain", "problem"):
        nt = bool(ast["structs"] if kind == "domain" else ast["init"])
    else:
        nt = model.depth(ast) > 3
    return nt and prehash, [kind if kind != "tree" else ast[0], via, "protocol %d" % protocol]


def g_case(d):
    k = d.i(0, 9)
    via = d.pick(["build", "parse"])
    if k <= 2:
        ast = gen.gen_domain(d, small=True, twins=True)[0]
        kind = "domain"
    elif k <= 4:
        kind, ast = "problem", gen.gen_problem(d, small=True)
    elif k == 5:
        kind, ast = "plan", gen.gen_plan(d)
    else:
        via = "build"
        ctx = g_ctx(d)
        if k == 6:
            kind = "term"
            t = d.pick(["v", "c"])
            ast = [t, d.name(), sorted(d.subset(["t", "u"], 0, 2 if t == "v" else 1))]
        elif k == 7:
            kind = "struct"
            ast = model.resolve_struct(gen.gen_action(d, ctx, d.name(), small=True), {}, {})
        elif k == 8:
            names = d.subset(sorted(SCOPE), 0, 3)
            kind = "struct"
            ast = ["derived", d.name(), [[n, SCOPE[n]] for n in names], model.resolve(gen.gen_gd(d, ctx, names, 2), SCOPE, {})]
        else:
            kind, ast = "tree", g_tree(d, ctx)
    return [kind, ast, via, d.i(0, 5), d.b(2, 3)]


PARTS = [Part("copies", gen.strategy(g_case), check_copy, 9000)]
REGRESSIONS = [
    ("copies", ["term", ["v", "x", ["t", "u"]], "build", 2, True]),
    ("copies", ["tree", ["num", "1.5"], "build", 0, True]),
]
