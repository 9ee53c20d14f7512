"""Small random edits of resolved trees and of documents (driven by a gen.D)."""

import copy


def nodes(f, out=None):
    """All nested lists of a JSON value (paths are by identity)."""
    if out is None:
        out = []
    if isinstance(f, list):
        out.append(f)
        for x in f:
            nodes(x, out)
    return out


CMPS = ["=", "<", "<=", ">", ">="]
NEFFS = ["assign", "scale-up", "scale-down", "increase", "decrease"]
NUMS = ["0", "1", "2", "1.0", "2.50", "0.5", "10"]
TYPES = ["t", "u", "w"]


# number of items of the nodes (parameters are pairs whose first item may be any name)
LEN = {"metric": 3, "action": 5, "derived": 4, "atom": 3, "fn": 3, "eq": 3, "cmp": 4, "neff": 4, "op": 3, "num": 2, "when": 3}


def is_term(n):
    return len(n) == 3 and n[0] in ("v", "c") and isinstance(n[1], str) and isinstance(n[2], list)


def mutate_tree(d, f, names):
    """A changed copy of a resolved tree (may be equal to the original)."""
    f = copy.deepcopy(f)
    ns = [n for n in nodes(f) if n and isinstance(n[0], str) and LEN.get(n[0]) in (None, len(n))]
    ns = [n for n in ns if not (n[0] == "num" and isinstance(n[1], list))]  # a parameter called num
    n = d.pick(ns)
    k = n[0]
    if is_term(n):
        m = d.i(0, 3)
        if m == 0:
            n[1] = d.pick(names)
        elif m == 1 and k == "v":
            n[2] = sorted(d.subset(TYPES, 0, 2))
        elif m == 2:
            n[0] = "c" if k == "v" else "v"
            n[2] = n[2][:1]
        elif k == "c":
            n[2] = d.subset(TYPES, 0, 1)
    elif k in ("atom", "fn") and len(n) == 3:
        m = d.i(0, 3)
        if m == 0:
            n[1] = d.pick(names)
        elif m == 1 and n[2]:
            n[2].pop(d.i(0, len(n[2]) - 1))
        elif m == 2 and len(n[2]) > 1:
            n[2].reverse()
        else:
            n[2].append(["c", d.pick(names), []])
    elif k == "eq":
        n[1], n[2] = n[2], n[1]
    elif k in ("cmp", "neff"):
        if d.b(1, 2):
            n[1] = d.pick(CMPS if k == "cmp" else NEFFS)
        elif k == "cmp":
            n[2], n[3] = n[3], n[2]
        else:
            n[3] = ["num", d.pick(NUMS)]
    elif k == "num" and len(n) == 2:
        n[1] = d.pick(NUMS)
    elif k == "op":
        m = d.i(0, 2)
        if m == 0:
            n[2].reverse()
        elif m == 1 and n[1] in "+*-/" and len(n[2]) == 2:
            n[1] = d.pick(["+", "-", "*", "/"])
        elif n[1] in "+*":
            n[2].append(copy.deepcopy(d.pick(n[2])))
    elif k in ("and", "or", "oneof"):
        m = d.i(0, 4)
        if m == 0 and k != "oneof":
            n[0] = "or" if k == "and" else "and"
        elif m == 1 and len(n[1]) > (1 if k == "oneof" else 0):
            n[1].pop(d.i(0, len(n[1]) - 1))
        elif m == 2:
            n[1].reverse()
        elif m == 3 and n[1]:
            n[1].append(copy.deepcopy(d.pick(n[1])))
        elif n[1]:
            n[1].insert(0, n[1].pop())
    elif k == "imply":
        n[1], n[2] = n[2], n[1]
    elif k in ("exists", "forall", "eforall"):
        m = d.i(0, 3)
        if m == 0 and k != "eforall":
            n[0] = "exists" if k == "forall" else "forall"
        elif m == 1 and n[1]:
            n[1].pop()
        elif m == 2 and n[1]:
            p = d.pick(n[1])
            p[1] = sorted(d.subset(TYPES, 0, 2))
        else:
            nm = d.pick(names)
            if nm not in [x for x, _ in n[1]]:
                n[1].append([nm, []])
    elif k == "not" and n[1] and n[1][0] not in ("atom",):
        n[:] = n[1]
    elif k == "metric":
        n[1] = "maximize" if n[1] == "minimize" else "minimize"
    elif k == "action":
        m = d.i(0, 3)
        if m == 0:
            n[1] = d.pick(names)
        elif m == 1 and len(n[2]) > 1:
            n[2].reverse()
        elif m == 2:
            n[3] = None
        else:
            n[4] = None
    elif k == "derived":
        n[1] = d.pick(names)
    return f
