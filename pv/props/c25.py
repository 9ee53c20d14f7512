"""C25: ordering of terms, atoms and requirements is a strict total order."""

import itertools

from .. import build, gen
from ..core import check, lib
from ..harness import Part

RULE = (
    "A case is a pool of 3-9 terms, predicates, numeric functions, numeric values or requirements with close "
    "descriptions (shared names, prefixes, permuted or partly equal arguments and types, int and float values) and "
    "permutations of it. Exactly one of <, ==, > for every pair, agreement of <=, >=, !=, min, max, transitivity over "
    "all triples, and the same sorted sequence from every permutation. Non-trivial: the pool has three elements or "
    "more that are pairwise different."
)
ASSUMPTIONS = ["within a case, a constant name has one type", "no NaN values"]

TYPES = ["t", "u", "w", "T", "t-"]


def make(kind, d):
    if kind == "term":
        return build.term(d)
    if kind == "requirement":
        return build.reqs([d])[0]
    return build.tree(d)


def check_order(case):
    kind, pool, perms = case
    xs = [make(kind, d) for d in pool]
    n = len(xs)
    lt = [[None] * n for _ in range(n)]
    for i, j in itertools.product(range(n), repeat=2):
        x, y = xs[i], xs[j]
        a, b, e = (lib("comparing", f) for f in (lambda: x < y, lambda: x > y, lambda: x == y))
        le, ge, ne = (lib("comparing", f) for f in (lambda: x <= y, lambda: x >= y, lambda: x != y))
        back = lib("comparing", lambda: y < x)
        shown = (repr(pool[i]), repr(pool[j]), f"< {a}, > {b}, == {e}, <= {le}, >= {ge}, reversed < {back}")
        check(all(type(v) is bool for v in (a, b, e, le, ge, ne, back)), "a comparison gives no truth value", *shown)
        check(a + b + e == 1, "not exactly one of <, ==, > holds", *shown)
        check(b == back, "x > y and y < x disagree", *shown)
        check(le == (a or e) and ge == (b or e) and ne == (not e), "<=, >= or != disagree with < and ==", *shown)
        lt[i][j] = a
        if kind == "value":
            v, w = x.value, y.value
            check(a == (v < w), "values are not ordered as their numbers", *shown)
    for i, j, k in itertools.product(range(n), repeat=3):
        if lt[i][j] and lt[j][k]:
            check(lt[i][k], "< is not transitive", repr(pool[i]), repr(pool[j]), repr(pool[k]))
    first = None
    for p in [list(range(n)), list(reversed(range(n)))] + perms:
        s = lib("sorting", sorted, [xs[i] for i in p])
        r = lib("sorting", lambda: sorted([xs[i] for i in p], reverse=True))
        check(all(x == y for x, y in zip(s, reversed(r))), "sorting in reverse gives another order", str(s), str(r))
        if first is None:
            first = s
        check(len(s) == n and all(x == y for x, y in zip(s, first)), "the sorted sequence depends on the initial order", str(first), str(s))
        check(n == 0 or min(xs) == s[0] and max(xs) == s[-1], "min or max disagrees with sorting", str(s))
    for i, j in zip(range(n), range(1, n)):
        check(not first[j] < first[i], "the sorted sequence is not sorted", str(first))
    distinct = sum(all(not (xs[i] == xs[j]) for j in range(i)) for i in range(n))
    return distinct >= 3, [kind]


def g_term(d, names, ctypes):
    n = d.pick(names)
    if d.b(1, 2):
        return ["c", n, ctypes[n]]
    return ["v", n, d.subset(TYPES, 0, 3)]


def one_type_each(terms):
    """A variable may not occur with two types in one predicate."""
    seen = {}
    return [t if t[0] == "c" else ["v", t[1], seen.setdefault(t[1], t[2])] for t in terms]


def g_case(d):
    kind = d.pick(["term", "pred", "function", "value", "requirement"])
    names = d.pick([["a", "b"], ["a", "A", "a-", "a1", "a_"], ["x", "xy", "x-y", "xz", "y"], d.names(4)])
    ctypes = {n: d.subset(TYPES, 0, 1) for n in names}
    pool = []
    for _ in range(d.pick([5, 4, 3, 7, 9, 5, d.i(10, 24)])):
        if kind == "term":
            pool.append(g_term(d, names, ctypes))
        elif kind == "requirement":
            pool.append(d.pick(gen.ALL_REQS + ["object-fluents"]))
        elif kind == "value":
            pool.append(["num", g_value(d)])
        else:
            if pool and d.b(1, 2):
                base = list(d.pick(pool)[2])
                k = d.i(0, 3)
                if k == 0:
                    base = base[::-1]
                elif k == 1 and base:
                    base = base[:-1]
                elif k == 2 and base:
                    base[d.i(0, len(base) - 1)] = g_term(d, names, ctypes)
                else:
                    base = base + [g_term(d, names, ctypes)]
            else:
                base = [g_term(d, names, ctypes) for _ in range(d.i(0, 7 if d.b(1, 8) else 3))]
            f = "atom" if kind == "pred" else "fn"
            pool.append([f, d.pick(names), one_type_each(base) if kind == "pred" else base])
    perms = [d.shuffled(range(len(pool))) for _ in range(2)]
    return [kind, pool, perms]


def g_value(d):
    k = d.i(0, 3)
    if k == 0:
        return d.i(-3, 3)
    if k == 1:
        return float(d.i(-3, 3)) / 2
    if k == 2:
        return d.pick([2**53, 2**53 + 1, float(2**53), 10**20, 1e20, 1e-9, 0.1, 10, 9, 100, 1e300, -1e300, 10**310])
    return d.pick([0, 0.0, -0.0, 1, 1.0, True + 1])


PARTS = [Part("order", gen.strategy(g_case), check_order, 16000)]
REGRESSIONS = [
    ("order", ["requirement", gen.ALL_REQS, []]),
    ("order", ["requirement", ["adl", "adl"], [[1, 0]]]),
    ("order", ["term", [["v", "a", []], ["c", "a", []], ["v", "a", ["t"]], ["v", "a", ["t", "u"]], ["v", "b", []]], [[4, 2, 0, 1, 3]]]),
    ("order", ["pred", [["atom", "a", []], ["atom", "a", [["c", "b", []]]], ["atom", "a", [["v", "b", []]]], ["atom", "b", []]], [[2, 0, 1, 3]]]),
    ("order", ["value", [["num", 1], ["num", 1.0], ["num", 2], ["num", 1.5]], [[3, 2, 1, 0]]]),
]
