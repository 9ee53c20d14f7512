"""Hypothesis strategies producing JSON-able ASTs of the supported PDDL subset."""

from functools import lru_cache

from . import env  # noqa: F401
from . import model as M

from hypothesis import strategies as st

# Legal names, many of them close to keywords or to each other.
NAMES = [
    "a", "b", "c", "x", "y", "z", "p", "q", "r", "t", "u", "f", "g",
    "A", "X", "aB", "a1", "b-2", "c_3", "x-y", "x_y", "a-", "b_", "at", "on", "loc",
    "number", "numbers", "andy", "order", "or-else", "nothing", "not-p", "implying",
    "existsX", "forall-x", "when_", "whenever", "either1", "oneofus", "objects",
    "object-1", "object_", "domains", "domain-x", "problems", "problem1", "define-me",
    "definer", "assigned", "scale-upper", "scale-down1", "increaser", "decrease-it",
    "maximizer", "minimize-it", "total-costs", "total-cost-1", "total", "cost",
    "typing", "strips", "adl", "equality", "init", "goal", "metric", "action",
    "effect", "precondition", "parameters", "predicates", "types", "constants",
    "functions", "requirements", "derived", "v0", "v1", "v2", "n", "e", "e1", "E5",
    "i", "inf", "nan", "None", "self", "name", "true", "false", "q-1-2_3", "zz--__zz",
    "longer-name-with-many-characters_0123456789-abcdefghijklmnopqrstuvwxyz",
    "AND", "Not", "Object", "OBJECT", "FORALL", "Either", "Total-Cost", "Define",
]
NUMBERS = [
    "0", "1", "2", "3", "10", "007", "42", "100000", "0.0", "1.0", "0.5", "2.50",
    "3.14159", "0.00001", "0.000000000123", "100000000000000000000.0",
    "123456789012345678901234567890", "99999999999999999", "1234567.125", "00.5", "5.0",
    "12345678901234567890.0",
]
# rare ones: very long, at the ends of the range of a double, many digits after the point
HUGE = [
    "1" + "0" * 330, "9" * 61, "0." + "0" * 330 + "1", "1" + "0" * 300 + ".0", "17976931348623157" + "0" * 292 + ".0",
    "0.12345678901234567890123", "9007199254740993", "9007199254740993.0", "4.9406564584124654", "0." + "0" * 307 + "22250738585072014",
    "0" * 40 + "1", "1." + "0" * 40 + "1", "3" * 400,
]
# what very long names end in
TAILS = [30, 63, 64, 65, 100, 127, 128, 255, 256, 300, 1023, 1100]

KEYWORDS = {
    "and", "define", "domain", "either", "exists", "forall", "imply", "not", "object",
    "oneof", "or", "problem", "when", "assign", "scale-up", "scale-down", "increase",
    "decrease", "maximize", "minimize", "total-cost",
}
RANDOM_NAMES = st.from_regex(r"[a-zA-Z][a-zA-Z0-9_-]{0,6}", fullmatch=True).filter(
    lambda s: s.lower() not in KEYWORDS
)


@lru_cache(None)
def ints(lo, hi):
    return st.integers(lo, hi)


# what a case may have unusually many of
BIG = ["types", "names", "preds", "structs", "params", "facts", "operands", "depth", "numbers"]


def recased(name):
    """The name in the other letter case, unless that is a keyword."""
    return name if name.swapcase() in KEYWORDS else name.swapcase()


class D:
    """Thin helper around Hypothesis' draw."""

    def __init__(self, draw):
        self.draw = draw
        self._limit = None
        self._cased = None
        self._big = None

    def big(self, what):
        """Whether this is one of the rare cases that have many of these."""
        if self._big is None:
            k = self.i(0, 5 * len(BIG))
            self._big = BIG[k - 4 * len(BIG) - 1] if k > 4 * len(BIG) else ""
        return self._big == what

    def limit(self):
        """How many of the names this case uses: a small pool makes them collide."""
        if self._limit is None:
            self._limit = self.pick([len(NAMES), 24, 12])
        return self._limit

    def cased(self):
        """Whether names that differ in letter case only are likely in this case."""
        if self._cased is None:
            self._cased = self.b(1, 6)
        return self._cased

    def one_name(self):
        k = self.i(0, self.limit())
        if self.big("names") and self.b(1, 12):
            return 0, NAMES[k % len(NAMES)] + "x" * self.pick(TAILS)
        if k < self.limit():
            return k, recased(NAMES[k]) if self.cased() and self.b(1, 3) else NAMES[k]
        return 0, self.draw(RANDOM_NAMES)

    def i(self, lo, hi):
        """Integer in lo..hi."""
        return lo if hi <= lo else self.draw(ints(lo, hi))

    def b(self, num=1, den=2):
        """True with probability about num/den (shrinks to False)."""
        return self.draw(ints(0, den - 1)) >= den - num

    def pick(self, seq):
        return seq[self.i(0, len(seq) - 1)]

    def names(self, n, avoid=()):
        """n distinct names."""
        out = []
        for _ in range(n):
            k, name = self.one_name()
            if out and self.cased() and self.b(1, 3):
                name = recased(self.pick(out))
            while name in out or name in avoid:
                k = (k + 1) % len(NAMES)
                name = NAMES[k]
            out.append(name)
        return out

    def name(self, avoid=()):
        return self.names(1, avoid)[0]

    def subset(self, seq, lo, hi):
        """Distinct elements, in drawn order."""
        pool = list(seq)
        out = []
        for _ in range(self.i(lo, min(hi, len(pool)))):
            out.append(pool.pop(self.i(0, len(pool) - 1)))
        return out

    def shuffled(self, seq):
        pool = list(seq)
        out = []
        while pool:
            out.append(pool.pop(self.i(0, len(pool) - 1)))
        return out


class Ctx:
    """What a formula may use."""

    def __init__(self):
        self.types = []  # usable type names
        self.consts = []
        self.preds = []  # [name, params]
        self.funcs = []  # [name, params]
        self.f = set()  # features
        self.total_cost = False
        self.max_depth = 4


FEATURES = ["typing", "neg", "disj", "exists", "forall", "eq", "cond", "nondet", "fluents", "cmp"]


def gen_type_list(d, types, lo=0):
    """Types of one variable."""
    if not types:
        return []
    k = d.i(0, 9)
    if k < (3 if lo == 0 else 0):
        return []
    if k < 8:
        return [d.pick(types)]
    return d.subset(types, 1, 9 if d.big("types") else 3)


def gen_params(d, ctx, lo, hi, avoid=(), names=None, free_order=False):
    """A typed variable list; untyped ones come last (unless free_order)."""
    if names is None:
        n = d.i(lo, hi)
        if n == hi and hi > 1 and d.b(1, 2 if d.big("params") else 6):
            n = d.i(hi, hi + (11 if d.big("params") else 4))
        names = d.names(n, avoid)
    n = len(names)
    out = []
    typed = n if "typing" in ctx.f and ctx.types else 0
    if typed and d.b(1, 4):
        typed = d.i(0, n)
    for k, nm in enumerate(names):
        if free_order and typed:
            out.append([nm, gen_type_list(d, ctx.types)])
        else:
            out.append([nm, gen_type_list(d, ctx.types, 1) if k < typed else []])
    return out


def gen_term(d, ctx, scope):
    """A term, or None if there is nothing to use."""
    n, m = len(scope), len(ctx.consts)
    if n + m == 0:
        return None
    k = d.i(0, n + m - 1)
    return ["v", scope[k]] if k < n else ["c", ctx.consts[k - n]]


def gen_atom(d, ctx, scope):
    usable = ctx.preds if (scope or ctx.consts) else [p for p in ctx.preds if not p[1]]
    if not usable:
        return ["and", []]
    n, ps = d.pick(usable)
    return ["atom", n, [gen_term(d, ctx, scope) for _ in ps]]


def gen_fn(d, ctx, scope):
    usable = ctx.funcs if (scope or ctx.consts) else [p for p in ctx.funcs if not p[1]]
    if not usable:
        return None
    n, ps = d.pick(usable)
    return ["fn", n, [gen_term(d, ctx, scope) for _ in ps]]


def numeral(d):
    return d.pick(HUGE) if d.b(1, 30) else d.pick(NUMBERS)


def gen_fexp(d, ctx, scope, depth):
    k = d.i(0, 5 if depth > 0 else 2)
    if k == 0:
        return ["num", numeral(d)]
    if k <= 2:
        return gen_fn(d, ctx, scope) or ["num", numeral(d)]
    op = d.pick(["+", "-", "*", "/"])
    if op == "-" and d.b(1, 3):
        n = 1
    elif op in "+*":
        n = d.i(2, 12 if d.big("numbers") and d.b(1, 3) else 4)
    else:
        n = 2
    args = [gen_fexp(d, ctx, scope, depth - 1) for _ in range(n)]
    if n == 2 and d.b(1, 4):
        args[1] = args[0]  # repeated operands
    return ["op", op, args]


def gen_gd(d, ctx, scope, depth):
    f = ctx.f
    kinds = ["atom", "atom"]
    if "eq" in f and (scope or ctx.consts):
        kinds.append("eq")
    if "cmp" in f:
        kinds.append("cmp")
    if depth > 0:
        kinds += ["and", "and"]
        if "neg" in f:
            kinds.append("not")
        if "disj" in f:
            kinds += ["or", "imply"]
        if "exists" in f:
            kinds.append("exists")
        if "forall" in f:
            kinds.append("forall")
    k = d.pick(kinds)
    if k == "atom":
        return gen_atom(d, ctx, scope)
    if k == "eq":
        return ["eq", gen_term(d, ctx, scope), gen_term(d, ctx, scope)]
    if k == "cmp":
        return [
            "cmp",
            d.pick(["=", "<", "<=", ">", ">="]),
            gen_fexp(d, ctx, scope, 5 if d.big("numbers") else 2),
            gen_fexp(d, ctx, scope, 2),
        ]
    if k == "not":
        return ["not", gen_gd(d, ctx, scope, depth - 1)]
    if k in ("and", "or"):
        n = d.pick([2, 3, 1, 0, 2, 4, 2, 3])
        if n == 4 and depth <= 2:
            n = d.i(4, 16 if d.big("operands") else 9)
        fs = [gen_gd(d, ctx, scope, depth - 1) for _ in range(n)]
        if n >= 2 and d.b(1, 6):
            fs[-1] = d.pick(fs)
        return [k, fs]
    if k == "imply":
        return ["imply", gen_gd(d, ctx, scope, depth - 1), gen_gd(d, ctx, scope, depth - 1)]
    ps = gen_quant(d, ctx, scope)
    return [k, ps, gen_gd(d, ctx, scope + [n for n, _ in ps if n not in scope], depth - 1)]


def gen_quant(d, ctx, scope):
    """Variables of a quantifier; they often shadow outer ones."""
    n = d.pick([1, 2, 1, 3, 0, 1])
    if d.big("params") and n == 3:
        n = d.i(3, 10)
    names = []
    for _ in range(n):
        if scope and d.b(1, 3):
            nm = d.pick(scope)
            if nm in names:
                continue
        else:
            nm = d.name(names)
        names.append(nm)
    ps = gen_params(d, ctx, 0, 0, names=names)
    if ps and d.b(1, 12):
        ps.append(list(ps[-1]))
    return ps


def gen_p_effect(d, ctx, scope):
    kinds = ["atom", "not"]
    if "fluents" in ctx.f or ctx.total_cost:
        kinds.append("neff")
    k = d.pick(kinds)
    a = gen_atom(d, ctx, scope)
    if k == "neff":
        fn = gen_fn(d, ctx, scope)
        if fn is not None:
            return [
                "neff",
                d.pick(["assign", "scale-up", "scale-down", "increase", "decrease"]),
                fn,
                gen_fexp(d, ctx, scope, 4 if d.big("numbers") else 2),
            ]
    if a[0] != "atom":
        return None
    return ["not", a] if k == "not" else a


def gen_and_effect(d, ctx, scope, one):
    n = d.pick([2, 1, 3, 0, 4, 2, 3, d.i(4, 16 if d.big("operands") else 9)])
    es = [e for e in (one() for _ in range(n)) if e is not None]
    return ["and", es]


def gen_cond_effect(d, ctx, scope):
    if d.b(1, 2):
        return gen_and_effect(d, ctx, scope, lambda: gen_p_effect(d, ctx, scope))
    return gen_p_effect(d, ctx, scope) or ["and", []]


def gen_c_effect(d, ctx, scope, depth):
    kinds = ["p", "p"]
    if "cond" in ctx.f:
        kinds.append("when")
        if depth > 0:
            kinds.append("eforall")
    if "nondet" in ctx.f and depth > 0:
        kinds.append("oneof")
    k = d.pick(kinds)
    if k == "p":
        return gen_p_effect(d, ctx, scope)
    if k == "when":
        return ["when", gen_gd(d, ctx, scope, 2), gen_cond_effect(d, ctx, scope)]
    if k == "eforall":
        ps = gen_quant(d, ctx, scope)
        return ["eforall", ps, gen_effect(d, ctx, scope + [n for n, _ in ps if n not in scope], depth - 1)]
    return ["oneof", [gen_effect(d, ctx, scope, depth - 1) for _ in range(d.i(1, 7 if d.big("operands") and depth < 2 else 3))]]


def gen_effect(d, ctx, scope, depth=2):
    if d.b(2, 3):
        return gen_and_effect(d, ctx, scope, lambda: gen_c_effect(d, ctx, scope, depth))
    return gen_c_effect(d, ctx, scope, depth) or ["and", []]


# ---------------------------------------------------------------- requirements

GRANTS = {
    "typing": ["typing", "adl"],
    "disj": ["disjunctive-preconditions", "adl"],
    "exists": ["existential-preconditions", "quantified-preconditions", "adl"],
    "forall": ["universal-preconditions", "quantified-preconditions", "adl"],
    "eq": ["equality", "adl"],
    "neg": ["negative-preconditions", "adl"],
    "cond": ["conditional-effects", "adl"],
    "nondet": ["non-deterministic"],
    "fluents": ["numeric-fluents", "fluents"],
    "costs": ["action-costs"],
    "derived": ["derived-predicates"],
}
ALL_REQS = [
    "strips", "typing", "negative-preconditions", "disjunctive-preconditions",
    "universal-preconditions", "existential-preconditions", "quantified-preconditions",
    "equality", "conditional-effects", "adl", "derived-predicates", "non-deterministic",
    "fluents", "numeric-fluents", "action-costs",
]


def formula_features(f, out):
    for n in M.walk(f):
        k = n[0]
        if k in ("or", "imply"):
            out.add("disj")
        elif k in ("exists", "forall"):
            out.add(k)
        elif k == "eq":
            out.add("eq")
        elif k == "not":
            out.add("neg")
        elif k in ("when", "eforall"):
            out.add("cond")
        elif k == "oneof":
            out.add("nondet")
        elif k == "neff":
            out.add("costs" if n[2][1] == "total-cost" else "fluents")
        elif k == "cmp":
            out.add("fluents")


def domain_features(dom):
    """Features of a domain AST (for its requirements)."""
    out = set()
    if any(p for _, p in dom["types"] or []) or M.used_types(dom):
        out.add("typing")
    for n, _, _ in dom["funcs"]:
        out.add("costs" if n == "total-cost" else "fluents")
    for s in dom["structs"]:
        if s[0] == "derived":
            out.add("derived")
        for f in s[3:]:
            if f is not None and f[0] != "empty":
                formula_features(f, out)
    return out


def gen_reqs(d, feats, extra=True):
    """A requirement list granting the features."""
    out = []
    adl = d.b(1, 4)
    for ft in sorted(feats):
        opts = GRANTS[ft]
        if any(o in out for o in opts):
            continue
        if adl and "adl" in opts:
            out.append("adl")
        else:
            out.append(d.pick(opts))
    if extra:
        for r in d.subset(ALL_REQS, 0, 2):
            if r not in out:
                out.append(r)
    return d.shuffled(out) if d.b(1, 3) else out


# ---------------------------------------------------------------- documents


def gen_types(d, lo=0, hi=5):
    """Type declarations [name, parent]; untyped last."""
    names = d.names(d.i(6, 16) if d.big("types") else d.i(lo, hi))
    out = []
    for k, n in enumerate(names):
        c = d.i(0, 5)
        if c == 0 or k == 0:
            p = d.pick([None, "object"])
        elif c == 5 and d.b(1, 3):
            p = d.name(names)  # supertype declared nowhere
        elif d.big("types") and d.b(1, 2):
            p = names[k - 1]
        else:
            p = names[d.i(0, k - 1)]
        out.append([n, p])
    if d.b(1, 3):
        out = d.shuffled(out)
    return sorted(out, key=lambda x: x[1] is None)


def gen_typed_names(d, types, lo, hi, avoid=()):
    """Constants or objects; untyped last."""
    names = d.names(d.i(hi, 18) if d.big("names") else d.i(lo, hi), avoid)
    out = []
    for n in names:
        out.append([n, d.pick(types) if types and d.b(3, 4) else None])
    return sorted(out, key=lambda x: x[1] is None)


def same_name(d, ctx, decls, free_order, look=M.params_c):
    """Another declaration of a declared name, with other arguments (other in their looks)."""
    n = d.pick(decls)[0]
    taken = [look(x[1]) for x in decls if x[0] == n]
    k = d.i(0, 3)
    ps = list(d.pick(decls)[1])
    if k == 0:
        ps = ps[:-1]
    elif k == 1:
        ps = [[v, []] for v, _ in ps]
    elif k == 2:
        ps = gen_params(d, ctx, 0, 3, free_order=free_order)
    while look(ps) in taken:
        ps = ps + [[d.name([v for v, _ in ps]), []]]
    return n, ps


def gen_domain(d, small=False, features=None, structs=None, free_order=False, twins=False):
    """A well-formed domain AST (with several actions of one name only if asked for twins)."""
    ctx = Ctx()
    if features is None:
        ctx.f = {ft for ft in FEATURES if d.b(2, 3)}
    else:
        ctx.f = set(features)
    if "fluents" in ctx.f:
        ctx.f.add("cmp")
    costs = d.b(1, 4)
    ctx.total_cost = costs
    if not ("fluents" in ctx.f or costs):
        ctx.f.discard("cmp")
    dom = {"name": d.name()}
    types = None
    if "typing" in ctx.f:
        types = gen_types(d, 1, 3 if small else 5)
        tn = [n for n, _ in types]
        tn += sorted({p for _, p in types if p and p not in tn and p != "object"})
        ctx.types = tn + (["object"] if d.b(1, 4) else [])
    elif d.b(1, 5):
        types = [[n, None] for n in d.names(d.i(0, 3))]
    dom["types"] = types
    dom["consts"] = None
    if d.b(1, 2):
        dom["consts"] = gen_typed_names(d, ctx.types, 0, 3 if small else 4)
        ctx.consts = [n for n, _ in dom["consts"]]
    preds = []
    for n in d.names(d.i(6, 14) if d.big("preds") else d.i(0 if d.b(1, 12) else 1, 3 if small else 5)):
        ps = gen_params(d, ctx, 0, 3, free_order=free_order)
        if ps and d.b(1, 15):
            ps[-1] = list(ps[0]) if not free_order and ps[-1][1] == ps[0][1] else ps[-1]
        preds.append([n, ps])
    if preds and d.b(1, 8):
        for _ in range(d.i(1, 2)):
            preds.append(list(same_name(d, ctx, preds, free_order)))
        preds = d.shuffled(preds) if d.b(1, 2) else preds
    dom["preds"] = preds
    ctx.preds = preds
    funcs = []
    if "fluents" in ctx.f:
        for n in d.names(d.i(3, 12) if d.big("preds") else d.i(1, 3)):
            funcs.append([n, gen_params(d, ctx, 0, 2, free_order=free_order), d.b(2, 3)])
        if d.b(1, 8):
            # a function twice is refused, also after a check takes the types away
            n, ps = same_name(d, ctx, funcs, free_order, lambda ps: [v for v, _ in ps])
            funcs.append([n, ps, d.b(2, 3)])
    if costs:
        funcs.append(["total-cost", [], d.b(3, 4)])
    funcs = sorted(d.shuffled(funcs) if d.b(1, 3) else funcs, key=lambda x: not x[2])
    dom["funcs"] = funcs
    ctx.funcs = [[n, ps] for n, ps, _ in funcs]
    ss = []
    n_struct = d.i(0, 2 if small else 4) if structs is None else structs
    if d.big("structs"):
        n_struct, small = d.i(n_struct, 12), True
    anames = d.names(n_struct)
    for k in range(n_struct):
        if preds and d.b(1, 4):
            ss.append(gen_derived(d, ctx, types or [], ss))
        elif twins and k and d.b(1, 10):
            ss.append(gen_action(d, ctx, anames[k - 1], small, free_order))
        else:
            ss.append(gen_action(d, ctx, anames[k], small, free_order))
    dom["structs"] = [s for s in ss if s is not None]
    dom["reqs"] = gen_reqs(d, domain_features(dom))
    return dom, ctx


def gen_action(d, ctx, name, small=False, free_order=False):
    ps = gen_params(d, ctx, 0, 3, free_order=free_order)
    scope = [n for n, _ in ps]
    if ps and not free_order and d.b(1, 12):
        ps.append(list(ps[-1]))  # the same parameter again
    dep = d.i(4, 7) if d.big("depth") else 2 if small else d.pick([2, 3, 4])
    k = d.i(0, 9)
    pre = None if k == 9 else ["empty"] if k == 8 else gen_gd(d, ctx, scope, dep)
    k = d.i(0, 9)
    eff = None if k == 9 else ["empty"] if k == 8 else gen_effect(d, ctx, scope, 2 if dep < 3 else 3 if dep < 6 else 4)
    return ["action", name, ps, pre, eff]


def gen_head(d, ctx, types, decl):
    """A derived predicate head fitting its declaration."""
    names = d.names(len(decl))
    typed = d.pick([0, len(decl), d.i(0, len(decl))]) if "typing" in ctx.f else 0
    out = []
    for k, (n, (_, dts)) in enumerate(zip(names, decl)):
        if k >= typed:
            out.append([n, []])
            continue
        known = [t for t in ctx.types if t != "object"]
        if dts and "object" not in dts:
            ok = [t for t in known if set(M.ancestors(t, types)) & set(dts)]
        else:
            ok = list(ctx.types)
        ts = d.subset(ok, 1, 2) if ok else []
        if not ts:
            typed = k
        out.append([n, ts])
    return out


def gen_derived(d, ctx, types, before):
    if not ctx.preds:
        return None
    n, decl = d.pick(ctx.preds)
    head = gen_head(d, ctx, types, decl)
    # the declarations it can go with must all give it the same types
    if len({str(M.head_types(head, ps)) for ps in M.declarations(ctx.preds, n, head, types)}) > 1:
        return None
    cond = gen_gd(d, ctx, [v for v, _ in head], 3)
    return ["derived", n, head, cond]


def gen_problem(d, ctx=None, dom=None, small=False):
    """A well-formed problem AST, possibly fitting a domain."""
    if ctx is None:
        ctx = Ctx()
        ctx.f = {ft for ft in FEATURES if d.b(2, 3)} | {"fluents", "cmp"}
        ctx.types = d.names(d.i(0, 3)) if d.b(3, 4) else []
        ctx.preds = [[n, [[str(k), []] for k in range(d.i(8, 24) if d.big("params") else d.i(0, 3))]] for n in d.names(d.i(1, 4))]
        ctx.funcs = [[n, [[str(k), []] for k in range(d.i(8, 24) if d.big("params") else d.i(0, 2))]] for n in d.names(d.i(1, 3))]
        for xs in (ctx.preds, ctx.funcs):
            if d.b(1, 8):
                n, ps = d.pick(xs)
                xs.append([n, ps + [["z", []]]])  # the same name with another number of arguments
        if d.b(1, 3):
            ctx.funcs.append(["total-cost", []])
        if not ctx.types:
            ctx.f.discard("typing")
    p = {"name": d.name(), "domain": dom["name"] if dom else d.name(), "reqs": []}
    if dom:
        if d.b(1, 3):
            p["reqs"] = d.subset(dom["reqs"], 0, 4)
    elif d.b(1, 3):
        p["reqs"] = d.subset(ALL_REQS, 1, 4)
    p["objects"] = None
    consts = [n for n, _ in (dom["consts"] or [])] if dom else []
    objs = []
    if d.b(9, 10):
        types = ctx.types if "typing" in ctx.f else []
        p["objects"] = gen_typed_names(d, types, 0, 4, avoid=consts if d.b(5, 6) else ())
        if consts and d.b(1, 6):  # an object of the name of a constant
            c, k = d.pick(consts), d.i(0, max(len(p["objects"]) - 1, 0))
            if c not in [n for n, _ in p["objects"]]:
                p["objects"][k : k + 1] = [[c, p["objects"][k][1] if p["objects"] else None]]
        objs = [n for n, _ in p["objects"]]
    g = Ctx()
    g.f = set(ctx.f)
    g.types = ctx.types
    g.preds = ctx.preds
    g.funcs = ctx.funcs
    g.consts = objs + consts
    init = []
    for _ in range(d.i(6, 24) if d.big("facts") else d.i(0, 3 if small else 6)):
        k = d.i(0, 5)
        if k >= 4 and g.funcs:
            fn = gen_fn(d, g, [])
            if fn:
                init.append(["assign", fn, ["num", numeral(d)]])
                continue
        a = gen_atom(d, g, [])
        if a[0] == "atom":
            init.append(["not", a] if k == 3 else a)
    if init and d.b(1, 5):
        init.append(init[0])
    # two assignments whose numbers are equal but written in different kinds would be merged
    seen, out = {}, []
    for e in init:
        key = M.same_up_to_numbers(M.init_c(M.resolve_problem({"objects": None, "init": [e], "goal": ["and", []], "metric": None})["init"][0]))
        if key in seen and seen[key] != e:
            continue
        seen[key] = e
        out.append(e)
    p["init"] = out
    p["goal"] = gen_gd(d, g, [], d.i(4, 7) if d.big("depth") else 2 if small else d.pick([2, 3, 4]))
    p["metric"] = None
    if d.b(1, 2):
        p["metric"] = [d.pick(["minimize", "maximize"]), gen_fexp(d, g, [], 5 if d.big("numbers") else 2)]
    return p


def gen_plan(d, actions=None, objs=None):
    """A list of steps."""
    steps = []
    names = d.names(3)
    pool = objs or d.names(3)
    for _ in range(d.i(6, 30) if d.big("facts") else d.i(0, 6)):
        if actions and d.b(5, 6):
            n, ar = d.pick(actions)
        else:
            n, ar = d.pick(names), d.i(0, 12 if d.big("params") else 3)
        steps.append([n, [d.pick(pool) for _ in range(ar)]])
    return steps


def gen_layout(d):
    return [d.i(0, 33) for _ in range(d.pick([0, 1, 3, 7, 12]))]


# ---------------------------------------------------------------- strategies


def strategy(fn, **kw):
    """Turn a function of a D into a strategy."""

    @st.composite
    def s(draw):
        return fn(D(draw), **kw)

    return s()
