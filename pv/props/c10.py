"""C10: numeric expressions keep their value."""

from fractions import Fraction

from .. import build, gen, model, render, view
from ..cases import act, at, dom, fn, num, op, prob
from ..core import check, clean_errors, lib, outcome, parse, parser, short_tb
from ..harness import Part

RULE = (
    "A case is an arithmetic expression tree (repeated operands, unary/binary minus, nested - and /, numerals in many "
    "forms) put in a comparison, a numeric effect, a metric or an initial assignment, built by the API and parsed "
    "from text. Its exact value under 4 random assignments of rationals to the ground functions must be that of the "
    "expression as written, and the numerals must keep their kinds and values; also after printing and parsing. Part range: one numeral of up to 4000 digits, "
    "with up to 700 after the point, at each place; it keeps its value, or is refused when it is a decimal beyond "
    "the range of a double. Non-trivial: at least two operators and one function, with a defined value."
)
ASSUMPTIONS = ["a decimal numeral denotes the nearest double; division by zero has no value"]

VALUES = [Fraction(x) for x in ("2", "3", "-5", "7/2", "1/3", "11", "-13/7", "0", "1", "17/10")]


class Env:
    def __init__(self, ks):
        self.ks, self.seen = ks, {}

    def __call__(self, f):
        key = (f[1], tuple((t[0], t[1]) for t in f[2]))
        if key not in self.seen:
            h = sum(ord(ch) * (i + 1) for i, ch in enumerate(repr(key)))
            self.seen[key] = VALUES[(h + self.ks) % len(VALUES)]
        return self.seen[key]


def value(e, k):
    try:
        return model.evaluate(e, Env(k))
    except model.Undefined as x:
        return "undefined" if "zero" in str(x) else str(x)


def numerals(e):
    out = []
    for n in model.walk(e):
        if n[0] == "num":
            v = model.num_of(n[1])[1] if isinstance(n[1], str) else n[1]
            out.append((type(v).__name__, v))
    return out


def same(e, got, what, text):
    """e: the expression written; got: the tree of the object."""
    for k in range(4):
        w, g = value(e, k), value(got, k)
        check(w == g, f"{what}: the value is {g} instead of {w}", repr(e), repr(got), text)
    check(numerals(e) == numerals(got), f"{what}: numerals changed", repr(numerals(e)), repr(numerals(got)), text)


def same_any(f, got, what, text):
    """Same for comparisons and numeric effects."""
    if f[0] in ("cmp", "neff"):
        check(got[0] == f[0] and got[1] == f[1], f"{what}: another operator", repr(f), repr(got), text)
        if f[0] == "neff":
            check(
                got[2][0] == "fn" and got[2][1] == f[2][1] and [t[:2] for t in got[2][2]] == [t[:2] for t in f[2][2]],
                f"{what}: another target", repr(f), repr(got), text,
            )
        same(f[2], got[2], what, text)
        same(f[3], got[3], what, text)
        if f[0] == "cmp":
            for k in range(4):
                a, b, x, y = value(f[2], k), value(f[3], k), value(got[2], k), value(got[3], k)
                if not any(isinstance(z, str) for z in (a, b, x, y)):
                    check(model.compare(f[1], a, b) == model.compare(got[1], x, y), f"{what}: another truth value", text)
    else:
        same(f, got, what, text)


def expr_ok(f):
    """Expressible in the grammar."""
    for n in model.walk(f):
        if n[0] == "op" and n[1] in "+*" and len(n[2]) < 2:
            return False
    return True


def check_num(case):
    where, f = case
    r = model.resolve(f, {}, {})
    view_t = lambda o: view.guarded(view.tree, o)  # noqa: E731
    obj = lib("building an expression", build.tree, r)
    same_any(f, view_t(obj), "built", str(obj))
    if expr_ok(f):
        for what, o in (("parsed", None), ("printed and parsed", obj)):
            text, got = place(where, f, o)
            same_any(f, view_t(got), what, text)
            text3, got3 = place(where, f, got)
            same_any(f, view_t(got3), what + ", printed and parsed again", text3)
            check(str(got3) == str(got), "printing again gives another text", str(got), str(got3))
    n_ops = sum(1 for n in model.walk(f) if n[0] == "op")
    exprs = f[2:4] if f[0] in ("cmp", "neff") else [f]
    defined = any(not isinstance(value(e, k), str) for e in exprs for k in range(4))
    has_fn = any(n[0] == "fn" for n in model.walk(f))
    return n_ops >= 2 and has_fn and defined, [where, f[0], "expressible" if expr_ok(f) else "api only"]


def place(where, f, obj):
    """Text with the expression (or the object printed) at a place; the object parsed from it."""
    tk = render.Tokens(render.Layout([0]))
    s = str(obj) if obj is not None else None
    if where == "metric":
        s = s or " ".join(tk.fexp(f))
        text = f"(define (problem p) (:domain d) (:init) (:goal (and)) (:metric minimize {s}))"
        return text, parse("problem", text).metric.expression
    if where == "init":
        s = s or " ".join(tk.init_el(["assign", f[2], f[3]]))
        text = f"(define (problem p) (:domain d) (:init {s}) (:goal (and)))"
        return text, next(iter(parse("problem", text).init))
    if where == "goal":
        s = s or " ".join(tk.gd(f))
        text = f"(define (problem p) (:domain d) (:init) (:goal {s}))"
        return text, parse("problem", text).goal
    s = s or " ".join(tk.gd(f))
    key = "effect" if where == "effect" else "precondition"
    text = (
        "(define (domain d) (:requirements :fluents :action-costs) (:constants a b) (:predicates (p)) "
        f"(:functions (f ?x) (g) (h ?x ?y) (total-cost)) (:action x :parameters (?v ?w) :{key} {s}))"
    )
    return text, getattr(next(iter(parse("domain", text).actions)), key)


FUNCS = [["g", []], ["f", [["x", []]]], ["h", [["x", []], ["y", []]]], ["total-cost", []]]


def g_num(d):
    if d.b(1, 3):
        s = str(d.i(0, 10 ** d.i(0, 18)))
        if d.b(1, 2):
            frac = str(d.i(0, 10 ** d.i(0, 9)))
            s += "." + "0" * d.i(0, 5) + frac
        return ["num", s]
    return ["num", gen.numeral(d)]


def g_exp(d, ctx, scope, depth, api):
    k = d.i(0, 9)
    if depth == 0 or k <= 1:
        if d.b(1, 2):
            return g_num(d)
        return gen.gen_fn(d, ctx, scope)
    o = d.pick(["+", "-", "*", "/", "-", "/"])
    n = 2
    if o == "-" and d.b(1, 3):
        n = 1
    if o in "+*":
        n = d.pick([2, 3, 2, 4, d.i(4, 10) if depth <= 2 else 3] + ([1] if api else []))
    args = [g_exp(d, ctx, scope, depth - 1, api) for _ in range(n)]
    if n >= 2 and d.b(1, 3):
        args[d.i(1, n - 1)] = args[0]
    return ["op", o, args]


def g_case(d):
    where = d.pick(["precondition", "effect", "metric", "init", "goal", "precondition"])
    ctx = gen.Ctx()
    ctx.consts = ["a", "b"]
    ctx.funcs = FUNCS
    scope = ["v", "w"] if where in ("precondition", "effect") else []
    api = d.b(1, 8)
    dp = d.pick([1, 2, 3, 4, 6])
    e = lambda: g_exp(d, ctx, scope, dp, api)  # noqa: E731
    if where == "metric":
        return [where, e()]
    if where == "init":
        return [where, ["cmp", "=", gen.gen_fn(d, ctx, scope), g_num(d)]]
    if where == "effect":
        return [where, ["neff", d.pick(sorted(build.NEFF_C)), gen.gen_fn(d, ctx, scope), e()]]
    x, y = e(), e()
    if d.b(1, 6):
        y = x
    return [where, ["cmp", d.pick(["=", "<", "<=", ">", ">="]), x, y]]


# ------------------------------------------------------------------- range

INF = float("inf")


def check_range(case):
    """A numeral keeps its value; a decimal no double can hold is refused."""
    where, s = case
    f = ["assign", fn("g"), ["num", s]] if where == "init" else ["cmp", "=", fn("g"), ["num", s]]
    text = {
        "init": f"(define (problem p) (:domain d) (:init (= (g) {s})) (:goal (and)))",
        "metric": f"(define (problem p) (:domain d) (:init) (:goal (and)) (:metric minimize (- (g) {s})))",
        "goal": f"(define (problem p) (:domain d) (:init) (:goal (= (g) {s})))",
        "effect": f"(define (domain d) (:requirements :fluents) (:functions (g)) (:action a :parameters () :effect (assign (g) {s})))",
    }[where]
    kind = "domain" if where == "effect" else "problem"
    res, x = outcome(parser(kind), text)
    if "." in s and float(s) == INF:
        check(res == "err", f"a decimal out of range is taken for something else: {x}", text)
        check(isinstance(x, clean_errors()), f"a decimal out of range is refused, but with {short_tb(x)}", text)
        return True, ["out of range"]
    check(res == "ok", f"a number is refused: {short_tb(x) if res == 'err' else ''}", text)
    f = {"init": lambda: next(iter(x.init)), "metric": lambda: x.metric.expression, "goal": lambda: x.goal, "effect": lambda: next(iter(x.actions)).effect}[where]()
    v = f.operands[1].value
    want = float(s) if "." in s else int(s)
    check(type(v) is type(want) and v == want, f"the value is {v!r}", text)
    again = parse(kind, str(x))
    check(again == x, "printed and parsed again, the number differs", str(x))
    return len(s) > 15, ["decimal" if "." in s else "integer"]


def g_range(d):
    digits = lambda n: "".join(d.pick("0123456789") for _ in range(min(n, 20))) + d.pick("0159") * max(0, n - 20)  # noqa: E731
    s = digits(d.pick([1, 2, 5, 15, 16, 17, 18, 19, 30, 60, d.i(290, 330), d.i(1, 400), d.i(1, 4000)]))
    if d.b(2, 3):
        s += "." + "0" * d.pick([0, 0, 0, 3, 30, 290, 310, 340]) + digits(d.pick([1, 2, 6, 12, 15, 16, 17, 18, 30, 400]))
    return [d.pick(["init", "metric", "goal", "effect"]), s]


PARTS = [Part("range", gen.strategy(g_range), check_range, 2000), Part("expr", gen.strategy(g_case), check_num, 14000)]
G = fn("g")
REGRESSIONS = [("range", [w, "1" + "0" * n + p]) for w in ("init", "metric", "goal", "effect") for n in (307, 308, 309, 400) for p in ("", ".0", ".5")]
REGRESSIONS += [
    ("expr", ["effect", ["neff", "increase", G, op("+", G, G)]]),
    ("expr", ["effect", ["neff", "assign", G, op("*", num("2"), num("2"), num("2"))]]),
    ("expr", ["precondition", ["cmp", "=", G, G]]),
    ("expr", ["precondition", ["cmp", "<", op("-", op("-", num("9"), num("2")), num("1")), op("-", num("9"), op("-", num("2"), num("1")))]]),
    ("expr", ["metric", op("/", op("/", G, num("2")), op("/", num("3"), G))]),
    ("expr", ["metric", op("-", G, G)]),
    ("expr", ["metric", num("3")]),
    ("expr", ["metric", op("-", num("0.000000000123"))]),
    ("expr", ["init", ["cmp", "=", G, num("100000000000000000000.0")]]),
    ("expr", ["goal", ["cmp", ">=", G, num("1.0")]]),
]
