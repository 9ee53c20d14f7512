"""C08: instantiation is exactly substitution."""

from .. import build, gen, model, view
from ..cases import act, at, c, fn, num, op, v
from ..core import Violation, check, lib
from ..harness import Part

RULE = (
    "A case is a random formula, effect or action (all constructs, inner quantifiers often re-binding a name) and a "
    "mapping of some free variables to constants or variables (possibly to each other); instantiate must give the canonical form of the "
    "reference substitution, leave the schema as it was, and give the same result in two stages. "
    "Non-trivial: at least one variable is replaced and the nesting depth is 3 or more."
)
ASSUMPTIONS = ["a variable that replaces another never has the name of a bound variable (capture is not specified)"]

FRESH = ["m0", "m1", "m2", "m3"]


def image(t):
    return build.term(t)


def mapping_of(m):
    return {build.term(["v", n, ts]): image(t) for (n, ts), t in m}


def ref_map(m):
    return {(n, tuple(ts)): t for (n, ts), t in m}


def uses_mapped(f, m):
    keys = {n for (n, _), _ in m}
    return any(t[0] == "v" and t[1] in keys for n in model.walk(f) for t in model.terms_of(n))


def check_formula(case):
    f, m, split = case
    obj = lib("building", build.tree, f)
    before, text, h = model.canon(f), str(obj), hash(obj)
    check(view.formula_c(obj) == before, "the built formula is not the one asked for", text)
    want = model.canon(model.substitute(f, ref_map(m)))
    got = lib("instantiating", obj.instantiate, mapping_of(m))
    check(view.formula_c(got) == want, "instantiation is not substitution", text, repr(m), str(got), repr(want))
    check(
        view.formula_c(obj) == before and str(obj) == text and hash(obj) == h, "instantiation changed the formula", text, str(obj)
    )
    same = lib("instantiating with nothing", obj.instantiate, {})
    check(view.formula_c(same) == before and same == obj, "an empty mapping changes the formula", text, str(same))
    # in two stages: some variables first, then the others
    one = [x for i, x in enumerate(m) if (split >> i) & 1]
    two = [x for i, x in enumerate(m) if not (split >> i) & 1]
    keys = {n for (n, _), _ in m}
    if not any(t[0] == "v" and t[1] in keys for _, t in m):
        g = lib("instantiating in stages", lambda: obj.instantiate(mapping_of(one)).instantiate(mapping_of(two)))
        check(view.formula_c(g) == want, "two stages differ from one", text, repr(one), repr(two), str(g))
    # in two stages: through fresh variables
    via = [[k, ["v", FRESH[i % 4] + "-" + str(i), k[1]]] for i, (k, _) in enumerate(m)]
    back = [[[x[1][1], x[1][2]], t] for x, (_, t) in zip(via, m)]
    g = lib("instantiating via variables", lambda: obj.instantiate(mapping_of(via)).instantiate(mapping_of(back)))
    check(view.formula_c(g) == want, "two stages through other variables differ from one", text, repr(m), str(g))
    return uses_mapped(f, m) and model.depth(f) > 3, sorted({n[0] for n in model.walk(f)} | {"to " + t[0] for _, t in m})


def bound_names(*fs):
    return {n for f in fs if f is not None for x in model.walk(f) if x[0] in model.BINDERS for n, _ in x[1]}


def g_targets(d, keys, bound):
    out = []
    # renamings among the replaced variables themselves, up to swaps, where nothing is captured
    own = [[n, ts] for n, ts in keys if n not in bound] if d.b(1, 3) else []
    for n, ts in keys:
        k = d.i(0, 5)
        if own and d.b(3, 4):
            m, mts = d.pick(own)
            out.append([[n, ts], ["v", m, mts]])
            continue
        if k <= 3:
            nm = d.name()
            out.append([[n, ts], ["c", nm, d.subset(["t", "u"], 0, 1)]])
        else:
            out.append([[n, ts], ["v", "-".join(["zz-" + d.pick(["0", "1"])] + sorted(ts)), sorted(ts)]])
    return out


def g_ctx(d):
    ctx = gen.Ctx()
    ctx.f = set(gen.FEATURES)
    ctx.types = ["t", "u", "w"]
    ctx.consts = d.names(d.i(0, 2))
    ctx.preds = [[n, [[str(i), []] for i in range(d.i(0, 3))]] for n in d.names(d.i(1, 3))]
    ctx.funcs = [[n, [[str(i), []] for i in range(d.i(0, 2))]] for n in d.names(d.i(1, 2))]
    return ctx


def g_formula(d):
    ctx = g_ctx(d)
    names = d.names(d.i(1, 4))
    params = gen.gen_params(d, ctx, 0, 0, names=names)
    scope = {n: sorted(set(ts)) for n, ts in params}
    if d.b(1, 3):
        f = gen.gen_effect(d, ctx, names, 3)
    else:
        f = gen.gen_gd(d, ctx, names, 4)
    f = model.resolve(f, scope, {k: None for k in ctx.consts})
    keys = [[n, scope[n]] for n in d.subset(names, 0 if d.b(1, 8) else 1, len(names))]
    return [f, g_targets(d, keys, bound_names(f)), d.i(0, 15)]


def check_action(case):
    s, args, wrong = case
    a = lib("building an action", build.struct, s)
    before, text = view.action_c(a), str(a)
    terms = [build.term(t) for t in args]
    got = lib("instantiating an action", a.instantiate, terms if wrong % 2 else tuple(terms))
    m = {(n, tuple(ts)): t for (n, ts), t in zip(s[2], args)}
    want = (
        s[1],
        tuple((t[0], t[1], tuple(t[2])) for t in args),
        ("and", ()) if s[3] is None else model.canon(model.substitute(s[3], m)),
        ("and", ()) if s[4] is None else model.canon(model.substitute(s[4], m)),
    )
    a_c = view.action_c(got)
    check(a_c == want, "the ground action is not the substituted schema", text, repr(args), str(got), repr(want), repr(a_c))
    check(view.action_c(a) == before and str(a) == text, "instantiation changed the schema", text, str(a))
    bad = terms[:-1] if wrong % 3 == 0 and terms else terms + [build.term(["c", "extra", []])] * (1 + wrong % 2)
    try:
        r = a.instantiate(bad)
    except Exception:  # noqa
        pass
    else:
        raise Violation(f"a wrong number of arguments is accepted: {[str(t) for t in bad]}\n{text}\n{r}")
    check(view.action_c(a) == before and str(a) == text, "a failed instantiation changed the schema", text, str(a))
    dp = max([model.depth(f) for f in s[3:] if f is not None], default=0)
    return bool(args) and dp > 3, ["params %d" % len(args)]


def g_action(d):
    ctx = g_ctx(d)
    s = gen.gen_action(d, ctx, d.name())
    s = model.resolve_struct(s, {}, {k: None for k in ctx.consts})
    targets = g_targets(d, [[n, ts] for n, ts in s[2]], bound_names(*s[3:]))
    return [s, [t for _, t in targets], d.i(0, 11)]


PARTS = [
    Part("formula", gen.strategy(g_formula), check_formula, 9000),
    Part("action", gen.strategy(g_action), check_action, 5000),
]


def r(f, **scope):
    return model.resolve(f, {k: t for k, t in scope.items()}, {})


TX = [[["x", []], ["c", "o", []]]]
REGRESSIONS = [
    ("formula", [r(["exists", [["x", []]], at("p", "?x")], x=[]), TX, 0]),
    ("formula", [r(["and", [at("p", "?x"), ["forall", [["x", ["t"]]], at("p", "?x")]]], x=[]), TX, 1]),
    ("formula", [r(["eforall", [["x", []]], ["when", at("p", "?x"), at("q", "?x", "?y")]], x=[], y=[]), [[["y", []], ["c", "o", []]], [["x", []], ["c", "k", []]]], 1]),
    ("formula", [r(["when", at("p", "?x"), ["and", [["not", at("p", "?x")], ["neff", "increase", fn("f", "?x"), op("-", fn("f", "?x"))]]]], x=[]), TX, 0]),
    ("formula", [r(["cmp", ">=", fn("f", "?x"), op("+", fn("f", "?x"), num("1"))], x=[]), TX, 0]),
    ("formula", [r(["and", [at("p", "?x"), at("p", "?y")]], x=[], y=[]), [[["x", []], ["c", "o", []]], [["y", []], ["c", "o", []]]], 1]),
    ("action", [["action", "a", [["x", ["t"]]], r(["exists", [["y", []]], at("q", "?x", "?y")], x=["t"]), r(["oneof", [at("p", "?x")]], x=["t"])], [["c", "o", ["t"]]], 1]),
    ("action", [["action", "a", [], None, None], [], 1]),
]
