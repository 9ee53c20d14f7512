"""Reference model: scoping, canonical forms, substitution, evaluation.

A *resolved* tree is like an AST but every term carries its types:
["v", name, [types]] / ["c", name, [types]].
"""

from fractions import Fraction

BINDERS = ("exists", "forall", "eforall")


# ------------------------------------------------------------------ resolving


def _tags(types):
    return sorted(set(types))


def dedup_params(params):
    """Drop repeated variables (same name, same types)."""
    seen, out = set(), []
    for n, ts in params:
        if n not in seen:
            seen.add(n)
            out.append([n, _tags(ts)])
    return out


def resolve_term(t, scope, consts):
    if t[0] == "v":
        return ["v", t[1], scope.get(t[1], [])]
    ct = consts.get(t[1])
    return ["c", t[1], [ct] if ct else []]


def resolve(f, scope, consts):
    """Give every term of a formula / expression / effect its types."""
    k = f[0]
    r = lambda x: resolve(x, scope, consts)  # noqa: E731
    if k in ("atom", "fn"):
        return [k, f[1], [resolve_term(t, scope, consts) for t in f[2]]]
    if k == "eq":
        return [k, resolve_term(f[1], scope, consts), resolve_term(f[2], scope, consts)]
    if k in ("cmp", "neff"):
        return [k, f[1], r(f[2]), r(f[3])]
    if k == "num":
        return f
    if k == "op":
        return [k, f[1], [r(x) for x in f[2]]]
    if k == "not":
        return [k, r(f[1])]
    if k in ("and", "or", "oneof"):
        return [k, [r(x) for x in f[1]]]
    if k in ("imply", "when"):
        return [k, r(f[1]), r(f[2])]
    if k in BINDERS:
        inner = dict(scope)
        for n, ts in f[1]:
            inner[n] = _tags(ts)
        return [k, dedup_params(f[1]), resolve(f[2], inner, consts)]
    if k == "empty":
        return ["and", []]
    raise AssertionError(k)


# ------------------------------------------------------------------ canonical


def num_of(text):
    """(kind, value) of a numeral."""
    return ("float", float(text)) if "." in text else ("int", int(text))


def _key(c):
    """Canonical form up to the kind of numbers and the types of constants."""
    if isinstance(c, tuple):
        if len(c) == 3 and c[0] == "num" and c[1] in ("int", "float"):
            return ("num", c[2])
        if len(c) == 3 and c[0] == "c" and isinstance(c[1], str):
            return ("c", c[1])
        return tuple(_key(x) for x in c)
    return c


def term_c(t):
    return (t[0], t[1], tuple(t[2]))


def canon(f):
    """Canonical nested tuples of a resolved tree (and/or and +,* simplified)."""
    k = f[0]
    if k in ("atom", "fn"):
        return (k, f[1], tuple(term_c(t) for t in f[2]))
    if k == "eq":
        return (k, term_c(f[1]), term_c(f[2]))
    if k in ("cmp", "neff"):
        return (k, f[1], canon(f[2]), canon(f[3]))
    if k == "num":
        if isinstance(f[1], str):
            return ("num", *num_of(f[1]))
        return ("num", "float" if isinstance(f[1], float) else "int", f[1])
    if k == "op":
        ops = [canon(x) for x in f[2]]
        if f[1] in "+*":
            flat = []
            for o in ops:
                if o[0] == "op" and o[1] == f[1]:
                    flat.extend(o[2])
                else:
                    flat.append(o)
            ops = flat
        return (k, f[1], tuple(ops))
    if k == "not":
        return (k, canon(f[1]))
    if k in ("and", "or"):
        flat = []
        for x in f[1]:
            c = canon(x)
            flat.extend(c[1] if c[0] == k else [c])
        seen, out = set(), []
        for c in flat:
            key = _key(c)
            if key not in seen:
                seen.add(key)
                out.append(c)
        if len(out) == 1:
            return out[0]
        return (k, tuple(out))
    if k == "oneof":
        return (k, tuple(canon(x) for x in f[1]))
    if k in ("imply", "when"):
        return (k, canon(f[1]), canon(f[2]))
    if k in BINDERS:
        return (k, tuple(sorted({(n, tuple(ts)) for n, ts in f[1]})), canon(f[2]))
    if k == "empty":
        return ("and", ())
    raise AssertionError(k)


def drop_const_types(c):
    """Forget the types of constants in a canonical form."""
    if isinstance(c, tuple):
        if len(c) == 3 and c[0] == "c" and isinstance(c[1], str) and isinstance(c[2], tuple):
            return ("c", c[1], ())
        return tuple(drop_const_types(x) for x in c)
    return c


def same_up_to_numbers(c):
    """Forget number kinds and constant types."""
    return _key(c)


# ------------------------------------------------------------------ documents


def params_c(params):
    return tuple((n, tuple(_tags(ts))) for n, ts in params)


def norm_parent(p):
    return None if p in (None, "object") else p


def declarations(preds, name, head, types):
    """The parameters of the declarations a derived predicate can go with (of its name, if there are none)."""
    of_name = [ps for n, ps in preds if n == name]
    return [ps for ps in of_name if head_fits(head, ps, types)] or of_name


def head_fits(head, decl, types):
    """Whether a head has as many arguments as a declaration, and no wider types."""
    if len(head) != len(decl):
        return False
    return all(
        not ts or not dts or "object" in dts or all(set(ancestors(t, types)) & set(dts) for t in ts)
        for (_, ts), (_, dts) in zip(head, decl)
    )


def head_types(head, decl):
    """The types of the arguments of a head, by its declaration."""
    return [_tags(ts) if ts else _tags(dts) for (_, ts), (_, dts) in zip(head, decl)]


def resolve_struct(s, d_preds, consts, types=()):
    """Resolve an action or a derived predicate."""
    if s[0] == "derived":
        _, n, ps, cond = s
        decl = declarations(d_preds, n, ps, types)[-1]
        head = []
        for (v, ts), (_, dts) in zip(ps, decl):
            head.append([v, _tags(ts) if ts else _tags(dts)])
        scope = {v: ts for v, ts in head}
        return ["derived", n, head, resolve(cond, scope, consts)]
    _, n, ps, pre, eff = s
    ps = dedup_params(ps)
    scope = {v: ts for v, ts in ps}
    return [
        "action",
        n,
        ps,
        None if pre is None else resolve(pre, scope, consts),
        None if eff is None else resolve(eff, scope, consts),
    ]


def resolve_domain(d):
    """Resolved form of a domain AST (a new dict)."""
    consts = {n: t for n, t in (d["consts"] or [])}
    out = dict(d)
    out["structs"] = [resolve_struct(s, d["preds"], consts, d["types"] or []) for s in d["structs"]]
    return out


def cond_c(f):
    """Canonical condition; None (absent) means no condition."""
    return ("and", ()) if f is None else canon(f)


def domain_c(d, resolved=False):
    """Canonical content of a domain AST."""
    r = d if resolved else resolve_domain(d)
    return {
        "name": r["name"],
        "reqs": frozenset(r["reqs"]),
        "types": {n: norm_parent(p) for n, p in (r["types"] or [])},
        "consts": {n: t for n, t in (r["consts"] or [])},
        "preds": frozenset((n, params_c(ps)) for n, ps in r["preds"]),
        "funcs": {(n, params_c(ps)): ("number" if num else None) for n, ps, num in r["funcs"]},
        "derived": frozenset(
            (s[1], params_c(s[2]), canon(s[3])) for s in r["structs"] if s[0] == "derived"
        ),
        "actions": frozenset(
            (s[1], params_c(s[2]), cond_c(s[3]), cond_c(s[4])) for s in r["structs"] if s[0] == "action"
        ),
    }


def problem_c(p):
    """Canonical content of a problem AST (constants of atoms untyped)."""
    r = resolve_problem(p)
    return {
        "name": r["name"],
        "domain": r["domain"],
        "reqs": frozenset(r["reqs"]),
        "objects": {n: t for n, t in (r["objects"] or [])},
        "init": frozenset(drop_const_types(init_c(e)) for e in r["init"]),
        "goal": drop_const_types(canon(r["goal"])),
        "metric": None if not r["metric"] else (r["metric"][0], drop_const_types(canon(r["metric"][1]))),
    }


def init_c(e):
    if e[0] == "assign":
        return ("cmp", "=", canon(e[1]), canon(e[2]))
    return canon(e)


def resolve_problem(p):
    objs = {n: t for n, t in (p["objects"] or [])}
    out = dict(p)
    init = []
    for e in p["init"]:
        if e[0] == "assign":
            init.append(["assign", resolve(e[1], {}, objs), e[2]])
        else:
            init.append(resolve(e, {}, objs))
    out["init"] = init
    out["goal"] = resolve(p["goal"], {}, objs)
    if p["metric"]:
        out["metric"] = [p["metric"][0], resolve(p["metric"][1], {}, objs)]
    return out


def with_undeclared_supertypes(types):
    """Types used only as supertypes count as declared."""
    out = dict(types)
    for p in list(types.values()):
        if p is not None and p not in out:
            out[p] = None
    return out


# ------------------------------------------------------------------ walking


def walk(f):
    """All nodes of an AST / resolved tree, outermost first."""
    yield f
    k = f[0]
    if k in ("cmp", "neff"):
        yield from walk(f[2])
        yield from walk(f[3])
    elif k == "op":
        for x in f[2]:
            yield from walk(x)
    elif k == "not":
        yield from walk(f[1])
    elif k in ("and", "or", "oneof"):
        for x in f[1]:
            yield from walk(x)
    elif k in ("imply", "when"):
        yield from walk(f[1])
        yield from walk(f[2])
    elif k in BINDERS:
        yield from walk(f[2])


def depth(f):
    """Nesting depth."""
    if not isinstance(f, (list, tuple)) or not f:
        return 0
    return 1 + max((depth(x) for x in f if isinstance(x, (list, tuple))), default=0)


def terms_of(node):
    """Terms directly in a node."""
    if node[0] in ("atom", "fn"):
        return node[2]
    if node[0] == "eq":
        return [node[1], node[2]]
    return []


# ------------------------------------------------------------------ substitution


def _sub_term(t, mapping):
    if t[0] == "v":
        key = (t[1], tuple(t[2]))
        if key in mapping:
            return mapping[key]
    return t


def substitute(f, mapping):
    """Replace free variables; mapping: (name, types) -> resolved term."""
    k = f[0]
    s = lambda x: substitute(x, mapping)  # noqa: E731
    if k in ("atom", "fn"):
        return [k, f[1], [_sub_term(t, mapping) for t in f[2]]]
    if k == "eq":
        return [k, _sub_term(f[1], mapping), _sub_term(f[2], mapping)]
    if k in ("cmp", "neff"):
        return [k, f[1], s(f[2]), s(f[3])]
    if k == "num":
        return f
    if k == "op":
        return [k, f[1], [s(x) for x in f[2]]]
    if k == "not":
        return [k, s(f[1])]
    if k in ("and", "or", "oneof"):
        return [k, [s(x) for x in f[1]]]
    if k in ("imply", "when"):
        return [k, s(f[1]), s(f[2])]
    if k in BINDERS:
        bound = {n for n, _ in f[1]}
        inner = {key: t for key, t in mapping.items() if key[0] not in bound}
        return [k, f[1], substitute(f[2], inner)]
    if k == "empty":
        return f
    raise AssertionError(k)


# ------------------------------------------------------------------ evaluation


class Undefined(Exception):
    """The expression has no value (division by zero)."""


def evaluate(e, env):
    """Exact value of a canonical or resolved arithmetic expression; env(fn) -> Fraction."""
    k = e[0]
    if k == "num":
        if len(e) == 3:
            return Fraction(e[2])
        kind, v = num_of(e[1]) if isinstance(e[1], str) else ("", e[1])
        return Fraction(v)
    if k == "fn":
        return env(e)
    if k == "op":
        vs = [evaluate(x, env) for x in e[2]]
        op = e[1]
        if op == "+":
            return sum(vs, Fraction(0))
        if op == "*":
            r = Fraction(1)
            for v in vs:
                r *= v
            return r
        if op == "-":
            if len(vs) == 1:
                return -vs[0]
            if len(vs) == 2:
                return vs[0] - vs[1]
            raise Undefined(f"minus with {len(vs)} operands")
        if op == "/":
            if len(vs) != 2:
                raise Undefined(f"divide with {len(vs)} operands")
            if vs[1] == 0:
                raise Undefined("division by zero")
            return vs[0] / vs[1]
    raise Undefined(f"not an expression: {e!r}")


def compare(op, a, b):
    """Value of a comparison."""
    return {"=": a == b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def truth(f, env):
    """Truth value of a canonical/resolved propositional formula; env(atom) -> bool."""
    k = f[0]
    if k == "not":
        return not truth(f[1], env)
    if k == "and":
        return all([truth(x, env) for x in f[1]])
    if k == "or":
        return any([truth(x, env) for x in f[1]])
    if k == "imply":
        return (not truth(f[1], env)) or truth(f[2], env)
    return env(f)


# ------------------------------------------------------------------ typing


def type_names(types):
    """All type names known to a domain: declared, used as supertype, and object."""
    out = {"object"}
    for n, p in types or []:
        out.add(n)
        if p:
            out.add(p)
    return out


def ancestors(t, types):
    """t and its direct and indirect supertypes (cycle safe)."""
    parent = {n: p for n, p in types or []}
    out = []
    while t is not None and t not in out:
        out.append(t)
        t = parent.get(t)
    return out


def has_cycle(types):
    """Whether the hierarchy has a cycle."""
    parent = {n: p for n, p in types or []}
    for n in parent:
        seen = set()
        t = n
        while t is not None:
            if t in seen:
                return True
            seen.add(t)
            t = parent.get(t)
    return False


def used_types(d):
    """All types used by terms anywhere in a resolved or plain domain AST."""
    out = set()
    for _, t in d["consts"] or []:
        if t:
            out.add(t)
    for _, ps in d["preds"]:
        for _, ts in ps:
            out.update(ts)
    for _, ps, _n in d["funcs"]:
        for _, ts in ps:
            out.update(ts)
    for s in d["structs"]:
        for _, ts in s[2]:
            out.update(ts)
        for f in s[3:]:
            if f is not None:
                for node in walk(f):
                    if node[0] in BINDERS:
                        for _, ts in node[1]:
                            out.update(ts)
    return out
