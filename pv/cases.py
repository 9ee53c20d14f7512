"""Hand-written pieces of ASTs, for the regression cases."""


def v(n):
    return ["v", n]


def c(n):
    return ["c", n]


def at(p, *ts):
    return ["atom", p, [v(t[1:]) if t.startswith("?") else c(t) for t in ts]]


def fn(p, *ts):
    return ["fn", p, [v(t[1:]) if t.startswith("?") else c(t) for t in ts]]


def num(t):
    return ["num", t]


def op(o, *args):
    return ["op", o, list(args)]


def act(name="a", params=(), pre=None, eff=None):
    return ["action", name, [list(p) for p in params], pre, eff]


def der(pred, head, cond):
    return ["derived", pred, [list(p) for p in head], cond]


EVERYTHING = ["adl", "fluents", "non-deterministic", "action-costs", "derived-predicates"]


def dom(*structs, **kw):
    d = {
        "name": "d",
        "reqs": list(EVERYTHING),
        "types": [["t", None], ["u", "t"], ["w", "u"]],
        "consts": [["k", "t"], ["j", None]],
        "preds": [["p", [["x", []]]], ["q", []], ["r", [["x", ["t"]], ["y", []]]]],
        "funcs": [["f", [["x", []]], True], ["g", [], True]],
        "structs": list(structs),
    }
    d["types"] = [["u", "t"], ["w", "u"], ["t", None]]
    d.update(kw)
    return d


def prob(**kw):
    d = {
        "name": "p1",
        "domain": "d",
        "reqs": [],
        "objects": [["o1", "t"], ["o2", None]],
        "init": [at("q")],
        "goal": ["and", []],
        "metric": None,
    }
    d.update(kw)
    return d
