"""AST -> tokens -> text."""

NAMELESS = {"(", ")"}


class Layout:
    """A cyclic stream of small choices."""

    def __init__(self, choices):
        self.choices = list(choices) or [0]
        self.pos = 0

    def next(self, n):
        """Next choice in 0..n-1."""
        c = self.choices[self.pos % len(self.choices)]
        self.pos += 1
        return c % n


SEPS = [
    " ",
    "\n",
    "\t",
    "  ",
    "\r\n",
    " \n\n  ",
    " ; a comment\n",
    ";c ( ) \" ; ?x :action - 'unbalanced)\n",
    "\n;\n",
    ";;; (and (or) (not\r\n",
    "\t;tab\there\n ; twice in a row ;;\n",
    " ; \u00e9\u4e16 unicode \u2028 \u0085 \x0b still a comment\n",
    "\f",
    "\v ",
    " ;" + "x" * 40 + "\n",
    "\r",
    " ; e\u0301 \U0001f600 \ufb01 \u0130 \u212b\n",
]
GAPS = [""] + SEPS


def join(tokens, layout, lead=True):
    """Join the tokens with separators taken from the layout."""
    out = []
    prev = None
    if lead:
        out.append(GAPS[layout.next(len(GAPS))])
    for t in tokens:
        if prev is not None:
            if prev in NAMELESS or t in NAMELESS:
                out.append(GAPS[layout.next(len(GAPS))])
            else:
                out.append(SEPS[layout.next(len(SEPS))])
        out.append(t)
        prev = t
    if lead:
        tail = layout.next(len(GAPS) + 2)
        out.append(GAPS[tail] if tail < len(GAPS) else (";end" if tail == len(GAPS) else " ; end ) ("))
    return "".join(out)


def plain(tokens):
    """Join with single spaces."""
    return " ".join(tokens)


class Tokens:
    """Renders AST pieces to token lists; `lay` picks among equivalent spellings."""

    def __init__(self, lay=None):
        self.lay = lay or Layout([0])

    # ---- lists
    def type_def(self, types):
        if len(types) == 1 and self.lay.next(4) != 3:
            return [types[0]]
        return ["(", "either", *types, ")"]

    def typed_list(self, items, prefix="", primitive=False, tok=None):
        """items: [item, types]; untyped items must come last."""
        out = []
        i = 0
        n = len(items)
        while i < n:
            types = items[i][1]
            j = i
            group = []
            while j < n and items[j][1] == types:
                group.append(items[j][0])
                j += 1
                if types and self.lay.next(3) == 2:
                    break  # repeat the type for the next item
            for g in group:
                out += tok(g) if tok else [prefix + g]
            if types:
                out.append("-")
                out += [types[0]] if primitive else self.type_def(types)
            i = j
        return out

    def params(self, params):
        return self.typed_list(params, "?")

    def names(self, items):
        return self.typed_list([[n, [t] if t else []] for n, t in items], "", True)

    # ---- terms
    def term(self, t):
        return [("?" if t[0] == "v" else "") + t[1]]

    def atom(self, a):
        out = ["(", a[1]]
        for t in a[2]:
            out += self.term(t)
        return out + [")"]

    def fexp(self, e, bare=True):
        k = e[0]
        if k == "num":
            return [e[1]]
        if k == "fn":
            if not e[2] and bare and self.lay.next(3) == 2:
                return [e[1]]
            return self.atom(e)
        out = ["(", e[1]]
        for x in e[2]:
            out += self.fexp(x)
        return out + [")"]

    def gd(self, f):
        k = f[0]
        if k == "empty":
            return ["(", ")"]
        if k == "atom":
            return self.atom(f)
        if k == "eq":
            return ["(", "=", *self.term(f[1]), *self.term(f[2]), ")"]
        if k == "cmp":
            bare = f[1] != "="
            return ["(", f[1], *self.fexp(f[2], bare), *self.fexp(f[3], bare), ")"]
        if k == "not":
            return ["(", "not", *self.gd(f[1]), ")"]
        if k in ("and", "or", "oneof"):
            out = ["(", k]
            for x in f[1]:
                out += self.gd(x)
            return out + [")"]
        if k == "imply":
            return ["(", "imply", *self.gd(f[1]), *self.gd(f[2]), ")"]
        if k in ("exists", "forall"):
            return ["(", k, "(", *self.params(f[1]), ")", *self.gd(f[2]), ")"]
        if k == "when":
            return ["(", "when", *self.gd(f[1]), *self.gd(f[2]), ")"]
        if k == "eforall":
            return ["(", "forall", "(", *self.params(f[1]), ")", *self.gd(f[2]), ")"]
        if k == "neff":
            return ["(", f[1], *self.fexp(f[2]), *self.fexp(f[3]), ")"]
        raise AssertionError(k)

    # ---- top level
    def domain(self, d):
        out = ["(", "define", "(", "domain", d["name"], ")"]
        if d["reqs"]:
            out += ["(", ":requirements", *[":" + r for r in d["reqs"]], ")"]
        if d["types"] is not None:
            out += ["(", ":types", *self.names(d["types"]), ")"]
        if d["consts"] is not None:
            out += ["(", ":constants", *self.names(d["consts"]), ")"]
        if d["preds"]:
            out += ["(", ":predicates"]
            for n, ps in d["preds"]:
                out += ["(", n, *self.params(ps), ")"]
            out.append(")")
        if d["funcs"]:
            out += ["(", ":functions"]
            items = [[[n, ps], ["number"] if num else []] for n, ps, num in d["funcs"]]
            out += self.typed_list(items, primitive=True, tok=lambda f: ["(", f[0], *self.params(f[1]), ")"])
            out.append(")")
        for s in d["structs"]:
            out += self.struct(s)
        return out + [")"]

    def struct(self, s):
        if s[0] == "derived":
            return ["(", ":derived", "(", s[1], *self.params(s[2]), ")", *self.gd(s[3]), ")"]
        _, n, ps, pre, eff = s
        out = ["(", ":action", n, ":parameters", "(", *self.params(ps), ")"]
        if pre is not None:
            out += [":precondition", *self.gd(pre)]
        if eff is not None:
            out += [":effect", *self.gd(eff)]
        return out + [")"]

    def init_el(self, e):
        if e[0] == "assign":
            fn = self.fexp(e[1])
            return ["(", "=", *fn, e[2][1], ")"]
        return self.gd(e)

    def problem(self, p):
        out = ["(", "define", "(", "problem", p["name"], ")", "(", ":domain", p["domain"], ")"]
        if p["reqs"]:
            out += ["(", ":requirements", *[":" + r for r in p["reqs"]], ")"]
        if p["objects"] is not None:
            out += ["(", ":objects", *self.names(p["objects"]), ")"]
        out += ["(", ":init"]
        for e in p["init"]:
            out += self.init_el(e)
        out.append(")")
        out += ["(", ":goal", *self.gd(p["goal"]), ")"]
        if p["metric"]:
            out += ["(", ":metric", p["metric"][0], *self.fexp(p["metric"][1]), ")"]
        return out + [")"]

    def plan(self, steps):
        out = []
        for n, args in steps:
            out += ["(", n, *args, ")"]
        return out


def tokens_of(kind, ast, lay=None):
    """Tokens of a domain / problem / plan AST."""
    return getattr(Tokens(lay), kind)(ast)


def text_of(kind, ast, layout=()):
    """Text of a domain / problem / plan AST under a layout."""
    lay = Layout(layout)
    toks = tokens_of(kind, ast, lay)
    if not layout:
        return plain(toks)
    return join(toks, lay)
