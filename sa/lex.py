"""Text conditions found in the program, as languages."""
from automata import *
from lib import *

NCSTART = frozenset(c for c in ALPHABET if c.isalpha() or c == "_")
NCCHAR = NCSTART | frozenset("-.0123456789\u0663\u00b7")


class SetWord:
    """a first character of one set, then any number of characters of another"""

    def __init__(self, first, rest):
        self.a, self.b = first, rest

    def init(self):
        return 0

    def step(self, st, c):
        if st == 0:
            return 1 if c in self.a else 2
        return 1 if st == 1 and c in self.b else 2

    def accept(self, st):
        return st == 1

    def atoms(self):
        return [self.a, self.b]


class Prefixed:
    """a name, with another one and a colon before it or not"""

    def init(self):
        return 0

    def step(self, st, c):
        if st in (0, 2):
            return st + 1 if c in NCSTART else 4
        if st == 1 and c == ":":
            return 2
        return st if st in (1, 3) and c in NCCHAR else 4

    def accept(self, st):
        return st in (1, 3)

    def atoms(self):
        return [NCSTART, NCCHAR, frozenset(":")]


QNAME = Prefixed()
NCNAME = SetWord(NCSTART, NCCHAR)
NMTOKEN = SetWord(NCCHAR | {":"}, NCCHAR | {":"})

INTS = {"i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1),
        "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
        "usize": (0, 2**64 - 1), "isize": (-2**63, 2**63 - 1)}
BIGINT = "-?[0-9][0-9_]*|\\+[0-9][0-9_]*"
# what the library parsers accept (read off their sources: num-bigint 0.4, bigdecimal 0.4, the standard library's float grammar)
PARSERS = {
    "num_bigint::BigInt": lambda: Exact(BIGINT),
    "num_bigint::BigUint": lambda: Exact("\\+?[0-9][0-9_]*"),
    "bigdecimal::BigDecimal": lambda: Exact("(\\.?[-+]?[0-9][0-9_]*|[-+]?\\.[0-9][0-9_]*|[-+]?[0-9][0-9_]*\\.[0-9_]*)([eE][+-]?[0-9]+)?"),
    "f64": lambda: Exact("[+-]?([iI][nN][fF]([iI][nN][iI][tT][yY])?|[nN][aA][nN]|([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE][+-]?[0-9]+)?)"),
    "f32": lambda: PARSERS["f64"](),
    "bool": lambda: Words(["true", "false"]),
}
for _n, (_lo, _hi) in INTS.items():
    PARSERS[_n] = lambda lo=_lo, hi=_hi: IntRange(lo, hi)
URI_MUST = "([a-z][a-z0-9+.-]*://[a-z0-9.]+(:[0-9]+)?)?(/[a-zA-Z0-9._~-]+)*/?(\\?[a-z0-9=&]*)?(#[a-z0-9]*)?"
URI_MAY = "([!#-;=?-Z\\[\\]_a-z~]|%[0-9a-fA-F]{2})*"
URIS = {"try_from:uriparse::URIReference": (URI_MUST, URI_MAY),
        "try_from:uriparse::URI": ("[a-z][a-z0-9+.-]*://[a-z0-9.]+(:[0-9]+)?(/[a-zA-Z0-9._~-]+)*/?(\\?[a-z0-9=&]*)?(#[a-z0-9]*)?", "[a-zA-Z][a-zA-Z0-9+.-]*:" + URI_MAY),
        "try_from:uriparse::RelativeReference": ("(/[a-zA-Z0-9._~-]+)+/?(\\?[a-z0-9=&]*)?(#[a-z0-9]*)?", "(//|[^:]*([/?#].*)?)" + URI_MAY)}
CHRONO = {"%Y-%m-%d": lambda: Partial(Exact("[0-9]{4}-(0?[1-9]|1[0-2])-(0?[1-9]|1[0-9]|2[0-8])"),
                                      Exact("[\\s+-]*[0-9]+[\\s-]+[0-9]{1,2}[\\s-]+[0-9]{1,2}\\s*"))}


def charset(t):
    """a set of characters given as pattern: a character, several, or a condition"""
    if t[0] == "char":
        return frozenset(chr(t[1]))
    if t[0] == "arr" and all(x[0] == "char" for x in t[1]):
        return frozenset(chr(x[1]) for x in t[1])
    if t[0] in ("lam", "fn"):
        return frozenset(c for c in ALPHABET if charpred(t, c))
    raise Unsupported("a set of characters given as %s" % show(t)[:80])


CHARFN = {
    "is_ascii_whitespace": lambda c: c in ASCII_WS, "is_whitespace": lambda c: c in SPACE, "is_ascii_digit": lambda c: c in "0123456789",
    "is_numeric": lambda c: c in DIGIT, "is_alphabetic": lambda c: c.isalpha(), "is_alphanumeric": lambda c: c.isalnum(),
    "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(), "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(),
    "is_ascii": lambda c: c.isascii(), "is_control": lambda c: ord(c) < 32 or ord(c) == 127, "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF",
    "is_ascii_uppercase": lambda c: "A" <= c <= "Z", "is_ascii_lowercase": lambda c: "a" <= c <= "z", "is_ascii_punctuation": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ",
    "is_ascii_control": lambda c: ord(c) < 32 or ord(c) == 127,
}


def isvar(t):
    return t[0] in ("lv", "lp", "itv", "elem")


def charpred(t, c, var=isvar, env=None):
    """the value of a condition on one character"""
    if t[0] == "fn":
        f = CHARFN.get(t[1].rsplit("::", 1)[-1])
        if f is None:
            raise Unsupported("the condition %s" % t[1])
        return f(c)
    if t[0] == "lam":
        for x in t[3]:
            if x[1] == "ret" and all(charfact(f, c, var, env) for f in x[0]):
                return charpred(x[2], c, var, env)
        raise Unsupported("a condition on characters")
    k = t[0]
    if k == "bool":
        return t[1]
    if env and t in env:
        return env[t]
    if k == "not":
        return not charpred(t[1], c, var, env)
    if k == "and":
        return all(charpred(x, c, var, env) for x in t[1:])
    if k == "or":
        return any(charpred(x, c, var, env) for x in t[1:])
    if k in ("eq", "lt", "le"):
        a, b = num(t[1], c, var), num(t[2], c, var)
        return a == b if k == "eq" else a < b if k == "lt" else a <= b
    if k == "call":
        n = t[1].rsplit("::", 1)[-1]
        if n in CHARFN and len(t[2]) == 1 and var(t[2][0]):
            return CHARFN[n](c)
        if n == "contains" and len(t[2]) == 2:
            r, x = t[2]
            if r[0] == "call" and r[1].endswith("RangeInclusive::new"):
                return num(r[2][0], c, var) <= num(x, c, var) <= num(r[2][1], c, var)
            if r[0] == "arr":
                return any(num(y, c, var) == num(x, c, var) for y in r[1])
            if r[0] == "str":
                return chr(num(x, c, var)) in r[1]
    raise Unsupported("the condition %s" % show(t)[:80])


def charfact(f, c, var, env=None):
    (k, t), v = f
    if k != "b":
        raise Unsupported("the condition %s" % show(t)[:80])
    return charpred(t, c, var, env) == v


def num(t, c, var):
    if t[0] in ("char", "int"):
        return t[1]
    if var(t):
        return ord(c)
    if t[0] == "call" and t[1].endswith("as_char") and len(t[2]) == 1:
        return num(t[2][0], c, var)
    if t[0] == "cast":
        return num(t[2], c, var)
    raise Unsupported("the character %s" % show(t)[:60])


class Texts:
    """texts computed from one variable text"""

    def __init__(self, var, extra=None):
        self.var = var                  # term -> bool
        self.extra = extra or {}        # call name -> language builder (of its single argument)
        self.free = {}

    def wrap(self, t, L):
        """the language of the variable for which t is in L"""
        if self.var(t):
            return L
        if t[0] == "str":
            s = L.init()
            for c in t[1]:
                s = L.step(s, c)
            return Const(L.accept(s))
        if t[0] == "cat":
            i = [x for x in t[1] if x[0] != "str"]
            if len(i) == 1:
                k = t[1].index(i[0])
                if k <= 1 and len(t[1]) - k <= 2:
                    return self.wrap(i[0], Through(Around(t[1][0][1] if k else "", t[1][-1][1] if k < len(t[1]) - 1 else ""), L))
        if t[0] == "call":
            n = t[1].rsplit("::", 1)[-1]
            a = t[2]
            if n == "normalize_whitespace" and len(a) == 1:
                return self.wrap(a[0], Through(Collapse(), L))
            if n == "replace" and len(a) == 3 and a[2][0] == "str":
                cs = charset(a[1]) if a[1][0] != "str" else (frozenset(a[1][1]) if len(a[1][1]) == 1 else None)
                if cs is not None:
                    return self.wrap(a[0], Through(Replace(cs, a[2][1]), L))
            tr = trims(n, a)
            if tr:
                return self.wrap(a[0], Trimmed(L, *tr))
            if n in CASES and len(a) == 1:
                return self.wrap(a[0], Through(Map(CASES[n]), L))
            if n in ("as_str", "to_string", "as_ref", "borrow", "deref", "into", "from") and len(a) == 1:
                return self.wrap(a[0], L)
            if n == "join" and len(a) == 2 and a[1] == ("str", " "):
                s = unlist(a[0])
                if s[0] == "call" and s[1].endswith(("split_ascii_whitespace", "split_whitespace")):
                    f = Collapse()
                    f.WS = SPACE if s[1].endswith("split_whitespace") else ASCII_WS
                    return self.wrap(s[2][0], Through(f, L))
        raise Unsupported("the text %s" % show(t)[:100])

    def pieces(self, t):
        """the text a sequence of pieces at white space comes from"""
        t = unlist(t)
        if t[0] == "call" and t[1].endswith("split_ascii_whitespace"):
            return t[2][0]
        return None

    def lang(self, t):
        """the language of the variable for which the condition t holds"""
        k = t[0]
        if k == "bool":
            return Const(t[1])
        if k == "not":
            return Bool(lambda v: not v[0], self.lang(t[1]))
        if k in ("and", "or"):
            ls = [self.lang(x) for x in t[1:]]
            return Bool(all if k == "and" else any, *ls)
        if k == "isv":
            # ("isv", term, type, variants)
            return self.outcome(t[1], frozenset(t[3]) if isinstance(t[3], (tuple, frozenset, list)) else frozenset([t[3]]))
        if k == "eq":
            a, b = t[1], t[2]
            if a[0] in ("str", "int"):
                a, b = b, a
            if b[0] == "str":
                return self.wrap(a, Words([b[1]]))
            if b == ("int", 0) and a[0] == "call" and a[1] in ("len", "iter:count"):
                s = self.pieces(a[2][0])
                if s is not None:
                    return self.wrap(s, Tokens(Const(True), "none"))
                x = unlist(a[2][0])
                if x[0] == "call" and x[1].endswith("chars"):
                    x = x[2][0]
                return self.wrap(x, Words([""]))
        if k in ("eq", "lt", "le"):
            L = self.numbers(k, t[1], t[2])
            if L is not None:
                return L
        if k == "call":
            n = t[1].rsplit("::", 1)[-1]
            a = t[2]
            if n == "eq_ignore_ascii_case" and len(a) == 2:
                x, y = (a[0], a[1]) if a[1][0] == "str" else (a[1], a[0])
                if y[0] == "str":
                    return self.wrap(x, Through(Map(CASES["to_ascii_lowercase"]), Words([y[1].lower()])))
            if t[1] in self.extra and len(a) == 1:
                return self.wrap(a[0], self.extra[t[1]]())
            if n == "is_match" and len(a) == 2:
                return self.wrap(a[1], Regex(pattern(a[0])))
            if n in ("contains", "starts_with", "ends_with") and len(a) == 2:
                K = {"contains": Contains, "starts_with": Starts, "ends_with": Ends}[n]
                if a[1][0] == "str":
                    if len(a[1][1]) != 1:
                        raise Unsupported("the condition %s" % show(t)[:80])
                    return self.wrap(a[0], K(a[1][1]))
                return self.wrap(a[0], K(charset(a[1])))
        raise Unsupported("the condition %s" % show(t)[:100])

    def numbers(self, k, a, b):
        """the comparison of a number read from the text, or of a length, with a constant"""
        def const(x):
            while x[0] == "cast" or x[0] == "call" and len(x[2]) == 1 and x[1].rsplit("::", 1)[-1] in ("from", "into"):
                x = x[2] if x[0] == "cast" else x[2][0]
            if x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("zero", "one") and not x[2]:
                return int(x[1].endswith("one"))
            return x[1] if x[0] == "int" else None
        flip = const(b) is None
        c, x = (const(a), b) if flip else (const(b), a)
        if c is None:
            return None
        # the numbers x with x k c (or c k x)
        if k == "eq":
            lo, hi = c, c
        elif flip:
            lo, hi = c + (k == "lt"), None
        else:
            lo, hi = None, c - (k == "lt")
        while x[0] == "cast":
            x = x[2]
        if x[0] == "fld" and x[2] == RES + "::Ok":
            p = x[1]
            if p[0] == "call" and p[1].startswith("parse:") and (p[1][6:] in INTS or p[1].endswith(("BigUint", "BigInt"))):
                return self.wrap(p[2][0], Through(Replace("_", ""), Between(lo, hi)))
        if x[0] == "call" and x[1] in ("len", "iter:count"):
            y = unlist(x[2][0])
            if y[0] == "call" and y[1].endswith("chars"):
                return self.wrap(y[2][0], Count(lambda ch: 1, lo, hi))
            if x[1] == "len" and self.pieces(x[2][0]) is None:
                if y[0] == "call" and y[1].rsplit("::", 1)[-1] in ("as_bytes", "bytes"):
                    y = y[2][0]
                return self.wrap(y, Count(lambda ch: len(ch.encode()), lo, hi))
        return None

    def outcome(self, t, vs):
        """the language for which a call comes out as one of the given variants"""
        if t[0] == "call":
            if t[1].startswith("parse:"):
                f = PARSERS.get(t[1][6:])
                if f is None:
                    raise Unsupported("the parser of %s" % t[1][6:])
                L = self.wrap(t[2][0], f())
                return L if vs == frozenset(["Ok"]) else Bool(lambda v: not v[0], L)
            if t[1] in URIS:
                must, may = URIS[t[1]]
                L = self.wrap(t[2][0], Partial(Exact(must), Exact(may)))
                return L if vs == frozenset(["Ok"]) else Bool(lambda v: not v[0], L)
            if t[1].endswith("parse_from_str") and t[2][1][0] == "str" and t[2][1][1] in CHRONO:
                L = self.wrap(t[2][0], CHRONO[t[2][1][1]]())
                return L if vs == frozenset(["Ok"]) else Bool(lambda v: not v[0], L)
            if t[1] == "iter:find":
                s = self.pieces(t[2][0])
                x = unlist(t[2][0])
                if s is not None and t[2][1][0] == "lam":
                    T = Texts(isvar, self.extra)
                    ls = []
                    for fs, kind, v in t[2][1][3]:
                        if kind != "ret":
                            raise Unsupported("a search of %s" % show(x)[:60])
                        one = [T.lang(v)]
                        for (fk, ft), fv in fs:
                            if fk == "b":
                                y = T.lang(ft)
                                one.append(y if fv else Bool(lambda a: not a[0], y))
                            else:
                                one.append(T.outcome(ft, frozenset(fv)))
                        ls.append(Bool(all, *one))
                    L = self.wrap(s, Tokens(Bool(any, *ls), "some"))
                elif x[0] == "call" and x[1].endswith("chars"):
                    L = self.wrap(x[2][0], Contains(charset(t[2][1])))
                else:
                    raise Unsupported("a search of %s" % show(x)[:60])
                return L if vs == frozenset(["Some"]) else Bool(lambda v: not v[0], L)
        raise Unsupported("the outcome of %s" % show(t)[:100])


def unlist(t):
    while t[0] == "call" and t[1] in ("iter:collect", "iter:iter", "iter:map_id"):
        t = t[2][0]
    return t


def pattern(t):
    """the text of a regular expression which is fixed"""
    ps = {x[2][0] for x in subterms(t) if x[0] == "call" and x[1].endswith("Regex::new")}
    if len(ps) == 1:
        p = next(iter(ps))
        if p[0] == "str":
            return p[1]
    raise Unsupported("the expression %s" % show(t)[:60])


class LoopFn(Fn):
    """the text a loop over characters builds up, one at a time"""

    def __init__(self, parts, lp, out, init, elem, name):
        self.parts, self.lp, self.out, self.start, self.elem, self.name = parts, lp, out, init, elem, name
        self.vars = [v for v in sorted(init) if v not in (out, "iter") and not re.match(r"_\d+$", v)]
        self.sets = []

    def init(self):
        return tuple(self.const(self.start[v]) for v in self.vars) + (self.first() != "",)

    def const(self, t):
        if t[0] in ("bool", "int", "char", "str"):
            return t
        if t[0] == "adt" and not t[3]:
            return t
        raise Unsupported("a loop over characters which keeps %s" % show(t)[:60])

    def first(self):
        t = self.start[self.out]
        if t == ("cat", ()) or t == ("str", ""):
            return ""
        if t[0] == "str":
            return t[1]
        raise Unsupported("a text starting as %s" % show(t)[:60])

    def val(self, t, st, c):
        """the value of a term: a constant"""
        if t[0] == "loop":
            if t[2] in self.vars:
                return st[self.vars.index(t[2])]
            raise Unsupported("a loop which looks at %s" % t[2])
        if t == self.elem:
            return ("char", ord(c))
        if t[0] in ("bool", "int", "char", "str") or t[0] == "adt" and not t[3]:
            return t
        return ("bool", self.cond(t, st, c))

    def cond(self, t, st, c):
        k = t[0]
        if k == "bool":
            return t[1]
        if k == "not":
            return not self.cond(t[1], st, c)
        if k == "and":
            return all(self.cond(x, st, c) for x in t[1:])
        if k == "or":
            return any(self.cond(x, st, c) for x in t[1:])
        if k == "eq":
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                # whether anything has been put out
                if y in (("int", 0), ("str", "")) and (x[0] == "call" and x[1] == "len" and self.isout(x[2][0]) or self.isout(x)):
                    return not st[-1]
        if k == "loop":
            v = self.val(t, st, c)
            if v[0] == "bool":
                return v[1]
        if not contains_term(t, lambda y: y[0] == "loop" and y[2] != "iter"):
            return charpred(t, c, lambda y: y == self.elem)
        if k in ("eq", "lt", "le"):
            a, b = self.val(t[1], st, c), self.val(t[2], st, c)
            if k == "eq":
                return a == b
            if a[0] == b[0] and a[0] in ("int", "char"):
                return a[1] < b[1] if k == "lt" else a[1] <= b[1]
        raise Unsupported("a loop over characters which asks %s" % show(t)[:80])

    def isout(self, t):
        return t[0] == "loop" and t[2] == self.out

    def feed(self, st, c):
        for p in self.parts:
            ok = True
            for (k, t), v in p.facts.items():
                if k == "b" and t[0] == "more":
                    ok = ok and v
                elif k == "b":
                    ok = ok and self.cond(t, st, c) == v
                elif k == "v":
                    x = self.val(t, st, c)
                    ok = ok and x[0] == "adt" and x[2] in v
                if not ok:
                    break
            if ok:
                back = p.loops[self.lp][1]
                if back is None:
                    raise Unsupported("a loop over characters which ends early")
                o = self.put(back[self.out], st, c)
                return tuple(self.val(back[v], st, c) for v in self.vars) + (st[-1] or o != "",), o
        raise Unsupported("a loop over characters with a case missing")

    def put(self, t, st, c):
        if self.isout(t):
            return ""
        if t[0] == "upd" and t[1].rsplit("::", 1)[-1] in ("push", "push_str") and len(t[2]) == 2:
            return self.put(t[2][0], st, c) + self.text(t[2][1], st, c)
        if t[0] == "cat":
            return "".join(self.put(x[1], st, c) if x[0] == "spread" and self.isout(x[1]) or self.isout(x) else self.text(x, st, c) for x in t[1])
        raise Unsupported("a text built by %s" % show(t)[:60])

    def text(self, t, st, c):
        x = self.val(t, st, c)
        if x[0] == "char":
            return chr(x[1])
        if x[0] == "str":
            return x[1]
        raise Unsupported("the piece %s" % show(t)[:60])

    def atoms(self):
        # what the conditions tell apart, by asking each of them about every character
        out = [frozenset(" ")]
        for p in self.parts:
            for (k, t), v in p.facts.items():
                if k == "b" and contains_term(t, lambda y: y == self.elem) and t[0] != "more":
                    out.append(frozenset(c for c in ALPHABET if charpred(t, c, lambda y: y == self.elem)))
            back = p.loops[self.lp][1] or {}
            for v in list(self.vars) + [self.out]:
                for x in subterms(back.get(v, ("cat", ()))):
                    if x[0] == "char":
                        out.append(frozenset(chr(x[1])))
                    if x[0] in ("call", "eq", "lt", "le", "not", "and", "or") and contains_term(x, lambda y: y == self.elem) and not contains_term(x, lambda y: y[0] == "loop"):
                        try:
                            out.append(frozenset(c for c in ALPHABET if charpred(x, c, lambda y: y == self.elem)))
                        except Unsupported:
                            pass
        return out


def trims(n, a):
    """(characters, at the start, at the end) a trimming method drops"""
    if n in ("trim", "trim_ascii", "trim_start", "trim_end", "trim_ascii_start", "trim_ascii_end") and len(a) == 1:
        return ASCII_WS if "ascii" in n else SPACE, not n.endswith("_end"), not n.endswith("_start")
    if n in ("trim_matches", "trim_start_matches", "trim_end_matches") and len(a) == 2:
        if a[1][0] == "str":
            if len(a[1][1]) != 1:
                return None
            cs = frozenset(a[1][1])
        else:
            cs = charset(a[1])
        return cs, n != "trim_end_matches", n != "trim_start_matches"
    return None


CASES = {"to_ascii_lowercase": lambda c: c.lower() if c.isascii() else c, "to_ascii_uppercase": lambda c: c.upper() if c.isascii() else c,
         "to_lowercase": lambda c: c.lower(), "to_uppercase": lambda c: c.upper()}


def textfn(t, var, calls=None):
    """the transducer from the variable text to a term"""
    if var(t):
        return Fn()
    if t[0] == "call":
        n, a = t[1].rsplit("::", 1)[-1], t[2]
        if calls and n in calls and len(a) == 1:
            return Seq(textfn(a[0], var, calls), calls[n])
        if n == "replace" and len(a) == 3 and a[2][0] == "str":
            cs = frozenset(a[1][1]) if a[1][0] == "str" and len(a[1][1]) == 1 else charset(a[1]) if a[1][0] != "str" else None
            if cs is not None:
                return Seq(textfn(a[0], var, calls), Replace(cs, a[2][1]))
        tr = trims(n, a)
        if tr:
            return Seq(textfn(a[0], var, calls), *(([SkipWhile(tr[0])] if tr[1] else []) + ([TrimEnd(tr[0])] if tr[2] else [])))
        if n in CASES and len(a) == 1:
            return Seq(textfn(a[0], var, calls), Map(CASES[n]))
        if n in ("as_str", "to_string", "as_ref", "borrow", "deref", "into", "from", "display") and len(a) == 1:
            return textfn(a[0], var, calls)
        if n == "join" and len(a) == 2 and a[1] == ("str", " "):
            s = unlist(a[0])
            if s[0] == "call" and s[1].endswith(("split_ascii_whitespace", "split_whitespace")):
                f = Collapse()
                f.WS = SPACE if s[1].endswith("split_whitespace") else ASCII_WS
                return Seq(textfn(s[2][0], var, calls), f)
    raise Unsupported("the text %s" % show(t)[:100])


def loopfn(parts, val):
    """the transducer from a text parameter to the result of a function"""
    rets = [p for p in parts if p.kind == "ret"]
    backs = [p for p in parts if p.kind == "back"]
    if not backs:
        if len(rets) == 1 and not rets[0].facts:
            return textfn(rets[0].val, lambda y: y == val)
        raise Unsupported("a text chosen by cases")
    if len(rets) != 1 or rets[0].val[0] != "loop" or len({lp for p in parts for lp in p.loops}) != 1:
        raise Unsupported("a text built in another way")
    lp = next(iter(backs[0].loops))
    init = backs[0].loops[lp][0]
    src = [t[1][3] for (k, t) in backs[0].facts if t[0] == "more" and t[1][0] == "loop"]
    if len(src) != 1:
        raise Unsupported("a loop of another kind")
    s, pre = src[0], []
    while s[0] == "call":
        n = s[1].rsplit("::", 1)[-1].rsplit(":", 1)[-1]
        if n == "skip_while":
            pre.append(SkipWhile(charset(s[2][1])))
            s = s[2][0]
        elif n in ("chars", "iter", "trim_start", "trim", "trim_end"):
            if n.startswith("trim"):
                pre += ([] if n == "trim_start" else [TrimEnd(SPACE)]) + ([] if n == "trim_end" else [SkipWhile(SPACE)])
            s = s[2][0]
        else:
            raise Unsupported("a loop over %s" % show(s)[:60])
    if s != val:
        raise Unsupported("a loop over %s" % show(s)[:60])
    return Seq(*(pre[::-1] + [LoopFn(backs, lp, rets[0].val[2], init, ("elem", src[0]), rets[0].val[1])]))
