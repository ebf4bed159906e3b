"""Parsing expressions of the functions which parse: for each of them, from the value-flow summary of
its body (combinators are terms, closures are lambdas, `?` and `match` on a parse result are facts),
the sequence of what it reads, with its ordered choices, options, repetitions and look-aheads, and
the value it yields on each way through.  The same form is built from a reference grammar, and the two
are brought to a normal form and compared.

Item kinds   ("lit", s) ("cls", ranges) ("until", s) ("eof",) ("nt", key) ("look", items, positive)
             ("alt", [items, ...]) ("rep", items, separator items, min) ("mark",)
A choice with an empty last alternative is an option.  Values refer to items by number; a slice of
the input is a pair of marks.
"""
import collections
import itertools
import re


class Unsupported(Exception):
    pass


class Split(Exception):
    pass


MAXC = 0x10FFFF


def ranges(*rs):
    """normalised character ranges"""
    rs = sorted((a, b) for a, b in rs if a <= b)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def negate(rs):
    out, at = [], 0
    for a, b in rs:
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at <= MAXC:
        out.append((at, MAXC))
    return tuple(out)


def inter(x, y):
    return ranges(*((max(a, c), min(b, d)) for a, b in x for c, d in y))


def chars(s):
    return ranges(*((ord(c), ord(c)) for c in s))


class Item:
    __slots__ = ("k", "uid", "a", "cut")

    def __init__(self, k, uid, a=None, cut=False):
        self.k, self.uid, self.a, self.cut = k, uid, a, cut

    def __repr__(self):
        return show_item(self)


class Node:
    __slots__ = ("items", "cases")

    def __init__(self, items, cases):
        self.items, self.cases = items, cases


def show_chars(rs):
    neg = rs and rs[0][0] == 0 and rs[-1][1] == MAXC
    out = []
    for a, b in (negate(rs) if neg else rs):
        f = lambda c: chr(c) if 0x21 <= c < 0x7f else "\\u{%X}" % c
        out.append(f(a) if a == b else f(a) + "-" + f(b))
    s = "".join(out)
    return "[%s%s]" % ("^" if neg else "", s if len(s) < 40 else s[:36] + "…")


def show_item(i):
    if i.k == "lit":
        return "'%s'" % i.a
    if i.k == "cls":
        return show_chars(i.a)
    if i.k == "until":
        return "…'%s'" % i.a
    if i.k == "eof":
        return "end-of-input"
    if i.k == "nt":
        return "<%s>" % (i.a[0].split("::")[-1] + "".join(" " + str(x[-1]) for x in i.a[1]))
    if i.k == "look":
        return ("&" if i.a[1] else "!") + "(" + show_items(i.a[0]) + ")"
    if i.k == "alt":
        if i.a and not [x for x in i.a[-1] if x.k != "mark"]:
            return "(" + " | ".join(show_items(x) for x in i.a[:-1]) + ")?"
        return "(" + " | ".join(show_items(x) for x in i.a) + ")"
    if i.k == "rep":
        return "(" + show_items(i.a[0]) + ")" + ("*" if i.a[2] == 0 else "+") + (" separated by " + show_items(i.a[1]) if i.a[1] else "")
    return ""


def show_items(items):
    return " ".join(x for x in (show_item(i) for i in items) if x)


def fldt(t, owner, name):
    return ("fld", t, owner, name)


OKF = "std::result::Result::Ok"
ERRF = "std::result::Result::Err"


def okval(r):
    return ("fld", ("fld", r, OKF, "0"), "tuple", "1")


def okrest(r):
    return ("fld", ("fld", r, OKF, "0"), "tuple", "0")


def walk(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


def sub(t, m):
    """replace whole subterms"""
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        h = id(x)
        if h in memo:
            return memo[h][1]
        r = m.get(x)
        if r is None:
            r = tuple(go(y) for y in x)
            if all(a is b for a, b in zip(r, x)):
                r = x
        memo[h] = (x, r)
        return r
    return go(t)


TEXTFNS = {"display", "fragment", "to_string", "to_owned", "into_fragment", "from", "into", "clone", "as_str", "as_ref", "deref", "borrow", "fmt"}


class Builder:
    """terms and summaries to nodes"""

    def __init__(self, prog, vf, isparser, module):
        self.prog, self.vf, self.isparser, self.module = prog, vf, isparser, module
        self.n = itertools.count(1)
        self.inline = set()
        self.stack = []
        self.memo = {}
        self.seen = set()

    def uid(self):
        return next(self.n)

    # ---------------------------------------------------------------- leaves and composition
    def mark(self):
        return Item("mark", self.uid())

    def leaf(self, k, a, charval=None):
        """one item which consumes: its value is the slice it consumed"""
        m1, it, m2 = self.mark(), Item(k, self.uid(), a), self.mark()
        val = ("sl", m1.uid, m2.uid)
        if charval == "char":
            val = ("char", ord(a)) if k == "lit" else ("ch", it.uid)
        return Node([m1, it, m2], [({}, {}, val)])

    def seq(self, nodes):
        items, cases = [], [({}, {}, ())]
        for n in nodes:
            items += n.items
            cases = [({**s, **s2}, {**f, **f2}, v + (v2,)) for s, f, v in cases for s2, f2, v2 in n.cases]
            if len(cases) > 4000:
                raise Unsupported("too many ways through a sequence")
        return Node(items, [(s, f, ("tup", v)) for s, f, v in cases])

    def alt(self, nodes):
        uid = self.uid()
        alts, cases = [], []
        for n in nodes:
            base = len(alts)
            core = [i for i in n.items if i.k != "mark"]
            # a choice as an alternative is part of the choice
            if len(core) == 1 and core[0].k == "alt" and not core[0].cut and len(n.items) == 1:
                inner = core[0]
                alts += inner.a
                for s, f, v in n.cases:
                    s = dict(s)
                    j = s.pop(inner.uid, None)
                    for k in ([j] if j is not None else range(len(inner.a))):
                        cases.append(({**s, uid: base + k}, f, v))
            else:
                alts.append(n.items)
                cases += [({**s, uid: base}, f, v) for s, f, v in n.cases]
        return Node([Item("alt", uid, alts)], cases)

    def some(self, v):
        return ("adt", "std::option::Option", "Some", (("0", v),))

    NONE = ("adt", "std::option::Option", "None", ())

    def opt(self, n):
        return self.alt([Node(n.items, [(s, f, self.some(v)) for s, f, v in n.cases]), Node([], [({}, {}, self.NONE)])])

    def rep(self, n, sep, mn):
        it = Item("rep", self.uid(), [n.items, sep.items if sep else [], mn, n.cases])
        return Node([it], [({}, {}, ("list", it.uid))])

    def text(self, n):
        m1, m2 = self.mark(), self.mark()
        return Node([m1] + n.items + [m2], [({}, {}, ("sl", m1.uid, m2.uid))])

    def valued(self, n, f):
        """the node with a function of its value: f(value) is a list of (facts, value)"""
        out = []
        for s, fa, v in n.cases:
            for f2, v2 in f(v):
                g = dict(fa)
                bad = False
                for k, x in f2.items():
                    if g.get(k, x) != x:
                        bad = True
                    g[k] = x
                if not bad:
                    out.append((s, g, v2))
        return Node(n.items, out)

    def const(self, n, val):
        return Node(n.items, [({}, {}, val)])

    # ---------------------------------------------------------------- simplification of values
    def simp(self, t):
        memo = {}

        def go(x):
            if not isinstance(x, tuple):
                return x
            if x and x[0] == "fn":
                return x
            r = memo.get(id(x))
            if r is not None:
                return r[1]
            y = tuple(go(z) for z in x)
            y = self.simp1(y)
            memo[id(x)] = (x, y)
            return y
        return go(t)

    def simp1(self, t):
        if not t:
            return t
        k = t[0]
        if k == "fld":
            b = t[1]
            if b[0] == "adt":
                for n, x in b[3]:
                    if n == t[3]:
                        return x
            if b[0] == "tup" and t[2] == "tuple":
                i = int(t[3])
                if i < len(b[1]):
                    return b[1][i]
        elif k == "call":
            nm = t[1].split("::")[-1]
            a = t[2]
            if nm == "apply" and a:
                if a[0][0] == "ctor":
                    return ("adt", a[0][1], a[0][2], tuple((str(i), x) for i, x in enumerate(a[1:])))
                if a[0][0] == "lam":
                    r = self.beta(a[0], a[1:])
                    if len(r) == 1 and not r[0][0]:
                        return r[0][1]
            if len(a) == 1:
                if nm in TEXTFNS and a[0][0] == "sl":
                    return ("text", a[0][1], a[0][2])
                if nm in TEXTFNS and a[0][0] in ("text", "str"):
                    return a[0]
                if nm in ("location_offset", "get_utf8_column") and a[0][0] == "sl":
                    return ("pos", a[0][1]) if nm == "location_offset" else t
                if nm in ("len", "input_len") and a[0][0] in ("text", "sl"):
                    return ("len", a[0][1], a[0][2])
                if nm in ("count", "iter:count") and a[0][0] == "call" and a[0][1].split("::")[-1] == "chars" and a[0][2][0][0] in ("text", "sl"):
                    return ("nchars",) + a[0][2][0][1:]
                if nm == "is_some" and a[0][0] == "adt":
                    return ("bool", a[0][2] == "Some")
                if nm == "is_none" and a[0][0] == "adt":
                    return ("bool", a[0][2] == "None")
        if k == "bin" and t[1] == "Add" and len(t) == 4:
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x[0] == "pos" and y[0] == "nchars" and x[1] == y[1]:
                    return ("pos+chars", y[1], y[2])
        if k in ("bin", "op", "call", "add") and any(isinstance(x, tuple) and x and x[0] == "len" for x in walk(t)):
            xs = [x for x in walk(t) if x and x[0] in ("pos", "len")]
            ops = [x for x in walk(t) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ("pos", "len")]
            names = "".join(str(z) for z in t if isinstance(z, str)).lower()
            if len(xs) == 2 and "add" in names or "+" in names and len(xs) == 2:
                p = [x for x in xs if x[0] == "pos"]
                ln = [x for x in xs if x[0] == "len"]
                if len(p) == 1 and len(ln) == 1 and p[0][1] == ln[0][1]:
                    return ("pos", ln[0][2])
        return t

    def beta(self, lam, args):
        if lam[0] == "ctor":
            return [({}, ("adt", lam[1], lam[2], tuple((str(i), x) for i, x in enumerate(args))))]
        if lam[0] == "fn":
            fn = self.prog.fns.get(lam[1]) if lam[1] in self.prog.fns else None
            nm = lam[1].split("::")[-1]
            if nm in ("from", "into", "to_string", "to_owned", "new") and len(args) == 1:
                return [({}, self.simp(("call", nm, tuple(args))) if args[0][0] == "sl" else args[0])]
            if fn is not None:
                parts = self.vf.summarize(fn)
                m = {("arg", n): a for n, a in zip(fn.argnames(), args)}
                return self.partvals([(p.facts, p.kind, p.val) for p in parts], m)
            raise Unsupported("value computed by " + lam[1])
        if lam[0] != "lam":
            raise Unsupported("value computed by %s" % (lam[0],))
        m = {("lp", lam[1], i): a for i, a in enumerate(args)}
        return self.partvals([(dict(p[0]), p[1], p[2]) for p in lam[3]], m)

    def made(self, lam, v):
        try:
            return self.beta(lam, [v])
        except Unsupported:
            return [({}, ("call", "apply", (("made", self.uid()), v)))]

    def partvals(self, parts, m):
        out = []
        for facts, kind, val in parts:
            if kind != "ret":
                raise Unsupported("a computed value which may end in " + kind)
            f2 = self.resolve(facts, m)
            if f2 is None:
                continue
            out.append((f2, self.simp(sub(val, m))))
        return out

    def resolve(self, facts, m):
        """the facts which stay open under a substitution; None when one of them is false"""
        out = {}
        for (k, t), x in facts.items():
            t = self.simp(sub(t, m) if m else t)
            d = self.decide(k, t, x)
            if d is False:
                return None
            if d is None:
                key = (k, t)
                if k == "v" and key in out:
                    x = frozenset(x) & frozenset(out[key])
                    if not x:
                        return None
                elif key in out and out[key] != x:
                    return None
                out[key] = x
        return out

    def decide(self, k, t, x):
        if k == "v" and t[0] == "adt":
            return t[2] in x
        if k == "sw" and t[0] in ("char", "int"):
            if isinstance(x, tuple) and x and x[0] == "not":
                return t[1] not in x[1]
            return t[1] == x
        if k == "b":
            if t[0] == "bool":
                return t[1] == x
            if t[0] in ("eq", "ne") and len(t) == 3 and all(y[0] in ("char", "int", "str") for y in t[1:]):
                return ((t[1] == t[2]) == (t[0] == "eq")) == x
        return None

    # ---------------------------------------------------------------- parsers
    def parser(self, p):
        """the node of a term which is a parser"""
        k = p[0]
        if k == "tup":
            return self.seq([self.parser(x) for x in p[1]])
        if k == "fn":
            return self.fnparser(p[1])
        if k == "lam":
            inp = ("lp", p[1], 0)
            return self.body([(dict(x[0]), x[1], x[2]) for x in p[3]], inp)
        if k == "str":
            return self.leaf("lit", p[1])
        if k == "call":
            return self.combinator(p[1], p[2], p)
        if k == "ctor":
            raise Unsupported("a constructor as a parser")
        raise Unsupported("a parser given by a %s" % k)

    def fnparser(self, path):
        nm = path.split("::")[-1]
        if path in self.prog.fns:
            return self.nonterminal(path, ())
        if not path.startswith(("nom::", "nom_locate::")):
            known = self.resolvefn(path)
            if known:
                return self.nonterminal(known, ())
            raise Unsupported("parser " + path)
        return self.combinator(path, (), None)

    def lit(self, a):
        if a[0] == "str":
            return a[1]
        if a[0] == "char":
            return chr(a[1])
        raise Unsupported("a literal that is not a constant")

    def clsof(self, a):
        """a set of characters given as a string, an array or a predicate"""
        if a[0] == "str":
            return chars(a[1])
        if a[0] == "char":
            return chars(chr(a[1]))
        if a[0] == "lam":
            return self.pred(a)
        if a[0] in ("arr", "tup", "array"):
            out = ()
            for x in a[1]:
                out = ranges(*(out + self.clsof(x)))
            return out
        if a[0] == "fn":
            nm = a[1].split("::")[-1]
            t = {"is_alphabetic": None, "is_ascii_digit": ((48, 57),), "is_ascii_alphabetic": ((65, 90), (97, 122)),
                 "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122))}.get(nm)
            if t:
                return t
            fn = self.prog.fns.get(a[1])
            if fn is not None:
                parts = tuple((tuple(p.facts.items()), p.kind, p.val) for p in self.vf.summarize(fn))
                return self.charpred([(dict(f), k, v) for f, k, v in parts], ("arg", fn.argnames()[0]))
        raise Unsupported("a set of characters given by a %s" % a[0])

    def pred(self, lam):
        return self.charpred([(dict(f), k, v) for f, k, v in lam[3]], ("lp", lam[1], 0))

    def charpred(self, parts, c):
        acc = ()
        for facts, kind, val in parts:
            if kind != "ret":
                raise Unsupported("predicate")
            s = ((0, MAXC),)
            for (k, t), x in facts.items():
                s = inter(s, self.charfact(k, t, x, c))
            s = inter(s, self.charcond(val, c))
            acc = ranges(*(acc + s))
        return acc

    def charterm(self, t, c):
        while t != c and t[0] == "call" and t[1].split("::")[-1] in ("as_char", "into", "from", "clone", "deref") and len(t[2]) == 1:
            t = t[2][0]
        return t == c

    def charfact(self, k, t, x, c):
        if k == "b":
            s = self.charcond(t, c)
            return s if x else negate(s)
        if k == "sw" and self.charterm(t, c):
            if isinstance(x, tuple) and x and x[0] == "not":
                return negate(ranges(*((v, v) for v in x[1])))
            return ((x, x),)
        raise Unsupported("predicate")

    def charcond(self, t, c):
        k = t[0]
        if k == "bool":
            return ((0, MAXC),) if t[1] else ()
        if k == "not":
            return negate(self.charcond(t[1], c))
        if k in ("and", "or"):
            xs = t[1] if len(t) == 2 else t[1:]
            s = ((0, MAXC),) if k == "and" else ()
            for x in xs:
                y = self.charcond(x, c)
                s = inter(s, y) if k == "and" else ranges(*(s + y))
            return s
        if k == "call":
            nm = t[1].split("::")[-1]
            a = t[2]
            if nm == "contains" and len(a) == 2 and self.charterm(a[1], c):
                r = a[0]
                if r[0] == "call" and r[1].split("::")[-1] == "new" and len(r[2]) == 2 and all(x[0] == "char" for x in r[2]):
                    return ranges((r[2][0][1], r[2][1][1]))
                if r[0] == "adt" and r[1].startswith("std::ops::Range"):
                    f = dict(r[3])
                    ends = [f.get(n) for n in ("start", "end")]
                    if all(x and x[0] == "char" for x in ends):
                        incl = "Inclusive" in r[1]
                        return ranges((ends[0][1], ends[1][1] - (0 if incl else 1)))
                if r[0] in ("arr", "array", "str", "tup"):
                    return self.clsof(r)
            fixed = {"is_ascii_digit": ((48, 57),), "is_ascii_alphabetic": ((65, 90), (97, 122)),
                     "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)), "is_ascii_uppercase": ((65, 90),),
                     "is_ascii_lowercase": ((97, 122),)}
            if nm in fixed and len(a) == 1 and self.charterm(a[0], c):
                return fixed[nm]
            if nm == "matches" or nm == "is":
                raise Unsupported("predicate")
        if k in ("eq", "ne", "lt", "le", "gt", "ge") and len(t) == 3:
            x, y = t[1], t[2]
            if self.charterm(x, c) and y[0] in ("char", "int"):
                op, v = k, y[1]
            elif self.charterm(y, c) and x[0] in ("char", "int"):
                op, v = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(k, k), x[1]
            else:
                raise Unsupported("predicate")
            return {"eq": ((v, v),), "ne": negate(((v, v),)), "lt": ranges((0, v - 1)), "le": ranges((0, v)),
                    "gt": ranges((v + 1, MAXC)), "ge": ranges((v, MAXC))}[op]
        raise Unsupported("predicate on a character: %s" % k)

    WS = " \t\r\n"

    def combinator(self, path, a, term):
        nm = path.split("::")[-1]
        if not path.startswith(("nom::", "nom_locate::")) and nm != "apply":
            raise Unsupported("parser made by " + path)
        P = self.parser
        if nm in ("tag",):
            return self.leaf("lit", self.lit(a[0]))
        if nm == "char":
            return self.leaf("lit", self.lit(a[0]), "char")
        if nm == "satisfy":
            return self.leaf("cls", self.clsof(a[0]), "char")
        if nm == "one_of":
            return self.leaf("cls", self.clsof(a[0]), "char")
        if nm == "none_of":
            return self.leaf("cls", negate(self.clsof(a[0])), "char")
        if nm == "anychar":
            return self.leaf("cls", ((0, MAXC),), "char")
        runs = {"is_not": (1, True), "is_a": (1, False), "take_while": (0, False), "take_while1": (1, False), "take_till": (0, True), "take_till1": (1, True)}
        if nm in runs:
            mn, neg = runs[nm]
            s = self.clsof(a[0])
            return self.run(negate(s) if neg else s, mn)
        fixed = {"multispace": self.WS, "space": " \t", "digit": "0123456789"}
        m = re.match(r"(multispace|space|digit)([01])$", nm)
        if m:
            return self.run(chars(fixed[m.group(1)]), int(m.group(2)))
        if nm == "not_line_ending":
            # up to a line feed or the end; an error at a carriage return which no line feed follows
            n = self.run(negate(chars("\r\n")), 0)
            look = Item("look", self.uid(), [[Item("lit", self.uid(), "\r"), Item("look", self.uid(), [[Item("lit", self.uid(), "\n")], False])], False])
            return Node(n.items + [look], n.cases)
        if nm == "newline":
            return self.leaf("lit", "\n", "char")
        if nm == "tab":
            return self.leaf("lit", "\t", "char")
        if nm == "line_ending":
            return self.text(self.alt([self.leaf("lit", "\n"), self.leaf("lit", "\r\n")]))
        if nm == "take_until":
            return self.leaf("until", self.lit(a[0]))
        if nm == "position":
            m1 = self.mark()
            return Node([m1], [({}, {}, ("sl", m1.uid, m1.uid))])
        if nm == "eof":
            n = self.leaf("eof", None)
            return n
        if nm == "rest":
            return self.run(((0, MAXC),), 0)
        if nm == "alt":
            x = a[0]
            if x[0] not in ("tup", "arr", "array"):
                raise Unsupported("alternatives that are not listed")
            return self.alt([P(y) for y in x[1]])
        if nm == "or":
            return self.alt([P(a[0]), P(a[1])])
        if nm in ("pair", "and"):
            return self.seq([P(a[0]), P(a[1])])
        if nm == "tuple":
            return P(a[0])
        if nm in ("preceded", "terminated", "delimited", "separated_pair"):
            n = self.seq([P(x) for x in a])
            pick = {"preceded": (1,), "terminated": (0,), "delimited": (1,), "separated_pair": (0, 2)}[nm]
            return Node(n.items, [(s, f, v[1][pick[0]] if len(pick) == 1 else ("tup", tuple(v[1][i] for i in pick))) for s, f, v in n.cases])
        if nm == "map":
            return self.valued(P(a[0]), lambda v: self.made(a[1], v))
        if nm == "value":
            n = P(a[1])
            return Node(n.items, [({}, {}, self.simp(a[0]))])
        if nm in ("into", "into_parser", "complete", "context", "into_output"):
            return P(a[-1])
        if nm == "verify" and len(a) == 2:
            n = P(a[0])
            return Node(n.items + [Item("guard", self.uid())], n.cases)
        if nm == "recognize":
            return self.text(P(a[0]))
        if nm == "consumed":
            n = P(a[0])
            m1, m2 = self.mark(), self.mark()
            return Node([m1] + n.items + [m2], [(s, f, ("tup", (("sl", m1.uid, m2.uid), v))) for s, f, v in n.cases])
        if nm == "opt":
            return self.opt(P(a[0]))
        if nm == "cond" and a[0][0] == "bool":
            return self.valued(P(a[1]), lambda v: [({}, self.some(v))]) if a[0][1] else Node([], [({}, {}, self.NONE)])
        if nm == "success":
            return Node([], [({}, {}, self.simp(a[0]))])
        if nm == "fail":
            return Node([Item("cls", self.uid(), ())], [])
        if nm == "cut":
            n = P(a[0])
            for i in n.items:
                i.cut = True
            return n
        if nm == "peek":
            n = P(a[0])
            return Node([Item("look", self.uid(), [n.items, True])], n.cases)
        if nm == "not":
            n = P(a[0])
            return Node([Item("look", self.uid(), [n.items, False])], [({}, {}, ("tup", ()))])
        if nm == "all_consuming":
            n = P(a[0])
            return Node(n.items + [Item("eof", self.uid())], n.cases)
        if nm in ("many0", "many1"):
            return self.rep(P(a[0]), None, int(nm[-1]))
        if nm in ("many0_count", "many1_count"):
            n = self.rep(P(a[0]), None, int(nm[4]))
            return Node(n.items, [(s, f, ("count", v[1])) for s, f, v in n.cases])
        if nm in ("separated_list0", "separated_list1"):
            return self.rep(P(a[1]), P(a[0]), int(nm[-1]))
        if nm in ("fold_many0", "fold_many1"):
            n = self.rep(P(a[0]), None, int(nm[-1]))
            unit = a[2][0] == "lam" and all(p[2] == ("tup", ()) for p in a[2][3])
            return Node(n.items, [({}, {}, ("tup", ()) if unit else ("folded", n.items[0].uid))])
        if nm == "apply" and len(a) == 1:
            return P(a[0])
        raise Unsupported("combinator " + path)

    def run(self, cs, mn):
        m1, m2 = self.mark(), self.mark()
        it = Item("rep", self.uid(), [[Item("cls", self.uid(), cs)], [], mn, None])
        return Node([m1, it, m2], [({}, {}, ("sl", m1.uid, m2.uid))])

    # ---------------------------------------------------------------- functions
    def nonterminal(self, path, args):
        self.seen.add(path)
        if path in self.inline:
            if (path, args) in self.stack:
                raise Unsupported("recursion through " + path)
            self.stack.append((path, args))
            try:
                return self.function(path, args)
            finally:
                self.stack.pop()
        it = Item("nt", self.uid(), (path, args))
        m1, m2 = self.mark(), self.mark()
        # a token's text can be used for its value
        return Node([m1, it, m2], [({}, {}, ("val", it.uid, m1.uid, m2.uid))])

    def function(self, path, args=()):
        fn = self.prog.fns[path]
        names = fn.argnames()
        inp = self.input_arg(fn)
        parts = self.vf.summarize(fn)
        m = {}
        rest = [n for n in names if n != inp]
        for n, a in zip(rest, args):
            m[("arg", n)] = a
        ps = []
        for p in parts:
            facts = {(k, sub(t, m)): x for (k, t), x in p.facts.items()}
            if p.loops:
                raise Unsupported("a loop in " + fn.name)
            ps.append((facts, p.kind, sub(p.val, m)))
        return self.body(ps, ("arg", inp))

    def input_arg(self, fn):
        for n, t in zip(fn.argnames(), fn.argtypes()):
            if "LocatedSpan" in t:
                return n
        raise Unsupported("no input in " + fn.name)

    def asparse(self, t, inp):
        """the parser applied to the given input by a call"""
        if t[0] != "call":
            return None
        nm = t[1].split("::")[-1]
        a = t[2]
        if nm in ("parse", "parse_complete", "apply") and len(a) == 2 and a[1] == inp and (nm == "apply" or t[1].startswith("nom")):
            return ("p", a[0])
        if inp in a:
            if t[1].startswith(("nom::", "nom_locate::")) and "LocatedSpan::" not in t[1] and len(a) == 1:
                return ("p", ("fn", t[1], None))
            path = self.resolvefn(t[1])
            if path:
                return ("n", path, tuple(x for x in a if x != inp))
        return None

    def resolvefn(self, name):
        for p in (name, self.module + "::" + name):
            if p in self.prog.fns and self.isparser(self.prog.fns[p]):
                return p
        c = [f.path for f in self.prog.fns.values() if f.name == name.split("::")[-1] and self.isparser(f)]
        return c[0] if len(c) == 1 else None

    def apply(self, how):
        return self.parser(how[1]) if how[0] == "p" else self.nonterminal(how[1], how[2])

    def body(self, parts, inp):
        end = self.mark()
        n = self.interp(parts, inp)
        # what is left where the input was: only positions in it can be used
        m0 = self.mark()
        if not any(inp == y for s, f, v in n.cases for x in [v] + [t for _, t in f] for y in walk(x)):
            return n
        items = [m0] + n.items
        return Node(items, [(s, {(k, self.simp(sub(t, {inp: ("sl", m0.uid, 0)}))): x for (k, t), x in f.items()},
                             self.simp(sub(v, {inp: ("sl", m0.uid, 0)}))) for s, f, v in n.cases])

    def interp(self, parts, inp):
        """what is read from the input on: parts are (facts, kind, value) of Result type"""
        if any(k != "ret" for _, k, _ in parts):
            raise Unsupported("a parser which may end in " + [k for _, k, _ in parts if k != "ret"][0])
        # parses of this very input
        occ = {}
        for i, (facts, _, val) in enumerate(parts):
            got = {}
            for t in itertools.chain.from_iterable(walk(x) for x in [val] + [t for _, t in facts]):
                if t[:1] == ("call",) and len(t) == 3 and isinstance(t[2], tuple) and inp in t[2]:
                    how = self.asparse(t, inp)
                    if how:
                        got[t] = how
            for t, how in got.items():
                occ.setdefault(t, (how, []))[1].append(i)
        if not occ:
            return self.leafbody(parts, inp)
        # the first of them: it occurs on every way
        first = [t for t, (how, ix) in occ.items() if len(ix) == len(parts)]
        if not first:
            raise Split()
        if len(first) > 1:
            # one which every way decides first: the others occur only where it failed
            first = [t for t in first if all(("v", t) in f for f, _, _ in parts) and
                     not any(u != t and u in set(walk(t)) for u in first)] or first
            raise_if = len(first) != 1
            if raise_if:
                raise Unsupported("two parses of one input")
        r = first[0]
        node = self.apply(occ[r][0])
        tail = [p for p in parts if p[2] == r and ("v", r) not in p[0]]
        if tail:
            if len(tail) != len(parts):
                raise Unsupported("a parse result partly passed on")
            outs = []
            for f, _, _ in tail:
                outs.append(f)
            if any(f for f in outs):
                raise Split()
            return node
        ok, err = [], []
        for f, k, v in parts:
            vs = f.get(("v", r))
            if vs is None:
                raise Unsupported("a parse result that is not looked at")
            g = {a: b for a, b in f.items() if a != ("v", r)}
            (ok if "Ok" in vs else err).append((g, k, v))
        handled = [p for p in err if not self.iserr(p[2])]
        V, REST = okval(r), okrest(r)
        cont = self.then(node, V, ok, REST, bool(handled))
        if handled:
            if len(handled) != len(err):
                raise Unsupported("a failed parse handled in some cases only")
            # fields of the error are never used for a value
            other = self.interp(err, inp)
            return self.alt([cont, other])
        return cont

    def iserr(self, v):
        return v[0] == "adt" and v[2] == "Err" or v[0] == "call" and v[1].split("::")[-1] in ("from_residual",)

    def leafbody(self, parts, inp):
        cases, guard = [], False
        for f, k, v in parts:
            if self.iserr(v):
                guard = True
                continue
            if v[0] == "adt" and v[2] == "Ok":
                x = v[3][0][1]
                if x[0] == "tup" and len(x[1]) == 2 and x[1][0] == inp:
                    cases.append(({}, f, x[1][1]))
                    continue
                if self.whole:
                    cases.append(({}, f, x))
                    continue
            raise Unsupported("a parser which goes on from elsewhere")
        if guard and not cases:
            raise Unsupported("a parser which fails")
        return Node([Item("guard", self.uid())] if guard else [], cases)

    whole = False

    def then(self, node, V, ok, REST, committed):
        """the node, then the ways on after it, with its value for V"""
        m = self.mark()

        def join(vals, rec, sels):
            out = []
            for s, f, v in vals:
                mm = {V: v, REST: ("sl", m.uid, 0)}
                for s2, f2, v2 in rec.cases:
                    g = self.resolve(f2, mm)
                    if g is None:
                        continue
                    h = dict(f)
                    if any(h.get(a, b) != b for a, b in g.items()):
                        continue
                    h.update(g)
                    out.append(({**s, **s2}, h, self.simp(sub(v2, mm))))
            return out
        try:
            rec = self.interp(ok, REST)
            return Node(node.items + [m] + rec.items, join(node.cases, rec, None))
        except Split:
            pass
        return self.push(node.items, node.cases, V, ok, REST)

    def push(self, items, cases, V, ok, REST):
        """what follows differs with the alternative taken: it goes into the alternatives"""
        last = [i for i in items if i.k != "mark"]
        if not last or last[-1].k != "alt":
            raise Unsupported("what is read next depends on a value")
        a = last[-1]
        m = self.mark()
        newcases = []
        alts = []
        for j, body in enumerate(a.a):
            cs = [(s, f, v) for s, f, v in cases if s.get(a.uid) == j]
            if any(a.uid not in s for s, _, _ in cases):
                raise Unsupported("what is read next depends on a value")
            mm = self.mark()
            live = []
            for s, f, v in cs:
                for i, (pf, pk, pv) in enumerate(ok):
                    if self.resolve(pf, {V: v}) is not None and i not in live:
                        live.append(i)
            try:
                ps = [(dict(ok[i][0]), ok[i][1], ok[i][2]) for i in live]
                if not ps:
                    raise Unsupported("no way on")
                rec = self.interp(ps, REST)
                alts.append(list(body) + [mm] + rec.items)
                for s, f, v in cs:
                    sb = {V: v, REST: ("sl", mm.uid, 0)}
                    for s2, f2, v2 in rec.cases:
                        g = self.resolve(f2, sb)
                        if g is None or any(f.get(x, y) != y for x, y in g.items()):
                            continue
                        newcases.append(({**s, **s2}, {**f, **g}, self.simp(sub(v2, sb))))
            except Split:
                n = self.push(list(body), cs, V, ok, REST)
                alts.append(n.items)
                newcases += n.cases
        new = Item("alt", a.uid, alts, a.cut)
        return Node([new if i is a else i for i in items], newcases)


# -------------------------------------------------------------------------------- normal form
def any_char(node):
    """a choice of single characters which yields the character, whichever it is, is a set of characters"""
    used = {y for _, f, v in node.cases for x in [v] + [t for _, t in f] for y in walk(x) if isinstance(y, tuple) and y[:1] in (("sl",), ("pos",), ("len",), ("nchars",), ("pos+chars",), ("val",))
            for y in y[1:] if isinstance(y, int)}
    for n, it in enumerate(node.items):
        if it.k != "alt" or len(it.a) < 2 or any(x.k == "mark" and x.uid in used for a in it.a for x in a):
            continue
        cores = [[x for x in a if x.k != "mark"] for a in it.a]
        if not all(len(c) == 1 and (c[0].k == "cls" or c[0].k == "lit" and len(c[0].a) == 1) for c in cores):
            continue
        new = Item("cls", it.uid, ranges(*(r for c in cores for r in (c[0].a if c[0].k == "cls" else chars(c[0].a)))), it.cut)
        merged, ok = {}, True
        for s, f, v in node.cases:
            j = s.get(it.uid)
            if j is None:
                ok = False
                break
            c = cores[j][0]
            m = {("ch", c.uid): ("ch", it.uid)}
            if c.k == "lit":
                m[("char", ord(c.a))] = ("ch", it.uid)
            key = (tuple(sorted((k, x) for k, x in s.items() if k != it.uid)), tuple(sorted((((k, sub(t, m)), x) for (k, t), x in f.items()), key=repr)), sub(v, m))
            merged.setdefault(key, set()).add(j)
        if ok and all(js == set(range(len(it.a))) for js in merged.values()):
            node = Node(node.items[:n] + [new] + node.items[n + 1:], [(dict(a), dict(b), v) for a, b, v in merged])
    return node


class Normal:
    """normal form of a node; isws tells the items which skip optional white space"""

    def __init__(self, node, isws, fresh):
        self.isws, self.fresh = isws, fresh
        node = any_char(node)
        self.items = node.items
        self.cases = node.cases
        self.run()

    def used(self, x, acc):
        for t in walk(x):
            if t[:1] in (("sl",), ("text",), ("pos",), ("len",), ("nchars",), ("pos+chars",), ("list",), ("val",), ("ch",), ("count",), ("folded",)):
                acc.update(y for y in t[1:] if isinstance(y, int))
        return acc

    def run(self):
        for _ in range(40):
            self.changed = False
            self.alias = {}
            self.selmap = {}
            # what is not used by any value
            use = set()
            for s, f, v in self.cases:
                self.used(v, use)
                for (k, t), x in f.items():
                    self.used(t, use)
            self.use = set(use)
            self.reptables(self.items, use)
            self.items = self.simplify(self.items, True)
            self.rewrite()
            self.minimise()
            if not self.changed:
                return

    def reptables(self, items, use):
        """element values are kept for lists whose value is used only"""
        for i in items:
            if i.k == "alt":
                for a in i.a:
                    self.reptables(a, use)
            elif i.k == "rep":
                if i.a[3] is not None and i.uid not in use:
                    i.a[3] = None
                    self.changed = True
                if i.a[3] is not None:
                    for s, f, v in i.a[3]:
                        self.used(v, self.use)
                        for (k, t), x in f.items():
                            self.used(t, self.use)
                        self.used(v, use)
                self.reptables(i.a[0], use)
                self.reptables(i.a[1], use)
            elif i.k == "look":
                self.reptables(i.a[0], use)

    def selused(self, cases):
        acc = set()
        for s, f, v in cases:
            acc |= set(s)
        return acc

    def allselused(self, items, acc):
        for i in items:
            if i.k == "alt":
                for a in i.a:
                    self.allselused(a, acc)
            elif i.k == "rep":
                if i.a[3] is not None:
                    acc |= self.selused(i.a[3])
                self.allselused(i.a[0], acc)
                self.allselused(i.a[1], acc)
        return acc

    # ---- rewriting of values after items changed
    def rewrite(self):
        if not self.alias and not self.selmap:
            return
        self.cases = self.recases(self.cases)
        self.rereps(self.items)

    def rereps(self, items):
        for i in items:
            if i.k == "alt":
                for a in i.a:
                    self.rereps(a)
            elif i.k == "rep":
                if i.a[3] is not None:
                    i.a[3] = self.recases(i.a[3])
                self.rereps(i.a[0])
                self.rereps(i.a[1])
            elif i.k == "look":
                self.rereps(i.a[0])

    def al(self, u):
        n = 0
        while u in self.alias and n < 50:
            u = self.alias[u]
            n += 1
        return u

    def reterm(self, t):
        if isinstance(t, tuple):
            if t[:1] in (("sl",), ("text",), ("pos",), ("len",), ("nchars",), ("pos+chars",), ("list",), ("val",), ("ch",), ("count",), ("folded",)):
                return (t[0],) + tuple(self.al(y) for y in t[1:])
            return tuple(self.reterm(y) for y in t)
        return t

    def recases(self, cases):
        out = []
        for s, f, v in cases:
            sels = [{}]
            for u, j in s.items():
                opts = self.selmap.get((u, j))
                if opts is None:
                    add = [{self.al(u): j}]
                else:
                    add = [{self.al(a): b for a, b in o} for o in opts]
                sels = [{**x, **y} for x in sels for y in add
                        if all(x.get(k, w) == w for k, w in y.items())]
            f2 = {(k, self.reterm(t)): x for (k, t), x in f.items()}
            v2 = self.reterm(v)
            for x in sels:
                out.append((x, f2, v2))
        ded = []
        for c in out:
            if c not in ded:
                ded.append(c)
        return ded

    # ---- choices whose outcome no value depends on
    def minimise(self):
        bounds = boundaries(self.items)
        self.cases, ch = minimise(self.cases, bounds)
        if ch:
            self.changed = True
        self.minreps(self.items, bounds)

    def minreps(self, items, bounds):
        for i in items:
            if i.k == "alt":
                for a in i.a:
                    self.minreps(a, bounds)
            elif i.k == "rep":
                if i.a[3] is not None:
                    i.a[3], ch = minimise(i.a[3], bounds)
                    if ch:
                        self.changed = True
                self.minreps(i.a[0], bounds)
                self.minreps(i.a[1], bounds)
            elif i.k == "look":
                self.minreps(i.a[0], bounds)

    # ---- items
    def simplify(self, items, top=False):
        out = []
        for i in items:
            if i.k == "mark":
                if i.uid in self.use:
                    out.append(i)
                continue
            out += self.simp_item(i)
        out = self.lists(out)
        return out

    def simp_item(self, i):
        if i.k == "cls" and len(i.a) == 1 and i.a[0][0] == i.a[0][1]:
            if i.uid not in self.use:
                return [Item("lit", i.uid, chr(i.a[0][0]), i.cut)]
        if i.k == "look":
            inner = self.simplify(i.a[0])
            pos = i.a[1]
            core = [x for x in inner if x.k != "mark"]
            while len(core) == 1 and core[0].k == "look":
                # a look-ahead of a look-ahead
                inner, pos = core[0].a[0], (core[0].a[1] if pos else not core[0].a[1])
                core = [x for x in inner if x.k != "mark"]
                self.changed = True
            if not core:
                inner = []
            return [Item("look", i.uid, [[x for x in inner if x.k != "mark"] if not pos else inner, pos], i.cut)]
        if i.k == "rep":
            e, s = self.simplify(i.a[0]), self.simplify(i.a[1])
            ce, cs = [x for x in e if x.k != "mark"], [x for x in s if x.k != "mark"]
            # white space before each separated by white space
            if len(cs) == 1 and self.isws(cs[0]) and ce and self.isws(ce[0]):
                s = []
                self.changed = True
            # a run of runs without values
            if not s and i.a[3] is None and len(ce) == 1 and ce[0].k == "rep" and not ce[0].a[1] and ce[0].a[3] is None and ce[0].a[2] == 1:
                e = ce[0].a[0]
                self.changed = True
            return [Item("rep", i.uid, [e, s, i.a[2], i.a[3]], i.cut)]
        if i.k == "alt":
            return self.simp_alt(i)
        return [i]

    def simp_alt(self, i):
        alts = [(self.simplify(a), [(i.uid, j)]) for j, a in enumerate(i.a)]
        # nested choices
        flat, moved = [], False
        for body, sel in alts:
            core = [x for x in body if x.k != "mark"]
            if len(core) == 1 and core[0].k == "alt" and len(body) == 1:
                inner = core[0]
                for k, b in enumerate(inner.a):
                    flat.append((b, sel + [(inner.uid, k)]))
                moved = True
            else:
                flat.append((body, sel))
        sels = self.allselused(self.items, self.selused(self.cases))
        if i.uid not in sels and not (moved and any(u in sels for _, s in flat for u, _ in s)):
            # single characters whose choice no value depends on
            merged = []
            for body, sel in flat:
                core = [x for x in body if x.k != "mark"]
                one = None
                if len(core) == 1 and len(body) == 1 and core[0].uid not in self.use:
                    if core[0].k == "cls":
                        one = core[0].a
                    elif core[0].k == "lit" and len(core[0].a) == 1:
                        one = chars(core[0].a)
                if one is not None and merged and merged[-1][2] is not None:
                    b, s, o = merged[-1]
                    merged[-1] = ([Item("cls", core[0].uid, ranges(*(o + one)), core[0].cut)], s, ranges(*(o + one)))
                    moved = True
                else:
                    merged.append((body, sel, one))
            flat = [(b, s) for b, s, _ in merged]
        # one or more, or none
        if i.uid not in sels and len(flat) == 2 and not flat[1][0] and len(flat[0][0]) == 1 and flat[0][0][0].k == "rep" and flat[0][0][0].a[2] < 2:
            r = flat[0][0][0]
            r.a[2] = 0
            self.changed = True
            return [r]
        # common first item
        out = []
        for body, sel in flat:
            if out and self.factor(out[-1], body, sel):
                moved = True
            else:
                out.append([body, [sel], None])
        if moved:
            self.changed = True
        alts2 = []
        for j, (body, ss, tails) in enumerate(out):
            head = [(i.uid, j)] if len(out) > 1 else []
            if tails is not None:
                u = self.fresh()
                alts2.append(body + [Item("alt", u, [t for t, _ in tails])])
                for k, (t, s) in enumerate(tails):
                    self.mapsel(s, head + [(u, k)])
            else:
                alts2.append(body)
                self.mapsel(ss[0], head)
        if not moved:
            for k in list(self.selmap):
                if self.selmap[k] == [((k[0], k[1]),)]:
                    del self.selmap[k]
        if len(alts2) == 1:
            # no choice
            self.changed = True
            return alts2[0]
        # a common last item which cannot fail
        tail = []
        while all(a and a[-1].k not in ("mark",) for a in alts2) and self.infallible(alts2[0][-1]) and \
                all(self.same(alts2[0][-1], a[-1]) for a in alts2[1:]):
            for a in alts2[1:]:
                self.unify(a[-1], alts2[0][-1])
            tail.insert(0, alts2[0][-1])
            alts2 = [a[:-1] for a in alts2]
            self.changed = True
        return [Item("alt", i.uid, alts2, i.cut)] + tail

    def mapsel(self, old, new):
        """a selection (a conjunction of nested choices) becomes another"""
        new = tuple(new)
        if tuple(old) == new:
            return
        if len(old) == 1:
            self.selmap.setdefault(old[0], [])
            if new not in self.selmap[old[0]]:
                self.selmap[old[0]].append(new)
            return
        # (outer, j) and (inner, k): the inner one decides
        for u, j in old[:-1]:
            self.selmap.setdefault((u, j), [])
            if new not in self.selmap[(u, j)]:
                self.selmap[(u, j)].append(new)
        self.selmap.setdefault(old[-1], [])
        if new not in self.selmap[old[-1]]:
            self.selmap[old[-1]].append(new)

    def factor(self, entry, body, sel):
        """the entry takes the body in when both begin with the same item"""
        b0 = entry[0]
        x = [i for i in b0 if i.k != "mark"]
        y = [i for i in body if i.k != "mark"]
        if not x or not y or not self.same(x[0], y[0]):
            return False
        ix, iy = b0.index(x[0]), body.index(y[0])
        self.unify(y[0], x[0])
        for p, q in zip(b0[:ix], body[:iy]):
            if q.k == "mark" and p.k == "mark":
                self.alias[q.uid] = p.uid
        extra = body[len(b0[:ix]):iy] if iy > ix else []
        if entry[2] is None:
            entry[2] = [(b0[ix + 1:], entry[1][0])]
            entry[0] = b0[:ix] + extra + b0[ix:ix + 1]
        else:
            entry[0] = b0[:ix] + extra + b0[ix:]
        entry[2].append((body[iy + 1:], sel))
        return True

    def infallible(self, i):
        return self.isws(i) or i.k == "rep" and i.a[2] == 0

    def same(self, x, y):
        return x.cut == y.cut and same_item(x, y)

    def unify(self, y, x):
        if y.uid != x.uid:
            self.alias[y.uid] = x.uid
        if x.k == "alt":
            for a, b in zip(x.a, y.a):
                self.unify_items(b, a)
        elif x.k == "rep":
            self.unify_items(y.a[0], x.a[0])
            self.unify_items(y.a[1], x.a[1])
        elif x.k == "look":
            self.unify_items(y.a[0], x.a[0])

    def unify_items(self, ys, xs):
        cx, cy = [i for i in xs if i.k != "mark"], [i for i in ys if i.k != "mark"]
        for a, b in zip(cx, cy):
            self.unify(b, a)
        bx, by = [], []
        for src, acc in ((xs, bx), (ys, by)):
            n = 0
            for i in src:
                if i.k == "mark":
                    acc.append((n, i))
                else:
                    n += 1
        for n, i in by:
            to = [j for m, j in bx if m == n]
            if to:
                self.alias[i.uid] = to[0].uid
            else:
                # a mark of one only
                at, c = 0, 0
                while at < len(xs) and c < n:
                    if xs[at].k != "mark":
                        c += 1
                    at += 1
                xs.insert(at, i)

    def lists(self, items):
        """white space around the members of a list: separated by it, with some before and after"""
        out = list(items)
        again = True
        while again:
            again = False
            for n in range(len(out)):
                i = out[n]
                nxt = next((k for k in range(n + 1, len(out)) if out[k].k != "mark"), None)
                prv = next((k for k in range(n - 1, -1, -1) if out[k].k != "mark"), None)
                if self.isws(i) and nxt is not None and self.isws(out[nxt]):
                    del out[nxt]
                    again = True
                    break
                if i.k == "lit" and nxt == n + 1 and out[nxt].k == "lit" and i.cut == out[nxt].cut and not {i.uid, out[nxt].uid} & self.use:
                    out[n:nxt + 1] = [Item("lit", i.uid, i.a + out[nxt].a, i.cut)]
                    again = True
                    break
                if i.k == "rep" and not i.a[1]:
                    ce = [x for x in i.a[0] if x.k != "mark"]
                    if len(ce) > 1 and self.isws(ce[0]) and nxt is not None and self.isws(out[nxt]) and i.a[2] == 0:
                        w = ce[0]
                        e = [x for x in i.a[0] if x is not w]
                        out[n:n + 1] = [Item("nt", self.fresh(), w.a) if w.k == "nt" else w, Item("rep", i.uid, [e, [w], 0, i.a[3]], i.cut)]
                        again = True
                        break
                    if len(ce) > 1 and self.isws(ce[-1]) and prv is not None and self.isws(out[prv]):
                        w = ce[-1]
                        e = [x for x in i.a[0] if x is not w]
                        out[n:n + 1] = [Item("rep", i.uid, [e, [w], i.a[2], i.a[3]], i.cut), Item("nt", self.fresh(), w.a) if w.k == "nt" else w]
                        again = True
                        break
            if again:
                self.changed = True
        return out


def consuming(i):
    return i.k not in ("mark", "look", "eof")


def boundaries(items):
    """where each mark is: (list, number of consuming items before), the ends of an alternative being
    those of its choice"""
    out = {}

    def go(its, lid, start, end):
        n = sum(1 for i in its if consuming(i))

        def at(k):
            if k == 0 and start is not None:
                return start
            if k == n and end is not None:
                return end
            return (lid, k)
        k = 0
        for i in its:
            if i.k == "mark":
                out[i.uid] = at(k)
                continue
            if i.k == "alt":
                for j, a in enumerate(i.a):
                    go(a, ("alt", i.uid, j), at(k), at(k + 1))
            elif i.k == "rep":
                go(i.a[0], ("rep", i.uid), None, None)
                go(i.a[1], ("sep", i.uid), None, None)
            elif i.k == "look":
                go(i.a[0], ("look", i.uid), at(k), None)
            if consuming(i):
                k += 1
    go(items, ("root",), None, None)
    return out


def placed(t, bounds):
    if isinstance(t, tuple):
        if t[:1] in (("sl",), ("text",), ("pos",), ("len",), ("nchars",), ("pos+chars",)):
            return (t[0],) + tuple(bounds.get(y, ("end",)) if y else ("end",) for y in t[1:])
        if t[:1] == ("val",):
            return ("val", t[1])
        return tuple(placed(y, bounds) for y in t)
    return t


def minimise(cases, bounds):
    """drop the selections no value depends on"""
    changed = False
    uids = sorted({u for s, _, _ in cases for u in s})
    for u in uids:
        groups = {}
        ok = True
        for s, f, v in cases:
            if u not in s:
                continue
            rest = (frozenset((a, b) for a, b in s.items() if a != u), frozenset(f.items()))
            groups.setdefault(rest, []).append((s[u], placed(v, bounds)))
        without = [c for c in cases if u not in c[0]]
        n = len({x for s, _, _ in cases if u in s for x in [s[u]]})
        for rest, xs in groups.items():
            if len({v for _, v in xs}) != 1 or len({j for j, _ in xs}) != n:
                ok = False
                break
        # selections nested in one alternative only are not comparable
        if ok and groups:
            seen, out = set(), list(without)
            for s, f, v in cases:
                if u in s:
                    key = (frozenset((a, b) for a, b in s.items() if a != u), frozenset(f.items()))
                    if key in seen:
                        continue
                    seen.add(key)
                    out.append(({a: b for a, b in s.items() if a != u}, f, v))
            cases = out
            changed = True
    return cases, changed


def same_items(xs, ys):
    xs, ys = [i for i in xs if i.k != "mark"], [i for i in ys if i.k != "mark"]
    return len(xs) == len(ys) and all(same_item(a, b) for a, b in zip(xs, ys))


def same_item(x, y):
    if x.k != y.k:
        return False
    if x.k == "alt":
        return len(x.a) == len(y.a) and all(same_items(a, b) for a, b in zip(x.a, y.a))
    if x.k == "rep":
        return x.a[2] == y.a[2] and same_items(x.a[0], y.a[0]) and same_items(x.a[1], y.a[1])
    if x.k == "look":
        return x.a[1] == y.a[1] and same_items(x.a[0], y.a[0])
    return x.a == y.a


# -------------------------------------------------------------------------------- comparison
class Diff(Exception):
    pass


class Compare:
    """a function's normal form against the reference's"""

    def __init__(self, ref, code, ntname, lang):
        self.ref, self.code, self.ntname, self.lang = ref, code, ntname, lang
        self.map = {}
        self.perm = {}
        self.orders = []
        self.cuts = []
        self.makes = []
        self.guards = []

    def structure(self):
        self.items(self.ref.items, self.code.items, "")

    def items(self, rs, cs, where):
        r, c = [i for i in rs if i.k != "mark"], [i for i in cs if i.k not in ("mark", "guard")]
        self.guards += [where for i in cs if i.k == "guard"]
        for n in range(max(len(r), len(c))):
            at = where + (" after %s" % show_items(r[:n])[-60:] if n else "")
            if n >= len(r):
                raise Diff("%s: also reads %s" % (at or "at the start", self.show(c[n:])))
            if n >= len(c):
                raise Diff("%s: does not read %s" % (at or "at the start", show_items(r[n:])))
            self.item(r[n], c[n], at)

    def show(self, items):
        return show_items(items)

    def item(self, r, c, at):
        at = at.strip()
        if r.k != c.k:
            raise Diff("%s: reads %s where %s is due" % (at or "at the start", self.show([c]), show_items([r])))
        self.map[c.uid] = r.uid
        if r.cut != c.cut:
            self.cuts.append((r, c, at))
        if r.k == "nt":
            k = self.key(c.a)
            if k[0] == r.a[0] and len(k[1]) == len(r.a[1]) and all(x == y or x[0] == y[0] == "ctor" for x, y in zip(k[1], r.a[1])):
                # told to make something else of what it reads
                self.makes += [(x, y, at) for x, y in zip(k[1], r.a[1]) if x != y]
            elif k != r.a:
                raise Diff("%s: reads %s where %s is due" % (at or "at the start", self.show([c]), show_items([r])))
        elif r.k == "alt":
            self.alts(r, c, at)
        elif r.k == "rep":
            if r.a[2] != c.a[2]:
                raise Diff("%s: %s may be repeated %d times or more, not %d" % (at or "at the start", show_items(r.a[0]), c.a[2], r.a[2]))
            self.items(r.a[0], c.a[0], at + " in the repeated part")
            self.items(r.a[1], c.a[1], at + " between repetitions")
        elif r.k == "look":
            if r.a[1] != c.a[1]:
                raise Diff("%s: the look-ahead is inverted" % at)
            self.items(r.a[0], c.a[0], at + " in the look-ahead")
        elif r.a != c.a:
            raise Diff("%s: reads %s where %s is due" % (at or "at the start", self.show([c]), show_items([r])))

    def key(self, a):
        return (self.ntname(a[0]), a[1])

    def alts(self, r, c, at):
        left = list(range(len(c.a)))
        perm = {}
        missing = []
        for j, ra in enumerate(r.a):
            for k in left:
                save = (dict(self.map), dict(self.perm), list(self.orders), list(self.cuts), list(self.makes), list(self.guards))
                try:
                    self.items(ra, c.a[k], "")
                except Diff:
                    self.map, self.perm, self.orders, self.cuts, self.makes, self.guards = save
                    continue
                perm[k] = j
                left.remove(k)
                break
            else:
                missing.append(j)
        if len(missing) == 1 and len(left) == 1:
            # the one which differs
            j, k = missing[0], left[0]
            self.items(r.a[j], c.a[k], (at + " " if at else "") + "in the alternative " + show_items(r.a[j])[:60])
        if missing:
            raise Diff("%s: no alternative %s" % (at or "at the start", " nor ".join((show_items(r.a[j]) or "nothing")[:80] for j in missing)))
        if left:
            raise Diff("%s: an alternative %s which the syntax does not have" % (at or "at the start", (self.show(c.a[left[0]]) or "nothing")[:80]))
        self.perm[c.uid] = perm
        # the order of alternatives matters where both can match
        for k1 in range(len(c.a)):
            for k2 in range(k1 + 1, len(c.a)):
                if perm[k1] > perm[k2]:
                    self.orders.append((r.a[perm[k1]], r.a[perm[k2]], at))

    # ---- values
    def rename(self, t):
        if isinstance(t, tuple):
            if t[:1] in (("list",), ("val",), ("ch",), ("count",), ("folded",)):
                return (t[0], self.map.get(t[1], -t[1]))
            if t[:1] in (("sl",), ("text",), ("pos",), ("len",), ("nchars",), ("pos+chars",)):
                return (t[0],) + tuple(self.place(y) for y in t[1:])
            return tuple(self.rename(y) for y in t)
        return t

    def place(self, b):
        if not isinstance(b, tuple) or len(b) != 2 or not isinstance(b[0], tuple):
            return b
        lid = b[0]
        if lid[0] == "alt":
            p = self.perm.get(lid[1], {})
            lid = ("alt", self.map.get(lid[1], -lid[1]), p.get(lid[2], lid[2]))
        elif len(lid) == 2:
            lid = (lid[0], self.map.get(lid[1], -lid[1]))
        return (lid, b[1])

    def resel(self, s):
        return {self.map.get(u, -u): self.perm.get(u, {}).get(j, j) for u, j in s.items()}

    def values(self):
        """pairs of (way, value due, value yielded) of every way through both"""
        rb, cb = boundaries(self.ref.items), boundaries(self.code.items)
        rl, cl = literals(self.ref.items, rb), literals(self.code.items, cb)
        out = []
        self.table(self.ref.cases, self.code.cases, rb, cb, rl, cl, out, "")
        self.lists(self.ref.items, self.code.items, rb, cb, rl, cl, out)
        return out

    def lists(self, rs, cs, rb, cb, rl, cl, out):
        r, c = [i for i in rs if i.k != "mark"], [i for i in cs if i.k != "mark"]
        for a, b in zip(r, c):
            if a.k == "alt":
                p = self.perm[b.uid]
                for k, body in enumerate(b.a):
                    self.lists(a.a[p[k]], body, rb, cb, rl, cl, out)
            elif a.k == "rep":
                if a.a[3] is not None and b.a[3] is not None:
                    self.table(a.a[3], b.a[3], rb, cb, rl, cl, out, "an element of the list " + show_items(a.a[0])[:40])
                self.lists(a.a[0], b.a[0], rb, cb, rl, cl, out)

    def table(self, rc, cc, rb, cb, rl, cl, out, label):
        C = [(self.resel(s), {(k, self.rename(spell(placed(t, cb), cl))): x for (k, t), x in f.items()}, self.rename(spell(placed(v, cb), cl)))
             for s, f, v in cc]
        for s, f, v in rc:
            f = {(k, spell(placed(t, rb), rl)): x for (k, t), x in f.items()}
            v = spell(placed(v, rb), rl)
            hit = False
            for s2, f2, v2 in C:
                if any(s.get(u, j) != j for u, j in s2.items()):
                    continue
                clash = False
                for a, x in f2.items():
                    y = f.get(a)
                    if y is not None and (a[0] == "v" and not (set(x) & set(y)) or a[0] != "v" and x != y):
                        clash = True
                if clash:
                    continue
                hit = True
                out.append((label, s, f, v, f2, v2))
            if not hit:
                out.append((label, s, f, v, None, None))


def literals(items, bounds):
    """the text between two boundaries where it is one literal"""
    out = {}

    def go(its, lid, start, end):
        n = sum(1 for i in its if consuming(i))

        def at(k):
            if k == 0 and start is not None:
                return start
            if k == n and end is not None:
                return end
            return (lid, k)
        k = 0
        for i in its:
            if i.k == "lit":
                out.setdefault((at(k), at(k + 1)), set()).add(i.a)
            if i.k == "alt":
                for j, a in enumerate(i.a):
                    go(a, ("alt", i.uid, j), at(k), at(k + 1))
            elif i.k == "rep":
                go(i.a[0], ("rep", i.uid), None, None)
            if consuming(i):
                if i.k != "lit":
                    out.setdefault((at(k), at(k + 1)), set()).add(None)
                k += 1
    go(items, ("root",), None, None)
    return {k: next(iter(v)) for k, v in out.items() if len(v) == 1 and None not in v}


def spell(t, lits):
    if isinstance(t, tuple):
        if t[:1] == ("text",) and (t[1], t[2]) in lits:
            return ("str", lits[(t[1], t[2])])
        return tuple(spell(y, lits) for y in t)
    return t


def choices(items, test, prefix=(), pending=(), follow=()):
    """for every item which passes the test: what was read before it since the beginning of each choice it is in, and what
    else could be read from that beginning on: [(item, items read here, ((items read since, items instead), ...), items after), ...]"""
    out = []
    its = [i for i in items if i.k != "mark"]
    for n, i in enumerate(its):
        before = list(prefix) + its[:n]
        since = tuple((p + tuple(its[:n]), x) for p, x in pending)
        rest = its[n + 1:] + list(follow)
        if test(i):
            out.append((i, before, since, rest))
        if i.k == "alt":
            for j, a in enumerate(i.a):
                more = tuple(((), list(b) + rest) for b in i.a[j + 1:])
                out += choices(a, test, before, since + more, rest)
        elif i.k == "rep":
            more = (((), rest),)
            again = [Item("rep", i.uid, [list(i.a[1]) + list(i.a[0]), [], 0])]
            out += choices(i.a[0], test, before, since + more, again + rest)
            out += choices(i.a[1], test, before, since + more, list(i.a[0]) + again + rest)
        elif i.k == "look":
            out += choices(i.a[0], test, before, since, rest)
    return out


# -------------------------------------------------------------------------------- languages
EPS, NONE_L, ALL = ("eps",), ("none",), ("all",)


def r_cat(a, b):
    if a == NONE_L or b == NONE_L:
        return NONE_L
    if a == EPS:
        return b
    if b == EPS:
        return a
    if a[0] == "cat":
        return r_cat(a[1], r_cat(a[2], b))
    return ("cat", a, b)


def r_or(*xs):
    s = set()
    for x in xs:
        if x == ALL:
            return ALL
        if x[0] == "or":
            s |= set(x[1])
        elif x != NONE_L:
            s.add(x)
    if not s:
        return NONE_L
    if len(s) == 1:
        return next(iter(s))
    return ("or", frozenset(s))


def r_and(*xs):
    s = set()
    for x in xs:
        if x == NONE_L:
            return NONE_L
        if x[0] == "and":
            s |= set(x[1])
        elif x != ALL:
            s.add(x)
    if not s:
        return ALL
    if len(s) == 1:
        return next(iter(s))
    return ("and", frozenset(s))


def r_not(x):
    if x == ALL:
        return NONE_L
    if x == NONE_L:
        return ALL
    return x[1] if x[0] == "not" else ("not", x)


def r_star(x):
    return EPS if x in (EPS, NONE_L) else x if x[0] == "star" else ("star", x)


def r_lit(s):
    out = EPS
    for c in reversed(s):
        out = r_cat(("cls", chars(c)), out)
    return out


def nullable(x):
    k = x[0]
    if k in ("eps", "all", "star"):
        return True
    if k in ("none", "cls"):
        return False
    if k == "cat":
        return nullable(x[1]) and nullable(x[2])
    if k == "or":
        return any(nullable(y) for y in x[1])
    if k == "and":
        return all(nullable(y) for y in x[1])
    return not nullable(x[1])


def deriv(x, c):
    k = x[0]
    if k in ("eps", "none"):
        return NONE_L
    if k == "all":
        return ALL
    if k == "cls":
        return EPS if any(a <= c <= b for a, b in x[1]) else NONE_L
    if k == "cat":
        d = r_cat(deriv(x[1], c), x[2])
        return r_or(d, deriv(x[2], c)) if nullable(x[1]) else d
    if k == "or":
        return r_or(*(deriv(y, c) for y in x[1]))
    if k == "and":
        return r_and(*(deriv(y, c) for y in x[1]))
    if k == "star":
        return r_cat(deriv(x[1], c), x)
    return r_not(deriv(x[1], c))


def firsts(x, acc):
    """cut points of the alphabet for the next step"""
    k = x[0]
    if k == "cls":
        for a, b in x[1]:
            acc.add(a)
            acc.add(b + 1)
    elif k == "cat":
        firsts(x[1], acc)
        if nullable(x[1]):
            firsts(x[2], acc)
    elif k in ("or", "and"):
        for y in x[1]:
            firsts(y, acc)
    elif k in ("star", "not"):
        firsts(x[1], acc)
    return acc


def word(x, limit=500):
    """a shortest word; None when there is none, False when that would take too long"""
    seen, todo = {x: ""}, collections.deque([x])
    while todo:
        y = todo.popleft()
        if nullable(y):
            return seen[y]
        for c in sorted({0} | {a for a in firsts(y, set()) if a <= MAXC}):
            d = deriv(y, c)
            if d != NONE_L and d not in seen:
                seen[d] = seen[y] + chr(c)
                todo.append(d)
                if len(seen) > limit:
                    return False
    return None


class Lang:
    """what a list of items can begin with, as a regular language: everything that is not regular (or
    not known) is anything, or but a sample of it"""

    def __init__(self, expand, sample=None, isws=lambda i: False):
        self.expand, self.isws = expand, isws
        self.sample = sample or {}
        self.under = False

    def of(self, items, tail):
        r = tail
        for i in reversed([x for x in items if x.k != "mark"]):
            r = self.item(i, r)
        return r

    def item(self, i, r):
        k = i.k
        if k == "lit":
            return r_cat(r_lit(i.a), r)
        if k == "cls":
            return r_cat(("cls", i.a), r) if i.a else NONE_L
        if k == "until":
            s = r_lit(i.a)
            return r_cat(r_not(r_cat(ALL, r_cat(s, ALL))), r_and(r_cat(s, ALL), r))
        if k == "eof":
            return r_and(EPS, r)
        if k == "look":
            l = self.of(i.a[0], ALL)
            if i.a[1]:
                return r_and(l, r)
            return r_and(r_not(l), r) if self.exact(i.a[0]) else NONE_L if self.under else r
        if k == "alt":
            return r_or(*(self.of(a, r) for a in i.a))
        if k == "rep":
            if len(i.a[0]) == 1 and i.a[0][0].k == "cls" and not i.a[1]:
                # as often as possible
                r = r_and(r, r_not(r_cat(("cls", i.a[0][0].a), ALL)))
            e = self.of(i.a[0], EPS) if self.plain(i.a[0]) else None
            s = self.of(i.a[1], EPS) if self.plain(i.a[1]) else None
            if e is None or s is None:
                return (r if not i.a[2] else NONE_L) if self.under else ALL
            if i.a[1]:
                one = r_cat(e, r_star(r_cat(s, e)))
                body = one if i.a[2] else r_or(EPS, one)
            else:
                body = r_cat(e, r_star(e)) if i.a[2] else r_star(e)
            return r_cat(body, r)
        if k == "nt":
            items = self.expand(i.a)
            if items is None:
                if self.under:
                    w = self.sample.get(i.a[0])
                    return NONE_L if w is None else r_cat(r_lit(w), r)
                return ALL
            if self.isws(i):
                # white space and comments, all there is of them
                sp, nl, no = ("cls", chars(" \t\r\n")), ("cls", chars("\r\n")), r_star(("cls", negate(chars("\r\n"))))
                body = r_star(r_or(sp, r_cat(r_lit("#"), r_cat(no, nl))))
                return r_cat(body, r_or(r_and(r, r_not(r_cat(("cls", chars(" \t\r\n#")), ALL))), r_cat(r_lit("#"), r_cat(no, r_and(r, EPS)))))
            return self.of(items, r)
        return NONE_L if self.under else ALL

    def plain(self, items):
        """regular, without look-aheads"""
        for i in items:
            if i.k == "look":
                return False
            if i.k == "nt":
                x = self.expand(i.a)
                if x is None or not self.plain(x):
                    return False
            if i.k == "alt" and not all(self.plain(a) for a in i.a):
                return False
            if i.k == "rep" and not (self.plain(i.a[0]) and self.plain(i.a[1])):
                return False
        return True

    def exact(self, items):
        """its language is known exactly, so that its complement is"""
        for i in items:
            if i.k == "nt":
                x = self.expand(i.a)
                if x is None or not self.exact(x):
                    return False
            if i.k == "alt" and not all(self.exact(a) for a in i.a):
                return False
            if i.k == "rep" and not (self.plain(i.a[0]) and self.plain(i.a[1])):
                return False
        return True

    def both(self, xs, ys, follow, but):
        """an input that can begin with xs and also be ys up to its end; None if there is none, False where that is not known"""
        for self.under in (False, True):
            try:
                a = r_and(self.of(xs, ALL), self.of(ys, follow(self.under)))
                if but:
                    keep, self.under = self.under, False
                    b = self.of(but, ALL)
                    self.under = keep
                    a = r_and(a, r_not(b)) if self.under or self.exact(but) else a
                w = word(a)
            finally:
                self.under, under = False, self.under
            if not isinstance(w, str):
                return w if not under else False
        return w

    def exclusive(self, xs, ys):
        """no input both can match a beginning of; None where that is not known"""
        w = self.both(xs, ys, lambda under: ALL, [])
        return w is None or (None if w is False else False)
