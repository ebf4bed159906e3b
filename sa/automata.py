"""Languages of texts as finite automata, and text functions as transducers, over a representative alphabet.

Characters which no part of a question tells apart behave alike, so one representative of each class decides the question for all.
A language is an object with init(), step(state, char) and accept(state), which may be None where the model does not say.
"""
try:
    import re._parser as sre
    import re._constants as K
except ImportError:
    import sre_parse as sre
    import sre_constants as K

# every ASCII character by itself, and of the others: a letter, letters which fold to ASCII ones, a digit, spaces, an extender
ALPHABET = [chr(i) for i in range(128)] + ["\u00e9", "\u0663", "\u00a0", "\u2003", "\u017f", "\u212a", "\u00b7", "\u4e2d", "\U00010400", "\ufffe"]
DIGIT = frozenset(c for c in ALPHABET if c.isdigit() or c == "\u0663")
SPACE = frozenset(c for c in ALPHABET if c in "\t\n\x0b\x0c\r \u00a0\u2003")
WORD = frozenset(c for c in ALPHABET if c.isalnum() or c in "_")
ASCII_WS = frozenset("\t\n\x0c\r ")


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------------------------------- regular expressions
class Regex:
    """search semantics: a text is in the language if the expression matches somewhere in it"""

    def __init__(self, pattern, search=True):
        for bad in ("[[", "&&", "\\p", "\\P", "\\z", "\\A", "\\b", "\\B", "(?", "~~"):
            if bad in pattern.replace("(?:", "").replace("\\\\", ""):
                raise Unsupported("the expression %s" % pattern)
        self.pattern = pattern
        self.eps = []      # node -> [(kind, node)]: kind None / "^" / "$"
        self.chr = []      # node -> [(frozenset, node)]
        try:
            tree = sre.parse(pattern)
        except Exception:
            raise Unsupported("the expression %s" % pattern)
        self.start, self.end = self.node(), self.node()
        self.build(tree, self.start, self.end)
        if search:
            allc = frozenset(ALPHABET)
            s = self.node()
            self.chr[s].append((allc, s))
            self.eps[s].append((None, self.start))
            self.start = s
            t = self.node()
            self.chr[t].append((allc, t))
            self.eps[self.end].append((None, t))
            self.end = t
        self.memo = {}

    def node(self):
        self.eps.append([])
        self.chr.append([])
        return len(self.eps) - 1

    def charset(self, items):
        out, negate = set(), False
        for op, av in items:
            if op == K.NEGATE:
                negate = True
            elif op == K.LITERAL:
                out |= {c for c in ALPHABET if ord(c) == av}
                if av >= 128 and chr(av) not in ALPHABET:
                    raise Unsupported("the character %r" % chr(av))
            elif op == K.RANGE:
                out |= {c for c in ALPHABET if av[0] <= ord(c) <= av[1]}
            elif op == K.CATEGORY:
                out |= self.category(av)
            else:
                raise Unsupported("a character class")
        return frozenset(ALPHABET) - out if negate else frozenset(out)

    def category(self, av):
        n = str(av)
        base = DIGIT if "DIGIT" in n else SPACE if "SPACE" in n else WORD if "WORD" in n else None
        if base is None:
            raise Unsupported("a character class")
        return frozenset(ALPHABET) - base if "NOT" in n else base

    def build(self, tree, a, b):
        cur = a
        for op, av in tree:
            nxt = self.node()
            if op == K.LITERAL:
                self.chr[cur].append((self.charset([(op, av)]), nxt))
            elif op == K.NOT_LITERAL:
                self.chr[cur].append((frozenset(c for c in ALPHABET if ord(c) != av), nxt))
            elif op == K.IN:
                self.chr[cur].append((self.charset(av), nxt))
            elif op == K.ANY:
                self.chr[cur].append((frozenset(ALPHABET) - {"\n"}, nxt))
            elif op == K.BRANCH:
                for x in av[1]:
                    s, t = self.node(), self.node()
                    self.eps[cur].append((None, s))
                    self.build(x, s, t)
                    self.eps[t].append((None, nxt))
            elif op == K.SUBPATTERN:
                if av[1] or av[2]:
                    raise Unsupported("flags")
                self.build(av[3], cur, nxt)
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
                lo, hi, x = av
                c = cur
                if lo > 64 or (hi is not K.MAXREPEAT and hi > 64):
                    raise Unsupported("a long repetition")
                for i in range(lo):
                    d = self.node()
                    self.build(x, c, d)
                    c = d
                if hi is K.MAXREPEAT:
                    l0, l1 = self.node(), self.node()
                    self.eps[c].append((None, l0))
                    self.build(x, l0, l1)
                    self.eps[l1].append((None, l0))
                    self.eps[l0].append((None, nxt))
                else:
                    for i in range(hi - lo):
                        self.eps[c].append((None, nxt))
                        d = self.node()
                        self.build(x, c, d)
                        c = d
                    self.eps[c].append((None, nxt))
            elif op == K.AT:
                k = {"AT_BEGINNING": "^", "AT_END": "$"}.get(str(av).split(".")[-1])
                if k is None:
                    raise Unsupported("an assertion")
                self.eps[cur].append((k, nxt))
            else:
                raise Unsupported("the construct %s" % op)
            cur = nxt
        self.eps[cur].append((None, b))

    def closure(self, ns, allowed):
        todo, out = list(ns), set(ns)
        while todo:
            n = todo.pop()
            for k, m in self.eps[n]:
                if (k is None or k in allowed) and m not in out:
                    out.add(m)
                    todo.append(m)
        return frozenset(out)

    def init(self):
        # ("start", closure): whether the end assertion holds is only known at the end
        return (True, self.closure([self.start], "^"))

    def step(self, st, c):
        key = (st[1], c)
        r = self.memo.get(key)
        if r is None:
            r = (False, self.closure({m for n in st[1] for cs, m in self.chr[n] if c in cs}, ""))
            self.memo[key] = r
        return r

    def accept(self, st):
        return self.end in self.closure(st[1], "^$" if st[0] else "$")

    def atoms(self):
        return [cs for l in self.chr for cs, m in l]


class Exact(Regex):
    """the whole text has to match"""

    def __init__(self, pattern):
        super().__init__("^(?:%s)$" % pattern)


class IntRange:
    """decimal numbers within a machine type, as the standard library reads them"""

    def __init__(self, lo, hi):
        self.lo, self.hi = str(-lo), str(hi)
        self.signed = lo < 0

    def init(self):
        return ("start", 0, 0)

    def step(self, st, c):
        k, n, cmp = st
        if k == "dead":
            return st
        if c in "+-" and k == "start" and (c == "+" or self.signed):
            return (c, 0, 0)
        if not (c.isascii() and c.isdigit()):
            return ("dead", 0, 0)
        neg = k in ("-", "-d")
        bound = self.lo if neg else self.hi
        k = "-d" if neg else "d"
        if n == 0 and c == "0":
            return (k, 0, 0)
        if cmp == 0 and n < len(bound):
            cmp = (c > bound[n]) - (c < bound[n])
        return (k, min(n + 1, len(bound) + 1), cmp)

    def accept(self, st):
        k, n, cmp = st
        if k not in ("d", "-d"):
            return False
        bound = self.lo if k == "-d" else self.hi
        return n < len(bound) or n == len(bound) and cmp <= 0

    def atoms(self):
        return [frozenset(c) for c in "+-0123456789"]


class Between:
    """decimal numbers, of any size, within bounds which may be missing"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        self.top = max([abs(x) for x in (lo, hi) if x is not None] + [0]) + 1

    def init(self):
        return ("start", 0)

    def step(self, st, c):
        k, n = st
        if k == "dead":
            return st
        if c in "+-" and k == "start":
            return (c, 0)
        if not (c.isascii() and c.isdigit()):
            return ("dead", 0)
        return ("-d" if k in ("-", "-d") else "d", min(n * 10 + int(c), self.top))

    def accept(self, st):
        k, n = st
        if k not in ("d", "-d"):
            return False
        n = -n if k == "-d" else n
        return (self.lo is None or n >= self.lo) and (self.hi is None or n <= self.hi)

    def atoms(self):
        return [frozenset(c) for c in "+-0123456789"]


class Count:
    """texts by their length, in some measure"""

    def __init__(self, size, lo, hi):
        self.size, self.lo, self.hi = size, lo, hi
        self.top = max([x for x in (lo, hi) if x is not None] + [0]) + 1

    def init(self):
        return 0

    def step(self, st, c):
        return min(st + self.size(c), self.top)

    def accept(self, st):
        return (self.lo is None or st >= self.lo) and (self.hi is None or st <= self.hi)

    def atoms(self):
        return [frozenset(c for c in ALPHABET if self.size(c) == n) for n in (1, 2, 3, 4)]


class Const:
    def __init__(self, v):
        self.v = v

    def init(self):
        return 0

    def step(self, st, c):
        return 0

    def accept(self, st):
        return self.v

    def atoms(self):
        return []


class Words:
    """a finite set of texts"""

    def __init__(self, ws):
        self.ws = frozenset(ws)
        for w in ws:
            for c in w:
                if c not in ALPHABET:
                    raise Unsupported("the character %r" % c)

    def init(self):
        return ""

    def step(self, st, c):
        s = None if st is None else st + c
        return s if s is not None and any(w.startswith(s) for w in self.ws) else None

    def accept(self, st):
        return st in self.ws

    def atoms(self):
        return [frozenset(c) for w in self.ws for c in w]


class Contains:
    """some part of the text is one of the given characters / the given text"""

    def __init__(self, chars):
        self.cs = frozenset(chars)

    def init(self):
        return False

    def step(self, st, c):
        return st or c in self.cs

    def accept(self, st):
        return st

    def atoms(self):
        return [self.cs]


class Starts:
    def __init__(self, chars):
        self.cs = frozenset(chars)

    def init(self):
        return None

    def step(self, st, c):
        return (c in self.cs) if st is None else st

    def accept(self, st):
        return st is True

    def atoms(self):
        return [self.cs]


class Ends(Starts):
    def step(self, st, c):
        return c in self.cs


class Partial:
    """where the two languages differ, the model does not say"""

    def __init__(self, must, may):
        self.must, self.may = must, may

    def init(self):
        return (self.must.init(), self.may.init())

    def step(self, st, c):
        return (self.must.step(st[0], c), self.may.step(st[1], c))

    def accept(self, st):
        a, b = self.must.accept(st[0]), self.may.accept(st[1])
        return True if a else (None if b else False)

    def atoms(self):
        return self.must.atoms() + self.may.atoms()


class Both:
    def __init__(self, *ls):
        self.ls = ls

    def init(self):
        return tuple(l.init() for l in self.ls)

    def step(self, st, c):
        return tuple(l.step(s, c) for l, s in zip(self.ls, st))

    def accept(self, st):
        v = [l.accept(s) for l, s in zip(self.ls, st)]
        return False if False in v else None if None in v else True

    def atoms(self):
        return [a for l in self.ls for a in l.atoms()]


class Tokens:
    """the text split at white space: whether every piece (or: some piece) satisfies a condition, or there is none"""

    def __init__(self, lang, mode):
        self.l, self.mode = lang, mode

    def init(self):
        return ("gap", None, False)

    def close(self, st):
        k, s, hit = st
        if k == "in":
            a = self.l.accept(s)
            if a is None:
                return None
            if self.mode == "none":
                hit = True
            elif self.mode == "some":
                hit = hit or a
        return hit

    def step(self, st, c):
        k, s, hit = st
        if c in ASCII_WS:
            return ("gap", None, self.close(st) if k == "in" else hit)
        if k == "gap":
            s = self.l.init()
        return ("in", self.l.step(s, c), hit)

    def accept(self, st):
        h = self.close(st)
        if h is None:
            return None
        return (not h) if self.mode == "none" else h

    def atoms(self):
        return self.l.atoms() + [ASCII_WS]


# ---------------------------------------------------------------------------------------- text functions
class Fn:
    """a transducer; the identity by default"""

    def init(self):
        return 0

    def feed(self, st, c):
        return st, c

    def first(self):
        return ""

    def last(self, st):
        return ""

    def atoms(self):
        return []


class Collapse(Fn):
    """white space at the ends dropped, any other run of it a single space"""
    WS = ASCII_WS

    def init(self):
        return (False, False)

    def feed(self, st, c):
        seen, gap = st
        if c in self.WS:
            return (seen, seen), ""
        return (True, False), (" " if gap else "") + c

    def atoms(self):
        return [self.WS, frozenset(" ")]


class Replace(Fn):
    def __init__(self, chars, by):
        self.cs, self.by = frozenset(chars), by

    def feed(self, st, c):
        return st, self.by if c in self.cs else c

    def atoms(self):
        return [self.cs] + [frozenset(c) for c in self.by]


class Map(Fn):
    """each character replaced"""

    def __init__(self, f):
        self.f = f

    def feed(self, st, c):
        return st, self.f(c)

    def atoms(self):
        return [frozenset(c) for c in ALPHABET if self.f(c) != c or any(self.f(d) == c for d in ALPHABET if d != c)]


class Around(Fn):
    def __init__(self, before, after):
        self.b, self.a = before, after

    def first(self):
        return self.b

    def last(self, st):
        return self.a

    def atoms(self):
        return [frozenset(c) for c in self.b + self.a]


class SkipWhile(Fn):
    """characters of a set at the start dropped"""

    def __init__(self, chars):
        self.cs = frozenset(chars)

    def init(self):
        return False

    def feed(self, st, c):
        if not st and c in self.cs:
            return False, ""
        return True, c

    def atoms(self):
        return [self.cs]


class TrimEnd(Fn):
    """characters of a set at the end dropped"""

    def __init__(self, chars, limit=6):
        self.cs, self.limit = frozenset(chars), limit

    def init(self):
        return ""

    def feed(self, st, c):
        if c in self.cs:
            if len(st) >= self.limit:
                raise Unsupported("a long run of trimmed characters")
            return st + c, ""
        return "", st + c

    def atoms(self):
        return [self.cs]


class Seq(Fn):
    """one transducer after another"""

    def __init__(self, *fs):
        self.fs = fs

    def init(self):
        st, out = [], ""
        for f in self.fs:
            s = f.init()
            s, out = self.pipe(f, s, out)
            st.append(s)
            out = f.first() + out
        self.begin = out
        return tuple(st)

    def pipe(self, f, s, text):
        out = ""
        for c in text:
            s, o = f.feed(s, c)
            out += o
        return s, out

    def first(self):
        self.init()
        return self.begin

    def feed(self, st, c):
        new = []
        for f, s in zip(self.fs, st):
            s, c = self.pipe(f, s, c)
            new.append(s)
        return tuple(new), c

    def last(self, st):
        out = ""
        for f, s in zip(self.fs, st):
            s, out = self.pipe(f, s, out)
            out += f.last(s)
        return out

    def atoms(self):
        return [a for f in self.fs for a in f.atoms()]


def differ(f, g, on=None, limit=20000, lead=40):
    """a text (of a language) for which two transducers give different results, or None"""
    on = on or Const(True)
    cs = classes([f, g, on])

    def cut(a, b):
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        return a[n:], b[n:]
    start = (f.init(), g.init(), on.init()) + cut(f.first(), g.first())
    todo, seen, i = [(start, "")], {start}, 0
    while i < len(todo):
        (a, b, l, x, y), w = todo[i]
        i += 1
        if (x is None or x and y or x + f.last(a) != y + g.last(b)) and on.accept(l) is not False:
            return w
        for c in cs:
            nl = on.step(l, c)
            if x is None or x and y:
                n = (0, 0, nl, None, None)
            else:
                na, xa = f.feed(a, c)
                nb, xb = g.feed(b, c)
                n = (na, nb, nl) + cut(x + xa, y + xb)
            if n not in seen:
                if n[3] is not None and len(n[3]) + len(n[4]) > lead or len(seen) > limit:
                    raise Unsupported("transducers which drift apart")
                seen.add(n)
                todo.append((n, w + c))
    return None


class Through:
    """the language of texts whose image is in a language"""

    def __init__(self, fn, lang):
        self.f, self.l = fn, lang

    def run(self, ls, out):
        for c in out:
            ls = self.l.step(ls, c)
        return ls

    def init(self):
        return (self.f.init(), self.run(self.l.init(), self.f.first()))

    def step(self, st, c):
        fs, out = self.f.feed(st[0], c)
        return (fs, self.run(st[1], out))

    def accept(self, st):
        return self.l.accept(self.run(st[1], self.f.last(st[0])))

    def atoms(self):
        return self.f.atoms() + self.l.atoms()


class Trimmed:
    """the language of texts which are in a language when the white space at their ends is dropped"""

    def __init__(self, lang, ws=SPACE, front=True, back=True):
        self.l, self.ws, self.front, self.back = lang, ws, front, back

    def init(self):
        return (not self.front, self.l.init(), self.l.init())

    def step(self, st, c):
        on, at, cur = st
        if c in self.ws and not on:
            return st
        cur = self.l.step(cur, c)
        return (True, at if c in self.ws and self.back else cur, cur)

    def accept(self, st):
        return self.l.accept(st[1])

    def atoms(self):
        return self.l.atoms() + [self.ws]


class Bool:
    """a boolean combination"""

    def __init__(self, f, *ls):
        self.f, self.ls = f, ls

    def init(self):
        return tuple(l.init() for l in self.ls)

    def step(self, st, c):
        return tuple(l.step(s, c) for l, s in zip(self.ls, st))

    def accept(self, st):
        v = [l.accept(s) for l, s in zip(self.ls, st)]
        return None if None in v else self.f(v)

    def atoms(self):
        return [a for l in self.ls for a in l.atoms()]


# ---------------------------------------------------------------------------------------- deciding
def classes(langs):
    """one representative for every class of characters the languages tell apart"""
    sets = list({a for l in langs for a in l.atoms()})
    rep = {}
    for c in ALPHABET:
        k = tuple(c in s for s in sets)
        if k not in rep or (not rep[k].isprintable() and c.isprintable()):
            rep[k] = c
    return list(rep.values())


def search(langs, judge, limit=400000):
    """the first (shortest) text for which judge(values) is not None; (text, verdict) or None; also returns the number of states"""
    cs = classes(langs)
    start = tuple(l.init() for l in langs)
    seen = {start}
    todo = [(start, None)]
    back = [None]
    i = 0
    while i < len(todo):
        st, _ = todo[i]
        v = judge(tuple(l.accept(s) for l, s in zip(langs, st)))
        if v is not None:
            w, j = "", i
            while back[j] is not None:
                j, c = back[j]
                w = c + w
            return (w, v), len(seen)
        for c in cs:
            n = tuple(l.step(s, c) for l, s in zip(langs, st))
            if n not in seen:
                seen.add(n)
                todo.append((n, c))
                back.append((i, c))
                if len(seen) > limit:
                    raise Unsupported("more than %d states" % limit)
        i += 1
    return None, len(seen)
