"""The front ends: what the XML syntax and the compact syntax of a schema are read as."""
from lib import *
from props_model import mk, named, lits, wanterr, EXTRA
from props_state import iskind
import charset as cs

CR = "relaxng_syntax"
TY = "relaxng_syntax::types::"
X = "relaxng_syntax::xml::"
RNG = "http://relaxng.org/ns/structure/1.0"
XMLNS = "http://www.w3.org/XML/1998/namespace"
NODE = "roxmltree::Node::"
ATT = "roxmltree::Attribute::"
OPTS = OPT + "::Some"
SPAN = ("span",)
ENTRY = ("pattern", "name_class", "grammar_content", "include_content")
STD = ("ns", "datatypeLibrary")


def c(name, *args):
    return ("call", name, args)


def some0(t):
    return ("fld", t, OPTS, "0")


def attr(n, k):
    return c("attr", n, ("str", k))


def is_some(t):
    return ("isv", t, OPT, frozenset(["Some"]))


def tag(n):
    return c("roxmltree::ExpandedName::name", c(NODE + "tag_name", n))


def nsof(n):
    return c("roxmltree::ExpandedName::namespace", c(NODE + "tag_name", n))


def kid0(n):
    return c("kid0", n)


def sib(n):
    return c("sib", n)


CUR = ("cur",)


# ------------------------------------------------------------------------------ normal forms of questions about the tree
def lam_eval(N, lam, ask, elem=None):
    """truth of a one-argument predicate when ask(atom) answers its atoms (None: cannot tell)"""
    if lam[0] != "lam" or lam[2] != 1:
        return None

    def ev(b):
        k = b[0]
        if k == "bool":
            return b[1]
        if k == "not":
            r = ev(b[1])
            return None if r is None else not r
        if k in ("and", "or"):
            rs = [ev(x) for x in b[1:]]
            if k == "and":
                return False if False in rs else None if None in rs else True
            return True if True in rs else None if None in rs else False
        return ask(b)

    hits = set()
    for facts, kind, val in lam[3]:
        if kind != "ret":
            return None
        hold = True
        for (k, t), x in facts:
            if k == "b":
                r = ev(t)
                if r is None:
                    return None
                hold = hold and r == x
            elif k == "v":
                adt = adt_named(N, t, x)
                if adt is None:
                    return None
                r = ask(("isv", t, adt, frozenset(x)))
                if r is None:
                    return None
                hold = hold and r
            else:
                return None
        if hold:
            hits.add(ev(val))
    return next(iter(hits)) if len(hits) == 1 else None


def adt_named(N, t, vs):
    for adt in (OPT, RES):
        if set(vs) <= {n for n, _ in N.prog.variants(adt)}:
            return adt
    return None


LV = ("lv", 0, 0)


def lvof(lam):
    for t in subterms(lam):
        if t[0] in ("lv", "lp"):
            return t
    return None


def rng_pred(N, lam):
    """is this predicate 'an element of the RELAX NG namespace'?"""
    lv = lvof(lam)
    if lv is None:
        return False

    def world(rng, elem):
        def ask(b):
            if b == c("isrng", lv):
                return rng
            if b == c(NODE + "is_element", lv):
                return elem
            if b[0] == "isv" and b[1] == nsof(lv) and b[3] == frozenset(["Some"]) and rng:
                return True
            return None
        return lam_eval(N, lam, ask)
    return world(True, True) is True and world(False, True) is False and world(False, False) is False


def attr_pred(N, lam):
    """the attribute the predicate asks for"""
    lv = lvof(lam)
    if lv is None:
        return None
    ks = {t[2][1] for t in subterms(lam) if t[0] == "call" and t[1] == "attr" and t[2][0] == lv}
    if len(ks) != 1:
        return None
    k = next(iter(ks))

    def ask(v):
        def f(b):
            if b[0] == "isv" and b[1] == ("call", "attr", (lv, k)):
                return v == (b[3] == frozenset(["Some"]))
            return None
        return f
    if lam_eval(N, lam, ask(True)) is True and lam_eval(N, lam, ask(False)) is False:
        return k
    return None


def att_pred(N, lam):
    """the attributes (in no namespace) a search for bad attributes lets pass, None if it is not such a search"""
    lv = lvof(lam)
    if lv is None:
        return None
    an, ns = c(ATT + "name", lv), c(ATT + "namespace", lv)
    names = set()

    def collect(t):
        if isinstance(t, (tuple, frozenset)):
            if isinstance(t, tuple) and len(t) == 2 and t[0] == "str":
                names.add(t[1])
            for x in t:
                collect(x)
    collect(lam)
    names.discard(RNG)

    def world(space, name):
        def ask(b):
            if b[0] == "eq":
                a = set(b[1:])
                if an in a:
                    o = (a - {an}).pop()
                    return name == o[1] if o[0] == "str" else None
                if ns in a or some0(ns) in a:
                    o = (a - {ns, some0(ns)}).pop()
                    if o[0] == "adt" and o[2] == "Some":
                        o = dict(o[3])["0"]
                    elif o[0] == "adt":
                        return space is None
                    return space == o[1] if o[0] == "str" else None
            if b[0] == "in" and b[1] == an and all(x[0] == "str" for x in b[2]):
                return ("str", name) in b[2]
            if b[0] == "isv" and b[1] == ns:
                return (space is not None) == (b[3] == frozenset(["Some"]))
            if b[0] == "call" and b[1].rsplit("::", 1)[-1] == "contains" and b[2][1] == an and b[2][0][0] == "arr":
                xs = [x[1] for x in b[2][0][1] if x[0] == "str"]
                return name in xs
            return None
        return lam_eval(N, lam, ask)
    allowed = set()
    for nm in names | {"\0"}:
        if world("other", nm) is not False:
            return None
        if world(RNG, nm) is not True:
            return None
        r = world(None, nm)
        if r is None:
            return None
        if not r:
            allowed.add(nm)
    if "\0" in allowed:
        return None
    return tuple(sorted(allowed))


def is_kid(t):
    """known to be an element of the RELAX NG namespace"""
    if t[0] == "fld" and t[1][0] == "call" and t[1][1] in ("kid0", "sib") and t[2] == OPTS:
        return True
    if t[0] in ("elem", "itv") or t == CUR:
        return t == CUR or t[0] == "elem" and t[1][0] == "call" and t[1][1] == "from"
    return False


def rewrite(N, t):
    k = t[0] if t and isinstance(t[0], str) else None
    if k == "eq" and len(t) == 3:
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if a[0] == "adt" and a[1] == OPT and a[2] == "Some":
                v = dict(a[3])["0"]
                if v == ("str", RNG) and b[0] == "call" and b[1] == "roxmltree::ExpandedName::namespace" and b[2][0][1] == NODE + "tag_name":
                    return c("isrng", b[2][0][2][0])
                if b[0] == "adt" and b[2] == "Some":
                    return mkeq(v, dict(b[3])["0"])
            if a == ("str", RNG) and b[0] == "fld" and b[2] == OPTS and b[1][0] == "call" and b[1][1] == "roxmltree::ExpandedName::namespace":
                return c("isrng", b[1][2][0][2][0])
        return None
    if t == ("cat", ()):
        return ("str", "")
    if k == "chain":
        step, init = t[1], t[2]
        if step == sib(CUR):
            return c("from", init)
        return None
    if k in ("first", "more") and len(t) == 2 and t[1][0] == "call" and t[1][1] == "from":
        return some0(t[1][2][0]) if k == "first" else is_some(t[1][2][0])
    if k == "fld" and t[1][0] == "call" and t[1][1].endswith("str::split_at") and t[3] in ("0", "1"):
        v, p = t[1][2]
        if t[3] == "0":
            return ("idx", v, ("adt", "std::ops::RangeTo", "RangeTo", (("end", p),)))
        return ("idx", v, ("adt", "std::ops::RangeFrom", "RangeFrom", (("start", p),)))
    if k == "call" and t[1].split("::")[-1] == "len_utf8" and t[2][0][0] == "char":
        ch = t[2][0][1]
        return ("int", len((ch if isinstance(ch, str) else chr(ch)).encode()))
    if k == "idx" and t[2][0] == "adt":
        f = dict(t[2][3])
        v = t[1]
        if t[2][1] == "std::ops::Range" and f.get("end") == ("call", "len", (v,)):
            return ("idx", v, ("adt", "std::ops::RangeFrom", "RangeFrom", (("start", f.get("start")),)))
        if t[2][1].endswith("RangeFrom") and v[0] == "idx" and v[2][0] == "adt" and v[2][1].endswith("RangeFrom"):
            return ("idx", v[1], ("adt", "std::ops::RangeFrom", "RangeFrom", (("start", ("bin", "Add", dict(v[2][3])["start"], f.get("start"))),)))
        pos = some0(c("colon", v))
        if t[2][1].endswith("RangeTo") and f.get("end") == pos or t[2][1] == "std::ops::Range" and f.get("start") == ("int", 0) and f.get("end") == pos:
            return c("before", v)
        if t[2][1].endswith("RangeFrom") and f.get("start") in (("bin", "Add", pos, ("int", 1)), ("bin", "Add", ("int", 1), pos)):
            return c("after", v)
        return None
    if k == "upd" and t[1] in ("std::path::PathBuf::pop", "std::path::PathBuf::push"):
        return c("dirof" if t[1].endswith("pop") else "joined", *t[2])
    if k == "fld" and t[1][0] == "call" and t[1][1] == "std::path::Path::to_str" and t[2] == OPTS:
        return c("pathstr", t[1][2][0])
    if k == "fld" and t[1][0] == "fld" and t[1][1][0] == "call" and t[1][1][1] == "colon" and t[3] in ("0", "1") and not t[2].startswith(OPT):
        return c("before" if t[3] == "0" else "after", t[1][1][2][0])
    if k == "adt" and t[1].startswith(TY):
        # where in the text something was found
        new = []
        for f, v in t[3]:
            if v[0] == "adt" and v[1] == "std::ops::Range" or v[0] == "call" and (v[1] in (NODE + "range", ATT + "range_value", ATT + "range") or v[1] in N.extra.get("places", ())):
                v = SPAN
            new.append((f, v))
        return ("adt", t[1], t[2], tuple(new))
    if k != "call":
        return None
    f, a = t[1], t[2]
    if f in (NODE + "attribute_node", NODE + "attribute") and a[1][0] == "str":
        if a[0][0] == "fld" and a[0][2] == OPTS and a[0][1][0] == "call" and a[0][1][1] == "inh" and a[0][1][2][1] == a[1]:
            return a[0][1]
        return c("attr", a[0], a[1])
    if f == "attr" and a[0][0] == "fld" and a[0][2] == OPTS and a[0][1][0] == "call" and a[0][1][1] == "inh" and a[0][1][2][1] == a[1]:
        return a[0][1]
    if f == NODE + "has_attribute" and a[1][0] == "str":
        return is_some(c("attr", a[0], a[1]))
    if f == ATT + "value" and a[0][0] == "fld" and a[0][2] == OPTS and a[0][1][0] == "call" and a[0][1][1] in ("attr", "inh"):
        return a[0]
    if f in ("isrng", NODE + "is_element"):
        if is_kid(a[0]):
            return TRUE
        if N.bfacts.get(c("isrng", a[0])) is True:
            return TRUE
        if f == "isrng" and N.bfacts.get(c(NODE + "is_element", a[0])) is False:
            return FALSE
        if f == "isrng" and N.vfacts.get(nsof(a[0])) == frozenset(["None"]):
            return FALSE
        return None
    if f == "iter:find":
        src, lam = a
        if src[0] == "chain" and src[1] == c(NODE + "next_sibling_element", CUR) and rng_pred(N, lam):
            i = src[2]
            if i[0] == "call" and i[1] == NODE + "first_element_child":
                return kid0(i[2][0])
            if i[0] == "call" and i[1] == NODE + "next_sibling_element":
                return sib(i[2][0])
        if src[0] == "call" and src[1] == NODE + "children" and rng_pred(N, lam):
            return kid0(src[2][0])
        up = None
        if src[0] == "chain" and src[1] == c(NODE + "parent_element", CUR) and src[2][0] == "adt" and src[2][2] == "Some":
            up = dict(src[2][3])["0"]
        if src[0] == "call" and src[1] == NODE + "ancestors":
            up = src[2][0]
        if up is not None:
            kk = attr_pred(N, lam)
            if kk is not None:
                return c("inh", up, kk)
        if src[0] == "call" and src[1] == NODE + "attributes":
            ok = att_pred(N, lam)
            if ok is not None:
                return c("badattr", src[2][0], ("str", " ".join(ok)))
        if src[0] == "call" and src[1] == NODE + "namespaces":
            lv = lvof(lam)
            body = lam[3][0][2] if lam[0] == "lam" and len(lam[3]) == 1 and not lam[3][0][0] else None
            if lv is not None and body is not None and body[0] == "eq":
                nm = c("roxmltree::Namespace::name", lv)
                for x, y in ((body[1], body[2]), (body[2], body[1])):
                    if x == nm and not contains_term(("tup", (y,)), lambda z: z == lv) and y[0] == "adt" and y[2] == "Some":
                        return c("nsuri", src[2][0], dict(y[3])["0"])
        return None
    if f == NODE + "lookup_namespace_uri" and a[1][0] == "adt" and a[1][2] == "Some":
        return c("nsuri", a[0], dict(a[1][3])["0"])
    if f == "roxmltree::Namespace::uri" and a[0][0] == "fld" and a[0][1][0] == "call" and a[0][1][1] == "nsuri":
        return a[0]
    if f == "iter:filter":
        src, lam = a
        if src[0] == "call" and src[1] == NODE + "children" and rng_pred(N, lam):
            return c("from", kid0(src[2][0]))
        return None
    if f in ("core::str::find", "core::str::split_once") and a[1] == ("char", 58):
        return c("colon", a[0])
    if f == "core::str::contains" and a[1] == ("char", 58):
        return is_some(c("colon", a[0]))
    if f == "core::str::trim_matches" and a[1][0] == "arr" and set(a[1][1]) == WS:
        return trim(a[0])
    if f == "xmltrim" and a[0][0] == "call" and a[0][1] == "xmltrim":
        return a[0]
    if f == "iter:collect" and a[0][0] == "call" and a[0][1] == "iter:filter_map":
        s, g = a[0][2]
        if s[0] == "call" and s[1] == "iter:filter" and s[2][0][0] == "call" and s[2][0][1] == NODE + "children":
            if one(s[2][1]) == c(NODE + "is_text", LV) and one(g) == c(NODE + "text", LV):
                return c("textof", s[2][0][2][0])
        return None
    if f.endswith("Literal::as_string_value") and a[0][0] == "adt":
        segs = dict(a[0][3])["1"]
        if segs[0] == "arr" and len(segs[1]) == 1 and segs[1][0][0] == "adt":
            return dict(segs[1][0][3])["body"]
        return None
    if f in N.extra.get("texts", ()):
        xs = [x for x in a if not (x[0] == "adt" and x[1] == "std::ops::Range" or x == SPAN or x[0] == "call" and ("range" in x[1] or x[1] in N.extra.get("places", ())))]
        if len(xs) == 1:
            nm, trims = N.extra["texts"][f]
            return c(nm, trim(xs[0]) if trims else xs[0])
        return None
    if f in N.extra.get("kidfns", ()):
        return c(N.extra["kidfns"][f], *a)
    return None


def one(lam):
    """what the function gives for LV"""
    if lam[0] == "fn":
        return c(lam[1], LV)
    lv = lvof(lam)
    if lv is not None and lv != LV:
        lam = subst(lam, {lv: LV})
    return lam[3][0][2] if lam[0] == "lam" and len(lam[3]) == 1 and not lam[3][0][0] else None


def trim(v):
    return c("xmltrim", v)


# ------------------------------------------------------------------------------ the reference reading of a schema document
class Bad(Exception):
    """the schema is in error"""


class Odd(Exception):
    """the path ends in a way the reference does not know"""

    def __init__(self, msg):
        self.msg = msg


def adt(ty, var, *fields, **named_):
    fs = tuple((str(i), f) for i, f in enumerate(fields)) + tuple(named_.items())
    return ("adt", TY + ty, var, fs)


def tup(ty, *fields):
    return adt(ty, ty, *fields)


def lit(text):
    return tup("Literal", SPAN, ("arr", (adt("LiteralSegment", "LiteralSegment", body=text),)))


class Reader:
    """reads one element; questions go to the environment"""

    def __init__(self, e, p):
        self.e, self.p = e, p

    def ask(self, t):
        return self.e.true(t)

    def need(self, t):
        if not self.ask(t):
            raise Bad()

    def refuse(self, t):
        if self.ask(t):
            raise Bad()

    def has(self, opt):
        return self.e.variant(opt, OPT) == "Some"

    def ok(self, res):
        res = self.e.n(res)
        if self.e.variant(res, RES) == "Err":
            raise Bad()
        return ("fld", res, RES + "::Ok", "0")

    # ---- elements
    def attrs(self, n, *allowed):
        """no attributes other than those given; the datatype library is a URI without a fragment, or nothing"""
        want = set(allowed) | set(STD)
        for t, v in list(self.e.N.vfacts.items()):
            if t[0] == "call" and t[1] == "badattr" and t[2][0] == self.e.n(n):
                got = set(t[2][1][1].split())
                if v == frozenset(["None"]) and got <= want:
                    break
                if v == frozenset(["Some"]) and got >= want:
                    raise Bad()
        else:
            if self.has(c("badattr", n, ("str", " ".join(sorted(want))))):
                raise Bad()
        dl = attr(n, "datatypeLibrary")
        if self.has(dl):
            v = self.e.n(some0(dl))
            if not self.ask(mkeq(v, ("str", ""))):
                u = self.ok(self.uri(v))
                if self.has(c(self.fragment, u)):
                    raise Bad()

    fragment = "fluent_uri::Uri::fragment"

    def uri(self, v):
        for t in self.e.N.vfacts:
            if t[0] == "call" and t[1].startswith("parse") and t[2] == (v,):
                return t
        return c("parse:&str", v)

    def first(self, n):
        k = kid0(n)
        if not self.has(k):
            raise Bad()
        return some0(k)

    def after(self, x):
        return sib(x)

    def nothing(self, opt):
        if self.has(opt):
            raise Bad()

    def leaf(self, n):
        self.nothing(kid0(n))

    def childless(self, n):
        self.nothing(c(NODE + "first_element_child", n))

    def required(self, n, k):
        a = attr(n, k)
        if not self.has(a):
            raise Bad()
        return some0(a)

    # ---- sequences of children
    def over(self, opt):
        src = self.e.n(c("from", opt))
        for (k, t), v in self.p.facts.items():
            if k == "b" and t[0] == "more" and t[1][0] == "loop" and v is True and self.e.n(t[1][3]) == src and self.p.kind == "ret":
                el = self.e.n(("elem", src))
                for t2, vs in self.e.N.vfacts.items():
                    if t2[0] == "call" and t2[1] in self.entry.values() and t2[2][0] == el and vs == frozenset(["Err"]):
                        raise Bad()
                raise Odd("the remaining children are not read")
        return src

    def sub(self, name, n):
        extra = (self.inexcept,) if name == "name_class" else ()
        return c(self.entry[name], n, *extra)

    def fold(self, opt, init, name, body):
        src = self.over(opt)
        acc, it = ("accv", "f"), ("itv", "f")
        return ("fold", src, init, body(acc, ("fld", self.sub(name, it), RES + "::Ok", "0")), "f")

    def joined(self, n0, name, mk_):
        """the given child and its following siblings, combined from the left"""
        init = self.ok(self.sub(name, n0))
        return self.fold(sib(n0), init, name, lambda a, x: mk_(a, x))

    def group(self, n0):
        return self.joined(n0, "pattern", lambda a, x: adt("Pattern", "ListPair", a, x))

    def children(self, n, name):
        return self.fold(kid0(n), ("arr", ()), name, lambda a, x: ("arr", (("spread", a), x)))

    # ---- text
    def colon(self, v):
        """a name never contains a colon and is never empty; only asked where the path looked"""
        for x in (v, trim(v)):
            if self.e.N.vfacts.get(self.e.n(c("colon", x))) == frozenset(["Some"]):
                raise Bad()
            if self.e.n(mkeq(x, ("str", ""))) == TRUE:
                raise Bad()

    def ident(self, v):
        self.colon(v)
        return self.ok(c("ident", trim(v)))

    def ncname(self, v):
        self.colon(v)
        return self.ok(c("ncname", trim(v)))

    def inherited(self, n, k):
        i = c("inh", n, ("str", k))
        return lit(some0(i)) if self.has(i) else lit(("str", ""))

    def nsname(self, ns, local):
        return adt("Name", "NamespacedName", adt("NamespacedName", "NamespacedName", namespace_uri=ns, localname=local))

    def qname(self, n, v, ns):
        """a name as written in an attribute or in <name>"""
        v = self.e.n(trim(v))
        if self.has(c("colon", v)):
            pre = c("before", v)
            for t, vs in list(self.e.N.vfacts.items()):
                if t[0] == "call" and t[1] == "ncname" and t[2] == (self.e.n(pre),):
                    pre = ("fld", self.ok(t), TY + "NcName::NcName", "1")
            if self.ask(mkeq(pre, ("str", "xml"))):
                uri = ("str", XMLNS)
            else:
                u = c("nsuri", n, pre)
                if not self.has(u):
                    raise Bad()
                uri = some0(u)
            return self.nsname(lit(uri), self.ok(c("ncname", c("after", v))))
        self.colon(v)
        return self.nsname(ns(), self.ok(c("ncname", v)))

    # ---- patterns
    def pattern(self, n):
        if not self.ask(c("isrng", n)):
            raise Bad()
        t = tag(n)
        for name in PATTERNS:
            if self.ask(mkeq(t, ("str", name))):
                return getattr(self, "p_" + name)(n)
        raise Bad()

    def p_element(self, n):
        self.attrs(n, "name")
        a = attr(n, "name")
        if self.has(a):
            nc = adt("NameClass", "Name", self.qname(n, some0(a), lambda: self.inherited(n, "ns")))
            rest = kid0(n)
        else:
            first = self.first(n)
            nc = self.ok(self.sub("name_class", first))
            rest = sib(first)
        if not self.has(rest):
            raise Bad()
        return adt("Pattern", "Element", adt("ElementPattern", "ElementPattern", span=SPAN, name_class=nc, pattern=self.group(some0(rest))))

    def p_attribute(self, n):
        self.attrs(n, "name")
        a, ns = attr(n, "name"), attr(n, "ns")
        if self.has(a):
            own = self.has(ns)
            if self.ask(mkeq(trim(some0(a)), ("str", "xmlns"))):
                if not own:
                    raise Bad()
                self.refuse(mkeq(some0(ns), ("str", "")))
            if own:
                self.refuse(mkeq(some0(ns), ("str", "http://www.w3.org/2000/xmlns")))
            nc = adt("NameClass", "Name", self.qname(n, some0(a), lambda: lit(some0(ns)) if own else lit(("str", ""))))
            rest = kid0(n)
        else:
            first = self.first(n)
            nc = self.ok(self.sub("name_class", first))
            rest = sib(first)
        pat = adt("Pattern", "Text")
        if self.has(rest):
            pat = self.ok(self.sub("pattern", some0(rest)))
            self.nothing(sib(some0(rest)))
        return adt("Pattern", "Attribute", adt("AttributePattern", "AttributePattern", span=SPAN, name_class=nc, pattern=pat))

    def unary(self, n):
        self.attrs(n)
        return self.group(self.first(n))

    def p_group(self, n):
        return adt("Pattern", "Group", self.unary(n))

    def p_optional(self, n):
        return adt("Pattern", "Optional", self.unary(n))

    def p_zeroOrMore(self, n):
        return adt("Pattern", "ZeroOrMore", self.unary(n))

    def p_oneOrMore(self, n):
        return adt("Pattern", "OneOrMore", self.unary(n))

    def p_list(self, n):
        return adt("Pattern", "List", tup("ListPattern", self.unary(n)))

    def p_mixed(self, n):
        return adt("Pattern", "Mixed", tup("MixedPattern", self.unary(n)))

    def p_interleave(self, n):
        self.attrs(n)
        return self.joined(self.first(n), "pattern", lambda a, x: adt("Pattern", "InterleavePair", a, x))

    def p_choice(self, n):
        self.attrs(n)
        return self.joined(self.first(n), "pattern", lambda a, x: adt("Pattern", "ChoicePair", a, x))

    def p_ref(self, n):
        self.attrs(n, "name")
        self.leaf(n)
        return adt("Pattern", "Identifier", self.ident(self.required(n, "name")))

    def p_parentRef(self, n):
        self.attrs(n, "name")
        self.leaf(n)
        return adt("Pattern", "Parent", self.ident(self.required(n, "name")))

    def p_empty(self, n):
        self.attrs(n)
        self.leaf(n)
        return adt("Pattern", "Empty")

    def p_text(self, n):
        self.attrs(n)
        self.leaf(n)
        return adt("Pattern", "Text")

    def p_notAllowed(self, n):
        self.attrs(n)
        self.leaf(n)
        return adt("Pattern", "NotAllowed")

    def dtname(self, lib, v):
        return adt("DatatypeName", "NamespacedName", adt("NamespacedName", "NamespacedName", namespace_uri=lib, localname=self.ncname(v)))

    def p_value(self, n):
        self.attrs(n, "type")
        self.childless(n)
        a = attr(n, "type")
        if self.has(a):
            ty = some(self.dtname(self.inherited(n, "datatypeLibrary"), some0(a)))
        else:
            ty = NONE
        return adt("Pattern", "DatatypeValue", tup("DatatypeValuePattern", ty, lit(c("textof", n))))

    def p_data(self, n):
        self.attrs(n, "type")
        v = self.required(n, "type")
        lib = c("inh", n, ("str", "datatypeLibrary"))
        name = None
        if self.ask(mkeq(trim(v), ("str", "token"))):
            if not self.has(lib) or self.ask(mkeq(some0(lib), ("str", ""))):
                name = adt("DatatypeName", "Token")
        if name is None:
            name = self.dtname(self.inherited(n, "datatypeLibrary"), v)
        params, rest = ("arr", ()), NONE
        if self.has(kid0(n)):
            got = self.ok(c(self.paramsfn, some0(kid0(n))))
            params, rest = ("fld", got, "tuple", "0"), ("fld", got, "tuple", "1")
        ex = NONE
        if rest != NONE and self.has(rest):
            x = some0(rest)
            self.need(c("isrng", x))
            self.need(mkeq(tag(x), ("str", "except")))
            self.attrs(x)
            ex = some(self.joined(self.first(x), "pattern", lambda a, y: adt("Pattern", "ChoicePair", a, y)))
            self.nothing(sib(x))
        return adt("Pattern", "DatatypeName", tup("DatatypeNamePattern", name, some(params), ex))

    def p_externalRef(self, n):
        self.attrs(n, "href")
        href = self.ok(c(self.rebase, n, self.required(n, "href")))
        return adt("Pattern", "External", tup("ExternalPattern", lit(href), NONE))

    def p_grammar(self, n):
        self.attrs(n)
        return adt("Pattern", "Grammar", self.grammar(n))

    def grammar(self, n):
        return adt("GrammarPattern", "GrammarPattern", span=SPAN, content=self.children(n, "grammar_content"))

    # ---- name classes
    def name_class(self, n):
        self.need(c("isrng", n))
        t = tag(n)
        for name in ("name", "anyName", "nsName", "choice"):
            if self.ask(mkeq(t, ("str", name))):
                return getattr(self, "n_" + name)(n)
        raise Bad()

    def n_name(self, n):
        self.attrs(n)
        self.childless(n)
        v = c("textof", n)
        if self.e.n(mkeq(trim(v), ("str", ""))) == TRUE:
            raise Bad()
        return adt("NameClass", "Name", self.qname(n, v, lambda: self.inherited(n, "ns")))

    def exc(self, n):
        if not self.has(kid0(n)):
            return NONE
        x = some0(kid0(n))
        self.need(mkeq(tag(x), ("str", "except")))
        self.nothing(sib(x))
        self.attrs(x)
        self.inexcept = self.inside
        return some(self.joined(self.first(x), "name_class", self.alt))

    @staticmethod
    def alt(a, x):
        return adt("NameClass", "Alt", tup("AltName", a, x))

    def n_anyName(self, n):
        if self.e.variant(self.inexcept, self.inside[1]) == self.inside[2]:
            raise Bad()
        self.attrs(n)
        return adt("NameClass", "AnyName", tup("AnyName", self.exc(n)))

    def n_nsName(self, n):
        self.attrs(n)
        ns = self.inherited(n, "ns")
        return adt("NameClass", "NsName", adt("NsName", "NsName", name=adt("NamespaceOrPrefix", "NamespaceUri", ns), **{"except": self.exc(n)}))

    def n_choice(self, n):
        self.attrs(n)
        return self.joined(self.first(n), "name_class", self.alt)

    # ---- grammars
    def content(self, n, ty, include):
        self.need(c("isrng", n))
        t = tag(n)
        for name in ("start", "define", "div") + (("include",) if include else ()):
            if self.ask(mkeq(t, ("str", name))):
                if name == "div":
                    self.attrs(n)
                    return adt(ty, "Div", self.children(n, "grammar_content" if include else "include_content"))
                if name == "include":
                    return adt(ty, "Include", self.include(n))
                return adt(ty, "Define", getattr(self, name)(n))
        raise Bad()

    def grammar_content(self, n):
        return self.content(n, "GrammarContent", True)

    def include_content(self, n):
        return self.content(n, "IncludeContent", False)

    def combine(self, n):
        a = attr(n, "combine")
        if not self.has(a):
            return adt("AssignMethod", "Assign")
        v = trim(some0(a))
        if self.ask(mkeq(v, ("str", "choice"))):
            return adt("AssignMethod", "Choice")
        self.need(mkeq(v, ("str", "interleave")))
        return adt("AssignMethod", "Interleave")

    def start(self, n):
        self.attrs(n, "combine")
        how = self.combine(n)
        first = self.first(n)
        pat = self.ok(self.sub("pattern", first))
        self.nothing(sib(first))
        return tup("Define", SPAN, tup("Identifier", SPAN, ("str", "start")), how, pat)

    def define(self, n):
        self.attrs(n, "name", "combine")
        how = self.combine(n)
        name = self.ident(self.required(n, "name"))
        return tup("Define", SPAN, name, how, self.group(self.first(n)))

    def include(self, n):
        self.attrs(n, "href")
        href = self.ok(c(self.rebase, n, self.required(n, "href")))
        return tup("Include", lit(href), NONE, some(self.children(n, "include_content")))


PATTERNS = ("element", "attribute", "group", "interleave", "choice", "optional", "zeroOrMore", "oneOrMore", "list", "mixed", "ref", "parentRef",
            "empty", "text", "value", "data", "notAllowed", "externalRef", "grammar")


def s02(prog, rep, tier):
    rep.rule("for every combination of element name, attributes and children the XML syntax reader can meet, the pattern, name class or grammar part it "
             "yields is the one the RELAX NG specification defines for that element, and it is an error exactly where that is undefined")
    R = Roles(prog, rep, CR)
    for x in ENTRY:
        f = prog.fns.get(X + x)
        if f is None:
            rep.bad("anchor:" + x, "the function '%s' of the XML syntax reader, which this rule decides, is no longer there" % x)
            return
        R.m[x] = f
        rep.functions.add(f.path)
    inx = [f for f in prog.fns.values() if f.path.startswith(X) and "{closure" not in f.path]
    ent = [R.m[x] for x in ENTRY]
    texts, kids, places = {}, {}, set()
    opaque = list(ent) + lits(prog)
    for f in inx:
        a = [strip_ty(x) for x in f.argtypes()]
        r = rettype(f)
        if f in ent:
            continue
        if a == ["char"]:
            opaque.append(f)
        elif r.startswith("std::ops::Range<usize>"):
            places.add(shortname(f.path))
            opaque.append(f)
        elif r.startswith("std::result::Result<") and "str" in a and ("NcName," in r or "Identifier," in r):
            texts[shortname(f.path)] = "ncname" if "NcName," in r else "ident"
            opaque.append(f)
        elif r.startswith("std::option::Option<roxmltree::Node") and len(a) == 1:
            kids[shortname(f.path)] = f
        elif f.name in ("params", "rebase_path"):
            R.m[f.name] = f
            opaque.append(f)
    extra = {"rewrite": rewrite, "texts": texts, "places": places}
    vocab = ["attr", "inh", "badattr", "kid0", "sib", "from", "isrng", "nsuri", "colon", "before", "after", "textof", "ident", "ncname", "xmltrim", "parse:&str",
             "fragment", "name", "value", "namespace", "is_element", "tag_name", "parse:", "root_element", "pathstr",
             "to_str", "dirof", "joined", "from", "starts_with", "ends_with", "ancestors", "as_string_value", "first_element_child", "next_sibling_element", "parent_element"]

    def checker(ops):
        vf, C = mk(prog, ops, vocab)
        C.extra = dict(EXTRA, **extra)
        return vf, C
    # which functions step to the first and the next element
    vf, C = checker(opaque)
    known = {}
    for nm, f in sorted(kids.items()):
        a = ("arg", f.argnames()[0])
        for want in (kid0(a), sib(a)):
            res = C.check(f, lambda e, p: ("term", want), name=f.name)
            if not res.violations and not res.inconclusive:
                known[nm] = want[1]
                rep.functions.add(f.path)
                rep.good("%s reads the %s element of the RELAX NG namespace" % (f.name, "first" if want[1] == "kid0" else "next"))
                opaque.append(f)
    for role, want in (("first_rng_child", "kid0"), ("next_rng_sibling", "sib")):
        f = next((f for f in kids.values() if f.name == role), None)
        if f is not None and shortname(f.path) not in known:
            res = C.check(f, lambda e, p: ("term", c(want, ("arg", f.argnames()[0]))), name=f.name)
            rep.merge(f, res, role)
            return
    extra["kidfns"] = known
    vf, C = checker(opaque)
    # which functions make names
    texts_ = dict(texts)
    for f in list(opaque):
        nm = shortname(f.path)
        if nm in texts_:
            del texts[nm]
            vf1, C1 = checker([g for g in opaque if g is not f])
            t = namefn(prog, rep, f, vf1, C1, {shortname(g.path): g for g in inx if g.argtypes() == ["char"]})
            texts[nm] = (texts_[nm], t)
    inex = [a for a in prog.adts if a.endswith("xml::InExcept")]
    Reader.entry = {x: shortname(R.m[x].path) for x in ENTRY}
    if inex:
        vs = [v for v, _ in prog.variants(inex[0])]
        Reader.inside = ("adt", inex[0], next((v for v in vs if "In" in v and "Out" not in v), vs[0]), ())
        Reader.outside = ("adt", inex[0], next(v for v in vs if v != Reader.inside[2]), ())
    Reader.paramsfn = shortname(R.m["params"].path) if "params" in R.m else "params"
    Reader.rebase = shortname(R.m["rebase_path"].path) if "rebase_path" in R.m else "rebase_path"
    for x in ENTRY:
        f = R.m[x]
        node = next((("arg", n) for n, t in zip(f.argnames(), f.argtypes()) if "roxmltree::Node" in t), None)

        def spec(e, p, x=x, f=f, node=node):
            r = Reader(e, p)
            r.inexcept = Reader.outside
            if x == "name_class":
                r.inexcept = next(("arg", n) for n, t in zip(f.argnames(), f.argtypes()) if "InExcept" in t)
            try:
                return ("term", ok(getattr(r, x)(node)))
            except Bad:
                return wanterr()
            except Odd as o:
                m = o.msg
                return ("pred", lambda e2, a: None if iskind("Err")[1](e2, a) is None else "!" + m)
        parts = vf.summarize(f)
        rep.merge(f, C.check_parts(f, parts, spec, label=f.name), x)
    schema(prog, rep, checker, opaque)
    facets(prog, rep, checker, opaque, R.m.get("params"))
    hrefs(prog, rep, checker, opaque, R.m.get("rebase_path"))


def schema(prog, rep, checker, opaque):
    """the document as a whole"""
    f = prog.fns.get(X + "parse")
    if f is None:
        rep.bad("anchor:parse", "the function 'parse' of the XML syntax reader, which this rule decides, is no longer there")
        return
    rep.functions.add(f.path)
    vf, C = checker(opaque)
    parts = vf.summarize(f)

    def spec(e, p):
        r = Reader(e, p)
        r.inexcept = Reader.outside
        try:
            doc = r.ok(next((t for (k, t) in p.facts if k == "v" and t[0] == "call" and t[1].startswith("parse") and t[2] == (("arg", f.argnames()[0]),)),
                            c("roxmltree::Document::parse", ("arg", f.argnames()[0]))))
            root = c("roxmltree::Document::root_element", doc)
            r.need(c("isrng", root))
            if r.ask(mkeq(tag(root), ("str", "grammar"))):
                r.attrs(root)
                what = adt("PatternOrGrammar", "Grammar", r.grammar(root))
            else:
                what = adt("PatternOrGrammar", "Pattern", r.ok(r.sub("pattern", root)))
            return ("term", ok(adt("Schema", "Schema", decls=("arr", ()), pattern_or_grammar=what)))
        except Bad:
            return wanterr()
        except Odd as o:
            m = o.msg
            return ("pred", lambda e2, a: None if iskind("Err")[1](e2, a) is None else "!" + m)
    rep.merge(f, C.check_parts(f, parts, spec, label=f.name), "parse")


class Part:
    def __init__(self, p, val):
        self.facts, self.kind, self.val, self.events, self.heap, self.loops = p.facts, p.kind, val, p.events, p.heap, p.loops


def stepped(p, init):
    """what starts as the given value and a loop changes: [(before, after a round)]"""
    out = []
    name = next((t[1][1] for (k, t) in p.facts if k == "b" and t[0] == "more" and t[1][0] == "loop"), None)
    for start, upd in p.loops.values():
        for v in start:
            if start[v] == init:
                was = ("loop", name, v, init)
                out.append((was, (upd or {}).get(v, was)))
    return out


def rounds(prog, rep, vf, f, init):
    """the cases of a function with one loop, whose rounds yield what they make of the one value which starts as init; and that value"""
    parts, accs = [], set()
    for p in vf.summarize(f):
        ch = stepped(p, init)
        accs |= {a for a, t in ch}
        if len(ch) > 1 or not ch and p.loops:
            rep.unknown("%s at %s: a loop without one value of its own" % (f.name, prog.pos(f.sp)))
            return None, None
        parts.append(Part(p, ch[0][1]) if p.kind == "back" else p)
    if len(accs) != 1:
        rep.unknown("%s at %s: not one loop" % (f.name, prog.pos(f.sp)))
        return None, None
    return parts, next(iter(accs))


def listval(t, acc, xs):
    """the list a term of list operations makes of the accumulator's elements"""
    if t == acc:
        return list(xs)
    if t[0] == "arr":
        out = []
        for x in t[1]:
            out += listval(x[1], acc, xs) if x[0] == "spread" else [x]
        return out
    if t[0] == "upd":
        op = t[1].rsplit("::", 1)[-1]
        q, a = listval(t[2][0], acc, xs), t[2][1:]
        if op == "push":
            return q + [a[0]]
        if op in ("append", "extend", "extend_from_slice"):
            return q + listval(a[0], acc, xs)
        if op == "truncate" and a[0][0] == "int":
            return q[:a[0][1]]
        if op == "clear":
            return []
        if op == "pop":
            return q[:-1]
        if op == "reverse":
            return q[::-1]
        if op == "insert" and a[0][0] == "int" and a[0][1] <= len(q):
            return q[:a[0][1]] + [a[1]] + q[a[0][1]:]
        if op in ("remove", "swap_remove") and a[0][0] == "int" and a[0][1] < len(q):
            i = a[0][1]
            return q[:i] + q[i + 1:] if op == "remove" or i == len(q) - 1 else q[:i] + q[-1:] + q[i + 1:-1]
        if op == "swap" and all(x[0] == "int" and x[1] < len(q) for x in a):
            q[a[0][1]], q[a[1][1]] = q[a[1][1]], q[a[0][1]]
            return q
    raise LookupError(t)


def facets(prog, rep, checker, opaque, f):
    """<param> elements: read in order, up to the first element which is not one"""
    if f is None:
        return
    rep.functions.add(f.path)
    vf, C = checker([g for g in opaque if g is not f])
    start = c("from", some(("arg", f.argnames()[0])))
    parts, accs = rounds(prog, rep, vf, f, ("arr", ()))
    if parts is None:
        return

    acc = accs

    def spec(e, p):
        r = Reader(e, p)
        e.trust(acc)
        looks = [v for (k, t), v in p.facts.items() if k == "b" and t[0] == "more" and t[1][0] == "loop" and e.n(t[1][3]) == start]
        if len(looks) != 1:
            return ("pred", lambda e2, a: "~the <param> elements are read in a way which is not known")
        src = start
        el = ("elem", src)
        try:
            if not looks[0]:
                rest = NONE
            elif r.ask(mkeq(tag(el), ("str", "param"))):
                r.attrs(el, "name")
                name = r.ident(r.required(el, "name"))
                r.childless(el)
                param = tup("Param", SPAN, NONE, adt("IdentifierOrKeyword", "Identifier", name), lit(c("textof", el)))
                if p.kind != "back":
                    return ("pred", lambda e2, a: "!a <param> is read but not kept")

                def kept(e2, a):
                    want = e2.n(param)
                    for k in range(4):
                        xs = [("elem", ("earlier",), ("int", i)) for i in range(k)]
                        try:
                            got = listval(e2.n(a), e2.n(acc), xs)
                        except LookupError:
                            return "~"
                        if len(got) != k + 1 or got[:k] != xs:
                            return "!!what was read before is not kept as it was: after %d it has %d" % (k, len(got))
                        if e2.n(got[k]) != want:
                            return "not %s" % show(want)
                    return None
                return ("pred", kept)
            else:
                rest = some(el)
        except Bad:
            return wanterr() if p.kind != "back" else ("pred", lambda e2, a: "!a <param> in error is accepted")
        if p.kind == "back":
            return ("pred", lambda e2, a: "!what is not a <param> is read as one")
        return ("term", ok(("tup", (acc, rest))))
    rep.merge(f, C.check_parts(f, parts, spec, label=f.name, kinds=("ret", "panic", "exit", "back"), folds=False), "params")


def hrefs(prog, rep, checker, opaque, f):
    """references: relative to the base given by the ancestors, the outermost first"""
    if f is None:
        return
    rep.functions.add(f.path)
    vf, C = checker([g for g in opaque if g is not f])
    node = next(("arg", n) for n, t in zip(f.argnames(), f.argtypes()) if "roxmltree::Node" in t)
    href = next((("arg", n) for n, t in zip(f.argnames(), f.argtypes()) if strip_ty(t) == "str"), None)
    parts, accs = rounds(prog, rep, vf, f, NONE)
    if parts is None:
        return

    acc = accs

    def bases(e, s):
        """is this the sequence of base attributes, and in which order?"""
        s = e.n(s)
        outer, value = False, False
        while s[0] == "call" and s[1] in ("rev", "iter:collect", "iter:map"):
            if s[1] == "iter:map":
                if value or one(s[2][1]) not in (c(ATT + "value", LV), c("value", LV)):
                    return None
                value = True
            outer ^= s[1] == "rev"
            s = s[2][0]
        if s[0] == "call" and s[1] == "iter:filter_map" and s[2][0] == c(NODE + "ancestors", node):
            b = one(s[2][1])
            if b is not None and b[0] == "call" and b[1] in (NODE + "attribute_node", "attr") and b[2] == (LV, ("tup", (("str", XMLNS), ("str", "base")))):
                return outer, value
        if any(x == c(NODE + "ancestors", node) for x in subterms(s)) and any(x[0] == "call" and x[1] in ("iter:skip", "iter:take") for x in subterms(s)):
            return "some"
        return None

    def spec(e, p):
        r = Reader(e, p)
        e.trust(acc)
        if any(k == "v" and t[0] == "call" and t[1] == "std::path::Path::to_str" and v == frozenset(["None"]) for (k, t), v in p.facts.items()):
            return ("any",)     # the path is made of texts
        looks = [(t[1][3], v) for (k, t), v in p.facts.items() if k == "b" and t[0] == "more" and t[1][0] == "loop"]
        odd = ("pred", lambda e2, a: "~the base of a reference is found in a way which is not known")
        if len(looks) != 1:
            return odd
        src, more = looks[0]
        o = bases(e, src)
        if o is None:
            return odd
        if o == "some":
            return ("pred", lambda e2, a: "!!not every xml:base around it counts")
        if not o[0]:
            return ("pred", lambda e2, a: "!the inner xml:base is applied before the outer one")
        new = href if not more else ("elem", e.n(src)) if o[1] else c(ATT + "value", ("elem", e.n(src)))
        path = c("std::convert::From::from", new)
        if not r.ask(c("core::str::starts_with", new, ("str", "/"))):
            if r.has(acc):
                old = some0(acc)
                if not r.ask(c("core::str::ends_with", c("pathstr", old), ("str", "/"))):
                    old = c("dirof", old)
                path = c("joined", old, new)
        if p.kind == "back":
            return ("term", some(path))
        return ("term", ok(c("pathstr", path)))
    rep.merge(f, C.check_parts(f, parts, spec, label=f.name, kinds=("ret", "panic", "exit", "back"), folds=False), "rebase_path")


class Names(Exception):
    pass


def charsets(prog, b, pos, ch, opq):
    """(characters at the start, characters elsewhere) a condition on one character of a text and its position holds for"""
    k = b[0]
    if k == "bool":
        return (cs.ALL, cs.ALL) if b[1] else ((), ())
    if k == "not":
        a = charsets(prog, b[1], pos, ch, opq)
        return cs.compl(a[0]), cs.compl(a[1])
    if k in ("and", "or"):
        xs = [charsets(prog, x, pos, ch, opq) for x in b[1:]]
        r = xs[0]
        for x in xs[1:]:
            op = cs.inter if k == "and" else cs.union
            r = op(r[0], x[0]), op(r[1], x[1])
        return r
    if k == "eq" and pos in b[1:] and ("int", 0) in b[1:]:
        return cs.ALL, ()
    if k in ("lt", "le") and pos in b[1:]:
        o = b[2] if b[1] == pos else b[1]
        if b == ("lt", ("int", 0), pos) or b == ("le", ("int", 1), pos):
            return (), cs.ALL
        if b == ("lt", pos, ("int", 1)) or b == ("le", pos, ("int", 0)):
            return cs.ALL, ()
    if k in ("eq", "lt", "le") and ch in b[1:]:
        o = b[2] if b[1] == ch else b[1]
        if o[0] == "char":
            n = o[1]
            s = cs.only(n) if k == "eq" else cs.below(n + (k == "le")) if b[1] == ch else cs.compl(cs.below(n + (k == "lt")))
            return s, s
    if k == "in" and b[1] == ch and all(x[0] == "char" for x in b[2]):
        s = cs.norm([(x[1], x[1]) for x in b[2]])
        return s, s
    if k == "call" and len(b[2]) == 1 and b[2][0] == ch:
        f = opq.get(b[1])
        s = cs.charset(prog, f) if f is not None else cs.library(b[1].rsplit("::", 1)[-1])
        return s, s
    raise cs.Unknown("the condition %s" % show(b)[:100])


def namefn(prog, rep, f, vf, C, opq):
    """a function which makes a name of a text: accepts exactly the NCNames.  -> whether it trims, None if it is not one"""
    rep.functions.add(f.path)
    key = "name:" + f.name
    arg = next(("arg", n) for n, t in zip(f.argnames(), f.argtypes()) if strip_ty(t) == "str")
    parts = vf.summarize(f)
    text = None
    ok_ = [(), ()]
    seen_empty = False
    try:
        for p in parts:
            N = C.norm(f)
            if not C.norm(f).add_facts(p.facts):
                continue
            bs = [(N.n(t), v) if t[0] != "more" else (t, v) for (k, t), v in p.facts.items() if k == "b"]
            if any(k != "b" for k, t in p.facts):
                raise cs.Unknown("a case distinction")
            loop = [(t, v) for t, v in bs if t[0] == "more" and t[1][0] == "loop"]
            rest = [(t, v) for t, v in bs if (t, v) not in loop]
            if len(loop) > 1:
                raise cs.Unknown("several loops")
            val = N.n(p.val)
            res = val[2] if val[0] == "adt" else None
            empt = [(x, v) for t, v in rest if t[0] == "eq" and ("str", "") in t[1:] for x in t[1:] if x in (arg, trim(arg))
                    for x in [x]]
            for x, v in empt:
                if text not in (None, x):
                    raise cs.Unknown("two texts")
                text = x
            if any(v for x, v in empt):
                if p.kind == "ret" and res == "Ok":
                    rep.bad(key, "%s at %s: makes a name of an empty text" % (f.name, prog.pos(f.sp)))
                    return None
                seen_empty = True
                continue
            if not loop:
                raise cs.Unknown("a result without looking at the characters")
            lp, more = loop[0]
            src = N.n(lp[1][3])
            x = None
            el = ("elem", src)
            if src[0] == "call" and src[1] == "core::str::char_indices":
                x, pos, ch = src[2][0], ("fld", el, "tuple", "0"), ("fld", el, "tuple", "1")
            elif src[0] == "call" and src[1] == "iter:enumerate" and src[2][0][0] == "call" and src[2][0][1] == "core::str::chars":
                x, pos, ch = src[2][0][2][0], ("fld", el, "tuple", "0"), ("fld", el, "tuple", "1")
            if x not in (arg, trim(arg)):
                raise cs.Unknown("a loop over something else")
            if text not in (None, x):
                raise cs.Unknown("two texts")
            text = x
            conds = [(t, v) for t, v in rest if not (t[0] == "eq" and ("str", "") in t[1:])]
            if not more:
                if conds:
                    raise cs.Unknown("a condition after the loop")
                if res != "Ok" or dict(dict(val[3])["0"][3]).get("1") != text:
                    rep.bad(key, "%s at %s: the name made of a text of permitted characters is %s" % (f.name, prog.pos(f.sp), show(val)))
                    return None
                continue
            S = [cs.ALL, cs.ALL]
            for t, v in conds:
                q = charsets(prog, t, pos, ch, opq)
                if not v:
                    q = cs.compl(q[0]), cs.compl(q[1])
                S = [cs.inter(S[0], q[0]), cs.inter(S[1], q[1])]
            if p.kind == "back":
                ok_ = [cs.union(ok_[0], S[0]), cs.union(ok_[1], S[1])]
            elif p.kind == "ret" and res == "Ok":
                raise cs.Unknown("a loop which is left early")
    except cs.Unknown as ex:
        rep.unknown("%s at %s: %s" % (f.name, prog.pos(f.sp), ex))
        return None
    rep.count("character sets", 2)
    if not seen_empty:
        rep.bad(key, "%s at %s: makes a name of an empty text" % (f.name, prog.pos(f.sp)))
        return None
    good = True
    for got, want, what in ((ok_[0], cs.NCSTART, "at the start of"), (ok_[1], cs.NCCHAR, "within")):
        for a, b, msg in ((want, got, "refused"), (got, want, "allowed")):
            d = cs.inter(a, cs.compl(b))
            if d:
                rep.bad(key, "%s at %s: %s is %s %s a name" % (f.name, prog.pos(f.sp), cs.words(d), msg, what))
                good = False
    if good:
        rep.good("%s accepts exactly the names without a colon" % f.name)
    return text == trim(arg)


def rettype(f):
    return f.body["locals"][0]["t"]
