"""Normal forms of value-flow terms, and the algebra of derivative patterns.

Everything here is rewriting to a canonical form: associativity/commutativity/idempotence, units and
zeros of the pattern operators, eta-contraction of re-built aggregates, alpha-renaming of lambdas,
folding of loops over a sequence into fold terms.
"""
import ast
import re
from mir import strip_ty
from vf import OPT, RES, TRUE, FALSE, NONE, some, mkand, mkor, mkeq, neg

PAT = "relaxng_validator::Pat"
NA = ("adt", PAT, "NotAllowed", ())
EMPTY = ("adt", PAT, "Empty", ())
TEXT = ("adt", PAT, "Text", ())
# variants of the derivative pattern whose content can never match the empty sequence
NEVER_NULL = frozenset(["NotAllowed", "Attribute", "Element", "Datatype", "DatatypeValue", "DatatypeExcept", "List",
                        "Placeholder", "After"])
ALWAYS_NULL = frozenset(["Empty", "Text"])

DROP = frozenset(["state"])


def subst(t, m):
    """replace subterms"""
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    return tuple(subst(x, m) if isinstance(x, tuple) else (frozenset(x) if isinstance(x, frozenset) else x) for x in t)


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                for y in subterms(x):
                    yield y
    elif isinstance(t, frozenset):
        for x in t:
            for y in subterms(x):
                yield y


def contains_term(t, pred):
    return any(pred(x) for x in subterms(t))


class Norm:
    """normaliser under a set of facts (variants of terms, truth of atoms)"""

    def __init__(self, prog, facts=None, patname=PAT, extra=None, folds=None, statef=None, types=None):
        self.prog = prog
        self.types = types or {}
        self.foundc = {}
        self.vfacts = {}
        self.bfacts = {}
        self.cache = {}
        self.extra = extra or {}
        self.folds = folds or {}
        self.statef = statef or (lambda owner, name: False)
        self.lvl = {}
        if facts:
            self.add_facts(facts)

    # -------------------------------------------------------------- facts
    def add_facts(self, facts):
        """facts over normalised atoms; returns False when contradictory"""
        ok = True
        # variants first so that they may be used to normalise the rest
        for _ in range(2):
            self.cache = {}
            for a, x in facts.items():
                if a[0] == "v":
                    t = self.n(a[1])
                    if not self.setv(t, frozenset(x)):
                        ok = False
        self.cache = {}
        for a, x in facts.items():
            if a[0] == "b":
                if not self.setb(self.n(a[1]), x):
                    ok = False
            elif a[0] == "sw":
                t = self.n(a[1])
                if isinstance(x, int):
                    if not self.setb(("sw", t, x), True):
                        ok = False
                else:
                    for y in x[1]:
                        if not self.setb(("sw", t, y), False):
                            ok = False
        # what was learnt may simplify the terms the variant facts are about
        for a, x in facts.items():
            if a[0] != "v":
                continue
            self.cache = {}
            t = self.n1(a[1])
            if t not in self.vfacts and t[0] != "adt":
                if not self.setv(t, frozenset(x)):
                    ok = False
        self.cache = {}
        return ok and self.consistent()

    def setv(self, t, vs):
        if t[0] == "call" and t[1] == "iter:find" and len(vs) == 1:
            n = self.n(("isv", t, "std::option::Option", vs))
            if n[0] == "bool":
                return n[1]
            if n[0] != "isv" and not (n[0] == "not" and n[1][0] == "isv"):
                return self.setb(n, True)
        if t[0] == "adt":
            return t[2] in vs
        if t[0] == "choice" or t[0] in ("group", "interleave", "one_or_more", "after", "list"):
            # smart constructor results: their variant is not determined by the operands
            pass
        cur = self.vfacts.get(t)
        new = vs if cur is None else cur & vs
        if not new:
            return False
        self.vfacts[t] = new
        return True

    def setb(self, c, val):
        if c[0] == "bool":
            return c[1] == val
        if c[0] == "not":
            return self.setb(c[1], not val)
        if c[0] == "and" and val or c[0] == "or" and not val:
            return all(self.setb(x, val) for x in c[1:])
        if c[0] == "isv":
            t, adt, vs = c[1], c[2], c[3]
            if t[0] == "call" and t[1] == "iter:find":
                # 'is there one' over characters is a property of the text
                n = self.n(c)
                if n[0] != "isv":
                    return self.setb(n, val)
            allv = frozenset(n for n, _ in self.prog.variants(adt))
            cur = self.vfacts.get(t, allv)
            return self.setv(t, cur & (vs if val else allv - vs) or frozenset()) if (cur & (vs if val else allv - vs)) else False
        if c in self.bfacts and self.bfacts[c] != val:
            return False
        self.bfacts[c] = val
        return True

    def consistent(self):
        for c, val in list(self.bfacts.items()):
            self.cache = {}
            saved = self.bfacts.pop(c)
            n = self.n(c)
            self.bfacts[c] = saved
            self.cache = {}
            if n[0] == "bool" and n[1] != val:
                return False
        # string equality with two different literals
        eqs = {}
        for c, val in self.bfacts.items():
            if val and c[0] == "eq":
                for x, y in ((c[1], c[2]), (c[2], c[1])):
                    if x[0] in ("str", "int", "char"):
                        if eqs.setdefault(y, x) != x:
                            return False
        return True

    def copy(self):
        m = Norm(self.prog, None, extra=self.extra, folds=self.folds, statef=self.statef, types=self.types)
        m.vfacts = dict(self.vfacts)
        m.bfacts = dict(self.bfacts)
        m.lvl = self.lvl
        m.foundc = self.foundc
        return m

    # -------------------------------------------------------------- normal form
    def n(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        c = self.cache.get(t)
        if c is not None:
            return c
        r = self.n1(t)
        h = self.extra.get("rewrite")
        if h is not None:
            for _ in range(8):
                q = h(self, r)
                if q is None or q == r:
                    break
                r = q
        r = self.post(r)
        self.cache[t] = r
        return r

    def post(self, t):
        """facts about the normalised term"""
        if not isinstance(t, tuple) or not t:
            return t
        f = self.vfacts.get(t)
        if f is not None and len(f) == 1:
            v = next(iter(f))
            adt = self.adt_of(v, t)
            if adt is not None and not self.prog.fields(adt, v):
                return ("adt", adt, v, ())
        b = self.bfacts.get(t)
        if b is not None and t[0] not in ("adt",):
            return ("bool", b)
        if t[0] in ("eq", "isv", "lt", "allchars", "in", "call", "sw"):
            r = self.found(t)
            if r is not None:
                return ("bool", r)
        return t

    def found(self, t):
        """what a search looked for holds of the element it found"""
        d = getattr(self, "_ld", 0)
        for y in subterms(t):
            if y[0] == "fld" and y[1][0] == "call" and y[1][1] == "iter:find" and y[2].endswith("::Some") and y[1] != t:
                lam = y[1][2][1]
                if lam[0] != "lam" or len(lam[3]) != 1 or lam[3][0][0]:
                    continue
                body = lam[3][0][2]
                key = (y, d)
                cs = self.foundc.get(key)
                if cs is None:
                    self.foundc[key] = ()
                    m = {("lv", d, 0): y}
                    for z in subterms(body):
                        if z[0] == "lv" and z[1] > d:
                            m[z] = ("lv", z[1] - 1, z[2])
                    xs = body[1:] if body[0] == "and" else (body,)
                    # without simplification by facts: the shape of the conjunct itself
                    cs = self.foundc[key] = tuple(subst(x, m) for x in xs)
                for c in cs:
                    if c == t:
                        return True
                    if c == ("not", t):
                        return False
                    if c[0] == "eq" and t[0] == "eq" and set(c[1:]) == set(t[1:]):
                        return True
        return None

    def adt_of(self, variant, t):
        """the enum a variant fact is about, when the variant name is unambiguous enough"""
        h = self.extra.get("adt_of")
        if h:
            r = h(t, variant)
            if r:
                return r
        if variant == "None":
            return OPT
        ty = self.termty(t)
        if ty is not None and ty not in ("Pat", "PatId"):
            c = [a for a in self.prog.adts if a == ty] or \
                [a for a in self.prog.adts if a.rsplit("::", 1)[-1] == ty.rsplit("::", 1)[-1]]
            if len(c) == 1 and self.prog.fields(c[0], variant) == []:
                return c[0]
            return None
        for a in (PAT,):
            if a in self.prog.adts and self.prog.fields(a, variant) == [] and variant in ("NotAllowed", "Empty", "Text"):
                return a
        return None

    def termty(self, t):
        """static type of a term, without references and generic arguments; None when unknown"""
        if t[0] == "arg":
            ty = self.types.get(t[1])
        elif t[0] == "fld":
            ty = None
            owner = t[2]
            a, v = owner.rsplit("::", 1) if "::" in owner else (owner, None)
            adt = self.prog.adts.get(a) or self.prog.adts.get(owner)
            if adt:
                for vv in adt["variants"]:
                    if vv[0] == v or len(adt["variants"]) == 1:
                        for n, x in vv[2]:
                            if n == t[3]:
                                ty = x
        elif t[0] == "call":
            c = [self.prog.fns[p] for p in self.prog.short.get(t[1], [])]
            ty = c[0].body["locals"][0]["t"] if len(c) == 1 else None
        else:
            return None
        if ty is None:
            return None
        ty = re.sub(r"<.*>", "", strip_ty(ty))
        if re.fullmatch(r"[A-Z]", ty):
            return None
        return ty

    def args(self, xs):
        out = []
        for x in xs:
            y = self.n(x)
            if isinstance(y, tuple) and y and y[0] in DROP:
                continue
            out.append(y)
        return tuple(out)

    def n1(self, t):
        k = t[0]
        if k in ("str", "int", "bool", "char", "arg", "fn", "ctor", "const", "static", "undef", "bot", "state", "accv", "itv"):
            return t
        if k == "lp":
            return self.lvl.get(t, t)
        if k == "loop":
            f = self.folds.get(t)
            if f is not None:
                return self.n(f)
            return ("loop", t[1], t[2], self.n(t[3]))
        if k == "fld":
            base = self.n(t[1])
            owner, name = t[2], t[3]
            if self.statef(owner, name):
                return ("state", name)
            return self.nfld(base, owner, name)
        if k == "adt":
            return self.nadt(t)
        if k == "arr":
            xs = []
            for x in t[1]:
                x = self.n(x)
                if x[0] == "spread" and x[1][0] == "arr":
                    xs += x[1][1]
                else:
                    xs.append(x)
            if len(xs) == 1 and xs[0][0] == "spread":
                return xs[0][1]
            return ("arr", tuple(xs))
        if k == "upd" and t[1] in ("push", "append") and len(t[2]) == 2 and self.extra.get("lists"):
            return self.n1(("arr", (("spread", t[2][0]), t[2][1] if t[1] == "push" else ("spread", t[2][1]))))
        if k in ("tup", "cat"):
            xs = tuple(self.n(x) for x in t[1])
            if k == "tup" and len(xs) > 1 and all(x[0] == "fld" and x[2] == "tuple" and x[1] == xs[0][1] and x[3] == str(i)
                                                  for i, x in enumerate(xs)):
                return xs[0][1]
            return (k, xs) if k == "tup" else joincat(xs)
        if k == "call" and t[1] == "std::fmt::format":
            return self.nformat(t)
        if k == "call":
            return self.ncall(t[1], self.args(t[2]))
        if k == "idx" and t[2][0] == "bin" and t[2][1] == "Sub" and t[2][3] == ("int", 1) and t[2][2][0] == "call" and t[2][2][1] == "len" and t[2][2][2] == (t[1],):
            return self.n(("fld", ("call", "core::slice::last", (t[1],)), OPT + "::Some", "0"))
        if k == "cast" and self.extra.get("cast:" + str(t[1])):
            return self.n(t[2])        # widening
        if k == "upd" and self.extra.get("noupd") and t[1] in self.prog.short:
            return self.n(t[2][0])     # what a callee did to this object is not followed
        if k == "upd":
            return ("upd", t[1], self.args(t[2]))
        if k == "not":
            return neg(self.n(t[1]))
        if k == "and":
            return self.nandor("and", [self.n(x) for x in t[1:]])
        if k == "or":
            return self.nandor("or", [self.n(x) for x in t[1:]])
        if k == "isv":
            x = self.n(t[1])
            if x[0] == "call" and x[1] == "iter:find" and x[2][0][0] == "call" and x[2][0][1].endswith("str::chars"):
                cs = self.charset(("lamnot", x[2][1]))
                if cs is not None:
                    r = ("allchars", x[2][0][2][0], cs)
                    if r in self.bfacts:
                        r = ("bool", self.bfacts[r])
                    return neg(r) if t[3] == frozenset(["Some"]) else r
            if x[0] == "adt":
                return ("bool", x[2] in t[3])
            f = self.vfacts.get(x)
            if f is not None:
                if f <= t[3]:
                    return TRUE
                if not (f & t[3]):
                    return FALSE
            return ("isv", x, t[2], t[3])
        if k == "eq":
            a, b = self.n(t[1]), self.n(t[2])
            r = mkeq(a, b)
            if r[0] == "isv":
                return self.n1(r) if r != t else r
            if r[0] == "eq":
                ab = None
                if a[0] == b[0] == "tup" and len(a[1]) == len(b[1]):
                    ab = list(zip(a[1], b[1]))
                elif a[0] == b[0] == "adt" and a[1] == OPT and a[2] == b[2] == "Some":
                    ab = [(a[3][0][1], b[3][0][1])]
                if ab:
                    x = [("eq", y, z) for y, z in ab]
                    return self.n(("and",) + tuple(x) if len(x) > 1 else x[0])
                return self.neq(r)
            return r
        if k in ("lt", "le"):
            a, b = self.n(t[1]), self.n(t[2])
            if a[0] == "int" and b[0] == "int":
                return ("bool", a[1] < b[1] if k == "lt" else a[1] <= b[1])
            if a == b:
                return ("bool", k == "le")
            if k == "le":
                return neg(("lt", b, a))
            return ("lt", a, b)
        if k == "lam":
            return self.nlam(t)
        if k == "clo":
            return ("clo", t[1], tuple(self.n(x) for x in t[2]))
        if k == "ite":
            return self.nite(t)
        if k == "fold":
            return self.nfold(t)
        if k == "big":
            return ("big", t[1], self.n(t[2]), self.n(t[3]))
        if k == "list":
            return ("adt", PAT, "List", (("0", self.n(t[1])),))
        if k == "nullable":
            return self.nullable(self.n(t[1]))
        if k in ("choice", "group", "interleave", "after", "one_or_more"):
            nf = isinstance(t[1], frozenset) or (len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple))
            return self.npat(k, [self.n(x) for x in (t[1] if nf else t[1:])])
        if k == "elem" or k == "first" or k == "rest" or k == "more":
            return (k,) + tuple(self.n(x) for x in t[1:])
        if k == "with":
            b, v = self.n(t[1]), self.n(t[4])
            if isinstance(t[2], str) and "::" in t[2] and self.extra.get("lists"):
                adt, var = t[2].rsplit("::", 1)
                fs = self.prog.fields(adt, var)
                if fs and (b[0] == "adt" or self.vfacts.get(b) == frozenset([var]) or len(self.prog.variants(adt) or []) == 1):
                    return self.n(("adt", adt, var, tuple((x, v if x == t[3] else ("fld", b, t[2], x)) for x in [f if isinstance(f, str) else f[0] for f in fs])))
            return ("with", b, t[2], t[3], v)
        return tuple(self.n(x) if isinstance(x, tuple) else x for x in t)

    def nandor(self, k, xs):
        out = set()
        for x in xs:
            if x[0] == k:
                ys = x[1:]
            else:
                ys = (x,)
            for y in ys:
                if y == (TRUE if k == "and" else FALSE):
                    continue
                if y == (FALSE if k == "and" else TRUE):
                    return y
                out.add(y)
        for y in out:
            if neg(y) in out:
                return FALSE if k == "and" else TRUE
        if not out:
            return TRUE if k == "and" else FALSE
        if len(out) == 1:
            return next(iter(out))
        # membership of one term in a set of constants
        if k == "or":
            cs = {}
            for y in out:
                m = self.member(y)
                if m is None:
                    break
                cs.setdefault(m[0], set()).update(m[1])
            else:
                if len(cs) == 1:
                    (x, vals), = cs.items()
                    return ("in", x, frozenset(vals))
        return (k,) + tuple(sorted(out, key=repr))

    def member(self, y):
        if y[0] == "eq":
            for a, b in ((y[1], y[2]), (y[2], y[1])):
                if b[0] in ("char", "int", "str"):
                    return a, [b]
        if y[0] == "in":
            return y[1], y[2]
        return None

    def neq(self, r):
        return r

    def nfld(self, base, owner, name):
        k = base[0]
        if k == "adt":
            for n, x in base[3]:
                if n == name:
                    return x
        if k == "tup" and owner == "tuple" and name.isdigit() and int(name) < len(base[1]):
            return base[1][int(name)]
        if owner.startswith(PAT + "::"):
            var = owner.rsplit("::", 1)[1]
            if (var, name) in (("Choice", "2"), ("Interleave", "2"), ("Group", "2"), ("OneOrMore", "1")):
                return self.nullable(base)
        return ("fld", base, owner, name)

    def nadt(self, t):
        fs = tuple((n, self.n(x)) for n, x in t[3])
        adt, var = t[1], t[2]
        if adt == PAT:
            d = dict(fs)
            if var in ("Choice", "Group", "Interleave") and len(fs) == 3:
                base = self.eta(adt, var, fs)
                if base is not None:
                    return base
                want = self.nullable(("raw" + var, d["0"], d["1"]))
                if d["2"] == want:
                    return self.npat({"Choice": "choice", "Group": "group", "Interleave": "interleave"}[var], [d["0"], d["1"]])
                return ("adt", adt, var, fs)
            if var == "OneOrMore":
                base = self.eta(adt, var, fs)
                if base is not None:
                    return base
                if d["1"] == self.nullable(d["0"]):
                    return self.npat("one_or_more", [d["0"]])
                return ("adt", adt, var, fs)
            if var == "After":
                base = self.eta(adt, var, fs)
                if base is not None:
                    return base
                return self.npat("after", [d["0"], d["1"]])
        if fs:
            base = self.eta(adt, var, fs)
            if base is not None:
                return base
        return ("adt", adt, var, fs)

    def eta(self, adt, var, fs):
        """adt X(t<X>.0, t<X>.1, ...) is t"""
        base = None
        owner = adt + "::" + var
        for n, x in fs:
            if x[0] == "fld" and x[2] == owner and x[3] == n:
                b = x[1]
            elif adt == PAT and x[0] == "nullable" and n in ("1", "2"):
                b = x[1]
            else:
                return None
            if base is not None and b != base:
                return None
            base = b
        if base is not None and len(fs) == len(self.prog.fields(adt, var) or []):
            f = self.vfacts.get(base)
            if f == frozenset([var]) or len(self.prog.variants(adt) or []) == 1:
                return base
        return None

    # -------------------------------------------------------------- patterns
    def nullable(self, p):
        k = p[0]
        if p == NA:
            return FALSE
        if p in (EMPTY, TEXT):
            return TRUE
        if k == "adt" and p[1] == PAT:
            if p[2] in NEVER_NULL:
                return FALSE
            d = dict(p[3])
            return d.get("2", d.get("1"))
        if k == "choice":
            return self.nandor("or", [self.nullable(x) for x in p[1]])
        if k in ("group", "interleave"):
            return self.nandor("and", [self.nullable(x) for x in p[1]])
        if k == "rawChoice":
            return self.nandor("or", [self.nullable(x) for x in p[1:]])
        if k in ("rawGroup", "rawInterleave"):
            return self.nandor("and", [self.nullable(x) for x in p[1:]])
        if k == "one_or_more":
            return self.nullable(p[1])
        if k in ("after", "list"):
            return FALSE
        f = self.vfacts.get(p)
        if f is not None:
            if f <= NEVER_NULL:
                return FALSE
            if f <= ALWAYS_NULL:
                return TRUE
        r = ("nullable", p)
        b = self.bfacts.get(r)
        return r if b is None else ("bool", b)

    def npat(self, op, xs):
        if op == "choice":
            out = set()
            for x in xs:
                if x[0] == "choice":
                    out |= set(x[1])
                elif x != NA:
                    out.add(x)
            if not out:
                return NA
            if len(out) == 1:
                return next(iter(out))
            return ("choice", frozenset(out))
        if op in ("group", "interleave"):
            out = []
            for x in xs:
                if x == NA:
                    return NA
                if x[0] == op:
                    out += x[1]
                elif x != EMPTY:
                    out.append(x)
            if not out:
                return EMPTY
            if len(out) == 1:
                return out[0]
            if op == "interleave":
                out.sort(key=repr)
            return (op, tuple(out))
        if op == "after":
            a, b = xs
            if a == NA or b == NA:
                return NA
            return ("after", a, b)
        if op == "one_or_more":
            if xs[0] == NA:
                return NA
            return ("one_or_more", xs[0])
        raise ValueError(op)

    # -------------------------------------------------------------- calls
    def nformat(self, t):
        a = self.args(t[2])
        if len(a) == 1 and a[0][0] == "call" and a[0][1] == "std::fmt::Arguments::new" and len(a[0][2]) == 2:
            c, xs = a[0][2]
            ps = template(c[1]) if c[0] == "const" and isinstance(c[1], str) else None
            if ps is not None and xs[0] == "arr" and all(isinstance(q, str) or q < len(xs[1]) for q in ps) and all(
                    x[0] == "call" and x[1] == "core::fmt::rt::Argument::new_display" and len(x[2]) == 1 for x in xs[1]):
                return joincat([("str", q) if isinstance(q, str) else self.shown(xs[1][q][2][0]) for q in ps])
        return ("call", t[1], a)

    def shown(self, x):
        return x

    def ncall(self, name, a):
        short = name.rsplit("::", 1)[-1]
        if name.startswith("Schema::"):
            if short == "choice" and len(a) == 2:
                return self.npat("choice", a)
            if short in ("group", "interleave", "after") and len(a) == 2:
                return self.npat(short, a)
            if short == "one_or_more" and len(a) == 1:
                return self.npat("one_or_more", a)
            if short == "mixed" and len(a) == 1:
                return self.npat("interleave", [a[0], TEXT])
            if short in ("empty", "text", "not_allowed") and not a:
                return {"empty": EMPTY, "text": TEXT, "not_allowed": NA}[short]
            if short == "list" and len(a) == 1:
                return ("adt", PAT, "List", (("0", a[0]),))
            if short in ("attribute", "element") and len(a) == 2:
                return ("adt", PAT, short.capitalize(), (("0", a[0]), ("1", a[1])))
        if name == "Pat::is_nullable" and len(a) == 1:
            return self.nullable(a[0])
        if name == "iter:map" and len(a) == 2 and a[1] == ("fn", "identity"):
            return a[0]
        # rev(rev(x)) = x
        if name == "rev" and a[0][0] == "call" and a[0][1] == "rev":
            return a[0][2][0]
        if name == "iter:all" and a[0][0] == "call" and a[0][1].endswith("str::chars"):
            cs = self.charset(a[1])
            if cs is not None:
                return ("allchars", a[0][2][0], cs)
        if name == "iter:any" and a[0][0] == "call" and a[0][1].endswith("str::chars"):
            cs = self.charset(("lamnot", a[1]))
            if cs is not None:
                return neg(("allchars", a[0][2][0], cs))
        if name.endswith("xml::common::is_whitespace_str") or name == "is_whitespace_str":
            return ("allchars", a[0], frozenset(("char", c) for c in (0x20, 9, 10, 13)))
        h = self.extra.get(name) or self.extra.get(short)
        if callable(h):
            r = h(self, a)
            if r is not None:
                return r
        return ("call", name, a)

    def charset(self, lam):
        """set of characters accepted by a one-argument predicate made of equalities"""
        if lam[0] == "lamnot":
            l = lam[1]
            if l[0] == "lam" and l[2] == 1 and len(l[3]) == 1 and not l[3][0][0]:
                b = neg(l[3][0][2])
                return self._cs(b)
            return None
        if lam[0] != "lam" or lam[2] != 1:
            if lam[0] == "fn" and lam[1].endswith("is_whitespace_char"):
                return frozenset(("char", c) for c in (0x20, 9, 10, 13))
            return None
        acc = set()
        for conds, k, v in lam[3]:
            if k != "ret":
                return None
            if not conds:
                return self._cs(v) if len(lam[3]) == 1 else None
            pos = [c for c in conds if not (isinstance(c[1], tuple) or c[1] is False)]
            if v == TRUE:
                if len(pos) != 1:
                    return None
                a, x = pos[0]
                if a[0] == "sw" and isinstance(x, int):
                    acc.add(("char", x))
                elif a[0] == "b":
                    s = self._cs(a[1])
                    if s is None:
                        return None
                    acc |= s
                else:
                    return None
            elif v == FALSE:
                continue
            else:
                return None
        return frozenset(acc)

    def _cs(self, b):
        m = self.member(b)
        if m is None or m[0][0] not in ("lv", "lp"):
            return None
        return frozenset(m[1])

    # -------------------------------------------------------------- lambdas
    def nlam(self, t):
        _, lvl, n, parts = t
        if isinstance(lvl, str):
            return t
        depth = getattr(self, "_ld", 0)
        self._ld = depth + 1
        saved = dict(self.lvl)
        savedc = self.cache
        self.cache = {}
        for i in range(n):
            self.lvl[("lp", lvl, i)] = ("lv", depth, i)
        out = []
        for conds, k, v in parts:
            m = self.copy()
            m._ld = depth + 1
            m.lvl = self.lvl
            if not m.add_facts(dict(conds)):
                continue
            nc = []
            for a, x in conds:
                if a[0] == "b":
                    at = self.n(a[1])
                    if at[0] == "not":
                        at, x = at[1], not x
                    if at[0] == "bool":
                        continue
                    nc.append((("b", at), x))
                else:
                    nc.append(((a[0], self.n(a[1])), x))
            out.append((tuple(sorted(nc, key=repr)), k, m.n(v)))
        self.lvl = saved
        self.cache = savedc
        self._ld = depth
        # eta: \x. f(x)
        if len(out) == 1 and not out[0][0] and out[0][1] == "ret":
            v = out[0][2]
            if v[0] == "call" and v[2] == tuple(("lv", depth, i) for i in range(n)) and n:
                return ("fn", v[1])
            if n == 1 and v == ("lv", depth, 0):
                return ("fn", "identity")
            if v[0] == "adt" and n == 1 and v[3] == (("0", ("lv", depth, 0)),):
                return ("ctor", v[1], v[2])
        # all parts boolean: one boolean expression
        if len(out) > 1 and all(k == "ret" and self.isbool(v) for c, k, v in out) and \
                all(self.factcond(a, x) is not None for c, k, v in out for a, x in c):
            e = FALSE
            for c, k, v in out:
                x = v
                for a, val in c:
                    x = self.nandor("and", [x, self.factcond(a, val)])
                e = self.nandor("or", [e, x])
            return ("lam", "n", n, (((), "ret", e),))
        if len(out) == 1:
            return ("lam", "n", n, (((), out[0][1], out[0][2]),)) if not out[0][0] else ("lam", "n", n, tuple(out))
        return ("lam", "n", n, tuple(sorted(out, key=repr)))

    def factcond(self, a, x):
        """a path fact as a boolean term, or None"""
        if a[0] == "b":
            return a[1] if x else neg(a[1])
        if a[0] == "sw" and isinstance(x, int):
            return ("sw", a[1], x)
        if a[0] == "v":
            vs = frozenset(x)
            for y in vs:
                if y in ("Some", "None"):
                    adt, allv = OPT, {"Some", "None"}
                elif y in ("Ok", "Err"):
                    adt, allv = "std::result::Result", {"Ok", "Err"}
                else:
                    ty = self.termty(a[1])
                    c = [z for z in self.prog.adts if ty and z.rsplit("::", 1)[-1] == ty.rsplit("::", 1)[-1]]
                    if len(c) != 1:
                        return None
                    adt, allv = c[0], {n for n, _ in self.prog.variants(c[0])}
                if not vs <= allv:
                    return None
                if adt == OPT and vs == {"None"}:
                    return neg(("isv", a[1], OPT, frozenset(["Some"])))
                return ("isv", a[1], adt, vs)
        return None

    def isbool(self, v):
        return v[0] in ("bool", "eq", "in", "not", "and", "or", "isv", "lt", "nullable", "allchars", "sw")

    def nfold(self, t):
        _, src, init, body, name = t
        acc, it = ("accv", name), ("itv", name)
        s, i, b = self.n(src), self.n(init), self.n(body)
        if b == acc:
            return i
        for op, unit in (("choice", NA), ("interleave", EMPTY), ("group", EMPTY)):
            if b[0] != op:
                continue
            xs = list(b[1])
            if xs.count(acc) != 1:
                break
            if op == "group" and acc not in (xs[0], xs[-1]):
                break
            accfirst = xs[0] == acc
            xs.remove(acc)
            g = self.npat(op, xs)
            if contains_term(g, lambda y: y == acc):
                break
            if s[0] == "rest" and self.n(subst(g, {it: ("first", s[1])})) == i:
                full, extra = s[1], None
            elif i == unit:
                full, extra = s, None
            else:
                full, extra = s, i
            back = full[0] == "call" and full[1] == "rev"
            base = full[2][0] if back else full
            if op == "group" and (back == accfirst):
                base = ("call", "rev", (base,))
            if base[0] == "call" and base[1] == "iter:map" and base[2][1][0] == "lam":
                lam = base[2][1]
                if lam[2] == 1 and len(lam[3]) == 1 and not lam[3][0][0]:
                    inner = subst(lam[3][0][2], {("lv", 0, 0): it})
                    g = self.n(subst(g, {it: inner}))
                    base = base[2][0]
            big = ("big", op, base, subst(g, {it: ("bv",)}))
            if extra is None:
                return big
            return self.npat(op, [extra, big] if accfirst else [big, extra])
        return ("fold", s, i, subst(b, {acc: ("accv", "f"), it: ("itv", "f")}), "f")

    def nite(self, t):
        # ("ite", ((conds, val), ...))
        out = []
        for conds, v in t[1]:
            m = self.copy()
            if hasattr(self, "_ld"):
                m._ld = self._ld
            if not m.add_facts(dict(conds)):
                continue
            nc = []
            for a, x in conds:
                at = self.n(a[1])
                if a[0] == "b":
                    if at[0] == "not":
                        at, x = at[1], not x
                    if at[0] == "bool" or self.bfacts.get(at) == x:
                        continue
                elif a[0] == "v":
                    f = self.vfacts.get(at)
                    if at[0] == "adt" or f is not None and f <= frozenset(x):
                        continue
                nc.append(((a[0], at), x))
            if not nc:
                return m.n(v)
            out.append((tuple(sorted(nc, key=repr)), m.n(v)))
        vals = {v for _, v in out}
        if len(vals) == 1:
            return next(iter(vals))
        return ("ite", tuple(sorted(out, key=repr)))


# ---------------------------------------------------------------------------------------------
def joincat(xs):
    """a string made of parts: literal parts which follow each other are one"""
    out = []
    for x in xs:
        for y in (x[1] if x[0] == "cat" else (x,)):
            if y[0] == "char":
                y = ("str", chr(y[1]))
            if y == ("str", ""):
                continue
            if out and y[0] == "str" and out[-1][0] == "str":
                out[-1] = ("str", out[-1][1] + y[1])
            else:
                out.append(y)
    if len(out) == 1 and out[0][0] == "str":
        return out[0]
    return ("cat", tuple(out))


def template(c):
    """the pieces of a compiled format string: literal text, or the number of an argument shown in the plain way"""
    m = re.match(r'b"(.*)"$', c, re.S)
    if not m:
        return None
    try:
        b = ast.literal_eval('b"%s"' % m.group(1).replace("\\u{", "\\x{"))
    except (SyntaxError, ValueError):
        return None
    out, i, k = [], 0, 0
    while i < len(b):
        n = b[i]
        if n == 0:
            return out if i == len(b) - 1 else None
        if n in (0xc0, 0xc8):
            if n == 0xc8:
                k = b[i + 1] + 256 * b[i + 2]
                i += 2
            out.append(k)
            k += 1
            i += 1
        elif n < 0x80:
            try:
                out.append(b[i + 1:i + 1 + n].decode())
            except UnicodeDecodeError:
                return None
            i += 1 + n
        else:
            return None
    return None


def fold_loops(parts):
    """single-accumulator loops over a sequence become fold terms.

    -> {loop term: fold term}.  A loop qualifies when its only loop-carried variable besides the iterator is
    one accumulator and every path back to the header assigns it a value made of the accumulator and the
    element."""
    groups = {}
    for p in parts:
        if p.kind != "back":
            continue
        tag = p.val[1] if p.val[0] == "str" else None
        for lp, (init, back) in p.loops.items():
            if back is None or "%s#bb%d" % lp != tag:
                continue
            key = (lp, tuple(sorted(init.items(), key=repr)))
            groups.setdefault(key, []).append((p, back))
    folds = {}
    for (lp, initk), backs in groups.items():
        init = dict(initk)
        name = "%s#%d" % lp
        its = set()
        for p, back in backs:
            for (kind, at), val in [(a, x) for a, x in p.facts.items() if a[0] == "b"]:
                if at[0] == "more" and at[1][0] == "loop" and at[1][1] == name and val is True:
                    its.add(at[1])
        if len(its) != 1:
            continue
        it = next(iter(its))
        src = it[3]
        changing = []
        fixed = {}
        for v, i in init.items():
            term = ("loop", name, v, i)
            if term == it:
                continue
            vals = [b.get(v) for _, b in backs]
            if all(x == term or x == i and i[0] == "bool" for x in vals):
                folds[term] = i
                fixed[term] = i
            else:
                changing.append((v, i, term))
        # variables bound afresh in each iteration are never read through their loop value
        used = set()
        for p in parts:
            blob = [p.val] + [x for x in p.facts] + [e[2] for e in p.events]
            for b in p.loops.values():
                if b[1] is not None:
                    blob += [x for v, x in b[1].items() if ("loop", name, v, init.get(v)) != x]
            for x in subterms(tuple(blob)):
                if x[0] == "loop" and x[1] == name:
                    used.add(x)
        changing = [c for c in changing if c[2] in used]
        if len(changing) != 1:
            for v, i, term in changing:
                folds.pop(term, None)
            continue
        v, i, term = changing[0]
        steps = []
        common = None
        live = []
        for p, back in backs:
            # paths which what never changes rules out
            if not any(a[0] == "b" and subst(a[1], fixed) == ("bool", not x) for a, x in p.facts.items()):
                live.append((p, back))
        backs = live
        for p, back in backs:
            fs = set(p.facts.items())
            common = fs if common is None else common & fs
        for p, back in backs:
            conds = tuple(sorted(((a, x) for a, x in p.facts.items()
                                  if (a, x) not in common and not (a[1][0] == "more" and a[1][1][0] == "loop")), key=repr))
            steps.append((conds, subst(back.get(v), {term: ("accv", name), ("elem", src): ("itv", name)})))
        steps = [(subst(c, {term: ("accv", name), ("elem", src): ("itv", name)}), x) for c, x in steps]
        body = steps[0][1] if all(x == steps[0][1] for c, x in steps) else ("ite", tuple(sorted(steps, key=repr)))
        folds[term] = ("fold", src, i, body, name)
    return folds
