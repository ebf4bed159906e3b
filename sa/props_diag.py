"""C05: what is said about a schema or a document is said about the right place."""
from lib import *
from mir import norm_path
from flow import terms, of_part
from props_effects import reach, chain
from props_panic import summaries, summary, boundary, summands
from vf import Budget
from props_effects import LIBS
from vf import VF, show
from props_syntax import rettype
import re

CTX = "relaxng_model::Context"
CARRIERS = ("Context<", "codemap::File", "relaxng_syntax::types::", "Range<usize>", "codemap::Span")
SAME = ("clone", "deref", "as_ref", "borrow", "iter", "into_iter", "as_slice", "next", "new", "source", "parse", "schema", "location_offset", "fragment", "len", "span", "as_span", "to_owned", "unwrap", "expect",
        "start", "end", "into", "from", "first", "last", "as_deref", "rev", "enumerate", "input_len")
MAKES = ("add_file",)


class Regions:
    """which values belong to the text of which file: classes of terms, and for a class the class of the file which includes it"""
    def __init__(self):
        self.up, self.inc, self.tags = [], {}, {}
        self.bad = []

    def new(self, tag=None):
        self.up.append(len(self.up))
        self.tags[len(self.up) - 1] = {tag} if tag else set()
        return len(self.up) - 1

    def find(self, a):
        while self.up[a] != a:
            self.up[a] = self.up[self.up[a]]
            a = self.up[a]
        return a

    def includer(self, a):
        a = self.find(a)
        if a not in self.inc:
            self.inc[a] = self.new()
        return self.find(self.inc[a])

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return
        self.up[b] = a
        self.tags[a] |= self.tags.pop(b)
        ib = self.inc.pop(b, None)
        if ib is not None:
            if a in self.inc:
                self.union(self.inc[a], ib)
            else:
                self.inc[a] = ib

    def conflict(self):
        """two different files taken to be one"""
        for i in range(len(self.up)):
            if self.find(i) != i:
                continue
            t = self.tags.get(i, ())
            o = [x for x in t if x[0] == "origin"]
            if len(o) > 1:
                return "the text of two different files"
            if o and any(x[0] == "param" for x in t):
                return "the text of this file and that of the file loaded for it"
            seen, j = set(), i
            while j in self.inc and j not in seen:
                seen.add(j)
                j = self.find(self.inc[j])
                if j == i:
                    return "the text of a file and that of the file which includes it"
        return None


class Summary:
    """the relations between the parameters and the result of a function"""
    def __init__(self):
        self.n, self.param, self.ret, self.inc, self.origin = 0, {}, None, {}, frozenset()

    def key(self):
        return (self.n, tuple(sorted(self.param.items())), self.ret, tuple(sorted(self.inc.items())), self.origin)


class Files:
    def __init__(self, prog, rep, libs, sums):
        self.prog, self.rep, self.libs, self.sums = prog, rep, libs, sums
        self.short = {}
        for p, f in libs.items():
            self.short.setdefault(shortname(p), []).append(p)
        self.short = {s: v[0] for s, v in self.short.items() if len(v) == 1}
        self.fns = {p: f for p, f in libs.items() if f.crate == "relaxng_model" and p in sums}
        self.sum = {p: Summary() for p in self.fns}
        self.found = {}
        self.placed = self.outer = 0

    def solve(self):
        for n in range(12):
            changed = False
            self.placed = self.outer = 0
            for p in sorted(self.fns):
                if p in self.found:
                    continue
                s = self.function(p)
                if s.key() != self.sum[p].key():
                    self.changed = p, self.sum[p].key(), s.key()
                    self.sum[p] = s
                    changed = True
            if not changed:
                return True
        return False

    def function(self, p):
        f = self.fns[p]
        names = [n for n, t in zip(f.argnames(), f.argtypes()) if any(c in t for c in CARRIERS) and "Compiler" not in t]
        all_ = Regions()
        params = {n: all_.new(("param", n)) for n in names}
        ret = None
        for q in self.sums[p]:
            if q.kind == "panic":
                continue
            R = Part(self, p, f, names)
            R.walk(q)
            # into that of the function
            m = {}

            def copy(a):
                a = R.r.find(a)
                if a not in m:
                    m[a] = all_.new()
                    for t in R.r.tags[a]:
                        if t[0] == "param":
                            all_.union(m[a], params[t[1]])
                        else:
                            all_.tags[all_.find(m[a])].add(t)
                    if a in R.r.inc:
                        j = copy(R.r.inc[a])
                        i = all_.find(m[a])
                        if i in all_.inc:
                            all_.union(all_.inc[i], j)
                        else:
                            all_.inc[i] = j
                return m[a]
            for n in names:
                copy(R.param[n])
            if R.bad:
                continue
            v = R.region(q.val) if q.kind == "ret" else None
            if v is not None:
                v = copy(v)
                if ret is None:
                    ret = v
                else:
                    # a result which is one file here and another one there
                    one = {t for t in all_.tags[all_.find(ret)] if t[0] == "origin"} | {t for t in all_.tags[all_.find(v)] if t[0] == "origin"}
                    all_.union(ret, v)
                    if len(one) > 1:
                        i = all_.find(ret)
                        all_.tags[i] = {t for t in all_.tags[i] if t[0] != "origin"} | {sorted(one, key=repr)[0]}
        c = all_.conflict()
        if c and p not in self.found:
            self.found[p] = ("", None, c)
        if c:
            return self.sum[p]
        s = Summary()
        num = {}

        ends = {all_.find(v) for v in params.values()} | ({all_.find(ret)} if ret is not None else set())

        def leads(a):
            a, seen = all_.find(a), set()
            while a not in seen:
                if a in ends:
                    return True
                seen.add(a)
                if a not in all_.inc:
                    return False
                a = all_.find(all_.inc[a])
            return False

        def cls(a):
            a = all_.find(a)
            if a not in num:
                num[a] = len(num)
                if a in all_.inc and leads(all_.inc[a]):
                    s.inc[num[a]] = cls(all_.inc[a])
                if any(t[0] == "origin" for t in all_.tags[a]):
                    s.origin = s.origin | {num[a]}
            return num[a]
        for i, n in enumerate(f.argnames()):
            if n in params:
                s.param[i] = cls(params[n])
        if ret is not None:
            s.ret = cls(ret)
        s.n = len(num)
        return s


class Part:
    """one path"""
    def __init__(self, files, p, f, names):
        self.files, self.p, self.f = files, p, f
        self.r = Regions()
        self.param = {n: self.r.new(("param", n)) for n in names}
        self.memo = {}
        self.outer = []
        self.bad = False

    def walk(self, q):
        todo = set(of_part(q))
        for t in sorted(todo, key=lambda t: len(repr(t))):
            if t[0] in ("call", "adt"):
                self.region(t)
        # where a file is included is not in the file which is
        for t, x in self.outer:
            v = self.region(x)
            if v is not None and any(y[0] == "origin" for y in self.r.tags[self.r.find(v)]):
                self.files.found.setdefault(self.p, ("the place of an inclusion", x, "the text of the file which includes and that of the file which is included"))
            elif v is not None:
                self.files.outer += 1

    def region(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        v = self.region1(t)
        self.memo[t] = v
        return v

    def join(self, ts, t, why):
        out = None
        for x in ts:
            v = self.region(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else None
            if v is None:
                continue
            if out is None:
                out = v
            else:
                self.r.union(out, v)
                self.check(t, why)
        return out

    def check(self, t, why):
        if self.bad:
            return
        c = self.r.conflict()
        if c:
            self.bad = True
            self.files.found.setdefault(self.p, (why, t, c))

    def region1(self, t):
        h = t[0]
        if h == "arg":
            return self.param.get(t[1])
        if h in ("elem", "first", "rest", "idx", "cell", "more"):
            return self.region(t[1]) if isinstance(t[1], tuple) else None
        if h == "loop":
            return self.region(t[3]) if len(t) > 3 and isinstance(t[3], tuple) else None
        if h == "cast":
            return self.region(t[2])
        if h == "bin":
            return self.join(t[2:4], t, t[1]) if t[1] in ("Add", "Sub") else None
        if h == "upd":
            return self.region(t[2][0]) if t[2] else None
        if h == "fld":
            return self.field(t)
        if h == "tup":
            return self.join(t[1], t, "a pair")
        if h == "adt":
            return self.adt(t)
        if h == "call":
            return self.call(t)
        return None

    def field(self, t):
        own = t[2]
        if own.startswith(CTX + "::"):
            v = own.split("::")[-1]
            base = self.region(t[1])
            if base is None:
                return None
            if t[3] == "file":
                return base
            if t[3] == "parent":
                if v == "Include":
                    return self.r.includer(base)
                if v == "IncludeOverrides":
                    n = self.r.new()
                    self.r.inc[n] = base
                    return n
                return base
            return None
        if own.startswith("relaxng_model::") and not own.startswith("relaxng_model::datatype"):
            # what the compiler has loaded
            return None
        base = self.region(t[1])
        if base is None and own == "tuple" and any("Compiler" in x[2] for x in terms(t[1]) if x[0] == "fld"):
            base = self.r.new(("origin", repr(t[1])))
            self.memo[t[1]] = base
        return base

    def adt(self, t):
        if t[1] == CTX:
            fs = dict(t[3])
            file = self.region(fs["file"]) if "file" in fs else None
            up = self.region(fs["parent"]) if "parent" in fs else None
            if file is not None and up is not None:
                file = self.r.find(file)
                if file in self.r.inc:
                    self.r.union(self.r.inc[file], up)
                else:
                    self.r.inc[file] = up
                self.check(t, "a context")
                return file
            if t[2] == "IncludeOverrides":
                return self.r.includer(up) if up is not None else None
            return file if file is not None else up
        if t[1].startswith("relaxng_model::"):
            for n, x in t[3]:
                self.region(x)
            vs = [v for v in self.files.prog.adts[t[1]]["variants"] if v[0] == t[2]] if t[1] in self.files.prog.adts else []
            if vs and [y for n, y in vs[0][2]][:1] == [SPANTY] and any("Box<" in y for n, y in vs[0][2]):
                self.outer.append((t, dict(t[3])[vs[0][2][0][0]]))
            return None
        if t[2] == "Err":
            return None
        return self.join([x for n, x in t[3]], t, "a value of %s" % t[1].split("::")[-1])

    def call(self, t):
        g = self.files.short.get(t[1])
        name = t[1].split("::")[-1]
        if g in self.files.sum:
            s = self.files.sum[g]
            vs = [self.r.new(("origin", repr(t) + str(i)) if i in s.origin else None) for i in range(s.n)]
            for a, b in s.inc.items():
                self.r.inc[vs[a]] = vs[b]
            for i, x in enumerate(t[2]):
                v = self.region(x)
                if i in s.param and v is not None:
                    self.r.union(v, vs[s.param[i]])
                    self.check(t, name)
            return vs[s.ret] if s.ret is not None else None
        if name == "subspan":
            self.files.placed += 1
            return self.join(t[2], t, "a span")
        if name in MAKES:
            return self.r.new(("origin", repr(t)))
        if name in SAME:
            return self.join(t[2], t, name)
        for x in t[2]:
            self.region(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else None
        return None


# ------------------------------------------------------------------------------------- what is shown
SPANTY = "codemap::Span"
TEXTPOS = ("std::ops::Range<usize>", "xmlparser::StrSpan")
LABEL = "codemap_diagnostic::SpanLabel"
DIAG = "codemap_diagnostic::Diagnostic"
LEVEL = "codemap_diagnostic::Level"
ODD = ("loop", "top", "agg", "undef", "bot", "const", "static", "fold", "choice")


def plain(ty):
    ty = ty.strip()
    while True:
        t = re.sub(r"^&('\w+ )?(mut )?", "", ty).strip()
        if t.startswith("std::boxed::Box<"):
            t = t[len("std::boxed::Box<"):-1]
        if t == ty:
            return re.sub(r"<'[^<>]*>$", "", t)
        ty = t


def uncast(t):
    while t[0] == "cast" or t[0] == "call" and t[1].split("::")[-1] in ("from", "into", "clone"):
        t = t[2] if t[0] == "cast" else t[2][0]
    return t


def ends(t):
    """(X, start or end) when t is where X starts or ends"""
    t = uncast(t)
    if t[0] == "fld" and t[3] in ("start", "end") and t[2].endswith("Range"):
        x, w = t[1], t[3]
    elif t[0] == "call" and t[1].split("::")[-1] in ("start", "end") and len(t[2]) == 1:
        x, w = t[2][0], t[1].split("::")[-1]
    elif t[0] == "bin" and t[1] == "Add":
        x = ends(t[2])
        y = uncast(t[3])
        if x and x[1] == "start" and y[0] == "call" and y[1].split("::")[-1] == "len":
            y = y[2][0]
            if y[0] == "call" and y[1].split("::")[-1] in ("as_str", "range"):
                y = y[2][0]
            return (x[0], "end") if y == x[0] else None
        return None
    else:
        return None
    if x[0] == "call" and x[1].split("::")[-1] in ("range", "clone"):
        x = x[2][0]
    return (x, w)


class Shown:
    """for every kind of error, that the places it carries are those which the diagnostic shows"""
    def __init__(self, prog, rep, libs):
        self.prog, self.rep, self.libs = prog, rep, libs
        self.main = {}
        self.errs = {p for p, a in prog.adts.items() if p.split("::")[0] in LIBS and p.endswith(("Error", "Errors"))}

    def plain(self, ty, crate):
        """the type, an error of the libraries with its full path"""
        ty = plain(ty)
        for p in self.errs:
            if p == ty or p.split("::")[0] == crate and p.endswith("::" + ty):
                return p
        return ty

    def places(self, t, ty, facts):
        """what is known on a path about where the error is: [(term, type)], or None: the path is about several kinds of error"""
        if ty == SPANTY or ty.startswith(TEXTPOS) and self.file is not None:
            return [(t, ty)]
        if ty == "xmlparser::Token" or ty == "xmlparser::Error":
            return [(t, ty)]
        if ty not in self.errs:
            return []
        vs = self.prog.adts[ty]["variants"]
        if len(vs) == 1 and self.prog.adts[ty].get("kind") != "enum":
            known = frozenset([vs[0][0]])
        else:
            known = facts.get(("v", t), frozenset(v[0] for v in vs))
        if len(known) != 1:
            return None
        v = [x for x in vs if x[0] == list(known)[0]]
        if not v:
            return None
        out, spans, nested = [], [], []
        for fname, fty in v[0][2]:
            fty = self.plain(fty, ty.split("::")[0])
            x = ("fld", t, "%s::%s" % (ty, v[0][0]), fname)
            if fty == SPANTY:
                spans.append((x, SPANTY))
                continue
            if fty in self.errs and fty == self.top:
                nested.append((x, fty))
                continue
            more = self.places(x, fty, facts)
            if more is None:
                if spans or any(self.plain(b, ty.split('::')[0]) == SPANTY for a, b in v[0][2]):
                    continue
                return None
            if fty in self.errs and not self.placed(x, fty, facts) and any(self.plain(b, ty.split('::')[0]) == SPANTY for a, b in v[0][2]):
                return []       # a complaint without a place, whatever stands in the field for it
            out += more
        if spans:
            out = [x for x in out if x[1] == SPANTY]
        return out + spans + nested

    def placed(self, t, ty, facts):
        """a complaint has a place, whether it is one which can be shown or not"""
        known = facts.get(("v", t), ())
        return len(known) != 1 or any(b.startswith(TEXTPOS) or b == SPANTY or plain(b).endswith(("Error", "Errors", "Range<usize>"))
                                      for v in self.prog.adts[ty]["variants"] if v[0] in known for a, b in v[2])

    def place_of(self, s, file):
        """the part of the error of which a label shows the place"""
        s = uncast(s)
        if s[0] == "call" and s[1].split("::")[-1] == "subspan" and len(s[2]) == 3:
            base, a, b = s[2][0], uncast(s[2][1]), uncast(s[2][2])
            if base[0] == "fld" and base[3] == "span" and self.ours(base[1], file):
                x, y = ends(a), ends(b)
                if x and y and x[0] == y[0] and (x[1], y[1]) == ("start", "end"):
                    return x[0]
                if x and (y or b[0] == "bin" and ends(uncast(b[2])) and b[3][0] == "int") or y and a[0] == "bin" and ends(uncast(a[2])) and a[3][0] == "int":
                    return ("bad",)
            if base[0] == "call" and base[1].split("::")[-1] == "line_span" and self.ours(base[2][0], file) and a == ("int", 0):
                row = uncast(base[2][1])
                if row[0] == "bin" and row[1] == "Sub" and row[3] == ("int", 1) and b[0] == "call" and b[1].split("::")[-1] == "len":
                    line, r = uncast(b[2][0]), uncast(row[2])
                    if r[0] == "fld" and r[3] == "col":
                        return ("bad",)
                    if line[0] == "call" and line[1].split("::")[-1] == "source_line" and line[2][1] == base[2][1] and self.ours(line[2][0], file) \
                            and r[0] == "fld" and r[3] == "row" and r[1][0] == "call" and r[1][1].split("::")[-1] == "pos":
                        return r[1][2][0]
            return None
        return s

    def ours(self, t, file):
        """the file is the one whose text the function is given"""
        t = uncast(t)
        return file is not None and t[0] == "call" and t[1].split("::")[-1] == "add_file" and tuple(t[2][1:]) == file

    def function(self, f):
        rep = self.rep
        self.top = [self.plain(t, f.crate) for t in f.argtypes() if self.plain(t, f.crate) in self.errs][0]
        err = ("arg", [n for n, t in zip(f.argnames(), f.argtypes()) if self.plain(t, f.crate) == self.top][0])
        texts = tuple(("arg", n) for n, t in zip(f.argnames(), f.argtypes()) if t == "std::string::String")
        # without the text, a position which does not say which file it is one in cannot be shown
        file = self.file = texts if len(texts) == 2 else None
        vf = VF(self.prog, opaque=lambda g: g.path in self.libs and (g.path == f.path or "codemap" not in rettype(g)) and "{closure" not in g.path)
        name = shortname(f.path)
        kinds = set()
        for q in vf.summarize(f):
            if q.kind != "ret":
                continue
            ps = self.places(err, self.top, q.facts)
            v = q.facts.get(("v", err))
            what = "/".join(sorted(v)) if v else "any"
            for (k, t), x in sorted(q.facts.items(), key=repr):
                if k == "v" and t != err and len(x) == 1 and any(y == err for y in terms(t)):
                    what += "." + list(x)[0]
            ts = list(terms(q.val))
            odd = any(t[0] in ODD for t in ts if not (t[0] == "const" and "b\"" in repr(t)))
            if ps is None:
                rep.unknown("%s: what is shown for %s is not told apart by kind" % (name, what))
                continue
            kinds |= set(v or ())
            labels = [dict(t[3]) for t in ts if t[0] == "adt" and t[1] == LABEL]
            diags = [dict(t[3]) for t in ts if t[0] == "adt" and t[1] == DIAG]
            inner = [t for t in ts if t[0] == "call" and t[1] == name]
            levels = [d.get("level", ("", "", "")) for d in diags]
            if not diags and not inner or diags and not any(l[:3] == ("adt", LEVEL, "Error") or l[0] == "fld" and l[1] in inner for l in levels):
                (rep.unknown if odd else rep.bad)(*([] if odd else ["level:%s:%s" % (name, what)]) + ["%s: nothing is said to be an error for %s" % (name, what)])
                continue
            shown = set()
            fine = True
            for l in labels:
                p = self.place_of(l["span"], file)
                hit = [t for t, ty in ps if p == t or ty == "xmlparser::Token" and p is not None and p[0] == "fld" and p[1] == t]
                if hit:
                    shown.add(hit[0])
                elif p != ("bad",) and (p is None or any(t[0] in ODD for t in terms(l["span"])) or any(t[0] == "call" and "codemap" not in t[1] for t in terms(l["span"]))):
                    rep.unknown("%s: for %s a label is at %s" % (name, what, show(l["span"])[:160]))
                    fine = None
                else:
                    rep.bad("label:%s:%s" % (name, what), "%s: for %s a label is shown at %s, which is not a place the error carries" % (name, what, show(l["span"])[:160]))
                    fine = False
            for t in inner:
                shown |= {a for a in t[2] if any(a == p for p, ty in ps)}
            for t, ty in ps:
                if t not in shown and fine:
                    if odd:
                        rep.unknown("%s: for %s it is not seen whether %s is shown" % (name, what, show(t)))
                    else:
                        rep.bad("unshown:%s:%s:%s" % (name, what, t[3] if t[0] == "fld" else ""), "%s: for %s the place %s is not shown" % (name, what, show(t)))
                    fine = False
            if fine and labels and not inner and not any(l.get("style", ("", "", ""))[2] == "Primary" for l in labels):
                rep.bad("primary:%s:%s" % (name, what), "%s: for %s no place is shown as that of the error" % (name, what))
                fine = False
            if v and len(v) == 1 and len(ps) == 2 and not inner:
                for l in labels:
                    p = self.place_of(l["span"], file)
                    if l.get("style", ("", "", ""))[2:3] == ("Primary",) and p and p[0] == "fld":
                        self.main.setdefault((self.top, list(v)[0]), set()).add(p[3])
            if fine:
                rep.good()
        rep.functions.add(f.path)
        missing = {x[0] for x in self.prog.adts[self.top]["variants"]} - kinds
        if missing:
            rep.unknown("%s: %s are not shown on a path of their own" % (name, sorted(missing)))

    def run(self):
        fs = [f for f in self.libs.values() if DIAG in rettype(f) and any(self.plain(t, f.crate) in self.errs for t in f.argtypes()) and "{closure" not in f.path]
        # those which call no other such function, or only themselves
        tops = [f for f in fs if "diagnostic" == f.name] or fs
        for f in tops:
            self.function(f)
        return len(tops)


# ------------------------------------------------------------------------------------- what is named, and where
TEXTTY = ("std::string::String", "&str")
KEEP = ("display", "to_string", "to_owned", "clone", "into", "from", "as_str", "deref", "as_ref", "borrow")


def where(s):
    """the range, or node, of which a span is the place; ("nowhere",) for the beginning of a file standing for it"""
    s = uncast(s)
    if s[0] == "call" and s[1].split("::")[-1] == "convert_span" and len(s[2]) == 2:
        s = uncast(s[2][1])
    if s[0] == "call" and s[1].split("::")[-1] == "subspan" and len(s[2]) == 3:
        a, b = uncast(s[2][1]), uncast(s[2][2])
        if a == b and a[0] == "int":
            return ("nowhere",)
        x, y = ends(a), ends(b)
        if x and y and x[0] == y[0] and (x[1], y[1]) == ("start", "end"):
            s = x[0]
        elif a[0] == "call" and a[1].split("::")[-1] == "location_offset" and b[0] == "bin" and b[1] == "Add" and uncast(b[2]) == a:
            n = uncast(b[3])
            if n[0] == "call" and n[1].split("::")[-1] == "len" and n[2][0][0] == "call" and n[2][0][1].split("::")[-1] == "fragment" and n[2][0][2] == a[2]:
                return a[2][0]
            return ("odd",)
        elif x and y:
            return ("bad", "from %s to %s" % (show(a), show(b)))
        else:
            return ("odd",)
    if s[0] == "adt" and s[1].endswith("Range"):
        f = dict(s[3])
        if f.get("start") == f.get("end") and f["start"][0] == "int":
            return ("nowhere",)
        x, y = ends(f["start"]), ends(f["end"])
        if x and y and x[0] == y[0] and (x[1], y[1]) == ("start", "end"):
            return x[0]
        return ("odd",)
    return s


def node(r):
    """what the range belongs to"""
    if r[0] == "fld":
        return r[1]
    if r[0] == "call" and len(r[2]) == 1:
        return r[2][0]
    return r


def bare(t):
    while t[0] == "call" and t[1].split("::")[-1] in KEEP and len(t[2]) == 1:
        t = t[2][0]
    return t


def subst(t, m):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "arg" and len(t) == 2:
        return m.get(t[1], ("arg?", t[1]))
    t = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if t[0] == "fld" and t[1][0] == "adt":
        f = dict(t[1][3])
        if t[2] == "%s::%s" % (t[1][1], t[1][2]) or t[2].endswith("::" + t[1][2]):
            return f.get(t[3], t)
        return ("impossible",)
    return t


class Named:
    """what is said to be at a place is what is written there"""
    def __init__(self, prog, rep, libs, sums, shown):
        self.prog, self.rep, self.libs, self.sums, self.shown = prog, rep, libs, sums, shown
        self.carriers = {}
        for p, a in prog.adts.items():
            if p.split("::")[0] not in LIBS:
                continue
            for v in a["variants"]:
                sp = [n for n, t in v[2] if t == SPANTY]
                tx = [n for n, t in v[2] if t in TEXTTY]
                er = [(n, shown.plain(t, p.split("::")[0])) for n, t in v[2] if shown.plain(t, p.split("::")[0]) in shown.errs]
                if sp and ("rror" in p or tx):
                    self.carriers[p, v[0]] = sp, tx, er
        self.calls = {}
        for p, qs in sums.items():
            for q in qs:
                for t in of_part(q):
                    if t[0] == "call":
                        self.calls.setdefault(t[1], {})[p, t] = q
        self.seen = set()

    def run(self):
        n = 0
        for p in sorted(self.sums):
            if "{closure" in p:
                continue
            done = set()
            for q in self.sums[p]:
                if q.kind == "panic":
                    continue
                for t in of_part(q):
                    if t[0] == "adt" and (t[1], t[2]) in self.carriers and (p, t) not in self.seen:
                        self.seen.add((p, t))
                        n += 1
                        self.made(p, q, t)
                        self.rep.functions.add(p)
                    if t[0] == "call" and (p, t) not in self.seen:
                        self.seen.add((p, t))
                        self.registered(p, t)
        # every range of a file
        for p in sorted(self.sums):
            if self.libs[p].crate != "relaxng_model" or "{closure" in p:
                continue
            for t in {t for q in self.sums[p] for t in of_part(q) if t[0] == "call" and t[1].split("::")[-1] == "subspan" and len(t[2]) == 3}:
                w = where(t)
                if w[0] == "bad":
                    self.rep.bad("range:%s" % shortname(p), "%s: a place goes %s" % (shortname(p), w[1]))
                elif w[0] == "odd":
                    self.rep.unknown("%s: the place %s is not recognised" % (shortname(p), show(t)[:160]))
                else:
                    self.rep.good()
        self.rep.count("places", n)

    def registered(self, p, t):
        """a definition and the name it is registered under"""
        g = [f for x, f in self.libs.items() if shortname(x) == t[1]]
        if len(g) != 1 or g[0].crate != "relaxng_model":
            return
        tys = g[0].argtypes()
        texts = [i for i, y in enumerate(tys) if y.endswith("str") or y.endswith("String")]
        rules = [x for i, x in enumerate(t[2]) if tys[i].endswith("DefineRule") and x[0] == "adt"]
        if len(texts) != 1 or not rules:
            return
        for r in rules:
            spans = [v for n, v in r[3] if v[0] == "call" and v[1].split("::")[-1] in ("convert_span", "subspan")]
            if len(spans) == 1:
                self.pair(p, "%s:%s" % (shortname(g[0].path), r[2]), spans[0], t[2][texts[0]], 0)

    def made(self, p, q, t):
        spans, texts, errs = self.carriers[t[1], t[2]]
        f = dict(t[3])
        label = "%s:%s" % (shortname(p), t[2])
        for s in spans:
            w = where(f[s])
            if w == ("nowhere",):
                # a complaint which has no place
                if any(not self.shown.placed(f[n], ty, q.facts) for n, ty in errs):
                    self.rep.good()
                    continue
                self.rep.bad("nowhere:%s" % label, "%s: what %s is about is said to be at the beginning of the file" % (shortname(p), t[2]))
            elif w[0] == "bad":
                self.rep.bad("range:%s" % label, "%s: the place for %s is %s" % (shortname(p), t[2], w[1]))
            elif w[0] == "odd":
                self.rep.unknown("%s: the place for %s, %s, is not recognised" % (shortname(p), t[2], show(f[s])[:120]))
            else:
                self.rep.good()
        if len(spans) == 1:
            for x in texts:
                self.pair(p, label, f[spans[0]], f[x], 0)
        elif "rror" in t[1] and len(spans) == 2 and len(texts) == 2:
            for a in spans:
                x = [b for b in texts if b.split("_")[0] == a.split("_")[0]]
                if x:
                    self.pair(p, label, f[a], f[x[0]], 0)
        if len(spans) == 2 and f[spans[0]] != f[spans[1]]:
            main = [m for (ty, v), m in self.shown.main.items() if t[1].endswith(ty.split("::")[-1]) and v == t[2]]
            if main and len(main[0]) == 1 and list(main[0])[0] in spans:
                a = list(main[0])[0]
                self.sides(p, label, f[a], f[spans[1 - spans.index(a)]], 0)
        if len(spans) == 2 and f[spans[0]] == f[spans[1]]:
            self.rep.bad("same:%s" % label, "%s: the two places for %s are one" % (shortname(p), t[2]))

    def rank(self, t):
        """how long before what is being looked at this was written: 0 itself, 1 found in what is known already, 2 a whole file"""
        if t[0] == "fld" and t[3] == "span" and t[2].startswith("codemap::File"):
            return 2
        for y in terms(t):
            if y[0] == "cell" or y[0] == "call" and (last(y) in ("take", "get", "borrow", "replace") or last(y).startswith("parent_")):
                return 1
        return 0

    def sides(self, p, label, a, b, depth):
        """what is marked as the error is what was come upon, the other is what had been there before"""
        rep = self.rep
        x, y = self.rank(a), self.rank(b)
        if x != y:
            return rep.good() if x < y else rep.bad("sides:%s" % label, "%s: %s is marked as the error, and %s as what was there before" % (label, show(a)[:120], show(b)[:120]))
        def args(t):
            return {z[1] for z in terms(t) if z[0] == "arg"}
        if x == 0 and args(a) and args(b) and not args(a) & args(b) and depth < 4:
            f = self.libs[p]
            seen = set()
            for (c, t), q in sorted(self.calls.get(shortname(p), {}).items(), key=repr):
                if len(t[2]) != len(f.argnames()):
                    continue
                m = dict(zip(f.argnames(), t[2]))
                k = c, subst(a, m), subst(b, m)
                if k not in seen:
                    seen.add(k)
                    self.sides(c, label, k[1], k[2], depth + 1)

    def pair(self, p, label, s, x, depth):
        rep = self.rep
        x = bare(x)
        if x[0] in ("str", "const", "char") or x == ("impossible",):
            return rep.good()
        w = where(s)
        if w == ("nowhere",):
            return
        if w[0] in ("bad", "odd"):
            return
        xs = set(terms(x))
        named = [y[2][0] for y in xs if y[0] == "call" and y[1].endswith("File::name")]
        if named:
            if any(y in terms(s) for y in named):
                rep.bad("apart:%s" % label, "%s: what is wrong with referring to a file is said to be in this file: %s" % (label, show(s)[:160]))
            else:
                rep.good()
            return
        n = node(w)
        if n in xs or w in xs or w[0] == "fld" and w[2].startswith("codemap::File"):
            return rep.good()
        if x[0] == "fld" and any(y[0] == "cell" and x[1] in terms(y) for y in terms(w)):
            return rep.good()       # where what is referred to is defined
        # of a parameter each: what it is given
        if w[0] == "arg" or n[0] == "arg" and x[0] == "arg":
            f = self.libs[p]
            if depth > 3:
                return rep.unknown("%s: places are handed on too often" % label)
            found = False
            for (c, t), q in sorted(self.calls.get(shortname(p), {}).items(), key=repr):
                if len(t[2]) != len(f.argnames()) or "{closure" in c or (c, t, s, x) in self.seen:
                    continue
                self.seen.add((c, t, s, x))
                found = True
                m = dict(zip(f.argnames(), t[2]))
                s2, x2 = subst(s, m), subst(x, m)
                self.pair(c, label if depth else label + "<-" + shortname(c), s2, x2, depth + 1)
            if not found:
                rep.good()
            return
        root = lambda t: root(t[1]) if t[0] in ("fld", "elem", "idx") and isinstance(t[1], tuple) else root(t[2][0]) if t[0] == "call" and len(t[2]) == 1 else t
        a, b = root(w), root(x)
        if a == b:
            rep.bad("apart:%s" % label, "%s: the place is that of %s, the name is %s" % (label, show(w)[:120], show(x)[:120]))
        elif a[0] == b[0] == "arg":
            rep.bad("apart:%s" % label, "%s: the place is that of %s, the name is %s" % (label, show(w)[:120], show(x)[:120]))
        else:
            rep.unknown("%s: whether %s is at %s" % (label, show(x)[:120], show(w)[:120]))


# ------------------------------------------------------------------------------------- parts of an XML schema
XML = "relaxng_syntax::xml::"
BASES = ("range", "range_value", "range_qname")


def last(t):
    return t[1].split("::")[-1] if t[0] == "call" else None


class Parts:
    """positions which are computed: that they are positions of the text they are added to"""
    def __init__(self, prog, rep, libs, named):
        self.prog, self.rep, self.libs, self.named = prog, rep, libs, named

    def run(self):
        rep = self.rep
        mine = {p: f for p, f in self.libs.items() if p.startswith(XML) and "{closure" not in p}
        inl = [p for p, f in mine.items() if rettype(f).startswith("std::ops::Range<usize>") or rettype(f) == "usize" or plain(rettype(f)) == "str" and len(f.argtypes()) == 1 and plain(f.argtypes()[0]) == "str"]
        if not mine:
            return rep.bad("anchor:xml", "the reader of the XML syntax is no longer there")
        n = m = 0
        for p, f in sorted(mine.items()):
            if p in inl or not any(x in repr(f.body) for x in ("std::ops::Range<usize>", "types::")):
                continue
            try:
                qs = summary(self.prog, self.libs, f, inl)
            except Budget:
                if rettype(f) != "bool":
                    rep.unknown("%s: too many paths to follow" % shortname(p))
                continue
            seen, done = set(), set()
            for q in qs:
                if q.kind == "panic":
                    continue
                for t in of_part(q):
                    if t[0] == "adt" and t[1] == "std::ops::Range" and not self.slice(q, t):
                        facts = tuple(sorted((repr(k), repr(v)) for k, v in q.facts.items() if k[0] == "b" and "len" in repr(k)))
                        if (t, facts) in seen:
                            continue
                        seen.add((t, facts))
                        n += 1
                        r, why = self.range(q, dict(t[3]))
                        if r == "ok":
                            rep.good()
                        elif r == "bad":
                            rep.bad("part:%s:%s" % (shortname(p), why), "%s: the range %s is not one of the text: %s" % (shortname(p), show(t)[:300], why))
                        else:
                            rep.unknown("%s: whether %s is a range of the text (%s)" % (shortname(p), show(t)[:200], why))
                    elif (t[0] == "call" or t[0] == "adt") and t not in done:
                        done.add(t)
                        m += self.together(p, t)
            rep.functions.add(p)
        rep.count("ranges", n)
        rep.count("texts", m)

    def slice(self, q, t):
        """used to cut a text, and nothing else"""
        return False

    def together(self, p, t):
        """a range and the text which is taken to be there"""
        if t[0] == "call":
            g = [f for x, f in self.libs.items() if shortname(x) == t[1] and f.crate == "relaxng_syntax"]
            if len(g) != 1 or len(g[0].argtypes()) != len(t[2]):
                return 0
            tys = g[0].argtypes()
            rs = [x for x, y in zip(t[2], tys) if y.startswith("std::ops::Range<usize>")]
            xs = [x for x, y in zip(t[2], tys) if plain(y) == "str" or y == "std::string::String"]
        else:
            if not t[1].startswith("relaxng_syntax::types::"):
                return 0
            rs = [x for n, x in t[3] if x[0] == "adt" and x[1] == "std::ops::Range" or last(x) in BASES]
            vs = [v for v in self.prog.adts.get(t[1], {"variants": []})["variants"] if v[0] == t[2]]
            xs = [x for n, x in t[3] if vs and dict(vs[0][2]).get(n) == "std::string::String"]
        if len(rs) != 1 or len(xs) != 1:
            return 0
        r, x = rs[0], bare(xs[0])
        if r[0] == "adt":
            b = {y for y in terms(r) if last(y) in BASES or y[0] == "fld" and y[3] == "0" and any(last(z) for z in [y[1]])}
            b = {y for y in b if not any(y != z and y in terms(z) for z in b)}
            if len(b) != 1:
                return 0
            r = next(iter(b))
        if x[0] in ("str", "const"):
            return 0
        n = node(r)
        if n in set(terms(x)) or r in set(terms(x)):
            self.rep.good()
        elif any(last(y) == "lookup_namespace_def" or last(y) in ("uri", "find") for y in terms(x)) and any(y == n for y in terms(x)):
            self.rep.good()
        else:
            a = {y for y in terms(x) if y[0] == "call" and last(y) in ("value", "text", "attribute_node") and "roxmltree" in y[1]}
            if a and n[0] in ("fld", "arg", "call") and last(x) in ("value", "text", "as_str") and last(r) in BASES:
                self.rep.bad("apart:%s" % shortname(p), "%s: the range is that of %s, the text %s" % (shortname(p), show(n)[:120], show(x)[:120]))
            else:
                return 0
        return 1

    def range(self, q, f):
        s, e = f.get("start"), f.get("end")
        if s is None or e is None:
            return "ok", ""
        if s[0] == e[0] == "int":
            return "ok", ""
        a, b = self.split(s), self.split(e)
        if a is None and b is None:
            return self.plainly(q, s, e)
        if a is None or b is None:
            return "?", "only one end is counted from a place"
        (A, wa, x), (B, wb, y) = a, b
        if A != B:
            if not x and not y and (wa, wb) == ("start", "end") and last(A) in BASES and last(B) in BASES:
                c, d = A[2][0], B[2][0]
                if c[0] == d[0] == "fld" and last(c[1]) == "first_child" and last(d[1]) == "last_child" and c[1][2] == d[1][2]:
                    return "ok", ""
            return ("bad", "from one thing to another") if not x and not y and A[0] == B[0] == "call" else ("?", "from one thing to another")
        if not x and not y:
            return ("ok", "") if (wa, wb) == ("start", "end") else ("bad", "it is empty" if wa == wb else "it ends before it starts")
        if wa == "end" and x or wb == "end" and y:
            return "bad", "it goes beyond the end"
        if wa != "start":
            return "?", "counted from the end"
        rs = [self.at(q, A, z) for z in ([x] if wb == "end" else [x, y])]
        for r in ("bad", "?"):
            for v in rs:
                if v[0] == r:
                    return v
        return "ok", ""

    def split(self, t):
        """(range, start or end, what is added)"""
        ts = list(summands(t))
        base = [u for u in ts if u[0] == "fld" and u[2].endswith("Range") and u[3] in ("start", "end")]
        if len(base) != 1:
            return None
        ts.remove(base[0])
        return base[0][1], base[0][3], ts

    def at(self, q, B, ts):
        """the sum of these is an offset at which a character of what is at the range begins, or its end"""
        if not ts:
            return "ok", ""
        if last(B) == "range":
            # the text of the schema itself
            ts = list(ts)
            if all(t[0] == "int" for t in ts):
                k = sum(t[1] for t in ts)
                return ("ok", "") if k in (0, 1) else ("bad", "%d bytes behind the beginning" % k)
            ints = sum(t[1] for t in ts if t[0] == "int")
            rest = [t for t in ts if t[0] != "int"]
            if len(rest) != 1:
                return "?", "several lengths"
            r = rest[0]
            text = r
            if last(r) == "len":
                text = r[2][0]
            elif r[0] == "fld" and last(r[1]) in ("find", "rfind"):
                text = r[1][2][0]
            else:
                return "?", "not a length or what is found"
            if text[0] == "idx" and last(text[1]) == "input_text" and text[2][0] == "adt":
                g = dict(text[2][3])
                sp = self.split(g["start"]) if "start" in g else None
                if sp and sp[0] == B and sp[1] == "start" and all(t[0] == "int" for t in sp[2]):
                    k = sum(t[1] for t in sp[2])
                    return ("ok", "") if k == ints and k in (0, 1) else ("bad", "counted from elsewhere")
                return "?", "counted from elsewhere"
            if last(r) == "len":
                return "bad", "the length of %s is not one in the text of the schema" % show(text)[:80]
            return "?", "found in something else"
        # a value read from the range: its offsets are those of the schema only when it is as long
        def long(t):
            if t[0] == "bin" and t[1] == "Sub" and t[2][0] == t[3][0] == "fld" and t[2][1] == t[3][1] and (t[2][3], t[3][3]) == ("end", "start"):
                return ("call", "len", (t[2][1],))
            return t
        same = [(long(t[1]), long(t[2])) for (k, t), v in q.facts.items() if k == "b" and v is True and t[0] == "eq" and last(long(t[1])) == last(long(t[2])) == "len"]
        V = None
        for u, w in same:
            for m, n in ((u, w), (w, u)):
                if m[2][0] == B:
                    V = n[2][0]
        x = ts[0]
        for t in ts[1:]:
            x = ("bin", "Add", x, t)
        if V is None:
            return ("bad" if any(last(y) in ("find", "len", "char_indices", "len_utf8", "leading_space") or y[0] == "int" for t in ts for y in terms(t)) else "?"), \
                "offsets in a value, which may be shorter than what stands for it in the schema"
        lead = [t for t in ts if t[0] == "bin" and t[1] == "Sub" and t[2] == ("call", t[2][1], (V,)) and last(t[2]) == "len" and last(t[3]) == "len" and last(t[3][2][0] if t[3][2] else ("", "")) in ("trim_start_matches", "trim_start") and t[3][2][0][2][0] == V]
        if lead:
            rest = [t for t in ts if t not in lead]
            if not rest:
                return "ok", ""
            trims = lead[0][3][2][0]
            within = {y for t in rest for y in terms(t) if y[0] == "call" and last(y).startswith("trim") and y[2][0] == V and y[2][1:] == trims[2][1:]}
            if len(within) == 1:
                return self.sure(q, next(iter(within)), rest)
            return "?", "an offset in something else"
        return self.sure(q, V, ts)

    def sure(self, q, V, ts):
        x = ts[0]
        for t in ts[1:]:
            x = ("bin", "Add", x, t)
        if any(t[0] == "int" and t[1] > 0 for t in ts) and len(ts) == 1:
            return "bad", "a fixed number of bytes"
        r = boundary(q, V, x)
        if r == "?" and any(y[0] == "elem" and last(y[1]) == "char_indices" and y[1][2][0] == V for y in terms(x)):
            ints = sum(t[1] for t in ts if t[0] == "int")
            rest = [t for t in ts if t[0] != "int"]
            i = [t for t in rest if t[0] == "fld" and t[3] == "0" and t[1][0] == "elem" and last(t[1][1]) == "char_indices"]
            w = [t for t in rest if last(t) == "len_utf8" and t[2][0][0] == "fld" and t[2][0][3] == "1"]
            if len(i) == 1 and len(rest) == len(i) + len(w) and len(w) <= 1 and all(u[2][0][1] == i[0][1] for u in w):
                return ("ok", "") if ints == 0 else ("bad", "a fixed number of bytes")
        return r, "not where a character begins" if r == "bad" else "it is not seen that a character begins there"

    def plainly(self, q, s, e):
        """positions counted from the beginning of the text"""
        def lines(t):
            """the sum of the lengths of the first lines of a text"""
            if last(t) != "sum" and not (t[0] == "call" and t[1].endswith("sum")):
                return None
            m = t[2][0]
            if not (m[0] == "call" and m[1].endswith("map")):
                return None
            src, fn = m[2][0], m[2][1]
            while src[0] == "call" and src[1].split(":")[-1] in ("take", "take_while"):
                src = src[2][0]
            return src, show(fn)
        def start(t):
            ts = list(summands(t))
            base = [u for u in ts if lines(u) and last(lines(u)[0]) in ("split_inclusive",) and lines(u)[1].endswith("len")]
            if len(base) != 1:
                if any(lines(u) and last(lines(u)[0]) in ("lines", "split") for u in ts):
                    return "bad", None
                return "?", None
            text = lines(base[0])[0][2][0]
            rest = [u for u in ts if u != base[0]]
            for u in rest:
                l = lines(u)
                if l and last(l[0]) == "chars" and l[1].endswith("len_utf8"):
                    w = l[0][2][0]
                    if w[0] == "idx" and w[1] == text and dict(w[2][3]).get("start") == base[0]:
                        continue
                return ("bad" if u[0] == "int" or u[0] == "cast" or last(u) == "saturating_sub" else "?"), None
            return "ok", text
        # a value trimmed or cut: where in it
        for t in (s, e):
            if t[0] == "int" and t[1] == 0:
                continue
        r, text = start(s)
        if r == "ok":
            if s == e:
                return "ok", ""
            ts = [u for u in summands(e) if u not in list(summands(s))]
            if all(last(y) in ("len_utf8", "map_or", "unwrap_or") or y[0] == "fld" or "len_utf8" in show(y) for y in ts):
                return "ok", ""
            if any(y[0] == "int" and y[1] > 0 for y in ts):
                return "bad", "a fixed number of bytes"
            return "?", "its end"
        if r == "bad":
            return "bad", "lines and columns are not bytes"
        # the part of a value, before it is placed
        return "ok", ""

# ------------------------------------------------------------------------------------- parts of a document
def signed(t):
    """what is added and what is taken away"""
    if t[0] == "bin" and t[1] in ("Add", "Sub"):
        (a, b), (c, d) = signed(t[2]), signed(t[3])
        return (a + c, b + d) if t[1] == "Add" else (a + d, b + c)
    if t[0] == "cast":
        return signed(t[2])
    return [t], []


def difference(t, u):
    """t - u as what remains and a number"""
    (a, b), (c, d) = signed(t), signed(u)
    plus, minus = a + d, b + c
    k = sum(x[1] for x in plus if x[0] == "int") - sum(x[1] for x in minus if x[0] == "int")
    plus, minus = [x for x in plus if x[0] != "int"], [x for x in minus if x[0] != "int"]
    for x in list(plus):
        if x in minus:
            plus.remove(x)
            minus.remove(x)
    return plus, minus, k


def width(t):
    x = t[1]
    return len((chr(x) if isinstance(x, int) else x).encode())


class Offsets:
    """numbers which stand for a place in a document, next to the text which is there"""
    def __init__(self, prog, rep, libs, sums):
        self.prog, self.rep, self.libs, self.sums = prog, rep, libs, sums
        self.mine = {p: f for p, f in libs.items() if f.crate == "relaxng_validator"}
        self.pairs = {}
        for p, a in prog.adts.items():
            if p.startswith("relaxng_validator"):
                for v in a["variants"]:
                    tx = [n for n, t in v[2] if plain(t) == "str"]
                    at = [n for n, t in v[2] if t == "usize"]
                    sp = [n for n, t in v[2] if t == "std::ops::Range<usize>"]
                    if len(tx) == 1 and at or sp:
                        self.pairs[p, v[0]] = tx, at, sp
        self.owners = {}
        for (p, v), (tx, at, sp) in self.pairs.items():
            self.owners.setdefault(p.split("::")[-1], (tx, at))

    def run(self):
        rep, n, toks = self.rep, 0, 0
        for p, f in sorted(self.mine.items()):
            if "{closure" in p:
                continue        # what it makes is seen where it is used
            done = set()
            for q in self.sums.get(p, ()):
                if q.kind == "panic":
                    continue
                for t in of_part(q):
                    if t[0] == "adt":
                        if (t[1], t[2]) in self.pairs:
                            key = t, q.kind, repr(sorted(repr(x) for x in q.facts if x[0] == "b"))
                            if key not in done:
                                done.add(key)
                                n += 1
                                self.made(p, f, q, t)
                        elif t[1].startswith("xmlparser::") and t[1].endswith("Token") and t not in done:
                            done.add(t)
                            toks += 1
                            self.token(p, t)
                        elif t not in done and t[1].startswith("relaxng_validator") and "rror" in t[1] and len(t[3]) == 1 and "StrSpan" in self.fieldty(t):
                            done.add(t)
                            n += 1
                            self.missing(p, q, t, t[3][0][1])
                    elif t[0] == "call" and t not in done:
                        g = [h for x, h in self.mine.items() if shortname(x) == t[1]]
                        if len(g) == 1 and len(g[0].argtypes()) == len(t[2]):
                            tys = g[0].argtypes()
                            at, tx = [i for i, y in enumerate(tys) if y == "usize"], [i for i, y in enumerate(tys) if plain(y) == "str"]
                            if len(at) == len(tx) == 1:
                                done.add(t)
                                n += 1
                                self.say(p, "given to " + t[1].split("::")[-1], *self.pair(p, f, t[2][at[0]], t[2][tx[0]]), t)
        rep.count("offsets", n)
        rep.count("tokens", toks)

    def fieldty(self, t):
        for v in self.prog.adts[t[1]]["variants"]:
            if v[0] == t[2]:
                return v[2][0][1]
        return ""

    def say(self, p, what, r, why, t):
        if r == "ok":
            self.rep.good()
        elif r == "bad":
            self.rep.bad("offset:%s:%s" % (shortname(p), what), "%s: the place %s, in %s, is %s" % (shortname(p), what, show(t)[:240], why))
        else:
            self.rep.unknown("%s: whether the place %s, in %s, is right (%s)" % (shortname(p), what, show(t)[:160], why))

    def made(self, p, f, q, t):
        tx, at, sp = self.pairs[t[1], t[2]]
        m = dict(t[3])
        for a in at:
            if tx and m[a][0] != "int":
                self.say(p, "of " + t[2], *self.pair(p, f, m[a], m[tx[0]]), t)
        for s in sp:
            r = m[s]
            if r[0] != "adt":
                if r[0] not in ("fld", "arg"):
                    self.say(p, "of " + t[2], "?", "not a range", t)
                continue
            r = dict(r[3])
            if tx and m[tx[0]][0] not in ("str", "const"):
                self.missing(p, q, t, m[tx[0]])
                self.say(p, "of " + t[2], *self.pair(p, f, r["start"], m[tx[0]]), t)
                a, b, k = difference(r["end"], r["start"])
                own = a == [("call", "len", (m[tx[0]],))] and not b
                self.say(p, "of the end of " + t[2], *(("ok", "") if own and k == 0 else ("bad", "not where it ends") if own or not b and all(x[0] == "call" and x[1].split(":")[-1] in ("len", "count") for x in a) else ("?", "its length")), t)
            else:
                a, b, k = difference(r["end"], r["start"])
                self.say(p, "of the start of " + t[2], *self.inside(p, f, q, r["start"], False), t)
                if r["end"] != r["start"]:
                    self.say(p, "of the end of " + t[2], *self.inside(p, f, q, r["end"], True), t)

    def coherent(self, f, b, T):
        """b is where T begins"""
        T = bare(T)
        if b[0] == "call" and last(b) == "start" and bare(b[2][0]) == T:
            return True
        if b[0] == "fld" and T[0] == "fld" and b[1] == T[1]:
            tx, at = self.owners.get(b[2].split("::")[-1].split("<")[0], ((), ()))
            if T[3] in tx and b[3] in at or (b[2] == T[2] and any(T[3] in x and b[3] in y for x, y, z in self.pairs.values())):
                return True
        if b[0] == "arg" and T[0] == "arg":
            tys, names = f.argtypes(), f.argnames()
            at, tx = [names[i] for i, y in enumerate(tys) if y == "usize"], [names[i] for i, y in enumerate(tys) if plain(y) == "str"]
            return at == [b[1]] and tx == [T[1]]
        return False

    def cut(self, T):
        """the text this is a part of, from where on, and how much of what precedes it may belong to it"""
        T, s, slack = bare(T), ("int", 0), 0
        while True:
            if T[0] == "idx" and T[2][0] == "adt" and T[2][1].startswith("std::ops::Range"):
                s = ("bin", "Add", s, dict(T[2][3]).get("start", ("int", 0)))
                T = bare(T[1])
            elif T[0] == "fld" and last(T[1]) == "strip_prefix" and T[1][2][1][0] in ("char", "str"):
                k = width(T[1][2][1])
                s, slack = ("bin", "Add", s, ("int", k)), slack + k
                T = bare(T[1][2][0])
            else:
                return T, s, slack

    def pair(self, p, f, n, t):
        T, s, slack = self.cut(t)
        if T[0] in ("str", "const"):
            return "ok", ""
        a, b, k = difference(n, s)
        if len(a) == 1 and not b and self.coherent(f, a[0], T):
            return ("ok", "") if -slack <= k <= 0 else ("bad", "%d bytes off" % k)
        known = all(x[0] in ("fld", "arg", "int") or last(x) in ("start", "end", "len") for x in a + b)
        return ("bad", "not that of the text") if known else ("?", "not the offset of a part of the text")

    def inside(self, p, f, q, n, end):
        """n is an offset of a document at which a character begins"""
        a, b, k = difference(n, ("int", 0))
        if b:
            return "?", "a difference"
        # where something begins
        tys, names = f.argtypes(), f.argnames()
        base = [x for x in a if x[0] == "fld" and any(x[3] in at and tx for tx, at, sp in self.pairs.values()) or x[0] == "arg" and x[1] in [names[i] for i, y in enumerate(tys) if y == "usize"]]
        if len(a) == 1 and a[0] in base and a[0][0] == "arg":
            if k == 0:
                return "ok", ""
            texts = [names[i] for i, y in enumerate(tys) if plain(y) == "str"]
            pre = sum(width(t[2][1]) for (c, t), v in q.facts.items() if c == "v" and last(t) == "strip_prefix" and v == frozenset(["Some"]) and t[2][1][0] in ("char", "str") and self.cut(t[2][0])[0] in [("arg", x) for x in texts])
            return ("ok", "") if 0 < k <= pre else ("bad", "%d bytes behind where it begins" % k)
        if len(a) == 2 and len(base) == 2 and base[0][0] == "fld" and base[0][1] == base[1][1]:
            # an object's own position, and how far it got: it may have stopped behind a character of one byte
            if k == 0:
                return "ok", ""
            return ("ok", "") if k == -1 and any(c == "b" and v is True and t[0] == "fld" and t[1] == base[0][1] for (c, t), v in q.facts.items()) else ("bad", "%d bytes from where it got to" % k)
        if len(a) == 2 and len(base) == 1 and last(a[0 if a[1] in base else 1]) == "len":
            l = a[0 if a[1] in base else 1]
            return ("ok", "") if k == 0 and self.coherent(f, base[0], l[2][0]) else ("bad", "not at its end")
        if not base and all(x[0] in ("fld", "arg", "int") or last(x) == "len" for x in a):
            return "bad", "not counted from where the text begins"
        return "?", "not recognised"

    def missing(self, p, q, t, x):
        """what is said to be undefined is what was looked for"""
        if "ndefined" not in t[2]:
            return
        x = bare(x)
        looked = [y for (c, y), v in q.facts.items() if c == "v" and y[0] == "call" and v == frozenset(["None"]) and len(y[2]) > 1]
        for y in terms(q.val) if q.val else ():
            if y[0] == "call" and last(y) in ("ok_or", "ok_or_else", "get", "lookup_namespace_uri"):
                looked.append(y)
        if any(x in terms(y) for y in looked):
            return self.rep.good()
        if looked:
            self.rep.bad("other:%s:%s" % (shortname(p), t[2]), "%s: %s is said to be undefined, but what was looked for is %s" % (shortname(p), show(x)[:160], "; ".join(show(y)[:160] for y in looked)))
        else:
            self.rep.unknown("%s: what was looked for before %s was said to be undefined" % (shortname(p), show(x)[:120]))

    def token(self, p, t):
        """a part of the document which is put together again"""
        m = {n: bare(v) for n, v in t[3]}
        main = m.get("span", m.get("text"))
        if main is None:
            return
        def root(x):
            while x[0] == "fld":
                x = x[1]
            return x
        if main[0] in ("str", "const") or last(main) == "from":
            return self.rep.bad("token:%s:%s" % (shortname(p), t[2]), "%s: what is not allowed is said to be at %s, which is not of the document" % (shortname(p), show(main)))
        if main[0] == "fld" and any(n[0] == "fld" and n[3] == "namespace_uri" for n in terms(main)):
            return self.rep.bad("token:%s:%s" % (shortname(p), t[2]), "%s: what is not allowed is said to be where its namespace was declared" % shortname(p))
        rest = [root(v) for n, v in m.items() if n in ("local", "value") and v[0] == "fld"]
        if all(r == root(main) for r in rest):
            return self.rep.good()
        if main[0] == "fld" and all(r[0] in ("arg", "elem", "call", "idx") for r in rest):
            return self.rep.bad("token:%s:%s" % (shortname(p), t[2]), "%s: %s is said to be at %s" % (shortname(p), ", ".join(show(v)[:80] for n, v in m.items() if n != "span"), show(main)[:120]))
        self.rep.unknown("%s: where %s is" % (shortname(p), show(t)[:200]))


def c05(prog, rep, tier):
    rep.rule("region inference: every position, file and node belongs to the text of one file, unified over all paths of all functions reachable (fixpoint); a position which is placed in a file must be of its text, "
             "and what is said of an inclusion is placed in the file which includes")
    rep.rule("every place is the range of one node (or from the start of one to the end of another of one syntax tree), and the name said to be there is that of the same node; the place of a definition is that of the definition")
    rep.rule("every path which shows an error shows each place the error was made with, in the file this place is of, at level error, with a primary label")
    rep.rule("a range computed in the reader of the XML syntax begins and ends where a character of the schema's text begins; offsets within a value only where the value is as long as what stands for it")
    rep.rule("an offset in a document next to a text is where this text begins; ranges of references in text begin and end at characters; what is said to be undefined is what was looked for")
    how, files = reach(prog, rep)
    libs, sums = summaries(prog, how, rep)
    F = Files(prog, rep, libs, sums)
    if not F.solve():
        rep.unknown("the relations between files do not settle: %s" % (F.changed,))
    for p in sorted(F.fns):
        rep.functions.add(p)
        if p in F.found:
            why, t, c = F.found[p]
            rep.bad("mixed:%s:%s" % (shortname(p), why), "%s: %s are taken to be one, in %s (%s); reached as %s" % (shortname(p), c, why or "its paths taken together", show(t)[:160] if t else "", chain(how, p) if p in how else p))
        else:
            rep.good()
    rep.count("inclusions", F.outer)
    rep.count("spans", F.placed)
    S = Shown(prog, rep, libs)
    shown = S.run()
    N = Named(prog, rep, libs, sums, S)
    N.run()
    Parts(prog, rep, libs, N).run()
    Offsets(prog, rep, libs, sums).run()
    if shown < 2:
        rep.bad("anchor:shown", "the functions which show what is wrong with a schema and with a document are no longer there")
