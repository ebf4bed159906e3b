"""Datatypes: which library and type a name selects, what texts each type contains, what each facet does."""
from lib import *
from props_model import *
from props_lower import argof, args, Need, okv, upctx, declare, NOTFILE
from lex import *
import automata

SDN = SY + "DatatypeName"
XDT = "relaxng_model::datatype::xsd::XsdDatatypes"
XDV = "relaxng_model::datatype::xsd::XsdDatatypeValues"
BDT = "relaxng_model::datatype::relax::BuiltinDatatype"
BDV = "relaxng_model::datatype::relax::BuiltinDatatypeValue"
DTS = "relaxng_model::datatype::Datatypes"
DTVS = "relaxng_model::datatype::DatatypeValues"
DTE = "relaxng_model::datatype::Errors"
PARAM = SY + "Param"
XSDURI = "http://www.w3.org/2001/XMLSchema-datatypes"
NORM = "normalize_whitespace"


def implfn(prog, rep, ty, trait, name, what):
    """the method of a trait for a type"""
    c = [f for f in prog.fns.values() if f.path.endswith("<%s as %s>::%s" % (ty, trait, name)) and f.crate == CRATE]
    if len(c) != 1:
        rep.bad("anchor:%s::%s" % (ty, name), "%s ('%s' of '%s') is no longer there" % (what, name, ty))
        return None
    rep.functions.add(c[0].path)
    return c[0]


def cname(ns, local):
    q, nc = SY + "QName", SY + "NcName"
    return ("adt", SDN, "CName", (("0", ("adt", q, "QName", (("0", ns), ("1", local)))),))


def callname(fn):
    """what calls of a trait's method are named"""
    m = re.search(r"<.* as ([^<>]*)>::(\w+)$", fn.path)
    return "%s::%s" % (m.group(1).rsplit("::", 1)[-1], m.group(2)) if m else shortname(fn.path)


# ------------------------------------------------------------------------------------- M08
def m08(prog, rep, tier):
    rep.rule("a <data> or <value> of the schema is compiled with the type it names: no name is 'token', a prefixed name is in the library its prefix is declared for in the file "
             "which has it, the text and parameters are those of the schema, and an unknown prefix, library, or type is an error")
    rep.rule("every type name selects its own datatype; the set of texts each datatype contains (as an automaton, computed from the conditions in its check) lies between what XML Schema "
             "requires and what it allows, for texts of any length, after the white space processing of the type")
    rep.rule("values are equal to the texts which have the same characters (string), the same after collapsing white space (token)")
    R = Roles(prog, rep, CRATE)
    for x in ("compile_datatype_value_pattern", "compile_datatype_name_pattern", "compile_pattern"):
        R.get(x, "Compiler::" + x)
    for x in ("try_datatype_uri_for_prefix", "datatype_uri_for_prefix", "declare_datatype", "convert_span"):
        R.get(x, "Context::" + x)
    for x in R.m:
        f = {"compile_datatype_value_pattern": m08_value, "compile_datatype_name_pattern": m08_name, "datatype_uri_for_prefix": m08_lookup,
             "try_datatype_uri_for_prefix": m08_try}.get(x)
        if f:
            f(prog, rep, R)
    if "declare_datatype" in R:
        declare(prog, rep, R["declare_datatype"], "datatypes", "DatatypePrefixAlreadyDefined", "datatype")
    for kind in ("value", "name"):
        m08_dispatch(prog, rep, kind)
        m08_relax(prog, rep, kind)
    m08_valid(prog, rep)
    W = whitespace(prog, rep)
    m08_ncname(prog, rep)
    m08_xsdvalue(prog, rep, W)
    typenames(prog, rep)
    lexical(prog, rep, W)


def dispatchers(prog, meth):
    return [f for f in prog.fns.values() if f.crate == CRATE and f.path.endswith("::DatatypeCompiler>::" + meth)]


def named_dt(e, p, R, nm, dc, meth):
    """the lowered name for the name nm of the syntax: (variant, uri term, local term) or None when it failed"""
    v = e.variant(nm, SDN)
    if v in ("String", "Token"):
        return v, None, None
    if v == "CName":
        q = fld(nm, SDN, "CName", 0)
        pf, local = fld(q, SY + "QName", "QName", 0), fld(q, SY + "QName", "QName", 1)
        ct = ("call", R.name("try_datatype_uri_for_prefix"), (("arg", argof(R[meth], r"Context$")[1]), pf))
        if e.variant(ct, RES) == "Err":
            return "Err", None, None
        return "CName", e.n(okv(e.n(ct))), e.n(fld(local, SY + "NcName", "NcName", 1))
    q = fld(nm, SDN, "NamespacedName", 0)
    ns = ("call", "Literal::as_string_value", (fld(q, SY + "NamespacedName", "NamespacedName", "namespace_uri"),))
    return "CName", e.n(ns), e.n(fld(fld(q, SY + "NamespacedName", "NamespacedName", "localname"), SY + "NcName", "NcName", 1))


def isname(e, t, want):
    v, uri, local = want
    n = e.n(t)
    if v in ("String", "Token"):
        return n[0] == "adt" and n[2] == v or e.N.vfacts.get(n) == frozenset([v])
    if n[0] == "adt" and n[2] == "CName":
        q = fld(n, SDN, "CName", 0)
        u = e.n(fld(fld(q, SY + "QName", "QName", 0), SY + "NcName", "NcName", 1))
        l = e.n(fld(fld(q, SY + "QName", "QName", 1), SY + "NcName", "NcName", 1))
        return u == uri and l == local
    if n[0] == "adt" and n[2] == "NamespacedName":
        return None
    return False


def compiled(e, p, a, name, want, more, what):
    """the type compiler is called with the right name; returns (problem, call term)"""
    cs = calls(p, e, name)
    if not cs:
        return "!%s is not compiled: %s" % (what, show(a)), None
    if len(cs) > 1:
        return "~%s is compiled twice" % what, None
    c = cs[0]
    if c[0][0] == "fld" and not any("datatype_compiler" in str(x) for x in c[0][1:]):
        return "~", None
    if len(c) != 4:
        return "~", None
    if c[1] != e.n(more[0]):
        return "!%s is compiled in another context, %s" % (what, show(c[1])), None
    r = isname(e, c[2], want)
    if r is None:
        return "~", None
    if not r:
        return "!%s has its type looked up as %s" % (what, show(c[2])), None
    if c[3] != e.n(more[1]):
        return "!%s is compiled with %s" % (what, show(c[3])), None
    return None, ("call", name, tuple(c))


def m08_value(prog, rep, R):
    fn = R["compile_datatype_value_pattern"]
    ds = dispatchers(prog, "datatype_value")
    keep = ds + lits(prog) + [R[x] for x in ("try_datatype_uri_for_prefix",) if x in R] + named(prog, ["file"])
    vf, C = mk(prog, keep)
    A = args(fn, rep, ctx=r"Context$", dv=r"DatatypeValuePattern$")
    if A is None or not ds or "try_datatype_uri_for_prefix" not in R:
        rep.unknown("values are lowered in another way")
        return
    dname = callname(ds[0])
    D = SY + "DatatypeValuePattern"
    f0, f1 = fld(A["dv"], D, "DatatypeValuePattern", 0), fld(A["dv"], D, "DatatypeValuePattern", 1)

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)
        if e.variant(f0, OPT) == "None":
            want = ("Token", None, None)
        else:
            want = named_dt(e, p, R, fld(f0, OPT, "Some", 0), dname, "compile_datatype_value_pattern")
        text = ("call", "Literal::as_string_value", (f1,))
        return result(e, p, want, dname, (A["ctx"], text), "a value", lambda e2, ct: ("adt", MPAT, "DatatypeValue", (("datatype", okv(ct)),)))
    rep.merge(fn, C.check(fn, spec))


def result(e, p, want, dname, more, what, build, also=None):
    if want[0] == "Err":
        return ("pred", lambda e2, a: None if okres(a, e2) == "Err" else "!an undeclared prefix is accepted")

    def f(e2, a):
        bad, ct = compiled(e2, p, a, dname, want, more, what)
        if bad:
            return bad
        r = e2.N.vfacts.get(e2.n(ct))
        if r == frozenset(["Err"]):
            if okres(a, e2) != "Err":
                return "!%s of a type which cannot be compiled is accepted" % what
            if errkind(a) not in (None, "DatatypeError"):
                return "!the error is reported as %s" % errkind(a)
            return None
        if also:
            bad, val = also(e2, a)
            if bad or val is None:
                return bad
            v = e2.n(ok(build(e2, ct, val)))
        else:
            v = e2.n(ok(build(e2, ct)))
        if a == v:
            return None
        if r is None:
            return "~"
        return "yields %s instead of %s" % (show(a), show(v))
    return ("pred", f)


def m08_name(prog, rep, R):
    fn = R["compile_datatype_name_pattern"]
    ds = dispatchers(prog, "datatype_name")
    keep = ds + lits(prog) + [R[x] for x in ("try_datatype_uri_for_prefix", "compile_pattern") if x in R] + named(prog, ["file"])
    vf, C = mk(prog, keep)
    A = args(fn, rep, ctx=r"Context$", dn=r"DatatypeNamePattern$")
    if A is None or not ds or "try_datatype_uri_for_prefix" not in R:
        rep.unknown("data patterns are lowered in another way")
        return
    dname = callname(ds[0])
    D = SY + "DatatypeNamePattern"
    f0, f1, f2 = (fld(A["dn"], D, "DatatypeNamePattern", i) for i in range(3))

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)
        want = named_dt(e, p, R, f0, dname, "compile_datatype_name_pattern")
        params = ("arr", ()) if e.variant(f1, OPT) == "None" else fld(f1, OPT, "Some", 0)
        exc = e.variant(f2, OPT)
        inner = fld(f2, OPT, "Some", 0)

        def also(e2, a):
            if exc == "None":
                return None, NONE
            cs = calls(p, e2, R.name("compile_pattern"))
            if not cs:
                return ("!the exceptions of a type are left out" if okres(a, e2) != "Err" else "~"), None
            if e2.n(inner) not in cs[0] or len(cs) > 1:
                return "!the exceptions of a type are taken from %s" % ", ".join(map(show, cs[0])), None
            if e2.n(A["ctx"]) not in cs[0]:
                return "~", None
            ct = ("call", R.name("compile_pattern"), tuple(cs[0]))
            if e2.N.vfacts.get(e2.n(ct)) == frozenset(["Err"]):
                return (None if okres(a, e2) == "Err" else "!exceptions which cannot be compiled are accepted"), None
            return None, some(okv(ct))
        return result(e, p, want, dname, (A["ctx"], params), "a type",
                      lambda e2, ct, val: ("adt", MPAT, "DatatypeName", (("datatype", okv(ct)), ("except", val))), also)
    rep.merge(fn, C.check(fn, spec))


def m08_lookup(prog, rep, R):
    fn = R["datatype_uri_for_prefix"]
    nm = shortname(fn.path)
    vf, C = mk(prog, [fn])
    arg = [("arg", n) for n in fn.argnames()[1:]]

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)
        v = e.variant(SELF, CTX)
        if v in ("Root", "Include"):
            got = e.n(("call", "map:get", (cfld(SELF, v, "datatypes"), arg[0])))
            if e.variant(got, OPT) == "None":
                if v == "Root":
                    return ("term", NONE)
                outer = ("call", nm, (e.n(cfld(SELF, v, "parent")), e.n(arg[0])))
                return ("pred", lambda e2, a: None if a in (NONE, outer) else "a prefix the file does not declare stands for %s" % show(a))
            return ("pred", lambda e2, a: None if a in (got, some(e2.n(fld(got, OPT, "Some", 0)))) else "!a declared prefix stands for %s" % show(a))
        return upctx(e, p, nm, arg, v)
    rep.merge(fn, C.check(fn, spec))


def m08_try(prog, rep, R):
    fn = R["try_datatype_uri_for_prefix"]
    if "datatype_uri_for_prefix" not in R:
        return
    vf, C = mk(prog, [R["datatype_uri_for_prefix"], R["convert_span"]] if "convert_span" in R else [R["datatype_uri_for_prefix"]])
    h = R.name("datatype_uri_for_prefix")
    pf = argof(fn, r"NcName$")
    if pf is None:
        rep.unknown("datatype prefixes are given otherwise")
        return

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)
        got = e.n(("call", h, (SELF, fld(pf, SY + "NcName", "NcName", 1))))
        if e.variant(got, OPT) == "None":
            return wanterr("UndefinedDatatypePrefix")
        return ("term", ok(fld(got, OPT, "Some", 0)))
    rep.merge(fn, C.check(fn, spec))


def m08_dispatch(prog, rep, kind):
    meth = "datatype_" + kind
    fn = implfn(prog, rep, "datatype::Compiler", "datatype::DatatypeCompiler", meth, "the choice of the datatype library")
    inner = [f for f in dispatchers(prog, meth) if f is not fn]
    if fn is None or len(inner) != 2:
        rep.unknown("the datatype libraries are not two")
        return
    vf, C = mk(prog, inner + lits(prog) + named(prog, ["convert_span", "file"]))
    nm = argof(fn, r"DatatypeName$")
    arg = [("arg", n) for n in fn.argnames()]
    if nm is None or len(arg) != 4:
        rep.unknown("datatypes are selected by other arguments")
        return
    h = callname(inner[0])
    fields = {strip_ty(t): n for n, t in prog_fields(prog, "relaxng_model::datatype::Compiler", "Compiler")}
    lib = {}
    for t, n in fields.items():
        k = "Relax" if "relax::" in t else "Xsd" if "xsd::" in t else None
        if k:
            lib[k] = fld(SELF, "relaxng_model::datatype::Compiler", "Compiler", n)
    if set(lib) != {"Relax", "Xsd"}:
        rep.unknown("the compiler of datatypes has other parts")
        return
    T = DTVS if kind == "value" else DTS

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)
        v = e.variant(nm, SDN)
        if v in ("String", "Token"):
            k = "Relax"
        else:
            q = fld(nm, SDN, v, 0)
            ns = fld(fld(q, SY + "QName", "QName", 0), SY + "NcName", "NcName", 1) if v == "CName" else \
                ("call", "Literal::as_string_value", (fld(q, SY + "NamespacedName", "NamespacedName", "namespace_uri"),))
            if e.true(mkeq(e.n(ns), ("str", ""))):
                k = "Relax"
            elif e.true(mkeq(e.n(ns), ("str", XSDURI))):
                k = "Xsd"
            else:
                return ("pred", lambda e2, a: None if okres(a, e2) == "Err" and a[0] == "adt" and dict(a[3])["0"][0] == "adt" and dict(a[3])["0"][2] == "UnsupportedDatatypeLibrary"
                        else "!a type of an unknown library gives %s" % show(a))

        def f(e2, a):
            cs = calls(p, e2, h)
            if len(cs) != 1:
                return "!the type is not looked up in a library: %s" % show(a) if not cs else "~"
            c = cs[0]
            if c[0] != e2.n(lib[k]):
                return "!the type is looked up in another library, %s" % show(c[0])
            if c[1] != e2.n(arg[1]) or c[3] != e2.n(arg[3]):
                return "!the type is looked up with %s" % ", ".join(map(show, c[1:]))
            if c[2] != e2.n(nm):
                return "~" + show(c[2])
            ct = ("call", h, tuple(c))
            r = next((x for y, x in e2.N.vfacts.items() if e2.n(y) == ct or y == ct), None)
            if r is None:
                r = next((x for (kk, y), x in p.facts.items() if kk == "v" and e2.n(y) == ct), None)
            if r == frozenset(["Err"]):
                return None if okres(a, e2) == "Err" else "!a type the library does not have is accepted"
            if r == frozenset(["Ok"]):
                want = e2.n(ok(("adt", T, k, (("0", okv(ct)),))))
                return None if a == want else "!yields %s instead of %s" % (show(a), show(want))
            return "~" + show(a)
        return ("pred", f)
    rep.merge(fn, C.check(fn, spec))


def prog_fields(prog, adt, var):
    a = prog.adts.get(adt)
    return [(f[0], f[1]) for v in (a["variants"] if a else []) if v[0] == var for f in v[2]]


def localname(e, nm):
    """(variant, local name term) of a datatype name"""
    v = e.variant(nm, SDN)
    if v == "CName":
        return v, e.n(fld(fld(fld(nm, SDN, "CName", 0), SY + "QName", "QName", 1), SY + "NcName", "NcName", 1))
    if v == "NamespacedName":
        return v, e.n(fld(fld(fld(nm, SDN, v, 0), SY + "NamespacedName", "NamespacedName", "localname"), SY + "NcName", "NcName", 1))
    return v, None


def m08_relax(prog, rep, kind):
    fn = implfn(prog, rep, "datatype::relax::Compiler", "datatype::DatatypeCompiler", "datatype_" + kind, "the built-in datatype library")
    if fn is None:
        return
    vf, C = mk(prog, lits(prog) + named(prog, ["convert_span", "file", NORM]))
    nm = argof(fn, r"DatatypeName$")
    last = ("arg", fn.argnames()[-1])
    if nm is None:
        rep.unknown("datatypes are selected by other arguments")
        return

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)
        if kind == "name" and not e.true(mkeq(e.n(("call", "len", (last,))), ("int", 0))):
            return ("pred", lambda e2, a: None if okres(a, e2) == "Err" else "!a parameter of a built-in type is accepted")
        v, local = localname(e, nm)
        if local is not None:
            v = "String" if e.true(mkeq(local, ("str", "string"))) else "Token" if e.true(mkeq(local, ("str", "token"))) else None
        if v is None:
            return ("pred", lambda e2, a: None if okres(a, e2) == "Err" else "!an unknown built-in type gives %s" % show(a))
        if kind == "name":
            return ("term", ok(("adt", BDT, v, ())))
        val = last if v == "String" else ("call", NORM, (last,))
        return ("term", ok(("adt", BDV, v + "Value", (("0", val),))))
    rep.merge(fn, C.check(fn, spec))


def m08_valid(prog, rep):
    """what the parts of a compiled type or value decide"""
    for ty, adt in (("datatype::Datatypes", DTS), ("datatype::DatatypeValues", DTVS)):
        fn = implfn(prog, rep, ty, "datatype::Datatype", "is_valid", "the check of a text")
        if fn is None:
            continue
        inner = [f for f in prog.fns.values() if f.crate == CRATE and f.path.endswith(" as datatype::Datatype>::is_valid") and f is not fn]
        vf, C = mk(prog, inner)
        val = ("arg", fn.argnames()[1])
        h = callname(inner[0]) if inner else "is_valid"

        def spec(e, p, adt=adt, val=val, h=h):
            v = e.variant(SELF, adt)


            def f(e2, a):
                if a == ("call", h, (e2.n(fld(SELF, adt, v, 0)), e2.n(val))):
                    return None
                if a[0] == "call" and a[1] == h and a[2][0] == e2.n(fld(SELF, adt, v, 0)):
                    try:
                        w = automata.differ(textfn(a[2][1], lambda y: y == val, {NORM: Collapse()}), Fn())
                    except Unsupported:
                        return "~a text is checked as %s" % show(a[2][1])
                    return None if w is None else "!!a text is checked as %s, which is not the same for %r" % (show(a[2][1]), w)
                return "a text is checked as %s" % show(a)
            return ("pred", f)
        rep.merge(fn, C.check(fn, spec))
    fn = implfn(prog, rep, "datatype::relax::BuiltinDatatype", "datatype::Datatype", "is_valid", "the check of a text against a built-in type")
    if fn is not None:
        vf, C = mk(prog, [])
        rep.merge(fn, C.check(fn, lambda e, p: ("bool", TRUE)))
    fn = implfn(prog, rep, "datatype::relax::BuiltinDatatypeValue", "datatype::Datatype", "is_valid", "the comparison with a value of a built-in type")
    if fn is not None:
        vf, C = mk(prog, named(prog, [NORM]))
        val = ("arg", fn.argnames()[1])

        def spec(e, p):
            v = e.variant(SELF, BDV)
            x = ("call", NORM, (val,)) if v == "TokenValue" else val
            return ("bool", mkeq(e.n(fld(SELF, BDV, v, 0)), e.n(x)))
        rep.merge(fn, C.check(fn, spec))


def whitespace(prog, rep):
    """the white space functions: {name: transducer}; each has to collapse"""
    out = {}
    fns = named(prog, [NORM])
    if len(fns) != 1:
        rep.bad("anchor:" + NORM, "the function which collapses white space is no longer there")
        return out
    fn = fns[0]
    rep.functions.add(fn.path)
    vf, C = mk(prog, [])
    try:
        f = loopfn(vf.summarize(fn), ("arg", fn.argnames()[0]))
        w = automata.differ(f, Collapse())
    except (Unsupported, Budget) as ex:
        rep.unknown("%s: %s" % (NORM, ex))
        return out
    if w is not None:
        rep.bad(fn.path, "%s at %s: of the text %r, collapsing white space makes %r instead of %r" % (NORM, prog.pos(fn.sp), w, image(f, w), image(Collapse(), w)))
    else:
        rep.good("%s collapses white space, for every text" % NORM)
    return out


class AfterName:
    """texts which start with a name and go on, after the last character which can belong to it, with a text of a language"""

    def __init__(self, L):
        self.l = L

    def init(self):
        return ("start", None)

    def step(self, st, c):
        k, s = st
        if k == "start":
            return ("name", self.l.init()) if c in NCSTART else ("dead", None)
        if k == "name" and c in NCCHAR or k == "dead":
            return st
        return ("rest", self.l.step(s, c))

    def accept(self, st):
        return st[0] in ("name", "rest") and self.l.accept(st[1])

    def atoms(self):
        return [NCSTART, NCCHAR] + self.l.atoms()


class NameTexts(Texts):
    """conditions on how the parser of names takes a text"""

    def wrap(self, t, L):
        if t[0] == "call" and t[1].endswith("fragment") and t[2][0][0] == "fld" and t[2][0][3] == "0" and t[2][0][1][0] == "fld" and self.of(t[2][0][1][1]):
            return AfterName(L)
        return Texts.wrap(self, t, L)

    def of(self, t):
        return t[0] == "call" and t[1].rsplit("::", 1)[-1] == "nc_name" and len(t[2]) == 1 and t[2][0][0] == "call" and t[2][0][1].endswith("LocatedSpan::new") \
            and self.var(t[2][0][2][0])

    def outcome(self, t, vs):
        if self.of(t):
            L = Starts(NCSTART)
            return L if vs == frozenset(["Ok"]) else Bool(lambda v: not v[0], L)
        return Texts.outcome(self, t, vs)


def m08_ncname(prog, rep):
    fns = named(prog, ["is_valid_ncname"])
    if len(fns) != 1:
        rep.unknown("names are recognised in another way")
        return
    fn = fns[0]
    rep.functions.add(fn.path)
    vf, C = mk(prog, named(prog, ["nc_name"], "relaxng_syntax"))
    val = ("arg", fn.argnames()[0])
    try:
        L = language([p for p in vf.summarize(fn) if p.kind == "ret"], NameTexts(lambda y: y == val), C, fn)
        compare(prog, rep, fn, "NCName (names)", L, NCNAME, NCNAME)
    except (Unsupported, Budget) as ex:
        rep.unknown("names: %s" % ex)


def image(f, w):
    st, o = f.init(), f.first()
    for c in w:
        st, x = f.feed(st, c)
        o += x
    return o + f.last(st)


def m08_xsdvalue(prog, rep, W):
    fn = implfn(prog, rep, "datatype::xsd::Compiler", "datatype::DatatypeCompiler", "datatype_value", "the values of the XML Schema library")
    valid = implfn(prog, rep, "datatype::xsd::XsdDatatypeValues", "datatype::Datatype", "is_valid", "the comparison with a value of the XML Schema library")
    trys = named(prog, ["try_from_val"])
    if fn is not None:
        vf, C = mk(prog, lits(prog) + named(prog, ["convert_span", "file", NORM]) + trys)
        nm = argof(fn, r"DatatypeName$")
        val = ("arg", fn.argnames()[-1])

        def spec(e, p):
            if p.kind == "panic":
                return ("any",)
            v, local = localname(e, nm)
            if local is None:
                return ("any",)
            if e.true(mkeq(local, ("str", "string"))):
                return ("term", ok(("adt", XDV, "String", (("0", val),))))
            if e.true(mkeq(local, ("str", "token"))):
                return ("term", ok(("adt", XDV, "Token", (("0", ("call", NORM, (val,))),))))
            if e.true(mkeq(local, ("str", "QName"))):
                def f(e2, a):
                    if okres(a, e2) == "Err":
                        return None
                    if not trys:
                        return "~"
                    x = e2.n(ok(("adt", XDV, "QName", (("0", okv(("call", callname(trys[0]), (val,)))),))))
                    return None if a == x else "yields %s" % show(a)
                return ("pred", f)
            if any(v2 and k[0] == "b" and e.n(k[1])[0] == "eq" and local in e.n(k[1])[1:] for k, v2 in p.facts.items()):
                return ("any",)          # further types
            return ("pred", lambda e2, a: None if okres(a, e2) == "Err" else "!a value of an unknown type gives %s" % show(a))
        if nm is None:
            rep.unknown("datatypes are selected by other arguments")
        else:
            rep.merge(fn, C.check(fn, spec))
    if valid is not None:
        vf, C = mk(prog, named(prog, [NORM]) + trys)
        val = ("arg", valid.argnames()[1])

        def spec(e, p):
            v = e.variant(SELF, XDV)
            x = fld(SELF, XDV, v, 0)
            if v == "String":
                return ("bool", mkeq(e.n(x), e.n(val)))
            if v == "Token":
                return ("bool", mkeq(e.n(x), e.n(("call", NORM, (val,)))))
            if v == "QName" and trys:
                t = e.n(("call", callname(trys[0]), (val,)))
                if e.variant(t, RES) == "Err":
                    return ("bool", FALSE)
                return ("bool", mkeq(e.n(okv(t)), e.n(x)))
            return ("any",)
        rep.merge(valid, C.check(valid, spec))
    if len(trys) == 1:
        # a name, by its text
        fn = trys[0]
        rep.functions.add(fn.path)
        vf, C = mk(prog, named(prog, [NORM, "is_valid_ncname"]))
        val = ("arg", fn.argnames()[0])
        for p in vf.summarize(fn):
            N = C.norm(fn)
            if p.kind != "ret" or not N.add_facts(p.facts):
                continue
            a = N.n(p.val)
            if a[0] == "adt" and a[2] == "Ok":
                x = dict(a[3])["0"]
                t = x[3][0][1] if x[0] == "adt" and len(x[3]) == 1 else None
                try:
                    T = Texts(lambda y: y == val, EXTRAS)
                    w = automata.differ(textfn(t, lambda y: y == val, {NORM: Collapse()}), Collapse(), conj(T, p, C, fn)) if t else None
                except Unsupported as ex:
                    t = None
                if t is None:
                    rep.unknown("a QName is kept as %s" % show(x))
                elif w is not None:
                    rep.bad(fn.path, "%s at %s: the QName %r is kept as %s" % (shortname(fn.path), prog.pos(fn.sp), w, show(t)))
                else:
                    rep.good()
        try:
            T = Texts(lambda y: y == val, EXTRAS)
            L = union([conj(T, p, C, fn) for p in vf.summarize(fn) if p.kind == "ret" and variantof(C.norm(fn).n(p.val)) == "Ok"])
            compare(prog, rep, fn, "QName", L, Through(Collapse(), NCNAME), Through(Collapse(), QNAME))
        except Unsupported as ex:
            rep.unknown("QName: %s" % ex)


EXTRAS = {"is_valid_ncname": lambda: NCNAME}


def variantof(t):
    return t[2] if t[0] == "adt" else None


def conj(T, p, C, fn, skip=()):
    """the language of the texts a path is taken for (facts in 'skip' left out)"""
    N = C.norm(fn)
    ls = []
    for (k, t), v in p.facts.items():
        if (k, t) in skip:
            continue
        x = N.n(t)
        if k == "b":
            l = T.lang(x)
            ls.append(l if v else Bool(lambda a: neg(a[0]), l))
        else:
            ls.append(T.outcome(x, frozenset(v)))
    return Bool(all3, *ls) if ls else Const(True)


def neg(v):
    return None if v is None else not v


def all3(vs):
    return False if any(v is False for v in vs) else None if any(v is None for v in vs) else True


def any3(vs):
    return True if any(v is True for v in vs) else None if any(v is None for v in vs) else False


def union(ls):
    return Bool(any3, *ls) if ls else Const(False)


def compare(prog, rep, fn, what, L, must, may):
    """must is in L, and L in may"""
    def judge(v):
        l, a, b = v
        if a and l is False:
            return "rejects"
        if not b and l is True:
            return "accepts"
        return None
    r, n = automata.search([L, must, may], judge)
    rep.count("automaton states", n)
    rep.count("types compared")
    if r is None:
        rep.good("%s: the texts accepted lie between the required and the allowed ones (%d states)" % (what, n))
    else:
        rep.bad(fn.path + "#" + what, "%s at %s: the type %s %s the text %r" % (shortname(fn.path), prog.pos(fn.sp), what, r[1], r[0]))


def typenames(prog, rep, quiet=False):
    """{type name: variant} of the XML Schema library"""
    fn = implfn(prog, rep, "datatype::xsd::Compiler", "datatype::DatatypeCompiler", "datatype_name", "the types of the XML Schema library")
    if fn is None:
        return {}, None, None, None
    vf, C = mk(prog, lits(prog) + named(prog, ["convert_span", "file"]))
    nm = argof(fn, r"DatatypeName$")
    try:
        parts = vf.summarize(fn)
    except Budget as ex:
        rep.unknown("the types of the XML Schema library: %s" % ex)
        return {}, fn, C, None
    names, byname, wild = {}, {}, []
    for p in parts:
        N = C.norm(fn)
        if not N.add_facts(p.facts):
            continue
        v = N.vfacts.get(nm)
        var = next(iter(v)) if v and len(v) == 1 else None
        if var not in ("CName", "NamespacedName"):
            continue
        e = Env(prog, N, [])
        local = localname(e, nm)[1]
        eqs = [(c, x) for c, x in N.bfacts.items() if c[0] == "eq" and local in c[1:]]
        pos = [y[1] for c, x in eqs if x for y in c[1:] if y[0] == "str"]
        if len(pos) == 1:
            byname.setdefault((var, pos[0]), []).append(p)
            names.setdefault(pos[0], set())
            if p.kind == "ret":
                a = N.n(p.val)
                if a[0] == "adt" and a[2] == "Ok":
                    x = dict(a[3])["0"]
                    names[pos[0]].add(x[2] if x[0] == "adt" and x[1] == XDT else None)
                elif a[0] != "adt":
                    names[pos[0]].add(None)
        elif p.kind == "ret":
            wild.append((p, N.n(p.val), len(eqs)))
    if quiet:
        return {n: next(iter(v)) for n, v in names.items() if len(v) == 1 and None not in v}, fn, C, byname
    if not names:
        rep.unknown("types are selected in another way")
        return {}, fn, C, byname
    for p, a, k in wild:
        if okres(a, Env(prog, C.norm(fn), [])) == "Err":
            rep.good()
        elif a[0] == "adt" and k >= len(names):
            rep.bad(fn.path, "%s at %s: an unknown type name is accepted as %s" % (shortname(fn.path), prog.pos(fn.sp), show(a)))
        else:
            x = other(C.norm(fn), p, nm, prog)
            if x:
                rep.bad(fn.path, "%s at %s: a type is selected by %s, so that %r is accepted as %s" % (shortname(fn.path), prog.pos(fn.sp), x[0], x[1], show(a)))
            else:
                rep.unknown("a type is selected by something else than its name: %s" % show(a))
    for n in sorted(set(names) - set(TYPES)):
        if not names[n]:
            rep.good()
        elif n in OTHERTYPES:
            rep.unknown("the type %s" % n)
        else:
            rep.bad(fn.path + "#" + n, "%s at %s: %s is accepted, which is no type of XML Schema" % (shortname(fn.path), prog.pos(fn.sp), n))
    out = {}
    for n in sorted(TYPES):
        v = names.get(n)
        if v is None:
            rep.bad(fn.path + "#" + n, "%s at %s: the type %s is not known" % (shortname(fn.path), prog.pos(fn.sp), n))
        elif None in v or len(v) > 1:
            rep.unknown("the type %s is represented as %s" % (n, v))
        elif not v:
            rep.bad(fn.path + "#" + n, "%s at %s: the type %s is always rejected" % (shortname(fn.path), prog.pos(fn.sp), n))
        else:
            rep.good()
            out[n] = next(iter(v))
    rep.count("type names", len(out))
    return out, fn, C, byname


OTHERTYPES = set("""float hexBinary base64Binary time gYearMonth gYear gMonthDay gDay gMonth QName NOTATION Name IDREFS ENTITY ENTITIES nonPositiveInteger negativeInteger byte
    nonNegativeInteger unsignedByte anySimpleType""".split())


def other(N, p, nm, prog):
    """a path on which a name equals something after being changed: (how, a name which is no type's)"""
    if not N.add_facts(p.facts):
        return None
    local = localname(Env(prog, N, []), nm)[1]
    for c, x in N.bfacts.items():
        if not x:
            continue
        if c[0] == "eq" and any(y[0] == "str" for y in c[1:]):
            t, w = (c[1], c[2]) if c[2][0] == "str" else (c[2], c[1])
        elif c[0] == "call" and c[1].endswith("eq_ignore_ascii_case") and len(c[2]) == 2 and c[2][1][0] == "str":
            t, w = c[2]
        else:
            continue
        if t == local and c[0] == "eq":
            continue
        try:
            T = Texts(lambda y: y == local)
            r = automata.search([T.lang(c), Words(list(TYPES) + list(OTHERTYPES))], lambda v: True if v[0] is True and v[1] is False else None)[0]
        except Unsupported:
            continue
        if r:
            return show(c), r[0]
    return None


# the texts (after white space processing) each type has to contain, and the ones it may
DIG = "[0-9]+"
TZ = "(Z|[+-]((0[0-9]|1[0-3]):[0-5][0-9]|14:00))?"
YEAR = "-?([1-9][0-9]{3,}|0[0-9]{3})"
LEAP = "([0-9]*[0-9]{2}(0[48]|[2468][048]|[13579][26])|[0-9]*([02468][048]|[13579][26])00)"


def dates(year, leapyear):
    return "((%s)-(((0[13578]|1[02])-(0[1-9]|[12][0-9]|3[01]))|((0[469]|11)-(0[1-9]|[12][0-9]|30))|02-(0[1-9]|1[0-9]|2[0-8]))|(%s)-02-29)" % (year, leapyear)


DATE_MUST = dates("-?([1-9][0-9]{3,}|0[0-9]{2}[1-9]|0[0-9][1-9]0|0[1-9]00)", "([1-9][0-9]*)?([0-9][1-9]|[1-9][0-9])(0[48]|[2468][048]|[13579][26])|([1-9][0-9]*)?(0[48]|[2468][048]|[13579][26])00")
# in the years before the common era, which ones are leap years depends on the version of the standard
DATE_MAY = dates(YEAR, "(-[0-9]{4,}|" + LEAP + ")")
TIMES = "(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\\.[0-9]+)?)"
TIME_MAY = "(" + TIMES + "|24:00:00(\\.0+)?)"
SEC = "[0-9]+(\\.[0-9]+)?S"
DTIME = "T([0-9]+H([0-9]+M)?(%s)?|[0-9]+M(%s)?|%s)" % (SEC, SEC, SEC)
DUR = "-?P(([0-9]+Y([0-9]+M)?([0-9]+D)?|[0-9]+M([0-9]+D)?|[0-9]+D)(%s)?|%s)" % (DTIME, DTIME)
DEC = "[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)"
DBL = DEC + "([eE][+-]?[0-9]+)?"


def ints(lo, hi):
    return lambda: (Bool(all, IntRange(lo, hi), Exact("[+-]?[0-9]+" if lo < 0 else DIG)), Bool(any, IntRange(lo, hi), Exact("-0+")))


def exact(a, b=None):
    return lambda: (Exact(a), Exact(b or a))


TYPES = {
    "normalizedString": lambda: (Const(True), Const(True)), "string": lambda: (Const(True), Const(True)), "token": lambda: (Const(True), Const(True)),
    "short": ints(-2**15, 2**15 - 1), "int": ints(-2**31, 2**31 - 1), "long": ints(-2**63, 2**63 - 1),
    "unsignedShort": ints(0, 2**16 - 1), "unsignedInt": ints(0, 2**32 - 1), "unsignedLong": ints(0, 2**64 - 1),
    "integer": exact("[+-]?[0-9]+"), "positiveInteger": exact("\\+?0*[1-9][0-9]*"),
    "decimal": exact(DEC), "double": exact(DBL + "|-?INF|NaN", DBL + "|[+-]?INF|NaN"),
    "NMTOKENS": lambda: (Words_of(NMTOKEN), Words_of(NMTOKEN)), "NMTOKEN": lambda: (NMTOKEN, NMTOKEN), "NCName": lambda: (NCNAME, NCNAME),
    "ID": lambda: (NCNAME, NCNAME), "IDREF": lambda: (NCNAME, NCNAME),
    "duration": exact(DUR), "date": exact("(" + DATE_MUST + ")" + TZ, "(" + DATE_MAY + ")" + TZ),
    "dateTime": exact("(" + DATE_MUST + ")T" + TIMES + TZ, "(" + DATE_MAY + ")T" + TIME_MAY + TZ),
    "anyURI": exact(URI_MUST, URI_MAY), "language": exact("[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*"), "boolean": lambda: (Words(["true", "false", "1", "0"]),) * 2,
}
WHITE = {"string": Fn, "normalizedString": lambda: Replace("\t\n\r", " ")}


class Words_of:
    """members of a language, separated by single spaces, at least one"""

    def __init__(self, lang):
        self.l = lang

    def init(self):
        return self.l.init()

    def step(self, st, c):
        if st is None:
            return None
        if c == " ":
            return self.l.init() if self.l.accept(st) else None
        return self.l.step(st, c)

    def accept(self, st):
        return st is not None and self.l.accept(st)

    def atoms(self):
        return self.l.atoms() + [frozenset(" ")]


def ordinal(xs):
    return ", ".join(xs)


class Wrong(Exception):
    """a facet is compared with something else"""


class Facets:
    """the facets a representation of a type has"""

    def __init__(self, prog, variant):
        self.prog, self.variant = prog, variant
        self.roles = {}              # name -> (kind, term)
        for n, ty in prog_fields(prog, XDT, variant):
            self.field(n, strip_ty(ty), fld(SELF, XDT, variant, n))

    def field(self, n, ty, t):
        X = "relaxng_model::datatype::xsd::"
        if "MinMaxFacet<" in ty:
            for m in ("min", "max"):
                self.roles[m] = (m, fld(t, X + "MinMaxFacet", "MinMaxFacet", m))
        elif re.search(r"LengthFacet$", ty):
            self.roles["length"] = ("length", t)
        elif "StringFacets" in ty:
            for n2, ty2 in prog_fields(self.prog, X + "StringFacets", "StringFacets"):
                self.field(n2, strip_ty(ty2), fld(t, X + "StringFacets", "StringFacets", n2))
        elif "PatternFacet" in ty:
            self.roles["pattern"] = ("pattern", t)
        elif re.search(r"Option<u(8|16|32|64|size)>$", ty) and ("fraction" in n or "total" in n):
            self.roles["fraction" if "fraction" in n else "total"] = ("digits", t)
        else:
            raise Unsupported("a facet represented by %s" % ty)

    VARS = {"min": ("Unbounded", "Inclusive", "Exclusive"), "max": ("Unbounded", "Inclusive", "Exclusive"),
            "length": ("Unbounded", "MinLength", "MaxLength", "MinMaxLength", "Length"), "pattern": ("None", "Some"), "digits": ("None", "Some")}

    def states(self):
        """every combination of facets given or not: {role: variant}"""
        out = [{}]
        for r, (k, t) in self.roles.items():
            out = [dict(s, **{r: v}) for s in out for v in self.VARS[k]]
        return out

    def cases(self, st):
        """every way the facets given may hold or not: {role: relation(s) of the measured value to the bound(s)}; True when all of them hold"""
        out = [({}, [])]
        for r, v in st.items():
            k = self.roles[r][0]
            if v in ("Unbounded", "None"):
                continue
            if k == "min":
                o = [((1,), True), ((0,), v == "Inclusive"), ((-1,), False)]
            elif k == "max":
                o = [((-1,), True), ((0,), v == "Inclusive"), ((1,), False)]
            elif k == "pattern":
                o = [(True, True), (False, False)]
            elif k == "digits":
                o = [((-1,), True), ((0,), True), ((1,), False)]
            elif v == "MinMaxLength":
                o = [((-1, -1), False), ((0, -1), True), ((0, 0), True), ((1, -1), True), ((1, 0), True), ((1, 1), False)]
            elif v == "Length":
                o = [((0,), True), ((-1,), False), ((1,), False)]
            else:
                o = [((1,), v == "MinLength"), ((0,), True), ((-1,), v == "MaxLength")]
            out = [(dict(c, **{r: x}), bad + ([] if good else [r])) for c, bad in out for x, good in o]
        return [(c, bad) for c, bad in out if len(bad) <= 1]

    def role(self, t):
        """the facet a term is about: (role, what)"""
        for r, (k, base) in self.roles.items():
            if t == base:
                return r, None
            x, way = t, []
            while x[0] in ("fld", "cast", "call") and x != base:
                if x[0] == "fld":
                    way.append((x[2], x[3]))
                    x = x[1]
                elif x[0] == "cast":
                    x = x[2]
                elif len(x[2]) == 1:
                    x = x[2][0]
                else:
                    break
            if x == base:
                return r, way[::-1]
        return None, None


class FacetTexts(Texts):
    """conditions on a text and the facets of a type, for given facets"""

    def __init__(self, F, st, case, val, white, must, cache):
        Texts.__init__(self, lambda y: y == val, EXTRAS)
        self.F, self.st, self.case, self.val, self.white, self.must, self.known = F, st, case, val, white, must, cache

    def lang(self, t):
        if t[0] in ("not", "and", "or", "bool"):
            return Texts.lang(self, t)
        if not contains_term(t, lambda y: y == SELF):
            if t not in self.known:
                self.known[t] = Texts.lang(self, t)
            return self.known[t]
        return Const(self.facet(t))

    def outcome(self, t, vs):
        if not contains_term(t, lambda y: y == SELF):
            k = (t, vs)
            if k not in self.known:
                self.known[k] = Texts.outcome(self, t, vs)
            return self.known[k]
        if t == SELF:
            return Const(self.F.variant in vs)
        r, way = self.F.role(t)
        if r is None or way:
            raise Unsupported("the facet %s" % show(t)[:80])
        return Const(self.st[r] in vs)

    def rightly(self, t, what):
        """the text the facets apply to"""
        k = ("text", t)
        if k not in self.known:
            self.known[k] = automata.differ(textfn(t, self.var, {NORM: Collapse()}), self.white, self.must)
        w = self.known[k]
        if w is not None:
            raise Wrong("%s is that of %s (%r is not the same for the text %r)" % (what, show(t), image(textfn(t, self.var, {NORM: Collapse()}), w), w))

    def facet(self, t):
        k = t[0]
        if k == "isv":
            return self.outcome(t[1], frozenset(t[3])).v
        if k == "call" and t[1].endswith("is_match") and len(t[2]) == 2:
            r, way = self.F.role(t[2][0])
            if r == "pattern" and self.st[r] == "Some":
                self.rightly(t[2][1], "the text compared with the pattern")
                return self.case[r]
        if k in ("eq", "lt", "le"):
            a, b = t[1], t[2]
            ra, rb = self.F.role(a), self.F.role(b)
            if (ra[0] is None) != (rb[0] is None):
                (r, way), m = (ra, b) if ra[0] else (rb, a)
                rel = self.relation(r, way, m)
                if k == "eq":
                    return rel == 0
                if not ra[0]:
                    return rel < 0 if k == "lt" else rel <= 0
                return rel > 0 if k == "lt" else rel >= 0
        if k == "call" and t[1].endswith("contains") and len(t[2]) == 2 and t[2][0][0] == "call" and t[2][0][1].endswith("RangeInclusive::new"):
            (r1, w1), (r2, w2) = (self.F.role(x) for x in t[2][0][2])
            if r1 and r2:
                return self.relation(r1, w1, t[2][1]) >= 0 and self.relation(r2, w2, t[2][1]) <= 0
        raise Unsupported("the condition %s" % show(t)[:100])

    def relation(self, r, way, m):
        """how what is measured compares with the facet"""
        kind = self.F.roles[r][0]
        v = self.st[r]
        if not way or v in ("Unbounded", "None") or not way[0][0].endswith("::" + v):
            raise Unsupported("a facet which is not given")
        i = int(way[0][1]) if way[0][1].isdigit() else 0
        rel = self.case[r]
        while m[0] == "cast":
            m = m[2]
        if m[0] == "adt" and len(m[3]) == 1:
            m = m[3][0][1]
        if kind in ("min", "max"):
            self.value(m)
        elif kind == "digits":
            x = m
            if x[0] == "fld" and x[1][0] == "call" and x[1][1].endswith("decimal_digits"):
                self.value(x[1][2][0])
                if str(x[3]) != ("1" if r == "fraction" else "0"):
                    raise Wrong("%s is compared with the number of %s digits" % ("fractionDigits" if r == "fraction" else "totalDigits", "all" if r == "fraction" else "fractional"))
            else:
                raise Unsupported("the digits %s" % show(m)[:60])
        else:
            self.length(m)
        return rel[i] if i < len(rel) else rel[0]

    def value(self, m):
        if m[0] == "fld" and m[2] == RES + "::Ok" and m[1][0] == "call" and m[1][1].startswith("parse:") and len(m[1][2]) == 1:
            self.rightly(m[1][2][0], "the number compared with the bound")
            return
        raise Unsupported("the number %s" % show(m)[:80])

    def length(self, m):
        tokens = self.F.tokens
        if m[0] == "call" and m[1] in ("len", "iter:count"):
            s = unlist(m[2][0])
            if s[0] == "call" and s[1].endswith("split_ascii_whitespace"):
                if not tokens:
                    raise Wrong("the length is a number of words")
                k = ("words", s[2][0])
                if k not in self.known:
                    self.known[k] = automata.differ(Seq(textfn(s[2][0], self.var, {NORM: Collapse()}), Collapse()), Collapse(), self.must)
                if self.known[k] is not None:
                    raise Wrong("the length is that of %s" % show(s[2][0]))
                return
            if s[0] == "call" and s[1].endswith("chars"):
                if tokens:
                    raise Wrong("the length of a list is its number of characters")
                self.rightly(s[2][0], "the length compared")
                return
            if m[1] == "len":
                try:
                    textfn(s[2][0] if s[0] == "call" and s[1].rsplit("::", 1)[-1] in ("as_bytes", "bytes") else s, self.var, {NORM: Collapse()})
                except Unsupported:
                    pass
                else:
                    raise Wrong("the length is a number of bytes")
        raise Unsupported("the length %s" % show(m)[:80])


def validparts(prog, rep):
    fn = implfn(prog, rep, "datatype::xsd::XsdDatatypes", "datatype::Datatype", "is_valid", "the check of a text against a type of the XML Schema library")
    if fn is None:
        return None, None, {}
    vf, C = mk(prog, named(prog, [NORM, "is_valid_ncname", "decimal_digits"]))
    by = {}
    try:
        for p in vf.summarize(fn):
            N = C.norm(fn)
            if p.kind == "panic" or not N.add_facts(p.facts):
                continue
            if p.kind == "back":
                for v in N.vfacts.get(SELF, [x for x, _ in prog.variants(XDT)]):
                    by.setdefault(v, []).append(None)
                continue
            for v in N.vfacts.get(SELF, [x for x, _ in prog.variants(XDT)]):
                by.setdefault(v, []).append(p)
    except Budget as ex:
        rep.unknown("the check of texts: %s" % ex)
    return fn, C, by


def language(parts, T, C, fn):
    ls = []
    for p in parts:
        N = C.norm(fn)
        fs = []
        dead = False
        for (k, t), v in p.facts.items():
            x = N.n(t)
            if k == "b":
                l = T.lang(x)
                l = l if v else Bool(lambda a: neg(a[0]), l)
            else:
                l = T.outcome(x, frozenset(v))
            if isinstance(l, Const):
                if l.v is False:
                    dead = True
                    break
                continue
            if isinstance(l, Bool) and all(isinstance(y, Const) for y in l.ls) and l.f([y.v for y in l.ls]) is False:
                dead = True
                break
            fs.append(l)
        if not dead:
            fs.append(T.lang(N.n(p.val)))
            ls.append(Bool(all3, *fs))
    return union(ls)


def lexical(prog, rep, W):
    names = typenames(prog, rep, quiet=True)[0]
    fn, C, by = validparts(prog, rep)
    if fn is None:
        return
    val = ("arg", fn.argnames()[1])
    for n in sorted(names):
        if n not in TYPES:
            rep.count("types without a definition here")
            continue
        try:
            must, may = TYPES[n]()
            white = WHITE.get(n, Collapse)()
            F = Facets(prog, names[n])
            F.tokens = n == "NMTOKENS"
            st = {r: Facets.VARS[k][0] for r, (k, t) in F.roles.items()}
            parts = by.get(names[n], [])
            if None in parts:
                raise Unsupported("decided by a loop")
            T = FacetTexts(F, st, {}, val, white, None, {})
            L = language(parts, T, C, fn)
            compare(prog, rep, fn, n, L, Through(white, must), Through(white, may))
        except (Unsupported, Wrong) as ex:
            rep.unknown("the texts of %s: %s" % (n, ex))


# ------------------------------------------------------------------------------------- M09
XP = "relaxng_model::datatype::xsd::"
NUMERIC = ["short", "int", "long", "unsignedShort", "unsignedInt", "unsignedLong", "integer", "positiveInteger", "decimal", "double"]
BOUNDS = {"minInclusive": ("min", "Inclusive"), "minExclusive": ("min", "Exclusive"), "maxInclusive": ("max", "Inclusive"), "maxExclusive": ("max", "Exclusive")}
LENGTHS = {"length": "Length", "minLength": "MinLength", "maxLength": "MaxLength"}
DIGITS = {"fractionDigits": "fraction", "totalDigits": "total"}
ALLFACETS = list(BOUNDS) + list(LENGTHS) + list(DIGITS) + ["pattern"]


def supported(n):
    """the facets a type has to know"""
    if n in NUMERIC:
        return set(BOUNDS) | {"pattern"} | (set(DIGITS) if n == "decimal" else set())
    if n in ("string", "normalizedString"):
        return set(LENGTHS) | {"pattern"}
    if n in ("NMTOKENS", "NMTOKEN", "NCName", "token"):
        return set(LENGTHS)
    return {"pattern"}


def applicable(n):
    """the facets which XML Schema defines for a type"""
    if n in NUMERIC:
        return set(BOUNDS) | {"pattern"} | (set(DIGITS) if n != "double" else set())
    if n in ("date", "dateTime", "duration"):
        return set(BOUNDS) | {"pattern"}
    if n == "boolean":
        return {"pattern"}
    return set(LENGTHS) | {"pattern"}


def m09(prog, rep, tier):
    rep.rule("every facet which is given changes what its type keeps for it, to the value given; one which does not apply, is not understood, is given twice or contradicts another is an error; "
             "the order does not matter and none is left out")
    rep.rule("a text is of a type with facets when it is of the type without them and each of the facets holds of it - of the text after white space processing, of its number of characters "
             "(of words, for a list), of the number it stands for - for each combination of facets")
    rep.rule("what the facets are asked for, for diagnostics or by other programs, is what they are")
    names, fn, C, byname = typenames(prog, rep, quiet=True)
    if fn is None:
        return
    if not names:
        rep.unknown("types are selected in another way")
        return
    for n in sorted(names):
        if n in TYPES:
            try:
                steps(prog, rep, n, names[n], byname.get(("CName", n), []), C, fn)
            except Unsupported as ex:
                rep.unknown("the facets of %s: %s" % (n, ex))
    facets(prog, rep, names, tier)
    m09_default(prog, rep)
    m09_digits(prog, rep)
    m09_accessors(prog, rep)


def loopvar(t):
    for x in subterms(t):
        if x[0] == "loop":
            return x
    return None


def inner(t):
    while t[0] == "adt" and len(t[3]) == 1 and t[2] not in ("Inclusive", "Exclusive", "Some", "Ok"):
        t = t[3][0][1]
    return t


def steps(prog, rep, n, variant, parts, C, fn):
    F = Facets(prog, variant)
    # what is kept: from the results after the last parameter
    kept = {}
    for p in parts:
        if p.kind != "ret":
            continue
        N = C.norm(fn)
        a = N.n(p.val)
        if a[0] == "adt" and a[2] == "Ok":
            v = dict(a[3])["0"]
            for r, (k, base) in F.roles.items():
                kept.setdefault(r, set()).add(N.n(subst(base, {SELF: v})))
    for r, ts in kept.items():
        if len(ts) != 1:
            raise Unsupported("what is kept of %s" % r)
    kept = {r: next(iter(ts)) for r, ts in kept.items()}
    if set(kept) != set(F.roles):
        raise Unsupported("no result")
    lps = {lp for p in parts for lp in p.loops}
    if len(lps) != 1:
        raise Unsupported("%d loops" % len(lps))
    lp = next(iter(lps))
    init = next(p.loops[lp][0] for p in parts if lp in p.loops)
    src = None
    for p in parts:
        for (k, t) in p.facts:
            if k == "b" and t[0] == "more" and t[1][0] == "loop":
                src = t[1][3]
    params = ("arg", fn.argnames()[-1])
    N = C.norm(fn)
    if src is None or N.n(src) != params:
        x = N.n(src) if src else None
        if x and partial(x, params):
            rep.bad(fn.path + "#" + n, "the facets of %s are taken from %s" % (n, show(x)))
        else:
            rep.unknown("the facets of %s are taken from %s" % (n, show(x) if x else "something else"))
        return
    elem = ("elem", src)
    lit = ("call", "Literal::as_string_value", (fld(elem, PARAM, "Param", 3),))
    subjects = [N.n(("call", "display", (fld(elem, PARAM, "Param", 2),))), N.n(fld(fld(elem, PARAM, "Param", 2), SY + "NcName", "NcName", 1))]

    def state(N, r, what):
        t = kept[r]
        m = {}
        for x in subterms(t):
            if x[0] == "loop" and x[1] == "%s#%s" % lp and x[2] in what:
                m[x] = what[x[2]]
        return N.n(subst(t, m)) if m else N.n(t)
    zero = {"min": "Unbounded", "max": "Unbounded", "length": "Unbounded", "pattern": "None", "digits": "None"}
    for r, (k, base) in F.roles.items():
        s = state(N, r, init)
        if s[0] == "fld" and s[1] == ("call", "default:datatype::xsd::MinMaxFacet", ()) or s[0] == "call" and s[1].startswith("default:"):
            rep.good()           # m09_default
        elif s[0] == "adt" and s[2] == zero[k]:
            rep.good()
        elif s[0] == "adt":
            rep.bad(fn.path + "#" + n, "%s at %s: without facets, %s of %s is %s" % (shortname(fn.path), prog.pos(fn.sp), r, n, show(s)))
        else:
            rep.unknown("without facets, %s of %s is %s" % (r, n, show(s)))
    seen = {f: 0 for f in ALLFACETS}
    accepted = {}
    ADT = {"min": XP + "Min", "max": XP + "Max", "length": XP + "LengthFacet", "pattern": OPT, "digits": OPT}

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)
        more = [x for (k, t), x in p.facts.items() if k == "b" and t[0] == "more" and t[1][0] == "loop"]
        if not more:
            raise Unsupported("a result without a look at the parameters")
        if not more[0]:
            return after(e, p)
        pos, negs, other = [], set(), False
        for c, x in e.N.bfacts.items():
            if c[0] == "eq" and any(s in c[1:] for s in subjects):
                y = next((z[1] for z in c[1:] if z[0] == "str"), None)
                if x:
                    pos.append(y)
                else:
                    negs.add(y)
        if not pos:
            miss = [f for f in supported(n) if f not in negs]

            def f(e2, a):
                if p.kind == "back":
                    return "!a parameter with another name is accepted"
                if miss and negs:
                    return "!the facet %s is not known" % miss[0]
                if not negs:
                    return "~"
                return None if okres(a, e2) == "Err" else "!a parameter with another name is accepted"
            for x in negs:
                if x in seen:
                    seen[x] += 1
            return ("pred", f)
        facet = pos[0]
        if facet not in ALLFACETS:
            return ("any",)
        seen[facet] += 1
        if facet not in applicable(n):
            return ("pred", lambda e2, a: None if p.kind == "ret" and okres(a, e2) == "Err" else "!the facet %s, which %s does not have, is accepted" % (facet, n))
        return step(e, p, facet)

    def step(e, p, facet):
        N = e.N
        back = p.loops[lp][1] if p.kind == "back" else None
        role, kind = BOUNDS[facet] if facet in BOUNDS else ("length", LENGTHS[facet]) if facet in LENGTHS else (DIGITS.get(facet, "pattern"), "Some")
        if role not in F.roles:
            return ("pred", lambda e2, a: ("!the facet %s is accepted but not kept" % facet) if p.kind == "back" else None if okres(a, e2) == "Err" else "~")
        if facet == "pattern":
            pv = [t for t, x in N.vfacts.items() if t[0] == "call" and t[1].endswith("Regex::new")]
        else:
            pv = [t for t, x in N.vfacts.items() if t[0] == "call" and t[1].startswith("parse:")]
        res = None
        for t in pv:
            e.trust(t)
        if len(pv) == 1:
            res = next(iter(N.vfacts[pv[0]])) if len(N.vfacts[pv[0]]) == 1 else None
            V = e.n(okv(pv[0]))
            if facet != "pattern" and pv[0][2][0] != e.n(lit):
                x = pv[0][2][0]
                return ("pred", lambda e2, a: ("!" if not contains_term(x, lambda y: y == e2.n(lit)) else "~") + "the facet %s is read from %s" % (facet, show(x)))
        rejected = p.kind == "ret"
        bad = None                # True: has to be rejected; None: may be
        if res == "Err":
            bad = True
        elif res is None:
            bad = None
        else:
            bad = False
        extra = [c for c, x in N.bfacts.items() if contains_term(c, lambda y: y == e.n(lit)) and c[0] not in ("eq", "lt", "le")]
        clash = conflict(e, p, facet, role, kind, pv[0] if pv else None)
        want = True if bad or clash is True else None if bad is None or clash is None or extra else False

        def f(e2, a):
            if rejected:
                if okres(a, e2) != "Err":
                    return "!the parameters after %s are not looked at: %s" % (facet, show(a)) if okres(a, e2) == "Ok" else "~"
                if want is False:
                    return "!the facet %s is rejected: %s" % (facet, show(a))
                return None
            if want is True and facet == "pattern" and bad is not True:
                # kept apart, see known findings
                return None
            if want is True:
                return "!the facet %s is accepted although %s" % (facet, "its value cannot be read" if bad else "it is given already or contradicts another")
            if res != "Ok":
                return "~the facet %s is accepted without reading its value" % facet
            for r in F.roles:
                new, old = state(e2.N, r, back), e2.n(kept[r])
                if r != role:
                    if new != old and not (new[0] == "adt" and old in e2.N.vfacts and e2.N.vfacts[old] == frozenset([new[2]]) and all(e2.n(x) == e2.n(("fld", old, new[1] + "::" + new[2], i)) for i, x in new[3])):
                        return "!the facet %s changes %s to %s" % (facet, r, show(new))
                    continue
                if new == old:
                    return "!the facet %s is accepted and has no effect" % facet
                r2 = isnew(e2, facet, kind, old, new, pv[0])
                if r2:
                    return r2
            accepted.setdefault(facet, []).append(p)
            return None
        return ("pred", f)

    def conflict(e, p, facet, role, kind, pv):
        st = e.n(kept[role])
        if facet == "pattern":
            return e.variant(st, OPT) == "Some"
        if facet in DIGITS:
            return e.variant(st, OPT) == "Some"
        if facet in LENGTHS:
            v = e.variant(st, XP + "LengthFacet")
            if v == "Unbounded":
                return False
            if (kind, v) in (("MinLength", "MaxLength"), ("MaxLength", "MinLength")):
                if pv is None:
                    return None
                V, O = e.n(okv(pv)), e.n(fld(st, XP + "LengthFacet", v, 0))
                return e.true(("lt", O, V) if kind == "MinLength" else ("lt", V, O))
            return True
        if e.variant(st, ADT[role]) != "Unbounded":
            return True
        orole = "max" if role == "min" else "min"
        ot = e.n(kept[orole])
        ov = e.variant(ot, ADT[orole])
        if ov == "Unbounded":
            return False
        if pv is None:
            return None
        V, O = e.n(okv(pv)), e.n(fld(ot, ADT[orole], ov, 0))
        for c in list(e.N.bfacts):
            if c[0] in ("lt", "le") and contains_term(c, lambda y: y == V) and contains_term(c, lambda y: y == O):
                x, y = (c[1], c[2]) if contains_term(c[1], lambda z: z == V) else (c[2], c[1])
                V, O = x, y
                break
        lo, hi = (V, O) if role == "min" else (O, V)
        over, under = e.true(("lt", hi, lo)), e.true(("lt", lo, hi))
        if over and under:
            raise Infeasible()
        if over:
            return True
        if under:
            return False
        return False if kind == "Inclusive" and ov == "Inclusive" else None

    def isnew(e, facet, kind, old, new, pv):
        V = e.n(okv(pv))
        if facet == "pattern":
            if new[0] != "adt" or new[2] != "Some":
                return "~" + show(new)
            x = dict(new[3])["0"]
            re_ = [y for i, y in x[3] if y == V] if x[0] == "adt" else [x] if x == V else []
            if not re_:
                return "the pattern is kept as %s" % show(new)
            txt = pv[2][0]
            if txt[0] != "cat" or len(txt[1]) != 3 or txt[1][1] != e.n(lit) or txt[1][0][0] != "str" or txt[1][2][0] != "str":
                if txt == e.n(lit) or txt[0] == "cat" and not any(x2[0] == "str" and "(" in x2[1] for x2 in txt[1]):
                    return "!a pattern is compared with a part of the text, or only one of its alternatives is with all of it: %s" % show(txt)
                if txt[0] == "cat" and any(x2[0] == "call" and x2[1].rsplit("::", 1)[-1] in ("trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase")
                                           and x2[2] == (e.n(lit),) for x2 in txt[1]):
                    return "!the pattern is not compared as it is written: %s" % show(txt)
                return "~" + show(txt)
            b, a = txt[1][0][1], txt[1][2][1]
            if b not in ("^(?:", "^(", "\\A(?:", "\\A(") or a not in (")$", ")\\z"):
                return "!the pattern is compared as %s" % show(txt)
            return None
        if new[0] != "adt":
            return "~" + show(new)
        if kind in ("MinLength", "MaxLength") and e.N.vfacts.get(old) and e.N.vfacts[old] != frozenset(["Unbounded"]):
            if new[2] != "MinMaxLength":
                return "!the facet %s, given with another, leaves %s" % (facet, show(new))
            d = dict(new[3])
            ov = next(iter(e.N.vfacts[old]))
            o = e.n(fld(old, XP + "LengthFacet", ov, 0))
            want = (V, o) if kind == "MinLength" else (o, V)
            return None if (d["0"], d["1"]) == want else "!the facet %s, given with another, leaves %s" % (facet, show(new))
        if new[2] != kind:
            return "!the facet %s is kept as %s" % (facet, show(new))
        x = inner(dict(new[3])["0"])
        return None if x == V else "the facet %s is kept with the value %s" % (facet, show(x))

    def after(e, p):
        if {"fraction", "total"} <= set(F.roles):
            f, t = e.n(kept["fraction"]), e.n(kept["total"])
            if e.variant(f, OPT) == "Some" and e.variant(t, OPT) == "Some":
                if e.true(("lt", e.n(fld(t, OPT, "Some", 0)), e.n(fld(f, OPT, "Some", 0)))):
                    return ("pred", lambda e2, a: None if okres(a, e2) == "Err" else "!more fractional digits than digits are accepted")

        def f(e2, a):
            if okres(a, e2) == "Err":
                return "!rejected after all parameters: %s" % show(a)
            return None
        return ("pred", f)
    R = C.check_parts(fn, parts, spec, label="the facets of %s" % n, kinds=("ret", "panic", "back"), folds=False)
    rep.merge(fn, R, key=fn.path + "#" + n)
    # several patterns: each has to match
    if "pattern" in F.roles and accepted.get("pattern"):
        replaced = [p for p in accepted["pattern"] if not any(C.norm(fn).n(t) == C.norm(fn).n(kept["pattern"]) for (k, t) in p.facts)]
        if replaced:
            rep.bad("several patterns: %s" % n, "%s at %s: of several pattern facets of %s, only the last is applied" % (lp[0].rsplit("::", 1)[-1], prog.pos(fn.sp), n))
        else:
            rep.good()
    for f in sorted(supported(n)):
        rep.count("facets of types")
        if not seen[f]:
            rep.unknown("the facet %s of %s is not looked at" % (f, n))
    # the values which are accepted
    for facet in sorted(accepted):
        if facet == "pattern" or n == "double":
            continue
        ps = [p for p in accepted[facet] if all(not (k == "v" and C.norm(fn).n(t) in [C.norm(fn).n(x) for x in kept.values()]) or x2 <= frozenset(["Unbounded", "None"]) for (k, t), x2 in p.facts.items())]
        T = Texts(lambda y: y == lit or y == C.norm(fn).n(lit))
        try:
            L = union([litlang(T, p, C, fn, lit) for p in ps])
            if facet in BOUNDS:
                must, may = TYPES[n]()
                if n == "positiveInteger":
                    may = Exact("\\+?[0-9]+")
            elif facet in LENGTHS:
                must, may = Bool(all, Exact(DIG), IntRange(0, 2**31)), Exact("\\+?[0-9]+")
            else:
                must, may = Bool(all, Exact(DIG), IntRange(1, 255)), Exact("\\+?[0-9]+")
            compare(prog, rep, fn, "%s of %s" % (facet, n), L, must, Through(Collapse(), may))
        except Unsupported as ex:
            rep.unknown("the values of %s of %s: %s" % (facet, n, ex))


def litlang(T, p, C, fn, lit):
    N = C.norm(fn)
    ls = []
    l = N.n(lit)
    for (k, t), v in p.facts.items():
        x = N.n(t)
        if not contains_term(x, lambda y: y == l) or x[0] in ("lt", "le") or x[0] == "not" and x[1][0] in ("lt", "le"):
            continue
        if k == "b":
            y = T.lang(x)
            ls.append(y if v else Bool(lambda a: neg(a[0]), y))
        else:
            ls.append(T.outcome(x, frozenset(v)))
    return Bool(all3, *ls) if ls else Const(True)


def facets(prog, rep, names, tier):
    """a text of a type with facets"""
    fn, C, by = validparts(prog, rep)
    if fn is None:
        return
    val = ("arg", fn.argnames()[1])
    done = {}
    for n in sorted(names):
        if n not in TYPES:
            continue
        try:
            must, may = TYPES[n]()
            white = WHITE.get(n, Collapse)()
            F = Facets(prog, names[n])
            F.tokens = n == "NMTOKENS"
            parts = by.get(names[n], [])
            if None in parts:
                raise Unsupported("decided by a loop")
            M, A = Through(white, must), Through(white, may)
            cache, runs = {}, {}
            for st in F.states():
                if all(v in ("Unbounded", "None") for v in st.values()):
                    continue
                for case, bad in F.cases(st):
                    if tier == "quick" and bad and sum(v not in ("Unbounded", "None") for v in st.values()) > 2:
                        continue
                    T = FacetTexts(F, st, case, val, white, M, cache)
                    what = "%s with %s" % (n, ", ".join("%s %s" % (r, v) for r, v in sorted(st.items()) if v not in ("Unbounded", "None")))
                    rep.count("combinations of facets")
                    try:
                        L = language(parts, T, C, fn)
                    except Wrong as ex:
                        rep.bad(fn.path + "#" + n, "%s at %s: %s: %s" % (shortname(fn.path), prog.pos(fn.sp), what, ex))
                        raise
                    key = sig(L)
                    if bad:
                        r = runs.get((key, False), 0)
                        if r == 0:
                            r = runs[(key, False)] = automata.search([L, A], lambda v: "accepts" if v[0] is True and v[1] is not False else None)[0]
                        if r:
                            rep.bad(fn.path + "#" + n, "%s at %s: %s: a text like %r is accepted although %s does not hold (%s)" % (
                                shortname(fn.path), prog.pos(fn.sp), what, r[0], bad[0], relation(case[bad[0]])))
                        else:
                            rep.good()
                        continue
                    r = runs.get((key, True), 0)
                    if r == 0:
                        r = runs[(key, True)] = automata.search([L, M, A], lambda v: "rejected" if v[1] and v[0] is False else "accepted" if not v[2] and v[0] is True else None)[0]
                    if r:
                        rep.bad(fn.path + "#" + n, "%s at %s: %s: a text like %r is %s when all facets hold (%s)" % (
                            shortname(fn.path), prog.pos(fn.sp), what, r[0], r[1], ", ".join("%s: %s" % (k, relation(v)) for k, v in sorted(case.items()))))
                    else:
                        rep.good()
        except Unsupported as ex:
            rep.unknown("the facets of %s: %s" % (n, ex))
        except Wrong:
            pass


def relation(v):
    if isinstance(v, bool):
        return "matches" if v else "does not match"
    return " and ".join({-1: "less", 0: "equal", 1: "greater"}[x] for x in v)


def sig(L):
    """identity of a language expression built of shared leaves"""
    if isinstance(L, Bool):
        f = L.f
        return ("B", f.__name__ if f.__name__ != "<lambda>" else f.__code__.co_code, f.__code__.co_consts if hasattr(f, "__code__") else (), tuple(sig(x) for x in L.ls))
    if isinstance(L, Const):
        return ("C", L.v)
    return id(L)


def m09_default(prog, rep):
    c = [f for f in prog.fns.values() if f.crate == CRATE and re.search(r"<datatype::xsd::MinMaxFacet.* as std::default::Default>::default$", f.path)]
    if len(c) != 1:
        rep.unknown("the absence of bounds is represented in another way")
        return
    fn = c[0]
    rep.functions.add(fn.path)
    vf, C = mk(prog, [])

    def spec(e, p):
        def f(e2, a):
            for m, adt in (("min", "Min"), ("max", "Max")):
                x = e2.n(fld(a, XP + "MinMaxFacet", "MinMaxFacet", m))
                if x[0] != "adt":
                    return "~"
                if x[2] != "Unbounded":
                    return "!without facets, %s is %s" % (m, show(x))
            return None
        return ("pred", f)
    rep.merge(fn, C.check(fn, spec))


def m09_digits(prog, rep):
    fns = named(prog, ["decimal_digits"])
    if len(fns) != 1:
        rep.unknown("digits are counted in another way")
        return
    fn = fns[0]
    rep.functions.add(fn.path)
    vf, C = mk(prog, [])
    val = ("arg", fn.argnames()[0])
    where = "%s at %s" % (shortname(fn.path), prog.pos(fn.sp))

    def num(t, e, n):
        k = t[0]
        if k == "int":
            return t[1]
        if k == "cast":
            return num(t[2], e, n)
        if k == "neg":
            return -num(t[1], e, n)
        if k == "bin" and t[1] in ("Add", "Sub", "Mul"):
            a, b = num(t[2], e, n), num(t[3], e, n)
            return a + b if t[1] == "Add" else a - b if t[1] == "Sub" else a * b
        if k == "fld" and t[3] == "1" and parts_of(t[1]):
            return e
        if k == "call":
            last = t[1].rsplit("::", 1)[-1]
            if last == "len" and digits_of(t[2][0]):
                return n
            if last in ("max", "min") and len(t[2]) == 2:
                return {"max": max, "min": min}[last](num(t[2][0], e, n), num(t[2][1], e, n))
            if last in ("unsigned_abs", "abs"):
                return abs(num(t[2][0], e, n))
            if last == "digits" and len(t[2]) == 1 and t[2][0][0] == "call" and t[2][0][1].endswith("normalized") and t[2][0][2] == (val,):
                return n
        raise Unsupported(show(t)[:80])

    def parts_of(t):
        if t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("into_bigint_and_exponent", "as_bigint_and_exponent"):
            x = t[2][0]
            if x[0] == "call" and x[1].endswith("::normalized") and x[2] == (val,):
                return True
            if x == val:
                raise Wrong("the digits counted are those of the number as it is written, not of its value")
        return False

    def digits_of(t):
        if t[0] == "call" and t[1] in ("display", "to_string", "alloc::string::ToString::to_string"):
            m = t[2][0]
            if m[0] == "call" and m[1].endswith("magnitude") and m[2][0][0] == "fld" and m[2][0][3] == "0" and parts_of(m[2][0][1]):
                return True
            if m[0] == "fld" and m[3] == "0" and parts_of(m[1]):
                raise Wrong("the sign counts as a digit")
        return False

    def cond(t, v, e, n):
        if t[0] == "bool":
            return t[1] == v
        if t[0] == "not":
            return cond(t[1], not v, e, n)
        if t[0] in ("lt", "le", "eq"):
            a, b = num(t[1], e, n), num(t[2], e, n)
            return (a < b if t[0] == "lt" else a <= b if t[0] == "le" else a == b) == v
        raise Unsupported(show(t)[:80])
    try:
        ps = []
        for p in vf.summarize(fn):
            N = C.norm(fn)
            if p.kind == "panic" or not N.add_facts(p.facts):
                continue
            v = N.n(p.val)
            if p.kind != "ret" or v[0] != "tup" or len(v[1]) != 2:
                raise Unsupported(show(v)[:80])
            plain = C.norm(fn)
            ps.append(([(plain.n(t), x) for (k, t), x in p.facts.items() if k == "b"], v[1]))
        # every operation is linear or a maximum, so a few numbers of each sign decide
        for e in range(-4, 5):
            for n in range(1, 5):
                want = (n - e, 0) if e < 0 else (max(n, e), e)
                rep.count("numbers of digits and exponents")
                for fs, v in ps:
                    if all(cond(t, x, e, n) for t, x in fs):
                        got = tuple(num(x, e, n) for x in v)
                        if got != want:
                            raise Wrong("a number of %d digits, the last of them %s, has %d digits and %d fractional digits, not %d and %d" % (
                                n, "of 10 to the %d" % -e, got[0], got[1], want[0], want[1]))
                        break
                else:
                    raise Unsupported("nothing is returned")
        rep.good()
    except Wrong as ex:
        rep.bad(fn.path, "%s: %s" % (where, ex))
    except (Unsupported, Budget) as ex:
        rep.unknown("how digits are counted: %s" % ex)


def m09_accessors(prog, rep):
    """what the facets are asked for by others"""
    X = "relaxng_model::datatype::xsd::"
    MM, SF, LF = X + "MinMaxFacet", X + "StringFacets", X + "LengthFacet"
    found = 0

    def some(t):
        return ("adt", OPT, "Some", (("0", t),))
    none = ("adt", OPT, "None", ())

    def bound(which, more):
        adt, op = X + which.capitalize(), "std::ops::%s::%s" % (more, more.lower())

        def spec(e, p):
            b = fld(("arg", "self"), MM, "MinMaxFacet", which)
            v = e.variant(b, adt)
            if v == "Unbounded":
                return ("term", none)
            x = fld(b, adt, v, "0")
            if v == "Inclusive":
                return ("term", some(x))

            def step(e2, a):
                a = e2.n(a)
                y = e2.n(x)
                if a == none or a == some(y):
                    return "!an exclusive bound is given as %s" % show(a)
                if a[0] == "adt" and a[2] == "Some":
                    z = a[3][0][1]
                    one = z[2][1] if z[0] == "call" and len(z[2]) == 2 else z[3] if z[0] == "bin" else None
                    if one is not None and one[0] == "call" and one[1].endswith("From::from"):
                        one = one[2][0]
                    op2 = z[1].rsplit("::", 1)[-1].lower() if z[0] in ("call", "bin") else ""
                    left = z[2][0] if z[0] == "call" and z[2] else z[2] if z[0] == "bin" else None
                    if left == y and one == ("int", 1) and op2 in ("add", "sub"):
                        return None if op2 == more.lower() else "!the value next to an exclusive bound is taken on the other side"
                    if left == y and one is not None and one[0] == "int" and op2 in ("add", "sub"):
                        return "!the value next to an exclusive bound is given as %s" % show(z)
                return "~"
            return ("pred", step)
        return spec

    def length(which):
        has = {"min": {"MinLength": "0", "MinMaxLength": "0", "Length": "0"}, "max": {"MaxLength": "0", "MinMaxLength": "1", "Length": "0"}}[which]

        def spec(e, p):
            b = fld(("arg", "self"), SF, "StringFacets", "len")
            v = e.variant(b, LF)
            return ("term", some(fld(b, LF, v, has[v])) if v in has else none)
        return spec

    def bounded_mm(e, p):
        return ("term", ("bool", e.variant(fld(("arg", "self"), MM, "MinMaxFacet", "min"), X + "Min") != "Unbounded" or e.variant(fld(("arg", "self"), MM, "MinMaxFacet", "max"), X + "Max") != "Unbounded"))

    def bounded_s(e, p):
        return ("term", ("bool", e.variant(fld(("arg", "self"), SF, "StringFacets", "len"), LF) != "Unbounded"))

    def regex(e, p):
        b = fld(("arg", "self"), SF, "StringFacets", "pattern")
        if e.variant(b, OPT) == "None":
            return ("term", none)
        return ("term", some(fld(fld(b, OPT, "Some", "0"), X + "PatternFacet", "PatternFacet", "1")))
    want = {("MinMaxFacet", "min"): bound("min", "Add"), ("MinMaxFacet", "min_cloned"): bound("min", "Add"),
            ("MinMaxFacet", "max"): bound("max", "Sub"), ("MinMaxFacet", "max_cloned"): bound("max", "Sub"),
            ("MinMaxFacet", "bounded"): bounded_mm, ("StringFacets", "bounded"): bounded_s,
            ("StringFacets", "min_len"): length("min"), ("StringFacets", "max_len"): length("max"), ("StringFacets", "regex"): regex}
    vf, C = mk(prog, [])
    for (ty, name), spec in sorted(want.items()):
        fs = [f for f in prog.fns.values() if f.crate == CRATE and re.search(r"::xsd::%s::%s$" % (ty, name), f.path)]
        if len(fs) != 1:
            rep.unknown("%s of %s is given in another way" % (name, ty))
            continue
        rep.functions.add(fs[0].path)
        rep.count("accessors")
        try:
            rep.merge(fs[0], C.check(fs[0], spec))
        except (Unsupported, Budget) as ex:
            rep.unknown("%s of %s: %s" % (name, ty, ex))
