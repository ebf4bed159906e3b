"""The model compiler: includes, lowering of every construct, names and namespaces."""
from lib import *
from props_model import *
from props_state import iskind, final, mutations, pops

CTXVARS = ("Root", "Include", "IncludeOverrides", "Grammar", "Define", "Element", "Attribute")
NOTFILE = ("Grammar", "Define", "Element", "Attribute")


def argof(fn, suffix):
    """the argument of the given type"""
    c = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if re.search(suffix, re.sub(r"<.*", "", strip_ty(t)) if "<" not in suffix else strip_ty(t))]
    return c[0] if len(c) == 1 else None


def args(fn, rep, **kw):
    out = {}
    for k, s in kw.items():
        a = argof(fn, s)
        if a is None:
            rep.unknown("%s works on other arguments" % shortname(fn.path))
            return None
        out[k] = a
    return out


class Need:
    """calls a result depends on: a good result needs all of them to have succeeded, a bad one needs one of them (or a condition) to have failed"""

    def __init__(self, e, p, a):
        self.e, self.p, self.a = e, p, a
        self.res = okres(a, e)
        self.bad = None       # why the result may be an error
        self.msg = None

    def fail(self, m):
        if self.msg is None:
            self.msg = m

    def call(self, label, name, want, pick=None):
        """want: list of (description, expected term or None) for the arguments which matter, compared by membership; returns the call term"""
        e = self.e
        cs = calls(self.p, e, name)
        if pick:
            cs = [c for c in cs if pick(c)]
        want = [(d, e.n(w)) for d, w in want]
        hit = [c for c in cs if all(w in c for d, w in want)]
        if not hit:
            if any(looped(y, w) for y in list(subterms(self.a)) + [z for c in cs for x in c for z in subterms(x)] for d, w in want):
                self.fail("~%s is done in a loop" % label)
            elif cs:
                c = cs[0]
                miss = [d for d, w in want if w not in c]
                self.fail("!%s is done with another %s: %s" % (label, ", ".join(miss), ", ".join(show(x) for x in c[1:])))
            elif self.res == "Ok" or self.a[0] == "call":
                self.fail("!%s is left out" % label)
            return None
        if len(cs) > len(hit) or len(set(map(tuple, hit))) > 1:
            self.fail("~%s is done more than once" % label)
        ct = ("call", name, tuple(hit[0]))
        r = e.N.vfacts.get(ct)
        if r is None:
            r = next((v for k, v in e.N.vfacts.items() if k[0] == "call" and k[1] == name and e.n(k) == ct), None)
        if r == frozenset(["Err"]):
            self.bad = self.bad or ct
        elif r is None and self.a != ct:
            # not decided: only fine if another one failed, or if it is passed on
            if self.res == "Ok":
                self.fail("!whether %s failed is not looked at" % label)
            else:
                self.fail("~")
        return ct

    def cond(self, label, holds):
        """an error is due if this holds (None: the path does not say)"""
        if holds:
            self.bad = self.bad or label
        elif holds is None and self.res == "Ok":
            self.fail("!%s is not asked" % label)

    def done(self, value=None, tail=None):
        if self.msg:
            return self.msg
        if self.bad is not None:
            if self.res == "Ok":
                return "!an error (%s) is not passed on" % (self.bad if isinstance(self.bad, str) else show(self.bad))
            return None if self.res == "Err" else ("~" + show(self.a))
        if tail is not None and self.a == tail:
            return None
        if self.res == "Err":
            return "!an error is reported although nothing failed: %s" % show(self.a)
        if value is None:
            return None if self.res == "Ok" else "~" + show(self.a)
        value = self.e.n(value)
        if self.a == ok(value):
            return None
        return "yields %s instead of %s" % (show(self.a), show(value))


def looped(y, w):
    """a member of a sequence which holds the term"""
    return y[0] in ("elem", "fold", "big") and contains_term(y[2] if y[0] == "big" else y[1], lambda z: z == w and z[0] != "arr") and contains_term(y, lambda z: z[0] == "arr")


def okv(ct):
    return ("fld", ct, RES + "::Ok", "0")


def wrap(e, p, f):
    """a predicate which normalises nothing further"""
    return ("pred", f)


def upctx(e, p, name, arg, var):
    """lookups about the text of the file: an include override belongs to the including file"""
    if var == "IncludeOverrides":
        t = e.n(cfld(cfld(SELF, var, "parent"), "Include", "parent"))
        want = ("call", name, (t,) + tuple(e.n(x) for x in arg))
        wrong = ("call", name, (e.n(cfld(SELF, var, "parent")),) + tuple(e.n(x) for x in arg))

        def f(e2, a):
            if a == want:
                return None
            return ("!" if a == wrong else "") + "an include override is looked up as %s" % show(a)
        return ("pred", f)
    return up(e, p, name, arg, var)


def anyfacts(p, e, head):
    return [(e.n(t), x) for (k, t), x in p.facts.items() if t[0] == "call" and t[1] == head]


# ------------------------------------------------------------------------------------- M05
def m05(prog, rep, tier):
    rep.rule("in an included file, a definition which the include overrides is dropped (and the override noted as used), any other goes to the including grammar; "
             "the overriding definition goes to the including grammar and is noted")
    rep.rule("an include loads the file named relative to the including one, passes on the inherited namespace, compiles every override - within divs too - before every "
             "declaration and item of the file, and is an error if the file is none of a grammar, includes itself, or lacks an overridden name")
    rep.rule("a file is loaded and parsed once and remembered under its own name; the outermost file's pattern is its start")
    R = Roles(prog, rep, CRATE)
    for nm in ("Context::define", "Context::new_include", "Context::check_include", "Compiler::compile_include", "Compiler::compile_schema",
               "Compiler::get_schema", "Compiler::compile_define", "Compiler::compile_pattern"):
        R.get(nm.rsplit("::", 1)[1], nm)
    R.get("inherit_namespace", "Compiler::inherit_namespace", optional=True)
    R.get("compile_declaration", "Compiler::compile_declaration")
    inc_one, inc_seq = handlers(prog, SY + "IncludeContent")
    gr_one, gr_seq = handlers(prog, SY + "GrammarContent")
    if "define" in R:
        m05_define(prog, rep, R)
    if "check_include" in R:
        m05_check_include(prog, rep, R)
    if "new_include" in R and "check_include" in R:
        m05_new_include(prog, rep, R)
    if "get_schema" in R:
        m05_get_schema(prog, rep, R)
    if "compile_schema" in R:
        m05_schema(prog, rep, R, gr_one, gr_seq)
    if "compile_include" in R:
        m05_include(prog, rep, R, inc_one, inc_seq)
    items(prog, rep, R, SY + "IncludeContent", inc_one, inc_seq, {"Define": "compile_define"}, [R["compile_include"]] if "compile_include" in R else [])
    items(prog, rep, R, SY + "GrammarContent", gr_one, gr_seq, {"Define": "compile_define", "Include": "compile_include"}, [])
    m05_external(prog, rep, R)
    m05_plain(prog, rep)


def m05_define(prog, rep, R):
    fn = R["define"]
    vf, C = mk(prog, [fn])
    A = args(fn, rep, rule=r"DefineRule$", id=r"^str$")
    if not A:
        return
    df = R.name("define")

    def spec(e, p):
        v = e.variant(SELF, CTX)
        if p.kind == "panic":
            return ("any",)
        if v == "Include":
            tab = e.n(("cell", cfld(SELF, v, "overrides")))
            got = e.n(("call", "map:get", (tab, A["id"])))
            par = e.n(cfld(SELF, v, "parent"))
            on = ("call", df, (par, e.n(A["id"]), e.n(A["rule"])))
            if e.variant(got, OPT) == "None":
                return ("pred", lambda e2, a: None if a == on else ("!a definition which is not overridden is dropped" if okres(a, e2) == "Ok" and not calls(p, e2, df)
                                                                     else "a definition which is not overridden yields %s" % show(a)))

            def f(e2, a):
                if calls(p, e2, df):
                    return "!a definition which is overridden is kept"
                r = iskind("Ok")[1](e2, a)
                if r:
                    return r
                ent = fld(got, OPT, "Some", 0)
                x = final(p, e2, ent)
                if x is None or x == e2.n(ent):
                    y = final(p, e2, ("fld", ent, "tuple", "1"))
                    return None if y == TRUE else "!the override is not noted as used" if y in (e2.n(("fld", ent, "tuple", "1")), None) and not inserts(p, e2) else "~"
                y = e2.n(("fld", x, "tuple", "1"))
                return None if y == TRUE else "!the override is noted as %s" % show(y)
            return ("pred", f)
        if v == "IncludeOverrides":
            inc = e.n(cfld(SELF, v, "parent"))
            if e.variant(inc, CTX) != "Include":
                return ("any",)
            tab = e.n(("cell", cfld(inc, "Include", "overrides")))
            par = e.n(cfld(inc, "Include", "parent"))
            on = ("call", df, (par, e.n(A["id"]), e.n(A["rule"])))
            known = e.variant(e.n(("call", "map:get", (tab, A["id"]))), OPT) == "Some"

            def g(e2, a):
                if a != on:
                    return ("!an overriding definition is dropped" if okres(a, e2) == "Ok" and not calls(p, e2, df) else
                            "!an overriding definition is given to %s" % show(calls(p, e2, df)[0][0]) if calls(p, e2, df) and calls(p, e2, df)[0][0] == inc else
                            "an overriding definition yields %s" % show(a))
                i = [x for x in inserts(p, e2) if x[0] == tab]
                if known:
                    return None
                if not i:
                    return "!an override is not noted"
                if i[0][1] != e2.n(A["id"]):
                    return "!an override is noted as %s" % show(i[0][1])
                used = e2.n(("fld", i[0][2], "tuple", "1"))
                return None if used == FALSE else "!an override is noted as used already"
            return ("pred", g)
        return ("any",)
    rep.merge(fn, C.check(fn, spec))


def m05_check_include(prog, rep, R):
    fn = R["check_include"]
    vf, C = mk(prog, [fn])
    arg = [("arg", n) for n in fn.argnames()[1:]]
    file = argof(fn, r"codemap::File|\bFile\b|Arc<")

    def spec(e, p):
        v = e.variant(SELF, CTX)
        if v == "Root":
            return iskind("Ok")
        if v == "Include":
            same = e.true(("eq", ("call", "codemap::File::name", (file,)), ("call", "codemap::File::name", (cfld(SELF, v, "file"),)))) if file else None
            if same:
                return wanterr("RecursiveInclude")
            par = cfld(SELF, v, "parent")
            on = e.n(par)
            if p.facts and e.variant(par, CTX) not in (None, "Root") and not calls(p, e, shortname(fn.path)) and \
                    not any(k[0] == "b" and contains_term(e.n(k[1]), lambda y: y == on) for k in p.facts):
                return ("pred", lambda e2, a: "!a file is not looked for in what includes the including file" if okres(a, e2) == "Ok" else "~")
        return up(e, p, shortname(fn.path), arg, v)
    rep.merge(fn, C.check(fn, spec))


def m05_new_include(prog, rep, R):
    fn = R["new_include"]
    vf, C = mk(prog, [R["check_include"]] + named(prog, ["default_namespace_uri"]))
    arg = [("arg", n) for n in fn.argnames()[1:]]
    file = argof(fn, r"codemap::File|\bFile\b|Arc<")

    def spec(e, p):
        def f(e2, a):
            N = Need(e2, p, a)
            N.call("the check for a file including itself", R.name("check_include"), [("context", SELF), ("file", file)])
            m = N.done()
            if m or okres(a, e2) != "Ok":
                return m
            if a[0] != "adt":
                return "~"
            x = dict(a[3])["0"]
            if x[0] != "adt" or x[2] != "Include":
                return "!the included file is compiled in a context of kind %s" % (x[2] if x[0] == "adt" else show(x))
            fs = dict(x[3])
            if fs["parent"] != e2.n(SELF):
                return "!the included file is compiled within %s" % show(fs["parent"])
            if fs["file"] != e2.n(file):
                return "!the included file is compiled as %s" % show(fs["file"])
            if fs["overrides"] != e2.n(("call", "newmap", ())):
                return "~overrides %s" % show(fs["overrides"])
            return None
        return ("pred", f)
    rep.merge(fn, C.check(fn, spec))


def m05_get_schema(prog, rep, R):
    fn = R["get_schema"]
    vf, C = mk(prog, named(prog, ["load", "parse"]))
    name = argof(fn, r"Path$")
    if name is None:
        rep.unknown("files are named otherwise")
        return

    def spec(e, p):
        gets = [(t, x) for (k, t), x in p.facts.items() if k == "v" and t[0] == "call" and t[1] == "map:get"]

        def f(e2, a):
            hit = [(t, x) for t, x in gets if e2.n(t[2][1]) == e2.n(name)]
            i = inserts(p, e2)
            if not hit:
                for (k, t), x in p.facts.items():
                    if k == "v" and t[0] == "call" and t[1] == "iter:find" and contains_term(t[2][0], lambda y: y[0] == "fld" and y[3] == "loaded"):
                        lam = e2.n(t[2][1])
                        key = ("fld", ("lv", 0, 0), "tuple", "0")
                        same = lam[0] == "lam" and len(lam[3]) == 1 and not lam[3][0][0] and lam[3][0][2] in (mkeq(key, e2.n(name)), mkeq(e2.n(name), key))
                        if not same:
                            return "!a file counts as loaded already by %s" % show(lam)
                return "~" if gets else "~files are always loaded again"
            t, x = hit[0]
            if x == frozenset(["Some"]):
                ent = e2.n(fld(t, OPT, "Some", 0))
                if a == ok(ent) or a == ok(e2.n(("tup", (("fld", ent, "tuple", "0"), ("fld", ent, "tuple", "1"))))):
                    return None
                return "a file loaded before gives %s" % show(a)
            ld = [ev for ev in p.events if ev[0] == "call" and (ev[1].endswith("::load") or ev[1].endswith("Files::load"))]
            if not ld:
                return "!a file is not loaded" if okres(a, e2) == "Ok" else "~"
            la = [e2.n(y) for y in ld[0][2]]
            if e2.n(name) not in la:
                return "!the file loaded is %s" % show(la[-1])
            if okres(a, e2) == "Err":
                return "!a file which could not be used is remembered" if i else None
            if okres(a, e2) != "Ok" or a[0] != "adt":
                return "~" + show(a)
            v = dict(a[3])["0"]
            if not i:
                return "~not remembered"
            if i[0][1] != e2.n(name):
                return "!a file is remembered as %s" % show(i[0][1])
            if i[0][2] != v and e2.n(i[0][2]) != v:
                return "!of a file %s is remembered" % show(i[0][2])
            return None
        return ("pred", f)
    rep.merge(fn, C.check(fn, spec))


def inorder(p, first, then):
    """every call of 'first' comes before the first call of 'then'"""
    a = [i for i, ev in enumerate(p.events) if ev[0] == "call" and ev[1] in first]
    b = [i for i, ev in enumerate(p.events) if ev[0] == "call" and ev[1] in then]
    return not a or not b or max(a) < min(b)


def loopdone(p, e, S):
    """'all' if a loop over exactly S was left at its end, 'part' if members were skipped, None if there is none"""
    ls = sources(p, e)
    S = e.n(S)
    for s, done in ls:
        if unseq(s) == S and done:
            return "all"
        if partial(s, S):
            return "part"
    for (k, t), x in p.facts.items():
        if contains_term(t, lambda y: y == S) and not (k == "v" and e.n(t) == S):
            return "other"
    return None


def each(prog, rep, C, fn, parts, S, name, what, argw, before=()):
    """the body of the loop over S calls 'name' for each member and passes errors on"""
    found = 0
    folds = fold_loops(parts)
    for p in parts:
        N = C.norm(fn, folds)
        if not N.add_facts(p.facts):
            continue
        e = Env(prog, N, [])
        SS = e.n(S)
        if p.kind != "back":
            continue
        if before and calls(p, e, name) and not inorder(p, [name], before):
            rep.bad(fn.path, "%s at %s: %s comes after what it applies to" % (shortname(fn.path), prog.pos(fn.sp), what))
            continue
        cur = [s for s, done in sources(p, e) if not done and unseq(s) == SS]
        if not cur:
            continue
        found += 1
        cs = [c for c in calls(p, e, name) if any(contains_term(x, lambda y: y[0] == "elem" and unseq(y[1]) == SS) for x in c)]
        where = "%s at %s" % (shortname(fn.path), prog.pos(fn.sp))
        if not cs:
            rep.bad(fn.path, "%s: %s is skipped" % (where, what))
            continue
        miss = [d for d, w in argw if e.n(w) not in cs[0]]
        if miss:
            rep.bad(fn.path, "%s: %s is compiled with another %s" % (where, what, ", ".join(miss)))
            continue
        r = e.N.vfacts.get(("call", name, tuple(cs[0])))
        rep.expect(r == frozenset(["Ok"]), fn.path, "%s: an error in %s is passed over" % (where, what), "%s is compiled" % what)
    return found


def m05_schema(prog, rep, R, one, seq):
    fn = R["compile_schema"]
    hs = [f for f, i in one + seq]
    hn = [shortname(f.path) for f in hs]
    vf, C = mk(prog, hs + [R[x] for x in ("compile_declaration", "compile_pattern", "define") if x in R] + named(prog, ["file", "convert_span"]))
    A = args(fn, rep, ctx=r"Context", schema=r"Rc<.*Schema>|Schema$")
    if not A:
        return
    ctx = A["ctx"]
    sc = lambda n: fld(A["schema"], SY + "Schema", "Schema", n)
    try:
        parts = vf.summarize(fn)
    except Budget as ex:
        rep.unknown(str(ex))
        return
    decls = sc("decls")
    n = each(prog, rep, C, fn, parts, decls, R.name("compile_declaration"), "a declaration", [("context", ctx)], hn + [R.name("compile_pattern")])
    PG = SY + "PatternOrGrammar"

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)
        pg = e.n(sc("pattern_or_grammar"))
        # has an error in a declaration ended it?
        dc = calls(p, e, R.name("compile_declaration"))
        if any(e.N.vfacts.get(("call", R.name("compile_declaration"), tuple(c))) == frozenset(["Err"]) for c in dc):
            return iskind("Err")
        k = e.variant(pg, PG)
        inc = e.variant(ctx, CTX) == "Include"
        pat = e.n(fld(pg, PG, "Pattern", 0))
        gram = fld(pg, PG, "Grammar", 0)
        if k == "Pattern" and inc:
            if e.variant(pat, SP) != "Grammar":
                return wanterr("IncludedFileMustBeGrammar")
            gram = fld(pat, SP, "Grammar", 0)

        def f(e2, a):
            d = loopdone(p, e2, decls)
            if okres(a, e2) == "Ok" or a[0] == "call":
                if d == "part":
                    return "!some declarations are left out"
                D = e2.n(decls)
                if d is None and not calls(p, e2, R.name("compile_declaration")) and not any(
                        ev[0] == "call" and any(e2.n(x) == D for x in ev[2]) for ev in p.events):
                    return "!the declarations are left out"
            if not inorder(p, [R.name("compile_declaration")], hn + [R.name("compile_pattern")]):
                return "!declarations come after what they apply to"
            N = Need(e2, p, a)
            if k == "Grammar" or inc:
                cont = e2.n(fld(gram, SY + "GrammarPattern", "GrammarPattern", "content"))
                h = [x for x in hn if calls(p, e2, x)]
                if not h:
                    return "!the grammar is left out" if okres(a, e2) == "Ok" else "!a grammar is refused" if a[0] == "adt" else "~"
                ct = N.call("the grammar", h[0], [("context", ctx), ("content", cont)])
                return N.done(tail=ct) if okres(a, e2) != "Ok" or N.msg or N.bad is not None else None
            ct = N.call("the pattern", R.name("compile_pattern"), [("context", ctx), ("pattern", pat)])
            if N.msg or N.bad is not None or ct is None:
                return N.done()
            ds = calls(p, e2, R.name("define"))
            if not ds:
                return "!the pattern does not become the start" if okres(a, e2) == "Ok" else "~"
            if ds[0][1] != ("str", "start"):
                return "!the pattern becomes the definition of %s" % show(ds[0][1])
            rule = ds[0][-1]
            if rule[0] != "adt" or dict(rule[3])["2"] != e2.n(okv(ct)):
                return "the start is %s" % show(rule)
            if rule[2] != "AssignCombine" or dict(rule[3])["1"] != NONE:
                return "!the start is defined as %s" % show(rule)
            dt = N.call("the definition of start", R.name("define"), [("context", ctx)])
            return N.done(tail=dt) if okres(a, e2) != "Ok" or N.msg or N.bad is not None else None
        return ("pred", f)
    rep.merge(fn, C.check_parts(fn, parts, spec, kinds=("ret", "exit")))


def m05_include(prog, rep, R, one, seq):
    fn = R["compile_include"]
    hs = [f for f, i in one + seq]
    hn = [shortname(f.path) for f in hs]
    keep = hs + [R[x] for x in ("compile_define", "compile_schema", "new_include", "inherit_namespace", "get_schema") if x in R]
    vf, C = mk(prog, keep + lits(prog) + plainers(prog) + named(prog, ["file", "convert_span"]))
    A = args(fn, rep, ctx=r"Context", inc=r"types::Include$")
    if not A:
        return
    ctx, inc = A["ctx"], A["inc"]
    ig = lambda i: fld(inc, SY + "Include", "Include", i)
    try:
        parts = vf.summarize(fn)
    except Budget as ex:
        rep.unknown(str(ex))
        return
    S = fld(ig(2), OPT, "Some", 0)
    included(prog, rep, R, C, fn, parts, ctx, ig(0), ig(1), schema_done(prog, rep, R, C, fn, parts, S, ctx, hn))


def plainers(prog):
    """the functions which make another path of a path"""
    return [f for f in prog.fns.values() if f.crate == CRATE and "{closure" not in f.path and len(f.argtypes()) == 1
            and re.fullmatch(r"(&\s*('?\w+\s+)?)?(std::path::)?Path(Buf)?", f.argtypes()[0].strip())
            and re.search(r"\bPath(Buf)?\b", str(f.sig[-1] if isinstance(f.sig, (list, tuple)) else f.sig).rsplit("->", 1)[-1])]


COMPONENT = "std::path::Component"


def m05_plain(prog, rep):
    """What is made of a path names the same file without the parts '.' and '..': every other part stays, in order,
    and '..' takes away the one before, if there is one which can be taken away."""
    for fn in plainers(prog):
        rep.functions.add(fn.path)
        vf, C = mk(prog, [])
        try:
            parts = vf.summarize(fn)
        except Budget as ex:
            rep.unknown(str(ex))
            continue
        me = ("arg", fn.argnames()[0])
        part = None
        for p in parts:
            for k in p.facts:
                for y in subterms(k[1]):
                    if y[0] == "elem" and y[1][0] == "call" and y[1][1].rsplit("::", 1)[-1] == "components" and y[1][2] == (me,):
                        part = y
        if part is None:
            rep.unknown("%s does not go through the parts of the path" % shortname(fn.path))
            continue
        ALL = frozenset(["Prefix", "RootDir", "CurDir", "ParentDir", "Normal"])
        for p in parts:
            if p.kind != "back":
                continue
            kinds = ALL
            last, before = ALL, frozenset(["None", "Some"])
            odd = []
            for (k, t), v in p.facts.items():
                if k == "v" and t == part:
                    kinds = kinds & frozenset(v)
                elif k == "v" and t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("next_back", "last"):
                    before = before & frozenset(v)
                elif k == "v" and t[0] == "fld" and t[1][0] == "call" and t[1][1].rsplit("::", 1)[-1] in ("next_back", "last"):
                    last = last & frozenset(v)
                elif not (k == "b" and t[0] == "more"):
                    odd.append(t)
            did = [(e[1].rsplit("::", 1)[-1], e[2][1:]) for e in p.events if e[0] == "call" and e[1].rsplit("::", 1)[-1] in ("push", "pop")]
            other = [e for e in p.events if e[0] == "call" and e[1].rsplit("::", 1)[-1] not in ("push", "pop", "next_back", "components", "last", "next")]
            key = "%s:%s" % (shortname(fn.path), "+".join(sorted(kinds)))
            if odd or other or [d for d in did if d[0] == "push" and not contains_term(d[1], lambda y: y == part)] or len(did) > 1:
                rep.unknown("%s: what becomes of a part is decided by %s" % (shortname(fn.path), show((odd or other or [part])[0])))
                continue
            act = did[0][0] if did else None
            can = "Some" in before and "Normal" in last
            must = before == frozenset(["Some"]) and last == frozenset(["Normal"])
            if "CurDir" in kinds and act == "pop" or kinds - {"CurDir", "ParentDir"} and act != "push":
                rep.bad(key, "%s: a part of the name of the file is lost (%s, of a part which is %s)" % (shortname(fn.path), act or "nothing is done", "/".join(sorted(kinds))))
            elif "CurDir" in kinds and act == "push":
                rep.unknown("%s: '.' stays in the name of the file" % shortname(fn.path))
            elif "ParentDir" in kinds and act == "push" and can:
                rep.bad(key, "%s: '..' stays in the name of the file after a part which it takes away" % shortname(fn.path))
            elif "ParentDir" in kinds and act == "pop" and not must:
                rep.bad(key, "%s: '..' is lost with nothing before it to take away" % shortname(fn.path))
            elif "ParentDir" in kinds and act is None:
                rep.bad(key, "%s: '..' is left out" % shortname(fn.path))
            else:
                rep.good(key)


def included(prog, rep, R, C, fn, parts, ctx, href, inherit, rest):
    """what include and external have in common: load, new context, inherited namespace"""
    fl = "Context::file"
    plain = {shortname(f.path) for f in plainers(prog)}

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)

        def f(e2, a):
            N = Need(e2, p, a)
            gs = calls(p, e2, R.name("get_schema"))
            here = ("call", "codemap::File::name", (("call", fl, (ctx,)),))
            dirof = ("call", "std::path::Path::parent", (here,))
            # a file without a directory (its name is empty, or the root): relative to that name
            path = e2.n(("call", "std::path::Path::join", (here if e2.variant(e2.n(dirof), OPT) == "None" else ("fld", dirof, OPT + "::Some", "0"),
                                                           ("call", "Literal::as_string_value", (href,)))))
            if gs:
                q = gs[0][-1]
                base = e2.n(("call", "codemap::File::name", (("call", fl, (ctx,)),)))
                lit = e2.n(("call", "Literal::as_string_value", (href,)))
                hit = [y for y in subterms(q) if y[0] == "call" and y[1] in plain]
                if len(hit) == 1 and q == hit[0]:
                    q = q[2][0]
                elif q == path or [y for y in hit if y[2] == (e2.n(lit),) or y[2] == (("call", "std::path::Path::new", (lit,)),)]:
                    return "!the name of the file keeps its '.' and '..' parts, so that a file which refers to itself as dir/../itself is never recognised: %s" % show(q)
                if not contains_term(q, lambda y: y == lit):
                    return "!the file loaded is %s" % show(q)
                if contains_term(q, lambda y: y[0] == "call" and y[1].rsplit("::", 1)[-1] in ("file_name", "file_stem", "with_extension") and contains_term(y, lambda z: z == lit)):
                    return "!!part of the path is lost: %s" % show(q)
                if not contains_term(q, lambda y: y == base):
                    return "!the name of the file is not resolved against the referring file: %s" % show(q)
                if q != path or not hit:
                    return "~the file loaded is %s" % show(gs[0][-1])
            g = N.call("loading the file", R.name("get_schema"), [])
            if N.msg or g is None or N.bad is not None:
                return N.done()
            file = e2.n(("fld", okv(g), "tuple", "0"))
            sch = e2.n(("fld", okv(g), "tuple", "1"))
            nc = N.call("the check for a file including itself", R.name("new_include"), [("context", ctx), ("file", file)])
            if N.msg or nc is None or N.bad is not None:
                return N.done()
            ictx = e2.n(okv(nc))
            if e2.variant(inherit, OPT) == "Some" and "inherit_namespace" in R:
                N.call("the inherited namespace", R.name("inherit_namespace"), [("context", ctx), ("prefix", fld(inherit, OPT, "Some", 0))])
                if N.msg or N.bad is not None:
                    return N.done()
            elif "inherit_namespace" in R and calls(p, e2, R.name("inherit_namespace")):
                return "~"
            return rest(e2, p, a, N, ictx, sch)
        return ("pred", f)
    rep.merge(fn, C.check_parts(fn, parts, spec, kinds=("ret", "exit")))


def schema_done(prog, rep, R, C, fn, parts, S, ctx, hn):
    cd, cs = R.name("compile_define"), R.name("compile_schema")
    over = [x for x in hn if x != shortname(fn.path)]

    def isover(x):
        return x[0] == "adt" and x[1] == CTX and x[2] == "IncludeOverrides"

    def rest(e2, p, a, N, ictx, sch):
        opt = e2.n(S[1])
        if e2.variant(opt, OPT) == "Some":
            failed = [c for h in over + [cd] for c in calls(p, e2, h) if e2.N.vfacts.get(("call", h, tuple(c))) == frozenset(["Err"])]
            for h in over + [cd]:
                for c in calls(p, e2, h):
                    x = [y for y in c if isover(y)]
                    if not x:
                        return "!an override is compiled in the context %s" % show(c[1])
                    if dict(x[0][3])["parent"] != ictx:
                        return "~override context %s" % show(x[0])
            if failed:
                return iskind("Err")[1](e2, a)
            whole = [h for h in over if any(e2.n(S) in c for c in calls(p, e2, h))]
            if not whole:
                d = loopdone(p, e2, S)
                if d == "part":
                    return "!some overrides are left out"
                if d is None and okres(a, e2) == "Ok":
                    return "!the overrides are left out"
        if not inorder(p, over + [cd] + ([R.name("inherit_namespace")] if "inherit_namespace" in R else []), [cs]):
            return "!the included file is compiled before what applies to it"
        N.call("the included file", cs, [("context", ictx), ("schema", sch)])
        if N.msg or N.bad is not None:
            return N.done()
        if e2.variant(opt, OPT) != "Some":
            pass
        # every override was used
        v = used(p, e2)
        if v == "no":
            return iskind("Err")[1](e2, a)
        if okres(a, e2) == "Err":
            return "~" + show(a)
        if v == "yes":
            return N.done()
        if v in ("part", "weak"):
            return "!!some overrides of names the included file does not define are accepted"
        if v == "loop":
            return None if looped[0] else "~"
        if v is None:
            return "!overrides of names the included file does not define are accepted"
        return "~"

    isov = lambda s: any(y[0] == "fld" and y[3] == "overrides" and y[2].startswith(CTX) for y in subterms(s))
    looped = [False]
    folds = fold_loops(parts)
    for p in parts:
        N = C.norm(fn, folds)
        if p.kind == "back" and not inorder(p, over + [cd], [cs]):
            rep.bad(fn.path, "%s at %s: overrides are compiled after the included file" % (shortname(fn.path), prog.pos(fn.sp)))
        if p.kind == "back" and N.add_facts(p.facts) and any(k == "b" and t[0] == "more" and t[1][0] == "loop" and isov(t[1][3]) for (k, t) in p.facts):
            fl = [(t, x) for (k, t), x in p.facts.items() if k == "b" and contains_term(t, lambda y: y[0] == "elem" and isov(y))]
            looped[0] = any(x is True for t, x in fl)

    def used(p, e2):
        for (k, t), x in p.facts.items():
            if k == "v" and t[0] == "call" and t[1] == "iter:find" and isov(t[2][0]):
                lam = e2.n(t[2][1])
                w = "exact"
                for c in lam[3] if lam[0] == "lam" else ():
                    val = c[2]
                    if val[0] == "not" and val[1][0] == "fld" and val[1][3] == "1":
                        continue
                    if val == FALSE or val[0] == "and":
                        w = "weak"
                        continue
                    return "~"
                if any(y[0] == "call" and y[1] in ("iter:skip", "iter:take", "iter:filter") for y in subterms(t[2][0])):
                    return "part"
                return "no" if x == frozenset(["Some"]) else "yes" if w == "exact" else "weak"
            if k == "b" and t[0] == "more" and t[1][0] == "loop" and isov(t[1][3]):
                return "loop" if x is False else "~"
            if isov(t) and t[0] == "call" and t[1].startswith("iter:"):
                return "~"
        return None
    return rest


def items(prog, rep, R, elem, one, seq, leaf, also):
    """every item of a grammar or an override block is compiled: definitions, includes, and the members of divs"""
    hs = [f for f, i in one + seq]
    hn = [shortname(f.path) for f in hs]
    if not hs and not also:
        rep.bad("anchor:" + elem, "nothing handles the items of type %s any more" % elem)
        return
    keep = hs + [R[x] for x in R.m if x not in ("define",)]
    fns = [(f, f.argnames()[i], False) for f, i in one] + [(f, f.argnames()[i], True) for f, i in seq] + [(f, None, True) for f in also]
    for fn, an, many in fns:
        rep.functions.add(fn.path)
        vf, C = mk(prog, [f for f in keep if f is not fn or fn not in also] + lits(prog) + named(prog, ["file", "convert_span"]))
        ctx = argof(fn, r"Context")
        if ctx is None:
            rep.unknown("%s works in another context" % shortname(fn.path))
            continue
        try:
            parts = vf.summarize(fn)
        except Budget as ex:
            rep.unknown(str(ex))
            continue
        S = ("arg", an) if an else None

        def item(e, p, it, a, back):
            """what has to be done with one item"""
            k = e.variant(it, elem)
            if k == "Annotation":
                return None
            x = e.n(fld(it, elem, k, 0))
            if k in leaf:
                want, nm = [x], [R.name(leaf[k])] if leaf[k] in R else []
            elif k == "Div":
                want, nm = [x], hn
            else:
                return "~an item of kind %s" % k
            cs = [(h, c) for h in nm for c in calls(p, e, h) if want[0] in c]
            if not cs:
                # a div may be gone through right here
                if k == "Div" and loopdone(p, e, x) in ("all", "other"):
                    return "~"
                if k == "Div" and [h for h in nm for c in calls(p, e, h) if any(contains_term(y, lambda z: z == x) for y in c)]:
                    return "~"
                return "!an item of kind %s is passed over" % k if back or okres(a, e) == "Ok" else "~"
            h, c = cs[-1]
            cx = c[1]
            if cx != e.n(ctx) and not (cx[0] == "adt" and cx[2] == "IncludeOverrides") and not (cx[0] in ("accv", "fold")):
                return "~in the context %s" % show(cx)
            ct = ("call", h, tuple(c))
            r = e.N.vfacts.get(ct)
            if back:
                return None if r == frozenset(["Ok"]) else "!an error in an item of kind %s is passed over" % k
            if a == ct:
                return None
            if r is None:
                return "!an error in an item of kind %s is passed over" % k if okres(a, e) == "Ok" else "~"
            return iskind(next(iter(r)))[1](e, a)

        def spec(e, p):
            if p.kind == "panic":
                return ("any",)
            if not many:
                e.variant(S, elem)
                return ("pred", lambda e2, a: item(e2, p, S, a, False))
            if fn in also:
                # the loop over the overrides
                cur = [s for s, done in sources(p, e) if not done and isitems(s)]
                if p.kind != "back" or not cur:
                    return ("any",)
                el = [t for k in p.facts for t in subterms(k[1]) if t[0] == "elem" and isitems(e.n(t[1]))]
                if not el:
                    return ("pred", lambda e2, a: "~")
                e.variant(el[0], elem)
                return ("pred", lambda e2, a: item(e2, p, el[0], a, True))
            SS = e.n(S)

            def f(e2, a):
                ls = sources(p, e2)
                mine = [(s, d) for s, d in ls if unseq(s) == SS]
                if p.kind == "back":
                    if not mine:
                        return "!some items are left out" if any(partial(s, SS) for s, d in ls) else "~"
                    el = [t for k in p.facts for t in subterms(e2.n(k[1])) if t[0] == "elem" and unseq(t[1]) == SS]
                    el = el or [t for ev in p.events if ev[0] == "call" for x in ev[2] for t in subterms(e2.n(x)) if t[0] == "elem" and unseq(t[1]) == SS]
                    if not el:
                        return "!items are passed over"
                    cs = [(h, c) for h in hn for c in calls(p, e2, h) if el[0] in c]
                    if cs:
                        r = e2.N.vfacts.get(("call", cs[-1][0], tuple(cs[-1][1])))
                        return None if r == frozenset(["Ok"]) else "!an error in an item is passed over"
                    return item(e2, p, el[0], a, True)
                if okres(a, e2) == "Err" or a[0] == "call":
                    return None
                if any(d for s, d in mine):
                    return None
                if any(partial(s, SS) for s, d in ls):
                    return "!some items are left out"
                if mine and p.kind == "ret" and okres(a, e2) == "Ok" and not [1 for k in p.facts if k[0] == "sw" or k[0] == "b" and k[1][0] != "more"]:
                    return "!the items after one are left out"
                if not ls and not [1 for k in p.facts if contains_term(k[1], lambda y: y == SS)]:
                    return "!the items are left out"
                return "~"
            return ("pred", f)

        def isitems(s):
            return any(y[0] == "fld" and y[2] == SY + "Include::Include" and y[3] == "2" for y in subterms(s))
        rep.merge(fn, C.check_parts(fn, parts, spec, kinds=("ret", "back", "exit")))


def m05_external(prog, rep, R):
    fn = prog.find("Compiler::compile_external", CRATE)
    if fn is None:
        rep.bad("anchor:Compiler::compile_external", "Compiler::compile_external is no longer there")
        return
    rep.functions.add(fn.path)
    one, seq = handlers(prog, SY + "GrammarContent")
    hn = [shortname(f.path) for f, i in one + seq]
    keep = [f for f, i in one + seq] + [R[x] for x in ("new_include", "inherit_namespace", "get_schema", "compile_declaration", "compile_pattern") if x in R]
    vf, C = mk(prog, keep + lits(prog) + plainers(prog) + named(prog, ["file", "convert_span"]))
    A = args(fn, rep, ctx=r"Context", ext=r"types::ExternalPattern$")
    if not A:
        return
    ctx, ext = A["ctx"], A["ext"]
    g = lambda i: fld(ext, SY + "ExternalPattern", "ExternalPattern", i)
    try:
        parts = vf.summarize(fn)
    except Budget as ex:
        rep.unknown(str(ex))
        return
    PG = SY + "PatternOrGrammar"
    cd, cp = R.name("compile_declaration"), R.name("compile_pattern")

    def rest(e2, p, a, N, ictx, sch):
        decls = e2.n(fld(sch, SY + "Schema", "Schema", "decls"))
        pg = e2.n(fld(sch, SY + "Schema", "Schema", "pattern_or_grammar"))
        failed = [c for c in calls(p, e2, cd) if e2.N.vfacts.get(("call", cd, tuple(c))) == frozenset(["Err"])]
        if failed:
            return iskind("Err")[1](e2, a)
        d = loopdone(p, e2, decls)
        used = calls(p, e2, cp) or [c for h in hn for c in calls(p, e2, h)]
        if used and d is None and not calls(p, e2, cd):
            return "!the declarations of an external file are left out"
        if used and d == "part":
            return "!some declarations of an external file are left out"
        k = e2.variant(pg, PG)
        if k == "Grammar":
            return None          # M02, M04
        c = calls(p, e2, cp)
        if not c:
            return "!the external pattern is left out" if okres(a, e2) == "Ok" else "~"
        c = c[0]
        if e2.n(fld(pg, PG, "Pattern", 0)) not in c:
            return "!the external pattern is %s" % show(c[-1])
        cx = [x for x in c if contains_term(x, lambda y: y == ictx)]
        if not cx:
            return ("!" if e2.n(ctx) in c else "~") + "an external pattern is compiled in the context %s" % show(c[1])
        ct = ("call", cp, tuple(c))
        r = e2.N.vfacts.get(ct)
        if a == ct:
            return None
        if r == frozenset(["Err"]):
            return iskind("Err")[1](e2, a)
        return None if a == ok(e2.n(okv(ct))) else "an external pattern yields %s" % show(a)
    included(prog, rep, R, C, fn, parts, ctx, g(0), g(1), rest)


# ------------------------------------------------------------------------------------- M06
ONEARG = {"List": "0", "Mixed": "0", "Optional": None, "ZeroOrMore": None, "OneOrMore": None}
PAIRS = {"ListPair": "Group", "InterleavePair": "Interleave", "ChoicePair": "Choice"}
ONETYPE = {"List": "ListPattern", "Mixed": "MixedPattern"}


def m06(prog, rep, tier):
    rep.rule("each kind of pattern of the syntax tree becomes the same construct of the model, of the compiled form of the same parts, in their order, in the same context "
             "(for elements and attributes: one which notes that); an error in a part, a name or a reference is passed on and no other is made")
    rep.rule("an element written within an attribute, however deep, is an error; the walk to the enclosing attribute goes through every context up to the grammar")
    R = Roles(prog, rep, CRATE)
    R.get("compile_pattern", "Compiler::compile_pattern")
    for x in ("compile_nameclass", "compile_external", "compile_grammar_pattern", "compile_datatype_value_pattern", "compile_datatype_name_pattern"):
        R.get(x, "Compiler::" + x)
    for x in ("acquire_ref", "acquire_parent_ref", "parent_attribute"):
        R.get(x, "Context::" + x)
    if "parent_attribute" in R:
        fn = R["parent_attribute"]
        vf, C = mk(prog, [fn])

        def spec(e, p):
            v = e.variant(SELF, CTX)
            if v == "Root":
                return ("term", NONE)
            if v == "Grammar":
                return ("any",)
            if v == "Attribute":
                return ("term", some(cfld(SELF, v, "span")))
            return up(e, p, R.name("parent_attribute"), [], v)
        rep.merge(fn, C.check(fn, spec))
    if "compile_pattern" not in R:
        return
    fn = R["compile_pattern"]
    keep = [R[x] for x in R.m]
    vf, C = mk(prog, keep + lits(prog) + named(prog, ["file"]))
    A = args(fn, rep, ctx=r"Context", pat=r"types::Pattern$")
    if not A:
        return
    ctx, pat = A["ctx"], A["pat"]
    cp = R.name("compile_pattern")
    enum(prog, rep, SP)

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)
        k = e.variant(pat, SP)
        x = [fld(pat, SP, k, i) for i in range(2)]

        def f(e2, a):
            N = Need(e2, p, a)

            def part(t, c=None):
                return N.call("a part", cp, [("context", ctx if c is None else c), ("pattern", t)], pick=lambda q: e2.n(t) in q)
            if k in ("Empty", "Text", "NotAllowed"):
                return N.done(("adt", MPAT, k, ()))
            if k in ONEARG:
                t = x[0] if k not in ONETYPE else fld(x[0], SY + ONETYPE[k], ONETYPE[k], 0)
                ct = part(t)
                return N.done() if ct is None else N.done(("adt", MPAT, k, (("0", okv(ct)),)))
            if k == "Group":
                ct = part(x[0])
                return N.done() if ct is None else N.done(okv(ct), tail=ct)
            if k in PAIRS:
                K = PAIRS[k]
                c1 = part(x[0])
                if c1 is None or N.bad is not None:
                    if N.bad is not None or okres(a, e2) == "Ok":
                        return N.done()
                    N.msg = None
                    c2 = part(x[1])
                    return N.done()
                c2 = part(x[1])
                if c2 is None or N.bad is not None:
                    return N.done()
                if okres(a, e2) != "Ok" or a[0] != "adt":
                    return N.done(("adt", MPAT, K, ()))
                v = dict(a[3])["0"]
                if v[0] != "adt" or v[1] != MPAT:
                    return "yields %s" % show(v)
                if v[2] != K:
                    return "!a %s becomes %s" % (k, show(v))
                gm, wm = members(e2, [v], K), members(e2, [okv(c1), okv(c2)], K)
                if gm == wm:
                    return None
                return "!a %s has the members %s instead of %s" % (k, ", ".join(map(show, gm)), ", ".join(map(show, wm)))
            if k in ("Element", "Attribute"):
                ty = SY + k + "Pattern"
                pn = k + "Pattern"
                nm = fld(x[0], ty, pn, "name_class")
                body = fld(x[0], ty, pn, "pattern")
                sp = fld(x[0], ty, pn, "span")
                EA = CRATE + "::ElemAttr"
                kind = ("adt", EA, k, ()) if prog.variants(EA) else None
                cs = calls(p, e2, R.name("compile_nameclass"))
                nc = N.call("the name", R.name("compile_nameclass"), [("context", ctx), ("name class", nm)] + ([("kind", kind)] if kind else []))
                if k == "Element":
                    pa = calls(p, e2, R.name("parent_attribute"))
                    par = e2.n(("call", R.name("parent_attribute"), (ctx,)))
                    r = e2.N.vfacts.get(("call", R.name("parent_attribute"), (e2.n(ctx),)))
                    N.cond("whether it is within an attribute", None if r is None and okres(a, e2) == "Ok" else r == frozenset(["Some"]))
                if N.bad is not None:
                    if okres(a, e2) == "Err" and errkind(a) not in (None, "ElementAsChildOfAttribute"):
                        return "!the error is reported as %s" % errkind(a)
                    N.msg = None
                    return N.done()
                bs = calls(p, e2, cp)
                if not bs:
                    return N.done(("adt", MPAT, k, ()))
                cx = [y for y in bs[0] if y[0] == "adt" and y[1] == CTX]
                if not cx:
                    return ("!" if e2.n(ctx) in bs[0] else "~") + "the content of an %s is compiled in the context %s" % (k.lower(), show(bs[0][1]))
                fs = dict(cx[0][3])
                if cx[0][2] != k or fs["parent"] != e2.n(ctx):
                    return "!the content of an %s is compiled in the context %s" % (k.lower(), show(cx[0]))
                ct = part(body, cx[0])
                if N.msg or N.bad is not None or nc is None or ct is None:
                    return N.done()
                return N.done(("adt", MPAT, k, (("0", okv(nc)), ("1", okv(ct)))))
            if k in ("Identifier", "Parent"):
                h = R.name("acquire_ref" if k == "Identifier" else "acquire_parent_ref")
                other = R.name("acquire_parent_ref" if k == "Identifier" else "acquire_ref")
                if calls(p, e2, other):
                    return "!a reference of kind %s is looked up by %s" % (k, other)
                ct = N.call("the reference", h, [("context", ctx), ("name", x[0])])
                if N.msg or N.bad is not None or ct is None:
                    return N.done()
                if okres(a, e2) != "Ok" or a[0] != "adt":
                    return N.done(("adt", MPAT, "Ref", ()))
                v = dict(a[3])["0"]
                if v[0] != "adt" or v[2] != "Ref":
                    return "a reference yields %s" % show(v)
                fs = dict(v[3])
                if fs["2"] != e2.n(okv(ct)):
                    return "a reference is to %s" % show(fs["2"])
                if fs["1"] != e2.n(fld(x[0], SY + "Identifier", "Identifier", 1)):
                    return "!a reference is named %s" % show(fs["1"])
                return None
            h = {"External": "compile_external", "Grammar": "compile_grammar_pattern", "DatatypeValue": "compile_datatype_value_pattern",
                 "DatatypeName": "compile_datatype_name_pattern"}.get(k)
            if h is None:
                return "~a pattern of kind %s" % k
            if h not in R:
                return "~"
            ct = N.call("the %s pattern" % k, R.name(h), [("context", ctx), ("pattern", x[0])])
            return N.done() if ct is None else N.done(okv(ct), tail=ct)
        return ("pred", f)
    rep.merge(fn, C.check(fn, spec))


def enum(prog, rep, adt):
    """obligation per variant of the type: the reference definition below knows it"""
    known = set(ONEARG) | set(PAIRS) | set("Empty Text NotAllowed Group Element Attribute Identifier Parent External Grammar DatatypeValue DatatypeName".split())
    for v in prog.variants(adt) or []:
        v = v if isinstance(v, str) else v[0]
        if v not in known:
            rep.unknown("patterns of kind %s are not known to the analysis" % v)


# ------------------------------------------------------------------------------------- M07
XMLNS = "http://www.w3.org/XML/1998/namespace"
XSDNS = "http://www.w3.org/2001/XMLSchema-datatypes"
MNC = "relaxng_model::model::NameClass"
SNC = SY + "NameClass"


def mapof(t):
    """the entries of a map built by insertions, None if it is not known"""
    out = {}
    while t[0] == "upd" and t[1] == "map:insert":
        out.setdefault(t[2][1], t[2][2])
        t = t[2][0]
    if t[0] == "call" and t[1] == "newmap":
        return out
    return None


def m07(prog, rep, tier):
    rep.rule("each kind of name and name class becomes the same kind of the model with the same parts; an unprefixed element name is in the default namespace, an unprefixed "
             "attribute name in none, a prefixed one in the namespace of its prefix; an unknown prefix is an error")
    rep.rule("prefixes and the default namespace are looked up in the file which has the text (an override's is the including file), and 'inherit' is what the including file passes on")
    rep.rule("a declaration declares the given prefix with the given name, at most once with different names; only 'xml' is predefined")
    R = Roles(prog, rep, CRATE)
    for x in ("compile_nameclass", "compile_declaration", "inherit_namespace"):
        R.get(x, "Compiler::" + x)
    for x in ("default_namespace_uri", "namespace_uri_for_prefix", "namespace_uri_for_prefix_str", "declare_default_namespace", "declare_namespace", "new_include", "new"):
        R.get(x, "Context::" + x)
    R.get("declare_datatype", "Context::declare_datatype", optional=True)
    R.get("check_include", "Context::check_include", optional=True)
    if "compile_nameclass" in R:
        m07_nameclass(prog, rep, R)
    if "compile_declaration" in R:
        m07_declaration(prog, rep, R)
    for x in ("default_namespace_uri", "namespace_uri_for_prefix_str"):
        if x in R:
            m07_lookup(prog, rep, R, R[x])
    if "namespace_uri_for_prefix" in R:
        fn = R["namespace_uri_for_prefix"]
        vf, C = mk(prog, [R[x] for x in R.m if x == "namespace_uri_for_prefix_str"] + named(prog, ["file"]))
        pf = argof(fn, r"NcName$")
        h = R.name("namespace_uri_for_prefix_str")

        def spec(e, p):
            if p.kind == "panic":
                return ("any",)
            got = e.n(("call", h, (SELF, fld(pf, SY + "NcName", "NcName", 1))))
            if e.variant(got, OPT) == "None":
                return wanterr("UndefinedNamespacePrefix")
            return ("term", ok(fld(got, OPT, "Some", 0)))
        if pf is None:
            rep.unknown("prefixes are given otherwise")
        else:
            rep.merge(fn, C.check(fn, spec))
    if "declare_default_namespace" in R:
        fn = R["declare_default_namespace"]
        vf, C = mk(prog, [])
        uri = ("arg", fn.argnames()[-1])

        def spec(e, p):
            v = e.variant(SELF, CTX)
            if v not in ("Root", "Include"):
                return ("any",)

            def f(e2, a):
                x = final(p, e2, cfld(SELF, v, "default_namespace"))
                return None if x == e2.n(uri) else "!the default namespace becomes %s" % (show(x) if x else "nothing else")
            return ("pred", f)
        rep.merge(fn, C.check(fn, spec))
    if "declare_namespace" in R:
        declare(prog, rep, R["declare_namespace"], "namespaces", "NamespacePrefixAlreadyDefined", "namespace")
    if "inherit_namespace" in R:
        fn = R["inherit_namespace"]
        vf, C = mk(prog, [R[x] for x in ("namespace_uri_for_prefix_str", "namespace_uri_for_prefix") if x in R] + named(prog, ["file"]))
        h = R.name("namespace_uri_for_prefix_str")
        cx = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if "Context" in t and "mut" not in t]
        ic = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if "Context" in t and "mut" in t]
        ih = argof(fn, r"types::Inherit$")
        if len(cx) != 1 or len(ic) != 1 or ih is None:
            rep.unknown("inherit works on other arguments")
        else:
            def spec(e, p):
                if p.kind == "panic":
                    return ("any",)
                pf = ("call", "display", (fld(ih, SY + "Inherit", "Inherit", 0),))
                got = e.n(("call", h, (cx[0], pf)))
                cs = calls(p, e, h)
                if cs and tuple(cs[0]) != (e.n(cx[0]), e.n(pf)):
                    return ("pred", lambda e2, a: ("!" if cs[0][0] == e2.n(ic[0]) else "~") + "the inherited prefix is looked up as %s" % ", ".join(map(show, cs[0])))
                if e.variant(got, OPT) == "None":
                    return wanterr("UndefinedNamespacePrefix")
                if e.variant(ic[0], CTX) != "Include":
                    return ("any",)
                ns = fld(got, OPT, "Some", 0)

                def f(e2, a):
                    for n, what in (("default_namespace", "the default namespace of the included file"), ("inherited_namespace", "what 'inherit' stands for in the included file")):
                        if n not in fieldnames(prog, CTX, "Include"):
                            return "~"
                        x = final(p, e2, cfld(ic[0], "Include", n))
                        if x != e2.n(ns):
                            return "!%s is %s" % (what, show(x) if x else "not set")
                    return iskind("Ok")[1](e2, a)
                return ("pred", f)
            rep.merge(fn, C.check(fn, spec))
    if "new" in R:
        fn = R["new"]
        vf, C = mk(prog, [])
        rep.merge(fn, C.check(fn, lambda e, p: ("any",) if p.kind == "panic" else ("pred", lambda e2, a: newctx(e2, a, "Root", ("str", "")))))
    if "new_include" in R:
        fn = R["new_include"]
        vf, C = mk(prog, [R[x] for x in ("check_include", "default_namespace_uri") if x in R])

        def spec(e, p):
            if p.kind == "panic":
                return ("any",)

            def f(e2, a):
                if okres(a, e2) == "Err" or a[0] != "adt":
                    return None
                d = e2.n(("call", R.name("default_namespace_uri"), (SELF,)))
                return newctx(e2, dict(a[3])["0"], "Include", d)
            return ("pred", f)
        rep.merge(fn, C.check(fn, spec))
    spelled(prog, rep)


def fieldnames(prog, adt, var):
    return [f if isinstance(f, str) else f[0] for f in (prog.fields(adt, var) or [])]


def newctx(e2, a, var, default):
    if a[0] != "adt" or a[1] != CTX or a[2] != var:
        return "yields %s" % show(a)
    fs = dict(a[3])
    for n in ("default_namespace", "inherited_namespace"):
        if n in fs and fs[n] != default:
            return "!in a new file, %s is %s" % ("the default namespace" if n[0] == "d" else "what 'inherit' stands for", show(fs[n]))
    for n, want in (("namespaces", {("str", "xml"): ("str", XMLNS)}), ("datatypes", {("str", "xsd"): ("str", XSDNS)})):
        m = mapof(fs[n]) if n in fs else None
        if m is None:
            if n in fs and contains_term(fs[n], lambda y: y == SELF):
                return "!the %s of the including file are known in the included one" % n
            return "~the %s of a new file" % n
        if m != want:
            return "!the %s known in a new file are %s" % (n, ", ".join("%s = %s" % (show(k), show(v)) for k, v in sorted(m.items(), key=repr)))
    return None


def declare(prog, rep, fn, table, errname, what):
    vf, C = mk(prog, named(prog, ["file"]))
    names = fn.argnames()
    if len(names) != 3:
        rep.unknown("%s declarations have other parameters" % what)
        return
    pf, uri = ("arg", names[1]), ("arg", names[2])

    def spec(e, p):
        v = e.variant(SELF, CTX)
        if v not in ("Root", "Include"):
            return ("any",)
        tab = e.n(cfld(SELF, v, table))
        got = e.n(("call", "map:get", (tab, pf)))
        i = [x for x in inserts(p, e)]
        if e.variant(got, OPT) == "None":
            def f(e2, a):
                mine = [x for x in i if x[0] == tab]
                if not mine:
                    return "!a %s declaration is forgotten" % what
                if mine[-1][1] != e2.n(pf) or mine[-1][2] != e2.n(uri):
                    return "!a %s declaration of a prefix is noted as %s = %s" % (what, show(mine[-1][1]), show(mine[-1][2]))
                return iskind("Ok")[1](e2, a)
            return ("pred", f)
        old = e.n(fld(got, OPT, "Some", 0))
        if e.true(mkeq(e.n(uri), old)):
            return ("pred", lambda e2, a: iskind("Ok")[1](e2, a))
        return wanterr(errname)
    rep.merge(fn, C.check(fn, spec))


def m07_lookup(prog, rep, R, fn):
    nm = shortname(fn.path)
    vf, C = mk(prog, [fn])
    arg = [("arg", n) for n in fn.argnames()[1:]]

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)
        v = e.variant(SELF, CTX)
        if v in ("Root", "Include"):
            if not arg:
                return ("term", cfld(SELF, v, "default_namespace"))
            got = e.n(("call", "map:get", (cfld(SELF, v, "namespaces"), arg[0])))
            if e.variant(got, OPT) == "None":
                return ("term", NONE)
            return ("pred", lambda e2, a: None if a in (got, some(e2.n(fld(got, OPT, "Some", 0)))) else "a prefix stands for %s" % show(a))
        return upctx(e, p, nm, arg, v)
    rep.merge(fn, C.check(fn, spec))


def m07_nameclass(prog, rep, R):
    fn = R["compile_nameclass"]
    keep = [R[x] for x in ("compile_nameclass", "default_namespace_uri", "namespace_uri_for_prefix", "namespace_uri_for_prefix_str") if x in R]
    vf, C = mk(prog, keep + lits(prog) + named(prog, ["file"]))
    A = args(fn, rep, ctx=r"Context", nc=r"types::NameClass$", kind=r"ElemAttr$")
    if not A:
        return
    ctx, nc, kind = A["ctx"], A["nc"], A["kind"]
    EA = CRATE + "::ElemAttr"
    me = R.name("compile_nameclass")
    lit = lambda t: ("call", "Literal::as_string_value", (t,))

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)
        v = e.variant(nc, SNC)
        x = fld(nc, SNC, v, 0)

        def prefixed(N, pf):
            ct = N.call("the prefix", R.name("namespace_uri_for_prefix"), [("context", ctx), ("prefix", pf)])
            return ct and okv(ct)

        def sub(N, t, pick=False):
            ct = N.call("a name class within", me, [("context", ctx), ("kind of name", kind), ("name class", t)], pick=(lambda q: N.e.n(t) in q) if pick else None)
            return ct and okv(ct)
        if v == "Name":
            nk = e.variant(x, SY + "Name")
            y = fld(x, SY + "Name", nk, 0)
            ek = e.variant(kind, EA) if nk == "Identifier" else None

            def f(e2, a):
                N = Need(e2, p, a)
                if nk == "Identifier":
                    ns = ("call", R.name("default_namespace_uri"), (ctx,)) if ek == "Element" else ("str", "")
                    loc = ("call", "display", (y,))
                elif nk == "CName":
                    ns = prefixed(N, fld(y, SY + "QName", "QName", 0))
                    loc = fld(fld(y, SY + "QName", "QName", 1), SY + "NcName", "NcName", 1)
                elif nk == "NamespacedName":
                    ns = lit(fld(y, SY + "NamespacedName", "NamespacedName", "namespace_uri"))
                    loc = fld(fld(y, SY + "NamespacedName", "NamespacedName", "localname"), SY + "NcName", "NcName", 1)
                else:
                    return "~"
                if ns is None or N.bad is not None:
                    return N.done()
                return N.done(("adt", MNC, "Named", (("namespace_uri", ns), ("name", loc))))
            return ("pred", f)
        if v == "AnyName":
            o = fld(x, SY + "AnyName", "AnyName", 0)
            ov = e.variant(o, OPT)

            def f(e2, a):
                N = Need(e2, p, a)
                if ov == "None":
                    return N.done(("adt", MNC, "AnyName", (("except", NONE),)))
                t = sub(N, fld(o, OPT, "Some", 0))
                return N.done() if t is None else N.done(("adt", MNC, "AnyName", (("except", some(t)),)))
            return ("pred", f)
        if v == "NsName":
            nsn = lambda n: fld(x, SY + "NsName", "NsName", n)
            o, nm = nsn("except"), nsn("name")
            ov = e.variant(o, OPT)
            kv = e.variant(nm, SY + "NamespaceOrPrefix")

            def f(e2, a):
                N = Need(e2, p, a)
                ex = NONE
                if ov == "Some":
                    t = sub(N, fld(o, OPT, "Some", 0))
                    ex = some(t) if t else None
                if N.msg and okres(a, e2) != "Ok":
                    N.msg = None        # the other part may have been in error already
                if N.bad is not None:
                    return N.done()
                if kv == "Prefix":
                    ns = prefixed(N, fld(nm, SY + "NamespaceOrPrefix", "Prefix", 0))
                else:
                    ns = lit(fld(nm, SY + "NamespaceOrPrefix", "NamespaceUri", 0))
                if ns is None or ex is None or N.bad is not None:
                    return N.done()
                return N.done(("adt", MNC, "NsName", (("namespace_uri", ns), ("except", ex))))
            return ("pred", f)
        if v == "Alt":
            xs = [fld(x, SY + "AltName", "AltName", i) for i in range(2)]

            def f(e2, a):
                N = Need(e2, p, a)
                t1 = sub(N, xs[0], True)
                if N.bad is None and N.msg and okres(a, e2) != "Ok":
                    N.msg = None
                t2 = sub(N, xs[1], True) if N.bad is None else None
                if t1 is None or t2 is None or N.bad is not None:
                    return N.done()
                alt = lambda q, r: ok(e2.n(("adt", MNC, "Alt", (("a", q), ("b", r)))))
                if a == alt(t2, t1):
                    return None
                return N.done(("adt", MNC, "Alt", (("a", t1), ("b", t2))))
            return ("pred", f)
        if v == "Paren":
            def f(e2, a):
                N = Need(e2, p, a)
                ct = N.call("a name class within", me, [("context", ctx), ("kind of name", kind), ("name class", fld(x, SY + "ParenName", "ParenName", 0))])
                return N.done() if ct is None else N.done(okv(ct), tail=ct)
            return ("pred", f)
        return ("pred", lambda e2, a: "~a name class of kind %s" % v)
    rep.merge(fn, C.check(fn, spec))


def m07_declaration(prog, rep, R):
    fn = R["compile_declaration"]
    keep = [R[x] for x in ("declare_default_namespace", "declare_namespace", "declare_datatype", "default_namespace_uri") if x in R]
    vf, C = mk(prog, keep + lits(prog) + named(prog, ["file"]))
    A = args(fn, rep, ctx=r"Context", dec=r"types::Decl$")
    if not A:
        return
    ctx, dec = A["ctx"], A["dec"]
    NU = SY + "NamespaceUriLiteral"
    dd, dn, dt = R.name("declare_default_namespace"), R.name("declare_namespace"), R.name("declare_datatype")

    def spec(e, p):
        if p.kind == "panic":
            return ("any",)
        cv = e.variant(ctx, CTX)
        if cv not in ("Root", "Include"):
            return ("any",)
        k = e.variant(dec, SY + "Decl")
        d = fld(dec, SY + "Decl", k, 0)
        ty = {"Namespace": "NamespaceDeclaration", "DefaultNamespace": "DefaultNamespaceDeclaration", "Datatypes": "DatatypesDeclaration"}.get(k)
        if ty is None:
            return ("pred", lambda e2, a: "~a declaration of kind %s" % k)
        g = lambda n: fld(d, SY + ty, ty, n)
        inh = False
        if k == "Datatypes":
            uri = ("call", "Literal::as_string_value", (g("uri"),))
        else:
            inh = e.variant(g("uri"), NU) == "Inherit"
            uri = (cfld(ctx, cv, "inherited_namespace") if cv == "Include" else ("str", "")) if inh else \
                ("call", "Literal::as_string_value", (fld(g("uri"), NU, "Uri", 0),))
        pv = e.variant(g("prefix"), OPT) if k == "DefaultNamespace" else "Some"

        def f(e2, a):
            N = Need(e2, p, a)
            u = e2.n(uri)
            if k == "Datatypes":
                ct = N.call("the declaration", dt, [("context", ctx), ("prefix", g("prefix")), ("name", u)])
                return N.done() if ct is None else N.done(UNIT, tail=ct)
            cs = calls(p, e2, dd)
            if k == "DefaultNamespace":
                if not cs and not inh and okres(a, e2) == "Ok":
                    return "!the default namespace is not declared"
                if not cs and not inh and a[0] == "call" and a[1] == dn and e2.N.vfacts.get(a) is None:
                    return "!the default namespace is not declared"
                if cs and cs[-1][-1] != u:
                    return "!the default namespace becomes %s" % show(cs[-1][-1])
            elif cs:
                return "!the declaration of a prefix changes the default namespace"
            if pv == "None":
                if calls(p, e2, dn):
                    return "~"
                return N.done(UNIT)
            pf = g("prefix") if k == "Namespace" else fld(g("prefix"), OPT, "Some", 0)
            ct = N.call("the declaration of the prefix", dn, [("context", ctx), ("prefix", pf), ("name", u)])
            return N.done() if ct is None else N.done(UNIT, tail=ct)
        return ("pred", f)
    rep.merge(fn, C.check(fn, spec))


UNIT = ("tup", ())


def spelled(prog, rep):
    """names and literals are spelled as in the schema: all segments of a literal, keywords used as names as themselves"""
    fn = prog.find("Literal::as_string_value", "relaxng_syntax")
    if fn is None:
        rep.bad("anchor:Literal::as_string_value", "Literal::as_string_value is no longer there")
    else:
        vf, C = mk(prog, [])
        S = fld(SELF, SY + "Literal", "Literal", 1)

        def spec(e, p):
            if p.kind == "panic":
                return ("any",)

            def f(e2, a):
                s = e2.n(S)
                if any(partial(y, s) for y in subterms(a)) or any(partial(y, s) for y, d in sources(p, e2)):
                    return "!some segments of a literal are left out"
                if a[0] == "fold":
                    if a[1] != s:
                        return "~"
                    body = fld(("itv", a[4]), SY + "LiteralSegment", "LiteralSegment", "body")
                    if a[3][0] == "arr":
                        if a[3][1] == (("spread", ("accv", a[4])), body):
                            return None if a[2] == ("cat", ()) else "!a literal starts with %s" % show(a[2])
                        return "!the segments of a literal are put together as %s" % show(a[3])
                    if any(y[0] == "arr" and any(z[0] in ("char", "str") and z[1] for z in y[1]) for y in subterms(a[3])):
                        return "!a literal has text which is in none of its segments: %s" % show(a[3])
                return "~"
            return ("pred", f)
        rep.merge(fn, C.check(fn, spec, ))
    fs = [f for f in prog.fns.values() if re.search(r"types::IdentifierOrKeyword as std::fmt::Display>::fmt$", f.path)]
    if not fs:
        rep.bad("anchor:IdentifierOrKeyword::fmt", "names which are keywords are no longer displayed")
        return
    vf, C = mk(prog, [])
    IK = SY + "IdentifierOrKeyword"

    def spec(e, p):
        v = e.variant(SELF, IK)
        t = e.n(fld(fld(SELF, IK, v, 0), SY + v, v, 1))

        def f(e2, a):
            if a[0] == "call" and a[1] == "std::fmt::Formatter::write_str":
                return None if a[2][-1] == t else "!a name is spelled %s" % show(a[2][-1])
            return "~"
        return ("pred", f)
    rep.merge(fs[0], C.check(fs[0], spec))
