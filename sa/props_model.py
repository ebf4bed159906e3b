"""The model compiler: definitions and their combination, references, includes, lowering of the syntax tree, names."""
from lib import *
from props_state import iskind, final, mutations, pops
from spec import LamPart, Result, SEQOPS

CRATE = "relaxng_model"
CTX = "relaxng_model::Context"
DR = "relaxng_model::model::DefineRule"
CR = "relaxng_model::model::CombineRule"
SP = "relaxng_syntax::types::Pattern"
SY = "relaxng_syntax::types::"
RX = "relaxng_model::RelaxError"
PREF = "relaxng_model::model::PatRef"
SELF = ("arg", "self")
EXTRA = {"lists": 1, "noupd": 1, "cast:u64": 1}
SPANFNS = ["subspan", "name", "parent", "join", "as_ptr", "file", "convert_span", "as_string_value", "collect", "sort_by", "to_string",
           "add_file", "to_string_lossy", "load", "parse"]
WITH_PARENT = ("Include", "IncludeOverrides", "Grammar", "Define", "Element", "Attribute")


def cfld(t, var, name):
    return ("fld", t, CTX + "::" + var, name)


def parents(e, var, t=SELF):
    """the contexts a lookup may go on in"""
    out = [e.n(cfld(t, var, "parent"))]
    if var == "IncludeOverrides":
        out.append(e.n(cfld(cfld(t, var, "parent"), "Include", "parent")))
    return out


def calls(p, e, name):
    """argument lists of the calls of a function on a path, in order"""
    return [[e.n(x) for x in ev[2]] for ev in p.events if ev[0] == "call" and ev[1] == name]


def inserts(p, e):
    return [[e.n(x) for x in ev[2]] for ev in p.events if ev[0] == "map" and ev[1] == "insert"]


def outcome_of(e, p, name, args=None):
    """'Ok' / 'Err' / None: how the calls of a function on this path came out, by the facts (and tail returns excluded)"""
    out = []
    for (k, t), x in [(a, x) for a, x in p.facts.items()]:
        if k == "v":
            n = e.n(t)
            if n[0] == "call" and n[1] == name and (args is None or list(n[2]) == args):
                out.append((n, x))
    return out


def sources(p, e):
    """[(sequence, exhausted?)] of the loops on a path"""
    out = []
    for (k, t), x in p.facts.items():
        if k == "b" and t[0] == "more" and t[1][0] == "loop":
            out.append((e.n(t[1][3]), not x))
        elif k == "b" and t[0] == "more":
            out.append((e.n(t[1]), not x))
    return out


def unseq(t):
    while t[0] == "call" and t[1] in SEQOPS and t[1] not in ("iter:skip", "iter:take"):
        t = t[2][0]
    return t


def partial(t, S):
    """the sequence leaves out members of S"""
    return t != S and any(x == S for x in subterms(t)) and any(
        x[0] == "rest" or x[0] == "call" and x[1] in ("iter:skip", "iter:take", "iter:filter", "iter:skip_while", "iter:take_while", "iter:step_by")
        for x in subterms(t))


def okres(a, e):
    if a[0] == "adt":
        return a[2]
    v = e.N.vfacts.get(a)
    return next(iter(v)) if v and len(v) == 1 else None


def errkind(a):
    """variant of the error in an Err value"""
    if a[0] == "adt" and a[2] == "Err":
        x = dict(a[3])["0"]
        if x[0] == "adt":
            return x[2]
    return None


def wanterr(*names):
    def f(e, a):
        r = iskind("Err")[1](e, a)
        if r:
            return r
        k = errkind(a)
        if k is not None and names and k not in names:
            return "!the error is reported as %s" % k
        return None
    return ("pred", f)


def flat(e, t, K):
    """members of t as a combination of kind K, nested combinations of the same kind opened"""
    t = e.n(t)
    if t[0] == "spread":
        return [t]
    if t[0] == "adt" and t[1] == MPAT and t[2] == K:
        s = dict(t[3])["0"]
        return flatseq(e, s, K)
    v = e.N.vfacts.get(t)
    if v == frozenset([K]):
        return flatseq(e, e.n(fld(t, MPAT, K, 0)), K)
    return [t]


def flatseq(e, s, K):
    if s[0] == "arr":
        out = []
        for x in s[1]:
            out += flat(e, x, K)
        return out
    return [("spread", s)]


def members(e, ts, K):
    out = []
    for t in ts:
        out += flat(e, t, K)
    return out if K == "Group" else sorted(out, key=repr)


def mk(prog, opaque, vocab=()):
    """value-flow analysis with the given functions kept as calls"""
    paths = {f.path for f in opaque}
    vf = VF(prog, opaque=lambda f: f.path in paths)
    return vf, Checker(prog, vf, extra=EXTRA, vocab=list(vocab) + SPANFNS)


def named(prog, names, crate=CRATE):
    return [f for f in prog.fns.values() if f.crate == crate and f.name in names and "{closure" not in f.path]


def lits(prog):
    return named(prog, ["as_string_value"], "relaxng_syntax")


# ------------------------------------------------------------------------------------- M01
def m01(prog, rep, tier):
    rep.rule("for every pair of an existing and a new definition of a name (both kinds, all combine methods) the registered result is: both '=' - rejected as "
             "duplicate; different combine methods - rejected; otherwise the members of both, combined by the given method")
    rep.rule("a definition compiles its own body, within its own definition context, and is registered under its own name with its own combine method")
    R = Roles(prog, rep, CRATE)
    R.get("define", "Context::define", ["Context", "str", "DefineRule"])
    R.get("compile_define", "Compiler::compile_define")
    R.get("compile_pattern", "Compiler::compile_pattern")
    if "define" in R:
        fn = R["define"]
        vf, C = mk(prog, [fn])
        names = fn.argnames()
        kinds = [kindof(t) for t in fn.argtypes()]
        rule = [("arg", n) for n, t in zip(names, fn.argtypes()) if strip_ty(t).endswith("DefineRule")]
        ident = [("arg", n) for n, k in zip(names, kinds) if k == "text"]
        if len(rule) != 1 or len(ident) != 1:
            rep.unknown("definitions are registered with other arguments")
        else:
            rep.merge(fn, define_spec(prog, C, fn, R, ident[0], rule[0]))
    if "compile_define" in R and "define" in R and "compile_pattern" in R:
        fn = R["compile_define"]
        vf, C = mk(prog, [R["define"], R["compile_pattern"]] + named(prog, ["file", "convert_span"]))
        d = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if strip_ty(t).endswith("Define")]
        ctx = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if "Context" in t]
        if len(d) != 1 or len(ctx) != 1:
            rep.unknown("definitions are compiled from other arguments")
            return
        d, ctx = d[0], ctx[0]
        g = lambda i: fld(d, SY + "Define", "Define", i)
        ident = fld(g(1), SY + "Identifier", "Identifier", 1)
        cp, df = R.name("compile_pattern"), R.name("define")

        def spec(e, p):
            if p.kind == "panic":
                return ("any",)

            def f(e2, a):
                cs = calls(p, e2, cp)
                if len(cs) != 1:
                    return "!the body is compiled %d times" % len(cs)
                c = cs[0]
                if e2.n(g(3)) not in c:
                    return "!what is compiled is %s" % show(c[-1])
                cx = [x for x in c if x[0] == "adt" and x[1] == CTX]
                if not cx:
                    return ("!" if e2.n(ctx) in c else "~") + "the body is compiled in the context %s" % ", ".join(show(x) for x in c[1:-1])
                cx = cx[0]
                if cx[2] != "Define" or dict(cx[3])["parent"] != e2.n(ctx) or dict(cx[3])["id"] != e2.n(g(1)):
                    return "!the body is compiled in the context %s" % show(cx)
                ct = ("call", cp, tuple(c))
                r = e2.N.vfacts.get(ct)
                ds = calls(p, e2, df)
                if r == frozenset(["Err"]):
                    return "!a definition whose body is in error is registered" if ds else iskind("Err")[1](e2, a)
                if len(ds) != 1:
                    if not ds and okres(a, e2) == "Err":
                        return "~"
                    return "!the definition is registered %d times" % len(ds)
                dd = ds[0]
                if dd[1] != e2.n(ident):
                    return "!the definition is registered as %s" % show(dd[1])
                m = e2.variant(g(2), SY + "AssignMethod")
                rule = dd[-1]
                if rule[0] != "adt":
                    return "~registers %s" % show(rule)
                fs = dict(rule[3])
                body = e2.n(("fld", ct, RES + "::Ok", "0"))
                if m == "Assign":
                    if rule[2] != "AssignCombine" or fs["1"] != NONE or fs["2"] != body:
                        return "!a definition by '=' is registered as %s" % show(rule)
                else:
                    if rule[2] != "CombineOnly" or fs["1"] != ("adt", CR, m, ()):
                        return "!a definition combining by %s is registered as %s" % (m, show(rule))
                    if flat(e2, fs["2"], m) != [body] and members(e2, [fs["2"]], m) != members(e2, [body], m):
                        return "!a definition combining by %s has the members %s" % (m, ", ".join(show(x) for x in flat(e2, fs["2"], m)))
                dt = ("call", df, tuple(dd))
                r = e2.N.vfacts.get(dt)
                if a == dt:
                    return None
                if r is None:
                    return "!whether the registration failed is not looked at"
                return iskind(next(iter(r)))[1](e2, a)
            return ("pred", f)
        rep.merge(fn, C.check(fn, spec))


def define_spec(prog, C, fn, R, ident, rule):
    df = R.name("define")

    def spec(e, p):
        v = e.variant(SELF, CTX)
        if v not in ("Root", "Grammar"):
            return ("any",)      # M05
        refs = e.n(("cell", cfld(SELF, v, "refs")))
        got = e.n(("call", "map:get", (refs, ident)))
        key = [got]
        # the lookup key may be the name as an owned string
        if e.variant(got, OPT) == "None":
            def f(e2, a):
                i = [x for x in inserts(p, e2) if x[0] == refs]
                if len(i) != 1:
                    return "!a new definition is stored %d times" % len(i)
                if i[0][1] != e2.n(ident):
                    return "!a new definition is stored as %s" % show(i[0][1])
                if i[0][2] != some(e2.n(rule)):
                    return "!for a new definition %s is stored" % show(i[0][2])
                return iskind("Ok")[1](e2, a)
            return ("panic",) if False else ("pred", f)
        cell = e.n(("cell", fld(got, OPT, "Some", 0)))
        old = e.n(cell)
        if e.variant(old, OPT) == "None":
            return ("pred", lambda e2, a: iskind("Ok")[1](e2, a) or (
                None if final(p, e2, cell) == some(e2.n(rule)) else "!a definition referenced before becomes %s" % show(final(p, e2, cell))))
        o = e.n(fld(old, OPT, "Some", 0))
        ko, kn = e.variant(o, DR), e.variant(rule, DR)
        if ko == kn == "AssignCombine":
            return wanterr("DuplicateDefinition")

        def comb(t, k):
            c = fld(t, DR, k, 1)
            if k == "AssignCombine":
                if e.variant(c, OPT) == "None":
                    return None
                c = fld(c, OPT, "Some", 0)
            return e.variant(c, CR)
        co, cn = comb(o, ko), comb(rule, kn)
        if co and cn and co != cn:
            return wanterr("DefineRulesMixesChoiceAndInterleave")
        K = co or cn
        po, pn = e.n(fld(o, DR, ko, 2)), e.n(fld(rule, DR, kn, 2))
        vo, vn = e.variant(po, MPAT), e.variant(pn, MPAT)
        if p.kind == "panic":
            if (ko == "CombineOnly" and vo != K) or (kn == "CombineOnly" and vn != K):
                return ("any",)
            return ("pred", lambda e2, a: None)
        if (ko == "CombineOnly" and vo != K) or (kn == "CombineOnly" and vn != K):
            return ("any",)          # does not arise: see compile_define

        def f(e2, a):
            r = iskind("Ok")[1](e2, a)
            if r:
                return r
            x = final(p, e2, cell)
            if not (x[0] == "adt" and x[2] == "Some"):
                return "!the combined definition becomes %s" % show(x)
            x = dict(x[3])["0"]
            if x[0] != "adt":
                return ("!" if x in (o, e2.n(rule)) else "~") + "the combined definition becomes %s" % show(x)
            fs = dict(x[3])
            want = "CombineOnly" if ko == kn == "CombineOnly" else "AssignCombine"
            kk = ("adt", CR, K, ())
            if x[2] != want or fs["1"] != (kk if want == "CombineOnly" else some(kk)):
                c = fs["1"]
                if e2.n(c) == e2.n(kk if want == "CombineOnly" else some(kk)):
                    pass
                else:
                    return "!the combination of %s and %s definitions is remembered as %s(%s)" % (ko, kn, x[2], show(fs["1"]))
            pt = fs["2"]
            if not (pt[0] == "adt" and pt[2] == K or e2.N.vfacts.get(pt) == frozenset([K])):
                return "!definitions combined by %s give %s" % (K, show(pt))
            gm, wm = members(e2, [pt], K), members(e2, [po, pn], K)
            if gm != wm:
                return "!definitions combined by %s have the members %s instead of %s" % (
                    K, ", ".join(map(show, gm)), ", ".join(map(show, wm)))
            return None
        return ("pred", f)
    return C.check(fn, spec)


# ------------------------------------------------------------------------------------- context walks
def up(e, p, name, arg, var, t=SELF, also=(), wrong=()):
    """the lookup goes on in the enclosing context, not as one of the lookups 'wrong'"""
    ps = parents(e, var, t)
    want = [("call", name, (x,) + tuple(e.n(y) for y in arg)) for x in ps] + list(also)

    def f(e2, a):
        if a in want and not any(contains_term(k[1], lambda y: y[0] == "call" and y[1] in wrong) for k in p.facts if k[0] == "v"):
            return None
        if any(contains_term(("tup", (e2.n(k[1]),)), lambda y: y in ps and y != e2.n(SELF)) for k in p.facts if k[0] == "v"):
            for n in wrong:
                if any(c[0] in ps for c in calls(p, e2, n)):
                    return "!!the enclosing context is asked by %s" % n
            return "~decides by the enclosing context itself"
        return ("!" if a[0] in ("adt", "call") and (a[0] == "adt" or a[1] == name) else "") + "gives %s instead of asking the enclosing context" % show(a)
    return ("pred", f)


def refsof(e, var, t=SELF):
    return e.n(("cell", cfld(t, var, "refs")))


# ------------------------------------------------------------------------------------- M02
def m02(prog, rep, tier):
    rep.rule("for every kind of context, a reference resolves in the nearest enclosing grammar: contexts which are no grammar pass the lookup to their parent; "
             "a grammar answers from its own definitions only, creating a placeholder which later definitions of that name fill")
    rep.rule("a 'parent' reference goes through the nearest grammar and resolves in the grammar around it; without one it is rejected")
    rep.rule("nested grammars get a definition table of their own, linked to the context they occur in; a plain reference is looked up as a plain reference, "
             "a parent reference as a parent reference, by its own name")
    R = Roles(prog, rep, CRATE)
    R.get("acquire_ref", "Context::acquire_ref")
    R.get("acquire_parent_ref", "Context::acquire_parent_ref")
    R.get("get_ref", "Context::get_ref")
    R.get("check", "Context::check_ref_recursion", optional=True)
    # a lookup may be a first step, and the walk along the contexts a function of its own
    W = {x: walker(prog, R[x]) for x in ("acquire_ref", "acquire_parent_ref", "get_ref") if x in R}
    for f in W.values():
        rep.functions.add(f.path)
    walkers = list({f.path: f for f in list(R.m.values()) + list(W.values())}.values()) + named(prog, ["file", "convert_span"])

    def entry(role):
        """the function, of the one which walks, and its identifiers"""
        fn, w = R[role], W[role]
        ids = [[("arg", n) for n, t in zip(f.argnames(), f.argtypes()) if strip_ty(t).endswith("Identifier")] for f in (fn, w)]
        if w is not fn:
            if len(ids[0]) != 1 or len(ids[1]) != 1:
                rep.unknown("references are looked up by other arguments")
                return None
            vf, C = mk(prog, walkers)
            rep.merge(fn, C.check(fn, first_step(R, w, ids[0][0], w.argnames().index(ids[1][0][1]))))
        return w, ids[1]
    if "acquire_ref" in R:
        x = entry("acquire_ref")
        if x and len(x[1]) == 1:
            vf, C = mk(prog, walkers)
            rep.merge(x[0], C.check(x[0], acquire_spec(R, x[0], x[1][0])))
        elif x:
            rep.unknown("references are looked up by other arguments")
    if "acquire_parent_ref" in R and "acquire_ref" in R:
        x = entry("acquire_parent_ref")
        if x:
            fn, ids = x
            arg = [("arg", n) for n in fn.argnames()[1:]]
            vf, C = mk(prog, walkers)
            plain = {shortname(R["acquire_ref"].path): ids}
            if W["acquire_ref"].argnames()[1:] == R["acquire_ref"].argnames()[1:] and len(W["acquire_ref"].argnames()) == 2:
                plain[shortname(W["acquire_ref"].path)] = ids

            def spec(e, p):
                v = e.variant(SELF, CTX)
                if v == "Root":
                    return wanterr("NoParentAvailable")
                if v == "Grammar":
                    def f(e2, a):
                        if any(c[0] in parents(e2, v) for c in calls(p, e2, shortname(fn.path))):
                            return "!a parent reference passes over the grammar around the nearest one"
                        r = [up(e2, p, n, i, v)[1](e2, a) for n, i in plain.items()]
                        return None if None in r else r[0]
                    return ("pred", f)
                return up(e, p, shortname(fn.path), arg, v, wrong=[shortname(y.path) for y in (R["acquire_ref"], W["acquire_ref"])])
            rep.merge(fn, C.check(fn, spec))
    if "get_ref" in R:
        fn = W["get_ref"]
        arg = [("arg", n) for n in fn.argnames()[1:]]
        vf, C = mk(prog, walkers)

        def spec(e, p):
            v = e.variant(SELF, CTX)
            if p.kind == "panic":
                return ("any",)
            if v in ("Root", "Grammar"):
                return ("ret", ("call", "map:get", (refsof(e, v), arg[0])))
            return up(e, p, shortname(fn.path), arg, v)
        rep.merge(fn, C.check(fn, spec))
    lowering_refs(prog, rep, R)
    nested(prog, rep)


def walker(prog, fn):
    """the function which walks along the contexts for fn: itself, or one it is the first step of"""
    def callees(f):
        for b in f.body["blocks"]:
            t = b["t"]
            if t.get("t") == "call" and not b.get("cl") and t["f"].get("k") == "fn":
                yield norm_path(t["f"].get("r") or t["f"].get("path") or "")
    if fn.path in callees(fn):
        return fn
    c = {g for g in callees(fn) if g in prog.fns and prog.fns[g].crate == fn.crate and g in callees(prog.fns[g])
         and prog.fns[g].body["locals"][0]["t"] == fn.body["locals"][0]["t"]}
    return prog.fns[c.pop()] if len(c) == 1 else fn


def first_step(R, w, rid, pos):
    ck = R.name("check") if "check" in R else None

    def spec(e, p):
        def f(e2, a):
            if ck:
                c = calls(p, e2, ck)
                if len(c) != 1:
                    return "~"
                r = e2.N.vfacts.get(("call", ck, tuple(c[0])))
                if r == frozenset(["Err"]):
                    return iskind("Err")[1](e2, a)
            ok = a[0] == "call" and a[1] == shortname(w.path) and a[2][0] == e2.n(SELF) and a[2][pos] == e2.n(rid)
            return None if ok else "gives %s" % show(a)
        return ("pred", f)
    return spec


def acquire_spec(R, fn, rid):
    ident = fld(rid, SY + "Identifier", "Identifier", 1)
    me = shortname(fn.path)

    def spec(e, p):
        v = e.variant(SELF, CTX)
        if v not in ("Root", "Grammar"):
            return up(e, p, me, [("arg", n) for n in fn.argnames()[1:]], v, wrong=[shortname(f.path) for f in (R["acquire_parent_ref"], walker(R.prog, R["acquire_parent_ref"]))] if "acquire_parent_ref" in R else [])
        refs = refsof(e, v)
        got = e.n(("call", "map:get", (refs, ident)))
        if e.variant(got, OPT) == "Some":
            want = ok(("adt", PREF, "PatRef", (("0", e.n(fld(got, OPT, "Some", 0))),)))

            def g(e2, a):
                if inserts(p, e2):
                    return "!a name already known is entered again"
                return None if a == e2.n(want) else "a name already known gives %s" % show(a)
            return ("pred", g)

        def f(e2, a):
            i = [x for x in inserts(p, e2) if x[0] == refs]
            if len(i) != 1 or i[0][1] != e2.n(ident):
                return "!a name not defined yet is entered %s" % (("as %s" % show(i[0][1])) if i else "nowhere")
            if i[0][2] != NONE:
                return "!a name not defined yet is entered as %s" % show(i[0][2])
            return None if a[0] == "adt" and a[2] == "Ok" and dict(a[3])["0"][0] == "adt" and dict(dict(a[3])["0"][3]).get("0") == i[0][2] else \
                "a name not defined yet gives %s" % show(a)
        return ("pred", f)
    return spec


def lowering_refs(prog, rep, R):
    fn = prog.find("Compiler::compile_pattern", CRATE)
    if fn is None:
        rep.bad("anchor:Compiler::compile_pattern", "Compiler::compile_pattern is no longer there")
        return
    rep.functions.add(fn.path)
    keep = named(prog, ["compile_pattern", "compile_nameclass", "compile_datatype_value_pattern", "compile_datatype_name_pattern", "compile_external",
                        "compile_grammar_pattern", "acquire_ref", "acquire_parent_ref", "file", "parent_attribute", "get_schema"])
    vf, C = mk(prog, keep + lits(prog))
    patt = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if strip_ty(t).endswith("types::Pattern")]
    ctx = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if "Context" in t]
    if len(patt) != 1 or len(ctx) != 1:
        rep.unknown("patterns are compiled from other arguments")
        return
    patt, ctx = patt[0], ctx[0]

    def spec(e, p):
        v = e.variant(patt, SP)
        if v not in ("Identifier", "Parent"):
            return ("any",)
        ident = fld(patt, SP, v, 0)
        role = "acquire_ref" if v == "Identifier" else "acquire_parent_ref"
        other = "acquire_parent_ref" if v == "Identifier" else "acquire_ref"
        ct = e.n(("call", R.name(role), (ctx, ident)))

        def f(e2, a):
            if calls(p, e2, R.name(other)):
                return "!a %s reference is looked up as a %s reference" % (("plain", "parent") if v == "Identifier" else ("parent", "plain"))
            cs = calls(p, e2, R.name(role))
            if [tuple(c) for c in cs] != [ct[2]]:
                return ("!" if cs and cs[0][-1] != e2.n(ident) else "~") + "the reference is looked up as %s" % ", ".join(show(c[-1]) for c in cs)
            r = e2.N.vfacts.get(ct)
            if r == frozenset(["Err"]):
                return iskind("Err")[1](e2, a)
            if not (a[0] == "adt" and a[2] == "Ok"):
                return "a reference gives %s" % show(a)
            x = dict(a[3])["0"]
            if not (x[0] == "adt" and x[2] == "Ref"):
                return "!a reference gives %s" % show(x)
            fs = dict(x[3])
            if fs["1"] != e2.n(fld(ident, SY + "Identifier", "Identifier", 1)):
                return "!a reference is named %s" % show(fs["1"])
            return None if fs["2"] == e2.n(("fld", ct, RES + "::Ok", "0")) else "!a reference refers to %s" % show(fs["2"])
        return ("pred", f)
    rep.merge(fn, C.check(fn, spec))


def handlers(prog, elem, crate=CRATE):
    """functions which handle one item / a sequence of items of a syntax tree type"""
    one, seq = [], []
    for f in prog.fns.values():
        if f.crate != crate or "{closure" in f.path or f.trait:
            continue
        for i, t in enumerate(f.argtypes()):
            t = re.sub(r"^&(?:'\w+ )?(?:mut )?", "", t.strip())
            if t == elem:
                one.append((f, i))
            elif re.fullmatch(r"\[%s\]|std::vec::Vec<%s>" % (re.escape(elem), re.escape(elem)), t):
                seq.append((f, i))
    return one, seq


def nested(prog, rep):
    """a nested grammar's contents are compiled in a new table linked to the surrounding context"""
    one, seq = handlers(prog, "relaxng_syntax::types::GrammarContent")
    hs = {shortname(f.path): i for f, i in one + seq}
    for nm in ("compile_grammar_pattern", "compile_external"):
        fn = prog.find("Compiler::" + nm, CRATE)
        if fn is None:
            rep.bad("anchor:Compiler::" + nm, "Compiler::%s is no longer there" % nm)
            continue
        rep.functions.add(fn.path)
        keep = [f for f, i in one + seq] + named(prog, ["file", "get_schema", "new_include", "inherit_namespace", "compile_declaration", "compile_pattern"])
        vf, C = mk(prog, keep + lits(prog))
        try:
            parts = vf.summarize(fn)
        except Budget as ex:
            rep.unknown(str(ex))
            continue
        ctx = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if "Context" in t]
        seen = set()
        folds = fold_loops(parts)
        for p in parts:
            N = C.norm(fn, folds)
            if not N.add_facts(p.facts):
                continue
            for ev in p.events:
                if ev[0] != "call" or ev[1] not in hs or (ev[1], ev[3][1] if len(ev) > 3 and ev[3] else None) in seen:
                    continue
                seen.add((ev[1], ev[3][1] if len(ev) > 3 and ev[3] else None))
                a = [N.n(x) for x in ev[2]]
                cx = [x for x in a if x[0] == "adt" and x[1] == CTX]
                where = "%s at %s" % (shortname(fn.path), prog.pos(ev[3] if len(ev) > 3 and ev[3] else fn.sp))
                if not cx:
                    same = any(x == ctx[0] for x in a)
                    (rep.bad(fn.path, "%s: the definitions of a nested grammar go into the surrounding grammar" % where) if same else
                     rep.unknown("%s: nested grammar compiled in %s" % (where, show(a[1]))))
                    continue
                cx = cx[0]
                fs = dict(cx[3])
                if cx[2] != "Grammar":
                    rep.bad(fn.path, "%s: a nested grammar is compiled in a context of kind %s" % (where, cx[2]))
                    continue
                rep.expect(fs["refs"] == ("call", "newmap", ()), fn.path, "%s: a nested grammar starts with the definitions %s" % (where, show(fs["refs"])),
                           "a nested grammar has a table of its own")
                if nm == "compile_grammar_pattern":
                    rep.expect(fs["parent"] == ctx[0], fn.path, "%s: a nested grammar is linked to %s" % (where, show(fs["parent"])),
                               "a nested grammar is linked to its context")
                else:
                    inc = [y for y in subterms(fs["parent"]) if y[0] == "call" and y[1].endswith("new_include")]
                    if inc:
                        rep.expect(inc[0][2][0] == ctx[0], fn.path, "%s: an external grammar is linked to %s" % (where, show(fs["parent"])),
                                   "an external grammar is linked to its context")
                    elif fs["parent"] == ctx[0]:
                        rep.bad(fn.path, "%s: an external grammar is compiled in the context of the file referring to it" % where)
                    else:
                        rep.unknown("%s: linked to %s" % (where, show(fs["parent"])))


# ------------------------------------------------------------------------------------- M03 / M04: traversals
CHILDREN = {"Mixed": "0", "Optional": "0", "ZeroOrMore": "0", "OneOrMore": "0", "List": "0", "Attribute": "1", "Element": "1"}
LISTS = ("Choice", "Interleave", "Group")
LEAVES = ("Empty", "Text", "NotAllowed", "DatatypeValue")


def onchild(e, p, name, child, what):
    """the recursive call on the child decides"""
    child = e.n(child)

    def f(e2, a):
        cs = [c for c in calls(p, e2, name) if child in c]
        if not cs:
            return "!%s is not looked into" % what if okres(a, e2) == "Ok" else "~"
        ct = ("call", name, tuple(cs[-1]))
        r = e2.N.vfacts.get(ct)
        if a == ct:
            return None
        if r is None:
            return "!what is found in %s is ignored" % what
        return iskind(next(iter(r)))[1](e2, a)
    return ("pred", f)


def onlist(e, p, name, S, what):
    S = e.n(S)

    def f(e2, a):
        ls = sources(p, e2)
        mine = [(s, x) for s, x in ls if unseq(s) == S]
        el = ("elem", S)
        cs = [c for c in calls(p, e2, name) if any(contains_term(x, lambda y: y[0] == "elem" and unseq(y[1]) == S) for x in c)]
        if p.kind == "back":
            if not mine:
                if any(partial(s, S) for s, x in ls):
                    return "!some members of %s are left out" % what
                return "~another loop"
            if not cs:
                return "!the members of %s are not looked into" % what
            ct = ("call", name, tuple(cs[-1]))
            if e2.N.vfacts.get(ct) != frozenset(["Ok"]):
                return "!what is found in a member of %s is ignored" % what
            return None
        if okres(a, e2) == "Err" or a[0] == "call":
            if cs and e2.N.vfacts.get(("call", name, tuple(cs[-1]))) in (frozenset(["Err"]), None):
                return None
            return "~"
        if any(x for s, x in mine):
            return None
        if any(partial(s, S) for s, x in ls):
            return "!some members of %s are left out" % what
        if not ls and not [1 for k in p.facts if k[0] == "b" and contains_term(k[1], lambda y: y == S)]:
            return "!the members of %s are not looked into" % what
        return "~" + what
    return ("pred", f)


def traverse(e, p, name, patt, stop=()):
    """None for a reference, else what has to be done for this kind of pattern"""
    v = e.variant(patt, MPAT)
    if v in LEAVES or v in stop:
        return ("pred", lambda e2, a: iskind("Ok")[1](e2, a) and "!a pattern of kind %s is rejected or looked into: %s" % (v, show(a)))
    if v in LISTS:
        return onlist(e, p, name, fld(patt, MPAT, v, 0), "a %s" % v)
    if v in CHILDREN:
        return onchild(e, p, name, fld(patt, MPAT, v, CHILDREN[v]), "the content of a pattern of kind %s" % v)
    if v == "DatatypeName":
        x = fld(patt, MPAT, v, "except")
        if e.variant(x, OPT) == "None":
            return iskind("Ok")
        return onchild(e, p, name, fld(x, OPT, "Some", 0), "the exception of a datatype")
    return None


def refcell(e, patt):
    d = fld(patt, MPAT, "Ref", 2)
    return fld(d, PREF, "PatRef", 0)


def ruleterm(e, cell):
    r = fld(("cell", cell), OPT, "Some", 0)
    return r


def pattof(e, cell):
    r = ruleterm(e, cell)
    k = e.variant(r, DR)
    return e.n(fld(r, DR, k, 2))


def m03(prog, rep, tier):
    rep.rule("recursion: every member of every pattern is followed, except below elements; a definition which is being expanded "
             "when it is referenced again is an error; one whose expansion was found finite is not followed again")
    rep.rule("this is applied to every definition reachable from the start pattern")
    R = Roles(prog, rep, CRATE)
    R.get("rec", "Compiler::check_recursion")
    R.get("check", "Compiler::check")
    if "rec" in R:
        # nothing else may refuse recursion: a definition which nothing refers to may refer to itself
        for fn in prog.fns.values():
            if fn.crate == CRATE and any(v == "RecursiveReference" for v, _ in builds(fn, RX)) and not is_derived(prog, fn):
                rep.expect(fn.path.split("::{closure")[0] == R["rec"].path or only_called_from(prog, fn, R["rec"].path), fn.path,
                           "%s at %s: recursion is refused outside the check of what the start pattern reaches" % (shortname(fn.path), prog.pos(fn.sp)),
                           "recursion is refused only by the check of what the start pattern reaches")
    if "rec" in R:
        fn = R["rec"]
        ty = dict(zip(fn.argnames(), fn.argtypes()))
        act = [("arg", n) for n, t in ty.items() if "Vec<" in t]
        exp = [("arg", n) for n, t in ty.items() if "Set<" in t]
        pt = [("arg", n) for n, t in ty.items() if strip_ty(t).endswith("Pattern")]
        if len(act) != 1 or len(pt) != 1 or len(exp) > 1:
            rep.unknown("the recursion check works on other data")
        else:
            act, pt = act[0], pt[0]
            exp = exp[0] if exp else None
            name = shortname(fn.path)
            vf, C = mk(prog, [fn])

            def spec(e, p):
                r = traverse(e, p, name, pt, stop=("Element",))
                if r is not None:
                    if any(x[0] == "arr" and not contains_term(("arr", x[1]), lambda y: y == act) for c in calls(p, e, name) for x in c) and \
                            not any(contains_term(x, lambda y: y == act) for c in calls(p, e, name) for x in c):
                        return ("pred", lambda e2, a: "!the content of a pattern of kind %s is followed forgetting what is being expanded" % e2.variant(pt, MPAT))
                    return r
                cell = refcell(e, pt)
                if e.variant(("cell", cell), OPT) == "None":
                    return ("any",)          # M04
                ptr = e.n(("call", "std::cell::RefCell::as_ptr", (cell,)))
                con = [(k[1], x) for k, x in p.facts.items() if k[0] == "b" and contains_term(k[1], lambda y: y == act) and
                       contains_term(k[1], lambda y: y == e.n(cell) or y == cell)]
                done = [x for k, x in p.facts.items() if k[0] == "v" and k[1][0] == "call" and k[1][1] == "map:get" and e.n(k[1][2][0]) == exp]
                if not con:
                    if done == [frozenset(["Some"])]:
                        return iskind("Ok")
                    return ("pred", lambda e2, a: "~without asking what is being expanded")
                if any(x for _, x in con):
                    return wanterr("RecursiveReference")
                if all(any(y[0] == "call" and y[2] and re.search(r"(^|::)(last|first|split_last|split_first|take|skip|step_by|nth|get|take_while|skip_while)$", y[1])
                           and contains_term(y, lambda z: z == act) for y in subterms(t)) for t, _ in con):
                    return ("pred", lambda e2, a: "!only some of the definitions being expanded are looked at: %s" % show(con[0][0]))
                if done == [frozenset(["Some"])]:
                    return iskind("Ok")
                body = pattof(e, cell)

                def f(e2, a):
                    cs = [c for c in calls(p, e2, name) if body in c]
                    if not cs:
                        return "!a referenced definition is not followed" if okres(a, e2) == "Ok" else "~"
                    c = cs[0]
                    ai = [x for x in c if x[0] == "arr" and x[1] and x[1][0] == ("spread", act)]
                    if not ai:
                        if [x for x in c if x[0] == "arr" and not any(contains_term(y, lambda z: z == act) for y in x[1])]:
                            return "!a definition is followed forgetting what is being expanded"
                        return ("!" if act in c else "~") + "a definition is followed without noting that it is being expanded"
                    if len(ai[0][1]) != 2 or not contains_term(ai[0][1][1], lambda y: y == e2.n(cell)):
                        return "~notes %s" % show(ai[0])
                    r = e2.N.vfacts.get(("call", name, tuple(c)))
                    if r is None:
                        return None if a == ("call", name, tuple(c)) and False else "!what is found in a referenced definition is ignored" if okres(a, e2) == "Ok" else "~"
                    if r == frozenset(["Err"]):
                        return iskind("Err")[1](e2, a)
                    # popped again
                    if not any(ev[0] == "call" and re.search(r"Vec::(pop|truncate|remove|swap_remove)$", ev[1]) for ev in p.events):
                        return "!a definition stays noted as being expanded after it was followed"
                    i = inserts(p, e2)
                    for x in i:
                        if not contains_term(x[1], lambda y: y == e2.n(cell)):
                            return "!%s is noted as having a finite expansion" % show(x[1])
                    return iskind("Ok")[1](e2, a)
                return ("pred", f)
            parts = None
            try:
                parts = vf.summarize(fn)
            except Budget as ex:
                rep.unknown(str(ex))
            if parts:
                rep.merge(fn, C.check_parts(fn, parts, spec, kinds=("ret", "back", "exit")))
                # noted as finite only after success
                for p in parts:
                    N = C.norm(fn)
                    if not N.add_facts(p.facts) or p.kind != "ret":
                        continue
                    ev = [(i, x) for i, x in enumerate(p.events)]
                    ins = [i for i, x in ev if x[0] == "map" and x[1] == "insert"]
                    rec = [i for i, x in ev if x[0] == "call" and x[1] == name]
                    if ins:
                        rep.expect(rec and min(ins) > max(rec), fn.path,
                                   "%s at %s: a definition is noted as having a finite expansion before it was followed" % (name, prog.pos(fn.sp)),
                                   "noted as finite after it was followed")
    if "check" in R and "rec" in R:
        reachable(prog, rep, R, want_rec=True)


def reachable(prog, rep, R, want_rec):
    """the check of everything reachable from the start pattern"""
    fn = R["check"]
    name = shortname(fn.path)
    ty = dict(zip(fn.argnames(), fn.argtypes()))
    pt = [("arg", n) for n, t in ty.items() if strip_ty(t).endswith("Pattern")]
    if len(pt) != 1:
        rep.unknown("the check works on other data")
        return
    pt = pt[0]
    keep = [fn] + ([R["rec"]] if "rec" in R else [])
    vf, C = mk(prog, keep)

    def spec(e, p):
        r = traverse(e, p, name, pt)
        if r is not None:
            return r
        cell = refcell(e, pt)
        seen = [x for k, x in p.facts.items() if k[0] == "v" and k[1][0] == "call" and k[1][1] == "map:get"
                and contains_term(e.n(k[1][2][-1]), lambda y: y == e.n(cell))]
        if seen == [frozenset(["Some"])]:
            return iskind("Ok")
        if e.variant(("cell", cell), OPT) == "None":
            return wanterr("UndefinedReference")
        body = pattof(e, cell)

        def f(e2, a):
            if not want_rec and "rec" in R:
                for c in calls(p, e2, R.name("rec")):
                    if e2.N.vfacts.get(("call", R.name("rec"), tuple(c))) == frozenset(["Err"]):
                        return iskind("Err")[1](e2, a)
            if want_rec:
                rc = calls(p, e2, R.name("rec"))
                if not rc:
                    return "!a definition is not checked for recursion" if okres(a, e2) == "Ok" else "~"
                c = rc[0]
                active = [x for x in c if x[0] == "arr"]
                if not (e2.n(pt) in c and ("arr", ()) in c or body in c and active and len(active[0][1]) == 1):
                    return ("!" if body in c and ("arr", ()) in c else "~") + "the recursion check starts with %s" % ", ".join(show(x) for x in c)
                r = e2.N.vfacts.get(("call", R.name("rec"), tuple(c)))
                if r is None:
                    return "!the result of the recursion check is ignored"
                if r == frozenset(["Err"]):
                    return iskind("Err")[1](e2, a)
            return onchild(e2, p, name, body, "a referenced definition")[1](e2, a)
        return ("pred", f)
    try:
        parts = vf.summarize(fn)
    except Budget as ex:
        rep.unknown(str(ex))
        return
    rep.merge(fn, C.check_parts(fn, parts, spec, kinds=("ret", "back", "exit")))


# ------------------------------------------------------------------------------------- M04
def undef_test(lam):
    """how a search condition treats an entry without definition: 'exact', 'weak' (may pass it over) or None"""
    if lam[0] != "lam":
        return None
    out = "exact"
    for c in lam[3]:
        facts, kind, val = c[0], c[1], c[2]

        def isund(t, want):
            if t[0] == "not":
                return isund(t[1], not want)
            return t[0] == "isv" and "refs" not in repr(t) and t[1][0] == "cell" and (("None" in t[3] and "Some" not in t[3]) == want)
        und = [f for f in facts if f[0][0] == "v" and f[0][1][0] == "cell"] if facts and isinstance(facts[0], tuple) and len(facts[0]) == 2 else []
        if any(f[1] == frozenset(["Some"]) for f in und):
            continue
        if val == ("bool", True) or isund(val, True):
            continue
        if val == ("bool", False) or val[0] == "and" and all(isinstance(x, tuple) for x in val[1:]):
            out = "weak"
            continue
        return None
    return out


def allknown(p, e, N):
    """what a path knows about the names of a definition table: 'yes' all have a definition / 'no' some is without / 'part', 'weak' not all were
    asked for / 'loop', 'body' / '~' / None"""
    isref = lambda s: any(y[0] == "fld" and y[3] == "refs" and y[2].startswith(CTX) for y in subterms(s))
    for (k, t), x in p.facts.items():
        if k == "v" and t[0] == "call" and t[1] == "iter:find" and isref(t[2][0]):
            w = undef_test(N.n(t[2][1]))
            if w:
                if partial(N.n(t[2][0]), ("call", "newmap", ())):
                    return "part"
                return "no" if x == frozenset(["Some"]) else "yes" if w == "exact" else "weak"
            return "~"
        if k == "b" and t[0] == "call" and t[1] in ("iter:any", "iter:all"):
            return "~"
        if k == "b" and t[0] == "more" and t[1][0] == "loop" and isref(t[1][3]):
            if partial(N.n(t[1][3]), ("call", "newmap", ())):
                return "part"
            return "loop" if x is False else "body"
    return None


def m04(prog, rep, tier):
    rep.rule("a grammar - the schema's own, a nested or an external one - is accepted only if every name referenced in it is defined and it has a start "
             "definition; the accepted schema is that start definition, checked with everything reachable from it")
    rep.rule("the check reaches every member of every kind of pattern, including below elements and attributes and in exceptions, and every definition")
    R = Roles(prog, rep, CRATE)
    R.get("check", "Compiler::check")
    R.get("rec", "Compiler::check_recursion", optional=True)
    top = prog.fns.get("relaxng_model::Compiler::compile")
    if top is None:
        rep.bad("anchor:Compiler::compile", "the function compiling a schema file is no longer there")
    else:
        R.m["compile"] = top
        rep.functions.add(top.path)
    R.get("schema", "Compiler::compile_schema")
    if "check" in R:
        reachable(prog, rep, R, want_rec=False)
    one, seq = handlers(prog, "relaxng_syntax::types::GrammarContent")
    hs = [f for f, i in one + seq]
    STARTV = ("str", "start")

    def tables(prog, rep, fn, keep, top):
        vf, C = mk(prog, keep)
        try:
            parts = vf.summarize(fn)
        except Budget as ex:
            rep.unknown(str(ex))
            return
        inner = {shortname(f.path) for f in hs} if not top else {R.name("schema")} if "schema" in R else set()
        folds = fold_loops(parts)
        body_ok = set()
        for p in parts:
            N = C.norm(fn, folds)
            if N.add_facts(p.facts) and p.kind == "back":
                for (k, t), x in p.facts.items():
                    if k == "v" and x == frozenset(["Some"]) and any(y[0] == "elem" and any(z[0] == "fld" and z[3] == "refs" for z in subterms(y)) for y in subterms(t)):
                        body_ok.add("some")
                    if k == "v" and x == frozenset(["None"]) and any(y[0] == "elem" and any(z[0] == "fld" and z[3] == "refs" for z in subterms(y)) for y in subterms(t)):
                        body_ok.add("none")

        def spec(e, p):
            if p.kind == "panic":
                return ("any",)
            did = [c for n in inner for c in calls(p, e, n)]
            if not did:
                return ("any",)
            bad = [n for n in inner for c in calls(p, e, n) if e.N.vfacts.get(("call", n, tuple(c))) == frozenset(["Err"])]
            if bad:
                return iskind("Err")
            ak = allknown(p, e, e.N)
            st = [(e.n(t), x) for (k, t), x in p.facts.items() if k == "v" and t[0] == "call" and t[1] == "map:get" and t[2][1] == STARTV]

            def f(e2, a):
                res = okres(a, e2)
                if ak in ("no", "body"):
                    if ak == "body":
                        return None
                    return iskind("Err")[1](e2, a)
                if st and st[0][1] == frozenset(["None"]):
                    return iskind("Err")[1](e2, a)
                if res == "Err":
                    return None
                ct = [c for c in calls(p, e2, R.name("check"))] if top and "check" in R else []
                if top and not ct:
                    return "!the schema is accepted without checking what its start pattern refers to"
                if top:
                    r = e2.N.vfacts.get(("call", R.name("check"), tuple(ct[0])))
                    if r is None:
                        return "!the result of the check is ignored"
                    if r == frozenset(["Err"]):
                        return iskind("Err")[1](e2, a)
                if ak is None:
                    return "!the grammar is accepted without asking whether the names referenced are defined"
                if ak == "weak":
                    return "!!some names without definition are accepted"
                if ak == "part":
                    return "!!some names are not checked for a definition"
                if ak == "loop" and "none" in body_ok:
                    return "!!a name without definition is passed over"
                if ak == "~" or ak == "loop" and "some" not in body_ok:
                    return "~"
                if not st:
                    return "!the grammar is accepted without a start definition" if not contains_term(a, lambda y: y == STARTV) else "~"
                g = st[0][0]
                cell = ("cell", fld(g, OPT, "Some", 0))
                if res != "Ok":
                    return "~" + show(a)
                val = dict(a[3])["0"] if a[0] == "adt" else ("fld", a, RES + "::Ok", "0")
                if top:
                    if val != e2.n(fld(g, OPT, "Some", 0)):
                        return "!the accepted schema is %s" % show(val)
                    if not any(contains_term(x, lambda y: y == g) for x in ct[0]):
                        return "!what is checked is %s" % show(ct[0][-1])
                    return None
                r = e2.n(fld(cell, OPT, "Some", 0))
                k = e2.N.vfacts.get(r)
                if k and len(k) == 1 and val == e2.n(fld(r, DR, next(iter(k)), 2)):
                    return None
                if contains_term(val, lambda y: y == g):
                    return "!!the grammar stands for %s" % show(val) if val[0] == "adt" and val[1] == MPAT else "~"
                return "the grammar stands for %s" % show(val)
            return ("pred", f)
        rep.merge(fn, C.check_parts(fn, parts, spec, kinds=("ret", "exit")))
    if "compile" in R:
        tables(prog, rep, R["compile"], [R[x] for x in ("check", "rec", "schema") if x in R] + named(prog, ["get_schema", "file"]), True)
    for nm in ("compile_grammar_pattern", "compile_external"):
        fn = prog.find("Compiler::" + nm, CRATE)
        if fn is None:
            rep.bad("anchor:Compiler::" + nm, "Compiler::%s is no longer there" % nm)
            continue
        tables(prog, rep, fn, hs + lits(prog) + named(prog, ["file", "get_schema", "new_include", "inherit_namespace", "compile_declaration", "compile_pattern"]), False)
