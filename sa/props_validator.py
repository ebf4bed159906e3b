"""Derivative operations of the validator: reference definitions after 'An algorithm for RELAX NG validation'."""
from lib import *

CRATE = "relaxng_validator"
DERIVS = ["text_deriv", "start_tag_open_deriv", "apply_after", "att_deriv", "start_tag_close_deriv", "end_tag_deriv",
          "value_match"]
CONS = ["choice", "group", "interleave", "after", "one_or_more"]
SIGS = {
    "text_deriv": ["Pat", "Schema", "str"],
    "start_tag_open_deriv": ["Pat", "Schema", "QualifiedName"],
    "start_tag_close_deriv": ["PatId", "Schema"],
    "end_tag_deriv": ["Pat", "Schema"],
}


class V:
    """the engine set up for the validator crate"""

    def __init__(self, prog, rep, need=(), cons=True):
        self.prog, self.rep = prog, rep
        self.R = Roles(prog, rep, CRATE)
        for d in DERIVS:
            self.R.get(d, "Validator::" + d, SIGS.get(d), optional=d not in need)
        self.R.get("contains", "contains", ["relaxng_model::model::NameClass", "QualifiedName"], optional="contains" not in need)
        if cons:
            for c in CONS:
                self.R.get(c, "Schema::" + c, optional=c not in need)
        for x in DERIVS + CONS:
            if x in self.R and x not in need:
                rep.functions.discard(self.R[x].path)
        paths = self.R.paths()
        opq = lambda f: f.path in paths or f.name in ("is_nullable", "is_valid")
        self.vf = VF(prog, opaque=opq, transparent={"Schema::patt": 1, "Schema::push": 1},
                     stable=("Schema", "HashMap<PatId, PatId>"))
        self.C = Checker(prog, self.vf, statef=statef_validator, vocab=["split_ascii_whitespace", "is_valid", "is_nullable"])
        self.nn = 0

    def sig(self, role):
        return Sig(self.R[role])

    def check(self, role, spec, **kw):
        if role not in self.R:
            return
        fn = self.R[role]
        R = self.C.check(fn, spec, **kw)
        self.rep.merge(fn, R)
        for s in ("%s: %d cases agree with the reference definition" % (shortname(fn.path), R.discharged),):
            self.rep.samples.append(s)
        return R


def allchars_ws(t):
    return ("allchars", t, WS)


def call_is_valid(dt, text):
    return ("call", "<datatype>is_valid", (dt, text))


# ------------------------------------------------------------------------------------- V01
def v01(prog, rep, tier):
    rep.rule("value-flow summary of the start-tag derivative and of its 'apply after' helper, one case per variant of the "
             "pattern type, equals the reference definition modulo the algebra of the pattern operators")
    v = V(prog, rep, need=["start_tag_open_deriv", "apply_after", "contains"])
    if "start_tag_open_deriv" not in v.R or "apply_after" not in v.R:
        return
    S, AA, CT = v.sig("start_tag_open_deriv"), v.sig("apply_after"), v.sig("contains") if "contains" in v.R else None
    cur, name = S.arg("pat"), S.arg("name")
    D = lambda x: S.call(pat=x)

    def spec(env, p):
        def after_map(x, f):
            return AA.call(pat=x, f=("lam", "n", 1, (((), "ret", env.n(f(("lv", 0, 0)))),)))
        k = env.variant(cur, PAT)
        if k == "Choice":
            return ("ret", ("choice", D(p0(cur, k)), D(p1(cur, k))))
        if k == "OneOrMore":
            i = p0(cur, k)
            return ("ret", after_map(D(i), lambda x: ("group", x, ("choice", ("one_or_more", i), EMPTY))))
        if k == "Interleave":
            a, b = p0(cur, k), p1(cur, k)
            return ("ret", ("choice", after_map(D(a), lambda x: ("interleave", x, b)), after_map(D(b), lambda x: ("interleave", a, x))))
        if k == "Group":
            a, b = p0(cur, k), p1(cur, k)
            x = after_map(D(a), lambda x: ("group", x, b))
            if env.true(("nullable", a)):
                return ("ret", ("choice", x, D(b)))
            return ("ret", x)
        if k == "Element":
            if env.true(("call", v.R.name("contains"), ctargs(CT, fld(cur, PAT, k, 0), name))):
                return ("ret", ("after", p1(cur, k), EMPTY))
            return ("ret", NA)
        if k == "After":
            return ("ret", after_map(D(p0(cur, k)), lambda x: ("after", x, p1(cur, k))))
        if k == "Placeholder":
            return ("any",)
        return ("ret", NA)

    def ctargs(sig, nc, nm):
        return sig.call(nc=nc, name=nm)[2] if sig else (nc, nm)
    v.check("start_tag_open_deriv", spec)

    A = AA
    pat, f = A.arg("pat"), A.arg("f")

    def aspec(env, p):
        k = env.variant(pat, PAT)
        if k == "After":
            return ("ret", ("after", p0(pat, k), ("call", "apply", (f, p1(pat, k)))))
        if k == "Choice":
            return ("ret", ("choice", A.call(pat=p0(pat, k)), A.call(pat=p1(pat, k))))
        if k == "NotAllowed":
            return ("ret", NA)
        return ("any",)    # never the result of a start-tag derivative
    v.check("apply_after", aspec)


# ------------------------------------------------------------------------------------- V02
def v02(prog, rep, tier):
    rep.rule("value-flow summary of the text derivative, one case per variant of the pattern type, equals the reference definition")
    v = V(prog, rep, need=["text_deriv"])
    if "text_deriv" not in v.R:
        return
    S = v.sig("text_deriv")
    cur, text = S.arg("pat"), S.arg("text")
    D = lambda x, t=None: S.call(pat=x, text=t or text)

    def valid(env, dt):
        return env.true(("call", "Datatype::is_valid", (dt, text)))

    def spec(env, p):
        k = env.variant(cur, PAT)
        if k == "Choice":
            return ("ret", ("choice", D(p0(cur, k)), D(p1(cur, k))))
        if k == "Interleave":
            a, b = p0(cur, k), p1(cur, k)
            return ("ret", ("choice", ("interleave", D(a), b), ("interleave", a, D(b))))
        if k == "Group":
            a, b = p0(cur, k), p1(cur, k)
            x = ("group", D(a), b)
            return ("ret", ("choice", x, D(b)) if env.true(("nullable", a)) else x)
        if k == "After":
            return ("ret", ("after", D(p0(cur, k)), p1(cur, k)))
        if k == "OneOrMore":
            i = p0(cur, k)
            return ("ret", ("group", D(i), ("choice", ("one_or_more", i), EMPTY)))
        if k == "Text":
            return ("ret", TEXT)
        if k in ("Datatype", "DatatypeValue"):
            return ("ret", EMPTY if valid(env, p0(cur, k)) else NA)
        if k == "DatatypeExcept":
            if not valid(env, p0(cur, k)):
                return ("ret", NA)
            return ("ret", NA if env.true(("nullable", D(p1(cur, k)))) else EMPTY)
        if k == "List":
            split = [x for x in subterms(tuple(p.facts)) if x[0] == "call" and "split" in x[1] and text in x[2]]
            src = ("call", "core::str::split_ascii_whitespace", (text,))
            acc, it = ("accv", "f"), ("itv", "f")
            F = ("fold", src, p0(cur, k), D(acc, it), "f")
            # an item which the rest of the list does not allow ends the walk
            for a, x in p.facts.items():
                if a[0] == "v" and x == frozenset(["NotAllowed"]):
                    t = env.n(a[1])
                    if t == env.n(D(F, ("elem", src))):
                        return ("ret", NA)
            if env.variant(F, PAT) == "NotAllowed":
                return ("pred", lambda e, a: None if a in (NA, e.n(("list", F))) else "a list whose items do not match stays allowed")
            if env.true(("nullable", F)):
                # more of the list may follow in a further piece of text, or this is its end
                if env.n(F) == EMPTY:
                    return ("pred", lambda e, a: None if a in (EMPTY, e.n(("choice", EMPTY, ("list", EMPTY)))) else
                            "the list is complete, which is not what this pattern says")
                return ("ret", ("choice", EMPTY, ("list", F)))
            return ("ret", ("list", F))
        if k == "Empty":
            return ("ret", EMPTY if env.true(allchars_ws(text)) else NA)
        if k == "Element":
            return ("ret", cur if env.true(allchars_ws(text)) else NA)
        if k == "Placeholder":
            return ("any",)
        return ("ret", NA)
    v.check("text_deriv", spec)


# ------------------------------------------------------------------------------------- V03
def v03(prog, rep, tier):
    rep.rule("value-flow summaries of the attribute derivative, of attribute value matching and of the start-tag-close "
             "derivative equal their reference definitions; the memo table only ever maps a pattern to the result "
             "computed for that pattern, and is created anew for each attribute")
    v = V(prog, rep, need=["att_deriv", "value_match", "start_tag_close_deriv"])
    if "att_deriv" in v.R:
        S = v.sig("att_deriv")
        pat, att = S.arg("pat"), S.arg("att")
        D = lambda x: S.call(pat=x)

        def memo_hit(env, p):
            for a, x in p.facts.items():
                if a[0] == "v" and a[1][0] == "call" and a[1][1] == "map:get" and x == frozenset(["Some"]):
                    return a[1]

        def spec(env, p):
            m = memo_hit(env, p)
            if m is not None:
                if m[2][-1] != pat:
                    return ("pred", lambda e, a: "the memo table is consulted for another pattern than the one given")
                return ("ret", fld(m, OPT, "Some", 0))
            k = env.variant(pat, PAT)
            if k == "After":
                return ("ret", ("after", D(p0(pat, k)), p1(pat, k)))
            if k == "Choice":
                return ("ret", ("choice", D(p0(pat, k)), D(p1(pat, k))))
            if k in ("Group", "Interleave"):
                a, b = p0(pat, k), p1(pat, k)
                op = k.lower()
                return ("ret", ("choice", (op, D(a), b), (op, a, D(b))))
            if k == "OneOrMore":
                return ("ret", ("group", D(p0(pat, k)), ("choice", pat, EMPTY)))
            if k == "Attribute":
                nm = ("fld", att, ATTR, "name")
                val = S.arg("text") or ("fld", att, ATTR, "value")
                if not env.true(("call", v.R.name("contains"), (fld(pat, PAT, k, 0), nm))):
                    return ("ret", NA)
                vm = v.sig("value_match").call(pat=p1(pat, k), text=val)
                return ("ret", EMPTY if env.true(vm) else NA)
            return ("ret", NA)
        v.R.get("contains", "contains", optional=True)
        v.check("att_deriv", spec)
        # the memo
        for p in v.vf.summarize(v.R["att_deriv"]):
            for e in p.events:
                if e[0] == "map" and e[1] == "insert":
                    _, key, val = e[2]
                    if p.kind != "ret":
                        continue
                    rep.expect(key == pat and val == p.val, v.R["att_deriv"].path,
                               "att_deriv at %s: the memo table is given %s for %s, where the result for %s is %s" % (
                                   prog.pos(v.R["att_deriv"].sp), show(val), show(key), show(pat), show(p.val)))
        memo_rule(prog, rep, v)
    if "value_match" in v.R:
        S = v.sig("value_match")
        pat, text = S.arg("pat"), S.arg("text")

        def vspec(env, p):
            d = v.sig("text_deriv").call(pat=pat, text=text)
            return ("bool", ("or", ("and", ("nullable", pat), allchars_ws(text)), ("nullable", d)))
        v.check("value_match", vspec)
    if "start_tag_close_deriv" in v.R:
        S = v.sig("start_tag_close_deriv")
        pat = S.arg("pat")
        D = lambda x: S.call(pat=x)

        def cspec(env, p):
            k = env.variant(pat, PAT)
            if k == "After":
                return ("ret", ("after", D(p0(pat, k)), p1(pat, k)))
            if k in ("Choice", "Group", "Interleave"):
                return ("ret", (k.lower(), D(p0(pat, k)), D(p1(pat, k))))
            if k == "OneOrMore":
                return ("ret", ("one_or_more", D(p0(pat, k))))
            if k == "Attribute":
                return ("ret", NA)
            return ("ret", pat)
        v.check("start_tag_close_deriv", cspec)


def memo_rule(prog, rep, v):
    """a memo table handed to the attribute derivative is created for that attribute: at the call it is a new, empty
    table, not one carried over from an earlier attribute or from the caller"""
    target = v.R["att_deriv"]
    if "memo" not in v.sig("att_deriv").kinds:
        return
    callers = [f for f in prog.fns.values() if f.crate == CRATE and f.path != target.path and target.path in callees(prog, f)]
    own = v.R.paths()
    vf = VF(prog, opaque=lambda f: f.path in own, transparent={"Schema::patt": 1, "Schema::push": 1}, stable=("Schema",))
    k = v.sig("att_deriv").kinds.index("memo")
    for fn in callers:
        if any("HashMap<PatId, PatId>" in t for t in fn.argtypes()):
            rep.unknown("%s hands on a memo table it was given" % shortname(fn.path))
            continue
        rep.functions.add(fn.path)
        n = 0
        for p in vf.summarize(fn):
            for e in p.events:
                if e[0] == "call" and e[1] == v.R.name("att_deriv"):
                    n += 1
                    m = e[2][k]
                    rep.expect(m == ("call", "newmap", ()), fn.path,
                               "%s at %s: the attribute derivative is given the memo table %s, which may hold results "
                               "computed for another attribute" % (shortname(fn.path), prog.pos(e[3]), show(m)),
                               "%s: new memo table for each attribute" % shortname(fn.path))
        if not n:
            rep.unknown("%s: no call of the attribute derivative seen" % shortname(fn.path))


# ------------------------------------------------------------------------------------- V04
def v04(prog, rep, tier):
    rep.rule("value-flow summary of the end-tag derivative, one case per variant of the pattern type, equals the reference definition")
    v = V(prog, rep, need=["end_tag_deriv"])
    if "end_tag_deriv" not in v.R:
        return
    S = v.sig("end_tag_deriv")
    pat = S.arg("pat")

    def spec(env, p):
        k = env.variant(pat, PAT)
        if k == "Choice":
            return ("ret", ("choice", S.call(pat=p0(pat, k)), S.call(pat=p1(pat, k))))
        if k == "After":
            return ("ret", p1(pat, k) if env.true(("nullable", p0(pat, k))) else NA)
        return ("ret", NA)
    v.check("end_tag_deriv", spec)


# ------------------------------------------------------------------------------------- V05
def v05(prog, rep, tier):
    rep.rule("every pattern constructor yields a pattern equivalent to the operator applied to its operands (units, "
             "'not allowed' absorption, and a nullability flag computed from both operands by the operator's own rule)")
    rep.rule("the nullability test reads the stored flag of compound patterns and gives the fixed answer of the other variants")
    rep.rule("a compound pattern is built nowhere but in its constructor")
    R = Roles(prog, rep, CRATE)
    ops = {"choice": 2, "group": 2, "interleave": 2, "after": 2, "one_or_more": 1, "mixed": 1, "empty": 0, "text": 0,
           "not_allowed": 0, "list": 1}
    for o in ops:
        R.get(o, "Schema::" + o, optional=o in ("mixed", "empty", "text", "not_allowed", "list"))
    R.get("is_nullable", "Pat::is_nullable")
    cons = {R[o].path for o in ops if o in R}
    for o in ops:
        if o not in R:
            continue
        fn = R[o]
        vf = VF(prog, opaque=lambda f: False, transparent={"Schema::patt": 1, "Schema::push": 1}, stable=("Schema",))
        C = Checker(prog, vf, statef=statef_validator)
        args = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if kindof(t) == "pat"]

        def spec(env, p, o=o, args=args):
            for a in args:
                env.variant(a, PAT)
            if o in ("empty", "text", "not_allowed"):
                return ("ret", {"empty": EMPTY, "text": TEXT, "not_allowed": NA}[o])
            if len(args) != ops[o]:
                return ("any",)
            if o == "mixed":
                want = ("interleave", args[0], TEXT)
            elif o == "list":
                want = ("list", args[0])
            else:
                want = (o,) + tuple(args)
            if o == "choice":
                # equal alternatives are one alternative
                for (k, x) in p.facts.items():
                    if x is True and k[0] == "b" and k[1][0] == "eq" and set(k[1][1:3]) == set(args):
                        return ("pred", lambda e, a: None if a in [e.n(x) for x in args] or a == e.n(want) else
                                "not the one alternative given twice")
            return ("ret", want)
        rep.merge(fn, C.check(fn, spec))
    if "is_nullable" in R:
        fn = R["is_nullable"]
        vf = VF(prog, opaque=lambda f: False, stable=("Schema",))
        C = Checker(prog, vf, statef=statef_validator)
        a = ("arg", fn.argnames()[0])
        flag = {"Choice": 2, "Interleave": 2, "Group": 2, "OneOrMore": 1}

        def nspec(env, p):
            k = env.variant(a, PAT)
            if k in flag:
                return ("bool", ("nullable", a))
            if k == "Placeholder":
                return ("any",)
            return ("bool", TRUE if k in ("Empty", "Text") else FALSE)
        rep.merge(fn, C.check(fn, nspec))
    # who builds compound patterns
    owner = {"Choice": "choice", "Group": "group", "Interleave": "interleave", "After": "after", "OneOrMore": "one_or_more"}
    n = 0
    for fn in prog.fns.values():
        if fn.crate != CRATE or is_derived(prog, fn):
            continue
        for var, sp in builds(fn, PAT):
            if var not in owner:
                continue
            n += 1
            rep.functions.add(fn.path)
            o = owner[var]
            if o in R and fn.path != R[o].path and not only_called_from(prog, fn, R[o].path):
                rep.bad(fn.path, "%s builds a %s pattern at %s itself, outside the constructor which keeps its invariants" % (
                    shortname(fn.path), var, prog.pos(sp)))
            else:
                rep.good("%s built in %s" % (var, shortname(fn.path)))
    rep.count("compound pattern constructions", n)


# ------------------------------------------------------------------------------------- V06
def v06(prog, rep, tier):
    rep.rule("value-flow summary of name-class membership, one case per kind of name class and namespace presence, equals the "
             "reference definition (exact namespace and local name; a wildcard minus its exception; union)")
    v = V(prog, rep, need=["contains"])
    if "contains" not in v.R:
        return
    S = v.sig("contains")
    nc, tn = S.arg("nc"), S.arg("name")
    ns, loc = ("fld", tn, QN, "namespace_uri"), ("fld", tn, QN, "local_name")

    def spec(env, p):
        k = env.variant(nc, NCL)
        f = lambda n: ("fld", nc, NCL + "::" + k, n)

        def nsm():
            if env.variant(ns, OPT) == "Some":
                return ("eq", f("namespace_uri"), fld(ns, OPT, "Some", 0))
            return ("eq", f("namespace_uri"), ("str", ""))

        def exc():
            e = f("except")
            if env.variant(e, OPT) == "None":
                return TRUE
            return ("not", S.call(nc=fld(e, OPT, "Some", 0), name=tn))
        if k == "Named":
            return ("bool", ("and", nsm(), ("eq", f("name"), loc)))
        if k == "NsName":
            return ("bool", ("and", nsm(), exc()))
        if k == "AnyName":
            return ("bool", exc())
        return ("bool", ("or", S.call(nc=f("a"), name=tn), S.call(nc=f("b"), name=tn)))
    v.check("contains", spec)


# ------------------------------------------------------------------------------------- V07
DEFR = "relaxng_model::model::DefineRule"


def v07(prog, rep, tier):
    rep.rule("value-flow summary of the lowering of schema patterns into validator patterns, one case per schema pattern "
             "kind, equals the reference definition; n-ary operators cover every member exactly once, in order for groups")
    rep.rule("a reference yields the pattern registered for its definition, or a placeholder which is replaced by the "
             "lowered definition on that very path; the start pattern is rebuilt after lowering so that stored "
             "nullability reflects resolved references")
    R = Roles(prog, rep, CRATE)
    R.get("compile", "Validator::compile", ["Schema", "relaxng_model::model::Pattern"])
    R.get("start_tag_close_deriv", "Validator::start_tag_close_deriv", SIGS["start_tag_close_deriv"])
    R.get("new", "Validator::new")
    for c in CONS:
        R.get(c, "Schema::" + c)
    if "compile" not in R:
        return
    fn = R["compile"]
    opqs = {R[x].path for x in ["compile", "start_tag_close_deriv"] + CONS if x in R}
    vf = VF(prog, opaque=lambda f: f.path in opqs, transparent={"Schema::patt": 1, "Schema::push": 1}, stable=("Schema",))
    C = Checker(prog, vf, statef=statef_validator, vocab=["as_ptr"])
    kinds = [kindof(t) for t in fn.argtypes()]
    pat = [("arg", n) for n, k in zip(fn.argnames(), kinds) if k not in ("schema", "self")]
    if len(pat) != 1:
        rep.unknown("compile: unexpected arguments")
        return
    pat = pat[0]
    D = lambda x: ("call", shortname(fn.path), (x,))
    f0 = lambda k, i=0: fld(pat, MPAT, k, i)

    def spec(env, p):
        k = env.variant(pat, MPAT)
        if k in ("Choice", "Group", "Interleave"):
            if p.kind == "panic":
                return ("any",)      # no members: excluded by the schema compiler
            return ("ret", ("big", k.lower(), f0(k), D(("bv",))))
        if k == "Mixed":
            return ("ret", ("interleave", D(f0(k)), TEXT))
        if k in ("Empty", "Text", "NotAllowed"):
            return ("ret", ("adt", PAT, k, ()))
        if k == "Optional":
            return ("ret", ("choice", D(f0(k)), EMPTY))
        if k == "ZeroOrMore":
            return ("ret", ("choice", ("one_or_more", D(f0(k))), EMPTY))
        if k == "OneOrMore":
            return ("ret", ("one_or_more", D(f0(k))))
        if k in ("Attribute", "Element"):
            return ("ret", ("adt", PAT, k, (("0", f0(k)), ("1", D(f0(k, 1))))))
        if k == "DatatypeValue":
            return ("ret", ("adt", PAT, "DatatypeValue", (("0", f0(k, "datatype")),)))
        if k == "DatatypeName":
            e = f0(k, "except")
            if env.variant(e, OPT) == "None":
                return ("ret", ("adt", PAT, "Datatype", (("0", f0(k, "datatype")),)))
            return ("ret", ("adt", PAT, "DatatypeExcept", (("0", f0(k, "datatype")), ("1", D(fld(e, OPT, "Some", 0))))))
        if k == "List":
            return ("ret", ("list", D(f0(k))))
        if k == "Ref":
            if p.kind == "panic":
                return ("any",)

            def refok(e, a):
                ptr = [x for x in subterms(tuple(p.facts)) if x[0] == "call" and x[1].endswith("as_ptr")]
                if a[0] == "fld" and a[1][0] == "call" and a[1][1] == "map:get":
                    key = a[1][2][-1]
                    return None if contains_term(key, lambda y: y == e.n(f0(k, 2))) else \
                        "!the pattern registered for something other than this reference"
                if a[0] == "adt" and a[2] == "Placeholder":
                    # the definition has been lowered, and is registered before that
                    ins = [x for x in p.events if x[0] == "map" and x[1] == "insert"]
                    low = [x for x in p.events if x[0] == "call" and x[1] == shortname(fn.path)]
                    if not low:
                        return "!a placeholder whose definition is not lowered on this path"
                    if not ins:
                        return "!a placeholder which is not registered for later references"
                    ii, li = p.events.index(ins[0]), p.events.index(low[0])
                    if ii > li:
                        return "!a reference is registered only after its definition has been lowered"
                    return None
                return "unexpected result"
            return ("pred", refok)
        return None
    rep.merge(fn, C.check(fn, spec))
    # resolving: the placeholder's slot is overwritten by the lowered definition
    slot_writers(prog, rep)
    # the start pattern
    if "new" in R and "start_tag_close_deriv" in R:
        nf = R["new"]
        lowered = 0
        for p in vf.summarize(nf):
            if p.kind != "ret" or p.val[0] != "adt":
                continue
            N = C.norm(nf)
            if not N.add_facts(p.facts):
                continue
            d = dict(p.val[3])
            t = N.n(d.get("current_step", ("undef",)))
            real = lambda c: [x for x in c[2] if not (x[0] == "call" and x[1].startswith("default:"))]
            ok_ = t[0] == "call" and t[1] == R.name("start_tag_close_deriv") and len(real(t)) == 1 and real(t)[0][0] == "call" \
                and real(t)[0][1] == shortname(fn.path) and len(real(real(t)[0])) == 1
            if ok_:
                lowered += 1
                src = real(real(t)[0])[0]
                ok_ = src[0] == "fld" and src[2].startswith(DEFR) and contains_term(src, lambda y: y == ("arg", nf.argnames()[0]))
            if C.unknown(t) is not None and not ok_:
                rep.unknown("start pattern is %s" % show(t))
            else:
                rep.expect(ok_, nf.path, "Validator::new at %s: validation starts at %s, which is not the rebuilt lowering of the "
                           "model's start pattern" % (prog.pos(nf.sp), show(t)), "validation starts at the rebuilt lowering of the start pattern")


def slot_writers(prog, rep):
    """the only stores into an existing pattern slot put the resolved definition into its placeholder"""
    for fn in prog.fns.values():
        if fn.crate != CRATE or fn.name != "resolve_ref":
            continue
        rep.functions.add(fn.path)
        vf = VF(prog, opaque=lambda f: False, transparent={"Schema::patt": 1}, stable=())
        A = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if kindof(t) == "pat"]
        if len(A) != 2:
            continue
        try:
            parts = vf.summarize(fn)
        except Budget:
            return
        for p in parts:
            if p.kind != "ret":
                continue
            same = any(k[0] == "b" and k[1][0] == "eq" and x is True and set(k[1][1:3]) == set(A) for k, x in p.facts.items())
            st = [e for e in p.events if e[0] == "store"]
            if same:
                continue
            if not st:
                rep.unknown("resolve_ref: no store seen")
                continue
            for e in st:
                rep.good("placeholder slot overwritten in resolve_ref")
