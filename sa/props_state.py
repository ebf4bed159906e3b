"""The validator around its derivatives: token dispatch, namespaces, references in text, end of document, interning."""
from lib import *
from props_validator import V, CRATE, DERIVS, CONS, SIGS
from spec import LamPart, Result

EST = "relaxng_validator::ElementState::ElementState"
NSD = "relaxng_validator::Ns::Ns"
UATT = "relaxng_validator::UnresolvedAttr::UnresolvedAttr"
STK = "relaxng_validator::ElementStack::ElementStack"
SELF = ("arg", "self")


def same(t):
    """exactly this value"""
    return ("ret", t)


def iskind(k):
    """an Ok / Err / Some / None value of the result type"""
    def f(e, a):
        if a[0] == "adt":
            return None if a[2] == k else "!a result of kind %s, not %s" % (a[2], k)
        vf = e.N.vfacts.get(a)
        if vf == frozenset([k]):
            return None
        return "not known to be %s" % k
    return ("pred", f)


def final(p, e, place, default=None):
    """value of a place at the end of the path"""
    for k, v in p.heap.items():
        if e.n(k) == e.n(place):
            return e.n(v)
    return e.n(place if default is None else default)


def mutations(p, e, name=None):
    """(place, operation, arguments) of the in-place updates on a path"""
    for ev in p.events:
        if ev[0] == "mut" and (name is None or ev[1] == name):
            yield ev[1], [e.n(x) for x in ev[2]]


def isna(e, t):
    return e.true(("isv", t, PAT, frozenset(["NotAllowed"])))


def pops(p, e, place):
    """how often the sequence at `place` is popped on the path"""
    place = e.n(place)
    n = 0
    for ev in p.events:
        if ev[0] == "call" and ev[1].endswith("Vec::pop") and e.n(ev[2][0]) == place:
            n += 1
        if ev[0] == "call" and ev[1].endswith("Vec::pop") and e.n(ev[2][0])[0] == "upd":
            n += 1
    return n


# ------------------------------------------------------------------------------------- V09
def v09(prog, rep, tier):
    rep.rule("value-flow summary of the token handler, one case per token kind, equals the reference definition: the result is "
             "an error exactly when the derivative is 'not allowed' (or a sub-step fails), the pattern state becomes the "
             "derivative, and tokens without validation meaning leave the state alone")
    rep.rule("value-flow summary of start-tag completion: derivative by the element name, then by each attribute in "
             "turn with its decoded value, then the start-tag-close derivative; each step's failure is reported")
    R = Roles(prog, rep, CRATE)
    R.get("validate", "Validator::validate")
    for d in ("text_deriv", "start_tag_open_deriv", "att_deriv", "start_tag_close_deriv", "end_tag_deriv"):
        R.get(d, "Validator::" + d, SIGS.get(d))
    R.get("choice", "Schema::choice")
    R.get("decode_text", "decode_text")
    R.get("close", "Validator::close_element_start", optional=True)
    for x in ("current_element", "current_attributes"):
        R.get(x, "ElementStack::" + x, optional=True)
    if "validate" not in R or "decode_text" not in R:
        return
    fn = R["validate"]
    ops = {R[x].path for x in R.m if x not in ("validate",)}
    others = {f.path for f in prog.fns.values() if f.crate == CRATE and f.name in CONS + ["lookup_namespace_uri", "apply_after"]}
    vf = VF(prog, opaque=lambda f: f.path in ops or f.path in others,
            transparent={"Schema::patt": 1, "Schema::push": 1}, stable=("Schema",))
    C = Checker(prog, vf, statef=statef_validator)
    fields = {f for f in (prog.fields(VAL.rsplit("::", 1)[0], "Validator") or [])}
    need = {"current_step", "last_was_start_element", "stack", "entity_definitions"}
    if not need <= fields:
        rep.unknown("the validator's state is kept differently (%s)" % ", ".join(sorted(fields)))
        return
    st = {n: ("fld", SELF, VAL, n) for n in fields}
    cur, flag = st["current_step"], st["last_was_start_element"]
    elems = ("fld", st["stack"], STK, "elements")
    argn = fn.argnames()
    evt = ("arg", argn[1])
    TD, ED = Sig(R["text_deriv"]), Sig(R["end_tag_deriv"])
    dec = R.name("decode_text")
    choice = lambda a, b: ("choice", a, b)

    def unchanged(e, p, what):
        for n in what:
            if final(p, e, st[n]) != e.n(st[n]):
                return "!%s changed by a token without validation meaning" % n
        return None

    def failing(p):
        """an error; what was expected before it is what is told to be expected"""
        def f(e2, a):
            r = iskind("Err")[1](e2, a)
            if r:
                return r
            got = final(p, e2, cur)
            if got != e2.n(cur):
                return "!after an error what is expected is %s, not what was before it" % show(got)
            return None
        return ("pred", f)

    def outcome(e, p, new, close, flagv):
        """the derivative decides: error, or the next state"""
        na = isna(e, new)
        if na:
            return failing(p)

        def okf(e2, a):
            r = iskind("Ok")[1](e2, a)
            if r:
                return r
            got = final(p, e2, cur)
            want = e2.n(new)
            if got != want:
                u = C.unknown(got, e2.trusted)
                return ("" if u is not None else "!") + "the pattern state becomes %s where the definition gives %s" % (show(got), show(want))
            fl = final(p, e2, flag)
            if fl != ("bool", flagv):
                return "!the 'no children yet' flag becomes %s, expected %s" % (show(fl), flagv)
            k = pops(p, e2, elems)
            if k != (1 if close else 0):
                return "!the element stack is popped %d times" % k
            return None
        return ("pred", okf)

    def closed(e, tokvar):
        """result term of the start-tag completion"""
        c = R["close"] if "close" in R else None
        return c

    def spec(e, p):
        k = e.variant(evt, TOK)
        f = lambda n: ("fld", evt, TOK + "::" + k, n)
        if k in ("EmptyDtd", "Comment", "ProcessingInstruction", "Declaration", "DtdStart", "DtdEnd"):
            return ("pred", lambda e2, a: iskind("Ok")[1](e2, a) or
                    unchanged(e2, p, ["current_step", "last_was_start_element", "stack", "entity_definitions"]))
        if k == "ElementStart":
            def started(e2, a):
                r = iskind("Ok")[1](e2, a) or unchanged(e2, p, ["current_step", "last_was_start_element"])
                if r:
                    return r
                got = final(p, e2, elems)
                if got[0] == "upd" and got[1] == "push":
                    el = got[2][-1]
                    d = dict(el[3]) if el[0] == "adt" else {}
                    if e2.n(got[2][0]) != e2.n(elems):
                        return "the element is not put on top of the open elements"
                    for q, src in (("prefix", f("prefix")), ("local", f("local"))):
                        if d.get(q) != e2.n(src):
                            return "!the open element records %s as its %s" % (show(d.get(q, ("undef",))), q)
                    for q in ("namespaces", "attributes"):
                        if show(d.get(q, ("undef",))) != "[]":
                            return "the open element starts with %s as its %s" % (show(d.get(q, ("undef",))), q)
                    return None
                return "!the element is not pushed on the stack of open elements" if got == e2.n(elems) else "stack is %s" % show(got)
            return ("pred", started)
        if k == "Attribute":
            return ("pred", lambda e2, a: iskind("Ok")[1](e2, a) or
                    unchanged(e2, p, ["current_step", "last_was_start_element", "entity_definitions"])) \
                if p.kind == "ret" else ("any",)
        if k == "Cdata":
            return outcome(e, p, TD.call(pat=cur, text=f("text")), False, False)
        if k == "Text":
            d = ("call", dec, (st["entity_definitions"], f("text")))
            if e.variant(d, RES) == "Err":
                return ("pred", lambda e2, a: failing(p)[1](e2, a) if a != e2.n(d) else None)
            return outcome(e, p, TD.call(pat=cur, text=fld(d, RES, "Ok", 0)), False, False)
        if k == "EntityDeclaration":
            return ("any",)
        if k == "ElementEnd":
            end = f("end")
            v = e.variant(end, EEND)
            if v == "Close":
                cmp_ = close_matches(e, elems, fld(end, EEND, v, 0), fld(end, EEND, v, 1))
                if cmp_ is False:
                    return failing(p)
                t = choice(cur, TD.call(pat=cur, text=("str", ""))) if e.true(flag) else cur
                return outcome(e, p, ED.call(pat=t), True, False)
            if "close" not in R:
                return ("any",)
            c = close_call(e)
            if c is None:
                return ("any",)
            if e.variant(c, RES) == "Err":
                return ("pred", lambda e2, a: failing(p)[1](e2, a) if a != e2.n(c) else None)
            new = fld(c, RES, "Ok", 0)
            if v == "Open":
                return outcome(e, p, new, False, True)
            t = choice(new, TD.call(pat=new, text=("str", "")))
            return outcome(e, p, ED.call(pat=t), True, False)
        return None

    def close_call(e):
        c = R["close"]
        args = []
        for n, t in zip(c.argnames(), c.argtypes()):
            s = strip_ty(t)
            if s.startswith("ElementStack"):
                args.append(st["stack"])
            elif "HashMap<" in s:
                args.append(st["entity_definitions"])
            elif s.endswith("Token"):
                args.append(evt)
            elif s in ("Pat", "PatId"):
                args.append(cur)
            elif s == "Schema":
                args.append(st["schema"])
            else:
                return None
        return ("call", shortname(c.path), tuple(args))

    def close_matches(e, elems, prefix, local):
        """does the end tag carry the name of the innermost open element"""
        last = ("call", "core::slice::last", (elems,))
        if e.variant(last, OPT) == "None":
            return False
        top = fld(last, OPT, "Some", 0)
        g = lambda n: ("fld", top, EST, n)
        return e.true(("eq", g("prefix"), prefix)) and e.true(("eq", g("local"), local))
    rep.merge(fn, C.check(fn, spec))
    if "close" in R:
        v09_close(prog, rep, R)


def v09_close(prog, rep, R):
    fn = R["close"]
    ops = {R[x].path for x in R.m if x not in ("validate", "close")}
    others = {f.path for f in prog.fns.values() if f.crate == CRATE and f.name in CONS + ["lookup_namespace_uri", "apply_after"]}
    vf = VF(prog, opaque=lambda f: f.path in ops or f.path in others,
            transparent={"Schema::patt": 1, "Schema::push": 1}, stable=("Schema",))
    C = Checker(prog, vf, statef=statef_validator)
    args = {kindof(t): ("arg", n) for n, t in zip(fn.argnames(), fn.argtypes())}
    stack = [v for k, v in args.items() if k.startswith("ElementStack")]
    ents = [v for k, v in args.items() if "HashMap<" in k]
    pat = args.get("pat")
    if not (stack and ents and pat and "current_element" in R and "current_attributes" in R):
        rep.unknown("start-tag completion takes other arguments")
        return
    stack, ents = stack[0], ents[0]
    ce = ("call", R.name("current_element"), (stack,))
    ca = ("call", R.name("current_attributes"), (stack,))
    SO, AD, SC = Sig(R["start_tag_open_deriv"]), Sig(R["att_deriv"]), Sig(R["start_tag_close_deriv"])
    dec = R.name("decode_text")

    def spec(e, p):
        if e.variant(ce, RES) == "Err":
            return ("pred", lambda e2, a: None if a == e2.n(ce) else iskind("Err")[1](e2, a))
        o = SO.call(pat=pat, name=fld(ce, RES, "Ok", 0))
        if isna(e, o):
            return iskind("Err")
        if e.variant(ca, RES) == "Err":
            return ("pred", lambda e2, a: None if a == e2.n(ca) else iskind("Err")[1](e2, a))
        known = list(e.N.vfacts.items())
        # inside the attribute loop: a failing step is an error
        for t, vs in known:
            if contains_term(t, lambda y: y[0] in ("itv", "elem")) and t[0] == "call":
                if t[1] == dec and vs == frozenset(["Err"]) and p.kind == "ret":
                    return ("pred", lambda e2, a, t=t: None if a == t else iskind("Err")[1](e2, a))
                if t[1] == shortname(R["att_deriv"].path) and vs == frozenset(["NotAllowed"]):
                    return iskind("Err")
        fold = [y for y in list(subterms(e.n(p.val))) + [y for t, _ in known for y in subterms(t)] if y[0] == "fold"]
        if not fold:
            return ("pred", lambda e2, a: "does not take the attributes into account")
        fo = fold[0]
        e.trusted.add(fo)
        r = foldok(e, fo, o)
        if r:
            return ("pred", lambda e2, a: r)
        if isna(e, fo):
            return iskind("Err")
        s = SC.call(pat=fo)
        e.trust(s)
        if isna(e, s):
            return iskind("Err")
        return ("pred", lambda e2, a: None if a == e2.n(ok(s)) else "!yields %s where the definition gives %s" % (show(a), show(e2.n(ok(s)))))

    def foldok(e, fo, o):
        """the fold over the attributes applies the attribute derivative of each, in turn, to the decoded value"""
        seq, init, stepv = fo[1], fo[2], fo[3]
        if e.n(init) != e.n(o):
            return "!the attributes are applied to %s, not to the start-tag derivative" % show(init)
        if e.n(seq) != e.n(fld(ca, RES, "Ok", 0)):
            return "the attributes processed are %s" % show(seq)
        t = stepv
        if t[0] != "call" or t[1] != shortname(R["att_deriv"].path):
            return "each attribute gives %s" % show(t)
        kinds = Sig(R["att_deriv"])
        for k, a in zip([k for k in kinds.kinds if k not in ("schema", "self")], t[2]):
            if k == "pat" and a[0] != "accv":
                return "!the attribute derivative is taken of %s, not of the pattern left by the attribute before" % show(a)
            if k == "att" and a[0] != "itv":
                return "the attribute derivative is taken by %s" % show(a)
            if k == "text":
                it = [x for x in subterms(t) if x[0] == "itv"]
                v = e.n(fld(("call", dec, (ents, ("fld", it[0], ATTR, "value"))), RES, "Ok", 0)) if it else None
                if a != v:
                    return "!the attribute derivative is given %s as the value" % show(a)
        return None
    rep.merge(fn, C.check(fn, spec))


# ------------------------------------------------------------------------------------- V10
def v10(prog, rep, tier):
    rep.rule("namespace lookup: the innermost declaration of a prefix wins, 'xml' is bound by definition, an undeclared "
             "prefix is an error, the absence of a default namespace is not")
    rep.rule("an unprefixed attribute is in no namespace; an element takes the default namespace; every attribute of the tag is resolved")
    rep.rule("xmlns attributes declare namespaces on their element and are not attributes; all others are attributes of their element")
    R = Roles(prog, rep, CRATE)
    R.get("lookup", "ElementStack::lookup_namespace_uri", ["ElementStack", "str"])
    R.get("element", "ElementStack::current_element")
    R.get("attributes", "ElementStack::current_attributes")
    R.get("add", "ElementStack::add_attr")
    need = {"prefix", "local", "namespaces", "attributes"}
    if not need <= set(prog.fields(EST.rsplit("::", 1)[0], "ElementState") or []):
        rep.unknown("open elements are kept differently")
        return
    vf0 = VF(prog, opaque=lambda f: False, stable=("Schema",))
    vf = VF(prog, opaque=lambda f: "lookup" in R and f.path == R["lookup"].path, stable=("Schema",))
    C0, C = Checker(prog, vf0, statef=statef_validator), Checker(prog, vf, statef=statef_validator)
    elems = ("fld", SELF, STK, "elements")
    if "lookup" in R:
        fn = R["lookup"]
        pre = ("arg", fn.argnames()[1])

        def decl(el, lvl):
            return ("call", "iter:find", (("fld", el, EST, "namespaces"),
                                          ("lam", lvl, 1, (((), "ret", ("eq", pre, ("fld", ("lp", lvl, 0), NSD, "prefix"))),))))

        def lspec(e, p):
            if e.true(("eq", pre, ("str", "xml"))):
                return ("ret", some(("str", "http://www.w3.org/XML/1998/namespace")))
            inner = ("call", "iter:find", (("call", "rev", (elems,)),
                                           ("lam", 71, 1, (((), "ret", ("isv", decl(("lp", 71, 0), 72), OPT, frozenset(["Some"]))),))))
            if e.variant(inner, OPT) == "None":
                return ("ret", NONE)
            d = decl(fld(inner, OPT, "Some", 0), 73)
            if e.variant(d, OPT) == "None":
                raise Infeasible()
            return ("ret", some(("fld", fld(d, OPT, "Some", 0), NSD, "namespace_uri")))
        rep.merge(fn, C0.check(fn, lspec))
    else:
        return
    LK = R.name("lookup")
    look = lambda pfx: ("call", LK, (SELF, pfx))

    def resolved(e, pfx, attr):
        """('err',) or the namespace for a name with this prefix"""
        if e.true(("eq", pfx, ("str", ""))):
            return NONE if attr else look(("str", ""))
        l = look(pfx)
        if e.variant(l, OPT) == "None":
            return None
        return l

    if "element" in R:
        fn = R["element"]
        last = ("call", "core::slice::last", (elems,))

        def espec(e, p):
            if e.variant(last, OPT) == "None":
                return ("any",)
            top = fld(last, OPT, "Some", 0)
            r = resolved(e, ("fld", top, EST, "prefix"), False)
            if r is None:
                return iskind("Err")
            return ("ret", ok(("adt", QN.rsplit("::", 1)[0], "QualifiedName",
                               (("namespace_uri", r), ("local_name", ("fld", top, EST, "local"))))))
        rep.merge(fn, C.check(fn, espec))
    if "attributes" in R:
        fn = R["attributes"]
        last = ("call", "core::slice::last", (elems,))

        def aspec(e, p):
            if e.variant(last, OPT) == "None":
                return ("any",)
            top = fld(last, OPT, "Some", 0)

            def f(e2, a):
                if not (a[0] == "call" and a[1] == "iter:collect" and a[2][0][0] == "call" and a[2][0][1] == "iter:map"):
                    return "~" + show(a)
                src, lam = a[2][0][2]
                if src != e2.n(("fld", top, EST, "attributes")):
                    return "~maps %s" % show(src)

                def one(e3, p3):
                    u = lambda n: ("fld", ("lv", 0, 0), UATT, n)
                    r = resolved(e3, u("prefix"), True)
                    if r is None:
                        return iskind("Err")
                    return ("ret", ok(("adt", ATTR.rsplit("::", 1)[0], "Attr", (
                        ("name", ("adt", QN.rsplit("::", 1)[0], "QualifiedName", (("namespace_uri", r), ("local_name", u("local"))))),
                        ("value", u("value")), ("span", u("span"))))))
                r = C.check_lam(fn, lam, one)
                if r.violations:
                    return "!" + r.violations[0][1]
                return "~" + r.inconclusive[0] if r.inconclusive else None
            return ("pred", f)
        rep.merge(fn, C.check(fn, aspec))
    if "add" in R:
        fn = R["add"]
        a = {n: ("arg", n) for n in fn.argnames()}
        if not {"prefix", "local", "value", "span"} <= set(a):
            names = [n for n, t in zip(fn.argnames(), fn.argtypes()) if "StrSpan" in t]
            if len(names) != 4:
                rep.unknown("add_attr takes other arguments")
                return
            a = dict(zip(("prefix", "local", "value", "span"), (("arg", n) for n in names)))
        last = ("call", "core::slice::last_mut", (elems,))

        def dspec(e, p):
            if p.kind == "panic":
                return ("any",)
            top = fld(last, OPT, "Some", 0)
            isns = e.true(("eq", a["prefix"], ("str", "xmlns")))
            isdef = (not isns) and e.true(("eq", a["prefix"], ("str", ""))) and e.true(("eq", a["local"], ("str", "xmlns")))

            def f(e2, _):
                ms = [(op, x) for op, x in mutations(p, e2)]
                if len(ms) != 1 or ms[0][0] != "push":
                    return "!records nothing" if not ms and not any(ev[0] in ("store", "call") for ev in p.events) else "~other effects"
                place, new = ms[0][1][0], ms[0][1][-1]
                if isns or isdef:
                    if place == e2.n(("fld", top, EST, "attributes")):
                        return "!a namespace declaration is recorded as an attribute"
                    if place != e2.n(("fld", top, EST, "namespaces")):
                        return "~recorded in %s" % show(place)
                    want = {"prefix": a["local"] if isns else None, "namespace_uri": a["value"]}
                else:
                    if place == e2.n(("fld", top, EST, "namespaces")):
                        return "!an attribute is recorded as a namespace declaration"
                    if place != e2.n(("fld", top, EST, "attributes")):
                        return "~recorded in %s" % show(place)
                    want = {k: a[k] for k in ("prefix", "local", "value")}
                if new[0] != "adt":
                    return "~records %s" % show(new)
                d = dict(new[3])
                for k, w in want.items():
                    if w is None:
                        if d.get(k) not in (("str", ""), e2.n(a["prefix"])):
                            return "!a default namespace declaration is recorded for prefix %s" % show(d.get(k, ("undef",)))
                    elif d.get(k) != e2.n(w):
                        return "!records %s as the %s" % (show(d.get(k, ("undef",))), k)
                return None
            return ("pred", f)
        rep.merge(fn, C.check(fn, dspec))


# ------------------------------------------------------------------------------------- V11
TXT = "relaxng_validator::Txt"
ENT = "relaxng_validator::parse_entities::Entities::Entities"


def v11(prog, rep, tier):
    rep.rule("text and attribute values are decoded piece by piece: literal text and characters as they are, an entity "
             "reference as the value of its declaration, an undeclared one is an error")
    rep.rule("the reference scanner splits at '&' and ';' without losing or repeating text; an unclosed reference is an error")
    rep.rule("a numeric character reference is hexadecimal after 'x' and decimal otherwise; anything else, or a number which "
             "is no character, is an error")
    rep.rule("the name of a namespace in a declaration is decoded like the value of any other attribute")
    rep.rule("both text and attribute values reach the derivatives only decoded; the five predefined entities are declared, and the "
             "first of several declarations of an entity is binding")
    R = Roles(prog, rep, CRATE)
    R.get("decode", "decode_text")
    if "decode" not in R:
        return
    fn = R["decode"]
    scan = [f for f in prog.fns.values() if f.crate == CRATE and f.name == "next" and "Entities" in f.path]
    num = [f for f in prog.fns.values() if f.crate == CRATE and f.name == "numeric_entity"]
    pe = prog.find("parse_entities", CRATE)
    ops = {f.path for f in scan + num + ([pe] if pe else [])}
    vf = VF(prog, opaque=lambda f: f.path in ops, stable=("Schema",))
    C = Checker(prog, vf, statef=statef_validator)
    ents = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if "HashMap<" in t]
    text = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if "StrSpan" in t]
    parts = vf.summarize(fn)
    if not (ents and text):
        rep.unknown("decode_text takes other arguments")
        return
    heads = {}
    for p in parts:
        for lp, (init, back) in p.loops.items():
            if lp[0] == fn.path and back is not None:
                heads.setdefault(lp, []).append((p, init, back))
    if len(heads) != 1:
        rep.unknown("decode_text: %d loops" % len(heads))
    else:
        lp, items = list(heads.items())[0]
        inits = items[0][1]
        src = [k for k, v in inits.items() if v[0] == "call" and pe and v[1] == shortname(pe.path)]
        buf = [k for k, v in inits.items() if show(v) in ("''", "[]", '""') or v == ("cat", ())]
        if len(src) != 1 or len(buf) != 1:
            rep.unknown("decode_text: loop over %s" % ", ".join(inits))
        else:
            iv = inits[src[0]]
            if not any(contains_term(x, lambda y: y == text[0]) for x in iv[2]):
                rep.bad(fn.path, "decode_text at %s: does not scan the text it is given" % prog.pos(fn.sp))
            itv = [y for p in parts for a in p.facts for y in subterms(a[1]) if y[0] == "call" and y[1].endswith("::next")]
            if not itv:
                rep.unknown("decode_text: items are not taken by the scanner")
            else:
                item = fld(fld(itv[0], OPT, "Some", 0), RES, "Ok", 0)

                def bspec(e, p):
                    new = p.loops[lp][1]
                    k = e.variant(item, TXT)

                    def f(e2, _):
                        got = e2.n(new[buf[0]])
                        if not (got[0] == "upd" and got[1] == "push"):
                            return "!a piece of the text adds nothing to the result" if got[0] == "loop" else "~%s" % show(got)
                        add = got[2][-1]
                        if got[2][0][0] != "loop":
                            return "~adds to %s" % show(got[2][0])
                        if k == "Entity":
                            w = fld(("call", "map:get", (ents[0], fld(item, TXT, k, 1))), OPT, "Some", 0)
                        else:
                            w = fld(item, TXT, k, 1)
                        if add != e2.n(w):
                            return "!a piece of kind %s adds %s" % (k, show(add))
                        return None
                    return ("pred", f)
                bk = [p for p, _, _ in items]
                rep.merge(fn, C.check_parts(fn, bk, bspec, kinds=("back",)))

                def rspec(e, p):
                    if e.variant(itv[0], OPT) == "None":
                        return ("pred", lambda e2, a: None if a[0] == "adt" and a[2] == "Ok" and a[3][0][1][0] == "loop"
                                and a[3][0][1][2] == buf[0] else "!the result is %s, not the collected text" % show(a))
                    if e.variant(fld(itv[0], OPT, "Some", 0), RES) == "Err":
                        return iskind2("Err", fld(itv[0], OPT, "Some", 0))
                    return iskind("Err")
                rep.merge(fn, C.check(fn, rspec))
    # the scanner
    if len(scan) != 1 or len(num) != 1:
        rep.unknown("the reference scanner is not there")
    else:
        scanner(prog, rep, scan[0], num[0])
        numeric(prog, rep, num[0])
    # decoded before use
    decoded(prog, rep, R["decode"])
    declared(prog, rep)


def iskind2(k, alt):
    f = iskind(k)[1]
    return ("pred", lambda e, a: None if a == e.n(alt) else f(e, a))


def addends(t):
    if t[0] == "bin" and t[1] == "Add":
        return addends(t[2]) + addends(t[3])
    return [t]


def scanner(prog, rep, fn, num):
    rep.functions.add(fn.path)
    vf = VF(prog, opaque=lambda f: f.path == num.path, stable=("Schema",))
    C = Checker(prog, vf, statef=statef_validator)
    me = ("arg", fn.argnames()[0])
    g = lambda n: ("fld", me, ENT, n)
    if not {"text", "pos", "offset", "in_entity"} <= set(prog.fields(ENT.rsplit("::", 1)[0], "Entities") or []):
        rep.unknown("the scanner's state is kept differently")
        return
    rest = ("idx", g("text"), ("adt", "std::ops::RangeFrom", "RangeFrom", (("start", g("offset")),)))
    upto = lambda i: ("idx", g("text"), ("adt", "std::ops::Range", "Range", (("start", g("offset")), ("end", ("bin", "Add", g("offset"), i)))))
    NUMN = shortname(num.path)
    LEN = ("call", "len", (g("text"),))
    N0 = C.norm(fn)
    delim = lambda w: ("call", "iter:find", (("call", "core::str::char_indices", (rest,)),
                                             ("lam", 77, 1, (((), "ret", ("eq", ("fld", ("lp", 77, 0), "tuple", "1"), ("char", w))),))))

    def piece(a):
        """(kind, payload) of Some(Ok(piece))"""
        for v in ("Some", "Ok"):
            if not (a[0] == "adt" and a[2] == v):
                return None
            a = dict(a[3])["0"]
        return (a[2], dict(a[3]).get("1")) if a[0] == "adt" and a[1] == TXT else None

    def spec(e, p):
        ine = e.true(g("in_entity"))
        want = 0x3b if ine else 0x26
        finds = {y for a in p.facts for y in subterms(e.N.n1(a[1])) if y[0] == "call" and y[1] == "iter:find"}
        D = e.N.n1(delim(want))
        if not finds:
            # nothing scanned: only at the end, outside a reference
            if ine:
                return ("pred", lambda e2, a: "~ends without scanning")
            atend = [x for a, x in p.facts.items() if a[0] == "b" and N0.n(a[1])[0] == "eq" and set(N0.n(a[1])[1:]) == {N0.n(LEN), N0.n(g("offset"))}]
            if atend == [True]:
                return ("ret", NONE)
            return ("pred", lambda e2, a: "~ends without scanning")
        if finds != {D}:
            o = sorted(finds - {D}, key=repr)[0]
            w = "%s a reference the scanner looks for %s" % ("inside" if ine else "outside", show(o))
            simple = len(finds) == 1 and o[2][0] == D[2][0] and C.unknown(o) is None
            return ("pred", lambda e2, a: ("!" if simple else "~") + w)
        if e.variant(D, OPT) == "Some":
            idx = ("fld", fld(D, OPT, "Some", 0), "tuple", "0")

            def f(e2, a):
                off, inn = final(p, e2, g("offset")), final(p, e2, g("in_entity"))
                if inn != ("bool", not ine):
                    return "!after a delimiter the scanner is %s a reference" % ("inside" if ine else "outside")
                w = [sorted(map(repr, x)) for x in (addends(e2.n(g("offset"))) + addends(e2.n(idx)) + [("int", 1)],)][0]
                if sorted(map(repr, addends(off))) != w:
                    return ("!" if all(x[0] in ("int", "fld") for x in addends(off)) else "~") + "after a delimiter the scanner continues at %s" % show(off)
                name = e2.n(upto(idx))
                pc = piece(a)
                if not ine:
                    if pc is None:
                        return "~gives %s" % show(a)
                    return None if pc == ("Text", name) else "the text before a reference gives %s" % show(a)
                sp = [y for a2 in p.facts for y in subterms(e.N.n1(a2[1])) if y[0] == "call" and y[1].endswith("strip_prefix")
                      and y[2][0] == name and y[2][1] in (("str", "#"), ("char", 0x23))]
                if not sp:
                    return "~gives %s" % show(a)
                v = e2.N.vfacts.get(sp[0])
                if v == frozenset(["Some"]):
                    w = fld(sp[0], OPT, "Some", 0)
                    ok_ = contains_term(a, lambda y: y[0] == "call" and y[1] == NUMN and e2.n(w) in y[2])
                    return None if ok_ else "!a numeric reference gives %s" % show(a)
                return None if pc == ("Entity", name) else "!an entity reference gives %s" % show(a)
            return ("pred", f)
        if ine:
            return ("pred", lambda e2, a: None if contains_term(a, lambda y: y[0] == "adt" and y[2] == "Err") else
                    "!an unclosed reference gives %s" % show(a))

        def h(e2, a):
            if piece(a) != ("Text", e2.n(rest)):
                return "the text after the last reference gives %s" % show(a)
            off = final(p, e2, g("offset"))
            return None if off == N0.n(LEN) else "!after the last piece the scanner stands at %s" % show(off)
        return ("pred", h)
    rep.merge(fn, C.check(fn, spec))


def numeric(prog, rep, fn):
    rep.functions.add(fn.path)
    vf = VF(prog, opaque=lambda f: False, stable=("Schema",))
    C = Checker(prog, vf, statef=statef_validator, vocab=["from_str_radix", "from_u32", "strip_prefix", "starts_with", "parse:u32"])
    text = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if strip_ty(t) == "str"]
    if len(text) != 1:
        rep.unknown("numeric references are decoded from other arguments")
        return
    text = text[0]
    N0 = C.norm(fn)

    def spec(e, p):
        if p.kind != "ret":
            return ("any",)
        pre = [y for a in p.facts for y in subterms(N0.n(a[1])) if y[0] == "call" and y[1].endswith("strip_prefix")]

        def f(e2, a):
            if a[0] == "adt" and a[2] == "Err":
                # is there a reason on this path
                for t, x in p.facts.items():
                    n = e2.n(t[1])
                    if t[0] == "v" and x == frozenset(["Err"]) or t[0] == "v" and x == frozenset(["None"]) and \
                            contains_term(t[1], lambda y: y[0] == "call" and y[1].endswith("from_u32")):
                        return None
                    if t[0] == "b" and x is True and t[1][0] == "call" and t[1][1].endswith("starts_with") and t[1][2][1] in (("str", "+"), ("char", 0x2b)):
                        return None
                    if t[0] == "b" and x is True and t[1][0] == "eq" and ("str", "") in t[1]:
                        return None
                return "~an error on a path without a reason"
            if not (a[0] == "adt" and a[2] == "Ok"):
                return "~" + show(a)
            ch = dict(a[3])["0"]
            c = dict(ch[3]).get("1") if ch[0] == "adt" and ch[1] == TXT and ch[2] == "Char" else None
            if c is None:
                return "!a numeric reference gives %s" % show(a)
            hexp = [y for y in pre if y[2][1] in (("str", "x"), ("char", 0x78)) and y[2][0] == e2.n(text)]
            ishex = any(e2.N.vfacts.get(y) == frozenset(["Some"]) for y in hexp)
            sets = [y for y in pre if y[2][0] == e2.n(text) and y[2][1][0] == "arr" and all(z[0] in ("char", "str") for z in y[2][1][1])]
            if not hexp and sets and not set(sets[0][2][1][1]) <= {("char", 0x78), ("str", "x")}:
                return "!!a reference which begins with one of %s counts as hexadecimal" % show(sets[0][2][1])
            if not hexp:
                return "~no test for a hexadecimal reference"
            if not (c[0] == "fld" and c[1][0] == "call" and c[1][1].endswith("from_u32")):
                return "~the character is %s" % show(c)
            num = c[1][2][0]
            if num[0] in ("and", "or", "bin") and any(isinstance(z, tuple) and z[:1] == ("int",) for z in subterms(num)) and \
                    any(y[0] == "call" and (y[1].startswith("parse:") or y[1].endswith("from_str_radix")) for y in subterms(num)):
                return "!!the character is not the one with the number given but %s" % show(num)
            src = num[1] if num[0] == "fld" and num[2].startswith(RES) else None
            if src is None or src[0] != "call":
                return "~the number is %s" % show(num)
            if src[1].startswith("parse:"):
                radix, of = 10, src[2][0]
                if not src[1].startswith("parse:u"):
                    return "!the number may be negative"
            elif src[1].endswith("from_str_radix"):
                of, radix = src[2][0], src[2][1][1] if src[2][1][0] == "int" else None
            else:
                return "~the number is %s" % show(num)
            want = e2.n(fld(hexp[0], OPT, "Some", 0)) if ishex else e2.n(text)
            if of != want:
                return "!the number is read from %s" % show(of)
            if radix != (16 if ishex else 10):
                return "!a %s reference is read in radix %s" % ("hexadecimal" if ishex else "decimal", radix)
            plus = [t for t, x in p.facts.items() if t[0] == "b" and x is False and t[1][0] == "call" and t[1][1].endswith("starts_with")
                    and t[1][2][0] == want]
            alld = any(contains_term(t[1], lambda y: y[0] in ("allchars", "call") and "digit" in str(y[1:2])) for t in p.facts)
            return None if plus or alld else "!a sign is accepted in front of the number"
        return ("pred", f)
    rep.merge(fn, C.check(fn, spec))


def decoded(prog, rep, dec):
    """document text reaches a derivative only through the decoder"""
    td = [f for f in prog.fns.values() if f.crate == CRATE and f.name in ("text_deriv", "att_deriv", "value_match")]
    own = {f.path for f in td} | {dec.path}
    others = {f.path for f in prog.fns.values() if f.crate == CRATE and f.name in
              CONS + DERIVS + ["lookup_namespace_uri", "current_element", "current_attributes", "close_element_start"]}
    vf = VF(prog, opaque=lambda f: f.path in own or f.path in others, transparent={"Schema::patt": 1, "Schema::push": 1}, stable=("Schema",))
    for fn in list(prog.fns.values()):
        if fn.crate != CRATE or fn.path in own or fn.name in DERIVS or "{closure" in fn.path:
            continue
        if not (callees(prog, fn) & {f.path for f in td}):
            continue
        rep.functions.add(fn.path)
        done = set()
        for p in vf.summarize(fn):
            for ev in p.events:
                if ev[0] != "call":
                    continue
                for t in td:
                    if ev[1] != shortname(t.path):
                        continue
                    k = [i for i, x in enumerate(Sig(t).kinds) if x == "text"]
                    if not k:
                        continue
                    a = ev[2][k[0]]
                    if (show(a), ev[3][1]) in done:
                        continue
                    done.add((show(a), ev[3][1]))
                    raw = [y for y in subterms(a) if y[0] == "fld" and ((y[2].startswith(TOK) and y[3] == "text" and "Cdata" not in y[2]) or
                                                                       (y[2].endswith("Attr") and y[3] == "value"))]
                    inner = [y for y in subterms(a) if y[0] == "call" and y[1] == shortname(dec.path)]
                    safe = a[0] == "fld" and a[1][0] == "call" and a[1][1] == shortname(dec.path)
                    cd = [y for y in subterms(a) if y[0] == "fld" and "Cdata" in y[2]]
                    if raw and not inner:
                        rep.bad(fn.path, "%s at %s: the raw document text %s is given to %s; references in it are not replaced" % (
                            shortname(fn.path), prog.pos(ev[3]), show(raw[0]), ev[1]))
                    elif cd and inner:
                        rep.bad(fn.path, "%s at %s: text of a CDATA section is decoded; it contains no references" % (shortname(fn.path), prog.pos(ev[3])))
                    elif safe or cd or a == ("str", "") or a[0] == "arg":
                        rep.good("%s: %s given to %s" % (shortname(fn.path), show(a), ev[1]))
                    else:
                        rep.unknown("%s: %s given to %s" % (shortname(fn.path), show(a), ev[1]))


def declared(prog, rep):
    fn = prog.find("Validator::new", CRATE)
    if fn is None:
        rep.bad("anchor:Validator::new", "Validator::new is no longer there")
        return
    rep.functions.add(fn.path)
    opn = {f.path for f in prog.fns.values() if f.crate == CRATE and f.name in DERIVS + CONS + ["compile"]}
    vf = VF(prog, opaque=lambda f: f.path in opn, transparent={"Schema::patt": 1, "Schema::push": 1}, stable=("Schema",))
    want = {"lt": "<", "gt": ">", "amp": "&", "apos": "'", "quot": '"'}
    for p in vf.summarize(fn):
        if p.kind != "ret":
            continue
        got = {}
        for ev in p.events:
            if ev[0] == "map" and ev[1] == "insert":
                k, v = ev[2][-2], ev[2][-1]
                if k[0] == "str" and v[0] == "str":
                    got[k[1]] = v[1]
        if not got:
            rep.unknown("the predefined entities are declared elsewhere")
            continue
        for k, v in want.items():
            rep.expect(got.get(k) == v, fn.path, "Validator::new at %s: the predefined entity %s stands for %r" % (prog.pos(fn.sp), k, got.get(k)),
                       "&%s; is %s" % (k, v))
        for k in set(got) - set(want):
            rep.bad(fn.path, "Validator::new at %s: an entity %s is declared without a declaration in the document" % (prog.pos(fn.sp), k))
    # entity declarations: first one is binding
    fn = prog.find("Validator::validate", CRATE)
    if fn is None:
        return
    rep.functions.add(fn.path)
    others = {f.path for f in prog.fns.values() if f.crate == CRATE and f.name in CONS + DERIVS + [
        "decode_text", "close_element_start", "is_current", "push", "pop", "add_attr"]}
    vf = VF(prog, opaque=lambda f: f.path in others, transparent={"Schema::patt": 1}, stable=("Schema",))
    evt = ("arg", fn.argnames()[1])
    # the name of a namespace is the value of an attribute, and may contain references like any other
    dec = prog.find("decode_text", CRATE)
    later = [f for f in prog.fns.values() if f.crate == CRATE and f.name in ("add_attr", "lookup_namespace_uri", "try_lookup_namespace_uri", "current_element", "is_ns_match")]
    for p in vf.summarize(fn):
        if p.facts.get(("v", evt)) == frozenset(["Attribute"]) and dec is not None:
            val = ("fld", evt, TOK + "::Attribute", "value")
            raw = [ev for ev in p.events if ev[0] == "call" and ev[1].endswith("add_attr") and val in ev[2]]
            if raw and not any(dec.path in callees(prog, f) for f in later):
                rep.bad("namespace name:undecoded", "Validator::validate at %s: the name of a namespace is recorded as it is written, with the references in it" % prog.pos(raw[0][3]))
            elif any(ev[0] == "call" and ev[1].endswith("add_attr") for ev in p.events):
                rep.good("references in the name of a namespace")
        if p.facts.get(("v", evt)) != frozenset(["EntityDeclaration"]):
            continue
        d = ("fld", evt, TOK + "::EntityDeclaration", "definition")
        if p.facts.get(("v", d)) != frozenset(["EntityValue"]):
            continue
        ins = [ev for ev in p.events if ev[0] == "map" and ev[1] == "insert"]
        ent = [ev for ev in p.events if "or_insert" in str(ev[1])]
        guard = [x for a, x in p.facts.items() if contains_term(a[1], lambda y: y[0] == "call" and y[1] in ("map:get", "map:contains_key"))
                 or contains_term(a[1], lambda y: y[0] == "entry")]
        if ins and not guard and not ent:
            rep.bad(fn.path, "Validator::validate at %s: an entity declaration replaces an earlier one of the same name" % prog.pos(ins[0][3] if len(ins[0]) > 3 else fn.sp))
        elif ent or guard:
            rep.good("entity declarations do not replace earlier ones")
        else:
            rep.unknown("entity declarations: no insertion seen")


# ------------------------------------------------------------------------------------- V12
def v12(prog, rep, tier):
    rep.rule("validation reports success (the end of the token sequence without an error) only when the remaining pattern may be empty; "
             "otherwise an error is reported, once; tokenizer errors are reported; every token goes through the token handler")
    R = Roles(prog, rep, CRATE)
    R.get("next", "Validator::validate_next")
    R.get("validate", "Validator::validate")
    if "next" not in R or "validate" not in R:
        return
    fn = R["next"]
    vf = VF(prog, opaque=lambda f: f.path == R["validate"].path or f.name == "is_nullable",
            transparent={"Schema::patt": 1, "Schema::push": 1}, stable=("Schema",))
    C = Checker(prog, vf, statef=statef_validator, vocab=["stream", "gen_text_pos"])
    cur, tk = ("fld", SELF, VAL, "current_step"), ("fld", SELF, VAL, "tokenizer")

    def spec(e, p):
        more = [x for a, x in p.facts.items() if a[0] == "b" and a[1][0] == "more"]
        if not more:
            return ("pred", lambda e2, a: "~without asking the tokenizer")
        if not more[0]:
            if e.true(("nullable", cur)):
                return ("ret", NONE)

            def f(e2, a):
                if not (a[0] == "adt" and a[2] == "Some" and a[3][0][1][0] == "adt" and a[3][0][1][2] == "Err"):
                    return "!a document which ends too early gives %s" % show(a)
                # not forever
                c = final(p, e2, cur)
                if c == e2.n(cur):
                    return "!the end of an incomplete document is reported over and over again"
                return None
            return ("pred", f)
        item = [a[1] for a, x in p.facts.items() if a[0] == "v" and x in (frozenset(["Ok"]), frozenset(["Err"]))
                and contains_term(a[1], lambda y: y == tk)]
        if not item:
            return ("pred", lambda e2, a: "~%s" % show(a))
        it = item[0]
        if e.variant(it, RES) == "Err":
            return ("pred", lambda e2, a: None if a[0] == "adt" and a[2] == "Some" and a[3][0][1][0] == "adt" and a[3][0][1][2] == "Err"
                    else "!a syntax error in the document gives %s" % show(a))
        return ("pred", lambda e2, a: None if a[0] == "adt" and a[2] == "Some" and a[3][0][1] == ("call", R.name("validate"), (SELF, e2.n(fld(it, RES, "Ok", 0))))
                else "~a token gives %s" % show(a))
    rep.merge(fn, C.check(fn, spec))


# ------------------------------------------------------------------------------------- V08
INNER = "relaxng_validator::Inner"
BITS = {"u8": 8, "u16": 16, "u32": 32, "i8": 7, "i16": 15, "i32": 31}


def v08(prog, rep, tier):
    rep.rule("interning: a pattern already known yields the id stored for it; a new one yields the index it is stored at, under "
             "which it is also remembered; the id cannot wrap around")
    rep.rule("the pattern table, the memo table and the table of references are changed nowhere else; only a placeholder's slot is ever overwritten, "
             "with the definition it stands for")
    rep.rule("equality of interned values distinguishes every component, and hashing uses nothing equality ignores")
    R = Roles(prog, rep, CRATE)
    R.get("push", "Schema::push", ["Schema", "Pat"])
    R.get("resolve", "Schema::resolve_ref")
    R.get("placeholder", "Schema::ref_placeholder")
    R.get("get_ref", "Schema::get_ref", optional=True)
    vf = VF(prog, opaque=lambda f: False, transparent={"Schema::patt": 1}, stable=())
    fields = set(prog.fields(INNER, "Inner") or [])
    if not {"memo", "patterns", "refs"} <= fields:
        rep.unknown("the pattern tables are kept differently")
        return

    def isfield(t, n):
        return t[0] == "fld" and t[2].startswith(INNER) and t[3] == n

    def lenpat(t):
        return t[0] == "call" and t[1] == "len" and any(isfield(y, "patterns") for y in subterms(t))

    def idval(t):
        """the number inside an id"""
        return dict(t[3]).get("0") if t[0] == "adt" else None
    if "push" in R:
        fn = R["push"]
        arg = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if kindof(t) == "pat"]
        for p in vf.summarize(fn):
            if p.kind != "ret" or not arg:
                continue
            where = "%s at %s" % (shortname(fn.path), prog.pos(fn.sp))
            ins = [e for e in p.events if e[0] == "map" and e[1] == "insert"]
            app = [e for e in p.events if e[0] == "mut" and e[1] == "push" and isfield(e[2][0], "patterns")]
            v = p.val
            if v[0] == "fld" and v[1][0] == "call" and v[1][1] == "map:get":
                k = v[1][2]
                rep.expect(k[-1] == arg[0] and isfield(k[0], "memo"), fn.path, "%s: a known pattern yields the id of %s" % (where, show(k[-1])),
                           "a known pattern yields its stored id")
                if ins or app:
                    rep.bad(fn.path, "%s: a known pattern is stored again" % where)
                continue
            n = idval(v)
            if n is None:
                rep.unknown("%s: yields %s" % (where, show(v)))
                continue
            ty = n[1] if n[0] == "cast" else None
            src = n[2] if n[0] == "cast" else n
            if not lenpat(src):
                (rep.bad(fn.path, "%s: a new pattern gets the id %s" % (where, show(src))) if src[0] in ("int", "bin") else
                 rep.unknown("%s: a new pattern gets the id %s" % (where, show(src))))
                continue
            if not app or app[0][2][-1] != arg[0]:
                rep.bad(fn.path, "%s: a new pattern gets an id without being stored" % where)
                continue
            rep.good("a new pattern is stored under its id")
            if ins:
                rep.expect(ins[0][2][-2] == arg[0] and ins[0][2][-1] == v and isfield(ins[0][2][0], "memo"), fn.path,
                           "%s: a new pattern is remembered as %s with id %s" % (where, show(ins[0][2][-2]), show(ins[0][2][-1])),
                           "a new pattern is remembered under its id")
            else:
                rep.unknown("%s: a new pattern is not remembered" % where)
            if ty in BITS:
                bound = None
                for a, x in p.facts.items():
                    if a[0] != "b" or a[1][0] != "lt":
                        continue
                    l, r = a[1][1], a[1][2]
                    if l[0] == "int" and lenpat(r) and x is False:
                        bound = l[1]
                    if r[0] == "int" and lenpat(l) and x is True:
                        bound = r[1] - 1
                for a, x in p.facts.items():
                    # a conversion which succeeded
                    if a[0] == "v" and a[1][0] == "call" and a[1][1].split(":")[0] in ("try_from", "try_into") and lenpat(a[1][2][0]) and x == frozenset(["Ok"]) and bound is None:
                        bound = (1 << BITS.get(a[1][1].split(":")[-1], 64)) - 1
                rep.expect(bound is not None and bound < (1 << BITS[ty]), fn.path,
                           "%s: the id of a new pattern is cut to %s with%s" % (where, ty, "out a bound on the number of patterns" if bound is None
                                                                           else " %d patterns allowed" % (bound + 1)),
                           "ids stay below %d" % (1 << BITS[ty]))
    if "resolve" in R:
        fn = R["resolve"]
        A = [("arg", n) for n, t in zip(fn.argnames(), fn.argtypes()) if kindof(t) == "pat"]
        where = "%s at %s" % (shortname(fn.path), prog.pos(fn.sp))
        for p in vf.summarize(fn):
            if p.kind != "ret" or len(A) != 2:
                continue
            eq = [x for a, x in p.facts.items() if a[0] == "b" and a[1][0] == "eq" and set(a[1][1:]) == set(A)]
            st = [e for e in p.events if e[0] == "store"]
            if eq == [True]:
                rep.expect(not st, fn.path, "%s: resolving a placeholder with itself stores something" % where, "resolving with itself changes nothing")
                continue
            if not st:
                rep.bad(fn.path, "%s: a placeholder stays unresolved" % where)
                continue
            for e in st:
                place, val = e[1], e[2]
                idx = place[2] if place[0] == "idx" else None
                slot = [a for a in A if idx is not None and contains_term(idx, lambda y: y == a)]
                if len(slot) != 1 or not isfield(place[1], "patterns") and not any(isfield(y, "patterns") for y in subterms(place)):
                    rep.unknown("%s: stores to %s" % (where, show(place)))
                    continue
                other = [a for a in A if a != slot[0]][0]
                ph = [x for a, x in p.facts.items() if a[0] == "v" and a[1] == place]
                rep.expect(ph == [frozenset(["Placeholder"])], fn.path, "%s: overwrites a pattern which may not be a placeholder" % where,
                           "only a placeholder is overwritten")
                rep.expect(val == other, fn.path, "%s: the placeholder becomes %s" % (where, show(val)), "the placeholder becomes its definition")
    if "placeholder" in R and "push" in R:
        fn = R["placeholder"]
        where = "%s at %s" % (shortname(fn.path), prog.pos(fn.sp))
        for p in vf.summarize(fn):
            if p.kind != "ret":
                continue
            ins = [e for e in p.events if e[0] == "map" and e[1] == "insert" and isfield(e[2][0], "refs")]
            rep.expect(bool(ins) and ins[-1][2][-1] == p.val, fn.path, "%s: the reference is registered with another id than the one handed out" % where,
                       "a reference is registered with its placeholder")
    # nobody else writes
    allowed = {R[x].path for x in R.m}
    n = 0
    for fn in prog.fns.values():
        if fn.crate != CRATE or is_derived(prog, fn):
            continue
        for what, sp in table_writes(fn):
            n += 1
            if fn.path in allowed or all_callers_in(prog, fn, allowed):
                rep.good("%s writes %s" % (shortname(fn.path), what))
            else:
                rep.bad(fn.path, "%s at %s: writes %s outside the interning functions" % (shortname(fn.path), prog.pos(sp), what))
    rep.count("writes to the pattern tables", n)
    equality(prog, rep)


def all_callers_in(prog, fn, allowed, depth=3):
    cs = callers_of(prog, fn.path)
    return bool(cs) and depth > 0 and all(c.path in allowed or all_callers_in(prog, c, allowed, depth - 1) for c in cs)


WRITERS = re.compile(r"(?:Vec|HashMap|VecDeque|BTreeMap)(?:::<.*>)?::(push|insert|extend|truncate|clear|remove|pop|swap_remove|retain|drain|append|resize|entry|"
                     r"get_mut|iter_mut|dedup\w*|insert_entry|values_mut)$|IndexMut|index_mut|slice::.*(?:get_mut|iter_mut|swap|last_mut|first_mut)")


def table_writes(fn):
    """(table, span) for calls and stores which change one of the interning tables"""
    names = {"patterns": "the pattern table", "memo": "the memo table", "refs": "the table of references"}

    def table(pl):
        for e in pl["p"]:
            if e[0] == "f" and e[2].startswith(INNER) and e[3] in names:
                return names[e[3]]
        return None
    src = {}
    for _ in range(3):
        for b in fn.body["blocks"]:
            for s in b["s"]:
                v = s.get("v")
                if not isinstance(v, dict) or s.get("s") != "=":
                    continue
                if v.get("r") == "ref" and v.get("mut"):
                    t = table(v["p"]) or src.get(v["p"]["l"])
                    if t and not s["p"]["p"]:
                        src[s["p"]["l"]] = t
                elif s["p"]["p"] and table(s["p"]):
                    yield_ = table(s["p"])
                    src.setdefault(("store", yield_), s.get("sp"))
    for k, sp in src.items():
        if isinstance(k, tuple):
            yield k[1], sp
    for b in fn.body["blocks"]:
        t = b["t"]
        if b.get("cl") or t.get("t") != "call" or t["f"].get("k") != "fn":
            continue
        if not WRITERS.search(norm_path(t["f"].get("path") or "")):
            continue
        a = t["a"][0] if t["a"] else None
        pl = (a.get("m") or a.get("c")) if isinstance(a, dict) else None
        if isinstance(pl, dict):
            w = table(pl) or (src.get(pl["l"]))
            if w:
                yield w, t.get("sp")


def equality(prog, rep):
    """types reachable from an interned pattern: equality must not conflate, hashing must agree"""
    seen, todo = set(), ["relaxng_validator::Pat"]
    while todo:
        t = todo.pop()
        if t in seen or t not in prog.adts:
            continue
        seen.add(t)
        for v in prog.adts[t]["variants"]:
            for f in v[2]:
                for name in prog.adts:
                    if re.search(r"\b%s\b" % re.escape(name.rsplit("::", 1)[-1]), f[1]) and name.startswith("relaxng"):
                        todo.append(name)
    # derived from the other field when the value is built
    EXEMPT = {("relaxng_model::datatype::xsd::PatternFacet", "1"): "the compiled form of the pattern's source, which is compared"}
    for t in sorted(seen):
        crate = t.split("::")[0]
        for i in prog.impls:
            if i["crate"] != crate or i["derived"] or i["trait"] not in ("std::cmp::PartialEq", "std::hash::Hash"):
                continue
            if t != crate + "::" + re.sub(r"<.*", "", norm_path(i["self"])):
                continue
            meth = "eq" if i["trait"].endswith("PartialEq") else "hash"
            fns = [f for f in prog.fns.values() if f.crate == crate and f.name == meth and re.search(
                r"<%s(?:<.*>)? as %s" % (re.escape(t[len(crate) + 2:]), re.escape(i["trait"])), f.path)]
            if not fns:
                rep.unknown("hand-written %s of %s not found" % (meth, t))
                continue
            fn = fns[0]
            rep.functions.add(fn.path)
            used = set()
            for b in fn.body["blocks"]:
                for pl in places(b):
                    for e in pl["p"]:
                        if e[0] == "f":
                            used.add(str(e[3]))
            want = {f[0] for v in prog.adts[t]["variants"] for f in v[2]}
            missing = {f for f in want - used if (t, f) not in EXEMPT}
            if len(prog.adts[t]["variants"]) > 1:
                rep.unknown("%s of the enum %s is hand-written" % (meth, t))
                continue
            if meth == "eq":
                rep.expect(not missing, fn.path, "%s at %s: equality of %s ignores %s; different patterns become one" % (
                    shortname(fn.path), prog.pos(fn.sp), t, ", ".join(sorted(missing))), "equality of %s compares every component" % t)
                if not missing:
                    own = t
                    var = prog.adts[t]["variants"][0][0]
                    a, b = [("arg", n) for n in fn.argnames()[:2]]
                    vf = VF(prog, opaque=lambda f: False)
                    C = Checker(prog, vf)
                    eqs = [("eq", ("fld", a, own + "::" + var, f[0]), ("fld", b, own + "::" + var, f[0]))
                           for f in prog.adts[t]["variants"][0][2] if (t, f[0]) not in EXEMPT]
                    rep.merge(fn, C.check(fn, lambda e, p: ("bool", ("and",) + tuple(eqs) if len(eqs) > 1 else eqs[0])))
            else:
                extra = {f for f in used if (t, f) in EXEMPT}
                rep.expect(not extra, fn.path, "%s at %s: hashing of %s uses %s, which equality ignores" % (
                    shortname(fn.path), prog.pos(fn.sp), t, ", ".join(sorted(extra))), "hashing of %s agrees with equality" % t)
    rep.count("types interned by value", len(seen))
    rep.good("equality of %d types" % len(seen))


def places(b):
    def rec(x):
        if isinstance(x, dict):
            if "l" in x and "p" in x and isinstance(x["p"], list):
                yield x
            for v in x.values():
                yield from rec(v)
        elif isinstance(x, list):
            for v in x:
                yield from rec(v)
    yield from rec(b)
