"""C04: no schema and no document makes the libraries panic."""
from lib import *
from vf import VF, Budget
from mir import norm_path
from flow import Flow, TOP, terms
from props_effects import reach, chain, LIBS

MODEL = "relaxng_model::model::Pattern::"
EMPTYISH = ("first", "last", "first_mut", "last_mut", "pop", "next", "split_first", "split_last", "next_back", "peek", "reduce", "min", "max", "get")


def label(q):
    """how the path ends, in words"""
    v = q.asserts[-1][1] if q.asserts and q.asserts[-1][0] == "panic" else q.val
    m = v[1] if v[0] == "panic" else str(v[0])
    for w in ("unreachable", "unimplemented", "todo", "assert", "panic", "unwrap", "expect", "index"):
        if w in str(m):
            return w
    return str(m)


def sitefn(q, default):
    return q.asserts[-1][2] if q.asserts and q.asserts[-1][0] == "panic" else default


def sitepos(q):
    return ":".join(q.asserts[-1][3]) if q.asserts and q.asserts[-1][0] == "panic" else "?"


def has(t, head, pred=lambda x: True):
    return any(x[0] == head and pred(x) for x in terms(t))


def emptiness(k, t, f, is_list):
    """the fact says that a list satisfying is_list is empty"""
    def lists(x):
        return any(is_list(y) for y in terms(x))
    if k == "v" and f == frozenset(["None"]):
        return t[0] == "call" and t[1].split("::")[-1].split(":")[-1] in EMPTYISH and lists(t)
    if k == "b":
        if t[0] == "more" and f is False:
            return lists(t)
        if t[0] == "call" and t[1].split("::")[-1] == "is_empty" and f is True:
            return lists(t)
        if t[0] == "eq" and f is True and ("int", 0) in t:
            return has(t, "call", lambda c: c[1].split("::")[-1] == "len") and lists(t)
        if t[0] == "lt" and f is False and t[1] == ("int", 0):
            return lists(t)
    if k == "sw" and f == 0:
        return has(t, "call", lambda c: c[1].split("::")[-1] == "len") and lists(t)
    return False


def fldof(t, owner, name):
    return t[0] == "fld" and t[2] == owner and (name is None or t[3] == name)


class Judge:
    def __init__(self, prog, rep, how, flow):
        self.prog, self.rep, self.how, self.flow = prog, rep, how, flow
        self.kepts = {}

    def within(self, p, name):
        f = self.prog.fns.get(name) or self.prog.find(name)
        return f is not None and (p == f.path or only_called_from(self.prog, self.prog.fns[p], f.path))

    def reason(self, p, q):
        """why the path cannot be taken"""
        ok, t, r = self.flow.possible(p, q)
        if not ok:
            return "the value tested is never of that kind (it is %s)" % ("/".join(sorted(map(str, r))) or "never made")
        crate = self.prog.fns[p].crate
        site = sitefn(q, p)
        for (k, t), f in q.facts.items():
            if k == "b" and f is True and t[0] in ("lt", "le") and t[1][0] == "int" and isinstance(t[1][1], int) and t[1][1] >= 2**31 and t[2][0] == "call" and t[2][1].split("::")[-1] == "len":
                return "more than %d members do not fit in memory" % t[1][1]
            if k == "v" and f == frozenset(["Err"]) and t[0] == "call" and t[1].split("::")[-1].split(":")[0] in ("try_from", "try_into") and t[1].endswith((":u32", ":u64", ":usize")) \
                    and t[2][0][0] == "call" and t[2][0][1].split("::")[-1] == "len":
                return "more than 2^32 members do not fit in memory"
            if k == "v" and f == frozenset(["Placeholder"]) and crate == "relaxng_validator" and not (self.within(site, "Schema::resolve_ref") and not self.resolved(2)):
                return "references are resolved before anything is validated (V07, V11)"
            if k == "v" and isinstance(f, frozenset) and not (f & {"After", "Choice", "NotAllowed"}) and len(f) > 3 and self.within(site, "Validator::apply_after"):
                return "the derivative by a start tag is made of After, Choice and NotAllowed (V02)"
            if crate == "relaxng_syntax" and k == "v" and f == frozenset(["None"]) and t[0] == "call" and t[1].endswith("to_str"):
                return "paths in the syntax are made of texts"
            if k == "v" and f == frozenset(["Err"]) and t[0] == "call" and t[1].split("::")[-2:] == ["Regex", "new"] and t[2][0][0] == "str":
                if self.regex(t[2][0][1]):
                    return "a constant, well-formed regular expression"
            if k == "v" and f == frozenset(["Err"]) and t[0] == "call" and t[1].split("::")[-2:] == ["Regex", "new"] and not any(x[0] in ("arg", "loop", "top", "lp", "elem") for x in terms(t)):
                return "a regular expression made of constants only (M08 reads it)"
            if k == "v" and isinstance(f, frozenset) and len(f) > 3 and "Placeholder" not in f and t[0] == "idx" and self.within(site, "Schema::resolve_ref") and self.resolved(1):
                return "the identifier is that of the reference's placeholder (V07)"
            if emptiness(k, t, f, lambda x: x[0] == "fld" and x[2].startswith(MODEL) and x[2].split("::")[-1] in ("Group", "Choice", "Interleave") and x[3] == "0"):
                return "groups, choices and interleaves of the model have members (M06)"
            if emptiness(k, t, f, lambda x: x[0] == "fld" and x[2].endswith("ElementStack::ElementStack")):
                return "attributes, and the end of a start tag, follow its start, which puts an entry on the element stack (V09, V10)"
            if k == "v" and f == frozenset(["None"]) and t[0] == "cell" and crate == "relaxng_validator":
                return "every name of a compiled schema is defined (M04)"
            if k == "v" and f == frozenset(["None"]) and t[0] == "cell" and self.within(site, "relaxng_model::Compiler::compile") and has(t, "str", lambda x: x[1] == "start"):
                return "the start of a compiled schema is defined (M04)"
            if emptiness(k, t, f, lambda x: x[0] == "call" and x[1].split("::")[-1].rsplit("(")[0].endswith(("list1", "many1", "many_m_n"))):
                return "a list of which there is one at least"
            if k == "v" and f == frozenset(["Incomplete"]) and not self.streaming():
                return "no parser asks for more input"
            if k == "v" and isinstance(f, frozenset) and f <= {"Attribute", "Element", "Define"} and t == ("arg", "self") and self.within(site, "Context::define"):
                return "definitions stand in grammars and includes; an external grammar has a context of its own (M02, M05)"
            if k == "v" and f <= {"String", "Token"} and self.rep_xsd(p):
                return "the builtin datatypes are dispatched before the library's (M09)"
            if k == "v" and self.combined(p, q, t, f):
                return "a rule with a combine method holds a pattern of that kind"
        return None

    def definite(self, p, q, callee=None):
        """what decides is known to happen, although the value comes out of a loop"""
        l = last(q)
        if callee is not None:
            c = last(callee)
            l = c and last(q, (c[0], c[1][0], c[1][1] if c[1][0] == "call" else None, c[2])) or l
        k, t, f = l
        if k != "v":
            return False
        r = self.flow.of0(p, q, t, 0)
        if r is not TOP and r and isinstance(f, frozenset) and r <= f:
            return True
        if self.hidden(p, q):
            return False
        # a loop which need not run leaves the variable as it was
        if t[0] == "loop" and len(t) == 4 and t[3][0] == "adt" and isinstance(f, frozenset) and t[3][2] in f:
            for (k2, t2), f2 in q.facts.items():
                if k2 == "b" and t2[0] == "more" and f2 is False and t2[1][0] == "loop" and t2[1][1] == t[1]:
                    src = [x for x in terms(t2[1][3]) if x[0] == "call"]
                    if any(x[1].split("::")[-1].split(":")[-1] in ("filter", "filter_map", "split_whitespace", "flatten") for x in src):
                        return not any(k3 == "b" and t3[0] in ("eq", "call") and f3 is False and t3 != t2 and any(x in src for x in terms(t3)) for (k3, t3), f3 in q.facts.items())
        return fallible(t, f) and not checked(q, t)

    def hidden(self, p, q):
        """what decides is the variant of a parameter of a function which a closure calls: not followed"""
        k, t, f = last(q) or (None, None, None)
        while t is not None and t[0] == "upd" and t[2]:
            t = t[2][0]
        return k == "v" and t[0] == "arg" and p in self.prog.fns and not self.prog.fns[p].exported and self.how.get(p) is not None and self.flow.of0(p, q, t, 0) is TOP

    def regex(self, src):
        try:
            import lex
            lex.parse_regex(src)
            return True
        except AttributeError:
            import re
            try:
                re.compile(src)
                return True
            except re.error:
                return False
        except Exception:
            return False

    def streaming(self):
        for f in self.prog.fns.values():
            if f.crate == "relaxng_syntax":
                for b in f.body["blocks"]:
                    t = b["t"]
                    if t.get("t") == "call" and "streaming" in str(t["f"].get("path")):
                        return True
        return False

    def resolved(self, i):
        """what is resolved is a placeholder (1), to something which is not one (2)"""
        for p, q, g, a in self.flow.sites:
            if g is not None and shortname(g) == "Schema::resolve_ref" and i < len(a):
                made = a[i][0] == "call" and a[i][1].split("::")[-1] == "ref_placeholder"
                if i == 1 and a[i][0] == "call" and not made or i == 2 and made:
                    return False
        return True

    def kept(self, owner, text, field):
        """the field always holds a position of a character of the text which the other field holds (ok, bad or ?)"""
        if (owner, text, field) not in self.kepts:
            self.kepts[owner, text, field] = "ok"          # assumed of the state before each step
            out = "ok"
            for p, parts in self.flow.sums.items():
                for q in parts:
                    for h, v in q.heap.items():
                        if h[0] == "fld" and h[2] == owner and h[3] == text:
                            out = "?" if out == "ok" else out
                        if h[0] == "fld" and h[2] == owner and h[3] == field:
                            r = boundary(q, ("fld", h[1], owner, text), v, self)
                            out = "bad" if r == "bad" else out if r == "ok" or out == "bad" else "?"
            for p, q, g, a in self.flow.sites:
                if g is None and a[1] + "::" + a[2] == owner:
                    d = dict(a[3])
                    r = "?" if field not in d or text not in d else boundary(q, d[text], d[field], self)
                    out = "bad" if r == "bad" else out if r == "ok" or out == "bad" else "?"
            self.kepts[owner, text, field] = out
        return self.kepts[owner, text, field]

    def rep_xsd(self, p):
        f = self.prog.fns[p]
        return "xsd" in f.path and f.name in ("datatype_name", "datatype_value") or any("xsd" in c.path and c.name in ("datatype_name", "datatype_value")
                                                                                      for c in callers_of(self.prog, p))

    def combined(self, p, q, t, f):
        """the pattern of a combining definition and its combine method agree, at every place which makes one"""
        if not isinstance(f, frozenset):
            return False
        if t[0] == "arg":
            return False
        if not (t[0] == "fld" and t[2].startswith("relaxng_model::model::DefineRule::")):
            return False
        rule, base = t[2], t[1]
        method = None
        for (k2, t2), f2 in q.facts.items():
            if k2 == "v" and isinstance(f2, frozenset) and f2 and f2 <= {"Choice", "Interleave"} and any(x == base for x in terms(t2)) and t2 != t \
                    and any(fldof(x, rule, "1") and x[1] == base for x in terms(t2)):
                method = f2
        if not method or len(method) != 1 or method & f:
            return False
        return self.agree(rule)

    def agree(self, rule):
        bad = []
        for p, q, g, a in self.flow.sites:
            if g is None and a[1] + "::" + a[2] == rule and not self.within(p, "Compiler::merge1"):
                d = dict(a[3])
                m, pt = d.get("1"), d.get("2")
                mv = None
                if m and m[0] == "adt" and m[2] == "Some":
                    x = m[3][0][1]
                    mv = self.flow.of(p, q, x)
                elif m and m[0] == "adt" and m[2] == "None":
                    continue
                elif m and self.flow.of(p, q, m) in (frozenset(["Choice"]), frozenset(["Interleave"])):
                    mv = self.flow.of(p, q, m)
                pv = self.flow.of(p, q, pt) if pt else None
                if mv is None or pv is None or not pv <= mv:
                    if not (m and pt and m[0] == "fld" and pt[0] == "fld" and m[1] == pt[1]):
                        bad.append((p, mv, pv))
        return not bad


def summaries(prog, how, rep):
    libs = {p: f for p, f in prog.fns.items() if f.crate in LIBS and not is_derived(prog, f)}
    out = {}
    for p, f in libs.items():
        try:
            out[p] = summary(prog, libs, f)
        except Budget:
            if p in how and sites(f):
                rep.unknown("%s: too many paths to follow" % shortname(p))
    return libs, out


def summary(prog, libs, f, inline=()):
    return VF(prog, opaque=lambda g: g.path in libs and g.path != f.path and g.path not in inline and "{closure" not in g.path).summarize(f)


PANICS = ("core::panicking", "std::rt::panic", "std::rt::begin_panic", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed")


def sites(f):
    """the places of a function which panic on some condition"""
    n = 0
    for b in f.body["blocks"]:
        t = b["t"]
        if b.get("cl") or t.get("t") != "call" or t["f"].get("k") != "fn":
            continue
        c = norm_path(t["f"].get("r") or t["f"].get("path") or "")
        if c.startswith(PANICS) or c.split("::")[-1] in ("unwrap", "expect", "unwrap_err", "expect_err"):
            n += 1
    return n


def c04(prog, rep, tier):
    rep.rule("every path, through every function reachable from parsing, compiling, validating or producing a diagnostic, which ends in a panic (explicit, or of an unwrap, an expect, a lookup) "
             "has a condition that cannot hold: contradictory, or asking for a variant the value never has (variants of parameters, results and fields, by fixpoint over all call sites), or "
             "refused by one of the listed invariants, each of which another property decides")
    rep.rule("a text is only cut where a search of this text found something, at most the length of what was found behind it; a fixed index or one less than a length needs a test of that length on the path")
    rep.rule("while a cell is borrowed for writing, nothing that is called borrows a cell of the same type")
    how, _ = reach(prog, rep)
    libs, sums = summaries(prog, how, rep)
    entries = {p for p in how if how[p] is None}
    flow = Flow(prog, {p: libs[p] for p in sums}, sums, entries | {p for p, f in libs.items() if f.exported})
    J = Judge(prog, rep, how, flow)
    for p in sorted(how):
        f = libs.get(p)
        if f is None or p not in sums:
            continue
        rep.functions.add(p)
        n = sites(f)
        rep.count("panicking calls", n)
        cuts(prog, rep, how, p, sums[p], J)
        todo = [q for q in sums[p] if q.kind == "panic"]
        rep.count("panicking paths", len(todo))
        if not todo:
            if n:
                rep.good("%s: no path to its %d panicking calls" % (shortname(p), n))
            continue
        for q in todo:
            if sitefn(q, p) != p and sitefn(q, p) in how and "{closure" not in sitefn(q, p):
                continue
            judge(prog, rep, J, libs, sums, how, p, q)
    borrows(prog, rep, how, libs)


def judge(prog, rep, J, libs, sums, how, p, q):
    r = J.reason(p, q)
    if r:
        rep.good("%s at %s: %s" % (shortname(p), sitepos(q), r))
        return
    site, pos = sitefn(q, p), sitepos(q)
    # with the functions the condition asks inlined
    asked = []
    for (k, t), f in q.facts.items():
        for x in terms(t):
            if x[0] in ("call", "upd") and x[1] in J.flow.short and J.flow.short[x[1]] != p:
                g = J.flow.short[x[1]]
                if g not in asked and len(prog.fns[g].body["blocks"]) < 80:
                    asked.append(g)
    left = None
    if asked:
        left = again(prog, J, libs, p, set(asked[-3:]), site, pos)
        if left == []:
            rep.good("%s at %s: excluded by what %s returns" % (shortname(p), pos, ", ".join(shortname(a) for a in asked[-3:])))
            return
    # with the callers: the condition is on what the function is given
    if "{closure" in p:
        par = p.split("::{closure")[0]
        if par in sums and not any(sitefn(x, par) == site and sitepos(x) == pos and not J.reason(par, x) for x in sums[par] if x.kind == "panic"):
            vis = any(sitefn(x, par) == site for x in sums[par])
            if vis or not outside(q):
                rep.unknown("%s at %s: the condition is on what the closure is given" % (shortname(p), pos)) if not vis else rep.good()
                return
    elif how.get(p) is not None and given(q):
        bad = None
        for c in callers_of(prog, p):
            if c.path not in how or c.path not in libs or c.path == p:
                continue
            l = again(prog, J, libs, c.path, {p}, site, pos)
            if l is None:
                bad = "unknown"
            elif l:
                bad = (c.path, l[0])
                break
        if bad is None:
            rep.good("%s at %s: no caller gives it such a value" % (shortname(p), pos))
            return
        if bad == "unknown":
            rep.unknown("%s at %s: the condition is on what it is given" % (shortname(p), pos))
            return
        if (vague(bad[1]) or J.hidden(*bad)) and not J.definite(bad[0], bad[1], q):
            rep.unknown("%s at %s: %s" % (shortname(p), pos, cond(bad[1])))
            return
        report(rep, how, p, q, bad)
        return
    if (vague(q) or J.hidden(p, q)) and not J.definite(p, q):
        rep.unknown("%s at %s: %s" % (shortname(p), pos, cond(q)))
        return
    report(rep, how, p, q, None)


def report(rep, how, p, q, via):
    rep.bad("panic:%s:%s:%s" % (shortname(p), label(q), key(q)), "%s at %s: can panic (%s) when %s%s; reached as %s"
            % (shortname(p), sitepos(q), label(q), cond(via[1] if via else q), " in " + shortname(via[0]) if via else "", chain(how, p)))


def again(prog, J, libs, p, inline, site, pos):
    """the panicking paths of that place which remain in p when more is inlined; None: not known"""
    try:
        parts = summary(prog, libs, libs[p], inline)
    except Budget:
        return None
    return [q for q in parts if q.kind == "panic" and sitefn(q, p) == site and sitepos(q) == pos and not J.reason(p, q)]


def last(q, like=None):
    """what decides on a path: what was tested last (like: of this head and outcome)"""
    for (k, t), f in reversed(list(q.facts.items())):
        if like is None or (k, t[0], t[1] if t[0] == "call" else None, f) == like:
            return k, t, f
    return None


def given(q):
    """the condition which decides is on the parameters alone"""
    l = last(q)
    return l is None or not any(x[0] in ("loop", "top", "undef") for x in terms(l[1])) and any(x[0] == "arg" for x in terms(l[1]))


def outside(q):
    l = last(q)
    return l is not None and l[1][0] in ("call",)


CONVERT = ("parse", "from_u32", "from_str_radix", "from_utf8", "from_digit", "to_digit", "try_from", "try_into")
WEAK = ("is_empty", "starts_with", "ends_with", "strip_prefix", "strip_suffix", "contains", "find", "rfind", "len", "trim")


def fallible(t, f):
    """the result of a conversion which fails for some texts and numbers"""
    return isinstance(f, frozenset) and f <= {"None", "Err"} and t[0] == "call" and t[1].split("::")[-1].split(":")[0] in CONVERT


def checked(q, t):
    """the path tests what is converted otherwise"""
    sub = [x for x in t[2] if isinstance(x, tuple) and x and x[0] not in ("int", "str")]
    for (k2, t2), f2 in q.facts.items():
        if t2 != t and any(x in sub for x in terms(t2)):
            if t2[0] == "call" and t2[1].split("::")[-1].split(":")[0] in WEAK or t2[0] == "call" and t2[1].split("::")[-1] in CONVERT:
                continue
            if t2[0] == "eq" and any(x[0] == "str" or x[0] == "call" and x[1].split("::")[-1] == "len" for x in t2[1:]):
                continue
            return True
    return False


def vague(q):
    """the condition which decides is not one whose meaning is known here"""
    l = last(q)
    if l is None:
        return False
    k, t, f = l
    return any(x[0] in ("top", "undef", "bot", "fold", "lp", "loop", "havoc") for x in terms(t))


def cond(q):
    from vf import show
    l = last(q)
    if l is None:
        return "called"
    k, t, f = l
    s = show(t)
    return ("%s is %s" % (s, "|".join(sorted(map(str, f))) if isinstance(f, frozenset) else f))[:220]


def key(q):
    """the condition, without positions"""
    l = last(q)
    if l is None:
        return "always"
    k, t, f = l
    c = [x[1].split("::")[-1] for x in terms(t) if x[0] == "call"][:2]
    d = [x[3] for x in terms(t) if x[0] == "fld" and len(x) > 3][:2]
    return ".".join(map(str, c + d)) + "=" + ("|".join(sorted(map(str, f)))[:40] if isinstance(f, frozenset) else str(f))


# ------------------------------------------------------------------------------- texts and indexes
FIND = ("find", "rfind")


def cuts(prog, rep, how, p, parts, J=None):
    """cut texts, fixed indexes, lengths less something"""
    done = {}
    for q in parts:
        for a in q.asserts:
            if a[0] == "bounds" and a[1][0] == "lt" and a[1][1][0] == "int":
                r = longer(q, a[1][2], a[1][1][1], prog.fns.get(a[2]))
                put(done, ("index", a[1][1][1], a[1][2]), r, ":".join(a[3]), "element %d of %s" % (a[1][1][1], short(a[1][2])))
            if a[0] == "index":
                obj, i = a[1][1]
                if "::Vec" in a[4] or "VecDeque" in a[4] or "slice" in a[4]:
                    if i[0] == "int" and isinstance(i[1], int):
                        put(done, ("index", i[1], obj), longer(q, ("call", "len", (obj,)), i[1], prog.fns.get(a[2])), ":".join(a[3]), "element %d of %s" % (i[1], short(obj)))
                elif "Map" in a[4]:
                    put(done, ("key", i, obj), known(q, obj, i), ":".join(a[3]), "entry %s of %s" % (short(i), short(obj)))
        for t in set(of_part1(q)):
            if t[0] == "bin" and t[1] == "Sub" and len(t) == 4 and t[3][0] == "int" and isinstance(t[3][1], int) and t[3][1] > 0 and t[2][0] == "call" \
                    and t[2][1].split("::")[-1] == "len":
                r = longer(q, t[2], t[3][1] - 1, None)
                put(done, ("less", t), r, "", "%s less %d" % (short(t[2]), t[3][1]))
            if t[0] == "idx" and len(t) > 2 and t[2][0] == "adt" and "ops::Range" in t[2][1]:
                for n, x in t[2][3]:
                    put(done, ("cut", t[1], x), boundary(q, t[1], x, J), "", "%s cut at %s" % (short(t[1]), short(x)))
    for k, (r, pos, what) in done.items():
        if r == "ok":
            rep.good("%s: %s" % (shortname(p), what))
        elif r == "bad":
            rep.bad("%s:%s:%s" % (k[0], shortname(p), re.sub(r"[^A-Za-z0-9_]+", ".", what)[:60]), "%s%s: can panic: %s, which nothing on the path allows; reached as %s"
                    % (shortname(p), " at " + pos if pos else "", what, chain(how, p)))
        else:
            rep.count("positions not followed")


def of_part1(q):
    from flow import of_part
    return of_part(q)


def put(done, k, r, pos, what):
    if k not in done or r == "bad" or done[k][0] != "bad" and r == "?":
        done[k] = (r, pos, what)


def short(t):
    from vf import show
    return show(t)[:120]


def known(q, obj, key):
    """the path implies that the map has an entry of that key"""
    for (k, t), f in q.facts.items():
        if t[0] == "call" and t[2] and t[2][0] == obj and key in t[2]:
            w = t[1].split("::")[-1]
            if w == "contains_key" and k == "b" and f is True or w in ("get", "get_mut", "insert") and k == "v" and f == frozenset(["Some"]):
                return "ok"
        if any(x == obj for x in terms(t)) and any(x == key for x in terms(t)):
            return "?"
    if any(x[0] in ("upd", "loop", "top", "lp", "elem") for x in list(terms(obj)) + list(terms(key))):
        return "?"
    return "bad"


def sized(obj):
    """a collection of which an invariant says that it has members"""
    return obj is not None and obj[0] == "fld" and (obj[2].endswith("ElementStack::ElementStack") or obj[2].startswith(MODEL) and obj[2].split("::")[-1] in ("Group", "Choice", "Interleave"))


def longer(q, ln, n, fn):
    """the path implies that the length is more than n"""
    if ln[0] == "int":
        return "ok" if isinstance(ln[1], int) and ln[1] > n else "bad"
    obj = ln[2][0] if ln[0] == "call" and ln[2] else None
    if n == 0 and sized(obj):
        return "ok"
    rel = False
    for (k, t), f in q.facts.items():
        if k == "b":
            if t[0] == "eq" and any(same(x, ln) for x in t[1:]):
                o = t[1] if same(t[2], ln) else t[2]
                if o[0] == "int":
                    rel = True
                    if f is True and o[1] > n or f is False and o[1] == 0 and n == 0:
                        return "ok"
            if t[0] in ("lt", "le") and any(same(x, ln) for x in t[1:]):
                rel = True
                if same(t[2], ln) and t[1][0] == "int" and f is True and t[1][1] + (1 if t[0] == "lt" else 0) > n:
                    return "ok"
                if same(t[1], ln) and t[2][0] == "int" and f is False and t[2][1] + (0 if t[0] == "lt" else 1) > n:
                    return "ok"
                if not (t[1][0] == "int" or t[2][0] == "int"):
                    return "?"
            if t[0] == "call" and t[1].split("::")[-1] == "is_empty" and t[2] and t[2][0] == obj:
                rel = True
                if f is False and n == 0:
                    return "ok"
            if t[0] == "call" and t[1].split("::")[-1] in ("starts_with", "ends_with", "contains") and t[2] and t[2][0] == obj and f is True:
                return "ok" if n == 0 else "?"
            if t[0] == "more" and obj is not None and any(x == obj for x in terms(t)) and f is True and n == 0:
                return "ok"
        if k == "sw" and same(t, ln):
            rel = True
            if isinstance(f, int) and f > n:
                return "ok"
            if isinstance(f, tuple) and f[0] == "not" and set(range(n + 1)) <= set(f[1]):
                return "ok"
        if k == "v" and obj is not None and t[0] == "call" and t[1].split("::")[-1] in EMPTYISH and any(x == obj for x in terms(t)) and f == frozenset(["Some"]):
            return "ok" if n == 0 else "?"
    if any(x[0] in ("loop", "top", "undef", "lp", "elem", "fold") for x in terms(ln)):
        return "?"
    if obj is not None and obj[0] == "call":
        return "?"
    return "bad"


def same(x, ln):
    """the same length"""
    return x == ln or x[0] == ln[0] == "call" and x[1].split("::")[-1] == ln[1].split("::")[-1] == "len" and x[2] == ln[2]


def needle(t):
    """the length in octets of what is searched for; None: not known"""
    if t[0] == "char" and isinstance(t[1], int):
        return len(chr(t[1]).encode())
    if t[0] == "str":
        return len(t[1].encode())
    return None


def place(x, text):
    """x is a position at which a search of the text, or a walk over its characters, was: (item, needle); None otherwise"""
    if x[0] == "fld" and x[2] == "std::option::Option::Some" and x[1][0] == "call" and x[1][1].split("::")[-1] in FIND and x[1][1].startswith(("core::str", "alloc::str", "str")):
        return x[1][2][0], None, x[1][2][1]
    if x[0] == "fld" and x[3] == "0" and len(x) == 4:
        it = x[1]
        src = None
        if it[0] == "fld" and it[2] == "std::option::Option::Some" and it[1][0] == "call" and it[1][1].startswith("iter:") and it[1][1][5:] in ("find", "rfind", "next", "last", "nth"):
            src = it[1][2][0]
        elif it[0] == "elem":
            src = it[1]
        if src is not None:
            while src[0] == "call" and src[1].startswith("iter:") and src[1][5:] in ("filter", "rev", "skip", "take", "skip_while", "take_while", "peekable"):
                src = src[2][0]
            if src[0] == "call" and src[1].split("::")[-1] in ("char_indices", "match_indices") and src[2]:
                return src[2][0], ("fld", it, x[2], "1"), src[2][1] if len(src[2]) > 1 else None
    return None


def width(q, item, nd):
    """the length of what is at that position; None: not known"""
    if nd is not None:
        return needle(nd)
    for (k, t), f in q.facts.items():
        if k == "b" and f is True and t[0] == "eq" and item in t[1:]:
            c = t[1] if t[2] == item else t[2]
            if needle(c) is not None:
                return needle(c)
        if k == "sw" and t == item and isinstance(f, int):
            return len(chr(f).encode())
    return None


def summands(x):
    if x[0] == "bin" and x[1] == "Add" and len(x) == 4:
        return summands(x[2]) + summands(x[3])
    return [x]


def boundary(q, text, x, J=None):
    """x is where a character of the text begins or the text ends"""
    for (k, t), f in q.facts.items():
        if k == "b" and t[0] == "call" and t[1].split("::")[-1] == "is_char_boundary" and t[2][0] == text:
            return "ok" if f is True and t[2][1] == x else "?"
    if x[0] == "call" and x[1].split("::")[-1].split(":")[0] in ("min", "max") and len(x[2]) == 2:
        rs = [boundary(q, text, y, J) for y in x[2]]
        return "ok" if all(r == "ok" for r in rs) else "bad" if any(y[0] == "int" and y[1] != 0 for y in x[2]) else "?"
    if x[0] == "bin" and x[1] in ("Div", "Shr") and any(y == text for y in terms(x)):
        return "bad"
    add, rest, wide = 0, [], []
    for t in summands(x):
        if t[0] == "int":
            if not isinstance(t[1], int):
                return "?"
            add += t[1]
        elif t[0] == "call" and t[1].split("::")[-1] == "len_utf8" and t[2]:
            wide.append(t[2][0])
        elif t[0] == "call" and t[1].split("::")[-1] == "len" and t[2] and t[2][0][0] in ("str",):
            add += len(t[2][0][1].encode())
        elif t[0] == "call" and t[1].split("::")[-1] == "len" and t[2] and t[2][0] != text:
            wide.append(t[2][0])
        else:
            rest.append(t)
    if not rest and not wide:
        if add == 0:
            return "ok"
        for (k, t), f in q.facts.items():
            if k == "b" and f is True and t[0] == "call" and t[1].split("::")[-1] == "starts_with" and t[2][0] == text and needle(t[2][1]) is not None:
                return "ok" if needle(t[2][1]) == add else "bad"
            if k == "v" and f == frozenset(["Some"]) and t[0] == "call" and t[1].split("::")[-1] == "strip_prefix" and t[2][0] == text and needle(t[2][1]) is not None:
                return "ok" if needle(t[2][1]) == add else "bad"
        return "bad" if text[0] in ("arg", "fld") or text[0] == "call" and text[1].split("::")[-1] in ("value", "text", "as_str", "trim", "fragment") else "?"
    if len(rest) == 1 and rest[0][0] == "call" and rest[0][1].split("::")[-1] == "len" and rest[0][2] and rest[0][2][0] == text:
        return "ok" if add == 0 and not wide else "bad" if not wide else "?"
    if any(y[0] == "call" and y[1].split("::")[-1].split(":")[-1] == "count" and any(z[0] == "call" and z[1].split("::")[-1] == "chars" for z in terms(y)) for r in rest for y in terms(r)):
        return "bad"
    within = text
    if len(rest) == 2:
        base = [r for r in rest if place(r, text) is None]
        if len(base) != 1:
            return "?"
        # a position in what follows a position
        within = ("idx", text, ("adt", "std::ops::RangeFrom", "RangeFrom", (("start", base[0]),)))
        pos = [r for r in rest if r is not base[0]]
        pl = place(pos[0], text)
        if not (pl[0][0] == "idx" and pl[0][1] == text and pl[0][2][0] == "adt" and pl[0][2][2] == "RangeFrom" and dict(pl[0][2][3]).get("start") == base[0]):
            return "?"
        if boundary(q, text, base[0], J) != "ok":
            return "?"
        within, rest = pl[0], pos
    if len(rest) != 1:
        return "?"
    x = rest[0]
    pl = place(x, text)
    if pl is not None:
        src, item, nd = pl
        if src != within:
            a, b = src, within
            if any(y == a for y in terms(b)) and b[0] == "call" and "trim" in b[1] or any(y == b for y in terms(a)) and a[0] == "call" and "trim" in a[1]:
                return "bad"
            if within == text and a[0] == "idx" and a[1] == text and a[2][0] == "adt" and a[2][2] == "RangeFrom" and a[2][3][0][1] != ("int", 0):
                return "bad"          # counted from elsewhere
            return "?"
        if wide:
            return "ok" if add == 0 and len(wide) == 1 and wide[0] in (item, nd) else "?"
        if add == 0:
            return "ok"
        n = width(q, item, nd)
        if n is None:
            return "?" if add == 1 else "bad"
        return "ok" if add == n else "bad"
    if x[0] == "fld" and text[0] == "fld" and x[1] == text[1] and x[2] == text[2] and J is not None and not wide:
        r = J.kept(x[2], text[3], x[3])
        return ("ok" if add == 0 else "?") if r == "ok" else r
    if x[0] == "cast" and any(y[0] == "fld" and y[3] in ("row", "col") for y in terms(x)):
        return "bad"          # the number of a line or column
    if x[0] == "call" and x[1] == "iter:sum" and x[2] and x[2][0][0] == "call" and x[2][0][1] == "iter:map":
        src, fn = x[2][0][2][0], x[2][0][2][1]
        while src[0] == "call" and src[1] in ("iter:take", "iter:take_while", "iter:map_while"):
            src = src[2][0]
        if src[0] == "call" and src[1].split("::")[-1] == "lines":
            return "bad"          # a line may end in one character or two
        if src[0] == "call" and src[1].split("::")[-1] in ("split_inclusive", "chars") and src[2][0] == within and fn[0] == "fn":
            w = fn[1].split("::")[-1]
            if w == ("len_utf8" if src[1].endswith("chars") else "len"):
                return "ok" if add == 0 and not wide else "?"
    return "?"


# ------------------------------------------------------------------------------- cells
def borrows(prog, rep, how, libs):
    from cells import Cells, borrow_kind
    cs = Cells(prog, libs)
    for p in sorted(how):
        if p not in libs:
            continue
        n = sum(1 for b in libs[p].body["blocks"] if not b.get("cl") and b["t"].get("t") == "call" and borrow_kind(b["t"]))
        rep.count("borrows of cells", n)
        seen = set()
        for cell, a, b, via, k, k2 in cs.conflicts(p):
            name = "::".join(x.rsplit(".", 1)[-1] for x in cell[1]) or "a local"
            key = "borrow:%s:%s:%s" % (shortname(p), name, shortname(via[0]) if via else "direct")
            if key in seen:
                continue
            seen.add(key)
            rep.bad(key, "%s at %s: the cell %s, borrowed%s at %s, is borrowed%s again%s, which panics; reached as %s"
                    % (shortname(p), prog.pos(b), name, " for writing" if k == "mut" else "", prog.pos(a), " for writing" if k2 == "mut" else "",
                       " by " + " -> ".join(shortname(x) for x in via) if via else "", chain(how, p)))
        if n and not seen:
            rep.good("%s: no cell is borrowed again while borrowed" % shortname(p))
