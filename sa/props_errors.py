"""C06: an error found on the way is never lost."""
from lib import *
from mir import norm_path
from flow import terms, of_part
from props_effects import reach, chain, LIBS
from props_panic import summaries

OURS = ("RelaxError", "ValidatorError", "FacetError", "XsdDatatypeError", "std::io::Error", "io::Error", "roxmltree::Error", "xmlparser::Error", "ParseError", "Utf8Error", "FromUtf8Error", "nom::Err", "regex::Error")
DROPS = ("ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "is_ok", "iter", "into_iter")


def errtype(ty):
    """E of std::result::Result<T, E>"""
    if not ty.startswith("std::result::Result<"):
        return None
    depth, start = 0, 0
    body = ty[len("std::result::Result<"):-1]
    parts = []
    for i, c in enumerate(body):
        if c in "<([":
            depth += 1
        elif c in ")]" or c == ">" and body[i - 1] != "-":
            depth -= 1
        elif c == "," and depth == 0:
            parts.append(body[start:i].strip())
            start = i + 1
    parts.append(body[start:].strip())
    return parts[-1] if len(parts) == 2 else None


def ours(prog, e, own=False):
    """an error which says what is wrong with a schema or a document, or that it cannot be read (own: of the libraries' own types)"""
    if e is None:
        return False
    e = e.split("<")[0]
    if not own and e.endswith(OURS) or e in ("xml::Error", "xsd::Error", "datatype::Errors", "relax::Error"):
        return True
    return any((a == e or a.endswith("::" + e)) and a.split("::")[0] in LIBS for a in prog.adts) and "rror" in e


def calls(f):
    for bi, b in enumerate(f.body["blocks"]):
        t = b["t"]
        if t.get("t") == "call" and not b.get("cl") and t["f"].get("k") == "fn":
            yield bi, b, t


def callee(t):
    return norm_path(t["f"].get("r") or t["f"].get("path") or "")


def reads(f):
    """how often each local is read"""
    n = {}

    def op(x):
        if isinstance(x, dict):
            if "l" in x and "p" in x and not isinstance(x.get("l"), dict):
                n[x["l"]] = n.get(x["l"], 0) + 1
                for e in x["p"] if isinstance(x["p"], list) else ():
                    if isinstance(e, (list, tuple)) and len(e) > 1 and e[0] == "I" and isinstance(e[1], int):
                        n[e[1]] = n.get(e[1], 0) + 1
            for v in x.values():
                op(v)
        elif isinstance(x, list):
            for v in x:
                op(v)
    for b in f.body["blocks"]:
        if b.get("cl"):
            continue
        for s in b["s"]:
            if s["s"] == "=":
                op(s["v"])
                if s["p"]["p"]:
                    op(s["p"])
        t = b["t"]
        if t["t"] == "drop":
            continue
        for k, v in t.items():
            if k not in ("d", "f"):
                op(v)
    n[0] = n.get(0, 0) + 1
    return n


def says_failed(v, optres=False):
    """the value tells that something failed (optres: of a function for which nothing is no failure)"""
    if optres and v[0] == "adt" and v[2] == "None":
        return False
    if v == ("bool", False):
        return True
    if v[0] == "adt":
        if v[2] in ("Err", "Error", "Failure", "None"):
            return True
        if v[2] in ("Some", "Ready") and v[3]:
            return says_failed(v[3][0][1])
    return False


def c06(prog, rep, tier):
    rep.rule("on every path, through every function of the libraries, on which a step returned an error (path-sensitive value flow, calls opaque), the function returns an error in turn, which contains "
             "that of the step where this says what is wrong with a schema or a document; no path goes on after it, to the next item of a loop or to a value")
    rep.rule("no result of a call which can fail with such an error is left unread, and no iterator leaves out the items which are errors (flattening, and such functions handed to iterators)")
    how, files = reach(prog, rep)
    libs, sums = summaries(prog, how, rep)
    short = {}
    for p in libs:
        short.setdefault(shortname(p), []).append(p)
    for p, f in sorted(libs.items()):
        if f.crate == "relaxng_syntax" and "::compact::" in p and not f.exported:
            rep.count("alternatives of the grammar of the compact syntax (S01)")
            continue
        rep.functions.add(p)
        types = {}
        n = reads(f)
        for bi, b, t in calls(f):
            c = callee(t)
            ty = f.body["locals"][t["d"]["l"]]["t"] if not t["d"]["p"] else ""
            e = errtype(ty)
            if e:
                types.setdefault(c.split("::")[-1], set()).add(e)
                rep.count("calls which can fail")
                if not t["d"]["p"] and not n.get(t["d"]["l"]):
                    if ours(prog, e):
                        rep.bad("unread:%s:%s" % (shortname(p), c.split("::")[-1]), "%s at %s: what %s returns is never looked at, although it can be an error (%s); reached as %s"
                                % (shortname(p), prog.pos(t.get("sp")), c, e, chain(how, p) if p in how else p))
                    else:
                        rep.good()
                else:
                    rep.good()
            for d, sp in values(t):
                w = norm_path(d.get("r") or d.get("path") or "")
                if "::result::Result" in w and w.split("::")[-1] in DROPS:
                    ga = d.get("a") or ()
                    e = ga[1] if len(ga) == 2 else None
                    if e is not None and ours(prog, e):
                            rep.bad("forget:%s:%s" % (shortname(p), w.split("::")[-1]), "%s at %s: %s, applied to each item, forgets the error (%s); reached as %s"
                                    % (shortname(p), prog.pos(t.get("sp")), w.split("::")[-1], e, chain(how, p) if p in how else p))
            if c.split("::")[-1] in ("flatten", "flat_map") and "iter" in c.lower():
                ga = f.body["locals"][t["d"]["l"]]["t"]
                e = errtype_in(ga) or itemerr(libs, ga)
                if ours(prog, e):
                    rep.bad("forget:%s:flatten" % shortname(p), "%s at %s: flattening forgets each error (%s); reached as %s" % (shortname(p), prog.pos(t.get("sp")), e, chain(how, p) if p in how else p))
        if p not in sums:
            continue
        overwritten(prog, rep, how, libs, short, p, sums[p])
        optres = f.body["locals"][0]["t"].startswith("std::option::Option<std::result::Result<")
        items = {errtype_in(l["t"]) for l in f.body["locals"] if l["t"].startswith("std::option::Option<std::result::Result<")} - {None}
        for q in sums[p]:
            for (k, t), fa in q.facts.items():
                if k != "v" or fa != frozenset(["Err"]) or q.kind == "panic":
                    continue
                base = t
                while base[0] == "upd" and base[2]:
                    base = base[2][0]
                item = False
                while base[0] == "fld" and base[2].endswith(("Option::Some", "Result::Ok")):
                    base, item = base[1], True
                if base[0] in ("elem", "first"):
                    base, item = ("call", "the sequence", ()), True
                if base[0] != "call":
                    continue
                g = short.get(base[1]) if not item else None
                es = set(items) if item else set()
                if g and len(g) == 1:
                    es.add(errtype(libs[g[0]].body["locals"][0]["t"]))
                elif not item:
                    es = types.get(base[1].split("::")[-1].split(":")[0], set())
                mine = any(ours(prog, e) for e in es)
                v = q.val
                rep.count("paths on which a step failed")
                kept = any(x[0] == "fld" and x[2].endswith("Result::Err") and x[1] == t for x in terms(v)) or v == t
                if not kept:
                    kept = any(x[0] == "fld" and x[2].endswith("Result::Err") and x[1] == t for h, w in q.heap.items() for x in terms(w))
                name = base[1].split("::")[-1]
                if q.kind not in ("ret",):
                    if before(q, k, t):
                        continue          # a loop which begins after the failure: the paths which leave it decide
                    if kept:
                        rep.unknown("%s: an error of %s is kept and the loop goes on" % (shortname(p), name))
                    elif mine:
                        rep.bad("lost:%s:%s:loop" % (shortname(p), name), "%s: after %s failed the loop goes on (%s); reached as %s" % (shortname(p), name, "/".join(sorted(map(str, es))), chain(how, p) if p in how else p))
                    else:
                        rep.unknown("%s: after %s failed the loop goes on" % (shortname(p), name))
                    continue
                if kept and says_failed(v, optres) or v == t:
                    rep.good("%s: the error of %s is passed on" % (shortname(p), name))
                elif says_failed(v, optres):
                    if any(ours(prog, e, True) for e in es):
                        rep.bad("replaced:%s:%s" % (shortname(p), name), "%s: the error of %s is replaced by %s; reached as %s" % (shortname(p), name, brief(v), chain(how, p) if p in how else p))
                    else:
                        rep.good("%s: the failure of %s is one" % (shortname(p), name))
                elif kept:
                    rep.good("%s: the error of %s is kept" % (shortname(p), name))
                elif mine or v[0] == "adt" and (v[2] == "Ok" or v[2] == "Some" and v[3][0][1][0] == "adt" and v[3][0][1][2] == "Ok") or v == ("bool", True):
                    rep.bad("lost:%s:%s" % (shortname(p), name), "%s: after %s failed the result is %s; reached as %s" % (shortname(p), name, brief(v), chain(how, p) if p in how else p))
                else:
                    rep.unknown("%s: after %s failed the result is %s" % (shortname(p), name, brief(v)))


def overwritten(prog, rep, how, libs, short, p, parts):
    """a variable which holds the outcome of the last step of a loop only"""
    tested = {t[1:3] for q in parts for (k, t0), fa in q.facts.items() for t in terms(t0) if t[0] == "loop"}
    for q in parts:
        if q.kind != "back" or not q.loops:
            continue
        for lp, (init, nxt) in q.loops.items():
            for n, v in (nxt or {}).items():
                if not isinstance(v, tuple) or v[0] != "call" or any(x[0] == "loop" for x in terms(v)) or ("v", v) in q.facts:
                    continue
                g = short.get(v[1])
                e = errtype(libs[g[0]].body["locals"][0]["t"]) if g and len(g) == 1 else None
                if e is None or not ours(prog, e) or any(t[1] == n for t in tested):
                    continue
                rep.bad("overwritten:%s:%s" % (shortname(p), v[1].split("::")[-1]), "%s: what %s returns is kept in %s, which the next item overwrites (%s); reached as %s"
                        % (shortname(p), v[1], n, e, chain(how, p) if p in how else p))


def before(q, k, t):
    """the failure comes before the loop"""
    if any(x[0] in ("elem", "first", "loop") for x in terms(t)):
        return False
    fs = list(q.facts)
    more = [i for i, (k2, t2) in enumerate(fs) if t2[0] == "more"]
    return bool(more) and fs.index((k, t)) < more[-1]


def brief(v):
    from vf import show
    return show(v)[:120]


def values(t):
    """functions used as values in a call"""
    for o in t["a"]:
        for d in walk(o):
            if isinstance(d, dict) and d.get("k") == "fn":
                yield d, t.get("sp")


def itemerr(libs, ty):
    """the error type of the items of an iterator of the libraries' own which the type mentions"""
    for p, f in libs.items():
        if f.name == "next" and f.trait and f.trait.endswith("Iterator") and f.body["locals"]:
            self = f.body["locals"][1]["t"].replace("&mut ", "").split("<")[0] if len(f.body["locals"]) > 1 else ""
            if self and self.split("::")[-1] in re.split(r"[^A-Za-z0-9_]+", ty):
                return errtype_in(f.body["locals"][0]["t"])
    return None


def walk(x):
    if isinstance(x, dict):
        yield x
        for y in x.values():
            yield from walk(y)
    elif isinstance(x, list):
        for y in x:
            yield from walk(y)


def errtype_in(s):
    i = s.find("std::result::Result<")
    while i >= 0:
        depth = 0
        for j in range(i + len("std::result::Result"), len(s)):
            if s[j] == "<":
                depth += 1
            elif s[j] == ">" and s[j - 1] != "-":
                depth -= 1
                if depth == 0:
                    e = errtype(s[i:j + 1])
                    if e:
                        return e
                    break
        i = s.find("std::result::Result<", i + 5)
    return None
