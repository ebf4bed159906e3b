"""The command line tool: what it does with the outcome of compiling, reading and validating."""
from lib import *
from props_model import mk

CRATE = "rng"
READERS = ("std::fs::", "std::io::Read", "std::io::read", "std::io::BufRead")
WRITERS = ("std::io::_eprint", "std::io::Write::", "std::fmt::Write::")
OUT = ("std::io::_eprint", "Compiler::dump_diagnostic", "codemap_diagnostic::Emitter::emit", "std::io::Write::write_all", "std::io::Write::write_fmt")


PARTIAL = ("iter:skip", "iter:take", "iter:filter", "iter:step_by", "iter:skip_while", "iter:take_while")


def within(t, x):
    return any(y == x for y in subterms(t))


def failure(t, vs):
    """the operation whose outcome this fact is about, and whether it failed"""
    if t[0] == "call":
        if t[1] == "Compiler::compile" or t[1].startswith(READERS):
            return t[1], vs == frozenset(["Err"])
        return None
    if t[0] == "fld" and t[1][0] == "call" and t[1][1] == "Validator::validate_next":
        return "Validator::validate_next", vs == frozenset(["Err"])
    return None


def c01(prog, rep, tier):
    rep.rule("every path through the program, from its start to each exit, return and step of a loop, is judged by the outcomes it has seen: a path on which compiling, reading or validating failed "
             "ends at once with a status which is not 0, after writing that error out; one on which nothing failed goes on to the next document only when the validator has answered that there is no more, "
             "and returns only when there are no more documents")
    main = [f for f in prog.fns.values() if f.crate == CRATE and f.name == "main" and "{closure" not in f.path]
    if len(main) != 1:
        rep.bad("anchor:main", "the main function of the command line tool is no longer there")
        return
    main = main[0]
    rep.functions |= {f.path for f in prog.fns.values() if f.crate == CRATE}
    vf, C = mk(prog, [f for f in prog.fns.values() if f.crate != CRATE], [])
    try:
        parts = vf.summarize(main)
    except Budget as e:
        rep.unknown("main: %s" % e)
        return
    C.norm(main, {})
    args = ("call", "structopt::StructOpt::from_args", ())
    docs = ("fld", args, "rng::Cli::Validate", "xml")

    def nonzero(v):
        """True / False / None: is this exit status a failure?"""
        if v[0] == "int":
            return v[1] % 256 != 0
        if v == ("tup", ()):
            return False
        if v[0] == "call" and v[1] in ("std::convert::From::from", "std::process::ExitCode::from", "std::convert::Into::into") and v[2] and v[2][0][0] == "int":
            return v[2][0][1] % 256 != 0
        if v[0] == "const" and "ExitCode" in str(v):
            return True if "FAILURE" in str(v) else False if "SUCCESS" in str(v) else None
        if v[0] == "adt" and v[1] == RES:
            return v[2] == "Err"
        return None

    sets = {}          # what a failing step leaves in the variables of a loop
    good = []
    compiled = set()
    for p in parts:
        fails, seen = [], []
        lost = None
        for (k, t), vs in p.facts.items():
            if k != "v":
                continue
            f = failure(t, vs)
            if f is None:
                continue
            seen.append(f[0])
            if f[0] == "Compiler::compile":
                compiled.add(t)
            if f[1]:
                fails.append((f[0], t))
        where = "after %s" % (", ".join("%s %s" % (s.rsplit("::", 1)[-1], "failed" if any(s == a for a, _ in fails) else "succeeded") for s in seen) or "nothing")
        label = "main at %s: %s: " % (prog.pos(main.sp), where)
        more = {t[1]: v for (k, t), v in p.facts.items() if k == "b" and t[0] == "more" and t[1][0] == "loop"}
        outer = {it: v for it, v in more.items() if it[3] == docs or any(x == docs for x in subterms(it[3]))}
        if fails:
            what, term = fails[0]
            # the error is written out
            told = [e for e in p.events if e[0] == "call" and (e[1] in OUT or e[1].endswith("::emit"))]
            about = [e for e in told if any(within(a, term) for a in e[2])]
            wrong = [e for e in p.events if e[0] == "call" and e[1] == "std::io::_print" and any(within(a, term) for a in e[2])]
            if p.kind != "panic":
                if about:
                    rep.good(label + "the error is written out")
                elif wrong:
                    rep.bad("silent:" + what, label + "the error goes to the standard output")
                elif not told:
                    rep.bad("silent:" + what, label + "nothing is written about it")
                else:
                        rep.bad("silent:" + what, label + "what is written does not say which error it was")
            if p.kind == "panic":
                rep.good(label + "ends in a panic")
            elif p.kind in ("exit", "ret"):
                z = nonzero(p.val) if p.kind == "exit" or p.val != ("tup", ()) else False
                if z is None:
                    rep.unknown(label + "the status %s is not known" % show(p.val))
                elif z:
                    rep.good(label + "status %s" % show(p.val))
                else:
                    rep.bad("status:" + what, label + "the program ends as if nothing had failed (%s)" % show(p.val))
            elif p.kind == "back":
                back = [(lp, b) for lp, (i, b) in p.loops.items() if b is not None and "%s#bb%d" % lp == p.val[1]]
                changed = {}
                for lp, b in back:
                    for v, x in b.items():
                        if x[0] in ("int", "bool") and not v.startswith("_"):
                            changed[(lp, v)] = x
                if changed:
                    sets.update(changed)
                    rep.unknown(label + "goes on, having noted it in %s" % ", ".join(v for lp, v in changed))
                else:
                    rep.bad("status:" + what, label + "goes on as if nothing had failed")
            continue
        good.append((p, label, outer))
    if not compiled:
        rep.bad("schema", "main at %s: the schema is never compiled" % prog.pos(main.sp))
    for t in compiled:
        if t[2][-1] != ("fld", args, "rng::Cli::Validate", "schema"):
            rep.unknown("main: what is compiled is %s" % show(t[2][-1]))
        else:
            rep.good("the schema given is compiled")
    for p, label, outer in good:
        nxt = [(t, vs) for (k, t), vs in p.facts.items() if k == "v" and t[0] == "call" and t[1] == "Validator::validate_next"]
        if p.kind == "panic":
            rep.bad("panic", label + "panics although nothing failed")
            continue
        if p.kind == "exit" or p.kind == "ret":
            z = nonzero(p.val) if p.kind == "exit" or p.val != ("tup", ()) else False
            noted = [t for (k, t), x in p.facts.items() if k == "b" and any(y[0] == "loop" and (y not in outer) for y in subterms(t)) and t[0] != "more"]
            if z is None or z and noted:
                rep.unknown(label + "status %s, which depends on what loops noted" % show(p.val))
            elif z:
                rep.bad("status", label + "the program ends with a failure although nothing failed")
            elif not outer and not any(t[0] == "lam" or t[0] == "call" and t[1].startswith("iter:") for (k, t0), x in p.facts.items() for t in subterms(t0)):
                rep.bad("unread", label + "the program ends without having looked at the documents")
            elif any(v is True for v in outer.values()):
                rep.bad("rest", label + "the program ends successfully before the last document")
            elif sets and not noted:
                rep.bad("forgotten", label + "what was noted about failures (%s) has no influence on the status" % ", ".join(v for lp, v in sets))
            else:
                rep.good(label + "all documents were looked at")
            continue
        if p.kind != "back":
            continue
        lp = next((lp for lp, (i, b) in p.loops.items() if b is not None and "%s#bb%d" % lp == p.val[1]), None)
        if lp is None:
            rep.unknown(label + "a loop which is not known")
            continue
        for (l2, v), x in sets.items():
            if l2 == lp:
                now = p.loops[lp][1].get(v)
                if now is not None and now[0] in ("int", "bool") and now != x:
                    rep.bad("forgotten", label + "what was noted about an earlier failure (%s) is overwritten" % v)
        docloop = [it for it in outer if it[1] == "%s#%d" % lp]
        if docloop:
            it = docloop[0]
            if it[3] != docs:
                left = label + "some of the documents given are left out: %s" % show(it[3])
                if any(x[0] == "call" and x[1] in PARTIAL for x in subterms(it[3])):
                    rep.bad("documents", left)
                else:
                    rep.unknown(left)
                continue
            ends = [t for t, vs in nxt if vs == frozenset(["None"])]
            if not ends:
                opaque = [e[1] for e in p.events if e[0] == "call" and e[1].startswith("iter:")]
                if opaque or p.loops and any(i.get("v", ("",))[0] == "lam" for i, b in p.loops.values()):
                    rep.unknown(label + "how a document is validated is not known")
                else:
                    rep.bad("incomplete", label + "goes on to the next document without the validator having come to the end of this one")
                continue
            rep.good(label + "goes on to the next document at the end of this one")
            # the validator is made of the schema compiled and the text of this very document
            elem = ("elem", docs)
            v = ends[0][2][0]
            init = v[3] if v[0] == "loop" else v
            if init[0] == "call" and init[1] == "Validator::new" and len(init[2]) == 2:
                model, reader = init[2]
                okm = model[0] == "fld" and model[1] in compiled
                if okm:
                    rep.good(label + "documents are validated against the schema given")
                elif any(x in compiled for x in subterms(model)):
                    rep.unknown(label + "documents are validated against %s" % show(model))
                else:
                    rep.bad("model", label + "documents are validated against %s" % show(model))
                def carried(t):
                    if t[0] == "upd" and t[1].rsplit("::", 1)[-1] in ("clear", "truncate") or t[0] == "call" and t[1].endswith("mem::take"):
                        return False
                    return t[0] == "loop" and t[1] == "%s#%d" % lp or any(carried(x) for x in t if isinstance(x, tuple) and x)
                if within(reader, elem) and carried(reader):
                    rep.bad("document", label + "the validator reads this document after what was left by earlier ones: %s" % show(reader))
                elif within(reader, elem):
                    rep.good(label + "the validator reads this document")
                elif any(x[0] == "loop" for x in subterms(reader)):
                    rep.bad("document", label + "the validator reads what is left of earlier documents: %s" % show(reader))
                else:
                    rep.bad("document", label + "the validator reads %s" % show(reader))
                # all of it
                cut = [x[1] for x in subterms(reader) if x[0] == "call" and x[1] in ("std::io::Read::take", "core::str::trim", "core::str::trim_end", "core::str::trim_start", "core::str::lines")
                       or x[0] == "sub" or x[0] == "call" and x[1].startswith("iter:")]
                if cut:
                    rep.unknown(label + "not all of the document is read: %s" % show(reader))
            else:
                rep.unknown(label + "how the validator is made is not known")
        else:
            if nxt and all(vs == frozenset(["Some"]) for t, vs in nxt):
                rep.good(label + "goes on within the document")
            elif nxt:
                rep.bad("endless", label + "goes on after the end of a document")
            else:
                rep.unknown(label + "a loop which is not known")
