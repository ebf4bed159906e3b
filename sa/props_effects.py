"""What parsing, compiling and validating depend on, and what they touch: effects over the call graph, order of hash collections."""
from lib import *
from mir import norm_path
from props_model import mk

LIBS = ("relaxng_syntax", "relaxng_model", "relaxng_validator")
ENTRIES = [("relaxng_syntax", "schema"), ("relaxng_syntax", "parse"), ("relaxng_model", "Compiler::compile"), ("relaxng_model", "Compiler::diagnostic"),
           ("relaxng_validator", "Validator::new"), ("relaxng_validator", "Validator::validate_next"), ("relaxng_validator", "Validator::diagnostic")]
DENY = [("std::fs::", "the file system"), ("std::env::", "the environment of the process"), ("std::net::", "the network"), ("std::process::", "processes"),
        ("std::thread::spawn", "threads"), ("std::thread::scope", "threads"), ("std::thread::sleep", "the clock"), ("std::thread::current", "threads"),
        ("std::time::", "the clock"), ("std::io::stdin", "the standard input"), ("std::io::stdout", "the standard output"), ("std::io::_print", "the standard output"),
        ("std::io::stderr", "the standard error output"), ("std::io::_eprint", "the standard error output"), ("std::os::", "the operating system"),
        ("std::hash::RandomState", "random numbers"), ("std::hash::random::RandomState", "random numbers"), ("std::random", "random numbers"), ("rand::", "random numbers"),
        ("std::path::Path::exists", "the file system"), ("std::path::Path::try_exists", "the file system"), ("std::path::Path::is_file", "the file system"),
        ("std::path::Path::is_dir", "the file system"), ("std::path::Path::canonicalize", "the file system"), ("std::path::Path::metadata", "the file system"),
        ("std::path::Path::symlink_metadata", "the file system"), ("std::path::Path::read_dir", "the file system"), ("std::path::Path::read_link", "the file system"),
        ("std::path::absolute", "the environment of the process"),
        ("libc::", "the operating system"), ("codemap_diagnostic::Emitter::stderr", "the standard error output")]
READONLY = ("std::fs::File::open", "std::fs::read", "std::fs::read_to_string", "std::fs::canonicalize", "std::fs::metadata", "std::fs::File::metadata", "std::fs::Metadata::",
            "std::fs::exists", "std::fs::symlink_metadata")
NOW = re.compile(r"::(now|today|local_now|utc_now)$")
CELLS = re.compile(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w*)\b")
ONCE = re.compile(r"\b(Lazy|LazyLock|LazyCell|OnceLock|OnceCell|Once|LazyStatic)\b")
HASHIT = re.compile(r"hash_(map|set)::(IntoIter|Iter|IterMut|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Intersection|Union|Difference|SymmetricDifference)\b|hash::(map|set)::(IntoIter|Iter|IterMut|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain)\b")
SETLIKE = re.compile(r"^(std::result::Result<|std::option::Option<)?(std::collections::)?(hash_map::|hash_set::|btree_map::|btree_set::)?(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)\b")
ADAPT = frozenset("map filter filter_map flat_map flatten cloned copied chain zip enumerate inspect peekable by_ref fuse rev into_iter iter take_while skip_while map_while skip take step_by scan".split())
ANYORDER = frozenset("any all count sum product len is_empty size_hint contains min max".split())
GROW = frozenset("push push_str push_back push_front extend append insert_str write_str write_fmt write_all add".split())


def walk(x):
    if isinstance(x, dict):
        yield x
        for y in x.values():
            yield from walk(y)
    elif isinstance(x, list):
        for y in x:
            yield from walk(y)


def mentions(fn):
    """(constant or closure mention, span) in the body of a function"""
    for body in [fn.body] + list(fn.promoted or []):
        for b in body["blocks"]:
            if b.get("cl"):
                continue
            for s in b["s"] + [b["t"]]:
                for d in walk(s):
                    yield d, s.get("sp")


def targets(prog, d):
    """the workspace functions a mention may call"""
    out = []
    if isinstance(d.get("k"), list) and d["k"][:1] == ["closure"]:
        n = norm_path(d["k"][1])
        return [n] if n in prog.fns else []
    for key in ("r", "path"):
        v = d.get(key)
        if isinstance(v, str):
            n = norm_path(v)
            if n in prog.fns:
                return [n]
    if d.get("k") == "fn" and d.get("path"):
        n = norm_path(d["path"])
        tr, _, m = n.rpartition("::")
        for p, f in prog.fns.items():
            if f.trait and f.trait.rsplit("::", 1)[-1] == tr.rsplit("::", 1)[-1] and f.name == m and (f.trait == tr or tr.endswith(f.trait) or f.trait.endswith(tr)):
                out.append(p)
    return out




def reach(prog, rep, crates=LIBS):
    """{function: how it is reached} from the entry points, not through the file access the caller provides"""
    work, how = [], {}
    for crate, short in ENTRIES:
        c = [f for p, f in prog.fns.items() if f.crate == crate and "{closure" not in p and not f.trait and
             (shortname(p) == short and ("::" in short or f.exported))]
        if not c:
            rep.bad("anchor:%s" % short, "the entry point %s of %s is no longer there" % (short, crate))
        for f in c:
            how[f.path] = None
            work.append(f.path)
    files = {p for p, f in prog.fns.items() if f.trait and f.trait.rsplit("::", 1)[-1] == "Files"}
    while work:
        p = work.pop()
        f = prog.fns[p]
        for d, sp in mentions(f):
            for t in targets(prog, d):
                if t not in how and t not in files:
                    how[t] = p
                    work.append(t)
    return how, files


def chain(how, p):
    out = []
    while p is not None:
        out.append(shortname(p))
        p = how[p]
    return " <- ".join(out[:6])


def c02(prog, rep, tier):
    rep.rule("no function reachable from parsing, compiling, validating or producing a diagnostic - in the call graph, through closures, function values and every implementation of a trait method - "
             "mentions a function of the file system, environment, network, processes, threads, clock, terminal or random numbers, or a static which can change after its initialisation; files are read only by "
             "the implementations of the trait which the caller hands in, and these only open, for reading, the path they are given")
    how, files = reach(prog, rep)
    rep.functions |= set(how)
    for p in sorted(how):
        f = prog.fns[p]
        ok = True
        for d, sp in mentions(f):
            if d.get("k") == "fn" or "path" in d and isinstance(d.get("path"), str) and d.get("k") != "static":
                names = {norm_path(x) for x in (d.get("path"), d.get("r")) if isinstance(x, str)}
                for n in names:
                    why = next((w for pre, w in DENY if n.startswith(pre)), None)
                    if why is None and NOW.search(n) and n not in prog.fns:
                        why = "the clock"
                    if why and n.startswith("std::process::abort"):
                        why = None
                    if why:
                        ok = False
                        rep.bad("effect:%s:%s" % (p, n), "%s at %s: uses %s (%s); reached as %s" % (shortname(p), prog.pos(sp), why, n, chain(how, p)))
            if d.get("k") == "static":
                t = d.get("t", "")
                if t.startswith("*mut") or CELLS.search(t):
                    ok = False
                    rep.bad("static:%s:%s" % (p, d["path"]), "%s at %s: uses the static %s (%s), which outlives one use of the library; reached as %s"
                            % (shortname(p), prog.pos(sp), d["path"], t, chain(how, p)))
                elif not ONCE.search(t):
                    rep.count("constant statics")
            if "LocalKey" in str(d.get("path", "")) or "LocalKey" in str(d.get("t", "")) and d.get("k") in ("fn", "const"):
                if CELLS.search(str(d.get("a", "")) + str(d.get("t", ""))):
                    ok = False
                    rep.bad("static:%s:thread" % p, "%s at %s: uses a thread local variable; reached as %s" % (shortname(p), prog.pos(sp), chain(how, p)))
        if ok:
            rep.good("%s: no effects" % shortname(p))
    # the functions which read files
    if not files:
        rep.bad("anchor:Files", "nothing implements the access to files any more")
    for p in sorted(files):
        f = prog.fns[p]
        rep.functions.add(p)
        todo, seen = [p], set()
        ok = True
        while todo:
            q = todo.pop()
            if q in seen:
                continue
            seen.add(q)
            for d, sp in mentions(prog.fns[q]):
                todo += targets(prog, d)
                for x in (d.get("path"), d.get("r")):
                    n = norm_path(x) if isinstance(x, str) else ""
                    if any(n.startswith(pre) for pre, _ in DENY) and not n.startswith(READONLY):
                        ok = False
                        rep.bad("effect:%s:%s" % (p, n), "%s at %s: does more than reading a file (%s)" % (shortname(q), prog.pos(sp), n))
        if ok:
            rep.good("%s only reads" % shortname(p))
        vf, C = mk(prog, [], [])
        try:
            parts = vf.summarize(f)
        except Budget as e:
            rep.unknown("%s: %s" % (shortname(p), e))
            continue
        pathargs = [("arg", n) for n, t in zip(f.argnames(), f.argtypes()) if strip_ty(t) == "std::path::Path"]
        for q in parts:
            opens = [e for e in q.events if e[0] == "call" and e[1] in ("std::fs::File::open", "std::fs::read", "std::fs::read_to_string")]
            for e in opens:
                if e[2][0] in pathargs:
                    rep.good("%s reads the path it is given" % shortname(p))
                elif any(x in pathargs for x in subterms(e[2][0])):
                    rep.unknown("%s: reads %s" % (shortname(p), show(e[2][0])))
                else:
                    rep.bad("path:" + p, "%s at %s: reads %s, not the path it is given" % (shortname(p), prog.pos(f.sp), show(e[2][0])))
            if q.kind == "ret" and q.val[0] == "adt" and q.val[2] == "Ok" and not opens:
                rep.bad("unread:" + p, "%s at %s: answers without reading the file" % (shortname(p), prog.pos(f.sp)))
            cut = [x for x in subterms(q.val) if x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("take", "trim", "lines", "split", "read") and x[1].startswith(("std::io", "core::str"))]
            if cut and q.kind == "ret":
                rep.unknown("%s: answers with %s" % (shortname(p), show(q.val)))


class Flow:
    """flow-insensitive taint over the locals of one body"""

    def __init__(self, prog, fn, sources, itertypes=True):
        self.prog, self.fn, self.body = prog, fn, fn.body
        self.blocks = self.body["blocks"]
        self.t = {}              # local -> description
        self.elem = {}           # local -> next call block
        self.sources = sources
        self.problems, self.fine, self.open = [], [], []

    def ops(self, v):
        for d in walk(v):
            for k in ("c", "m"):
                if isinstance(d.get(k), dict) and "l" in d[k]:
                    yield d[k]["l"]
            if isinstance(d.get("p"), dict) and "l" in d["p"]:
                yield d["p"]["l"]

    def name(self, t):
        f = t["f"]
        return norm_path(f.get("path") or "") if f.get("k") == "fn" else ""

    def calls(self):
        for i, b in enumerate(self.blocks):
            if not b.get("cl") and b["t"]["t"] == "call":
                yield i, b["t"]

    def succ(self, i):
        t = self.blocks[i]["t"]
        k = t["t"]
        out = []
        if k == "switch":
            out = [x for _, x in t["arms"]] + [t["else"]]
        elif "to" in t and t["to"] is not None:
            out = [t["to"]]
        return [x for x in out if x is not None and not self.blocks[x].get("cl")]

    def reachable(self, start, avoid):
        seen, work = set(), list(start)
        while work:
            x = work.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            work += self.succ(x)
        return seen

    def close(self, seeds, through=None):
        """locals whose value derives from the given ones; a local changed through a reference counts as derived"""
        out = set(seeds)
        refs = {}
        for b in self.blocks:
            for s in b["s"]:
                if s["s"] == "=" and isinstance(s["v"], dict) and s["v"].get("r") == "ref" and s["v"].get("mut") and not s["p"]["p"]:
                    refs.setdefault(s["p"]["l"], set()).add(s["v"]["p"]["l"])
        change = True
        while change:
            change = False
            for b in self.blocks:
                if b.get("cl"):
                    continue
                for s in b["s"]:
                    if s["s"] == "=" and s["p"]["l"] not in out and any(l in out for l in self.ops(s["v"])):
                        out.add(s["p"]["l"])
                        change = True
                t = b["t"]
                if t["t"] == "call":
                    if through is not None and not through(t):
                        continue
                    al = [set(self.ops(a)) for a in t["a"]]
                    if any(a & out for a in al):
                        if t["d"]["l"] not in out:
                            out.add(t["d"]["l"])
                            change = True
                        if not (al and al[0] & out):
                            todo = [r for a in al for l in a for r in refs.get(l, ())]
                            while todo:
                                r = todo.pop()
                                if r not in out:
                                    out.add(r)
                                    todo += refs.get(r, ())
                                    change = True
        return out

    def alias(self, l):
        """locals which are this one: moves, references, dereferences"""
        out = {l}
        change = True
        while change:
            change = False
            for b in self.blocks:
                for s in b["s"]:
                    if s["s"] == "=" and isinstance(s["v"], dict) and s["v"].get("r") in ("use", "ref", "cast", "rawref"):
                        if any(x in out for x in self.ops(s["v"])) and s["p"]["l"] not in out and not s["p"]["p"]:
                            out.add(s["p"]["l"])
                            change = True
                t = b["t"]
                if t["t"] == "call" and self.name(t).rsplit("::", 1)[-1] in ("deref", "deref_mut", "as_mut_slice", "as_mut", "borrow_mut", "index_mut", "branch", "from_output", "unwrap", "expect"):
                    if t["a"] and set(self.ops(t["a"][0])) & out and t["d"]["l"] not in out:
                        out.add(t["d"]["l"])
                        change = True
        return out

    def run(self):
        prog, fn = self.prog, self.fn
        taint = {}
        change = True
        while change:
            change = False
            for i, b in enumerate(self.blocks):
                if b.get("cl"):
                    continue
                for s in b["s"]:
                    if s["s"] == "=" and s["p"]["l"] not in taint and isinstance(s["v"], dict) and s["v"].get("r") in ("use", "ref", "cast", "agg"):
                        for l in self.ops(s["v"]):
                            if l in taint:
                                taint[s["p"]["l"]] = taint[l]
                                change = True
                                break
                t = b["t"]
                if t["t"] != "call" or t["d"]["l"] in taint:
                    continue
                n = self.name(t)
                last = n.rsplit("::", 1)[-1]
                dty = t["d"].get("t", "")
                why = None
                if any(x in self.sources for x in targets(prog, t["f"])):
                    why = "what %s yields" % last
                elif HASHIT.search(dty) and not HASHIT.search(str([a.get("m", a.get("c", {})).get("t") if isinstance(a, dict) else "" for a in t["a"]])) and last not in ("next",):
                    why = "the members of a hash collection (%s)" % last
                elif last in ADAPT and t["a"] and any(l in taint for l in self.ops(t["a"][0])):
                    why = taint[next(l for l in self.ops(t["a"][0]) if l in taint)]
                if why:
                    taint[t["d"]["l"]] = why
                    change = True
        self.t = taint
        returned = False
        if 0 in taint:
            returned = True
        for i, t in self.calls():
            n = self.name(t)
            last = n.rsplit("::", 1)[-1]
            hot = [k for k, a in enumerate(t["a"]) if any(l in taint for l in self.ops(a))]
            if not hot or t["d"]["l"] in taint and last in ADAPT:
                continue
            why = taint[next(l for l in self.ops(t["a"][hot[0]]) if l in taint)]
            at = prog.pos(t.get("sp"))
            if last in ("collect", "from_iter", "extend", "try_collect"):
                self.collected(i, t, last, why, at)
            elif last == "next":
                self.loop(i, t, why, at)
            elif last in ANYORDER:
                self.fine.append("%s: %s is not concerned with the order" % (at, last))
            elif last in ("drop", "drop_in_place", "borrow", "clone", "fmt"):
                pass
            elif last in ("find", "find_map", "position", "last", "nth", "reduce", "max_by_key", "min_by_key", "max_by", "min_by"):
                self.problems.append((last, "%s: which of %s '%s' chooses depends on the order of a hash collection" % (at, why, last)))
            elif last in ("fold", "for_each", "try_for_each", "try_fold", "partition", "unzip"):
                self.open.append("%s: %s over %s" % (at, last, why))
            else:
                tg = targets(prog, t["f"])
                if tg:
                    self.open.append("%s: %s is handed to %s" % (at, why, last))
                elif last == "join" or last in ("concat", "cmp", "eq"):
                    self.problems.append((last, "%s: %s is joined in the order of a hash collection" % (at, why)))
        return returned

    def collected(self, i, t, last, why, at):
        f = t["f"]
        if last == "extend":
            ty = str((f.get("a") or [""])[0])
            base = next(iter(self.ops(t["a"][0])), None)
        else:
            ty = t["d"].get("t", "")
            base = t["d"]["l"]
        if SETLIKE.match(ty.replace("&mut ", "").strip()):
            self.fine.append("%s: collected into a collection which has no order of its own" % at)
            return
        al = self.alias(base)
        if last == "extend":
            al = self.referents(al)
        self.ordered(i, al, why, at)

    def ordered(self, i, al, why, at):
        """the collection is sorted before anything else is done with it"""
        sorts = []
        for j, u in self.calls():
            m = self.name(u).rsplit("::", 1)[-1]
            if m.startswith("sort") and u["a"] and set(self.ops(u["a"][0])) & al:
                sorts.append((j, u, m))
        key = [self.key(u, m) for j, u, m in sorts]
        start = self.succ(i)
        seen = self.reachable(start, {j for j, u, m in sorts})
        for j in seen:
            t = self.blocks[j]["t"]
            if t["t"] == "return" and 0 in al:
                self.problems.append(("unsorted", "%s: %s leaves the function in the order of a hash collection" % (at, why)))
                return
            if t["t"] != "call" or j == i:
                continue
            m = self.name(t).rsplit("::", 1)[-1]
            if any(set(self.ops(a)) & al for a in t["a"]) and m not in ("deref", "deref_mut", "as_mut_slice", "len", "is_empty", "as_mut", "drop", "contains", "branch", "capacity"):
                self.problems.append(("unsorted", "%s: %s is used (by '%s' at %s) in the order of a hash collection" % (at, why, m, self.prog.pos(t.get("sp")))))
                return
        if False in key:
            self.problems.append(("key", "%s: %s is sorted by something which different members may have in common" % (at, why)))
        elif None in key:
            self.open.append("%s: %s is sorted in a way which is not known" % (at, why))
        else:
            self.fine.append("%s: sorted before use" % at)

    def key(self, u, m):
        """does the order of this sort tell all members apart?"""
        if m in ("sort", "sort_unstable"):
            return True
        clo = [norm_path(d["path"]) for a in u["a"][1:] for d in walk(a) if isinstance(d.get("path"), str)]
        if not clo:
            for a in u["a"][1:]:
                for l in self.ops(a):
                    for b in self.blocks:
                        for s in b["s"]:
                            if s["s"] == "=" and s["p"]["l"] == l:
                                clo += [norm_path(d["path"]) for d in walk(s["v"]) if isinstance(d.get("path"), str)]
                    c = self.body["locals"][l].get("clo")
                    if c:
                        clo.append(norm_path(c))
        for c in clo:
            f = self.prog.fns.get(c)
            if f is None:
                return None
            vf, C = mk(self.prog, [], [])
            try:
                parts = vf.summarize(f)
            except Budget:
                return None
            N = C.norm(f, {})
            for p in parts:
                names = [x for x in subterms(N.n(p.val)) if x[0] == "fld"]
                idx = {x[3] for x in names if x[2] == "tuple" or x[2].startswith("tup")}
                if not idx:
                    return True if not names else None
                return "0" in idx and "1" not in idx or "0" in idx
            return None
        return None

    def loop(self, i, t, why, at):
        d = t["d"]["l"]
        # blocks of the loop: from the 'some' edge back here
        seen = self.reachable(self.succ(i), {i})
        back = {x for x in seen if i in self.reachable(self.succ(x), set())}
        back_all = {x for x in seen if i in self.closure(x)}
        elems = self.close({d})
        # leaving it other than by its end
        exits = []
        for x in back_all:
            for y in self.succ(x):
                if y not in back_all and y != i and self.blocks[y]["t"]["t"] != "unreachable":
                    exits.append((x, y))
        # the exit at its end is the one of the switch on what 'next' answered
        ends = [e for e in exits if self.isend(e[0], d)]
        early = [e for e in exits if e not in ends]
        if not back_all:
            if any(True for x in seen if self.blocks[x]["t"]["t"] == "return") and 0 in elems:
                self.problems.append(("first", "%s: which of %s comes first depends on the order of a hash collection" % (at, why)))
            return
        for x, y in early:
            r = self.reachable([y], {i})
            if any(self.blocks[z]["t"]["t"] == "return" for z in r) and 0 in elems:
                self.problems.append(("early", "%s: the loop over %s ends early, with a result which depends on the order of a hash collection" % (at, why)))
                return
        for x in back_all:
            u = self.blocks[x]["t"]
            if u["t"] == "call":
                m = self.name(u).rsplit("::", 1)[-1]
                if m in GROW and u["a"] and any(set(self.ops(a)) & elems for a in u["a"][1:]):
                    al = self.referents(set(self.ops(u["a"][0])))
                    end = [y for _, y in ends]
                    if end:
                        n = len(self.problems)
                        self.ordered_from(end, al, why, at)
                        if len(self.problems) > n:
                            return
        self.fine.append("%s: the order in which the loop meets %s does not matter" % (at, why))

    def ordered_from(self, start, al, why, at):
        sorts = {j for j, u in self.calls() if self.name(u).rsplit("::", 1)[-1].startswith("sort") and u["a"] and set(self.ops(u["a"][0])) & al}
        for j in self.reachable(start, sorts):
            t = self.blocks[j]["t"]
            if t["t"] == "return" and 0 in al:
                self.problems.append(("unsorted", "%s: %s leaves the function in the order of a hash collection" % (at, why)))
                return
            if t["t"] == "call" and any(set(self.ops(a)) & al for a in t["a"]):
                m = self.name(t).rsplit("::", 1)[-1]
                if m not in ("deref", "deref_mut", "as_mut_slice", "len", "is_empty", "drop", "contains"):
                    self.problems.append(("unsorted", "%s: %s is used (by '%s' at %s) in the order of a hash collection" % (at, why, m, self.prog.pos(t.get("sp")))))
                    return

    def referents(self, ls):
        """the locals references lead to, with all their names"""
        out, todo = set(), list(ls)
        while todo:
            l = todo.pop()
            if l in out:
                continue
            out.add(l)
            for b in self.blocks:
                for s in b["s"]:
                    if s["s"] == "=" and s["p"]["l"] == l and not s["p"]["p"] and isinstance(s["v"], dict) and s["v"].get("r") in ("ref", "use"):
                        todo += self.ops(s["v"])
        for l in list(out):
            out |= self.alias(l)
        return out

    def closure(self, x):
        return self.reachable(self.succ(x), set())

    def isend(self, x, d):
        t = self.blocks[x]["t"]
        if t["t"] != "switch":
            return False
        l = set(self.ops(t["o"]))
        for b in self.blocks:
            for s in b["s"]:
                if s["s"] == "=" and s["p"]["l"] in l and isinstance(s["v"], dict) and s["v"].get("r") == "discr" and d in set(self.ops(s["v"])):
                    return True
        return False


def c03(prog, rep, tier):
    rep.rule("wherever a function reachable from parsing, compiling, validating or producing a diagnostic goes through the members of a hash collection, what it does with them must not depend on their order: "
             "they are collected into an unordered collection, or sorted by something all of them differ in before anything else, or asked for something all orders agree on; a loop over them neither ends early with a "
             "result made of a member nor builds a list which is used unsorted; a function handing such members out is itself such a source")
    how, files = reach(prog, rep)
    sources = set()
    flows = {}
    for _ in range(4):
        more = set()
        for p in how:
            f = prog.fns[p]
            if not f.body:
                continue
            F = Flow(prog, f, sources)
            if F.run():
                more.add(p)
            flows[p] = F
        if more <= sources:
            break
        sources |= more
    rep.functions |= set(how)
    n = 0
    for p, F in sorted(flows.items()):
        for k, txt in F.problems:
            rep.bad("order:%s:%s" % (p, k), "%s %s; reached as %s" % (shortname(p), txt, chain(how, p)))
        for txt in F.fine:
            rep.good("%s %s" % (shortname(p), txt))
        for txt in F.open:
            rep.unknown("%s %s" % (shortname(p), txt))
        if not F.problems and not F.open and not F.fine:
            n += 1
            rep.good()
    rep.count("functions without hash iteration", n)
    for p in sorted(sources):
        if p in [x for x in how if how[x] is None]:
            rep.bad("order:%s:entry" % p, "%s hands out members of a hash collection in its order" % shortname(p))
