"""Trace-partitioned value-flow analysis over MIR.

A forward dataflow analysis.  The abstract value of a place is a provenance term: which argument,
field, constructor, constant or callee result the value flows from.  The abstract state is
partitioned by the branch outcomes taken so far (enum variants, boolean calls); partitions are
pruned only by syntactic contradiction of those outcomes (no solver).  Loops are cut at their header:
every local the loop may modify is widened to an unknown 'loop' value before the body is analysed once.
Local helper functions and closures are analysed in the context of their caller; the functions in the
`opaque` vocabulary stay calls.
"""
import re
from mir import norm_path, shortname, split_path


class HD(dict):
    """hashable callee descriptor"""

    def _k(self):
        return (self.get("path"), self.get("r"), tuple(self.get("a") or ()))

    def __hash__(self):
        return hash(self._k())

    def __eq__(self, o):
        return isinstance(o, HD) and self._k() == o._k()

    def __repr__(self):
        return "HD%r" % (self._k(),)


class Budget(Exception):
    pass


UNIT = ("tup", ())
TRUE = ("bool", True)
FALSE = ("bool", False)
OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"


def some(v):
    return ("adt", OPT, "Some", (("0", v),))


NONE = ("adt", OPT, "None", ())


def ok(v):
    return ("adt", RES, "Ok", (("0", v),))


def err(v):
    return ("adt", RES, "Err", (("0", v),))


def call(name, *a):
    return ("call", name, tuple(a))


class St:
    __slots__ = ("frames", "heap", "facts", "events", "loops", "asserts", "lbase")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = {}
        self.events = ()
        self.loops = {}
        self.asserts = ()
        self.lbase = {}

    def copy(self):
        s = St()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.events = self.events
        s.loops = dict(self.loops)
        s.asserts = self.asserts
        s.lbase = dict(self.lbase)
        return s


class LoopBase:
    """the state in which a loop is entered, and what its iterations change"""

    def __init__(self, lp, st):
        self.lp = lp
        self.facts = dict(st.facts)
        self.heap = dict(st.heap)
        self.events = st.events
        self.terms = []          # (loop term, root, path, initial value)
        self.changed = set()
        self.dirty = False


def vsubst(t, m, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(t, (tuple, frozenset)) or not t:
        return t
    r = memo.get(id(t))
    if r is not None:
        return r[1]
    heads = memo.get("heads")
    if heads is None:
        heads = memo["heads"] = {k[0] for k in m}
    if isinstance(t, tuple):
        if isinstance(t[0], str) and t[0] in heads and t in m:
            n = m[t]
        else:
            xs = tuple(vsubst(x, m, memo) if isinstance(x, (tuple, frozenset)) else x for x in t)
            n = t if all(x is y for x, y in zip(xs, t)) else xs
    else:
        n = frozenset(vsubst(x, m, memo) if isinstance(x, (tuple, frozenset)) else x for x in t)
    memo[id(t)] = (t, n)
    return n


def vhas(t, pred, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(t, (tuple, frozenset)):
        return False
    r = memo.get(id(t))
    if r is None:
        r = (t, (isinstance(t, tuple) and bool(pred(t))) or any(vhas(x, pred, memo) for x in t if isinstance(x, (tuple, frozenset))))
        memo[id(t)] = r
    return r[1]


class Part:
    """one partition of a summary"""
    __slots__ = ("facts", "kind", "val", "events", "heap", "loops", "back", "asserts")

    def __init__(self, st, kind, val):
        self.facts = st.facts
        self.kind = kind
        self.val = val
        self.events = st.events
        self.heap = st.heap
        self.loops = st.loops
        self.asserts = st.asserts

    def __repr__(self):
        return "[%s] %s -> %s" % ("; ".join("%s=%s" % (show(a[1]), showfact(f)) for a, f in self.facts.items()),
                                  self.kind, show(self.val))


def showfact(f):
    if isinstance(f, frozenset):
        return "|".join(sorted(map(str, f)))
    return str(f)


def show(v, depth=0):
    if v is None:
        return "-"
    if depth > 9:
        return "…"
    if not isinstance(v, tuple) or not v:
        return repr(v)
    d = depth + 1
    k = v[0]
    if k == "arg":
        return v[1]
    if k == "fld":
        own = v[2].split("::")
        if v[2] in ("tuple", "closure") or (len(own) > 1 and own[-1] == own[-2]):
            return "%s.%s" % (show(v[1], d), v[3])
        return "%s<%s>.%s" % (show(v[1], d), own[-1], v[3])
    if k == "adt":
        n = v[1].split("::")[-1]
        nm = n if n == v[2] else "%s::%s" % (n, v[2])
        if not v[3]:
            return nm
        return "%s(%s)" % (nm, ", ".join(show(x, d) for _, x in v[3]))
    if k in ("tup", "arr"):
        return ("(%s)" if k == "tup" else "[%s]") % ", ".join(show(x, d) for x in v[1])
    if k == "str":
        return repr(v[1])
    if k in ("int", "bool"):
        return str(v[1])
    if k == "char":
        return "'%s'" % (chr(v[1]) if 32 <= v[1] < 127 else "\\u%x" % v[1])
    if k == "call":
        return "%s(%s)" % (v[1].split("::")[-1], ", ".join(show(x, d) for x in v[2]))
    if k == "upd":
        return "upd:%s(%s)" % (v[1].split("::")[-1], ", ".join(show(x, d) for x in v[2]))
    if k == "clo":
        return "closure<%s>" % v[1].split("::")[-2] if "::" in v[1] else "closure"
    if k == "fn":
        return "fn:" + v[1]
    if k in ("choice", "group", "interleave"):
        return "%s(%s)" % (k, ", ".join(sorted(show(x, d) for x in v[1])) if k == "choice" else ", ".join(show(x, d) for x in v[1]))
    if k == "cell":
        return "*" + show(v[1], d)
    if k == "lam":
        if len(v[3]) == 1 and not v[3][0][0]:
            return "λ.%s" % show(v[3][0][2], d)
        return "λ{%s}" % "; ".join("%s->%s %s" % (",".join("%s=%s" % (show(a[1], d) if a[0] in "vb" else a, showfact(x)) for a, x in c), k2, show(r, d)) for c, k2, r in v[3])
    if k == "loop":
        return "loop:%s" % (v[2],)
    if k == "ptr":
        return "&mut %s" % (v[1],)
    return "%s(%s)" % (k, ", ".join(show(x, d) if isinstance(x, tuple) else str(x) for x in v[1:]))


# ---------------------------------------------------------------------------------------------
IDENT = set("""
std::ops::Deref::deref std::ops::DerefMut::deref_mut std::convert::AsRef::as_ref std::borrow::Borrow::borrow
std::clone::Clone::clone std::borrow::ToOwned::to_owned std::boxed::Box::new std::rc::Rc::new std::sync::Arc::new
std::cell::RefCell::new std::string::String::as_str core::slice::iter core::slice::iter_mut std::vec::Vec::as_slice
std::iter::IntoIterator::into_iter std::option::Option::as_ref std::option::Option::as_deref std::option::Option::cloned
std::option::Option::copied std::option::Option::as_mut std::option::Option::as_deref_mut std::convert::AsMut::as_mut
std::result::Result::as_ref std::hint::must_use xmlparser::StrSpan::as_str std::borrow::Cow::into_owned
std::path::Path::to_path_buf std::path::Path::new std::convert::identity std::vec::Vec::into_boxed_slice
core::slice::to_vec core::slice::into_vec
std::iter::Iterator::cloned std::iter::Iterator::copied std::iter::Iterator::by_ref std::rc::Rc::clone
std::vec::Vec::iter std::string::String::into_boxed_str std::iter::Iterator::peekable std::vec::Vec::as_mut_slice
std::borrow::BorrowMut::borrow_mut std::mem::ManuallyDrop::new std::boxed::Box::leak std::cell::Ref::clone
std::string::String::from std::borrow::Cow::from std::iter::Iterator::fuse
""".split())
# Display of these types is the text itself
STRINGY = re.compile(r"^(&|mut )*(str|std::string::String|std::borrow::Cow<.*str>|xmlparser::StrSpan.*|std::boxed::Box<str>|std::rc::Rc<str>)$")


class VF:
    def __init__(self, prog, opaque=None, transparent=(), stable=(), models=None, maxsteps=60000, noinline=None,
                 inline_depth=14):
        """opaque(fn)->bool: local functions kept as calls.  transparent: short names of local functions
        whose result is their given argument index.  stable: type-name substrings whose mutation through
        an opaque call is ignored."""
        self.prog = prog
        self.opaque = opaque or (lambda fn: False)
        self.transparent = dict(transparent)
        self.stable = tuple(stable)
        self.models = models or {}
        self.maxsteps = maxsteps
        self.inline_depth = inline_depth
        self._fid = 0
        self.steps = 0
        self.called = set()
        self.loopinfo = {}
        self._lamdepth = 0

    # ---------------------------------------------------------------- entry
    def summarize(self, fn, args=None, facts=None):
        st = St()
        if facts:
            st.facts.update(facts)
        names = fn.argnames()
        tys = fn.argtypes()
        vals = []
        for i, n in enumerate(names):
            if args and args.get(n) is not None:
                v = args[n]
            elif args and args.get(i) is not None:
                v = args[i]
            else:
                v = ("arg", n)
            if self.is_state(tys[i]) and tys[i].startswith("&"):
                v = ("state", "Schema")
            if tys[i].startswith("&") and "mut " in tys[i][:14] and v[0] not in ("ptr",):
                v = ("ptr", ("H", v), ())
            vals.append(v)
        self.steps = 0
        outs = self.exec_fn(fn, vals, st, ())
        return [Part(s, "ret" if k == "ok" else k, self.resolve_val(s, v)) for s, k, v in outs]

    def resolve_val(self, st, v, depth=0):
        """replace pointers by the values they designate"""
        if not isinstance(v, tuple) or not v or depth > 12:
            return v
        k = v[0]
        if k == "ptr":
            return self.resolve_val(st, self.load(st, v[1], v[2]), depth + 1)
        if k == "adt":
            return ("adt", v[1], v[2], tuple((n, self.resolve_val(st, x, depth + 1)) for n, x in v[3]))
        if k in ("tup", "arr"):
            return (k, tuple(self.resolve_val(st, x, depth + 1) for x in v[1]))
        if k == "clo":
            return ("clo", v[1], tuple(self.resolve_val(st, x, depth + 1) for x in v[2]))
        if k == "fn" and len(v) > 2:
            return v
        return v

    # ---------------------------------------------------------------- places
    def hp(self, st, t):
        h = st.heap
        return h[t] if t in h else t

    def fld(self, st, v, owner, name, idx, variant=None):
        while True:
            k = v[0]
            if k == "ptr":
                v = self.load(st, v[1], v[2])
                continue
            if k == "adt":
                for n, x in v[3]:
                    if n == name:
                        return x
                return ("bot",)
            if k == "tup" and owner == "tuple":
                i = int(name)
                return v[1][i] if i < len(v[1]) else ("bot",)
            if k == "clo" and owner == "closure":
                return v[2][idx] if idx < len(v[2]) else ("bot",)
            if k == "with":
                if v[2] == owner and v[3] == name:
                    return v[4]
                if v[2].rsplit("::", 1)[0] == owner.rsplit("::", 1)[0]:
                    v = v[1]
                    continue
            return self.hp(st, ("fld", v, owner, name))

    def proj(self, st, v, e):
        if e[0] == "f":
            if e[2].startswith(("std::boxed::Box::", "std::ptr::Unique::", "std::ptr::NonNull::", "std::mem::MaybeUninit::",
                                "std::mem::ManuallyDrop::", "std::mem::MaybeDangling::")):
                return v
            return self.fld(st, v, norm_path(e[2]), e[3], e[1])
        if e[0] == "v" or e[0] == "o":
            return v
        if e[0] == "I":
            return self.index(v, e[1])
        if e[0] == "ci":
            if v[0] == "ptr":
                v = self.load(st, v[1], v[2])
            if v[0] == "arr":
                i = -e[1] if e[2] else e[1]
                if -len(v[1]) <= i < len(v[1]):
                    return v[1][i]
            return ("idx", v, ("int", -e[1] if e[2] else e[1]))
        if e[0] == "ss":
            if v[0] == "ptr":
                v = self.load(st, v[1], v[2])
            return ("sub", v, ("int", e[1]), ("int", e[2]))
        return v

    def index(self, v, i):
        if v[0] == "arr" and i[0] == "int" and 0 <= i[1] < len(v[1]):
            return v[1][i[1]]
        return ("idx", v, i)

    def load(self, st, root, path):
        if root[0] == "L":
            v = st.frames.get(root[1], {}).get(root[2], ("undef", root[2]))
        elif root[0] == "H":
            v = self.hp(st, root[1])
        else:
            v = root[1]
        for e in path:
            v = self.proj(st, v, e)
        return v

    def resolve(self, st, fid, p):
        root = ("L", fid, p["l"])
        path = []
        for e in p["p"]:
            if e[0] == "d":
                v = self.load(st, root, path)
                if v[0] == "ptr":
                    root, path = v[1], list(v[2])
                elif root[0] == "L" and v[0] not in ("adt", "tup", "arr", "undef"):
                    root, path = ("V", v), []
                elif root[0] == "L" and self.is_ref_local(p, st, fid):
                    root, path = ("V", v), []
                # otherwise: a Box - stays in place
            elif e[0] == "i":
                i = st.frames[fid].get(e[1], ("undef", e[1]))
                path.append(("I", i))
            elif e[0] in ("v", "o"):
                path.append(tuple(e))
            else:
                if e[0] == "f" and e[2].startswith(("std::boxed::Box::", "std::ptr::Unique::", "std::ptr::NonNull::")):
                    continue
                path.append(tuple(e))
        return root, tuple(path)

    def is_ref_local(self, p, st, fid):
        return False

    def read(self, st, fid, p):
        root, path = self.resolve(st, fid, p)
        return self.load(st, root, path)

    def upd_path(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] in ("v", "o"):
            return self.upd_path(st, v, path[1:], val)
        if v[0] == "ptr":
            v = self.load(st, v[1], v[2])
        if e[0] == "f":
            owner, name = norm_path(e[2]), e[3]
            inner = self.fld(st, v, owner, name, e[1]) if len(path) > 1 else None
            nv = self.upd_path(st, inner, path[1:], val) if len(path) > 1 else val
            if v[0] == "adt":
                fs = list(v[3])
                for i, (n, _) in enumerate(fs):
                    if n == name:
                        fs[i] = (n, nv)
                        break
                else:
                    fs.append((name, nv))
                return ("adt", v[1], v[2], tuple(fs))
            if v[0] == "tup":
                l = list(v[1])
                i = int(name) if name.isdigit() else e[1]
                while len(l) <= i:
                    l.append(("undef",))
                l[i] = nv
                return ("tup", tuple(l))
            if v[0] == "undef" and owner == "tuple":
                l = [("undef",)] * (e[1] + 1)
                l[e[1]] = nv
                return ("tup", tuple(l))
            if v[0] == "with" and v[2] == owner and v[3] == name:
                v = v[1]
            return ("with", v, owner, name, nv)
        if e[0] in ("I", "ci"):
            return ("with", v, "index", e[1] if isinstance(e[1], tuple) else ("int", e[1]), val)
        return ("with", v, "?", "?", val)

    def store(self, st, root, path, val, sp=None):
        if root[0] == "L":
            fr = st.frames.setdefault(root[1], {})
            cur = fr.get(root[2], ("undef", root[2]))
            fr[root[2]] = self.upd_path(st, cur, path, val)
            return
        t = root[1]
        for e in path:
            if e[0] == "f":
                t = ("fld", t, norm_path(e[2]), e[3])
            elif e[0] == "I":
                t = ("idx", t, e[1])
        st.heap[t] = val
        st.events = st.events + (("store", t, self.resolve_val(st, val), sp),)

    def write(self, st, fid, p, val, sp=None):
        root, path = self.resolve(st, fid, p)
        self.store(st, root, path, val, sp)

    # ---------------------------------------------------------------- operands / rvalues
    def const(self, st, fn, c):
        k = c.get("k")
        if k == "fn":
            if "ctor" in c:
                return ("ctor", norm_path(c["ctor"][0]), c["ctor"][1])
            return ("fn", norm_path(c["path"]), HD(c))
        if k == "str":
            return ("str", c["v"])
        if k == "bool":
            return ("bool", c["v"])
        if k == "char":
            return ("char", c["v"])
        if k == "int":
            return ("int", c["v"])
        if k == "promoted":
            of = self.prog.fns.get(norm_path(c["of"]), fn)
            if c["i"] < len(of.promoted):
                body = of.promoted[c["i"]]
                v = self.eval_promoted(of, body)
                if v is not None:
                    return v
            return ("const", "promoted", c.get("t"))
        if k == "static":
            return ("static", norm_path(c["path"]))
        if c.get("t") == "()":
            return UNIT
        n = c.get("n")
        if n:
            f = self.prog.fns.get(norm_path(n))
            if f is not None:
                v = self.eval_promoted(f, f.body)
                if v is not None:
                    return v
            return ("const", norm_path(n))
        return ("const", c.get("x"), c.get("t"))

    def eval_promoted(self, fn, body):
        key = id(body)
        if not hasattr(self, "_promo"):
            self._promo = {}
        if key in self._promo:
            return self._promo[key]
        self._promo[key] = None
        st = St()
        try:
            outs = self.exec_body(fn, body, [], st, ("promoted",))
        except Budget:
            outs = []
        v = None
        if len(outs) == 1 and outs[0][1] == "ok":
            v = self.resolve_val(outs[0][0], outs[0][2])
        self._promo[key] = v
        return v

    def operand(self, st, fn, fid, o):
        if "c" in o:
            return self.read(st, fid, o["c"])
        if "m" in o:
            return self.read(st, fid, o["m"])
        return self.const(st, fn, o)

    def val(self, st, v):
        """the value behind a pointer, for use in terms"""
        if v[0] == "ptr":
            return self.load(st, v[1], v[2])
        return v

    def rvalue(self, st, fn, body, fid, r):
        k = r["r"]
        if k == "use":
            return self.operand(st, fn, fid, r["o"])
        if k == "ref":
            root, path = self.resolve(st, fid, r["p"])
            if r["mut"]:
                if root[0] == "V":
                    root = ("H", root[1])
                # stop at pointers stored in the place
                return ("ptr", root, path)
            v = self.load(st, root, path)
            return v
        if k == "cast":
            v = self.operand(st, fn, fid, r["o"])
            if r["k"].startswith(("PointerCoercion", "Transmute", "PtrToPtr", "PointerExposeProvenance", "Subtype", "FnPtrToPtr",
                                  "Reborrow", "BoxDeref")):
                return v
            if v[0] in ("int", "char", "bool") and r["k"].startswith("IntToInt"):
                n = int(v[1])
                if r["t"] == "char":
                    return ("char", n)
                bits = {"u8": 8, "u16": 16, "u32": 32}.get(r["t"])
                return ("int", n & ((1 << bits) - 1) if bits else n)
            return ("cast", r["t"], self.val(st, v))
        if k == "bin":
            a = self.val(st, self.operand(st, fn, fid, r["a"]))
            b = self.val(st, self.operand(st, fn, fid, r["b"]))
            return self.binop(r["op"], a, b)
        if k == "un":
            a = self.val(st, self.operand(st, fn, fid, r["a"]))
            if r["op"] == "Not":
                return neg(a)
            if r["op"] == "PtrMetadata":
                return call("len", a)
            return ("un", r["op"], a)
        if k == "discr":
            v = self.val(st, self.read(st, fid, r["p"]))
            adt = norm_path(r["adt"]) if r["adt"] else None
            if v[0] == "adt" and v[1] == adt:
                for n, d in self.prog.variants(adt):
                    if n == v[2]:
                        return ("int", d)
            return ("discr", v, adt)
        if k == "agg":
            ops = tuple(self.operand(st, fn, fid, o) for o in r["a"])
            kk = r["k"]
            if kk[0] == "adt":
                return ("adt", norm_path(kk[1]), kk[2], tuple(zip(kk[3], ops)))
            if kk[0] == "tuple":
                return ("tup", ops)
            if kk[0] == "array":
                return ("arr", ops)
            if kk[0] == "closure":
                return ("clo", norm_path(kk[1]), ops)
            return ("agg", ops)
        if k == "repeat":
            return ("repeat", self.operand(st, fn, fid, r["o"]), r["n"])
        return ("top", r.get("x", ""))

    def binop(self, op, a, b):
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            return ("tup", (self.binop(op[:3], a, b), ("bool", False)))
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            op = op[:3]
        if a[0] in ("int", "char", "bool") and b[0] in ("int", "char", "bool"):
            x, y = int(a[1]), int(b[1])
            f = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}
            if op in f:
                return ("bool", f[op])
            if op == "Add":
                return ("int", x + y)
            if op == "Sub":
                return ("int", x - y)
            if op == "Mul":
                return ("int", x * y)
            if a[0] == "bool":
                if op == "BitAnd":
                    return ("bool", bool(x and y))
                if op == "BitOr":
                    return ("bool", bool(x or y))
                if op == "BitXor":
                    return ("bool", bool(x ^ y))
        if op == "Eq":
            return mkeq(a, b)
        if op == "Ne":
            return neg(mkeq(a, b))
        if op == "Lt":
            return ("lt", a, b)
        if op == "Gt":
            return ("lt", b, a)
        if op == "Le":
            return ("le", a, b)
        if op == "Ge":
            return ("le", b, a)
        if op == "BitAnd":
            return mkand(a, b)
        if op == "BitOr":
            return mkor(a, b)
        return ("bin", op, a, b)

    # ---------------------------------------------------------------- facts
    def variants_of(self, st, t, adt):
        f = st.facts.get(("v", t))
        if f is not None:
            return f
        vs = self.prog.variants(adt)
        return frozenset(n for n, _ in vs) if vs else None

    def split_variant(self, st, t, adt):
        """yield (state, variant) for every variant t may have"""
        t = self.val(st, t)
        if t[0] == "adt":
            yield st, t[2]
            return
        vs = self.variants_of(st, t, adt)
        order = [n for n, _ in self.prog.variants(adt) if n in vs]
        for i, n in enumerate(order):
            s = st if i == len(order) - 1 else st.copy()
            s.facts[("v", t)] = frozenset([n])
            yield s, n

    def payload(self, st, t, adt, variant, name="0"):
        t = self.val(st, t)
        return self.fld(st, t, adt + "::" + variant, name, 0)

    def assume(self, st, c, want):
        """states refining st in which boolean term c has the given value"""
        c = self.val(st, c)
        k = c[0]
        if k == "bool":
            return [st] if c[1] == want else []
        if k == "int":
            return [st] if bool(c[1]) == want else []
        if k == "not":
            return self.assume(st, c[1], not want)
        if k == "and" or k == "or":
            if (k == "and") == want:
                out = []
                for s in self.assume(st, c[1], want):
                    out += self.assume(s, c[2], want)
                return out
            out = self.assume(st.copy(), c[1], want)
            for s in self.assume(st.copy(), c[1], not want):
                out += self.assume(s, c[2], want)
            return out
        if k == "isv":
            t, adt, vs = c[1], c[2], c[3]
            cur = self.variants_of(st, t, adt)
            new = cur & vs if want else cur - vs
            if not new:
                return []
            s = st.copy()
            s.facts[("v", t)] = new
            return [s]
        f = st.facts.get(("b", c))
        if f is not None:
            return [st] if f == want else []
        s = st.copy()
        s.facts[("b", c)] = want
        return [s]

    def truth(self, st, c):
        """True/False if decided by the partition, else None"""
        a = self.assume(st, c, True)
        b = self.assume(st, c, False)
        if a and not b:
            return True
        if b and not a:
            return False
        return None

    # ---------------------------------------------------------------- bodies
    def loop_headers(self, body):
        key = id(body)
        if key in self.loopinfo:
            return self.loopinfo[key]
        blocks = body["blocks"]

        def succ(i):
            t = blocks[i]["t"]
            k = t["t"]
            if k in ("goto", "drop", "assert"):
                return [t["to"]]
            if k == "switch":
                return [x[1] for x in t["arms"]] + [t["else"]]
            if k == "call":
                return [t["to"]] if t["to"] is not None else []
            return []
        color = {}
        back = []
        stack = [(0, iter(succ(0)))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m) == 1:
                    back.append((n, m))
                elif m not in color:
                    color[m] = 1
                    stack.append((m, iter(succ(m))))
                    break
            else:
                color[n] = 2
                stack.pop()
        preds = {}
        for i in color:
            for m in succ(i):
                preds.setdefault(m, []).append(i)
        heads = {}
        for n, h in back:
            mem = heads.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x in mem:
                    continue
                mem.add(x)
                work += preds.get(x, [])
        info = {}
        for h, mem in heads.items():
            mod = set()
            used = set()
            for b in mem:
                for s in blocks[b]["s"]:
                    if s["s"] in ("=", "setd"):
                        mod.add(s["p"]["l"])
                        if s["s"] == "=" and s["v"]["r"] == "ref" and s["v"]["mut"]:
                            mod.add(s["v"]["p"]["l"])
                        self._used(s.get("v"), used)
                t = blocks[b]["t"]
                if t["t"] == "call":
                    mod.add(t["d"]["l"])
                    for a in t["a"]:
                        self._used({"o": a}, used)
            info[h] = (mem, mod, used)
        self.loopinfo[key] = info
        return info

    def _used(self, r, out):
        if not isinstance(r, dict):
            return
        for k in ("o", "a", "b"):
            o = r.get(k)
            if isinstance(o, dict):
                p = o.get("c") or o.get("m")
                if p:
                    out.add(p["l"])
            elif isinstance(o, list):
                for x in o:
                    p = x.get("c") or x.get("m")
                    if p:
                        out.add(p["l"])
        if "p" in r and isinstance(r["p"], dict):
            out.add(r["p"]["l"])

    def exec_fn(self, fn, args, st, stack):
        return self.exec_body(fn, fn.body, args, st, stack + (fn.path,))

    def local_name(self, body, l):
        """the debug name of a local, told apart from other locals of the same name"""
        seen = {}
        for nm, pl in body["names"]:
            if pl["p"]:
                continue
            k = seen.setdefault(nm, [])
            if pl["l"] not in k:
                k.append(pl["l"])
            if pl["l"] == l:
                return nm if k[0] == l else "%s'%d" % (nm, k.index(l))
        return "_%d" % l

    def exec_body(self, fn, body, args, st, stack):
        self._fid += 1
        fid = self._fid
        st = st.copy()
        st.frames[fid] = {}
        for i, v in enumerate(args):
            st.frames[fid][i + 1] = v
        loops = self.loop_headers(body)
        results = []
        work = [(0, st, frozenset())]
        blocks = body["blocks"]
        while work:
            bi, st, entered = work.pop()
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Budget("analysis budget exhausted in " + fn.path)
            if bi in loops:
                if bi in entered:
                    lp = (fn.path, bi)
                    mem, mod, used = loops[bi]
                    back = {}
                    for l in mod:
                        if l in st.frames[fid]:
                            back[self.local_name(body, l)] = self.resolve_val(st, st.frames[fid][l])
                    st.loops[lp] = (st.loops[lp][0], back)
                    lb = st.lbase.get(lp)
                    if lb is not None:
                        for term, root, path, ini in lb.terms:
                            try:
                                now = self.load(st, root, path)
                            except KeyError:
                                now = None
                            if now != term:
                                lb.changed.add(term)
                        if st.heap != lb.heap or st.events != lb.events:
                            lb.dirty = True
                    results.append((st, "back", ("str", "%s#bb%d" % (fn.path, bi))))
                    continue
                mem, mod, used = loops[bi]
                st = st.copy()
                lp = (fn.path, bi)
                lb = st.lbase[lp] = LoopBase(lp, st)
                init = {}
                for l in sorted(mod):
                    if l in st.frames[fid]:
                        v = st.frames[fid][l]
                        init[self.local_name(body, l)] = self.resolve_val(st, v)
                        if v[0] == "ptr":
                            continue
                        st.frames[fid][l] = ("loop", "%s#%d" % (fn.path, bi), self.local_name(body, l), self.resolve_val(st, v))
                        lb.terms.append((st.frames[fid][l], ("L", fid, l), (), v))
                # anything reachable through a pointer the loop uses may change as well
                for l in used | mod:
                    v = st.frames[fid].get(l)
                    if v is not None and v[0] == "ptr":
                        root = v[1]
                        cur = self.load(st, root, v[2])
                        if root[0] == "L":
                            nm = self.local_name(body, root[2]) if root[1] == fid else "outer%d" % root[2]
                            if cur[0] != "loop":
                                term = ("loop", "%s#%d" % (fn.path, bi), nm, self.resolve_val(st, cur))
                                self.store(st, root, v[2], term)
                                lb.terms.append((term, root, v[2], cur))
                                init[nm] = self.resolve_val(st, cur)
                st.loops[lp] = (init, None)
                entered = entered | {bi}
            b = blocks[bi]
            if b["cl"]:
                continue
            for s in b["s"]:
                if s["s"] == "=":
                    v = self.rvalue(st, fn, body, fid, s["v"])
                    self.write(st, fid, s["p"], v, s.get("sp"))
            t = b["t"]
            k = t["t"]
            if k in ("goto", "drop"):
                work.append((t["to"], st, entered))
            elif k == "return":
                v = st.frames[fid].get(0, UNIT)
                del_frame = st.frames.pop(fid)
                if v[0] == "ptr" and v[1][0] == "L" and v[1][1] == fid:
                    v = del_frame.get(v[1][2], ("undef",))
                results.append((st, "ok", v))
            elif k == "switch":
                work += [(b2, s2, entered) for b2, s2 in self.switch(st, fn, fid, t)]
            elif k == "assert":
                c = self.operand(st, fn, fid, t["o"])
                st.asserts = st.asserts + ((t["msg"], self.val(st, c), fn.path, tuple(map(str, t["sp"][:2]))),)
                work.append((t["to"], st, entered))
            elif k == "call":
                w = (t["f"].get("r") or t["f"].get("path") or "") if t["f"].get("k") == "fn" else ""
                if w.endswith(("::index", "::index_mut")) and "str" not in w.split("::")[:3] and len(t.get("a") or ()) == 2:
                    vs = [self.val(st, self.operand(st, fn, fid, o)) for o in t["a"]]
                    st.asserts = st.asserts + (("index", ("tup", tuple(vs)), fn.path, tuple(map(str, (t.get("sp") or ())[:2])), w),)
                outs = self.do_call(st, fn, body, fid, t, stack)
                for s2, kk, v in outs:
                    if kk == "panic" or kk == "ok" and t["to"] is None:
                        if s2.asserts is st.asserts or not s2.asserts or s2.asserts[-1][0] != "panic":
                            s2.asserts = s2.asserts + (("panic", v, fn.path, tuple(map(str, (t.get("sp") or ())[:2]))),)
                    if kk != "ok":
                        results.append((s2, kk, v))
                    elif t["to"] is None:
                        results.append((s2, "panic", v))
                    else:
                        if fid not in s2.frames:
                            continue
                        self.write(s2, fid, t["d"], v, t.get("sp"))
                        work.append((t["to"], s2, entered))
            elif k == "unreachable":
                pass
            elif k in ("resume", "abort"):
                pass
            else:
                results.append((st, "panic", ("top", k)))
        if loops:
            for bi in sorted(loops, key=lambda b: len(loops[b][0])):
                results = self.cursor_loops((fn.path, bi), results)
                results = self.search_loops((fn.path, bi), results)
        return results

    def cursor_loops(self, lp, results):
        """a loop which steps a variable from one item to its successor until there is none is a loop over a sequence"""
        groups = {}
        out = []
        for r in results:
            lb = r[0].lbase.get(lp)
            if lb is None:
                out.append(r)
            else:
                groups.setdefault(id(lb), (lb, []))[1].append(r)
        for lb, rs in groups.values():
            out += self.cursor_loop(lp, lb, rs) or rs
        return out

    def cursor_loop(self, lp, lb, rs):
        name = "%s#%d" % lp
        tag = ("str", "%s#bb%d" % lp)
        backs = [r for r in rs if r[1] == "back" and r[2] == tag]
        if not backs:
            return None
        for T, root, path, ini in lb.terms:
            if path or T[1] != name:
                continue
            c = ("fld", T, OPT + "::Some", "0")
            if all(len(r[0].facts.get(("v", T), ())) == 1 for r in rs):
                # while let Some(c) = t { ...; t = step(c) }
                opt, el, prev = T, c, None
                vals = [r[0].loops[lp][1].get(T[2]) for r in backs]
            else:
                # while let Some(x) = step(t) { ...; t = x }
                vals = [r[0].loops[lp][1].get(T[2]) for r in backs]
                if len(set(vals)) != 1 or vals[0] is None or vals[0][0] != "fld" or vals[0][2:] != (OPT + "::Some", "0"):
                    continue
                opt, el, prev = vals[0][1], vals[0], T
                if not all(len(r[0].facts.get(("v", opt), ())) == 1 for r in rs):
                    continue
                vals = [vsubst(opt, {T: el})]
            if len(set(vals)) != 1 or vals[0] is None:
                continue
            step = vsubst(vals[0], {el: ("cur",)})
            if vhas(step, lambda y: y and y[0] in ("loop", "ptr")) or not vhas(step, lambda y: y == ("cur",)):
                continue
            first = T[3] if prev is None else vsubst(opt, {T: T[3]})
            return self.as_sequence(lp, lb, rs, T, opt, el, ("chain", step, first))
        return None

    def as_sequence(self, lp, lb, rs, T, opt, el, seq):
        it = ("loop", T[1], T[2], seq)
        fact = ("v", opt)
        more = ("b", ("more", it))
        res = []
        for st, k, v in rs:
            has = "Some" in st.facts[fact]
            m = {el: ("elem", seq)}
            m[opt] = some(("elem", seq)) if has else NONE
            mm = {}
            s = st.copy()
            s.facts = {}
            for a, y in st.facts.items():
                if a == fact:
                    s.facts[more] = has
                else:
                    s.facts[a if a in lb.facts else vsubst(a, m, mm)] = y
            s.heap = {(a if a in lb.heap else vsubst(a, m, mm)): vsubst(y, m, mm) for a, y in st.heap.items()}
            s.frames = {f: {l: vsubst(y, m, mm) for l, y in fr.items()} for f, fr in st.frames.items()}
            n0 = len(lb.events)
            s.events = st.events[:n0] + tuple(tuple(vsubst(y, m, mm) if isinstance(y, tuple) else y for y in e) for e in st.events[n0:])
            init, back = st.loops[lp]
            init = dict(init)
            init[T[2]] = seq
            if back is not None:
                back = {n: vsubst(y, m, mm) for n, y in back.items()}
                back[T[2]] = it
            s.loops = {a: (init, back) if a == lp else y for a, y in st.loops.items()}
            res.append((s, k, vsubst(v, m, mm)))
        lb.terms = [x if x[0] != T else (it, x[1], x[2], x[3]) for x in lb.terms]
        lb.changed = {it if x == T else x for x in lb.changed}
        return res

    def search_loops(self, lp, results):
        """a loop over a sequence which changes nothing and may leave early is a search: the first element
        for which it leaves"""
        groups = {}
        out = []
        for r in results:
            lb = r[0].lbase.get(lp)
            if lb is None:
                out.append(r)
            else:
                groups.setdefault(id(lb), (lb, []))[1].append(r)
        for lb, rs in groups.values():
            out += self.search_loop(lp, lb, rs) or rs
        return out

    def search_loop(self, lp, lb, rs):
        name = "%s#%d" % lp
        tag = "%s#bb%d" % lp
        its = set()
        for st, k, v in rs:
            m = [a for a, x in st.facts.items() if a[0] == "b" and a[1][0] == "more" and a[1][1][0] == "loop" and a[1][1][1] == name]
            if len(m) != 1:
                return None
            its.add(m[0])
        if len(its) != 1:
            return None
        more = next(iter(its))
        it = more[1][1]
        src = it[3]
        if src[0] == "loop" or lb.dirty:
            return None
        backs = [r for r in rs if r[1] == "back" and r[2] == ("str", tag)]
        if not backs or any(r[0].facts[more] is not True for r in backs):
            return None
        hits = [r for r in rs if not (r[1] == "back" and r[2] == ("str", tag)) and r[0].facts[more] is True]
        ends = [r for r in rs if not (r[1] == "back" and r[2] == ("str", tag)) and r[0].facts[more] is False]
        # what one iteration leaves behind must not be read by the next or after the loop
        unchanged = {t: t[3] for t, root, path, ini in lb.terms
                     if t not in lb.changed and t != it}
        bad = lambda y: y and y[0] == "loop" and y[1] == name and y != it and y not in unchanged

        def blobs(st, v):
            yield v
            for a, x in st.facts.items():
                if a != more and a not in lb.facts:
                    yield a
            for e in st.events[len(lb.events):]:
                yield e[2] if len(e) > 2 else e
            for kx, x in st.heap.items():
                if lb.heap.get(kx) != x:
                    yield x
            for fr in st.frames.values():
                yield tuple(fr.values())
        hm = {}
        back_ids = {id(r[0]) for r in backs}
        for st, k, v in rs:
            if id(st) in back_ids:
                # frames of a path which goes round are not read any more
                if any(vhas(a, bad, hm) for a in st.facts if a != more and a not in lb.facts):
                    return None
            elif any(vhas(x, bad, hm) for x in blobs(st, v)):
                return None
        self._looplvl = getattr(self, "_looplvl", {})
        lvl = 1000000 + 1000 * self._looplvl.setdefault(lp, len(self._looplvl))
        x = ("lp", lvl, 0)
        el = ("elem", src)
        base = set(lb.facts.items())
        parts = []
        atoms = set()
        for st, k, v in backs:
            c = [(a, y) for a, y in st.facts.items() if (a, y) not in base and a != more]
            atoms.update(a for a, y in c)
            parts.append((c, FALSE))
        for st, k, v in hits:
            parts.append(([(a, st.facts[a]) for a in st.facts if a in atoms and (a, st.facts[a]) not in base], TRUE))
        sub = dict(unchanged)
        sub[el] = x
        lam = ("lam", lvl, 1, tuple(sorted({(tuple(sorted(((vsubst(a, sub), y) for a, y in c), key=repr)), "ret", v) for c, v in parts}, key=repr)))
        find = call("iter:find", src, lam)
        fact = ("v", find)
        res = []
        for group, variant in ((hits, "Some"), (ends, "None")):
            m = dict(unchanged)
            if variant == "Some":
                m[el] = ("fld", find, OPT + "::Some", "0")
            mm = {}
            for st, k, v in group:
                cur = lb.facts.get(fact)
                if cur is not None and variant not in cur:
                    continue
                s = st.copy()
                s.facts = {(a if a in lb.facts else vsubst(a, m, mm)): y for a, y in st.facts.items() if a != more}
                s.facts[fact] = frozenset([variant])
                s.heap = {(a if a in lb.heap else vsubst(a, m, mm)): vsubst(y, m, mm) for a, y in st.heap.items()}
                s.frames = {f: {l: vsubst(y, m, mm) for l, y in fr.items()} for f, fr in st.frames.items()}
                n0 = len(lb.events)
                s.events = st.events[:n0] + tuple(tuple(vsubst(y, m, mm) if isinstance(y, tuple) else y for y in e) for e in st.events[n0:])
                s.loops = {a: y for a, y in st.loops.items() if a != lp}
                del s.lbase[lp]
                res.append((s, k, vsubst(v, m, mm)))
        return res or None

    def switch(self, st, fn, fid, t):
        c = self.val(st, self.operand(st, fn, fid, t["o"]))
        arms = [(a[0], a[1]) for a in t["arms"]]
        if c[0] in ("int", "char", "bool"):
            x = int(c[1])
            for v, b in arms:
                if v == x or (c[0] == "int" and x < 0 and (v - x) in (1 << 8, 1 << 16, 1 << 32, 1 << 64, 1 << 128)):
                    return [(b, st)]
            return [(t["else"], st)]
        if c[0] == "discr":
            term, adt = c[1], c[2]
            vs = self.prog.variants(adt) if adt else None
            if vs:
                cur = self.variants_of(st, term, adt)
                out = []
                seen = set()
                byd = {d: n for n, d in vs}
                for v, b in arms:
                    n = byd.get(v)
                    seen.add(n)
                    if n in cur:
                        s = st.copy()
                        s.facts[("v", term)] = frozenset([n])
                        out.append((b, s))
                rest = frozenset(n for n in cur if n not in seen)
                if rest:
                    s = st.copy()
                    s.facts[("v", term)] = rest
                    out.append((t["else"], s))
                return out
        if t["ty"] == "bool":
            out = []
            zero = [b for v, b in arms if v == 0]
            other = t["else"]
            one = [b for v, b in arms if v == 1]
            for s in self.assume(st.copy(), c, False):
                out.append((zero[0] if zero else other, s))
            for s in self.assume(st.copy(), c, True):
                out.append((one[0] if one else other, s))
            return out
        # integers / chars
        out = []
        key = ("sw", c)
        f = st.facts.get(key)
        if isinstance(f, int):
            for v, b in arms:
                if v == f:
                    return [(b, st)]
            return [(t["else"], st)]
        excl = f[1] if f else frozenset()
        for v, b in arms:
            if v in excl:
                continue
            s = st.copy()
            s.facts[key] = v
            out.append((b, s))
        s = st.copy()
        s.facts[key] = ("not", excl | frozenset(v for v, _ in arms))
        out.append((t["else"], s))
        return out

    # ---------------------------------------------------------------- calls
    def do_call(self, st, fn, body, fid, t, stack):
        f = t["f"]
        args = [self.operand(st, fn, fid, a) for a in t["a"]]
        tys = []
        for a in t["a"]:
            p = a.get("c") or a.get("m")
            tys.append(p["t"] if p else "")
        if f.get("k") == "fn":
            if "ctor" in f:
                return [(st, "ok", self.ctor(("ctor", norm_path(f["ctor"][0]), f["ctor"][1]), args))]
            return self.call_fn(st, f, args, tys, stack, fn, t)
        fv = self.operand(st, fn, fid, f)
        return self.apply(st, fv, args, stack, fn, t)

    def ctor(self, c, args):
        fields = self.prog.fields(c[1], c[2]) if c[1] in self.prog.adts else None
        if fields is None:
            fields = [str(i) for i in range(len(args))]
        return ("adt", c[1], c[2], tuple(zip(fields, args)))

    def apply(self, st, f, args, stack, fn=None, t=None):
        """apply a closure / function value"""
        f = self.val(st, f)
        if f[0] == "ctor":
            return [(st, "ok", self.ctor(f, args))]
        if f[0] == "fn":
            return self.call_fn(st, f[2], args, [""] * len(args), stack, fn, t)
        if f[0] == "clo":
            target = self.prog.fns.get(f[1])
            if target is not None and f[1] not in stack and len(stack) < self.inline_depth:
                return self.exec_fn(target, [f] + list(args), st, stack)
        v = call("apply", f, *[self.resolve_val(st, a) for a in args])
        st.events = st.events + (("call", "apply", v[2], t.get("sp") if t else None),)
        return [(st, "ok", v)]

    def is_state(self, ty):
        return any(x in ty for x in self.stable)

    def lam(self, st, f, nargs, stack):
        """canonical form of a closure passed to an opaque function: its summary over bound variables"""
        f = self.val(st, f)
        lvl = len(stack) + 1000 * self._lamdepth
        target = None
        if f[0] == "clo":
            target = self.prog.fns.get(f[1])
            skip = 1
        elif f[0] == "fn":
            skip = 0
            d = f[2] if len(f) > 2 else {}
            for q in (d.get("r"), d.get("path")):
                if q and norm_path(q) in self.prog.fns:
                    target = self.prog.fns[norm_path(q)]
                    break
            if target is None or self.opaque(target) or self.is_derived(target):
                return ("fn", shortname(f[1]) if target is not None else f[1])
        if target is None or f[1] in stack:
            return ("fn", f[1]) if f[0] == "fn" else f
        tys = target.argtypes()[skip:]
        args = []
        i = -1
        for ty in tys:
            if self.is_state(ty):
                a = ("state", "Schema")
            else:
                i += 1
                a = ("lp", lvl, i)
            if ty.startswith("&mut "):
                a = ("ptr", ("H", a), ())
            args.append(a)
        self._lamdepth += 1
        try:
            outs = self.exec_fn(target, ([f] if skip else []) + args, st, stack)
        finally:
            self._lamdepth -= 1
        parts = []
        base = set(st.facts.items())
        for s, k, v in outs:
            conds = tuple(sorted(((a, x) for a, x in s.facts.items() if (a, x) not in base), key=repr))
            parts.append((conds, "ret" if k == "ok" else k, self.resolve_val(s, v)))
        return ("lam", lvl, i + 1, tuple(sorted(parts, key=repr)))

    def call_fn(self, st, f, args, tys, stack, fn, t):
        path = norm_path(f["path"])
        rpath = norm_path(f["r"]) if f.get("r") else None
        sp = t.get("sp") if t else None
        # local body?
        target = None
        for p in (rpath, path):
            if p in self.prog.fns:
                target = self.prog.fns[p]
                break
        name = shortname(path)
        mk = self.models.get(name) or self.models.get(path)
        if mk is not None:
            out = mk(self, st, args, f, t, stack)
            if out is not None:
                return [x if len(x) == 3 else (x[0], "ok", x[1]) for x in out]
        if target is not None and target.kind == "Closure":
            target = None
        if target is not None and not self.is_derived(target):
            sn = shortname(target.path)
            self.called.add(target.path)
            if sn in self.transparent:
                return [(st, "ok", args[self.transparent[sn]])]
            if not self.opaque(target) and target.path not in stack and len(stack) < self.inline_depth:
                return self.exec_fn(target, args, st, stack)
            return self.opaque_call(st, sn if target.trait is None else name, args, tys, sp, stack, target=target)
        out = self.std(st, path, f, args, tys, stack, sp, fn, t)
        if out is not None:
            return [x if len(x) == 3 else (x[0], "ok", x[1]) for x in out]
        return self.opaque_call(st, path, args, tys, sp, stack)

    def is_derived(self, fn):
        return fn.trait in ("std::clone::Clone", "std::cmp::PartialEq", "std::fmt::Debug", "std::hash::Hash", "std::cmp::Eq",
                            "std::default::Default")

    def opaque_call(self, st, name, args, tys, sp, stack, target=None, log=True):
        vals = []
        for a in args:
            v = self.resolve_val(st, a)
            if v[0] in ("clo", "fn"):
                v = self.lam(st.copy(), a, None, stack)
            vals.append(v)
        v = ("call", name, tuple(vals))
        st = st.copy()
        if log:
            st.events = st.events + (("call", name, tuple(vals), sp),)
        for i, a in enumerate(args):
            if a[0] == "ptr":
                ty = tys[i] if i < len(tys) else ""
                if target is not None and i < len(target.argtypes()):
                    ty = target.argtypes()[i]
                if any(s in ty for s in self.stable):
                    continue
                if not ("mut " in ty or ty == ""):
                    continue
                cur = self.load(st, a[1], a[2])
                nv = ("upd", name, tuple([self.resolve_val(st, cur)] + [x for j, x in enumerate(vals) if j != i]))
                if a[1][0] == "L":
                    self.store(st, a[1], a[2], nv)
                else:
                    key = a[1][1]
                    for e in a[2]:
                        if e[0] == "f":
                            key = ("fld", key, norm_path(e[2]), e[3])
                    st.heap[key] = nv
        return [(st, "ok", v)]

    # ---------------------------------------------------------------- library models
    def each(self, outs, k):
        """continue with k on normal outcomes"""
        res = []
        for s, kind, v in outs:
            if kind == "ok":
                res += k(s, v)
            else:
                res.append((s, kind, v))
        return res

    def std(self, st, path, f, args, tys, stack, sp, fn, t):
        v0 = self.val(st, args[0]) if args else None
        tail = path.rsplit("::", 1)[-1]
        ta = f.get("a", [])
        A = lambda s, g, *xs: self.apply(s, g, list(xs), stack, fn, t)
        if path in IDENT:
            if path in ("std::ops::DerefMut::deref_mut", "std::option::Option::as_mut", "std::convert::AsMut::as_mut",
                        "std::option::Option::as_deref_mut", "core::slice::iter_mut", "std::iter::Iterator::by_ref",
                        "std::vec::Vec::as_mut_slice"):
                if path.endswith("deref_mut") and args[0][0] == "ptr":
                    inner = self.load(st, args[0][1], args[0][2])
                    if inner[0] == "ptr":       # a guard: RefMut<T> and the like
                        return [(st, inner)]
                return [(st, args[0])]
            if path == "std::clone::Clone::clone" or path == "std::borrow::ToOwned::to_owned":
                return [(st, self.resolve_val(st, args[0]))]
            return [(st, args[0])]
        if path == "std::string::ToString::to_string":
            if ta and STRINGY.match(ta[0]):
                return [(st, v0)]
            disp = self.display_of(ta[0] if ta else "")
            if disp is not None:
                return [(st, call("display", self.resolve_val(st, v0)))]
            return [(st, call("display", self.resolve_val(st, v0)))]
        if path in ("std::convert::From::from", "std::convert::Into::into"):
            if len(ta) == 2:
                a, b = (norm_path(x) for x in ta)
                if a == b or (STRINGY.match(ta[0]) and STRINGY.match(ta[1])) or b in a:
                    return [(st, args[0])]
            return None
        if path == "std::rt::panic_fmt" or path.startswith(("core::panicking", "std::rt::begin_panic", "core::panicking::")):
            mac = sp[3][0] if sp and len(sp) > 3 else ""
            return [(st, "panic", ("panic", mac, tail))]
        if path == "std::process::exit":
            s = st.copy()
            s.events = s.events + (("call", "process::exit", (v0,), sp),)
            return [(s, "exit", v0)]
        # ---- comparisons
        if path.startswith("std::cmp::Partial") or path.startswith("std::cmp::Ord"):
            a, b = (self.resolve_val(st, x) for x in args[:2]) if len(args) >= 2 else (None, None)
            if tail == "eq":
                return [(st, mkeq(a, b))]
            if tail == "ne":
                return [(st, neg(mkeq(a, b)))]
            if tail in ("lt", "le", "gt", "ge"):
                return [(st, self.binop(tail.capitalize(), a, b))]
            return None
        if path == "std::ops::Not::not":
            return [(st, neg(v0))]
        if path == "std::default::Default::default":
            ty = norm_path(ta[0]) if ta else ""
            if ty.startswith("std::option::Option"):
                return [(st, NONE)]
            if ty == "bool":
                return [(st, FALSE)]
            return [(st, call("default:" + re.sub(r"<.*", "", ty)))]
        # ---- Try
        if path == "std::ops::Try::branch":
            ty = norm_path(ta[0]) if ta else ""
            if ty.startswith(OPT):
                out = []
                for s, v in self.split_variant(st.copy(), v0, OPT):
                    if v == "Some":
                        out.append((s, ("adt", CF, "Continue", (("0", self.payload(s, v0, OPT, "Some")),))))
                    else:
                        out.append((s, ("adt", CF, "Break", (("0", NONE),))))
                return out
            if ty.startswith(RES):
                out = []
                for s, v in self.split_variant(st.copy(), v0, RES):
                    if v == "Ok":
                        out.append((s, ("adt", CF, "Continue", (("0", self.payload(s, v0, RES, "Ok")),))))
                    else:
                        out.append((s, ("adt", CF, "Break", (("0", err(self.payload(s, v0, RES, "Err"))),))))
                return out
            return None
        if path == "std::ops::FromResidual::from_residual":
            if v0[0] == "adt":
                return [(st, v0)]
            return [(st, call("from_residual", v0))]
        # ---- closures
        if path in ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once"):
            tup = self.val(st, args[1])
            xs = list(tup[1]) if tup[0] == "tup" else [tup]
            return A(st, args[0], *xs)
        # ---- Option / Result / bool
        m = re.match(r"^(?:std::option::Option|std::result::Result)::(\w+)$", path)
        if m:
            o = self.optres(st, path.startswith(OPT), m.group(1), args, v0, A)
            if o is not None:
                return o
            return None
        m = re.match(r"^(?:core::bool|std::bool|core::bool::<impl bool>)::(then|then_some)$", path)
        if m or path.endswith("<impl bool>::then") or path.endswith("<impl bool>::then_some"):
            out = []
            for s in self.assume(st.copy(), v0, True):
                if tail == "then":
                    out += self.each(A(s, args[1]), lambda s2, v: [(s2, "ok", some(v))])
                else:
                    out.append((s, "ok", some(args[1])))
            for s in self.assume(st.copy(), v0, False):
                out.append((s, "ok", NONE))
            return out
        # ---- interior mutability
        if path in ("std::cell::RefCell::borrow", "std::cell::Cell::get"):
            return [(st, self.hp(st, cell(v0)))]
        if path in ("std::cell::RefCell::borrow_mut", "std::cell::RefCell::get_mut"):
            a = args[0]
            if a[0] == "ptr":
                if a[1][0] == "L":
                    cur = self.load(st, a[1], a[2])
                    if cur[0] in OWNED:
                        return [(st, a)]
                    return [(st, ("ptr", ("H", cell(cur)), ()))]
                return [(st, ("ptr", ("H", cell(self.hkey(a))), ()))]
            return [(st, ("ptr", ("H", cell(a)), ()))]
        if path == "std::cell::RefCell::as_ptr":
            return [(st, call("as_ptr", v0))]
        if path in ("std::cell::RefCell::into_inner", "std::cell::RefCell::replace"):
            return None
        # ---- mem
        if path == "std::mem::take" or path == "std::mem::replace" or path == "std::option::Option::take":
            return None
        # ---- maps
        mm = re.match(r"^std::collections::(?:hash_map::|hash_set::|btree_map::)?(\w+)::(\w+)$", path)
        if mm:
            o = self.maps(st, mm.group(1), mm.group(2), args, tys, sp, v0, A)
            if o is not None:
                return o
        # ---- vec![..]
        if tail == "box_assume_init_into_vec_unsafe":
            b = self.resolve_val(st, args[0])
            key = [k for k in st.heap if k[0] == "fld" and k[1][0] == "fld" and k[1][1] == b]
            if len(key) == 1:
                st = st.copy()
                v = st.heap.pop(key[0])
                st.events = tuple(e for e in st.events if not (e[0] == "store" and e[1] == key[0]) and
                                  not (e[0] == "call" and e[1].endswith("Box::new_uninit")))
                return [(st, v)]
        # ---- Vec / String builders
        if path in ("std::vec::Vec::new", "std::vec::Vec::with_capacity"):
            return [(st, ("arr", ()))]
        if path in ("std::string::String::new", "std::string::String::with_capacity"):
            return [(st, ("cat", ()))]
        if path in ("std::vec::Vec::push", "std::string::String::push", "std::string::String::push_str", "std::vec::Vec::append",
                    "std::vec::Vec::extend_from_slice", "std::iter::Extend::extend"):
            return self.builder(st, tail, args, sp)
        if path == "std::vec::Vec::insert" and len(args) == 3 and self.val(st, args[1]) == ("int", 0):
            return self.builder(st, "prepend", [args[0], args[2]], sp)
        if path == "std::vec::Vec::pop" or path == "std::vec::Vec::truncate" or path == "std::vec::Vec::clear":
            return None
        # ---- iteration
        if path == "std::iter::Iterator::next" and args[0][0] == "ptr":
            return self.iter_next(st, args[0])
        if path == "std::iter::Iterator::rev":
            return [(st, call("rev", v0))]
        if path.startswith("std::iter::Iterator::") and tail in ("fold", "try_fold"):
            return self.iter_fold(st, tail, args, v0, stack, fn, t)
        if path.startswith("std::iter::Iterator::") and tail in ("for_each", "try_for_each"):
            outs = []
            s2 = st.copy()
            el = ("elem", v0)
            for s, k, v in A(s2, args[1], el):
                outs.append((s, "back" if k == "ok" else k, v))
            r = UNIT if tail == "for_each" else call("try_for_each_result", v0)
            outs.append((st, "ok", r))
            return outs
        if path.startswith("std::iter::Iterator::") and tail in ("any", "all", "find", "find_map"):
            v0 = self.resolve_val(st, args[0])
            lam = self.lam(st.copy(), args[1], 1, stack)
            if lam[0] == "lam" and all(p[1] == "ret" for p in lam[3]):
                if tail == "any":
                    return [(st, ("isv", call("iter:find", v0, lam), OPT, frozenset(["Some"])))]
                if tail == "all":
                    lam = lam[:3] + (tuple((c, k, neg(v)) for c, k, v in lam[3]),)
                    return [(st, neg(("isv", call("iter:find", v0, lam), OPT, frozenset(["Some"]))))]
                if tail == "find_map":
                    return self.find_map(st, v0, lam)
            return [(st, call("iter:" + tail, v0, lam))]
        if path.startswith("std::iter::Iterator::") and tail in ("any", "all", "map", "filter", "find", "find_map", "filter_map",
                                                                 "position", "flat_map", "skip_while", "take_while", "map_while"):
            return [(st, call("iter:" + tail, v0, self.lam(st.copy(), args[1], 1, stack)))]
        if path.startswith("std::iter::Iterator::") and tail in ("enumerate", "collect", "count", "last", "skip", "take", "zip",
                                                                 "chain", "min", "max", "sum", "nth", "next_back"):
            if args[0][0] == "ptr":
                return None
            return [(st, call("iter:" + tail, *[self.resolve_val(st, a) for a in args]))]
        if path in ("std::ops::Index::index", "std::ops::IndexMut::index_mut"):
            i = self.val(st, args[1])
            if path.endswith("Index::index") and tys and re.match(r"^&(mut )?std::collections::\w+::\w*Map<|^&std::collections::\w*Map<", tys[0]):
                g = call("map:get", self.resolve_val(st, args[0]), self.resolve_val(st, args[1]))
                out = []
                for s, vv in self.split_variant(st.copy(), g, OPT):
                    out.append((s, "ok", self.payload(s, g, OPT, "Some")) if vv == "Some" else (s, "panic", ("panic", "index", "")))
                return out
            if path.endswith("index_mut") and args[0][0] == "ptr":
                return [(st, ("ptr", args[0][1], tuple(args[0][2]) + (("I", i),)))]
            if i[0] == "adt" and i[1].endswith("RangeFull"):
                return [(st, v0)]
            return [(st, self.index(v0, i))]
        if tail == "is_empty" and len(args) == 1:
            if v0[0] == "str":
                return [(st, ("bool", v0[1] == ""))]
            if v0[0] == "arr":
                return [(st, ("bool", not v0[1]))]
            return [(st, mkeq(v0, ("str", "")))] if path.startswith(("core::str", "std::string")) else \
                [(st, mkeq(call("len", v0), ("int", 0)))]
        if tail == "len" and len(args) == 1:
            if v0[0] == "arr":
                return [(st, ("int", len(v0[1])))]
            if v0[0] == "str":
                return [(st, ("int", len(v0[1].encode())))]
            return [(st, call("len", v0))]
        if path == "core::slice::contains":
            a = self.resolve_val(st, args[0])
            b = self.resolve_val(st, args[1])
            if a[0] == "arr":
                out = FALSE
                for x in a[1]:
                    out = mkor(out, mkeq(x, b)) if out != FALSE else mkeq(x, b)
                return [(st, out)]
            return [(st, call("contains", a, b))]
        # pure library functions: stay terms, no event
        if PURE.match(path) and not any(a[0] == "ptr" and i < len(tys) and tys[i].startswith("&mut ") for i, a in enumerate(args)):
            vals = []
            for a in args:
                v = self.resolve_val(st, a)
                if v[0] in ("clo", "fn"):
                    v = self.lam(st.copy(), a, None, stack)
                vals.append(v)
            nm = path
            if tail == "parse" or path in ("std::str::FromStr::from_str",):
                nm = "parse:" + (norm_path(ta[0]) if ta and not STRINGY.match(ta[0]) else (norm_path(ta[-1]) if ta else ""))
            elif path == "std::convert::TryFrom::try_from":
                nm = "try_from:" + norm_path(ta[0])
            return [(st, ("call", nm, tuple(vals)))]
        return None

    def display_of(self, ty):
        return None

    def builder(self, st, tail, args, sp):
        p = args[0]
        x = self.resolve_val(st, args[1])
        st = st.copy()
        if p[0] != "ptr":
            p = ("ptr", ("H", p), ())
        cur = self.load(st, p[1], p[2])
        if tail == "push":
            if cur[0] == "arr":
                nv = ("arr", cur[1] + (x,))
            elif cur[0] == "cat":
                nv = ("cat", cur[1] + (x,))
            else:
                nv = ("upd", "push", (self.resolve_val(st, cur), x))
        elif tail == "prepend":
            nv = ("arr", (x,) + cur[1]) if cur[0] == "arr" else ("arr", (x, ("spread", self.resolve_val(st, cur))))
        elif tail == "push_str":
            nv = ("cat", cur[1] + (x,)) if cur[0] == "cat" else ("cat", (cur, x)) if cur[0] == "str" else ("upd", "push", (self.resolve_val(st, cur), x))
        else:
            if cur[0] == "arr" and x[0] == "arr":
                nv = ("arr", cur[1] + x[1])
            elif cur[0] == "arr" and not cur[1]:
                nv = ("arr", (("spread", x),))
            elif cur[0] == "arr":
                nv = ("arr", cur[1] + (("spread", x),))
            else:
                nv = ("upd", "append", (self.resolve_val(st, cur), x))
            if tail == "append" and args[1][0] == "ptr":
                pass
        if p[1][0] == "L":
            self.store(st, p[1], p[2], nv)
        else:
            key = p[1][1]
            for e in p[2]:
                if e[0] == "f":
                    key = ("fld", key, norm_path(e[2]), e[3])
                elif e[0] == "I":
                    key = ("idx", key, e[1])
            st.events = st.events + (("mut", tail, (key, self.resolve_val(st, cur), x), sp),)
            st.heap[key] = nv
        return [(st, UNIT)]

    def iter_next(self, st, p):
        cur = self.load(st, p[1], p[2])
        src = cur
        if cur[0] == "loop":
            src = cur[3]
            el = ("elem", src)
            atom = ("more", cur)
        else:
            el = ("first", src)
            atom = ("more", src)
        out = []
        for s in self.assume(st.copy(), atom, True):
            if cur[0] != "loop":
                self.store(s, p[1], p[2], ("rest", src))
            out.append((s, some(el)))
        for s in self.assume(st.copy(), atom, False):
            out.append((s, NONE))
        return out

    def iter_fold(self, st, tail, args, v0, stack, fn, t):
        init = self.resolve_val(st, args[1])
        acc = ("loop", "fold", "acc", init)
        outs = []
        for s, k, v in self.apply(st.copy(), args[2], [acc, ("elem", v0)], stack, fn, t):
            if k == "ok":
                s.loops[("fold", init)] = ({"acc": init}, {"acc": self.resolve_val(s, v)})
                outs.append((s, "back", ("str", "fold")))
            else:
                outs.append((s, k, v))
        s = st.copy()
        s.facts[("b", ("more", ("foldend", v0)))] = False
        outs.append((s, "ok", acc if tail == "fold" else call("try_fold", acc)))
        return outs

    def find_map(self, st, src, lam):
        """the value of the first element for which there is one"""
        parts = []
        for c, k, v in lam[3]:
            if v[0] == "adt":
                parts.append((c, k, ("bool", v[2] == "Some")))
            else:
                parts.append((c, k, ("isv", v, OPT, frozenset(["Some"]))))
        find = call("iter:find", src, ("lam", lam[1], 1, tuple(sorted(parts, key=repr))))
        out = []
        for s, v in self.split_variant(st.copy(), find, OPT):
            if v == "None":
                out.append((s, NONE))
                continue
            m = {("lp", lam[1], 0): self.payload(s, find, OPT, "Some")}
            for c, k, val in lam[3]:
                if val == NONE:
                    continue
                s2 = s.copy()
                okc = True
                for a, y in c:
                    a = vsubst(a, m)
                    if s2.facts.get(a, y) != y:
                        okc = False
                    s2.facts[a] = y
                if not okc:
                    continue
                val = vsubst(val, m)
                if val[0] != "adt":
                    ss = [q for q, vv in self.split_variant(s2, val, OPT) if vv == "Some"]
                    for q in ss:
                        out.append((q, some(self.payload(q, val, OPT, "Some"))))
                else:
                    out.append((s2, val))
        return out

    def maps(self, st, typ, m, args, tys, sp, v0, A):
        if typ in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
            if m in ("new", "with_capacity", "default"):
                return [(st, call("newmap"))]
            mp = self.resolve_val(st, args[0]) if args else None
            if m in ("get", "contains_key", "contains", "get_mut"):
                k = self.resolve_val(st, args[1])
                if m == "contains":
                    return [(st, ("isv", call("map:get", mp, k), OPT, frozenset(["Some"])))]
                if m == "contains_key":
                    return [(st, ("isv", call("map:get", mp, k), OPT, frozenset(["Some"])))]
                return [(st, call("map:get", mp, k))]
            if m in ("insert", "remove"):
                k = self.resolve_val(st, args[1])
                x = self.resolve_val(st, args[2]) if len(args) > 2 else UNIT
                st = st.copy()
                key = self.placekey(args[0])
                st.events = st.events + (("map", m, (key or mp, k, x), sp),)
                nv = ("upd", "map:" + m, (mp, k, x))
                self.setptr(st, args[0], nv)
                if typ.endswith("Set"):
                    return [(st, neg(("isv", call("map:get", mp, k), OPT, frozenset(["Some"])))
                             if m == "insert" else call("map:removed", mp, k))]
                return [(st, call("map:get", mp, k))]
            if m == "entry":
                k = self.resolve_val(st, args[1])
                ent = "std::collections::%s::Entry" % ("hash_map" if typ == "HashMap" else "btree_map")
                out = []
                for s, v in self.split_variant(st.copy(), call("map:get", mp, k), OPT):
                    out.append((s, "ok", ("adt", ent, "Occupied" if v == "Some" else "Vacant", (("0", ("mapslot", mp, k, args[0])),))))
                return out
            if m in ("iter", "keys", "values", "into_iter", "iter_mut", "values_mut", "drain"):
                return [(st, call("hashiter:" + m if typ.startswith("Hash") else "treeiter:" + m, mp))]
        if typ in ("Entry", "OccupiedEntry", "VacantEntry") and args:
            return self.mapentry(st, m, args, sp, A)
        return None

    def mapentry(self, st, m, args, sp, A):
        e = self.val(st, args[0])
        while e[0] == "ptr":
            e = self.val(st, self.load(st, e[1], e[2]))
        occ = None
        if e[0] == "adt" and e[1].endswith("_map::Entry"):
            occ = e[2] == "Occupied"
            whole, e = e, dict(e[3])["0"]
        else:
            whole = e
        while e[0] == "ptr":
            e = self.val(st, self.load(st, e[1], e[2]))
        if e[0] != "mapslot":
            return None
        mp, k, ptr = e[1:]
        got = call("map:get", mp, k)

        def value(s):
            return self.hp(s, ("fld", got, OPT + "::Some", "0"))

        if m == "key":
            return [(st, k)]
        if occ is None:
            if m in ("get", "get_mut", "into_mut"):
                if m == "get":
                    return [(st, value(st))]
                return [(st, ("ptr", ("H", ("fld", got, OPT + "::Some", "0")), ()))]
            if m == "insert" and len(args) == 2:
                s = st.copy()
                x = self.resolve_val(st, args[1])
                s.events = s.events + (("map", "insert", (self.placekey(ptr) or mp, k, x), sp),)
                self.setptr(s, ptr, ("upd", "map:insert", (mp, k, x)))
                return [(s, "ok", x)]
            return None
        if m in ("or_insert", "or_insert_with", "or_default"):
            if occ:
                return [(st, ("ptr", ("H", ("fld", got, OPT + "::Some", "0")), ()))]
            vals = [(st, "ok", args[1])] if m == "or_insert" else [(st, "ok", call("default"))] if m == "or_default" else A(st, args[1])
            out = []
            for s, kd, x in vals:
                if kd == "ok":
                    s = s.copy()
                    x = self.resolve_val(s, x)
                    s.events = s.events + (("map", "insert", (self.placekey(ptr) or mp, k, x), sp),)
                    self.setptr(s, ptr, ("upd", "map:insert", (mp, k, x)))
                out.append((s, kd, x))
            return out
        if m == "and_modify":
            if not occ:
                return [(st, whole)]
            return self.each(A(st, args[1], ("ptr", ("H", ("fld", got, OPT + "::Some", "0")), ())), lambda s2, v: [(s2, "ok", whole)])
        return None

    def hkey(self, a):
        t = a[1][1]
        for e in a[2]:
            if e[0] == "f":
                t = ("fld", t, norm_path(e[2]), e[3])
            elif e[0] == "I":
                t = ("idx", t, e[1])
        return t

    def placekey(self, a):
        if a[0] != "ptr":
            return None
        if a[1][0] == "L":
            return None
        key = a[1][1]
        for e in a[2]:
            if e[0] == "f":
                key = ("fld", key, norm_path(e[2]), e[3])
        return key

    def setptr(self, st, a, nv):
        if a[0] != "ptr":
            return
        if a[1][0] == "L":
            self.store(st, a[1], a[2], nv)
        else:
            st.heap[self.placekey(a)] = nv

    def optres(self, st, isopt, m, args, v0, A):
        adt = OPT if isopt else RES
        good, bad = ("Some", "None") if isopt else ("Ok", "Err")

        def wrap_bad(s):
            return NONE if isopt else err(self.payload(s, v0, RES, "Err"))

        def cases(on_good, on_bad):
            out = []
            for s, v in self.split_variant(st.copy(), v0, adt):
                if v == good:
                    out += on_good(s, self.payload(s, v0, adt, good))
                else:
                    out += on_bad(s, None if isopt else self.payload(s, v0, RES, "Err"))
            return out
        ret = lambda s, v: [(s, "ok", v)]
        if m in ("is_some", "is_ok"):
            return [(st, self.isv(st, v0, adt, good))]
        if m in ("is_none", "is_err"):
            return [(st, neg(self.isv(st, v0, adt, good)))]
        if m == "map":
            mk = some if isopt else ok
            return cases(lambda s, x: self.each(A(s, args[1], x), lambda s2, v: ret(s2, mk(v))), lambda s, e: ret(s, wrap_bad(s)))
        if m == "map_err":
            return cases(lambda s, x: ret(s, ok(x)), lambda s, e: self.each(A(s, args[1], e), lambda s2, v: ret(s2, err(v))))
        if m == "and_then":
            return cases(lambda s, x: A(s, args[1], x), lambda s, e: ret(s, wrap_bad(s)))
        if m == "and":
            return cases(lambda s, x: ret(s, args[1]), lambda s, e: ret(s, wrap_bad(s)))
        if m == "or":
            return cases(lambda s, x: ret(s, (some if isopt else ok)(x)), lambda s, e: ret(s, args[1]))
        if m == "or_else":
            return cases(lambda s, x: ret(s, (some if isopt else ok)(x)),
                         lambda s, e: A(s, args[1], *([] if isopt else [e])))
        if m == "ok_or":
            return cases(lambda s, x: ret(s, ok(x)), lambda s, e: ret(s, err(args[1])))
        if m == "ok_or_else":
            return cases(lambda s, x: ret(s, ok(x)), lambda s, e: self.each(A(s, args[1]), lambda s2, v: ret(s2, err(v))))
        if m == "ok":
            return cases(lambda s, x: ret(s, some(x)), lambda s, e: ret(s, NONE))
        if m == "err":
            return cases(lambda s, x: ret(s, NONE), lambda s, e: ret(s, some(e)))
        if m in ("unwrap", "expect", "unwrap_unchecked"):
            return cases(lambda s, x: ret(s, x), lambda s, e: [(s, "panic", ("panic", m, adt))])
        if m in ("unwrap_err", "expect_err"):
            return cases(lambda s, x: [(s, "panic", ("panic", m, adt))], lambda s, e: ret(s, e))
        if m == "unwrap_or":
            return cases(lambda s, x: ret(s, x), lambda s, e: ret(s, args[1]))
        if m == "unwrap_or_default":
            return cases(lambda s, x: ret(s, x), lambda s, e: ret(s, call("default")))
        if m == "unwrap_or_else":
            return cases(lambda s, x: ret(s, x), lambda s, e: A(s, args[1], *([] if isopt else [e])))
        if m == "map_or":
            return cases(lambda s, x: A(s, args[2], x), lambda s, e: ret(s, args[1]))
        if m == "map_or_else":
            return cases(lambda s, x: A(s, args[2], x), lambda s, e: A(s, args[1], *([] if isopt else [e])))
        if m in ("is_some_and", "is_ok_and"):
            return cases(lambda s, x: A(s, args[1], x), lambda s, e: ret(s, FALSE))
        if m == "is_none_or":
            return cases(lambda s, x: A(s, args[1], x), lambda s, e: ret(s, TRUE))
        if m == "filter":
            def g(s, x):
                out = []
                for s2, k, v in A(s, args[1], x):
                    if k != "ok":
                        out.append((s2, k, v))
                        continue
                    for s3 in self.assume(s2.copy(), v, True):
                        out.append((s3, "ok", some(x)))
                    for s3 in self.assume(s2.copy(), v, False):
                        out.append((s3, "ok", NONE))
                return out
            return cases(g, lambda s, e: ret(s, NONE))
        if m == "take" and isopt:
            out = []
            for s, v in self.split_variant(st.copy(), v0, OPT):
                x = some(self.payload(s, v0, OPT, "Some")) if v == "Some" else NONE
                if args[0][0] == "ptr":
                    s = s.copy()
                    key = self.placekey(args[0])
                    if key is not None:
                        s.events = s.events + (("mut", "take", (key, self.resolve_val(s, v0), UNIT), None),)
                    self.setptr(s, args[0], NONE)
                out.append((s, "ok", x))
            return out
        if m == "transpose":
            # Option<Result<T,E>> -> Result<Option<T>,E>
            out = []
            for s, v in self.split_variant(st.copy(), v0, OPT):
                if v == "None":
                    out.append((s, "ok", ok(NONE)))
                else:
                    x = self.payload(s, v0, OPT, "Some")
                    for s2, w in self.split_variant(s, x, RES):
                        if w == "Ok":
                            out.append((s2, "ok", ok(some(self.payload(s2, x, RES, "Ok")))))
                        else:
                            out.append((s2, "ok", err(self.payload(s2, x, RES, "Err"))))
            return out
        if m in ("iter", "into_iter"):
            return [(st, v0)]
        return None

    def isv(self, st, v, adt, variant):
        if v[0] == "adt":
            return ("bool", v[2] == variant)
        return ("isv", v, adt, frozenset([variant]))


OWNED = ("adt", "tup", "arr", "clo", "cat", "str", "int", "bool")


def cell(v):
    """the content of a RefCell; a freshly built cell is its content"""
    if v[0] in OWNED or (v[0] == "call" and v[1] == "newmap"):
        return v
    return ("cell", v)


PURE = re.compile(r"^(core::str::|std::str::|core::char::|std::char::|regex::Regex::is_match|codemap::|std::path::|roxmltree::"
                  r"|xmlparser::|nom_locate::|std::ops::RangeBounds|std::ops::RangeInclusive|std::ops::Range|core::num::|core::f64"
                  r"|std::convert::TryFrom|uriparse|chrono|xml::common|std::string::String::(as|chars|char|trim)|std::fmt::"
                  r"|std::ops::(Add|Sub|Mul)|std::rc::Rc::(ptr_eq|as_ptr)|std::error|std::borrow::Cow|core::slice::(first|last|get|split)"
                  r"|std::io::Error::kind|num_bigint|bigdecimal|fluent_uri|std::vec::Vec::(first|last|get)|std::mem::discriminant"
                  r"|std::iter::(once|empty|repeat))")


def neg(t):
    if t[0] == "bool":
        return ("bool", not t[1])
    if t[0] == "not":
        return t[1]
    return ("not", t)


def mkand(a, b):
    for x, y in ((a, b), (b, a)):
        if x == TRUE:
            return y
        if x == FALSE:
            return FALSE
    return ("and", a, b)


def mkor(a, b):
    for x, y in ((a, b), (b, a)):
        if x == FALSE:
            return y
        if x == TRUE:
            return TRUE
    return ("or", a, b)


def mkeq(a, b):
    if a == b:
        return TRUE
    consts = ("str", "int", "char", "bool")
    if a[0] in consts and b[0] in consts:
        return ("bool", a == b)
    if a[0] == "bool":
        return b if a[1] else neg(b)
    if b[0] == "bool":
        return a if b[1] else neg(a)
    for x, y in ((a, b), (b, a)):
        # comparison with a field-less variant
        if x[0] == "adt" and not x[3] and y[0] != "adt":
            return ("isv", y, x[1], frozenset([x[2]]))
    if a[0] == "adt" and b[0] == "adt" and a[1] == b[1] and a[2] != b[2]:
        return FALSE
    return ("eq",) + tuple(sorted((a, b), key=repr))
