"""The set of characters a condition on one character holds for, as intervals: an abstract interpretation of the function's
control-flow graph in which the only unknown is the character and every branch splits the set of characters reaching it."""
from lex import CHARFN

TOP = 0x110000
SURR = (0xD800, 0xDFFF)


class Unknown(Exception):
    pass


def norm(iv):
    out = []
    for a, b in sorted(iv):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return tuple((a, b) for a, b in out)


ALL = ((0, SURR[0] - 1), (SURR[1] + 1, TOP - 1))


def inter(x, y):
    out = []
    for a, b in x:
        for p, q in y:
            lo, hi = max(a, p), min(b, q)
            if lo <= hi:
                out.append((lo, hi))
    return norm(out)


def union(x, y):
    return norm(tuple(x) + tuple(y))


def compl(x):
    out, at = [], 0
    for a, b in norm(x):
        out.append((at, a - 1))
        at = b + 1
    out.append((at, TOP - 1))
    return inter(norm(out), ALL)


def below(n):
    return inter(((0, n - 1),), ALL) if n > 0 else ()


def only(n):
    return inter(((n, n),), ALL)


def ofset(chars):
    return norm([(ord(ch), ord(ch)) for ch in chars])


def words(iv):
    """readable"""
    def one(n):
        return repr(chr(n)) if 33 <= n < 127 else "U+%04X" % n
    return " ".join(one(a) if a == b else "%s-%s" % (one(a), one(b)) for a, b in iv[:8]) + (" and more" if len(iv) > 8 else "")


_lib = {}


def library(name):
    """the characters a predicate of the standard library holds for"""
    if name not in _lib:
        f = CHARFN.get(name)
        if f is None:
            raise Unknown("the condition %s" % name)
        out, start = [], None
        for lo, hi in ALL:
            for n in range(lo, hi + 1):
                if f(chr(n)):
                    if start is None:
                        start = n
                elif start is not None:
                    out.append((start, n - 1))
                    start = None
            if start is not None:
                out.append((start, hi))
                start = None
        _lib[name] = norm(out)
    return _lib[name]


def charset(prog, fn, arg=None, depth=6):
    """characters for which a function (or closure) of one character returns true"""
    body = fn.body
    if arg is None:
        idx = [i for i, t in enumerate(fn.argtypes()) if t.replace("&", "").strip() in ("char", "u8")]
        if len(idx) != 1:
            raise Unknown("a function of other arguments")
        arg = idx[0] + 1
    blocks = body["blocks"]
    yes = ()
    no = ()
    work = [(0, ALL, {arg: ("c",)})]
    steps = 0
    while work:
        bb, S, env = work.pop()
        steps += 1
        if steps > 20000:
            raise Unknown("too many paths")
        if not S:
            continue
        env = dict(env)

        def operand(o):
            pl = o.get("c") or o.get("m")
            if pl is not None and isinstance(pl, dict):
                if any(x != "*" and not (isinstance(x, dict) and x.get("k") == "deref") and x not in ("deref", ["deref"]) for x in pl["p"]):
                    v = env.get(pl["l"])
                    if v is not None and v[0] == "agg" and len(pl["p"]) == 1 and isinstance(pl["p"][0], (list, tuple)):
                        pass
                    raise Unknown("a value of another kind")
                v = env.get(pl["l"])
                if v is None:
                    raise Unknown("a value of another kind")
                return v
            if o.get("k") in ("char", "int"):
                return ("n", o["v"])
            if o.get("k") == "bool":
                return ("set", ALL if o["v"] else ())
            if o.get("k") == "fn":
                return ("fn", o.get("r") or o["path"])
            if o.get("k") == "promoted":
                return ("promoted", o["i"])
            raise Unknown("a value of another kind")

        def cmp(op, a, b):
            if a[0] == "n" and b[0] == "c":
                flip = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
                return cmp(flip[op], b, a) if op in flip else None
            if a[0] == "c" and b[0] == "n":
                n = b[1]
                if op == "Lt":
                    return ("set", below(n))
                if op == "Le":
                    return ("set", below(n + 1))
                if op == "Ge":
                    return ("set", compl(below(n)))
                if op == "Gt":
                    return ("set", compl(below(n + 1)))
                if op == "Eq":
                    return ("set", only(n))
                if op == "Ne":
                    return ("set", compl(only(n)))
            if a[0] == "set" and b[0] == "set":
                if op == "BitAnd":
                    return ("set", inter(a[1], b[1]))
                if op == "BitOr":
                    return ("set", union(a[1], b[1]))
                if op in ("BitXor", "Ne"):
                    return ("set", union(inter(a[1], compl(b[1])), inter(b[1], compl(a[1]))))
                if op == "Eq":
                    return ("set", union(inter(a[1], b[1]), inter(compl(a[1]), compl(b[1]))))
            return None

        for st in blocks[bb]["s"]:
            if st["s"] != "=":
                continue
            r = st["v"]
            dst = st["p"]
            if dst["p"]:
                raise Unknown("a part of a value is set")
            k = r["r"]
            if k == "use":
                v = operand(r["o"])
            elif k == "ref":
                v = operand({"c": r["p"]})
            elif k == "bin":
                v = cmp(r["op"], operand(r["a"]), operand(r["b"]))
            elif k == "un" and r.get("op") == "Not":
                x = operand(r["o"] if "o" in r else r["a"])
                v = ("set", compl(x[1])) if x[0] == "set" else None
            elif k == "cast":
                x = operand(r["o"])
                v = x if x[0] in ("n",) or x[0] == "c" and r["t"] in ("u32", "u64", "i64", "usize", "i32") else None
            else:
                v = None
            if v is None:
                raise Unknown("a computation of another kind")
            env[dst["l"]] = v
        t = blocks[bb]["t"]
        k = t["t"]
        if k == "goto":
            work.append((t["to"], S, env))
        elif k == "return":
            v = env.get(0)
            if v is None or v[0] != "set":
                raise Unknown("a result of another kind")
            yes = union(yes, inter(S, v[1]))
            no = union(no, inter(S, compl(v[1])))
        elif k == "switch":
            v = operand(t["o"])
            rest = S
            for n, to in t["arms"]:
                if v[0] == "set":
                    part = v[1] if n else compl(v[1])
                elif v[0] == "c":
                    part = only(n)
                else:
                    raise Unknown("a branch of another kind")
                work.append((to, inter(S, part), env))
                rest = inter(rest, compl(part))
            if t.get("else") is not None:
                work.append((t["else"], rest, env))
        elif k == "call":
            f = t["f"]
            nm = f.get("r") or f.get("path") if f.get("k") == "fn" else None
            if nm is None or t["d"]["p"]:
                raise Unknown("a call of another kind")
            args = [operand(a) for a in t["a"]]
            from mir import norm_path
            callee = prog.fns.get(norm_path(nm))
            last = nm.rsplit("::", 1)[-1]
            if callee is not None and callee.body and depth and len(args) == 1 and args[0] == ("c",):
                v = ("set", charset(prog, callee, 1, depth - 1))
            elif "char" in nm and last in CHARFN and args == [("c",)]:
                v = ("set", library(last))
            elif last == "new" and "RangeInclusive" in nm and args[0][0] == args[1][0] == "n":
                v = ("range", args[0][1], args[1][1])
            elif last == "contains" and args[0][0] == "range" and args[1] == ("c",):
                v = ("set", inter(((args[0][1], args[0][2]),), ALL))
            elif last in ("eq", "ne", "lt", "le", "gt", "ge") and len(args) == 2:
                v = cmp({"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[last], *args)
                if v is None:
                    raise Unknown("a comparison of another kind")
            else:
                raise Unknown("the call of %s" % nm)
            env[t["d"]["l"]] = v
            if t.get("to") is not None:
                work.append((t["to"], S, env))
        elif k == "drop":
            work.append((t["to"], S, env))
        else:
            raise Unknown("a step of kind %s" % k)
    if inter(yes, no) or union(yes, no) != ALL:
        raise Unknown("no unique answer")
    return yes


# XML 1.0 (fifth edition), Namespaces in XML: NCName
NCSTART = norm([(0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF),
                (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF)])
NCCHAR = union(NCSTART, [(0x2D, 0x2E), (0x30, 0x39), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)])
