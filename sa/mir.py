"""Program model over the dumped MIR: functions, ADTs, call graph, positions."""
import re
import dump as _dump


def strip_generics(p):
    """drop ::<...> groups (balanced) and lifetimes; keep <X as Y> forms"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i):
            j = i + 3
            depth = 1
            while j < n and depth:
                c = p[j]
                if c == "<":
                    depth += 1
                elif c == ">" and p[j - 1] != "-":
                    depth -= 1
                j += 1
            i = j
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


def strip_ty(t):
    """type string without lifetimes / references"""
    t = re.sub(r"'[a-z_]\w*\s*", "", t)
    t = t.replace("&mut ", "").replace("&", "")
    t = t.replace("<>", "").strip()
    return t


class Fn:
    __slots__ = ("crate", "raw", "path", "name", "kind", "sig", "body", "promoted", "sp", "parent", "caps",
                 "selfty", "trait", "vis", "exported", "_names")

    def __init__(self, crate, j):
        self.crate = crate
        self.raw = j["path"]
        self.path = norm_path(j["path"])
        self.name = j.get("name") or self.path.rsplit("::", 1)[-1]
        self.kind = j["kind"]
        self.sig = j.get("sig")
        self.body = j["body"]
        self.promoted = j.get("promoted", [])
        self.sp = j["sp"]
        self.parent = norm_path(j["parent"]) if j.get("parent") else None
        self.caps = j.get("caps", [])
        self.selfty = j.get("self")
        self.trait = norm_path(j["impl_trait"]) if j.get("impl_trait") else None
        self.vis = j.get("vis")
        self.exported = j.get("exported", False)
        self._names = None

    def argnames(self):
        if self._names is None:
            d = {}
            for nm, pl in self.body["names"]:
                if not pl["p"] and 1 <= pl["l"] <= self.body["argc"]:
                    d.setdefault(pl["l"], nm)
            self._names = [d.get(i, "a%d" % i) for i in range(1, self.body["argc"] + 1)]
        return self._names

    def argtypes(self):
        return [self.body["locals"][i]["t"] for i in range(1, self.body["argc"] + 1)]

    def __repr__(self):
        return "Fn(%s)" % self.path


def norm_path(p):
    p = strip_generics(p)
    p = re.sub(r"<('\w+(, )?)+>", "", p)
    return re.sub(r"'[a-z_]\w*,?\s*", "", p)


class Program:
    def __init__(self):
        data, self.prefix = _dump.load()
        self.fns = {}
        self.adts = {}
        self.impls = []
        for crate, j in data.items():
            for f in j["fns"]:
                fn = Fn(crate, f)
                self.fns[fn.path] = fn
            for a in j["adts"]:
                p = norm_path(a["path"])
                if a["local"] or p not in self.adts:
                    self.adts[p] = a
            for i in j["impls"]:
                i["crate"] = crate
                self.impls.append(i)
        # short-name index  Type::method  /  fn
        self.short = {}
        for p in self.fns:
            self.short.setdefault(shortname(p), []).append(p)

    def pos(self, sp):
        if not sp:
            return "?"
        f = sp[0]
        if self.prefix and f.startswith(self.prefix):
            f = f[len(self.prefix):].lstrip("/")
        return "%s:%d" % (f, sp[1])

    def find(self, short, crate=None):
        c = [p for p in self.short.get(short, []) if crate is None or self.fns[p].crate == crate]
        return self.fns[c[0]] if len(c) == 1 else None

    def variants(self, adt):
        a = self.adts.get(adt)
        if not a:
            return None
        return [(v[0], v[1]) for v in a["variants"]]

    def fields(self, adt, variant):
        for v in self.adts[adt]["variants"]:
            if v[0] == variant:
                return [f[0] for f in v[2]]
        return None


def shortname(path):
    """crate-less short name: last two segments for methods, last for free fns"""
    p = path
    if "!" in p and p.split("!", 1)[1].startswith("<"):
        return p.split("!", 1)[1]
    segs = split_path(p)
    clos = []
    while segs and segs[-1].startswith("{closure"):
        clos.insert(0, segs.pop())
    if not segs:
        return p
    last = segs[-1]
    if len(segs) >= 2 and re.match(r"[A-Z]", segs[-2]):
        last = segs[-2] + "::" + last
    return "::".join([last] + clos)


def split_path(p):
    out, depth, cur = [], 0, ""
    i = 0
    while i < len(p):
        if p[i] in "<([":
            depth += 1
        elif p[i] in ">)]":
            if not (p[i] == ">" and i and p[i - 1] == "-"):
                depth -= 1
        if depth == 0 and p.startswith("::", i):
            out.append(cur)
            cur = ""
            i += 2
            continue
        cur += p[i]
        i += 1
    out.append(cur)
    return out
