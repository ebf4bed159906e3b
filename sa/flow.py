"""Which variants the values of an enum type can have: parameters, results and fields, over all call sites of a crate (a fixpoint of the path summaries)."""
from lib import *
from vf import VF, Budget

TOP = None


def terms(x):
    """all terms within a term or a collection of them"""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            if y and isinstance(y[0], str):
                yield y
            stack.extend(z for z in y if isinstance(z, (tuple, list)))
        elif isinstance(y, list):
            stack.extend(z for z in y if isinstance(z, (tuple, list)))


def of_part(q):
    """all terms of one path"""
    for k in q.facts:
        yield from terms(k[1])
    yield from terms(q.val)
    for e in q.events:
        yield from terms(e[:3])
    for k, v in q.heap.items():
        yield from terms(k)
        yield from terms(v)


class Flow:
    def __init__(self, prog, fns, sums, open_fns=()):
        """fns: {path: Fn}; sums: {path: parts, every other function opaque}; open_fns: functions anyone may call"""
        self.prog, self.fns, self.sums = prog, fns, sums
        short = {}
        for p in fns:
            short.setdefault(shortname(p), []).append(p)
        self.short = {s: ps[0] for s, ps in short.items() if len(ps) == 1}
        self.param, self.ret, self.field = {}, {}, {}
        self.unknown = set(open_fns)
        self.opened()
        self.sites = []
        for p, parts in sums.items():
            for q in parts:
                for t in set(of_part(q)):
                    if t[0] == "call" and len(t) == 3 and t[1] in self.short and isinstance(t[2], tuple):
                        self.sites.append((p, q, self.short[t[1]], t[2]))
                    elif t[0] == "adt" and len(t) == 4:
                        self.sites.append((p, q, None, t))
        self.built = {(a[1] + "::" + a[2], n) for p, q, g, a in self.sites if g is None and a[1].startswith("relaxng_") for n, x in a[3]}
        self.solve()

    def opened(self):
        """functions used as values, or which nobody calls by name: any argument"""
        called = set()
        for f in self.prog.fns.values():
            for b in f.body["blocks"]:
                t = b["t"]
                if t.get("t") == "call" and t["f"].get("k") == "fn":
                    for x in (t["f"].get("r"), t["f"].get("path")):
                        if x:
                            called.add(norm_path2(x))
                    ops = list(t.get("a") or [])
                else:
                    ops = []
                for s in list(b["s"]):
                    ops.append(s.get("v"))
                for d in walkd(ops):
                    if d.get("k") == "fn" or ("path" in d and "t" in d and d.get("k") not in ("static",)):
                        for x in (d.get("r"), d.get("path")):
                            if isinstance(x, str) and norm_path2(x) in self.fns:
                                self.unknown.add(norm_path2(x))
        for p, f in self.fns.items():
            if f.trait or "{closure" in p:
                self.unknown.add(p)

    def of(self, p, q, t, depth=0):
        """variants of term t on path q of function p; TOP when unknown"""
        f = q.facts.get(("v", t))
        r = self.of0(p, q, t, depth)
        if f is None or not isinstance(f, frozenset):
            return r
        return f if r is TOP else r & f

    def of0(self, p, q, t, depth):
        if depth > 8:
            return TOP
        k = t[0]
        if k == "adt":
            return frozenset([t[2]])
        if k == "arg":
            if p in self.unknown:
                return TOP
            return self.param.get((p, t[1]), frozenset())
        if k == "upd" and len(t) > 2 and isinstance(t[2], tuple) and t[2]:
            g = self.short.get(t[1])
            if g is None or any(v[:1] == ("adt",) for q2 in self.sums.get(g, ()) for h, v in q2.heap.items() if h[:1] == ("arg",)):
                return TOP
            return self.of(p, q, t[2][0], depth + 1)
        if k == "loop" and len(t) == 4 and isinstance(t[3], tuple) and t[3]:
            b = t[3]
            while b[0] in ("upd", "fld"):
                b = b[2][0] if b[0] == "upd" and b[2] else b[1]
            if b[0] == "adt" and b[1].startswith("relaxng_") or b[0] == "call" and b[1] in self.short:
                return self.of(p, q, t[3], depth + 1)
            return TOP
        if k == "call" and t[1] in self.short:
            return self.ret.get((self.short[t[1]], ""), frozenset())
        if k == "fld":
            if t[2] in ("std::result::Result::Ok", "std::option::Option::Some", "std::result::Result::Err"):
                b = t[1]
                if b[0] == "call" and b[1] in self.short:
                    return self.ret.get((self.short[b[1]], t[2].rsplit("::", 1)[1]), frozenset())
                return TOP
            if (t[2], t[3]) in self.built:
                return self.field.get((t[2], t[3]), frozenset())
        return TOP

    def join(self, d, k, v):
        old = d.get(k, frozenset())
        new = TOP if old is TOP or v is TOP else old | v
        if new != old or k not in d:
            d[k] = new
            return True
        return False

    def solve(self):
        for _ in range(60):
            ch = False
            live = {id(q): self.possible(p, q)[0] for p, parts in self.sums.items() for q in parts}
            entered = {id(q): self.possible(p, q, True)[0] for p, parts in self.sums.items() for q in parts}
            for p, q, g, a in self.sites:
                if not entered[id(q)]:
                    continue
                if g is None:
                    owner = a[1] + "::" + a[2]
                    if a[1].startswith("relaxng_"):
                        for n, x in a[3]:
                            if isinstance(x, tuple) and x:
                                ch |= self.join(self.field, (owner, n), self.of(p, q, x))
                    continue
                names = self.fns[g].argnames()
                for n, x in zip(names, a):
                    if isinstance(x, tuple) and x:
                        ch |= self.join(self.param, (g, n), self.of(p, q, x))
            for p, parts in self.sums.items():
                for q in parts:
                    if q.kind != "ret" or not live[id(q)]:
                        continue
                    v = q.val
                    ch |= self.join(self.ret, (p, ""), self.of(p, q, v))
                    if v[0] == "adt" and v[2] in ("Ok", "Some", "Err") and v[3]:
                        ch |= self.join(self.ret, (p, v[2]), self.of(p, q, v[3][0][1]))
                    elif v[0] not in ("adt",):
                        b = v if v[0] == "call" and v[1] in self.short else None
                        for w in ("Ok", "Some", "Err"):
                            ch |= self.join(self.ret, (p, w), self.ret.get((self.short[b[1]], w), frozenset()) if b else TOP)
            if not ch:
                break

    def possible(self, p, q, given=False):
        """False when the path needs a variant which the value never has (given: looking only at what the function was called with)"""
        for (k, t), f in q.facts.items():
            if k == "v" and isinstance(f, frozenset) and not (given and any(x[0] in ("call", "upd", "loop") for x in terms(t))):
                r = self.of0(p, q, t, 0)
                if r is not TOP and not (r & f):
                    return False, t, r
        return True, None, None


def norm_path2(x):
    from mir import norm_path
    return norm_path(x)


def walkd(x):
    if isinstance(x, dict):
        yield x
        for y in x.values():
            yield from walkd(y)
    elif isinstance(x, list):
        for y in x:
            yield from walkd(y)
