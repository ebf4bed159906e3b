"""RefCells which are borrowed again while they are borrowed: live ranges of the guards, and the cells each function borrows as access paths from its parameters."""
from lib import *
from mir import norm_path
from props_effects import targets

STEP = ("deref", "deref_mut", "as_ref", "as_mut", "clone", "borrow_unguarded", "into_iter", "iter", "unwrap", "expect", "as_deref")


class Body:
    def __init__(self, fn):
        self.fn = fn
        self.b = fn.body
        self.defs = {}
        for i, b in enumerate(self.b["blocks"]):
            if b.get("cl"):
                continue
            for s in b["s"]:
                if s.get("s") == "=" and not s["p"]["p"]:
                    self.defs.setdefault(s["p"]["l"], []).append(s["v"])
            t = b["t"]
            if t.get("t") == "call" and not t["d"]["p"]:
                self.defs.setdefault(t["d"]["l"], []).append(t)
        self.memo = {}

    def local(self, l):
        """access path of a local: (root, steps); None: not known"""
        if l in self.memo:
            return self.memo[l]
        self.memo[l] = None
        if 1 <= l <= self.b["argc"]:
            r = (l, ())
        else:
            d = self.defs.get(l, [])
            r = self.value(d[0]) if len(d) == 1 else None
            if r is None:
                r = (("local", l), ())
        self.memo[l] = r
        return r

    def place(self, p):
        r = self.local(p["l"])
        steps = r[1]
        for e in p["p"]:
            if e[0] == "f":
                steps += (e[2] + "." + str(e[3]),)
            elif e[0] not in ("d", "v"):
                return (("elem", self.fn.path, p["l"]), ())
        return (r[0], steps)

    def operand(self, o):
        for k in ("c", "m"):
            if isinstance(o, dict) and k in o:
                return self.place(o[k])
        return None

    def value(self, v):
        if v.get("t") == "call":
            n = norm_path(v["f"].get("r") or v["f"].get("path") or "") if v["f"].get("k") == "fn" else ""
            if n.split("::")[-1] in STEP and v["a"]:
                if n.split("::")[-1] == "clone" and "Rc" not in str(v["f"].get("a")) + str(v["f"].get("r")) and "RefCell" not in str(v["f"].get("a")):
                    return None
                return self.operand(v["a"][0])
            return None
        if v.get("r") == "use":
            return self.operand(v["o"])
        if v.get("r") in ("ref", "rawptr"):
            return self.place(v["p"])
        if v.get("r") == "cast":
            return self.operand(v["o"]) if "o" in v else None
        return None


def borrow_kind(t):
    """'mut' or 'shared' when the call borrows a cell"""
    n = norm_path(t["f"].get("r") or t["f"].get("path") or "") if t["f"].get("k") == "fn" else ""
    if "RefCell" not in n:
        return None
    m = n.split("::")[-1]
    return {"borrow_mut": "mut", "replace": "mut", "swap": "mut", "take": "mut", "replace_with": "mut", "borrow": "shared"}.get(m)


class Cells:
    def __init__(self, prog, fns):
        self.prog, self.fns = prog, fns
        self.body = {p: Body(f) for p, f in fns.items()}
        self.clos = {}
        for p, bd in self.body.items():
            for b in bd.b["blocks"]:
                for s in b["s"]:
                    v = s.get("v")
                    if isinstance(v, dict) and v.get("r") == "agg" and v["k"][0] == "closure" and not s["p"]["p"]:
                        self.clos[p, s["p"]["l"]] = (norm_path(v["k"][1]), v)
        self.eff = {p: {} for p in fns}
        for _ in range(12):
            ch = False
            for p, bd in self.body.items():
                for b in bd.b["blocks"]:
                    if b.get("cl") or b["t"].get("t") != "call":
                        continue
                    for cell, kind, via in self.touched(p, b["t"]):
                        if isinstance(cell[0], int) and len(cell[1]) <= 5:
                            if (cell, kind) not in self.eff[p]:
                                self.eff[p][cell, kind] = via
                                ch = True
            if not ch:
                break

    def touched(self, p, t):
        """(cell, kind, how) borrowed by the call"""
        bd = self.body[p]
        k = borrow_kind(t)
        if k and t["a"]:
            a = bd.operand(t["a"][0])
            if a:
                yield a, k, ()
        for g in targets(self.prog, t["f"]) if t["f"].get("k") == "fn" else ():
            for (cell, kind), via in list(self.eff.get(g, {}).items()):
                i = cell[0] - 1
                if i < len(t["a"]):
                    a = bd.operand(t["a"][i])
                    if a:
                        yield (a[0], a[1] + cell[1]), kind, (g,) + via[:4]
        for a in t["a"]:
            for o in ("c", "m"):
                if isinstance(a, dict) and o in a and not a[o]["p"]:
                    l = a[o]["l"]
                    c = self.closure(p, l)
                    if c is None:
                        continue
                    cp, v = c
                    for (cell, kind), via in list(self.eff.get(cp, {}).items()):
                        if cell[0] == 1 and cell[1]:
                            i = cell[1][0].rsplit(".", 1)[-1]
                            ops = v.get("ops") or v.get("a") or v.get("f") or []
                            if i.isdigit() and int(i) < len(ops):
                                x = bd.operand(ops[int(i)])
                                if x:
                                    yield (x[0], x[1] + cell[1][1:]), kind, (cp,) + via[:4]

    def closure(self, p, l, depth=0):
        if (p, l) in self.clos:
            return self.clos[p, l]
        d = self.body[p].defs.get(l, [])
        if len(d) == 1 and depth < 4 and d[0].get("r") in ("use", "ref"):
            pl = d[0].get("p") or d[0]["o"].get("m") or d[0]["o"].get("c")
            if pl and not pl["p"]:
                return self.closure(p, pl["l"], depth + 1)
        return None

    def conflicts(self, p):
        """(cell, position of the first borrow, position of the second, how)"""
        bd = self.body[p]
        blocks = bd.b["blocks"]
        for i, b in enumerate(blocks):
            t = b["t"]
            if b.get("cl") or t.get("t") != "call" or t["to"] is None:
                continue
            k = borrow_kind(t)
            if k is None or "Ref" not in t["d"]["t"] or not t["a"]:
                continue
            cell = bd.operand(t["a"][0])
            if cell is None:
                continue
            seen = set()
            work = [(t["to"], frozenset([t["d"]["l"]]))]
            while work:
                j, hold = work.pop()
                if (j, hold) in seen or not hold:
                    continue
                seen.add((j, hold))
                bb = blocks[j]
                for s in bb["s"]:
                    v = s.get("v")
                    if s.get("s") == "=" and isinstance(v, dict):
                        for l in moved(v):
                            if l in hold:
                                hold = hold - {l} | ({s["p"]["l"]} if guard(bd, s["p"]["l"]) else set())
                    elif s.get("s") in ("dead", "storagedead") and s.get("l") in hold:
                        hold = hold - {s["l"]}
                if not hold:
                    continue
                t2 = bb["t"]
                if t2["t"] == "call":
                    mv = {l for a in t2["a"] for l in moved(a)} & hold
                    for c2, k2, via in self.touched(p, t2):
                        if c2 == cell and (k == "mut" or k2 == "mut"):
                            yield cell, t.get("sp"), t2.get("sp"), via, k, k2
                    if mv:
                        hold = hold - mv | ({t2["d"]["l"]} if guard(bd, t2["d"]["l"]) else set())
                    if t2["to"] is not None:
                        work.append((t2["to"], hold))
                elif t2["t"] == "drop":
                    pl = t2.get("p") or t2.get("o") or {}
                    if pl.get("l") in hold and not pl.get("p"):
                        hold = hold - {pl["l"]}
                    work.append((t2["to"], hold))
                elif t2["t"] == "switch":
                    for a in t2["arms"]:
                        work.append((a[1], hold))
                    if t2.get("else") is not None:
                        work.append((t2["else"], hold))
                elif t2.get("to") is not None:
                    work.append((t2["to"], hold))


def guard(bd, l):
    return re.search(r"cell::Ref(Mut)?<", bd.b["locals"][l]["t"]) is not None


def moved(v):
    if isinstance(v, dict):
        if "m" in v and isinstance(v["m"], dict) and "l" in v["m"]:
            if not v["m"]["p"]:
                yield v["m"]["l"]
            return
        for x in v.values():
            yield from moved(x)
    elif isinstance(v, list):
        for x in v:
            yield from moved(x)
