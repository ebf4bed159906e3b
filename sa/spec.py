"""Reference summaries: for every partition of a function's value-flow summary, the value the function
produces must equal - modulo the algebra in norm.py - the value a reference definition gives for the same
case.  The reference is written as a function over an environment which answers 'which variant is this?' /
'does this hold?'; questions the partition leaves open are answered both ways."""
from norm import Norm, fold_loops, subterms, subst, NA
from vf import VF, Budget, show, TRUE, FALSE, OPT, RES, NONE, some, ok, err
from mir import shortname
import re


class Infeasible(Exception):
    pass


class Skip(Exception):
    """the reference does not constrain this case"""


class Env:
    def __init__(self, prog, norm, prefix):
        self.prog = prog
        self.N = norm
        self.prefix = prefix
        self.trace = []
        self.asked = []
        self.trusted = set()
        self.auto = False          # while the reference asks: what it asks about is known

    def trust(self, t):
        """a term whose meaning the reference definition knows, although it is outside the general vocabulary"""
        t = self.N.n(t)
        self.trusted.add(t)
        return t

    def decide(self, options):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((len(options), c))
        return options[c]

    def n(self, t):
        return self.N.n(t)

    def variant(self, t, adt):
        t = self.N.n(t)
        if self.auto:
            self.trusted.add(t)
        if t[0] == "adt":
            return t[2]
        allv = [n for n, _ in self.prog.variants(adt)]
        cur = self.N.vfacts.get(t)
        opts = [v for v in allv if cur is None or v in cur]
        if not opts:
            raise Infeasible()
        v = opts[0] if len(opts) == 1 else self.decide(opts)
        self.N.vfacts[t] = frozenset([v])
        self.N.cache = {}
        self.asked.append((t, v))
        return v

    def true(self, c):
        c = self.N.n(c)
        if self.auto:
            self.trusted.add(c)
        k = c[0]
        if k == "bool":
            return c[1]
        if k == "not":
            return not self.true(c[1])
        if k == "and":
            return all(self.true(x) for x in c[1:])
        if k == "or":
            return any(self.true(x) for x in c[1:])
        if k == "isv":
            allv = frozenset(n for n, _ in self.prog.variants(c[2]))
            cur = self.N.vfacts.get(c[1], allv)
            yes, no = cur & c[3], cur - c[3]
            if not yes:
                return False
            if not no:
                return True
            r = self.decide([True, False])
            self.N.vfacts[c[1]] = yes if r else no
            self.N.cache = {}
            self.asked.append((c, r))
            return r
        r = self.decide([True, False])
        self.N.bfacts[c] = r
        self.N.cache = {}
        self.asked.append((c, r))
        return r


def fork(prog, norm, body):
    """run body(env) for every way of answering its questions; yields (env, result)"""
    pending = [[]]
    count = 0
    while pending:
        prefix = pending.pop()
        count += 1
        if count > 4000:
            raise Budget("too many cases")
        env = Env(prog, norm.copy(), prefix)
        res = None
        bad = False
        try:
            res = body(env)
        except Infeasible:
            bad = True
        for i in range(len(prefix), len(env.trace)):
            n, c = env.trace[i]
            for alt in range(1, n):
                pending.append([x for _, x in env.trace[:i]] + [alt])
        if bad or not env.N.consistent():
            continue
        yield env, res


UNKNOWN_HEADS = frozenset(["loop", "top", "agg", "undef", "bot", "cast", "un", "sub", "const", "static", "lamp", "upd", "with",
                           "ptr", "entry", "fold", "accv", "itv"])


# library functions whose value is what their name says, and not another spelling of something else
KNOWN_STD = re.compile(r"^(core::str::|std::string::String::)(starts_with|ends_with|eq_ignore_ascii_case|contains|trim\w*|to_\w+case|strip_prefix|"
                       r"strip_suffix|split(?!_at)\w*|chars|char_indices|lines|find|rfind|rsplit\w*)$"
                       r"|^core::slice::(first|last|first_mut|last_mut|get|get_mut)$|^core::char::\w+$|^std::iter::Iterator::next$|^core::num::\w+$")


class Result:
    def __init__(self):
        self.discharged = 0
        self.violations = []
        self.inconclusive = []
        self.cases = 0


class LamPart:
    """one case of a lambda, in the shape of a summary partition"""

    def __init__(self, x):
        self.facts = dict(x[0])
        self.kind = x[1]
        self.val = x[2]
        self.events = []
        self.heap = {}
        self.loops = {}


class NoUnroll(Exception):
    pass


SEQOPS = frozenset(["rev", "iter:enumerate", "iter:map", "iter:skip", "iter:take", "iter:chain"])


class Unroll:
    """evaluates folds over a sequence of given length, element by element: two summaries of a loop which differ for some
    short sequence differ."""

    def __init__(self, leaf, n):
        self.leaf, self.n_ = leaf, n

    @staticmethod
    def leaves(t):
        out = set()

        def base(s):
            if s[0] == "rest":
                return base(s[1])
            if s[0] == "call" and s[1] in SEQOPS:
                for x in s[2][:2 if s[1] == "iter:chain" else 1]:
                    base(x)
                return
            if s[0] == "call" and s[1] == "from":
                # a node and what follows it: part of the children of its parent
                o = s[2][0]
                while o[0] == "call" and o[1] == "sib" and o[2][0][0] == "fld":
                    o = o[2][0][1]
                s = ("call", "from", (o,))
            if s[0] not in ("loop",):
                out.add(s)
        for x in subterms(t):
            if x[0] == "fold":
                base(x[1])
            elif x[0] == "big":
                base(x[2])
            elif x[0] in ("first", "more", "rest") and len(x) == 2:
                base(x[1])
        return out

    def app(self, f, e):
        if f[0] == "lam" and f[2] == 1 and len(f[3]) == 1 and not f[3][0][0] and f[3][0][1] == "ret":
            return subst(f[3][0][2], {("lv", 0, 0): e})
        if f[0] == "ctor":
            return ("adt", f[1], f[2], (("0", e),))
        if f[0] == "fn":
            return e if f[1] == "identity" else ("call", f[1], (e,))
        raise NoUnroll()

    def seq(self, s):
        if s == self.leaf:
            return [("elem", s, ("int", i)) for i in range(self.n_)]
        if s[0] == "rest":
            return self.seq(s[1])[1:]
        if s[0] == "call":
            a = s[2]
            if s[1] == "from" and a[0][0] == "adt":
                if a[0][2] == "None":
                    return []
                e = dict(a[0][3])["0"]
                if e[0] == "elem" and e[1] == self.leaf and e[2][0] == "int":
                    return self.seq(self.leaf)[e[2][1]:]
            if s[1] == "rev":
                return self.seq(a[0])[::-1]
            if s[1] == "iter:enumerate":
                return [("tup", (("int", i), e)) for i, e in enumerate(self.seq(a[0]))]
            if s[1] == "iter:map":
                return [self.app(a[1], e) for e in self.seq(a[0])]
            if s[1] == "iter:chain":
                return self.seq(a[0]) + self.seq(a[1])
            if s[1] in ("iter:skip", "iter:take") and a[1][0] == "int":
                q = self.seq(a[0])
                return q[a[1][1]:] if s[1] == "iter:skip" else q[:a[1][1]]
        raise NoUnroll()

    def step(self, ite, m, N):
        """the way the body of a loop takes; where that is open, one it can take is assumed"""
        maybe = []
        for conds, val in ite[1]:
            todo, ok = [], True
            for (k, c), want in conds:
                x = N.n(self.ev(subst(c, m), N))
                if k == "b":
                    if x[0] == "bool":
                        ok = ok and x[1] == want
                    else:
                        todo.append((k, x, want))
                elif k == "v":
                    if x[0] == "adt":
                        ok = ok and x[2] in want
                    else:
                        todo.append((k, x, want))
                else:
                    raise NoUnroll()
                if not ok:
                    break
            if ok and not todo:
                return val
            if ok:
                maybe.append((todo, val))
        for todo, val in maybe:
            M = N.copy()
            M.cache = {}
            more = {(k, x): w for k, x, w in todo}
            if M.add_facts(more) is not False and M.consistent():
                N.add_facts(more)
                N.cache = {}
                return val
        raise NoUnroll()

    def ev(self, t, N):
        if not isinstance(t, tuple):
            return t
        k = t[0] if t else None
        if self.leaf[:2] == ("call", "from"):
            if k == "elem" and t[1] == self.leaf:
                return t
            nxt = None
            if t == self.leaf[2][0]:
                nxt = 0
            elif k == "call" and t[1] == "sib":
                x = N.n(self.ev(t[2][0], N))
                if x[0] == "elem" and x[1] == self.leaf and x[2][0] == "int":
                    nxt = x[2][1] + 1
                else:
                    return ("call", "sib", (x,))
            if nxt is not None:
                return ("adt", "std::option::Option", "Some", (("0", self.seq(self.leaf)[nxt]),)) if nxt < self.n_ else \
                    ("adt", "std::option::Option", "None", ())
        if k == "fold":
            acc, it = ("accv", t[4]), ("itv", t[4])
            a = self.ev(t[2], N)
            src = t[1]
            if src != self.leaf and src[:2] == ("call", "from"):
                src = ("call", "from", (N.n(self.ev(src[2][0], N)),))
            for e in self.seq(src):
                m = {acc: a, it: e}
                body = self.step(t[3], m, N) if t[3][0] == "ite" else t[3]
                a = N.n(self.ev(subst(body, m), N))
            return a
        if k == "big":
            xs = tuple(self.ev(subst(t[3], {("bv",): e}), N) for e in self.seq(t[2]))
            return (t[1],) + xs
        if k == "first" and len(t) == 2:
            q = self.seq(t[1])
            return q[0] if q else ("undef",)
        if k == "more" and len(t) == 2 and t[1][0] != "loop":
            return ("bool", bool(self.seq(t[1])))
        if k == "call" and t[1] == "len" and len(t[2]) == 1 and self.leaf in (t[2][0],):
            return ("int", self.n_)
        return tuple(self.ev(x, N) if isinstance(x, tuple) else frozenset(self.ev(y, N) for y in x) if isinstance(x, frozenset) else x
                     for x in t)


class Checker:
    def __init__(self, prog, vf, extra=None, statef=None, vocab=(), tolerant=()):
        self.prog = prog
        self.vf = vf
        self.extra = extra or {}
        self.statef = statef
        self.vocab = set(vocab)
        self.tolerant = tuple(tolerant)

    def norm(self, fn=None, folds=None):
        types = dict(zip(fn.argnames(), fn.argtypes())) if fn is not None else {}
        return Norm(self.prog, None, extra=self.extra, folds=folds, statef=self.statef, types=types)

    def known_call(self, name):
        if name in self.vocab or name.rsplit("::", 1)[-1] in self.vocab:
            return True
        # opaque local functions
        if any(n == name for n in self.prog.short):
            return True
        return name.startswith(("iter:", "map:", "len", "display", "rev")) or KNOWN_STD.match(name) is not None

    def unknown(self, t, trusted=(), lenient=False):
        if not isinstance(t, (tuple, frozenset)) or t in trusted:
            return None
        if isinstance(t, tuple) and t and isinstance(t[0], str):
            if t[0] in UNKNOWN_HEADS and not (lenient and t[0] == "upd"):
                return t
            if lenient and t[0] == "call" and any(n == t[1] for n in self.prog.short):
                return None        # how a call came out, whatever it was given
            if t[0] == "call" and t[1].endswith("Iterator::next"):
                return None        # the next element, wherever it comes from
            if t[0] == "call" and not self.known_call(t[1]) and not (
                    t[1].endswith("str::get") and len(t[2]) == 2 and t[2][1][0] == "adt" and t[2][1][1].endswith("RangeTo")):
                return t
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                r = self.unknown(x, trusted, lenient)
                if r is not None:
                    return r
        return None

    def check(self, fn, spec, args=None, facts=None, pre=None, name=None, post=None):
        """spec(env, A) -> ('ret', term) | ('panic',) | ('any',) | ('bool', term)"""
        R = Result()
        label = name or shortname(fn.path)
        try:
            parts = self.vf.summarize(fn, args, facts)
        except Budget as e:
            R.inconclusive.append("%s: %s" % (label, e))
            return R
        return self.check_parts(fn, parts, spec, label=label, pre=pre)

    def check_lam(self, fn, lam, spec, label=None):
        """the same for the cases of a normalised lambda"""
        parts = [LamPart(x) for x in lam[3]]
        return self.check_parts(fn, parts, spec, label=label or "%s (closure)" % shortname(fn.path))

    def check_parts(self, fn, parts, spec, label=None, pre=None, R=None, kinds=("ret", "panic", "exit"), folds=True):
        R = R or Result()
        label = label or shortname(fn.path)
        folds = fold_loops([p for p in parts if not isinstance(p, LamPart)]) if folds else None
        for p in parts:
            if p.kind not in kinds:
                continue
            N = self.norm(fn, folds)
            if not N.add_facts(p.facts):
                continue
            if pre and not pre(N, p):
                continue

            def body(env):
                env.auto = True
                exp = spec(env, p)
                env.auto = False
                if exp is None or exp[0] == "any":
                    return None
                if exp[0] == "panic":
                    return None if p.kind == "panic" else ("kind", "panic", p.kind)
                if p.kind not in ("ret", "back"):
                    return ("kind", "ret", p.kind, show(p.val))
                if exp[0] == "bool":
                    env.auto = True
                    b = env.true(exp[1])
                    env.auto = False
                    a = env.true(p.val)
                    return None if a == b else ("bool", a, b, p.val)
                a = env.n(p.val)
                if exp[0] == "pred":
                    r = exp[1](env, a)
                    return None if r is None else ("pred", a, r)
                b = env.n(exp[1])
                if a == b:
                    return None
                return ("val", a, b)
            try:
                for env, res in fork(self.prog, N, body):
                    R.cases += 1
                    if res is None:
                        R.discharged += 1
                        continue
                    cond = self.cond(env)
                    unk = None
                    if res[0] == "val":
                        unk = self.unknown(res[1], env.trusted)
                        if unk is not None and (unk[0] in ("fold", "accv", "itv") or any(x[0] == "fold" for x in subterms(res[1]))):
                            w = self.unroll(env, p, res[1], res[2])
                            if w is not None:
                                R.violations.append((fn.path, "%s at %s: when %s, for %d members: yields %s where the definition gives %s" % (
                                    label, self.prog.pos(fn.sp), cond or "called", w[0], show(w[1]), show(w[2]))))
                                continue
                        msg = "yields %s where the definition gives %s" % (show(res[1]), show(res[2]))
                    elif res[0] == "bool":
                        unk = self.unknown(self.norm(fn, folds).n(res[3]), env.trusted)
                        msg = "answers %s where the definition gives %s" % (res[1], res[2])
                    elif res[0] == "pred":
                        unk = None if res[2].startswith("!") else \
                            res[1] if res[2].startswith("~") else self.unknown(res[1], env.trusted)
                        msg = "yields %s: %s" % (show(res[1]), res[2].lstrip("!~"))
                    else:
                        msg = "ends in %s%s where the definition gives a result of kind %s" % (
                            res[2], " (%s)" % res[3] if len(res) > 3 else "", res[1])
                    if unk is None and not (res[0] == "pred" and res[2].startswith("!!")):
                        for a in p.facts:
                            if a[1][0] == "more" or a[1] == ("not", ("more",)):
                                continue       # how often a loop has gone round
                            unk = self.unknown(env.n(a[1]), env.trusted, res[0] == "pred" and res[2].startswith("!"))
                            if unk is not None:
                                break
                    txt = "%s at %s: when %s: %s" % (label, self.prog.pos(fn.sp), cond or "called", msg)
                    if unk is not None:
                        R.inconclusive.append(txt + " [outside the analysed vocabulary: %s]" % show(unk))
                    else:
                        R.violations.append((fn.path, txt))
            except Budget as e:
                R.inconclusive.append("%s: %s" % (label, e))
        return R

    def unroll(self, env, p, a, b, upto=6):
        """a length of the sequence for which the two results differ, or None"""
        try:
            lv = Unroll.leaves((a, b))
            if len(lv) != 1:
                return None
            leaf = next(iter(lv))
            for n in range(upto + 1):
                U = Unroll(leaf, n)
                N = env.N.copy()
                N.bfacts = {}
                N.cache = {}
                ok = True
                known = []
                for c, vs in env.N.vfacts.items():
                    x = N.n(U.ev(c, N))
                    if x[0] == "adt":
                        ok = ok and x[2] in vs
                if not ok:
                    continue
                for c, val in env.N.bfacts.items():
                    if c[0] == "more" and c[1][0] == "loop":
                        continue
                    if c[0] == "more" and not val and any(x[0] == "loop" for x in subterms(c)):
                        continue
                    x = N.n(U.ev(c, N))
                    if x[0] == "bool":
                        ok = ok and x[1] == val
                    else:
                        known.append((x, val))
                if not ok:
                    continue
                for x, val in known:
                    ok = ok and N.setb(x, val)
                if not ok or not N.consistent():
                    continue
                N.cache = {}
                for _ in range(2):
                    # again, with what the first time assumed
                    x, y = N.n(U.ev(a, N)), N.n(U.ev(b, N))
                    N.cache = {}
                if x != y:
                    if self.unknown(x, env.trusted) is None and self.unknown(y, env.trusted) is None:
                        return n, x, y
                    return None
        except NoUnroll:
            pass
        return None

    def cond(self, env):
        out = []
        for t, vs in env.N.vfacts.items():
            out.append("%s is %s" % (show(t), "|".join(sorted(vs)) if len(vs) < 6 else "one of %d variants" % len(vs)))
        for t, b in env.N.bfacts.items():
            out.append("%s%s" % ("" if b else "not ", show(t)))
        return ", ".join(out)
