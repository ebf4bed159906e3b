"""Shared pieces of the property definitions: well-known types, roles of functions, derived queries."""
import re
from mir import shortname, strip_ty, norm_path
from vf import VF, Budget, show, TRUE, FALSE, OPT, RES, NONE, some, ok, err, call
from norm import mkeq, Norm, fold_loops, subterms, subst, NA, EMPTY, TEXT, PAT, contains_term
from spec import Checker, Env, Infeasible, fork
from report import Report

NCL = "relaxng_model::model::NameClass"
MPAT = "relaxng_model::model::Pattern"
QN = "relaxng_validator::QualifiedName::QualifiedName"
ATTR = "relaxng_validator::Attr::Attr"
TOK = "xmlparser::Token"
EEND = "xmlparser::ElementEnd"
VERR = "relaxng_validator::ValidatorError"
VAL = "relaxng_validator::Validator::Validator"
WS = frozenset(("char", c) for c in (0x20, 9, 10, 13))


def fld(t, adt, var, name):
    return ("fld", t, adt + "::" + var, str(name))


def p0(t, var):
    return fld(t, PAT, var, 0)


def p1(t, var):
    return fld(t, PAT, var, 1)


class Roles:
    """the functions a rule is about: found by name, else by being the only function of that signature"""

    def __init__(self, prog, rep, crate):
        self.prog, self.rep, self.crate = prog, rep, crate
        self.m = {}

    def get(self, role, short=None, sig=None, optional=False):
        fn = self.prog.find(short or role, self.crate)
        if fn is None:
            last = (short or role).rsplit("::", 1)[-1]
            c = [f for f in self.prog.fns.values() if f.crate == self.crate and f.name == last
                 and "{closure" not in f.path and not f.trait]
            if len(c) == 1:
                fn = c[0]
        if fn is None and sig is not None:
            c = [f for f in self.prog.fns.values() if f.crate == self.crate and "{closure" not in f.path
                 and f not in self.m.values() and [strip_ty(t) for t in f.argtypes()] == sig]
            if len(c) == 1:
                fn = c[0]
        if fn is None:
            if not optional:
                self.rep.bad("anchor:" + (short or role), "the function '%s' this rule decides is no longer there" % (short or role))
            return None
        self.m[role] = fn
        self.rep.functions.add(fn.path)
        return fn

    def name(self, role):
        return shortname(self.m[role].path)

    def __getitem__(self, role):
        return self.m[role]

    def __contains__(self, role):
        return role in self.m

    def paths(self):
        return {f.path for f in self.m.values()}


def kindof(ty):
    t = strip_ty(ty)
    if t.endswith("Schema"):
        return "schema"
    if t in ("Pat", "PatId"):
        return "pat"
    if t == "str":
        return "text"
    if t.startswith("QualifiedName"):
        return "name"
    if t.startswith("Attr"):
        return "att"
    if "HashMap<PatId, PatId>" in t:
        return "memo"
    if re.fullmatch(r"[A-Z]\w{0,2}|impl .*", t):
        return "f"
    if t.endswith("NameClass"):
        return "nc"
    if t.startswith("Validator"):
        return "self"
    return t


class Sig:
    """positional arguments of a role, by kind"""

    def __init__(self, fn):
        self.fn = fn
        self.names = fn.argnames()
        self.kinds = [kindof(t) for t in fn.argtypes()]
        self.dup = len(set(self.kinds)) != len(self.kinds)

    def arg(self, kind):
        if self.kinds.count(kind) != 1:
            return None
        return ("arg", self.names[self.kinds.index(kind)])

    def call(self, **kw):
        """the call term of this role with the given values per kind"""
        out = []
        for k, n in zip(self.kinds, self.names):
            if k in ("schema", "memo", "self"):
                continue
            out.append(kw.get(k, ("arg", n)))
        return ("call", shortname(self.fn.path), tuple(out))


def statef_validator(owner, name):
    return owner.endswith("Validator::Validator") and name == "schema"


def callees(prog, fn):
    """paths of the workspace functions called (or closures created) in fn"""
    out = set()
    for b in fn.body["blocks"]:
        t = b["t"]
        if t.get("t") == "call":
            f = t["f"]
            if f.get("k") == "fn":
                for x in (f.get("r"), f.get("path")):
                    if x and norm_path(x) in prog.fns:
                        out.add(norm_path(x))
                        break
        for s in b["s"]:
            v = s.get("v")
            if isinstance(v, dict) and v.get("path") and norm_path(v["path"]) in prog.fns:
                out.add(norm_path(v["path"]))
            if isinstance(v, dict) and v.get("r") == "agg" and v["k"][0] == "closure" and norm_path(v["k"][1]) in prog.fns:
                out.add(norm_path(v["k"][1]))
    return out


def builds(fn, adt):
    """(variant, span) of every aggregate of the given enum built in fn"""
    for b in fn.body["blocks"]:
        if b.get("cl"):
            continue
        for s in b["s"]:
            v = s.get("v")
            if isinstance(v, dict) and v.get("r") == "agg" and v["k"][0] == "adt" and norm_path(v["k"][1]) == adt:
                yield v["k"][2], s.get("sp")


def is_derived(prog, fn):
    return fn.path.startswith(fn.crate + "!<") and re.search(r"as std::(clone|cmp|fmt|hash|default|marker)", fn.path) is not None


def callers_of(prog, path):
    return [f for f in prog.fns.values() if path in callees(prog, f)]


def only_called_from(prog, fn, path, depth=3):
    """fn is a helper of (only) the function at path"""
    cs = callers_of(prog, fn.path)
    return bool(cs) and depth > 0 and all(c.path == path or only_called_from(prog, c, path, depth - 1) for c in cs)
