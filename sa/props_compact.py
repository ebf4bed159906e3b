"""The compact syntax: what every parser function reads, extracted from its code, against a reference grammar written from the
RELAX NG compact syntax specification, and the syntax tree each way through it yields."""
from peg import *  # noqa
from vf import VF

CRATE = "relaxng_syntax"
MOD = "relaxng_syntax::compact"
T = "relaxng_syntax::types::"
ANY = ("any",)
OPTION = "std::option::Option"

NAME_START = ranges((65, 90), (95, 95), (97, 122), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF), (0x200C, 0x200D),
                    (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF))
NAME_CHAR = ranges(*(NAME_START + ((45, 45), (46, 46), (48, 57), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040))))
KEYWORDS = ["attribute", "default", "datatypes", "div", "element", "empty", "external", "grammar", "include", "inherit", "list", "mixed",
            "namespace", "notAllowed", "parent", "start", "string", "text", "token"]


def adt(name, var=None, /, *pos, **named):
    fs = tuple((str(i), x) for i, x in enumerate(pos)) or tuple(named.items())
    return ("adt", name if "::" in name else T + name, var or name, fs)


def some(v):
    return adt(OPTION, "Some", v)


NONE = ("adt", OPTION, "None", ())


class Grammar:
    """the reference, in the form of peg.Builder's nodes"""

    def __init__(self, b):
        self.b = b
        self.inline = set()

    # ---- notation
    def L(self, s):
        return self.b.leaf("lit", s)

    def C(self, rs):
        return self.b.leaf("cls", rs, "char")

    def S(self, *nodes, val=None):
        n = self.b.seq(list(nodes))
        if val is None:
            return n

        def f(v):
            r = val(*v[1])
            return r if isinstance(r, list) else [({}, self.b.simp(r))]
        return self.b.valued(n, f)

    def M(self, node, f):
        return self.b.valued(node, lambda v: [({}, f(v))])

    def A(self, *nodes):
        return self.b.alt(list(nodes))

    def O(self, node):
        return self.b.opt(node)

    def R(self, node, sep=None, mn=0):
        return self.b.rep(node, sep, mn)

    def text(self, node):
        return self.b.text(node)

    def no(self, node):
        return Node([Item("look", self.b.uid(), [node.items, False])], [({}, {}, ("tup", ()))])

    def must(self, node):
        for i in node.items:
            i.cut = True
        return node

    def here(self):
        m = self.b.mark()
        return Node([m], [({}, {}, ("sl", m.uid, m.uid))])

    def N(self, name, *args):
        if name in self.inline:
            return getattr(self, name)(*args)
        it = Item("nt", self.b.uid(), (name, args))
        m1, m2 = self.b.mark(), self.b.mark()
        return Node([m1, it, m2], [({}, {}, ("val", it.uid, m1.uid, m2.uid))])

    def ws(self):
        return self.N("space_comment0")

    def kw(self, s):
        return self.S(self.L(s), self.no(self.N("nc_name_char")), val=lambda a, b: a)

    @staticmethod
    def span(a, b, after=False):
        """from the beginning of one slice to the beginning (or the end) of another"""
        return ("adt", "std::ops::Range", "Range", (("start", ("pos", a[1])), ("end", ("pos", b[2] if after else b[1]))))

    def braced(self, node, must=False):
        """{ node } and what it yields"""
        close = self.L("}")
        return self.S(self.ws(), self.L("{"), self.ws(), node, self.ws(), self.must(close), val=lambda a, b, c, v, d, e: v)

    def members(self, name, mn=0):
        return self.R(self.N(name), self.ws(), mn)

    # ---- tokens
    def space_comment0(self):
        comment = self.S(self.L("#"), self.O(self.b.run(negate(chars("\r\n")), 1)))
        return self.text(self.R(self.A(self.b.run(chars(" \t\r\n"), 1), comment)))

    def nc_name_char(self):
        return self.C(NAME_CHAR)

    def nc_name(self):
        a = self.here()
        t = self.text(self.S(self.C(NAME_START), self.R(self.N("nc_name_char"))))
        return self.S(a, t, self.here(), val=lambda a, t, b: adt("NcName", None, self.span(a, b), ("text",) + t[1:]))

    def keyword(self):
        w = self.A(*(self.L(k) for k in KEYWORDS))
        return self.S(w, self.here(), self.no(self.N("nc_name_char")), val=lambda k, e, n: adt("Keyword", None, self.span(k, e), ("text",) + k[1:]))

    def identifier(self):
        def made(v, e):
            return adt("Identifier", None, self.span(v, e), ("text",) + v[1:])
        return self.A(self.S(self.L("\\"), self.text(self.N("nc_name")), self.here(), val=lambda b, v, e: made(v, e)),
                      self.S(self.text(self.S(self.no(self.N("keyword")), self.N("nc_name"))), self.here(), val=made))

    def identifier_or_keyword(self):
        return self.A(self.M(self.N("identifier"), lambda v: adt("IdentifierOrKeyword", "Identifier", v)),
                      self.M(self.N("keyword"), lambda v: adt("IdentifierOrKeyword", "Keyword", v)))

    def cname(self):
        return self.S(self.N("nc_name"), self.L(":"), self.N("nc_name"), val=lambda p, c, l: adt("QName", None, p, l))

    def literal(self):
        return self.S(self.here(), self.R(self.N("literal_segment"), self.S(self.ws(), self.L("~"), self.ws()), 1), self.here(),
                      val=lambda a, v, b: adt("Literal", None, self.span(a, b), v))

    def literal_segment(self):
        def seg(q, body):
            return self.S(self.L(q), body, self.L(q), val=lambda a, v, b: adt("LiteralSegment", None, body=("line feeds", len(q) > 1, ("text",) + v[1:])))
        return self.A(seg('"""', self.b.leaf("until", '"""')), seg("'''", self.b.leaf("until", "'''")),
                      *(seg(q, self.text(self.O(self.b.run(negate(chars(q + "\r\n")), 1)))) for q in "\"'"))

    # ---- declarations
    def schema(self):
        decls = self.R(self.N("decl"), self.ws())
        grammar = self.M(self.members("grammar_content", 1),
                         lambda c: adt("PatternOrGrammar", "Grammar", adt("GrammarPattern", None, span=ANY, content=c)))
        body = self.A(grammar, self.M(self.N("pattern"), lambda p: adt("PatternOrGrammar", "Pattern", p)))
        eof = Node([Item("eof", self.b.uid())], [({}, {}, ("tup", ()))])
        return self.S(self.ws(), decls, self.ws(), body, self.ws(), eof,
                      val=lambda a, d, b, p, c, e: adt("Schema", None, decls=d, pattern_or_grammar=p))

    def prefix(self, v):
        return ("call", "display", (v,))

    def decl(self):
        ns = self.S(self.kw("namespace"), self.ws(), self.N("identifier_or_keyword"), self.ws(), self.L("="), self.ws(), self.N("namespace_uri_literal"),
                    val=lambda k, a, p, b, e, c, u: adt("Decl", "Namespace", adt("NamespaceDeclaration", None, prefix=self.prefix(p), uri=u)))

        def dflt(k, a, n, b, p, c, e, d, u):
            pre = some(self.prefix(p[3][0][1])) if p[2] == "Some" else NONE
            return adt("Decl", "DefaultNamespace", adt("DefaultNamespaceDeclaration", None, prefix=pre, uri=u))
        de = self.S(self.kw("default"), self.ws(), self.kw("namespace"), self.ws(), self.O(self.N("identifier_or_keyword")), self.ws(),
                    self.L("="), self.ws(), self.N("namespace_uri_literal"), val=dflt)
        dt = self.S(self.kw("datatypes"), self.ws(), self.N("identifier_or_keyword"), self.ws(), self.L("="), self.ws(), self.N("literal"),
                    val=lambda k, a, p, b, e, c, u: adt("Decl", "Datatypes", adt("DatatypesDeclaration", None, prefix=self.prefix(p), uri=u)))
        return self.A(ns, de, dt)

    def namespace_uri_literal(self):
        return self.A(self.S(self.kw("inherit"), val=lambda k: adt("NamespaceUriLiteral", "Inherit")),
                      self.M(self.N("literal"), lambda v: adt("NamespaceUriLiteral", "Uri", v)))

    # ---- patterns
    def annotations(self):
        return self.O(self.S(self.N("initial_annotation"), self.ws(), val=lambda a, w: a))

    def follow(self):
        return self.R(self.S(self.ws(), self.L(">>"), self.ws(), self.N("annotation_element"), val=lambda a, b, c, v: v))

    def pattern(self):
        def connected(sym, var):
            pair = ("ctor", T + "Pattern", var)
            return self.S(self.L(sym), self.ws(), self.N("joined_particles", ("str", sym), pair), val=lambda t, a, v: ("tup", (("str", var), v)))

        def joined(first, rest):
            if rest[2] == "None":
                return first
            var, v = rest[3][0][1][1]
            return adt("Pattern", var[1], first, v)
        rest = self.S(self.ws(), self.A(connected(",", "ListPair"), connected("&", "InterleavePair"), connected("|", "ChoicePair")), val=lambda w, v: v)
        particles = self.S(self.N("particle"), self.O(rest), val=joined)
        exc = self.S(self.annotations(), self.N("datatype_param_pattern"), self.ws(), self.L("-"), self.ws(), self.N("primary_pattern"), self.follow(),
                     val=lambda a, d, b, t, c, p, f: adt("Pattern", "DatatypeName", adt("DatatypeNamePattern", None, d[3][0][1], d[3][1][1], some(p))))
        return self.A(exc, particles)

    def joined_particles(self, sym, pair):
        rest = self.S(self.ws(), self.L(sym[1]), self.ws(), self.N("joined_particles", sym, pair), val=lambda a, t, b, v: v)

        def made(l, r):
            return l if r[2] == "None" else ("adt", pair[1], pair[2], (("0", l), ("1", r[3][0][1])))
        return self.S(self.must(self.N("particle")), self.O(rest), val=made)

    def particle(self):
        sym = {"?": "Optional", "*": "ZeroOrMore", "+": "OneOrMore"}
        rep = self.S(self.ws(), self.A(*(self.M(self.L(s), lambda v, k=k: ("str", k)) for s, k in sym.items())), self.follow(), val=lambda w, s, f: s)

        def made(p, f, r):
            return p if r[2] == "None" else adt("Pattern", r[3][0][1][1], p)
        return self.S(self.N("primary_pattern"), self.follow(), self.O(rep), val=made)

    def primary_pattern(self):
        P = lambda var, node: self.M(node, lambda v: adt("Pattern", var, v))

        def named(word):
            close = self.must(self.L("}"))
            name = word.capitalize() + "Pattern"
            return self.S(self.kw(word), self.ws(), self.N("name_class"), self.ws(), self.L("{"), self.ws(), self.must(self.N("pattern")), self.ws(),
                          close, self.here(),
                          val=lambda k, a, n, b, o, c, p, d, e, h: adt(name, None, span=self.span(k, h), name_class=n, pattern=p))

        def wrap(word):
            return self.S(self.L(word), self.braced(self.must(self.N("pattern"))), val=lambda k, p: adt(word.capitalize() + "Pattern", None, p))

        def word(w, var):
            return self.S(self.L(w), val=lambda v: adt("Pattern", var))
        parent = self.S(self.kw("parent"), self.ws(), self.N("identifier"), val=lambda k, w, v: v)
        ext = self.S(self.kw("external"), self.ws(), self.N("literal"), self.O(self.S(self.ws(), self.N("inherit"), val=lambda w, v: v)),
                     val=lambda k, w, u, i: adt("ExternalPattern", None, u, i))
        gram = self.S(self.L("grammar"), self.braced(self.members("grammar_content")), self.here(),
                      val=lambda k, c, h: adt("GrammarPattern", None, span=self.span(k, h), content=c))
        group = self.S(self.L("("), self.ws(), self.N("pattern"), self.ws(), self.L(")"), val=lambda a, b, p, c, d: p)
        value = self.S(self.O(self.N("datatype_name")), self.ws(), self.N("literal"), val=lambda n, w, v: adt("DatatypeValuePattern", None, n, v))
        return self.S(self.annotations(), self.A(
            P("Element", named("element")), P("Attribute", named("attribute")), P("List", wrap("list")), P("Mixed", wrap("mixed")),
            P("DatatypeValue", value), P("DatatypeName", self.N("datatype_param_pattern")), P("Identifier", self.N("identifier")),
            P("Parent", parent), word("empty", "Empty"), word("text", "Text"), word("notAllowed", "NotAllowed"), P("External", ext),
            P("Grammar", gram), P("Group", group)), val=lambda a, p: p)

    def datatype_name(self):
        def named(w, var):
            return self.S(self.kw(w), val=lambda v: adt("DatatypeName", var))
        return self.A(self.M(self.N("cname"), lambda v: adt("DatatypeName", "CName", v)), named("string", "String"), named("token", "Token"))

    def datatype_param_pattern(self):
        return self.S(self.N("datatype_name"), self.O(self.braced(self.members("param"))), val=lambda n, p: adt("DatatypeNamePattern", None, n, p, NONE))

    def param(self):
        return self.S(self.here(), self.annotations(), self.ws(), self.N("identifier_or_keyword"), self.ws(), self.L("="), self.ws(), self.N("literal"),
                      self.here(), val=lambda s, a, b, n, c, e, d, v, h: adt("Param", None, self.span(s, h), a, n, v))

    def inherit(self):
        return self.S(self.L("inherit"), self.ws(), self.L("="), self.ws(), self.N("identifier_or_keyword"), val=lambda k, a, e, b, v: adt("Inherit", None, v))

    # ---- name classes
    def name_class(self):
        exc = self.S(self.ws(), self.L("-"), self.ws(), self.N("simple_nc"), val=lambda a, t, b, v: v)
        ns = self.S(self.N("nc_name"), self.L(":*"), exc, val=lambda n, t, e: adt("NameClass", "NsName", adt(
            "NsName", None, name=adt("NamespaceOrPrefix", "Prefix", n), **{"except": some(e)})))
        anyn = self.S(self.L("*"), self.S(self.ws(), self.L("-"), self.ws(), self.N("simple_nc"), val=lambda a, t, b, v: v),
                      val=lambda t, e: adt("NameClass", "AnyName", adt("AnyName", None, some(e))))
        return self.A(self.S(self.annotations(), self.A(ns, anyn), self.follow(), val=lambda a, v, f: v), self.N("simple_nc_choice"))

    def simple_nc_choice(self):
        def made(l, f, r):
            return l if r[2] == "None" else adt("NameClass", "Alt", adt("AltName", None, l, r[3][0][1]))
        rest = self.S(self.ws(), self.L("|"), self.ws(), self.N("simple_nc_choice"), val=lambda a, t, b, v: v)
        return self.S(self.N("simple_nc"), self.follow(), self.O(rest), val=made)

    def simple_nc(self):
        P = lambda var, node: self.M(node, lambda v: adt("NameClass", var, v))
        ns = self.S(self.N("nc_name"), self.L(":*"), val=lambda n, t: adt("NsName", None, name=adt("NamespaceOrPrefix", "Prefix", n), **{"except": NONE}))
        paren = self.S(self.L("("), self.ws(), self.N("name_class"), self.ws(), self.L(")"), val=lambda a, b, v, c, d: adt("ParenName", None, v))
        return self.S(self.annotations(), self.A(
            P("NsName", ns), P("Name", self.N("name")), self.S(self.L("*"), val=lambda v: adt("NameClass", "AnyName", adt("AnyName", None, NONE))),
            P("Paren", paren)), val=lambda a, v: v)

    def name(self):
        return self.A(self.M(self.N("cname"), lambda v: adt("Name", "CName", v)), self.M(self.N("identifier_or_keyword"), lambda v: adt("Name", "Identifier", v)))

    # ---- grammars
    def assign_method(self):
        return self.A(*(self.S(self.L(s), val=lambda t, v=v: adt("AssignMethod", v)) for s, v in (("=", "Assign"), ("|=", "Choice"), ("&=", "Interleave"))))

    def start(self):
        return self.S(self.here(), self.L("start"), self.here(), self.ws(), self.N("assign_method"), self.ws(), self.must(self.N("pattern")), self.here(),
                      val=lambda s, t, h, a, m, b, p, e: adt("Define", None, self.span(s, e), adt("Identifier", None, self.span(t, h), ("str", "start")), m, p))

    def define(self):
        return self.S(self.here(), self.N("identifier"), self.ws(), self.N("assign_method"), self.ws(), self.must(self.N("pattern")), self.here(),
                      val=lambda s, i, a, m, b, p, e: adt("Define", None, self.span(s, e), i, m, p))

    def div(self, member):
        return self.S(self.L("div"), self.braced(self.members(member)), val=lambda k, c: c)

    def grammar_content(self):
        P = lambda var, node: self.M(node, lambda v: adt("GrammarContent", var, v))
        inc = self.S(self.kw("include"), self.ws(), self.N("literal"), self.O(self.S(self.ws(), self.N("inherit"), val=lambda w, v: v)),
                     self.O(self.braced(self.members("include_content"))), val=lambda k, w, u, i, c: adt("Include", None, u, i, c))
        return self.S(self.annotations(), self.A(
            P("Define", self.N("start")), P("Define", self.N("define")), P("Div", self.div("grammar_content")), P("Include", inc),
            P("Annotation", self.N("annotation_element"))), val=lambda a, v: v)

    def include_content(self):
        P = lambda var, node: self.M(node, lambda v: adt("IncludeContent", var, v))
        return self.S(self.annotations(), self.A(
            P("Annotation", self.N("annotation_element")), P("Define", self.N("define")), P("Define", self.N("start")),
            P("Div", self.div("include_content"))), val=lambda a, v: v)

    # ---- annotations
    def initial_annotation(self):
        return self.S(self.L("["), self.ws(), self.members("annotation_attribute"), self.ws(), self.members("annotation_element"), self.ws(), self.L("]"),
                      val=lambda o, a, at, b, el, c, e: adt("InitialAnnotation", None, span=self.span(o, e), attribute_annotations=at, element_annotations=el))

    def annotation_attribute(self):
        return self.S(self.N("name"), self.ws(), self.L("="), self.ws(), self.N("literal"),
                      val=lambda n, a, e, b, v: adt("AnnotationAttribute", None, span=ANY, name=n, value=v))

    def annotation_element(self):
        inner = self.A(self.M(self.N("annotation_element"), lambda v: adt("AnnotationElementOrLiteral", "Element", v)),
                       self.M(self.N("literal"), lambda v: adt("AnnotationElementOrLiteral", "Literal", v)))
        return self.S(self.N("name"), self.ws(), self.L("["), self.ws(), self.members("annotation_attribute"), self.ws(), self.R(inner, self.ws()), self.ws(),
                      self.L("]"), val=lambda n, a, o, b, at, c, ch, d, e: adt(
                          "AnnotationElement", None, span=ANY, name=n, annotation_attributes=at, annotation_elements_or_literals=ch))


# the reference's nonterminals, with the type of what each yields
NTS = {
    "space_comment0": None, "nc_name_char": "char", "nc_name": "NcName", "keyword": "Keyword", "identifier": "Identifier",
    "identifier_or_keyword": "IdentifierOrKeyword", "cname": "QName", "literal": "Literal", "literal_segment": "LiteralSegment", "decl": "Decl",
    "namespace_uri_literal": "NamespaceUriLiteral", "pattern": "Pattern", "joined_particles": None, "particle": None, "primary_pattern": None,
    "datatype_name": "DatatypeName", "datatype_param_pattern": "DatatypeNamePattern", "param": "Param", "inherit": "Inherit", "name_class": "NameClass",
    "simple_nc_choice": None, "simple_nc": None, "name": "Name", "assign_method": "AssignMethod", "start": None, "define": None,
    "grammar_content": "GrammarContent", "include_content": "IncludeContent", "initial_annotation": "InitialAnnotation",
    "annotation_attribute": "AnnotationAttribute", "annotation_element": "AnnotationElement",
}
# those without which the reference could not be written down
RECURSIVE = {"pattern", "joined_particles", "primary_pattern", "name_class", "simple_nc_choice", "simple_nc", "grammar_content", "include_content",
             "annotation_element"}
# always part of what uses them
ALWAYS = {"datatype_param_pattern"}
# a shortest of each which is not regular
SAMPLES = {"pattern": "x", "joined_particles": "x", "particle": "x", "primary_pattern": "x", "name_class": "x", "simple_nc_choice": "x", "simple_nc": "x",
           "grammar_content": "x=x", "include_content": "x=x", "initial_annotation": "[]", "annotation_element": "x[]"}
ARGS = {"joined_particles": [(("str", s), ("ctor", T + "Pattern", v)) for s, v in ((",", "ListPair"), ("&", "InterleavePair"), ("|", "ChoicePair"))]}


def isparser(f):
    return f.crate == CRATE and "{closure" not in f.path and str(f.body["locals"][0]["t"]).startswith("std::result::Result<(nom_locate::LocatedSpan")


class Session:
    """one comparison of all of it, with some nonterminals made part of what uses them"""

    def __init__(self, prog, vf, fns, inline):
        self.prog, self.vf = prog, vf
        self.b = Builder(prog, vf, isparser, MOD)
        self.g = Grammar(self.b)
        self.g.inline = set(inline) | ALWAYS
        self.code = {}                  # reference name -> code function
        for n in NTS:
            if n in self.g.inline:
                continue
            if n in fns:
                self.code[n] = fns[n]
        left = [n for n in NTS if n not in self.g.inline and n not in self.code]
        # renamed: the only function left which yields that type
        taken = {f.path for f in self.code.values()}
        for n in left:
            ty = NTS[n]
            c = [f for f in fns.values() if f.path not in taken and ty and
                 re.search(r"(^|[ :])%s>, nom::Err" % ty, str(f.body["locals"][0]["t"]))]
            if len(c) == 1:
                self.code[n] = c[0]
                taken.add(c[0].path)
            else:
                self.g.inline.add(n)
        self.names = {f.path: n for n, f in self.code.items()}
        self.b.inline = {p for p, f in prog.fns.items() if isparser(f) and p not in self.names}
        self.lang = Lang(self.expand, SAMPLES, self.isws)
        self.exp = {}
        self.ctx = None
        self.foll = {}

    def refnode(self, name, args=()):
        return getattr(self.g, name)(*args)

    def isws(self, i):
        return i.k == "nt" and (i.a[0] == "space_comment0" or self.names.get(i.a[0]) == "space_comment0")

    def normal(self, node):
        return Normal(node, self.isws, self.b.uid)

    def expand(self, a):
        name = a[0] if a[0] in NTS else self.names.get(a[0])
        if name is None or name in SAMPLES:
            return None
        if name not in self.exp:
            self.exp[name] = self.refnode(name, *a[1:]).items
        return self.exp[name]

    # ---- whether a parse may be given up
    def contexts(self, name):
        """the uses of a nonterminal in the reference: (production, items read before since each choice, what else, what then)"""
        if self.ctx is None:
            self.ctx = {}
            for n in ["schema"] + [n for n in NTS if n not in self.g.inline]:
                for args in ARGS.get(n, [()]):
                    for i, before, since, rest in choices(self.refnode(n, args).items, lambda x: x.k == "nt"):
                        self.ctx.setdefault(i.a[0], []).append((n, before, since, rest))
        return self.ctx.get(name, [])

    def harmless(self, name, items, uid):
        """nothing else could be read where the item is given up, or what could; None if that is not known"""
        worst = True
        for i, before, since, rest in choices(items, lambda x: x.uid == uid):
            todo = [(name, before, since)]
            seen = set()
            while todo:
                n, before, since = todo.pop()
                for read, instead in since:
                    w = self.lang.both(list(read), list(instead), lambda under: self.follow(n, under, 3), list(read) + [i])
                    if isinstance(w, str):
                        return w
                    if w is False:
                        worst = None
                for m, b, s, x in self.contexts(n):
                    if m not in seen:
                        seen.add(m)
                        todo.append((m, b + before, tuple((tuple(r) + tuple(before), x) for r, x in s)))
        return worst

    def follow(self, name, under, depth):
        """what can come after a nonterminal, up to the end of the input"""
        if name == "schema":
            return EPS
        if not depth:
            return NONE_L if under else ALL
        key = (name, under, depth)
        if key not in self.foll:
            self.foll[key] = r_or(*(self.lang.of(rest, self.follow(m, under, depth - 1)) for m, b, s, rest in self.contexts(name)))
        return self.foll[key]

    def ntname(self, path):
        return self.names.get(path, path)

    def compare(self, name, fn, args=(), whole=False):
        ref = self.normal(self.refnode(name, args))
        self.b.whole = whole
        try:
            code = self.normal(self.b.function(fn.path, args))
        finally:
            self.b.whole = False
        return Compare(ref, code, self.ntname, self.lang)


def replaced(t):
    """a text, and the constant strings replaced in it in turn"""
    steps = []
    while isinstance(t, tuple) and t[0] == "call" and t[1].split("::")[-1] == "replace" and len(t[2]) == 3:
        a, b = (x[1] if x[0] == "str" else chr(x[1]) if x[0] == "char" else None for x in t[2][1:])
        if a is None or b is None:
            return None
        steps.append((a, b))
        t = t[2][0]
    if isinstance(t, tuple) and t[0] in ("sl", "text"):
        return ("text",) + t[1:], steps[::-1]
    return None


def line_feeds(r, c):
    """the text with every end of a line made a line feed; where it is but one line it has none"""
    x = replaced(c)
    if x is None:
        return c
    text, steps = x
    import itertools
    abc = sorted({ch for a, b in steps for ch in a + b if ch not in "\r\n"} | {"a"}) + (["\r", "\n"] if r[1] else [])
    for n in range(5):
        for w in itertools.product(abc[-5:], repeat=n):
            w = v = "".join(w)
            for a, b in steps:
                v = v.replace(a, b)
            if v != w.replace("\r\n", "\n").replace("\r", "\n"):
                return ("adt", "text", "the text with %s" % (" and ".join("%r for %r" % (b, a) for a, b in steps) or "the ends of its lines as they are"), ())
    return ("line feeds", r[1], text)


def masked(r, c, spans):
    """the value due and the one yielded agree; spans are compared when asked for, else everything but them"""
    if r == ANY:
        return True
    if isinstance(r, tuple) and r[:1] == ("line feeds",):
        return spans or r == c
    if isinstance(r, tuple) and r[:2] == ("adt", "std::ops::Range"):
        return r == c if spans else True
    if isinstance(r, tuple) and isinstance(c, tuple):
        if r[:1] == ("adt",) and c[:1] == ("adt",):
            if r[1:3] != c[1:3]:
                return spans
            a, b = dict(r[3]), dict(c[3])
            if set(a) != set(b):
                return spans
            return all(masked(a[k], b[k], spans) for k in a)
        if r[:1] == ("adt",) or c[:1] == ("adt",):
            return spans
        return spans or r == c
    return spans or r == c


def aligned(r, c):
    """the value yielded, with texts in the form of the value due"""
    if isinstance(r, tuple) and r[:1] == ("line feeds",):
        return line_feeds(r, c)
    if isinstance(r, tuple) and isinstance(c, tuple) and len(r) == len(c):
        return tuple(aligned(x, y) for x, y in zip(r, c))
    return c


def eta(t):
    """a value taken apart and put together again is that value"""
    if not isinstance(t, tuple):
        return t
    t = tuple(eta(x) for x in t)
    if t[:1] == ("adt",) and len(t) == 4 and t[3] and all(isinstance(x, tuple) and x[0] == "fld" and x[3] == n for n, x in t[3]):
        of = {x[1] for _, x in t[3]}
        if len(of) == 1 and {x[2] for _, x in t[3]} <= {t[1], "%s::%s" % (t[1], t[2])}:
            return next(iter(of))
    return t


def length(t):
    return isinstance(t, tuple) and t[0] == "call" and t[1].split("::")[-1] == "len" and len(t[2]) == 1 and t[2][0][0] == "list"


OPS = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


def occurs(k, t, x):
    """a condition on what was read which some text surely meets"""
    if k == "v" and t[0] == "val":
        return True
    if k in ("b", "sw") and isinstance(t, tuple):
        if k == "b" and t[0] in OPS and len(t) == 3:
            a, b = t[1:]
            if length(a) and b[0] == "int":
                return any(OPS[t[0]](n, b[1]) == x for n in range(1, 9))
            if length(b) and a[0] == "int":
                return any(OPS[t[0]](a[1], n) == x for n in range(1, 9))
        if k == "b" and t[0] == "call" and t[1].split("::")[-1] == "is_empty" and t[2][0][0] == "list":
            return x is False
    return False


def bytes_for_chars(t):
    if isinstance(t, tuple):
        return ("pos", t[2]) if t[:1] == ("pos+chars",) else tuple(bytes_for_chars(x) for x in t)
    return t


def misplaced(r, c):
    """a range which is made of known positions, and of others than those due"""
    if isinstance(r, tuple) and isinstance(c, tuple) and r[:2] == c[:2] == ("adt", "std::ops::Range"):
        return r != c and not any(x and x[0] in ("call", "apply", "lam", "bot", "undef") for x in walk(c))
    return isinstance(r, tuple) and isinstance(c, tuple) and len(r) == len(c) and any(misplaced(x, y) for x, y in zip(r, c))


def altered(r, c):
    """a text is put into other letters"""
    if isinstance(c, tuple) and c[:1] == ("call",) and c[1].split("::")[-1] in (
            "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase") and c[2] and c[2][0] == r:
        return True
    return isinstance(r, tuple) and isinstance(c, tuple) and len(r) == len(c) and any(altered(x, y) for x, y in zip(r, c))


def show_value(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0] if t else ""
    if k == "adt":
        if t[1].startswith("std::ops::Range"):
            return "span"
        return t[2] + ("(" + ", ".join(show_value(v) for n, v in t[3]) + ")" if t[3] else "")
    if k in ("str", "char"):
        return repr(t[1] if k == "str" else chr(t[1]))
    if k == "val":
        return "what #%s yields" % t[1]
    if k == "list":
        return "the list"
    if k == "text":
        return "the text"
    if k == "tup":
        return "(" + ", ".join(show_value(x) for x in t[1]) + ")"
    if k == "fld":
        return show_value(t[1]) + "." + str(t[3])
    if k == "line feeds":
        return show_value(t[2]) + (" with its lines ended by line feeds" if t[1] else "")
    if k == "call":
        return t[1].split("::")[-1] + "(" + ", ".join(show_value(x) for x in t[2]) + ")"
    return str(t)[:60]


def examine(S, name, fn, args, whole, spans, out):
    """the findings about one function: (kind, key, text), kind one of ok/bad/unknown"""
    label = fn.name + ("" if not args else " '%s'" % args[0][1])
    try:
        c = S.compare(name, fn, args, whole)
    except (Unsupported, Split) as e:
        out.append(("reads", "unknown", name, "%s: %s" % (label, e or "the continuation depends on a value")))
        return
    try:
        c.structure()
    except Diff as e:
        extra = [x for x in nts(c.code.items) if x not in S.names] or ["a condition" for i in every(c.code.items) if i.k == "guard"]
        if extra:
            out.append(("reads", "unknown", name, "%s: %s (uses %s)" % (label, e, extra[0])))
        else:
            out.append(("reads", "bad", name + ":reads", "%s (%s) %s" % (label, fn.path, e)))
        return
    if c.guards:
        out.append(("reads", "bad", name + ":refuses", "%s (%s) %s: refuses some of what it reads by a condition of its own" % (label, fn.path, c.guards[0])))
    out.append(("reads", "ok", name, "%s reads %s" % (label, show_items(c.ref.items)[:160])))
    for first, second, at in c.orders:
        x = S.lang.exclusive(first, second)
        if x is None:
            out.append(("reads", "unknown", name, "%s: order of alternatives" % label))
        elif x:
            out.append(("reads", "ok", name, None))
        else:
            out.append(("reads", "bad", name + ":order", "%s (%s) %s: tries %s before %s, and both can match" % (
                label, fn.path, at, show_items(first)[:60], show_items(second)[:60])))
    for r, x, at in c.cuts:
        if x.cut:
            h = S.harmless(name, c.ref.items, r.uid)
            if h is None:
                out.append(("reads", "unknown", name, "%s: a parse given up %s" % (label, at)))
            elif h is True:
                out.append(("reads", "ok", name, None))
            else:
                out.append(("reads", "bad", name + ":given up", "%s (%s) %s: gives up the parse when %s does not follow, as in %r, which can be read otherwise" % (
                    label, fn.path, at, show_items([r])[:80], h)))
    for x, y, at in c.makes if not spans else []:
        out.append(("value", "bad", name + ":makes", "%s (%s) %s: makes a %s of it where %s is due" % (label, fn.path, at, x[2], y[2])))
    for lab, s, f, v, f2, v2 in c.values():
        where = "%s%s" % (label, " (%s)" % lab if lab else "")
        if v2 is None:
            out.append(("value", "unknown", name, "%s: no value for one way through" % where))
            continue
        if name == "literal_segment" and not spans and any(replaced(x) for x in walk(v2)):
            if not any(key.endswith(":escapes") for _, _, key, _ in out):
                out.append(("value", "bad", name + ":escapes", "%s (%s) keeps the text between the quotes: \\x{...} is not resolved" % (where, fn.path)))
        v2 = eta(aligned(v, v2))
        if spans and ascii_only(S, c.ref.items):
            v2 = bytes_for_chars(v2)
        if spans:
            v2, none = pointlike(v, v2)
            if none and not any(key == name + ":no text" for _, _, key, _ in out):
                out.append(("value", "bad", name + ":no text", "%s (%s): the range of a name begins where the name does, but is empty" % (where, fn.path)))
        open_ = [a for a in f2 if a not in f]
        if masked(v, v2, spans):
            out.append(("value", "ok", name, None))
        elif open_ and not (len(open_) == 1 and occurs(*open_[0], f2[open_[0]])):
            out.append(("value", "unknown", name, "%s: the value depends on %s" % (where, str(open_[0])[:80])))
        elif not altered(v, v2) and not (spans and misplaced(v, v2)) and any(x and x[0] in ("call", "apply", "lam", "bot", "undef") and x not in set(walk(v)) for x in walk(v2)):
            out.append(("value", "unknown", name, "%s: yields %s where %s is due" % (where, show_value(v2)[:120], show_value(v)[:120])))
        else:
            out.append(("value", "bad", name + ":value", "%s (%s) yields %s where %s is due" % (where, fn.path, show_value(v2)[:160], show_value(v)[:160])))


def pointlike(r, c):
    """the value yielded, with the ranges of names which are empty and at the beginning of what is due made as they are due; whether there are any"""
    if isinstance(r, tuple) and isinstance(c, tuple) and r[:1] == ("adt",) == c[:1]:
        if r[1] == c[1] == "std::ops::Range":
            return c, False
        a, b, any_ = dict(r[3]), [], False
        for k, y in c[3]:
            x = a.get(k)
            if r[1].endswith("::Identifier") and x and x[:2] == ("adt", "std::ops::Range") == y[:2] and dict(y[3])["start"] == dict(y[3])["end"] == dict(x[3])["start"] != dict(x[3])["end"]:
                y, any_ = x, True
            else:
                y, n = pointlike(x, y)
                any_ = any_ or n
            b.append((k, y))
        return c[:3] + (tuple(b),), any_
    return c, False


def every(items):
    """all items, inner ones too"""
    for i in items:
        yield i
        for a in i.a if i.k == "alt" else i.a[:2] if i.k == "rep" else i.a[:1] if i.k == "look" else ():
            yield from every(a)


def nts(items):
    return [i.a[0] for i in every(items) if i.k == "nt"]


def ascii_only(S, items):
    """no more bytes than characters"""
    for i in every(items):
        if i.k == "nt":
            x = S.expand(i.a)
            if x is None or not ascii_only(S, x):
                return False
        elif i.k == "cls" and any(b > 127 for a, b in i.a) or i.k == "until" or i.k == "lit" and not i.a.isascii():
            return False
    return True


def everything(prog, vf, fns, inline, spans):
    S = Session(prog, vf, fns, inline)
    out = {}
    root = prog.fns.get(MOD + "::schema")
    work = [("schema", root, ())]
    for n, f in S.code.items():
        for args in ARGS.get(n, [()]):
            work.append((n, f, args))
    for n, f, args in work:
        o = out.setdefault(n, [])
        examine(S, n, f, args, n == "schema", spans, o)
    return S, out


def compact(prog, rep, what):
    fns = {f.name: f for f in prog.fns.values() if isparser(f) and f.path.startswith(MOD + "::")}
    root = prog.fns.get(MOD + "::schema") or rep.anchor(prog, "schema", CRATE)
    if root is None:
        return
    paths = {f.path for f in fns.values()}
    vf = VF(prog, opaque=lambda f: f.path in paths)
    spans = what == "spans"
    S, out = everything(prog, vf, fns, set(), spans)
    wrong = {n for n, o in out.items() if any(k == "bad" and not key.endswith((":escapes", ":no text")) for _, k, key, _ in o)}
    if wrong - RECURSIVE - {"schema"}:
        # the functions may share the work differently: made part of what uses them, all may agree
        S2, out2 = everything(prog, vf, fns, wrong - RECURSIVE - {"schema"}, spans)
        if not any(k == "bad" and not key.endswith((":escapes", ":no text")) for o in out2.values() for _, k, key, _ in o):
            S, out = S2, out2
    for f in list(S.code.values()) + [root]:
        rep.functions.add(f.path)
    for n, o in out.items():
        rep.count("productions")
        for about, kind, key, text in o:
            if about != ("reads" if what == "reads" else "value"):
                if about == "reads" and kind != "ok":
                    rep.unknown("what %s reads" % n)
                continue
            rep.count({"reads": "comparisons"}.get(about, "values"))
            if kind == "ok":
                rep.good(text)
            elif kind == "bad":
                rep.bad(key, text)
            else:
                rep.unknown(text)


def s01(prog, rep, tier):
    rep.rule("each parser function reads what the reference production reads (items in order, ordered choices, repetitions, look-aheads); alternatives are "
             "in another order only where no input can match both, and a parse is given up only where no other could be right")
    compact(prog, rep, "reads")


def s03(prog, rep, tier):
    rep.rule("each parser function yields, on every way through what it reads, the syntax tree due there, made of what it read at the places due")
    compact(prog, rep, "values")


def s04(prog, rep, tier):
    rep.rule("the source range put into each value yielded goes from the beginning of what was read for it to its end")
    compact(prog, rep, "spans")
