M = "relaxng-model/src/lib.rs"
S = []


def seed(id, prop, needs, breaks, edits, files, expect, extra="", file=M):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(e if len(e) == 3 else (file,) + tuple(e)) for e in edits], files=files,
                  expect=expect, extra=extra))


seed("m05-same-name", "M05", "two included files with the same file name in different folders",
     "a file is taken for an already loaded one if its file name and the length of its path are the same",
     [("""        if let Some((f, s)) = self.loaded.get(name) {
            return""", """        let known = self.loaded.iter().find(|(k, _)| {
            k.file_name() == name.file_name() && k.components().count() == name.components().count()
        });
        if let Some((_, (f, s))) = known {
            return""")],
     {"s.rnc": "start = element r { a, b }\ninclude \"p/x.rnc\"\ninclude \"q/x.rnc\"\n", "p/x.rnc": "a = element a { empty }\n", "q/x.rnc": "b = element b { empty }\n",
      "d.xml": "<r><a/><b/></r>"},
     [("s.rnc", "d.xml", 0)])
seed("m05-grammar-cycle", "M05", "a file which includes itself from within a nested grammar",
     "an include inside a nested grammar is not checked for cycles through the files around it",
     [("""            Context::Root { .. } => Ok(()),
            Context::Grammar { parent, .. }
            | Context::IncludeOverrides { parent }
            | Context::Define { parent, .. }
            | Context::Element { parent }
            | Context::Attribute { parent, .. } => parent.check_include(span, this_file),""", """            Context::Root { .. } | Context::Grammar { .. } => Ok(()),
            Context::IncludeOverrides { parent }
            | Context::Define { parent, .. }
            | Context::Element { parent }
            | Context::Attribute { parent, .. } => parent.check_include(span, this_file),""")],
     {"s.rnc": "start = element r { external \"a.rnc\" }\n", "a.rnc": "element a { grammar { include \"b.rnc\" } }\n", "b.rnc": "start = element b { external \"a.rnc\" }\n", "d.xml": "<r/>",
      "t.rnc": "start = element r { external \"c.rnc\" }\n", "c.rnc": "element a { grammar { include \"e.rnc\" } }\n", "e.rnc": "start = element b { empty }\n", "e.xml": "<r><a><b/></a></r>"},
     [("s.rnc", "d.xml", 1), ("t.rnc", "e.xml", 0)])
seed("m06-repeat-optional", "M06", "a repetition '+' of an optional pattern written in parentheses",
     "repeating an optional pattern does not repeat it",
     [("""            types::Pattern::OneOrMore(p) => Ok(model::Pattern::OneOrMore(Box::new(
                self.compile_pattern(ctx, p)?,
            ))),""", """            types::Pattern::OneOrMore(p) => Ok(match self.compile_pattern(ctx, p)? {
                // these repeat already
                p @ (Pattern::OneOrMore(_) | Pattern::ZeroOrMore(_) | Pattern::Optional(_)) => p,
                p => model::Pattern::OneOrMore(Box::new(p)),
            }),""")],
     {"s.rnc": "start = element r { (element a { empty }?)+ }\n", "d.xml": "<r><a/><a/></r>", "e.xml": "<r><a/></r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 0)])
seed("m06-group-flatten", "M06", "a group whose second member is a parenthesised choice of more than two groups",
     "the alternatives of a choice that ends a group are flattened into the choice around it",
     [("""        match a {
            Pattern::Choice(mut v) => c.append(&mut v),
            _ => c.push(a),
        }""", """        match a {
            Pattern::Choice(mut v) => c.append(&mut v),
            Pattern::Group(mut v) if matches!(v.last(), Some(Pattern::Choice(_))) => {
                if let Some(Pattern::Choice(mut last)) = v.pop() {
                    v.push(Pattern::Choice(vec![last.remove(0)]));
                    c.push(Pattern::Group(v));
                    c.append(&mut last);
                }
            }
            a => c.push(a),
        }""")],
     {"s.rnc": "a = element a { empty }\nb = element b { empty }\nc = element c { empty }\nstart = element r { (a, (b | c)) | c }\n",
      "d.xml": "<r><a/><c/></r>", "e.xml": "<r><a/><b/></r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 0)])
seed("m07-attribute-except", "M07", "an attribute wildcard with an exception, in a schema with a default namespace",
     "the default namespace applies to the exceptions of an attribute wildcard",
     [("""            types::NameClass::AnyName(types::AnyName(except)) => {
                Ok(model::NameClass::any_name(if let Some(except) = except {
                    Some(self.compile_nameclass(ctx, elem_attr, except)?)""", """            types::NameClass::AnyName(types::AnyName(except)) => {
                Ok(model::NameClass::any_name(if let Some(except) = except {
                    Some(self.compile_nameclass(ctx, ElemAttr::Element, except)?)""")],
     {"s.rnc": "default namespace = \"urn:x\"\nstart = element r { attribute * - a { text } }\n", "d.xml": "<r xmlns='urn:x' b='1'/>", "e.xml": "<r xmlns='urn:x' a='1'/>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2)])
seed("m07-default-prefix", "M07", "a default namespace declaration with a prefix, in an included file, with the empty namespace",
     "the prefix given with a default namespace is not declared if the namespace is empty",
     [("""                        if let Some(p) = prefix {
                            ctx.declare_namespace""", """                        if let Some(p) = prefix.as_ref().filter(|_| ctx.default_namespace_uri() != "") {
                            ctx.declare_namespace""")],
     {"s.rnc": "default namespace p = \"\"\nstart = element p:r { empty }\n", "d.xml": "<r/>",
      "t.rnc": "default namespace p = \"urn:x\"\nstart = element p:r { empty }\n", "e.xml": "<r xmlns='urn:x'/>"},
     [("s.rnc", "d.xml", 0), ("t.rnc", "e.xml", 0)])
