V = "relaxng-validator/src/lib.rs"
M = "relaxng-model/src/lib.rs"
X = "relaxng-model/src/datatype/xsd.rs"
S = []


def seed(id, prop, needs, breaks, edits, files, expect, extra="", file=M):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(e if len(e) == 3 else (file,) + tuple(e)) for e in edits], files=files,
                  expect=expect, extra=extra))


seed("v08-facet-identity", "V08", "two data patterns whose pattern facets differ only in surrounding spaces, in one schema",
     "pattern facets are identified up to surrounding whitespace, in equality and in hash",
     [("        self.0 == other.0\n    }\n}\nimpl Eq for PatternFacet {}", "        self.0.trim() == other.0.trim()\n    }\n}\nimpl Eq for PatternFacet {}"),
      ("        self.0.hash(state)\n    }\n}\nimpl fmt::Debug for PatternFacet", "        self.0.trim().hash(state)\n    }\n}\nimpl fmt::Debug for PatternFacet")],
     {"s.rnc": "start = element r { element a { xsd:string { pattern = \"x\" } }, element b { xsd:string { pattern = \"x \" } } }\n",
      "d.xml": "<r><a>x</a><b>x </b></r>", "e.xml": "<r><a>x</a><b>x</b></r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2)], file=X)
seed("v12-trailing", "V12", "a document which is complete and then goes on with something that is not well-formed",
     "a syntax error after the document is complete is not reported",
     [("            Some(Err(err)) => Some(Err(ValidatorError::Xml(err))),\n            None if", """            Some(Err(err)) => {
                if self.schema.patt(self.current_step).is_nullable() {
                    return None;
                }
                Some(Err(ValidatorError::Xml(err)))
            }
            None if""")],
     {"s.rnc": "start = element r { empty }\n", "d.xml": "<r/>", "e.xml": "<r/><", "f.xml": "<r/>\n<!-- x -->\n"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2), ("s.rnc", "f.xml", 0)], file=V)
seed("m01-assign-after-combine", "M01", "three definitions of one name: first with a combine method, then two by '='",
     "a definition by '=' after one with '|=' leaves no trace, so a second one by '=' is accepted",
     [("""            | (
                DefineRule::AssignCombine(this, None, mut patt_a),
                DefineRule::CombineOnly(_, CombineRule::Choice, patt_b),
            )
            | (
                DefineRule::CombineOnly(this, CombineRule::Choice, mut patt_a),
                DefineRule::AssignCombine(_, None, patt_b),
            ) => {""", """            | (
                DefineRule::AssignCombine(this, None, mut patt_a),
                DefineRule::CombineOnly(_, CombineRule::Choice, patt_b),
            ) => {"""),
      ("            // interleave-related cases,\n", """            (
                DefineRule::CombineOnly(this, CombineRule::Choice, mut patt_a),
                DefineRule::AssignCombine(_, None, patt_b),
            ) => {
                Self::append_choice(&mut patt_a, patt_b);
                Ok(DefineRule::CombineOnly(this, CombineRule::Choice, patt_a))
            }
            // interleave-related cases,
""")],
     {"s.rnc": "start = element r { x }\nx |= element a { empty }\nx = element b { empty }\nx = element c { empty }\n",
      "t.rnc": "start = element r { x }\nx |= element a { empty }\nx = element b { empty }\nx |= element c { empty }\n", "d.xml": "<r><c/></r>"},
     [("s.rnc", "d.xml", 1), ("t.rnc", "d.xml", 0)])
seed("m01-interleave-choice", "M01", "more than three definitions of one name by '&='",
     "of more than three definitions combined by interleave, only the first two and the last count",
     [("""            if let Pattern::Interleave(mut other) = c {
                this.append(&mut other)
            } else {""", """            if let Pattern::Interleave(mut other) = c {
                let at = this.len().min(2);
                this.splice(at.., other.drain(..));
            } else {""")],
     {"s.rnc": "start = element r { x }\nx &= element a { empty }\nx &= element b { empty }\nx &= element c { empty }\nx &= element d { empty }\n",
      "d.xml": "<r><d/><c/><b/><a/></r>", "t.rnc": "start = element r { x }\nx &= element a { empty }\nx &= element b { empty }\n", "e.xml": "<r><b/><a/></r>"},
     [("s.rnc", "d.xml", 0), ("t.rnc", "e.xml", 0)])
seed("m02-external-parent", "M02", "a 'parent' reference in an external pattern within a nested grammar",
     "a parent reference in an external pattern resolves in the grammar referring to the file",
     [("""            Context::Include { parent, .. }
            | Context::IncludeOverrides { parent }
            | Context::Define { parent, .. }
            | Context::Element { parent }
            | Context::Attribute { parent, .. } => parent.acquire_parent_ref_impl(id, span),
            Context::Grammar""", """            Context::IncludeOverrides { parent }
            | Context::Define { parent, .. }
            | Context::Element { parent }
            | Context::Attribute { parent, .. } => parent.acquire_parent_ref_impl(id, span),
            Context::Include { parent, .. }
            | Context::Grammar""")],
     {"s.rnc": "start = grammar { start = external \"e.rnc\"\n x = element inner { empty } }\nx = element outer { empty }\n", "e.rnc": "parent x\n",
      "d.xml": "<outer/>", "e.xml": "<inner/>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2)])
seed("m02-define-attr", "M02", "a reference within an attribute of a nested grammar to a name defined in both grammars",
     "a reference inside an attribute resolves in the outer grammar if that defines the name as well",
     [("""            | Context::Define { parent, .. }
            | Context::Element { parent }
            | Context::Attribute { parent, .. } => parent.acquire_ref_impl(ref_id),""", """            | Context::Define { parent, .. }
            | Context::Element { parent } => parent.acquire_ref_impl(ref_id),
            Context::Attribute { parent, .. } => parent
                .acquire_parent_ref(ref_id)
                .or_else(|_| parent.acquire_ref_impl(ref_id)),""")],
     {"s.rnc": "start = element r { grammar { start = attribute a { v }\n v = \"in\" } }\nv = \"out\"\n", "d.xml": "<r a='in'/>", "e.xml": "<r a='out'/>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2)])
seed("m03-repeated", "M03", "a cycle of definitions, first referenced within a repetition directly in an element",
     "a repeated reference is not checked for recursion",
     [("            | Pattern::ZeroOrMore(p)\n            | Pattern::OneOrMore(p)\n            | Pattern::Attribute(_, p)\n            | Pattern::Element(_, p)",
       "            | Pattern::OneOrMore(p)\n            | Pattern::Attribute(_, p)\n            | Pattern::Element(_, p)"),
      ("            | Pattern::DatatypeValue { .. } => {}\n            Pattern::Ref(span, name, def) => {\n                let ptr = def.0.as_ptr() as usize;\n                if !seen", """            | Pattern::DatatypeValue { .. } => {}
            Pattern::ZeroOrMore(p) => {
                if !matches!(**p, Pattern::Ref(..)) {
                    self.check(seen, expanded, p)?
                }
            }
            Pattern::Ref(span, name, def) => {
                let ptr = def.0.as_ptr() as usize;
                if !seen""")],
     {"s.rnc": "start = element r { a* }\na = element x { empty } | b\nb = (element y { empty }, a)?\n",
      "t.rnc": "start = element r { a* }\na = element x { b }\nb = (element y { empty }, a)?\n", "d.xml": "<r><x/></r>"},
     [("s.rnc", "d.xml", 1), ("t.rnc", "d.xml", 0)])
seed("m04-external-fallback", "M04", "an external grammar whose unused definition refers to a name which only the grammar around it defines",
     "a name not defined in an external grammar is accepted if the grammar around it defines it",
     [("""                    if r.borrow().is_none() {
                        // TODO""", """                    if r.borrow().is_none() && ctx.get_ref(&name).is_none() {
                        // TODO""")],
     {"s.rnc": "v = \"x\"\nstart = element d { external \"e.rnc\" }\n", "e.rnc": "start = element r { empty }\nu = element u { v }\n",
      "t.rnc": "start = element d { external \"f.rnc\" }\nv = \"x\"\n", "f.rnc": "start = element r { empty }\nu = element u { v }\nv = \"y\"\n", "d.xml": "<d><r/></d>"},
     [("s.rnc", "d.xml", 1), ("t.rnc", "d.xml", 0)])
