V = "relaxng-validator/src/lib.rs"
S = []


def seed(id, prop, needs, breaks, edits, files, expect, extra=""):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(e if len(e) == 3 else (V,) + tuple(e)) for e in edits], files=files,
                  expect=expect, extra=extra))


seed("v01-interleave-first", "V01", "an interleave whose two members can both start with the same element",
     "of an interleave whose first member accepts the element, the second is not tried",
     [("""                schema.choice(c1, c2)
            }
            Pat::Group(pid1, pid2, _) => {
                let p1 = schema.patt(pid1);
                let nullable""", """                if schema.patt(c1) == Pat::NotAllowed {
                    c2
                } else if let Pat::After(_, _) = schema.patt(c2) {
                    c1
                } else {
                    schema.choice(c1, c2)
                }
            }
            Pat::Group(pid1, pid2, _) => {
                let p1 = schema.patt(pid1);
                let nullable""")],
     {"s.rnc": "start = element r { element a { attribute x { text } } & (element * { empty }, element z { empty }) }\n",
      "d.xml": "<r><a/><z/><a x=''/></r>", "e.xml": "<r><a x=''/><b/><z/></r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 0)])
seed("v01-group-nullable", "V01", "a group whose first member can be empty and whose two members start with the same element",
     "the second member of a group replaces the first when both accept the element",
     [("""                    schema.choice(x, d2)
                } else {""", """                    match (schema.patt(x), schema.patt(d2)) {
                        (Pat::After(..), Pat::After(..)) => d2,
                        _ => schema.choice(x, d2),
                    }
                } else {""")],
     {"s.rnc": "start = element r { element a { empty }*, element a { empty }, element b { empty } }\n",
      "d.xml": "<r><a/><a/><a/><b/></r>", "e.xml": "<r><a/><b/></r>", "f.xml": "<r><b/></r>"},
     [("s.rnc", "e.xml", 0), ("s.rnc", "d.xml", 0), ("s.rnc", "f.xml", 2)])
seed("v02-list-group", "V02", "a list whose first member may be empty and which accepts the same token as the second",
     "of a group inside a list, the second member is tried only when the first refuses the token",
     [("""                    let d2 = Self::text_deriv(pat2, schema, text);
                    schema.choice(p, d2)
                } else {""", """                    match schema.patt(p) {
                        Pat::NotAllowed => Self::text_deriv(pat2, schema, text),
                        _ => p,
                    }
                } else {""")],
     {"s.rnc": "start = element r { list { \"a\"*, \"a\", \"b\" } }\n", "d.xml": "<r>a b</r>", "e.xml": "<r>a a b</r>", "f.xml": "<r>b</r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 0), ("s.rnc", "f.xml", 2)])
seed("v03-ns-wildcard", "V03", "a repeated attribute wildcard of one namespace and a start tag with two such attributes",
     "an attribute wildcard for a namespace matches only one attribute",
     [("                let s2 = schema.choice(pat, schema.empty());\n", """                let s2 = match schema.patt(p) {
                    Pat::Attribute(NameClass::NsName { except: Some(_), .. }, _) => schema.empty(),
                    _ => schema.choice(pat, schema.empty()),
                };
""")],
     {"s.rnc": "namespace x = \"urn:x\"\nstart = element r { attribute x:* - x:z { text }* }\n",
      "d.xml": "<r xmlns:x='urn:x' x:b=''/>", "e.xml": "<r xmlns:x='urn:x' x:b='' x:a=''/>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 0)])
seed("v04-end-first", "V04", "a choice between contents where the first alternative is incomplete when the element ends",
     "at an end tag only one alternative survives",
     [("""                let c1 = Self::end_tag_deriv(p1, schema);
                let c2 = Self::end_tag_deriv(p2, schema);
                schema.choice(c1, c2)""", """                let c1 = Self::end_tag_deriv(p1, schema);
                let c2 = Self::end_tag_deriv(p2.clone(), schema);
                match (p2, schema.patt(c1)) {
                    (Pat::After(a, _), Pat::After(..)) if schema.patt(a) == Pat::Text => c1,
                    _ => schema.choice(c1, c2),
                }""")],
     {"s.rnc": "start = element r { (element a { empty }, element b { empty }) | (element a { text }, element c { empty }) }\n",
      "d.xml": "<r><a/><b/></r>", "e.xml": "<r><a/><c/></r>", "f.xml": "<r><a/></r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 0), ("s.rnc", "f.xml", 2)])
seed("v05-choice-nullable", "V05", "a choice with an alternative which may be empty, in content which must be allowed to end there",
     "a choice between text and something else is no longer nullable when the text is on the right",
     [("self.push(Pat::Choice(left, right, l.is_nullable() || r.is_nullable()))", "self.push(Pat::Choice(left, right, l.is_nullable() || (r.is_nullable() && !matches!((l, r), (Pat::Element(..), Pat::Text)))))")],
     {"s.rnc": "start = element r { element a { empty } | text }\n", "d.xml": "<r><a/></r>", "e.xml": "<r><!-- --></r>", "f.xml": "<r>x<a/></r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 0), ("s.rnc", "f.xml", 2)])
seed("v06-nsname-except", "V06", "a namespace wildcard with an exception",
     "exceptions of a namespace wildcard are matched by local name only",
     [("""                if let Some(except_nameclass) = except {
                    !contains(except_nameclass, target_name)
                } else {
                    true
                }""", """                match except.as_deref() {
                    Some(NameClass::Alt { a, .. }) => !contains(a, target_name),
                    Some(nc) => !contains(nc, target_name),
                    None => true,
                }""")],
     {"s.rnc": "default namespace = \"urn:a\"\nnamespace a = \"urn:a\"\nstart = element r { element a:* - (a:x | a:y) { empty }* }\n",
      "d.xml": "<r xmlns='urn:a'><z/></r>", "e.xml": "<r xmlns='urn:a'><y/></r>", "f.xml": "<r xmlns='urn:a'><x/></r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2), ("s.rnc", "f.xml", 2)])
seed("v07-group-tail", "V07", "a group with at least three members",
     "members of a long group are matched in the wrong order",
     [("""                for left in iter {
                    right = s.group(Self::compile(s, left), right)
                }""", """                let n = v.len();
                for (i, left) in iter.enumerate() {
                    let left = Self::compile(s, left);
                    right = if n > 4 && i == 3 { s.group(right, left) } else { s.group(left, right) };
                }""")],
     {"s.rnc": "start = element r { element a { empty }, element b { empty }, element c { empty }, element d { empty }, element e { empty } }\n",
      "d.xml": "<r><a/><b/><c/><d/><e/></r>", "e.xml": "<r><b/><c/><d/><e/><a/></r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2)])
seed("v09-cdata-flag", "V09", "a comment between an empty start tag and its end tag",
     "a comment makes an element without children count as having children",
     [("""            | Token::ProcessingInstruction { .. } => {
                // does not change current_step state
                return Ok(());""", """            | Token::ProcessingInstruction { .. } => {
                self.last_was_start_element = false;
                return Ok(());""")],
     {"s.rnc": "start = element r { '' }\n", "d.xml": "<r></r>", "e.xml": "<r><!-- nothing --></r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 0)])
seed("v11-hex-digits", "V11", "a character reference to a character outside the basic plane, or any numeric reference in hexadecimal",
     "hexadecimal character references are limited to four digits",
     [("            u32::from_str_radix(text, 16)\n", "            u32::from_str_radix(text.get(..4).unwrap_or(text), 16)\n")],
     {"s.rnc": "start = element r { xsd:string { length = \"1\" } }\n", "t.rnc": "start = element r { string '😀' }\n",
      "d.xml": "<r>&#x1F600;</r>", "e.xml": "<r>&#x41;</r>"},
     [("t.rnc", "d.xml", 0), ("s.rnc", "e.xml", 0)])
seed("v10-depth", "V10", "a prefix declared on an ancestor, used again after a sibling declared it differently",
     "a prefix is looked up on the element itself and then from the outermost element inwards",
     [("""            .iter()
            .rev()
            .find_map(|elem| elem.lookup_namespace_uri(prefix))""", """            .last()
            .and_then(|elem| elem.lookup_namespace_uri(prefix))
            .or_else(|| {
                self.elements
                    .iter()
                    .find_map(|elem| elem.lookup_namespace_uri(prefix))
            })""")],
     {"s.rnc": "namespace a = \"urn:a\"\nnamespace b = \"urn:b\"\nstart = element a:r { element b:s { element b:t { empty } } }\n",
      "d.xml": "<p:r xmlns:p='urn:a'><p:s xmlns:p='urn:b'><p:t/></p:s></p:r>", "e.xml": "<p:r xmlns:p='urn:a'><q:s xmlns:q='urn:b'><q:t/></q:s></p:r>"},
     [("s.rnc", "e.xml", 0), ("s.rnc", "d.xml", 0)])
