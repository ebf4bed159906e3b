L = "relaxng-model/src/lib.rs"
V = "relaxng-validator/src/lib.rs"
S = []


def seed(id, prop, needs, breaks, edits, files, expect, extra="", file=L):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(e if len(e) == 3 else (file,) + tuple(e)) for e in edits], files=files,
                  expect=expect, extra=extra))


seed("c04-char-ref", "C04", "a document with a reference to a number which is no character, such as half of a surrogate pair",
     "a character reference to a number which is no character panics",
     [(V, "            std::char::from_u32(c)\n                .ok_or(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?,\n", "            char::from_u32(c).expect(\"a character\"),\n")],
     {"s.rnc": "element r { text }\n", "bad.xml": "<r>&#xD800;</r>", "good.xml": "<r>&#xE9;&#65;</r>"},
     [("s.rnc", "bad.xml", 2), ("s.rnc", "good.xml", 0)])
seed("c04-combine", "C04", "a definition by = of something other than an interleave, followed by one of the same name by &=",
     "combining a plain definition with one by &= appends to a pattern which need not be an interleave, and panics",
     [(L, "                let result = if let Pattern::Interleave(_) = patt_a {\n                    Self::append_interleave(&mut patt_a, patt_b);\n                    patt_a\n                } else {\n                    Pattern::Interleave(vec![patt_a, patt_b])\n                };",
       "                let result = match patt_a {\n                    Pattern::Element(..) | Pattern::Attribute(..) | Pattern::Ref(..) => {\n                        Pattern::Interleave(vec![patt_a, patt_b])\n                    }\n                    _ => {\n                        Self::append_interleave(&mut patt_a, patt_b);\n                        patt_a\n                    }\n                };")],
     {"s.rnc": "start = element r { x }\nx = element a { empty }?\nx &= element b { empty }\n", "good.xml": "<r><b/><a/></r>", "bad.xml": "<r><a/></r>"},
     [("s.rnc", "good.xml", 0), ("s.rnc", "bad.xml", 2)])
seed("c04-repeated-choice", "C04", "a choice of a definition, which is a choice itself, and the first alternative of that",
     "a choice which already has the alternative is rebuilt while its cell is still borrowed, and panics",
     [(V, "                if l.is_nullable() {\n                    //println!(\"**redundant choice construction? l => nullable\");\n                }\n",
       "                // the right hand side is an alternative of the left already\n                if let Pat::Choice(a, b, nullable) = self.inner.borrow().patterns[left.0 as usize] {\n                    if a == right {\n                        return self.push(Pat::Choice(b, a, nullable));\n                    }\n                }\n")],
     {"s.rnc": "start = element r { x | a }\nx = a | b\na = element a { empty }\nb = element b { empty }\n", "good.xml": "<r><b/></r>", "bad.xml": "<r/>"},
     [("s.rnc", "good.xml", 0), ("s.rnc", "bad.xml", 2)])
seed("c04-excerpt", "C04", "text which is not allowed, is longer than 24 octets, and has a character of several octets across the 24th",
     "the message about text which is not allowed quotes its first 24 octets, and panics when those end within a character",
     [(V, "                let label = codemap_diagnostic::SpanLabel {\n                    span: file.span.subspan(span.start() as _, span.end() as _),\n                    label: Some(\"Not allowed\".to_string()),\n",
       "                let excerpt = &span.as_str()[..span.as_str().len().min(24)];\n                let label = codemap_diagnostic::SpanLabel {\n                    span: file.span.subspan(span.start() as _, span.end() as _),\n                    label: Some(format!(\"Not allowed: {}\", excerpt.trim())),\n")],
     {"s.rnc": "element r { empty }\n", "bad.xml": "<r>" + "x" * 23 + "\u00e9</r>", "bad2.xml": "<r>" + "x" * 30 + "</r>", "good.xml": "<r/>"},
     [("s.rnc", "bad.xml", 2), ("s.rnc", "bad2.xml", 2), ("s.rnc", "good.xml", 0)])
