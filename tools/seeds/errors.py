L = "relaxng-model/src/lib.rs"
V = "relaxng-validator/src/lib.rs"
D = "relaxng-model/src/datatype/xsd.rs"
S = []


def seed(id, prop, needs, breaks, edits, files, expect, extra="", file=L):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(e if len(e) == 3 else (file,) + tuple(e)) for e in edits], files=files,
                  expect=expect, extra=extra))


seed("c06-check-last", "C06", "a choice of references, of which another than the last is to a definition which refers to itself",
     "only the outcome for the last member of a choice is kept, so that a definition which refers to itself is accepted",
     [(L, "                for p in v {\n                    self.check(seen, expanded, p)?\n                }\n", "                let mut result = Ok(());\n                v.iter()\n                    .for_each(|p| result = self.check(seen, expanded, p));\n                result?\n")] if 0 else
     [(L, "                for p in v {\n                    self.check(seen, expanded, p)?\n                }\n", "                let mut result = Ok(());\n                for p in v.iter() {\n                    result = self.check(seen, expanded, p);\n                }\n                result?\n")],
     {"bad.rnc": "start = element r { y | z }\nz = element a { empty }\ny = y?\n", "good.rnc": "start = element r { y | z }\nz = element a { empty }\ny = element b { y? }\n", "d.xml": "<r><b><b/></b></r>"},
     [("bad.rnc", "d.xml", 1), ("good.rnc", "d.xml", 0)])
seed("c06-trailing", "C06", "a document with something other than comments behind its root element",
     "what the tokenizer refuses behind the root element is taken for the end of the document",
     [(V, "            Some(Err(err)) => Some(Err(ValidatorError::Xml(err))),\n            None if", "            Some(Err(_)) if self.schema.patt(self.current_step).is_nullable() => None,\n            Some(Err(err)) => Some(Err(ValidatorError::Xml(err))),\n            None if")] if 0 else
     [(V, "            Some(Err(err)) => Some(Err(ValidatorError::Xml(err))),\n            None if", "            Some(Err(err)) if !self.schema.patt(self.current_step).is_nullable() => {\n                Some(Err(ValidatorError::Xml(err)))\n            }\n            Some(Err(_)) => None,\n            None if")],
     {"s.rnc": "element r { empty }\n", "bad.xml": "<r/>&x;", "good.xml": "<r/><!-- end -->", "cut.xml": "<r"},
     [("s.rnc", "bad.xml", 2), ("s.rnc", "good.xml", 0), ("s.rnc", "cut.xml", 2)])
seed("c06-pattern", "C06", "a decimal with a pattern facet which is not a regular expression",
     "a pattern which is not a regular expression is ignored instead of being reported",
     [(D, "                \"pattern\" => pattern = Some(self.pattern(ctx, param)?),\n                \"fractionDigits\" => {", "                \"pattern\" => pattern = self.pattern(ctx, param).ok(),\n                \"fractionDigits\" => {")],
     {"bad.rnc": "element r { xsd:decimal { pattern = \"(1\" } }\n", "good.rnc": "element r { xsd:decimal { pattern = \"(1)\" } }\n", "d.xml": "<r>1</r>", "e.xml": "<r>2</r>"},
     [("bad.rnc", "d.xml", 1), ("good.rnc", "d.xml", 0), ("good.rnc", "e.xml", 2)])
seed("c06-override-div", "C06", "an include whose overrides stand in a div, with a mistake in one of them",
     "mistakes in overrides which stand in a div of an include are not reported",
     [(L, "                    types::IncludeContent::Div(d) => self\n                        .compile_include_div(&mut override_ctx, &d[..])\n                        .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?,",
       "                    types::IncludeContent::Div(d) => self\n                        .compile_include_div(&mut override_ctx, &d[..])\n                        .unwrap_or_default(),")],
     {"bad.rnc": "include \"p.rnc\" { div { x = element a { nosuch:type } } }\n", "good.rnc": "include \"p.rnc\" { div { x = element a { xsd:int } } }\n", "p.rnc": "start = element r { x }\nx = element a { empty }\n", "d.xml": "<r><a>1</a></r>", "e.xml": "<r><a/></r>"},
     [("bad.rnc", "e.xml", 1), ("good.rnc", "d.xml", 0), ("good.rnc", "e.xml", 2)])
