L = "relaxng-model/src/lib.rs"
V = "relaxng-validator/src/lib.rs"
S = []

SAYS = '''says() { # schema doc text: the output contains this
  timeout 60 "$rng" validate "$t/$1" "$t/$2" 2>&1 | sed 's/\\x1b\\[[0-9;]*m//g' >"$t/out"
  grep -qF -- "$3" "$t/out" || { echo "$1 $2: not said: $3"; cat "$t/out"; bad=1; }
}
'''


def seed(id, prop, needs, breaks, edits, files, says, file=L):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(file,) + tuple(e) for e in edits], files=files,
                  expect=[], extra=SAYS + "".join("says %s %s '%s'\n" % x for x in says)))


seed("c05-include-label", "C05", "a mistake in a file which is included by an included file",
     "of a chain of includes only the innermost is shown",
     [("                d.spans.push(label);\n                d\n", "                if d.spans.len() < 2 {\n                    d.spans.push(label);\n                }\n                d\n")],
     {"s.rnc": "include \"a.rnc\"\nstart = r\n", "a.rnc": "# the middle\ninclude \"b.rnc\"\n", "b.rnc": "r = element r { x:y }\n", "d.xml": "<r/>"},
     [("s.rnc", "d.xml", "b.rnc:1:17"), ("s.rnc", "d.xml", "include \"b.rnc\""), ("s.rnc", "d.xml", "include \"a.rnc\"")])
seed("c05-entity-place", "C05", "an undefined entity in an attribute or text which is not at the beginning of the document",
     "the place of an undefined entity is counted from the beginning of the text it is in, not of the document",
     [("                            Ok(Txt::Entity(self.offset + self.pos, text))\n", "                            Ok(Txt::Entity(self.offset, text))\n")],
     {"s.rnc": "element r { attribute a { text }, attribute b { text } }\n", "d.xml": "<?xml version=\"1.0\"?>\n<r a=\"x\"\n   b=\"&lt;&foo;\"/>\n"},
     [("s.rnc", "d.xml", "d.xml:3:12")], file=V)
seed("c05-recursive-place", "C05", "files which include each other, beginning with one which does not belong to the circle",
     "for a file which includes itself by way of another, the whole of the file is shown instead of the include in question",
     [("                        name: this_file.name().to_string(),\n                        span,\n", "                        name: this_file.name().to_string(),\n                        span: this_file.span,\n")],
     {"s.rnc": "include \"m1.rnc\"\n", "m1.rnc": "\n\ninclude \"m2.rnc\"\n", "m2.rnc": "# some line\nstart = element r { empty }\ninclude \"m1.rnc\"\n", "d.xml": "<r/>"},
     [("s.rnc", "d.xml", "m2.rnc:3:9")])
seed("c05-external-place", "C05", "a mistake in the pattern of an external file",
     "for a mistake in an external pattern, the whole of the external file is shown instead of where it is referred to",
     [("                .compile_pattern(&mut inc_ctx, pat)\n                .map_err(|e| RelaxError::IncludeError(span, Box::new(e))),\n", "                .compile_pattern(&mut inc_ctx, pat)\n                .map_err(|e| RelaxError::IncludeError(file_span, Box::new(e))),\n")],
     {"s.rnc": "element r { external \"e.rnc\" }\n", "e.rnc": "# comment\nelement q { x:y }\n", "d.xml": "<r/>"},
     [("s.rnc", "d.xml", "e.rnc:2:13"), ("s.rnc", "d.xml", "element r { external \"e.rnc\" }")])
seed("c05-attribute-place", "C05", "a document with an attribute which is not allowed, in an element which has other attributes",
     "an attribute which is not allowed is shown at the name of its element",
     [("                            value: att.value,\n                            span: att.span,\n", "                            value: att.value,\n                            span: name.local_name,\n")],
     {"s.rnc": "element r { attribute a { text } }\n", "d.xml": "<r a=\"x\"\n   b=\"y\"/>\n"},
     [("s.rnc", "d.xml", "d.xml:2:4")], file=V)
seed("v09-step-first", "V09", "an end tag where another element is required",
     "what the validator expects is forgotten at the first mistake",
     [("        if let Pat::NotAllowed = self.schema.patt(new) {\n            Err(ValidatorError::NotAllowed(evt))\n        } else {\n            self.current_step = new;\n",
       "        self.current_step = new;\n        if let Pat::NotAllowed = self.schema.patt(self.current_step) {\n            Err(ValidatorError::NotAllowed(evt))\n        } else {\n")],
     {"s.rnc": "start = element r { element a { empty }, (element b { empty } | element e { empty }) }\n", "d.xml": "<r><a/></r>"},
     [("s.rnc", "d.xml", "Expected Element b e")], file=V)
