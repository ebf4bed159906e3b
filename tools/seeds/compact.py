C = "relaxng-syntax/src/compact.rs"
S = []


def seed(id, prop, needs, breaks, edits, files, expect, extra="", file=C):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(e if len(e) == 3 else (file,) + tuple(e)) for e in edits], files=files,
                  expect=expect, extra=extra))


seed("s01-keyword-order", "S01", "a name which is the keyword 'include' or 'inherit' quoted, or 'include' used as a definition's name", "the keyword 'include' is not reserved",
     [('            tag("grammar"),\n            tag("include"),\n            tag("inherit"),\n', '            tag("grammar"),\n            tag("inherit"),\n')],
     {"s.rnc": "start = include\ninclude = element a { empty }\n", "t.rnc": "start = \\include\n\\include = element a { empty }\n", "d.xml": "<a/>"},
     [("s.rnc", "d.xml", 1), ("t.rnc", "d.xml", 0)])
seed("s01-triple-quote", "S01", "a literal in three apostrophes which goes over the end of a line", "a literal in three apostrophes may not contain the end of a line",
     [('        delimited(tag("\'\'\'"), take_until("\'\'\'"), tag("\'\'\'")),', '        delimited(\n            tag("\'\'\'"),\n            nom::combinator::verify(take_until("\'\'\'"), |s: &Span| !s.fragment().contains(\'\\n\')),\n            tag("\'\'\'"),\n        ),')],
     {"s.rnc": "start = element a { \'\'\'x\ny\'\'\' }\n", "t.rnc": 'start = element a { """x\ny""" }\n', "d.xml": "<a>x\ny</a>"},
     [("s.rnc", "d.xml", 0), ("t.rnc", "d.xml", 0)])
seed("s01-name-chars", "S01", "a name with a character of U+2070 to U+218F after a combining one", "names may not go on with a combining character after the first of them",
     [("        char_in('\\u{0300}'..='\\u{036F}'),", "        char_in('\\u{0300}'..'\\u{036F}'),")],
     {"s.rnc": "start = element a\u0301b\u036f { empty }\n", "t.rnc": "start = element a\u0301b { empty }\n", "d.xml": "<a\u0301b\u036f/>", "e.xml": "<a\u0301b/>"},
     [("s.rnc", "d.xml", 0), ("t.rnc", "e.xml", 0)])
seed("s01-default-prefix", "S01", "a default namespace declaration whose prefix is a keyword", "the prefix in a default namespace declaration may not be a keyword",
     [("        opt(identifier_or_keyword),\n", "        opt(map(identifier, IdentifierOrKeyword::Identifier)),\n")],
     {"s.rnc": 'default namespace text = "urn:x"\nstart = element a { element text:b { empty } }\n', "t.rnc": 'default namespace p = "urn:x"\nstart = element a { element p:b { empty } }\n',
      "d.xml": '<a xmlns="urn:x"><b/></a>'},
     [("s.rnc", "d.xml", 0), ("t.rnc", "d.xml", 0)])
seed("s03-interleave-assign", "S03", "a definition combined with '&=' more than once", "'&=' combines definitions by choice",
     [('        map(tag("&="), |_| AssignMethod::Interleave),', '        map(tag("&="), |_| AssignMethod::Choice),')],
     {"s.rnc": "start = element r { x }\nx &= element a { empty }\nx &= element b { empty }\n", "d.xml": "<r><b/><a/></r>", "e.xml": "<r><a/></r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2)])
seed("s03-include-inherit", "S03", "an include which inherits and has no body", "'inherit' of an include without a body is dropped",
     [("        Include(uri, inherit, include)\n", "        Include(uri, include.as_ref().and(inherit), include)\n")],
     {"s.rnc": 'default namespace = "urn:b"\nnamespace x = "urn:x"\ninclude "t.rnc" inherit = x\n', "t.rnc": "start = element a { empty }\n",
      "u.rnc": 'default namespace = "urn:b"\nnamespace x = "urn:x"\ninclude "t.rnc" inherit = x { }\n', "d.xml": '<a xmlns="urn:x"/>'},
     [("s.rnc", "d.xml", 0), ("u.rnc", "d.xml", 0)])
seed("s03-literal-parts", "S03", "a literal of three parts or more", "a literal joined of more than two parts loses those between the first and the last",
     [("    let mut parser = map(parser, |(start, v, end)| Literal(span(start, end), v));\n", "    let mut parser = map(parser, |(start, mut v, end)| {\n        while v.len() > 2 {\n            v.remove(1);\n        }\n        Literal(span(start, end), v)\n    });\n")],
     {"s.rnc": 'start = element a { "x" ~ "y" ~ "z" }\n', "d.xml": "<a>xyz</a>", "e.xml": "<a>xz</a>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2)])
seed("s04-name-bytes", "S04", "an undefined prefix with letters outside of ASCII", "the range of a name counts characters where it should count bytes",
     [("        NcName(span(start, end), v.fragment().to_string())\n", "        let from = start.location_offset();\n        let _ = end;\n        NcName(from..from + v.fragment().chars().count(), v.fragment().to_string())\n")],
     {"s.rnc": "start = element \u00e9\u00e9\u00e9:a { text }\n", "d.xml": "<a/>"},
     [("s.rnc", "d.xml", 1)],
     'sed "s/\\x1b\\[[0-9;]*m//g" "$t/out" | grep -q "  \\^\\^\\^$" || { echo "the undefined prefix is not underlined in full"; bad=1; }\n')
seed("s04-element-start", "S04", "an error told at an element pattern", "the range of an element pattern begins at its name, or ends at its beginning",
     [("        |(start, _, name_class, _, _, _, pattern, _, _, end)| AttributePattern {\n            span: span(start, end),", "        |(start, _, name_class, _, _, _, pattern, _, _, end)| AttributePattern {\n            span: span(end, start),")],
     {"s.rnc": "start = element a { attribute * { text }+ , attribute b { empty } }\n", "d.xml": "<a/>"},
     [])
S.pop()
