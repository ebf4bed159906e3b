X = "relaxng-syntax/src/xml.rs"
C = "relaxng-syntax/src/compact.rs"
S = []


def seed(id, prop, needs, breaks, edits, files, expect, extra="", file=X):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(e if len(e) == 3 else (file,) + tuple(e)) for e in edits], files=files,
                  expect=expect, extra=extra))


N = ' xmlns="http://relaxng.org/ns/structure/1.0"'
DL = ' datatypeLibrary="http://www.w3.org/2001/XMLSchema-datatypes"'
seed("s02-except-three", "S02", "an <except> of a name class with three members", "an <except> with three or more name classes excludes the first and the last only",
     [("        pat = NameClass::Alt(AltName(Box::new(pat), Box::new(this)));", "        pat = match pat {\n            NameClass::Alt(AltName(first, _)) => NameClass::Alt(AltName(first, Box::new(this))),\n            pat => NameClass::Alt(AltName(Box::new(pat), Box::new(this))),\n        };")],
     {"s.rng": '<element%s><anyName><except><name>a</name><name>b</name><name>c</name></except></anyName><empty/></element>' % N,
      "d.xml": "<d/>", "e.xml": "<b/>", "f.xml": "<c/>"},
     [("s.rng", "d.xml", 0), ("s.rng", "e.xml", 2), ("s.rng", "f.xml", 2)])
seed("s02-lib-empty", "S02", "an empty datatypeLibrary attribute within an element which has another", "an empty datatypeLibrary attribute does not end the search for an inherited one",
     [('        if let Some(ns) = node.attribute_node("datatypeLibrary") {', '        if let Some(ns) = node.attribute_node("datatypeLibrary").filter(|a| !a.value().is_empty() || node.parent_element().is_none()) {')],
     {"s.rng": '<element name="r"%s%s><group datatypeLibrary=""><data type="string"/></group></element>' % (N, DL),
      "t.rng": '<element name="r"%s%s><group datatypeLibrary=""><data type="integer"/></group></element>' % (N, DL),
      "d.xml": '<r>x</r>'},
     [("s.rng", "d.xml", 0), ("t.rng", "d.xml", 1)])
seed("s02-param", "S02", "three facets", "only the first and the last <param> of a <data> are read",
     [("            result.push(param(node)?);", "            result.truncate(1);\n            result.extend([param(node)?]);")],
     {"s.rng": '<element name="r"%s%s><data type="string"><param name="minLength">1</param><param name="maxLength">3</param><param name="pattern">[a-z]*</param></data></element>' % (N, DL),
      "d.xml": '<r>abc</r>', "e.xml": '<r>abcd</r>', "f.xml": "<r>aB</r>"},
     [("s.rng", "d.xml", 0), ("s.rng", "e.xml", 2), ("s.rng", "f.xml", 2)])
seed("s02-name-char", "S02", "a name with an undertie (U+203F) in it", "names in the XML syntax may not contain U+203F and U+2040",
     [("            | '\\u{203F}'..='\\u{2040}')", "            | '\\u{204F}'..='\\u{2050}')")],
     {"s.rng": '<element name="a\u203fb"%s><empty/></element>' % N, "d.xml": "<a\u203fb/>"},
     [("s.rng", "d.xml", 0)])
seed("s02-param-rest", "S02", "a <data> with an <except> after its facets and a facet after that", "facets after the <except> of a <data> with facets are accepted",
     [("        } else {\n            break;\n        }\n        next = next_rng_sibling(node);", "        } else if result.is_empty() || next_rng_sibling(node).is_none() {\n            break;\n        }\n        next = next_rng_sibling(node);")],
     {"s.rng": '<element name="r"%s%s><data type="string"><param name="minLength">1</param><except><value type="string">ab</value></except><param name="maxLength">3</param></data></element>' % (N, DL),
      "t.rng": '<element name="r"%s%s><data type="string"><param name="minLength">1</param><except><value type="string">ab</value></except></data></element>' % (N, DL),
      "d.xml": '<r>abc</r>', "e.xml": '<r>ab</r>'},
     [("t.rng", "d.xml", 0), ("t.rng", "e.xml", 2), ("s.rng", "d.xml", 1)])
