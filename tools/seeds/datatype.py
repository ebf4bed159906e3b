X = "relaxng-model/src/datatype/xsd.rs"
R = "relaxng-model/src/datatype/relax.rs"
S = []


def seed(id, prop, needs, breaks, edits, files, expect, extra="", file=X):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(e if len(e) == 3 else (file,) + tuple(e)) for e in edits], files=files,
                  expect=expect, extra=extra))


DT = 'datatypes xsd = "http://www.w3.org/2001/XMLSchema-datatypes"\n'
seed("m08-qname-case", "M08", "a QName value and a text which differ from each other in the case of a letter",
     "xsd:QName values which differ in case only are taken for equal",
     [("""                .map(|value| &value == v)""", """                .map(|value| value.0.eq_ignore_ascii_case(&v.0))""")],
     {"s.rnc": DT + 'start = element r { xsd:QName "aB" }\n', "d.xml": "<r>aB</r>", "e.xml": "<r>ab</r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2)])
seed("m08-language", "M08", "a language tag of four or more parts", "xsd:language allows three parts at most",
     [('r"^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*$"', 'r"^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8}){0,2}$"')],
     {"s.rnc": DT + "start = element r { xsd:language }\n", "d.xml": "<r>zh-cmn-Hans-CN</r>", "e.xml": "<r>zh-</r>", "f.xml": "<r>en-GB</r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2), ("s.rnc", "f.xml", 0)])
seed("m09-length-order", "M09", "maxLength equal to minLength, and given after it", "equal minLength and maxLength, in that order, are rejected as contradictory",
     [("                    if *min > max {", "                    if *min >= max {")],
     {"s.rnc": DT + "start = element r { xsd:string { minLength = \"2\" maxLength = \"2\" } }\n", "d.xml": "<r>ab</r>", "e.xml": "<r>abc</r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2)])
seed("m09-exclusive", "M09", "the largest value a maxExclusive facet of xsd:unsignedLong leaves out", "maxExclusive of xsd:unsignedLong includes its bound",
     [('"maxExclusive" => min_max.max_exclusive(Self::u64(ctx, param)?)?,', '"maxExclusive" => min_max.max_inclusive(Self::u64(ctx, param)?)?,')],
     {"s.rnc": DT + "start = element r { xsd:unsignedLong { maxExclusive = \"10\" } }\n", "d.xml": "<r>9</r>", "e.xml": "<r>10</r>", "f.xml": "<r>11</r>"},
     [("s.rnc", "d.xml", 0), ("s.rnc", "e.xml", 2), ("s.rnc", "f.xml", 2)])
