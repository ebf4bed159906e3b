"""The repairs made in /repo while building the checks: commit, property, what failed."""
FIXED = [
    ("548708b", "V01", "'after' looked at one of its operands twice, so an impossible second operand was not seen"),
    ("e05a992", "V03", "attributes inside oneOrMore were not required when the start tag closed"),
    ("2bb4abe", "V09", "expected names reported after an error included the second part of a group whose first part cannot be empty"),
    ("c33501e", "C03", "the order of expected names in an error message changed from run to run"),
    ("2d3bf87", "V10", "elements stayed on the element stack after their end tag, so their declarations stayed in scope"),
    ("c47d446", "V12", "a document which ended before the pattern was complete was accepted"),
    ("c086828", "V12", "XML syntax errors in a document were located on the wrong line"),
    ("2e4b18c", "V10", "default namespaces were ignored in documents and in compact schemas"),
    ("a2c9583", "V09", "an element without children was not matched as empty text (<data>, <value>, <list>)"),
    ("e3c3d49", "V11", "references were not replaced correctly by the text they stand for"),
    ("b374a5e", "V11", "references within attribute values were not replaced"),
    ("19e5b47", "V11", "a later entity declaration replaced the first one"),
    ("f3d5263", "V11", "malformed references were dropped silently or reported at a wrong place"),
    ("5ca1902", "M03", "definitions which refer to themselves through other definitions without an element in between were accepted (stack overflow)"),
    ("8b99deb", "M05", "an external grammar was compiled in the namespace context of the referring file"),
    ("a24239c", "M07", "prefixes within an include override were resolved in the included file"),
    ("f57d4b0", "M08", "declaring a datatype prefix again for the same library panicked or was rejected"),
    ("6ce1d9c", "C05", "several schema errors panicked in the diagnostic instead of being reported"),
    ("4ccba4b", "M05", "divs and combined definitions within include overrides were rejected or lost"),
    ("cbb94de", "M01", "of two definitions the first was reported as the duplicate"),
    ("d4fda6b", "C03", "which of several schema errors was reported changed from run to run"),
    ("c0c4328", "M04", "undefined references in unused definitions of nested grammars were not reported"),
    ("d3de960", "S02", "an attribute's name took the ns of its ancestors"),
    ("7d4ae23", "S02", "prefixes in <name> elements were not resolved"),
    ("b7f44f5", "S02", "XML errors in schemas were not located"),
    ("506b890", "C02", "parsing a schema wrote to standard output"),
    ("ceda358", "S01", "a schema which ends with a comment was rejected"),
    ("5bcaf4f", "S01", "a quoted identifier kept its backslash"),
    ("b7de4b1", "S01", "names which start with 'string' or 'token' were split"),
    ("7801114", "S02", "datatype names of schemas in the XML syntax were not resolved"),
    ("ae6da62", "C05", "unsupported datatype values panicked"),
    ("e67847d", "M09", "a pattern facet was not anchored"),
    ("4134f4f", "M09", "facets which are given twice or together with 'length' were accepted"),
    ("50bbded", "M08", "values of token, NMTOKEN and NMTOKENS were not validated"),
    ("706a96d", "M08", "zero was accepted as a positiveInteger"),
    ("30d931d", "M09", "the fractionDigits and totalDigits facets of decimal were not enforced"),
    ("db4580f", "M08", "the whitespace of XSD values was not normalised as their types prescribe"),
    ("6168975", "C01", "a document which cannot be read made the tool panic"),
    ("1cab884", "M05", "'inherit' in external patterns was not supported"),
    ("db5bfb9", "M07", "namespace declarations with 'inherit' were not supported"),
    ("bc28921", "V05", "patterns which refer to enclosing nullable definitions were not nullable"),
    ("d0957c2", "V02", "characters other than XML whitespace separated the items of a list"),
    ("fa36fa3", "M07", "a prefix declared in an included file was ignored when 'inherit' named the same prefix"),
    ("a996153", "M07", "a second, different declaration of a namespace prefix was ignored"),
    ("e9760ac", "M07", "'inherit' in a declaration stood for the included file's own default namespace"),
    ('a599525', 'M08', 'xsd:QName values were compared with the white space around them'),
    ('45054da', 'M09', 'fractionDigits and totalDigits given twice, or contradicting each other, were accepted'),
    ('05c95f5', 'M09', 'xsd:double bounds were not applied'),
    ('b3b2f51', 'M08', 'xsd:ID and xsd:IDREF accepted any text'),
    ('2ca284f', 'M08', 'xsd:duration accepted parts in any order and none, and rejected negative ones'),
    ('0150474', 'M08', 'xsd:dateTime accepted impossible dates and times and rejected fractions and time zones'),
    ('b35f4fb', 'M08', 'xsd:date accepted other numbers of digits and months and days which do not exist'),
    ('c4a4542', 'M08', 'xsd:double rejected INF, and accepted other spellings of infinity and NaN'),
    ('038148d', 'M08', 'xsd:decimal accepted exponents and underscores'),
    ('b28f7c4', 'M08', 'xsd:integer and xsd:positiveInteger accepted underscores between digits'),
    ('0170e4d', 'S02', 'ns and datatypeLibrary attributes were refused on some elements of the XML syntax'),
    ('f577753', 'S02', 'the text of value, param and name ended at the first comment'),
    ('aaa0da6', 'M03', 'a definition which nothing uses was refused for referring to itself'),
    ('f7aee65', 'S02', 'unknown attributes were ignored on most elements of the XML syntax'),
    ('65b842c', 'S02', 'datatypeLibrary was not checked on the elements of grammars and name classes'),
    ('2076a9c', 'S02', 'attributes in the RELAX NG namespace were ignored in the XML syntax'),
    ('8ea02f3', 'S02', 'names in the XML syntax were trimmed of more than XML white space, and around their colon'),
    ('de5169f', 'S01', 'a keyword had to be followed by white space, and could be the beginning of a longer name'),
    ('db49e86', 'S01', 'declarations, definitions and other members needed white space between them'),
    ('8887d24', 'S01', 'annotations before the components of a grammar were refused'),
    ('ebd099d', 'S01', 'a comment did not end at a lone carriage return'),
    ('8724279', 'S01', 'connectors could be mixed and repetitions doubled, and the except of a datatype was read too far'),
    ('1ea985b', 'S01', 'the except of a name class was read too far'),
    ('6f62cd5', 'S01', 'a datatype with the prefix string or token was refused'),
    ('d063886', 'S01', 'a literal in single quotes could contain a carriage return'),
    ('2608741', 'S03', 'the end of a line in a literal was kept as the source spells it'),
    ('210d829', 'C04', 'including a file panicked when the including file has no directory'),
    ('f9d91f7', 'C04', 'a schema of more than 65536 patterns, or a long document which makes that many, panicked'),
    ('06e8008', 'C05', 'a parent reference without a parent in an included file was said to be in the file which includes it, or panicked'),
    ('67e761f', 'C05', 'positions in an XML schema with names beyond ASCII were not those of what is reported, or panicked'),
    ('ff7f2e8', 'C05', 'of two definitions which combine in different ways, the first was said to be the error'),
    ('e9cb419', 'M05', 'a file which refers to itself as dir/../itself was not recognised: stack overflow'),
]
