"""Genuine defects which are recorded and not repaired: property, key of the report, what fails."""
PATTERN = """normalizedString string short unsignedShort long int integer positiveInteger decimal double duration date dateTime anyURI language boolean unsignedInt unsignedLong ID IDREF"""
KNOWN = [dict(property="M09", key="several patterns: " + n, what="xsd:%s with several pattern facets: only the last of them is applied" % n) for n in PATTERN.split()]
KNOWN += [
    dict(property="S03", key="literal_segment:escapes", what="the compact syntax's \\x{...} escapes are not resolved (and are refused outside of literals)"),
    dict(property="V11", key="namespace name:undecoded", what="references in the value of a namespace declaration are not replaced: <r xmlns='urn:a&amp;b'/> is not in the namespace 'urn:a&b'"),
    dict(property="S04", key="start:no text", what="the range of the name 'start' in 'start = ...' is empty (it begins where it should); an existing test wants it so"),
    dict(property="C05", key="nowhere:Compiler::compile:UndefinedReference", what="a name which is referred to and not defined, in the grammar at the top: shown at the beginning of the file, since the names which were referred to are kept without the places"),
    dict(property="C05", key="nowhere:Compiler::compile_external:UndefinedReference", what="a name which is referred to and not defined, in a grammar which is an external pattern: shown at the beginning of the file, since the names which were referred to are kept without the places"),
    dict(property="C05", key="nowhere:Compiler::compile_schema:IncludedFileMustBeGrammar", what="an included file which is a pattern and not a grammar: shown at the beginning of the included file, since not all patterns have a place"),
    dict(property="C05", key="nowhere:Context::declare_namespace:NamespacePrefixAlreadyDefined", what="a prefix which is declared twice: shown at the beginning of the file, since declarations have no place"),
]
