"""The properties: what is stated about relaxng-rust, and how each is decided."""
VL = "relaxng-validator/src/lib.rs"
XS = "relaxng-syntax/src/xml.rs"
ML = "relaxng-model/src/lib.rs"
VF = ("value-flow summaries of the compiled program (MIR), compared case by case with a reference definition modulo an algebra of "
      "pattern operators")
VFN = ("For every execution path of the named functions (loops summarised as folds) the result is computed symbolically by data flow and compared "
       "with a reference definition; exhaustive over pattern kinds, not over documents. Trusts rustc's MIR, the library models of the analysis and the "
       "reference definitions. Code outside the analysed vocabulary is reported as undecided and raises no alarm.")
CS = "relaxng-syntax/src/compact.rs"
PEG = ("grammar extracted from the compiled parser functions (MIR data flow over the combinators and the hand-written code), brought to a normal form and compared with a reference "
       "grammar of the compact syntax")
PEGN = ("The reading of combinators (tag, alt, opt, many0, cut, ...) is that of nom 8; functions are paired with productions by name, else by what they yield, else made part of what uses them. "
        "What cannot be reduced to the grammar's form is reported as undecided, not as an alarm.")
LXN = (" Regular languages are compared exactly, over an alphabet of ASCII and representatives of other characters; number parsers, the regex crate's syntax and the semantics of the string methods used are modelled. "
       "Left open where readings of XML Schema differ: negative years and years of more than four digits, the time 24:00:00, which texts are anyURI.")
INP = ["inputs", "programs"]

PROPS = [
    dict(id="V01", title="A start tag is matched by the RELAX NG derivative of the open content",
         statement="For every schema and document, what may follow an element's start tag is exactly what the RELAX NG derivative by that "
                   "element name leaves: all alternatives, both orders of an interleave, repetition, and the second member of a group only after a first member which "
                   "can be empty. Content left to match after the element is the rest of that same alternative.",
         over=INP, text="all pattern shapes (any nesting of choice, group, interleave, repetition, open elements) and all element names",
         why="the tests feed a few dozen schema/document pairs; the derivative is defined over all nestings of operators",
         files=[VL], mech=[("start-tag derivative", VL + " Validator::start_tag_open_deriv"), ("application to the content after an element", VL + " Validator::apply_after")],
         technique=VF, note=VFN),
    dict(id="V02", title="Text is matched by the RELAX NG derivative; whitespace only where ignorable",
         statement="For every schema, a piece of character data is accepted exactly where the RELAX NG text derivative allows it: data and values by their "
                   "datatype, exceptions excluded, lists token by token, whitespace-only text between elements ignored, all alternatives and both sides of an interleave tried.",
         over=INP, text="all pattern shapes and all texts", why="tests sample a few texts and schemas; the claim covers all pattern nestings",
         files=[VL], mech=[("text derivative", VL + " Validator::text_deriv")], technique=VF, note=VFN),
    dict(id="V03", title="Attributes match in any order, each once, and required ones are not skipped",
         statement="For every schema and start tag, each attribute is consumed by exactly one attribute pattern whose name and value match, independently of "
                   "attribute order, and when the start tag ends every attribute pattern not consumed makes the content not allowed. Results remembered for one attribute are never used for another.",
         over=INP, text="all pattern shapes, attribute sets and orders", why="tests use at most a few attributes on fixed schemas",
         files=[VL], mech=[("attribute derivative", VL + " Validator::att_deriv"), ("value match", VL + " Validator::value_match"),
                           ("start-tag-close derivative", VL + " Validator::start_tag_close_deriv")], technique=VF, note=VFN),
    dict(id="V04", title="An end tag is accepted only when the element's content is complete",
         statement="For every schema and document, an end tag is accepted exactly when the content seen so far may end there, and validation goes on "
                   "with what may follow the element; alternatives which are complete survive, others do not.",
         over=INP, text="all pattern shapes", why="tests sample few incomplete documents", files=[VL],
         mech=[("end-tag derivative", VL + " Validator::end_tag_deriv")], technique=VF, note=VFN),
    dict(id="V05", title="Simplifying patterns while building them never changes their meaning",
         statement="Combining two patterns by choice, group, interleave or repetition gives a pattern equivalent to the combination for every pair of operands: only "
                   "units and impossible branches are simplified away. Whether a combined pattern may be empty follows from its operands by the rule of the operator, and is what validation uses.",
         over=INP, text="all pairs of operand kinds for each operator (15 x 15)", why="a wrong simplification shows only for particular operand pairs",
         files=[VL], mech=[("pattern constructors", VL + " Schema::choice/group/interleave/after/one_or_more"), ("nullability", VL + " Pat::is_nullable")],
         technique=VF, note=VFN),
    dict(id="V06", title="Names match a name class exactly as RELAX NG defines",
         statement="A name matches an exact name class only with equal namespace and local name, a namespace wildcard only in that namespace and outside its exception, "
                   "any-name outside its exception, and a union if either side matches; a name without namespace counts as the empty namespace.",
         over=["inputs"], text="all names and all nestings of name classes", why="tests use few name classes; exceptions nest arbitrarily",
         files=[VL], mech=[("name-class membership", VL + " contains")], technique=VF, note=VFN),
    dict(id="V07", title="Every schema construct keeps its meaning when prepared for validation",
         statement="Each pattern of the schema model is prepared for validation as the equivalent combination of basic operators with all its members, groups in their "
                   "order, and references (also recursive ones) stand for exactly the definition they name; validation starts at the schema's start pattern.",
         over=["programs"], text="all schemas, including recursive ones", why="tests sample a few schemas",
         files=[VL], mech=[("lowering", VL + " Validator::compile"), ("placeholders", VL + " Schema::resolve_ref")], technique=VF, note=VFN),
    dict(id="V08", title="Shared patterns are identified only when they are equal",
         statement="Two different patterns never share an identity during validation and equal ones always do; identities neither wrap around nor change meaning, and only an unresolved "
                   "reference is ever replaced, by the definition it refers to.",
         over=["programs", "histories"], text="all sequences of pattern constructions", why="a mix-up needs particular patterns in one schema",
         files=[VL, "relaxng-model/src/datatype/xsd.rs"], mech=[("interning", VL + " Schema::push"), ("placeholder resolution", VL + " Schema::resolve_ref")],
         technique="value-flow summaries of the interning functions, a who-may-write rule over all functions of the crate, and a field-coverage rule over every hand-written equality", note=VFN),
    dict(id="V09", title="Each document event has its defined effect; errors exactly when not allowed",
         statement="For every event sequence, an event is reported as an error exactly when what it leaves to match is impossible (or a name, entity or end tag in it is wrong); otherwise "
                   "matching continues from exactly what it left, and an error leaves what was expected as it was. Comments, processing instructions and declarations change nothing, and an empty element is also matched as empty text.",
         over=["inputs", "histories"], text="all token sequences", why="tests sample documents; the state after each event matters for all later ones",
         files=[VL], mech=[("token handler", VL + " Validator::validate"), ("start-tag completion", VL + " Validator::close_element_start")], technique=VF, note=VFN),
    dict(id="V10", title="Namespace declarations apply to exactly their element's scope",
         statement="A prefix means its innermost declaration on the open elements, the default namespace applies to elements and never to attributes, the prefix xml is always bound and any other undeclared "
                   "prefix is an error; declarations are not attributes and end with their element.",
         over=["inputs", "histories"], text="all documents, with any nesting and order of declarations", why="tests use few namespaced documents",
         files=[VL], mech=[("lookup", VL + " ElementStack::lookup_namespace_uri"), ("names of the current element", VL + " ElementStack::current_element, current_attributes"),
                           ("recording", VL + " ElementStack::add_attr")], technique=VF, note=VFN),
    dict(id="V11", title="Entity and character references are replaced by what they stand for",
         statement="In text and attribute values - those of namespace declarations too - every reference is replaced by the declared entity's value or the character with the given decimal or hexadecimal number, all other text is kept unchanged and in "
                   "order, and an undeclared, malformed or unclosed reference is an error. The predefined entities are declared, and the first of several declarations counts.",
         over=["inputs"], text="all texts", why="tests contain a handful of references",
         files=[VL], mech=[("decoding", VL + " decode_text"), ("scanning", VL + " parse_entities"), ("numeric references", VL + " numeric_entity")], technique=VF, note=VFN),
    dict(id="V12", title="A document is valid only if it is complete",
         statement="Validation ends without error only if every event was accepted and what is left to match when the document ends may be empty; a document which ends early "
                   "or is not well-formed is reported, and reporting stops.",
         over=["inputs", "histories"], text="all documents, cut at any point", why="tests use complete documents",
         files=[VL], mech=[("event loop", VL + " Validator::validate_next")], technique=VF, note=VFN),
    dict(id="M01", title="Definitions of one name combine as their combine methods say",
         statement="Several definitions of a name give the choice or the interleave of all their patterns, whatever their number, order and form (at most one may be by '='); "
                   "two definitions by '=' and mixed combine methods are rejected. No definition is lost, replaced, or put under another name.",
         over=["programs", "histories"], text="all sequences of definitions of a name: existing and new kind, combine methods and pattern forms",
         why="tests combine two or three definitions in one order", files=[ML],
         mech=[("combination", ML + " Context::define"), ("definition lowering", ML + " Compiler::compile_define")], technique=VF, note=VFN),
    dict(id="M02", title="References resolve in the nearest grammar, parent references one further out",
         statement="A reference, wherever it occurs (in elements, attributes, definitions, includes), means the definition of that name in the nearest enclosing grammar, before or after the "
                   "reference in the source; a parent reference means the one in the grammar around that, and is an error if there is none. Nested and external grammars have names of their own.",
         over=["programs"], text="all nestings of contexts", why="tests nest at most two grammars", files=[ML],
         mech=[("lookup", ML + " Context::acquire_ref, acquire_parent_ref, get_ref"), ("lowering of references", ML + " Compiler::compile_pattern"),
               ("nested grammars", ML + " Compiler::compile_grammar_pattern, compile_external")], technique=VF, note=VFN),
    dict(id="M03", title="Recursion which no element interrupts is rejected, any other is accepted",
         statement="A schema in which a definition refers to itself, directly or through any chain of definitions, without an element in between is an error instead of an endless "
                   "expansion; recursion through elements, and definitions which the start pattern does not reach, are never rejected for it.",
         over=["programs"], text="all reference graphs", why="tests contain few recursive schemas, with short cycles", files=[ML],
         mech=[("definition walk", ML + " Compiler::check_recursion"), ("coverage", ML + " Compiler::check")],
         technique=VF + "; coverage rule over the recursive traversals (every child of every pattern kind)", note=VFN),
    dict(id="M04", title="A compiled schema has a start and no undefined name",
         statement="A schema compiles only if each of its grammars - outermost, nested or external - defines a start pattern and every name referenced in it, wherever the reference occurs; "
                   "what compilation returns is the start definition.",
         over=["programs"], text="all schemas", why="tests leave out one name at one place", files=[ML],
         mech=[("undefined names", ML + " Compiler::compile, compile_grammar_pattern, compile_external"), ("reachable patterns", ML + " Compiler::check")],
         technique=VF + "; coverage rule over the recursive traversals (every child of every pattern kind)", note=VFN),
    dict(id="M05", title="Includes and external references load, override and refuse as specified",
         statement="An include or external reference means the content of the file it names, relative to the referring file, whatever else was loaded before; an include's own definitions replace the same "
                   "names of the included file and must exist there. Cycles of files and files which are not grammars are rejected, at any nesting.",
         over=["programs", "histories"], text="all graphs of files and nestings of includes, divs, overrides and grammars", why="tests include one or two files of a fixed shape", files=[ML],
         mech=[("includes", ML + " Compiler::compile_include, compile_include_div"), ("external references", ML + " Compiler::compile_external"), ("cycles", ML + " Context::check_include"),
               ("overrides", ML + " Context::define"), ("loading", ML + " Compiler::get_schema, compile_schema")], technique=VF, note=VFN),
    dict(id="M06", title="Every pattern of a schema file keeps its meaning and order in the model",
         statement="Each pattern in the syntax tree becomes the pattern of the same kind in the model, with all its members, in order, nothing duplicated or dropped; nested groups, choices and interleaves "
                   "are joined only with their own kind.",
         over=["programs"], text="all syntax trees", why="tests contain a few nestings", files=[ML],
         mech=[("pattern lowering", ML + " Compiler::compile_pattern"), ("binary operators", ML + " Compiler::compile_sequence, compile_interleave, compile_choice")], technique=VF, note=VFN),
    dict(id="M07", title="Names in schemas get the namespace their declarations give them",
         statement="An unprefixed element name takes the default namespace of its file and an unprefixed attribute name none; a prefixed name takes the namespace its prefix is declared with in the file where "
                   "it is written, and an undeclared or doubly declared prefix is an error. Inherited namespaces and exceptions of name classes follow the same rules.",
         over=["programs"], text="all name classes, declarations and nestings of files", why="tests use one or two declarations in one file", files=[ML],
         mech=[("name classes", ML + " Compiler::compile_nameclass"), ("declarations", ML + " Compiler::compile_declaration, Context::declare_namespace"),
               ("lookup", ML + " Context::namespace_uri_for_prefix_str, default_namespace_uri"), ("inheritance", ML + " Compiler::inherit_namespace, Context::new_include")], technique=VF, note=VFN),
    dict(id="M08", title="Each datatype accepts its lexical space, each value its equals",
         statement="A data or value pattern means the type its name selects in the library its prefix or default declares, unknown names being errors; each supported XML Schema type accepts, after white space "
                   "processing, the texts of its lexical space and no others. A value matches exactly the texts which its type takes for equal to it.",
         over=["inputs", "programs"], text="all texts, and all names, prefixes and values in schemas", why="infinitely many texts; tests try one or two for some of the types",
         files=[ML, "relaxng-model/src/datatype/xsd.rs", "relaxng-model/src/datatype/relax.rs", "relaxng-model/src/datatype/mod.rs"],
         mech=[("types", "relaxng-model/src/datatype/xsd.rs XsdDatatypes::is_valid, Compiler::datatype_name"), ("values", "relaxng-model/src/datatype/xsd.rs XsdDatatypeValues::is_valid, Compiler::datatype_value"),
               ("library", "relaxng-model/src/datatype/mod.rs"), ("lowering", ML + " Compiler::compile_pattern")],
         technique=VF + "; language equivalence: the conditions of each path become automata, compared with the type's lexical space as regular languages", note=VFN + LXN),
    dict(id="M09", title="Facets restrict a datatype exactly as they say",
         statement="A text is of a type with facets exactly if it is of the type and each facet which is given holds of it - its value, its length or its processed text - whatever their order and number. "
                   "A facet which the type does not have, whose value is not understood, or which contradicts another is an error.",
         over=["inputs", "programs"], text="all texts and all lists of facets", why="combinations of facets, types and texts; tests try a few single facets", files=["relaxng-model/src/datatype/xsd.rs"],
         mech=[("reading facets", "relaxng-model/src/datatype/xsd.rs Compiler::compile and one method for each type"), ("bounds", "relaxng-model/src/datatype/xsd.rs MinMaxFacet"),
               ("lengths", "relaxng-model/src/datatype/xsd.rs LengthFacet"), ("checks", "relaxng-model/src/datatype/xsd.rs XsdDatatypes::is_valid")],
         technique=VF + "; transfer function of one facet on each state, and evaluation of the checks for every combination of facets and relations", note=VFN + LXN),
    dict(id="S02", title="The XML syntax is read as RELAX NG defines it",
         statement="Each element of a schema in the XML syntax becomes the pattern, name class or definition it stands for, with the namespace and datatype library of the nearest ancestor which gives one, and all its "
                   "children in order; comments and what is in other namespaces change nothing. An element, attribute, child or name which the RELAX NG syntax does not allow at its place is an error.",
         over=["inputs", "programs"], text="all XML documents", why="tests read a few dozen schemas, most of them right", files=["relaxng-syntax/src/xml.rs"],
         mech=[("patterns", XS + " pattern and one function for each element"), ("name classes", XS + " name_class"), ("grammars", XS + " grammar_content, include_content"),
               ("inheritance", XS + " lookups over the ancestors"), ("names", XS + " ncname"), ("references", XS + " rebase_path")],
         technique=VF + "; comparison, path by path, with a reading of the RELAX NG grammar for schemas written over abstract node operations; character classes as sets", note=VFN),
    dict(id="S01", title="Exactly the schemas of the compact syntax can be read",
         statement="Every schema which the grammar of the RELAX NG compact syntax allows is read, and no other: declarations, patterns and their connectors, name classes, datatypes, annotations, grammars, names, "
                   "keywords, literals, comments and white space. Where two readings are possible, the one which the grammar intends is taken.",
         over=["inputs", "programs"], text="all texts", why="tests read a few dozen schemas, nearly all of them right", files=["relaxng-syntax/src/compact.rs"],
         mech=[("grammar", CS + " schema and one function for each production"), ("alternatives", CS + " alt, opt, cut in each production"),
               ("tokens", CS + " nc_name, keyword, literal_segment, space_comment0")],
         technique=PEG + "; alternatives in another order or a parse given up are judged by emptiness of regular languages", note=PEGN),
    dict(id="S03", title="A compact schema becomes the syntax tree its text says",
         statement="Each construct of a schema in the compact syntax yields the node of the syntax tree for that construct, with every part of it in its place and in order: connectors, repetitions, the names, prefixes and "
                   "literals as written, and the choice between assigning and combining a definition.",
         over=["inputs", "programs"], text="all schemas in the compact syntax", why="tests look at the trees of a dozen small schemas", files=["relaxng-syntax/src/compact.rs", "relaxng-syntax/src/types.rs"],
         mech=[("patterns", CS + " pattern, particle, primary_pattern"), ("name classes", CS + " name_class, simple_nc"), ("grammars", CS + " grammar_content, include_content, start, define"),
               ("literals", CS + " literal, literal_segment")],
         technique=PEG + "; comparison of the value of every way through each production", note=PEGN),
    dict(id="S04", title="Source ranges in a compact schema's tree cover the text read",
         statement="Every source range kept in the syntax tree of a schema in the compact syntax begins where the construct it belongs to begins in the text and ends where that construct ends.",
         over=["inputs"], text="all schemas in the compact syntax", why="a wrong range shows only in a message, or as a panic when it lies outside of the text", files=["relaxng-syntax/src/compact.rs"],
         mech=[("ranges", CS + " span, position and the functions which use them")],
         technique=PEG + "; comparison of the positions of every range made", note=PEGN),
    dict(id="C01", title="The command line tool's exit status and messages tell the outcome",
         statement="'rng validate' ends with status 0 only if the schema compiled and every document named was read in full and found valid against it; in every other case it ends with another status and has written "
                   "the reason to the standard error output. A valid document never gives an error status.",
         over=["inputs", "faults"], text="all schemas, lists of documents and read errors", why="the tool has no tests", files=["relaxng-tool/src/main.rs"],
         mech=[("outcomes", "relaxng-tool/src/main.rs validate"), ("dispatch", "relaxng-tool/src/main.rs main")], technique=VF, note=VFN),
    dict(id="C02", title="Parsing, compiling and validating touch nothing but the schema's files",
         statement="The libraries read files only through the file access they are given (which, for the one provided, reads exactly the path asked for), and neither use the network, environment, clock, "
                   "terminal, processes or threads nor keep state from one use to the next.",
         over=["histories", "inputs"], text="all calls, in any order", why="a test would have to observe every effect on every path", files=[ML, VL, XS, "relaxng-syntax/src/compact.rs"],
         mech=[("file access", ML + " Files, FsFiles"), ("entry points", ML + " Compiler::compile; " + VL + " Validator")],
         technique="effect analysis over the call graph of the compiled program (every mention of a function or static, through closures and trait implementations)",
         note="foreign crates are taken to be without effects, other than those whose names are on the list"),
    dict(id="C03", title="The same schema and document always give the same result and messages",
         statement="Nothing which parsing, compiling, validating or a diagnostic produces - result, choice of error, message - depends on the order in which a hash collection happens to hold its members.",
         over=["schedules", "histories"], text="all seeds of the hash functions", why="a test sees one seed per run, and small collections often agree", files=[ML, VL],
         mech=[("undefined references", ML + " Context::ref_iter"), ("overrides", ML + " Compiler::compile_include"), ("messages", VL + " Validator::describe_expected")],
         technique="interprocedural taint analysis of hash iteration order on MIR (sources: iterators of hash collections; sanitisers: sorting by a distinguishing key, unordered sinks)",
         note="other sources of chance (clock, random numbers, threads, addresses) are excluded by the effect analysis of C02"),
    dict(id="C04", title="No schema and no document makes the libraries panic",
         statement="Whatever text a schema in either syntax or a document has, parsing, compiling, validating and producing a diagnostic return a result or an error and do not panic, other than by running out of stack or memory.",
         over=INP, text="all schema texts, file names and documents", why="a panic needs the one input whose shape nobody thought of", files=[ML, VL, "relaxng-syntax/src/xml.rs", "relaxng-syntax/src/compact.rs", "relaxng-model/src/datatype/xsd.rs"],
         mech=[("unwraps and asserts", ML + " Compiler::compile"), ("cut texts", "relaxng-syntax/src/xml.rs qname_att"), ("cells", VL + " Schema::resolve_ref"), ("positions", VL + " parse_entities")],
         technique="path-sensitive value flow on MIR (conditions of every panicking path), a fixpoint of the variants of parameters, results and fields over all call sites, inductive positions in texts, and guard live ranges for cells",
         note="taken as given: foreign crates do not panic on what they are given; nesting depth is bounded (see X02); a condition on what a closure is given stays undecided, and additions are taken not to overflow"),
    dict(id="C05", title="A diagnostic points to what it is about",
         statement="Each place in the diagnostics for a schema or a document lies in the text of the file in which what is complained about was written, also when files include each other, and begins and ends with what is named. Every place an error was found with is among those shown, and one of them is marked as that of the error.",
         over=INP, text="all schemas and documents with some mistake, in whichever of their files and whatever characters they consist of", why="tests compare the kinds of errors, and a wrong position only shows in a rendered message, or as a panic when it lies outside of its file", files=[ML, VL, "relaxng-syntax/src/xml.rs", "relaxng-model/src/datatype/xsd.rs"],
         mech=[("spans", ML + " Context::convert_span"), ("diagnostics", ML + " Compiler::diagnostic"), ("diagnostics", VL + " Validator::diagnostic"), ("parts of names", "relaxng-syntax/src/xml.rs part_span"), ("references in text", VL + " decode_text")],
         technique="region inference over value-flow summaries on MIR (which file's text a value belongs to, by fixpoint over all functions), and path-sensitive value flow for what is placed and what is shown",
         note="ranges of the compact syntax are decided by S04; a place which contains what is named is accepted; the wording of messages is not judged"),
    dict(id="C06", title="A failure found on the way is reported, never lost",
         statement="When a step of reading, parsing, compiling or validating fails, what it was a step of fails too, with an error which contains the one of the step; nothing goes on as if the step had succeeded, and no result which can be such an error is left unread, defaulted or skipped.",
         over=INP, text="all inputs for which some step fails, at whatever depth or place in a list", why="tests sample a few mistakes, mostly alone and at the end", files=[ML, VL, "relaxng-syntax/src/xml.rs", "relaxng-model/src/datatype/xsd.rs"],
         mech=[("compiling", ML + " Compiler::compile_include"), ("checks", ML + " Compiler::check"), ("references in text", VL + " decode_text"), ("facets", "relaxng-model/src/datatype/xsd.rs Compiler::decimal")],
         technique="path-sensitive value flow on MIR: every path on which a fallible call failed must return its error; use analysis of results, and of combinators which forget errors",
         note="the alternatives of the compact syntax's grammar, where failing is not an error, are decided by S01; the tool by C01"),
]

NOT_APPLICABLE = [
    dict(id="X01", title="Validation accepts exactly the language of the schema",
         statement="For every schema and document the validator's verdict equals membership of the document in the language RELAX NG assigns to the schema.",
         over=INP, text="all schemas and documents", why="infinitely many pairs", files=[VL], mech=[("validator", VL)],
         reason="end-to-end language equality quantifies over unbounded documents and includes xmlparser and the regex crate; the clauses visible in the code's shape (each derivative, each constructor, name classes, "
                "lowering, dispatch) are claimed separately"),
    dict(id="X02", title="Validation time and memory stay within reasonable bounds",
         statement="Validating a document takes time and memory bounded by a polynomial in schema and document size.",
         over=INP, text="all schemas and documents", why="blow-up needs particular schemas", files=[VL], mech=[("pattern constructors", VL)],
         reason="bounding the number of distinct derivatives needs a runtime quantity no static argument in reach bounds (derivative validation of interleave is exponential in the worst case)"),
    dict(id="X03", title="Patterns of pattern facets mean what XML Schema says they mean",
         statement="The regular expression of a pattern facet matches exactly the texts which the regular expression language of XML Schema says it matches.",
         over=INP, text="all regular expressions and texts", why="infinitely many expressions", files=["relaxng-model/src/datatype/xsd.rs"], mech=[("pattern facets", "relaxng-model/src/datatype/xsd.rs Compiler::pattern")],
         reason="the expression is a run time value interpreted by the regex crate, whose language differs (\\i, \\c, character class subtraction, block names); nothing in this code's shape decides that"),
]
