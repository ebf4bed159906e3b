T = "relaxng-tool/src/main.rs"
S = []


def seed(id, prop, needs, breaks, edits, files, expect, extra="", file=T):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(e if len(e) == 3 else (file,) + tuple(e)) for e in edits], files=files,
                  expect=expect, extra=extra))


seed("c01-last-status", "C01", "two documents, the first invalid and the last valid", "the exit status tells about the last document only",
     [("    for xml in xmls {\n", "    let mut status = 0;\n    for xml in xmls {\n        status = 0;\n"),
      ("                    emitter.emit(&d[..]);\n                    exit(2);", "                    emitter.emit(&d[..]);\n                    status = 2;\n                    break;"),
      ("                None => break,\n            }\n        }\n    }\n", "                None => break,\n            }\n        }\n    }\n    if status != 0 {\n        exit(status);\n    }\n")],
     {"s.rnc": "element a { empty }\n", "good.xml": "<a/>", "bad.xml": "<b/>"},
     [("s.rnc", "good.xml", 0), ("s.rnc", "bad.xml", 2)],
     '"$rng" validate "$t/s.rnc" "$t/bad.xml" "$t/good.xml" >/dev/null 2>&1 && { echo "an invalid document before a valid one is not reported in the status"; bad=1; }\n'
     '"$rng" validate "$t/s.rnc" "$t/good.xml" "$t/good.xml" >/dev/null 2>&1 || { echo "two valid documents are refused"; bad=1; }\n')
seed("c01-entity-end", "C01", "a document with an undefined entity", "an undefined entity in a document ends its validation without an error",
     [("                Some(Err(err)) => {\n", "                Some(Err(err)) if !matches!(err, relaxng_validator::ValidatorError::UndefinedEntity { .. }) => {\n"),
      ("                None => break,\n", "                _ => break,\n")],
     {"s.rnc": "element a { text }\n", "good.xml": "<a>x</a>", "bad.xml": "<a>&x;</a>"},
     [("s.rnc", "good.xml", 0), ("s.rnc", "bad.xml", 2)])
