L = "relaxng-model/src/lib.rs"
V = "relaxng-validator/src/lib.rs"
S = []


def seed(id, prop, needs, breaks, edits, files, expect, extra="", file=L):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(e if len(e) == 3 else (file,) + tuple(e)) for e in edits], files=files,
                  expect=expect, extra=extra))


seed("c02-env", "C02", "an included file which is missing, and an environment variable which names a directory where there is one of that name",
     "files which are not where the schema says are looked for in a directory named by the environment",
     [("        let mut io = File::open(name).map_err(|e| RelaxError::Io(name.to_path_buf(), e))?;",
       "        let mut io = File::open(name)\n            .or_else(|e| match (std::env::var_os(\"RNG_HOME\"), name.file_name()) {\n                (Some(home), Some(file)) => File::open(Path::new(&home).join(file)),\n                _ => Err(e),\n            })\n            .map_err(|e| RelaxError::Io(name.to_path_buf(), e))?;")],
     {"s.rnc": "include \"x/part.rnc\"\n", "home/part.rnc": "start = element a { empty }\n", "good.rnc": "include \"home/part.rnc\"\n", "d.xml": "<a/>"},
     [("s.rnc", "d.xml", 1), ("good.rnc", "d.xml", 0)],
     'RNG_HOME="$t/home" "$rng" validate "$t/s.rnc" "$t/d.xml" >/dev/null 2>&1; [ $? = 1 ] || { echo "an environment variable decides what a schema means"; bad=1; }\n')
seed("c03-expected", "C03", "a document with an element which is not allowed where several others are, validated several times",
     "the message about an element which is not allowed names the expected ones in a random order",
     [(V, "        for (i, nameclass) in heads\n            .iter()\n            .filter_map(|p| {", "        for (i, nameclass) in heads.iter().collect::<HashSet<_>>().into_iter()\n            .filter_map(|p| {")],
     {"s.rnc": "element r { element a { empty } | element b { empty } | element c { empty } | element d { empty } }\n", "d.xml": "<r><x/></r>", "good.xml": "<r><a/></r>"},
     [("s.rnc", "d.xml", 2), ("s.rnc", "good.xml", 0)],
     'for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16; do "$rng" validate "$t/s.rnc" "$t/d.xml" >"$t/o$i" 2>&1; cmp -s "$t/o1" "$t/o$i" || { echo "the same document gives different messages"; bad=1; break; }; done\n')
