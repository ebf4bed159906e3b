#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds/*.py and confirms each planted bug in a scratch copy.

    tools/seed.py [id-prefix ...]        (-n: only write)
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, difflib, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
W = "/tmp/seedwork"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only")


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.S
    return out


# the command line tool reads schemas in the compact syntax only: a program of our own, built against the crates in the current directory
XRNG = r'''
mkdir -p "$t/crate/src"
cat >"$t/crate/Cargo.toml" <<EOT
[package]
name = "xrng"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
relaxng-model = { path = "$PWD/relaxng-model" }
relaxng-validator = { path = "$PWD/relaxng-validator" }
xmlparser = "*"
EOT
cp Cargo.lock "$t/crate/" 2>/dev/null
cat >"$t/crate/src/main.rs" <<'EOT'
use relaxng_model::{Compiler, FsFiles, Syntax};
use relaxng_validator::Validator;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let syntax = if a[2].ends_with(".rng") { Syntax::Xml } else { Syntax::Compact };
    let mut c = Compiler::new(FsFiles, syntax);
    let model = match c.compile(std::path::Path::new(&a[2])) {
        Ok(m) => m,
        Err(_) => std::process::exit(1),
    };
    let doc = std::fs::read_to_string(&a[3]).unwrap();
    let mut v = Validator::new(model, xmlparser::Tokenizer::from(&doc[..]));
    loop {
        match v.validate_next() {
            Some(Ok(_)) => {}
            Some(Err(_)) => std::process::exit(2),
            None => break,
        }
    }
}
EOT
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" cargo build --offline --manifest-path "$t/crate/Cargo.toml" >"$t/build" 2>&1 || { tail -5 "$t/build"; echo "the program which reads the XML syntax does not build"; exit 3; }
rng="$t/target/debug/xrng"
'''


def write(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    patch = ""
    byfile = {}
    for f, old, new in s["edits"]:
        t = byfile.get(f)
        if t is None:
            t = open(os.path.join("/repo", f)).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old[:80])
        byfile[f] = t.replace(old, new)
    for f, t in byfile.items():
        a = open(os.path.join("/repo", f)).read()
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    sh = "#!/bin/bash\n# %s\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\n" % s["breaks"]
    sh += "t=$(mktemp -d) || exit 3\ntrap 'rm -rf \"$t\"' EXIT\ncp -r \"$here\"/files/. \"$t\"/\nbad=0\n"
    if any(n.endswith(".rng") for n in s["files"]):
        sh += XRNG
    else:
        sh += "rng=./target/debug/rng\n[ -x \"$rng\" ] || { echo \"no $rng\"; exit 3; }\n"
    sh += "expect() { # schema doc wanted-exit\n  timeout 60 \"$rng\" validate \"$t/$1\" \"$t/$2\" >\"$t/out\" 2>&1; rc=$?\n"
    sh += "  if [ $rc != \"$3\" ]; then echo \"$1 $2: exit $rc, expected $3\"; bad=1; fi\n}\n"
    os.makedirs(os.path.join(d, "files"))
    for n, txt in s["files"].items():
        os.makedirs(os.path.dirname(os.path.join(d, "files", n)), exist_ok=True)
        open(os.path.join(d, "files", n), "w").write(txt)
    for a, b, c in s["expect"]:
        sh += "expect %s %s %d\n" % (a, b, c)
    sh += s.get("extra", "")
    sh += "exit $bad\n"
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    return d


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(repo):
    """names of passing tests as BASELINE has them"""
    p = subprocess.run(["cargo", "test", "--workspace", "--offline", "--no-fail-fast", "--", "--test-threads=1"], env=ENV, cwd=repo,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    ok = set(re.findall(r"^test (\S+) \.\.\. ok", p.stdout, re.M))
    q = subprocess.run(["cargo", "test", "--workspace", "--offline", "--test", "spectest", "--", "spectest"], env=ENV, cwd=repo,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    open(os.path.join(W, "st.err"), "w").write(q.stderr)
    l = run(["python3", "/opt/vp/spectest.py", os.path.join(W, "st.err"), str(q.returncode)]).stdout
    sp = set(x[5:] for x in l.splitlines() if x.startswith("PASS "))
    return ok, sp


_bl = {}


def original(f, old, new):
    """does the edit change a line of the original repository?"""
    if f not in _bl:
        _bl[f] = run(["git", "blame", "-s", "-l", "HEAD", "--", f], cwd="/repo").stdout.splitlines()
    base = run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo").stdout.split()
    t = open(os.path.join("/repo", f)).read()
    k = t[:t.index(old)].count("\n")
    a, b = old.splitlines(), new.splitlines()
    for op, i1, i2, _, _ in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
        if op in ("delete", "replace"):
            if any(_bl[f][k + i].startswith("^") for i in range(i1, i2) if a[i].strip()):
                return True
    return False


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    only = "-n" in sys.argv
    todo = [s for s in load() if not args or any(s["id"].startswith(a) for a in args)]
    dirs = [(s, write(s)) for s in todo]
    if only:
        return
    repo = os.path.join(W, "repo")
    if not os.path.isdir(repo):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", repo])
    run(["git", "checkout", "-q", "."], cwd=repo)
    subprocess.check_call(["rsync", "-a", "--exclude", "target", "/repo/", repo + "/"]) if shutil.which("rsync") else \
        subprocess.check_call("cd /repo && tar cf - --exclude=./target . | (cd %s && tar xf -)" % repo, shell=True)
    run("find . -path ./target -prune -o -name '*.rs' -print | xargs touch", shell=True, cwd=repo)

    def build():
        return run(["cargo", "build", "--workspace", "--all-targets", "--offline"], env=ENV, cwd=repo)
    p = build()
    assert p.returncode == 0, p.stdout[-2000:]
    base = tests(repo)
    for s, d in dirs:
        msg = []
        if not any(original(*e) for e in s["edits"]):
            msg.append("NO ORIGINAL LINE CHANGED")
        r = run(["bash", os.path.join(d, "demo.sh")], cwd=repo)
        if r.returncode:
            msg.append("DEMO FAILS ON BASE: " + r.stdout[-300:])
        a = run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo)
        if a.returncode:
            msg.append("PATCH: " + a.stdout)
        run("find . -path ./target -prune -o -name '*.rs' -print | xargs touch", shell=True, cwd=repo)
        b = build()
        if b.returncode:
            msg.append("BUILD: " + "\n".join(l for l in b.stdout.splitlines() if l.startswith("error"))[:300])
        else:
            r = run(["bash", os.path.join(d, "demo.sh")], cwd=repo)
            if r.returncode == 0:
                msg.append("DEMO PASSES WITH PATCH")
            t = tests(repo)
            miss = (base[0] - t[0]) | (base[1] - t[1])
            if miss:
                msg.append("TESTS FAIL: " + ",".join(sorted(miss))[:200])
        run(["git", "apply", "-R", os.path.join(d, "patch.diff")], cwd=repo)
        run("find . -path ./target -prune -o -name '*.rs' -print | xargs touch", shell=True, cwd=repo)
        build()
        print("%-28s %s" % (s["id"], "; ".join(msg) or "ok"), flush=True)


main()
