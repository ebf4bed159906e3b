"""Build the MIR dumper (if needed), run it over /repo's current tree, load the result."""
import hashlib, json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(ROOT, ".cache")
CRATES = ["relaxng_syntax", "relaxng_model", "relaxng_validator", "rng"]


class ToolError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise ToolError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def _env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR",
              "CARGO_ENCODED_RUSTFLAGS", "RUSTC"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def _lock(name):
    import fcntl
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, name), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def driver():
    d = os.path.join(ROOT, "driver")
    tgt = os.path.join(CACHE, "driver-target")
    e = _env()
    e["CARGO_TARGET_DIR"] = tgt
    _run(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml")], env=e, cwd=d)
    return os.path.join(tgt, "debug", "mirdump")


def source_files():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock"):
                out.append(os.path.join(base, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in source_files() + [os.path.join(ROOT, "driver", "src", "main.rs")]:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def dump():
    """-> directory with <crate>.json for the current tree"""
    if os.environ.get("VP_DUMP"):        # tools/mut.py: a dump made elsewhere
        return os.environ["VP_DUMP"]
    lk = _lock("lock")
    try:
        key = tree_hash()
        out = os.path.join(CACHE, "mir", key)
        if all(os.path.exists(os.path.join(out, c + ".json")) for c in CRATES):
            return out
        drv = driver()
        sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], env=_env()).strip()
        # work on a copy of the tracked sources so that nothing is written under /repo
        scratch = tempfile.mkdtemp(prefix="mirdump-")
        try:
            src = os.path.join(scratch, "src")
            for p in source_files():
                q = os.path.join(src, os.path.relpath(p, REPO))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copyfile(p, q)
            # non-rust inputs a crate may include (README for doc attributes, etc.)
            for base, dirs, files in os.walk(REPO):
                dirs[:] = [x for x in dirs if x not in ("target", ".git")]
                for f in files:
                    p = os.path.join(base, f)
                    q = os.path.join(src, os.path.relpath(p, REPO))
                    if not os.path.exists(q) and os.path.getsize(p) < 4_000_000:
                        os.makedirs(os.path.dirname(q), exist_ok=True)
                        shutil.copyfile(p, q)
            tmp = os.path.join(scratch, "out")
            os.makedirs(tmp)
            e = _env()
            e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
            e["MIRDUMP_OUT"] = tmp
            e["RUSTC_WORKSPACE_WRAPPER"] = drv
            e["CARGO_TARGET_DIR"] = os.path.join(scratch, "target")
            _run(["cargo", "+nightly", "check", "--workspace", "--lib", "--bins", "--offline"], env=e, cwd=src)
            for c in CRATES:
                if not os.path.exists(os.path.join(tmp, c + ".json")):
                    raise ToolError("no MIR dumped for crate " + c)
            os.makedirs(os.path.dirname(out), exist_ok=True)
            if os.path.isdir(out):
                shutil.rmtree(out)
            shutil.copytree(tmp, out)
            # spans name files under the scratch copy
            with open(os.path.join(out, "prefix"), "w") as f:
                f.write(src)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        # keep the cache small
        root = os.path.join(CACHE, "mir")
        ents = sorted((os.path.getmtime(os.path.join(root, x)), x) for x in os.listdir(root))
        for _, x in ents[:-6]:
            shutil.rmtree(os.path.join(root, x), ignore_errors=True)
        return out
    finally:
        lk.close()


def load():
    d = dump()
    prefix = ""
    p = os.path.join(d, "prefix")
    if os.path.exists(p):
        prefix = open(p).read()
    return {c: json.load(open(os.path.join(d, c + ".json"))) for c in CRATES}, prefix


if __name__ == "__main__":
    print(dump())
