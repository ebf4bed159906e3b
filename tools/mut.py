#!/usr/bin/env python3
"""Self-test of the checks: applies edits to scratch copies of /repo and reports which checks alarm.

    tools/mut.py [-j N] [-t] [name-prefix ...]

tools/mutants/*.py define M = [(name, expected, file, [(old, new), ...]) ...]: expected is a set of property ids of which at
least one has to alarm, or None for an edit which keeps the behaviour (no check may alarm). -t also runs the repository's tests."""
import glob, importlib.util, json, os, shutil, subprocess, sys, multiprocessing
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "sa"))
import dump

W = "/tmp/mw"


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "mutants", "*.py"))):
        spec = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.M
    return out


def init(drv, sysroot, q):
    global D, WD
    i = q.get()
    D = (drv, sysroot)
    WD = os.path.join(W, str(i))
    os.makedirs(os.path.join(WD, "out"), exist_ok=True)
    src = os.path.join(WD, "src")
    if os.path.isdir(src):
        shutil.rmtree(src)
    shutil.copytree("/repo", src, ignore=shutil.ignore_patterns("target", ".git"), copy_function=shutil.copy)


def chk():
    e = dump._env()
    e["LD_LIBRARY_PATH"] = os.path.join(D[1], "lib")
    e["MIRDUMP_OUT"] = os.path.join(WD, "out")
    e["RUSTC_WORKSPACE_WRAPPER"] = D[0]
    e["CARGO_TARGET_DIR"] = os.path.join(WD, "target")
    p = subprocess.run(["cargo", "+nightly", "check", "--workspace", "--lib", "--bins", "--offline"], env=e, cwd=os.path.join(WD, "src"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    open(os.path.join(WD, "out", "prefix"), "w").write(os.path.join(WD, "src"))
    return p.returncode, p.stdout


def one(a):
    name, exp, edits, tests = a
    src = os.path.join(WD, "src")
    touched = {}
    try:
        for f, old, new in edits:
            p = os.path.join(src, f)
            s = open(p).read()
            touched.setdefault(p, s)
            if s.count(old) != 1:
                return name, "EDIT does not apply (%d times): %s" % (s.count(old), old[:60]), []
            open(p, "w").write(s.replace(old, new))
        rc, out = chk()
        if rc:
            return name, "BUILD failed\n" + "\n".join(x for x in out.splitlines() if x.startswith("error") or "-->" in x)[:600], []
        tv = ""
        if tests:
            e = dump._env()
            e["CARGO_TARGET_DIR"] = os.path.join(WD, "ttarget")
            p = subprocess.run(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"], env=e, cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            failed = sorted(set(l.split()[1] for l in p.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")))
            base = set(json.load(open(os.path.join(W, "basefail.json"))))
            tv = " TESTS:" + ("pass" if not set(failed) - base else "FAIL " + ",".join(sorted(set(failed) - base))[:150])
            if "error: could not compile" in p.stdout or "error[E" in p.stdout:
                tv = " TESTS: no build"
        env = dict(os.environ)
        env["VP_DUMP"] = os.path.join(WD, "out")
        r = subprocess.run([sys.executable, os.path.join(HERE, "checkall.py")] + os.environ.get("MUT_PROPS", "").split(), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hits, lines = [], []
        for l in r.stdout.splitlines():
            if l.startswith("HIT "):
                hits.append(l.split()[1])
            elif l.startswith(("  ", "ERR", "Traceback")):
                lines.append(l)
        if r.returncode:
            lines.append(r.stdout[-1500:])
        if exp is None:
            v = "quiet" if not hits and r.returncode == 0 else "FALSE ALARM " + " ".join(hits)
        else:
            v = "caught " + " ".join(hits) if set(hits) & set(exp) else ("other " + " ".join(hits) if hits else "MISSED")
        return name, v + tv, lines
    finally:
        for p, s in touched.items():
            open(p, "w").write(s)


def main():
    args = sys.argv[1:]
    j, tests, verbose = 6, False, False
    sel = []
    while args:
        x = args.pop(0)
        if x == "-j":
            j = int(args.pop(0))
        elif x == "-t":
            tests = True
        elif x == "-v":
            verbose = True
        else:
            sel.append(x)
    ms = load()
    todo = []
    for m in ms:
        name, exp, f, edits = m
        if sel and not any(name.startswith(s) for s in sel):
            continue
        todo.append((name, exp, [(f, o, n) if len((o, n)) == 2 else None for o, n in edits], tests))
    os.makedirs(W, exist_ok=True)
    drv = dump.driver()
    sysroot = dump._run(["rustc", "+nightly", "--print", "sysroot"], env=dump._env()).strip()
    bf = os.path.join(W, "basefail.json")
    if tests and not os.path.exists(bf):
        e = dump._env()
        e["CARGO_TARGET_DIR"] = os.path.join(W, "basetarget")
        p = subprocess.run(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"], env=e, cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        json.dump(sorted(set(l.split()[1] for l in p.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED"))), open(bf, "w"))
    q = multiprocessing.Queue()
    j = min(j, max(1, len(todo)))
    for i in range(j):
        q.put(i)
    bad = 0
    with multiprocessing.Pool(j, init, (drv, sysroot, q)) as pool:
        for name, v, lines in pool.imap(one, todo):
            print("%-34s %s" % (name, v), flush=True)
            if v.startswith(("MISSED", "FALSE", "other", "EDIT", "BUILD")):
                bad += 1
            if verbose or v.startswith(("FALSE", "other", "MISSED")):
                for l in lines[:12 if not verbose else 60]:
                    print("      " + l[-int(os.environ.get("TAIL","0")) or None:][:int(os.environ.get("W","420"))])
    print("%d edits, %d not as expected" % (len(todo), bad))


if __name__ == "__main__":
    main()
