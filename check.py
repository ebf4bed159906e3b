#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's current tree."""
import json, os, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "sa"))
sys.setrecursionlimit(20000)
import dump  # noqa: E402


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        import props
        from mir import Program
        prog = Program()
    except dump.ToolError as e:
        print("error: %s" % e)
        return 2
    rep, meta = props.run(pid, prog, tier)
    known = {}
    kf = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf))["known"]:
            if k["property"] == pid:
                known[k["key"]] = k["what"]
    seen = {}
    for k, t in rep.violations:
        seen.setdefault(k, []).append(t)
    new = {k: v for k, v in seen.items() if k not in known}
    floor = meta.get("floor", 1)
    decided = rep.discharged + len(rep.violations)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": {
            "explanation": "static analysis of the compiled program (MIR of the four workspace crates): " + " | ".join(rep.rules),
            "functions_analysed": sorted(rep.functions),
            "obligations": rep.obligations, "discharged": rep.discharged,
            "undecided": rep.inconclusive[:40], "undecided_count": len(rep.inconclusive),
            "counts": rep.counts, "samples": rep.samples[:12] or ["(no sample)"],
            "checker_cmd": "python3 check.py %s" % pid,
            "trusted_base": ["rustc's MIR construction", "the value-flow analysis in sa/vf.py and its library models",
                             "the reference definitions in sa/props_*.py"],
            "known_findings_seen": sorted(k for k in seen if k in known),
        },
        "assumptions": rep.assumptions + meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d undecided, %d functions (%.1fs)" % (
        pid, rep.obligations, rep.discharged, len(rep.inconclusive), len(rep.functions), time.time() - t0))
    for t in rep.inconclusive[:10]:
        print("  undecided: " + t)
    for k in sorted(seen):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    if not new and decided < floor:
        new["floor"] = ["only %d obligations were decided, at least %d are expected" % (decided, floor)] \
            if not rep.inconclusive else []
        if not new["floor"]:
            del new["floor"]
    if new:
        rp = os.path.join(ROOT, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for k in sorted(new):
                for t in new[k]:
                    f.write("[%s] %s\n" % (k, t))
        for k in sorted(new):
            for t in new[k][:6]:
                print("  [%s] %s" % (k, t))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
