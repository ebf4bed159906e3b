"""Every property on the dump in VP_DUMP: 'HIT id' for each that alarms."""
import os, sys, traceback, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "sa"))
sys.setrecursionlimit(20000)
import props
from mir import Program
known = {(k["property"], k["key"]) for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["known"]}
prog = Program()
for pid in sorted(props.TABLE):
    if len(sys.argv) > 1 and pid not in sys.argv[1:]:
        continue
    try:
        rep, meta = props.run(pid, prog, "quick")
    except Exception:
        print("ERR %s" % pid)
        traceback.print_exc()
        continue
    v = [(k, t) for k, t in rep.violations if (pid, k) not in known]
    if v:
        print("HIT %s" % pid)
        for k, t in v[:5]:
            print("  %s [%s] %s" % (pid, k, t))
    for t in rep.inconclusive[:4]:
        print("  %s undecided %s" % (pid, t))
    if not v and not rep.inconclusive and rep.discharged < meta.get("floor", 1):
        print("HIT %s" % pid)
        print("  %s floor: %d" % (pid, rep.discharged))
