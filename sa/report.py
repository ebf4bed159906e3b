"""Collects the outcome of one property check."""


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.rules = []          # rule texts applied
        self.functions = set()   # functions analysed
        self.obligations = 0
        self.discharged = 0
        self.violations = []     # (key, text)
        self.inconclusive = []
        self.samples = []
        self.counts = {}
        self.assumptions = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def good(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, text):
        self.obligations += 1
        self.violations.append((key, text))

    def unknown(self, text):
        self.obligations += 1
        self.inconclusive.append(text)

    def expect(self, ok, key, text, sample=None):
        if ok:
            self.good(sample)
        else:
            self.bad(key, text)
        return ok

    def merge(self, fn, R, key=None):
        """take over a spec.Result for function fn"""
        if fn is not None:
            self.functions.add(fn.path)
        self.obligations += R.cases if R.cases else len(R.inconclusive)
        self.discharged += R.discharged
        for k, t in R.violations:
            self.violations.append((key or k, t))
        self.inconclusive += R.inconclusive

    def anchor(self, prog, short, crate=None, sig=None):
        """the function a rule is about; its absence is itself reported"""
        fn = prog.find(short, crate)
        if fn is None:
            cands = [prog.fns[p] for p in prog.short.get(short, []) if crate is None or prog.fns[p].crate == crate]
            if len(cands) > 1:
                fn = cands[0]
        if fn is None and sig is not None:
            cands = [f for f in prog.fns.values() if sig(f) and (crate is None or f.crate == crate)]
            if len(cands) == 1:
                fn = cands[0]
        if fn is None:
            self.bad("anchor:" + short, "the function '%s' this rule decides is no longer there" % short)
        else:
            self.functions.add(fn.path)
        return fn
