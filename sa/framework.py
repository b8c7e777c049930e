"""Check driver: obligations, violations, evidence, known findings."""
import json, os, pickle, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "sa"))
import mir


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self.obligations = 0
        self.discharged = 0
        self.viol = []          # (key, message)
        self.samples = []
        self.counts = {}
        self.analysed = set()
        self.floors = {}
        self._prog = None
        self.rules = []

    @property
    def prog(self):
        if self._prog is None:
            self._prog = mir.Program(mir.emit_mir())
        return self._prog

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ob(self, ok, key, msg="", sample=None):
        """one obligation; key identifies the construct without line numbers"""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)
        else:
            self.violate(key, msg)
        return ok

    def violate(self, key, msg):
        for v in self.viol:
            if v[0] == key:
                v[2] += 1
                return
        self.viol.append([key, msg, 1])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """at least n instances of `name` must have been analysed"""
        self.floors[name] = n

    def parallel(self, jobs, workers=None):
        """run each job (callable taking a Ctx) in forked workers; merge what they report"""
        self.prog
        jobs = list(jobs)
        k = min(workers or os.cpu_count() or 4, len(jobs)) or 1
        procs = []
        qr, qw = os.pipe()          # job numbers; workers take the next one when they are free
        os.set_blocking(qw, False)
        assert len(jobs) * 4 <= 60000
        os.write(qw, b"".join(i.to_bytes(4, "little") for i in range(len(jobs))))
        os.close(qw)
        for w in range(k):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    out = []
                    while True:
                        b = os.read(qr, 4)
                        if len(b) < 4:
                            break
                        i = int.from_bytes(b, "little")
                        c = Ctx(self.prop, self.tier)
                        c._prog = self._prog
                        try:
                            jobs[i](c)
                        except BaseException as e:
                            if os.environ.get("SA_DEBUG"):
                                traceback.print_exc()
                            c.violate("analysis:" + type(e).__name__, "the source could not be shown to satisfy the property: %s" % e)
                        out.append((i, c.obligations, c.discharged, c.viol, c.samples, c.counts, c.analysed, c.rules))
                    data = pickle.dumps(out)
                    with os.fdopen(wr, "wb") as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(wr)
            procs.append((pid, r))
        os.close(qr)
        res = []
        for pid, r in procs:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                self.violate("analysis:worker", "an analysis worker ended without a result")
                continue
            res += pickle.loads(data)
        if len(res) != len(jobs):
            self.violate("analysis:worker", "only %d of %d analysis jobs reported" % (len(res), len(jobs)))
        for _, o, d, viol, samples, counts, an, rules in sorted(res, key=lambda x: x[0]):
            self.obligations += o
            self.discharged += d
            for key, msg, n in viol:
                for v in self.viol:
                    if v[0] == key:
                        v[2] += n
                        break
                else:
                    self.viol.append([key, msg, n])
            self.samples = (self.samples + samples)[:12]
            for a, b in counts.items():
                self.count(a, b)
            self.analysed |= an
            for t in rules:
                self.rule(t)

    def saw(self, funcs):
        self.analysed |= set(funcs)

    def where(self, name):
        f = self.prog.funcs.get(name) or self.prog.by_call.get(name)
        return "%s (%s:%d)" % (name, f.file, f.line) if f is not None and f.file else name


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
                if m:
                    out.append(m.groups())
    return out


def slug(k):
    return re.sub(r"\s+", "_", k)


def run(prop, tier, fn, level, assumptions):
    t0 = time.time()
    ctx = Ctx(prop, tier)
    try:
        fn(ctx)
        for n, k in ctx.floors.items():
            ctx.ob(ctx.counts.get(n, 0) >= k, "floor:" + n,
                   "only %d instances of '%s' found in the source (expected at least %d): the construct the rule is about is gone or no longer recognisable" % (ctx.counts.get(n, 0), n, k))
        if ctx.obligations == 0:
            ctx.violate("empty", "no obligation was generated")
    except Exception as e:
        ctx.violate("analysis:" + type(e).__name__, "the source could not be shown to satisfy the property: %s" % e)
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
    known = {k: d for p, k, d in known_findings() if p == prop}
    new, old = [], []
    for key, msg, n in ctx.viol:
        (old if slug(key) in known else new).append((key, msg, n))
    cov = {
        "violation_list": [{"key": k, "message": m[:2000], "instances": n} for k, m, n in new],
        "explanation": "; ".join(ctx.rules) or "static analysis of the MIR of the current working tree",
        "obligations": ctx.obligations,
        "discharged": ctx.discharged,
        "checker_cmd": "python3 check.py %s --tier %s" % (prop, tier),
        "trusted_base": ["rustc MIR construction", "sa/interp.py, sa/builtins_model.py (models of std)", "the rules in DESIGN.md"],
        "functions_analysed": sorted(ctx.analysed),
        "counts": ctx.counts,
        "samples": ctx.samples[:12],
    }
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 3),
        "assumptions": assumptions,
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, m, n in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[slug(k)]))
    print("%s [%s]: %d obligations, %d discharged, %d functions, %.1fs" % (
        prop, tier, ctx.obligations, ctx.discharged, len(ctx.analysed), time.time() - t0))
    if new:
        d = os.path.join(VERIF, "evidence", "violations")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, prop + ".txt")
        with open(rp, "w") as f:
            for k, m, n in new:
                f.write("%s\n    %s\n    (%d instance(s))\n" % (k, m, n))
        for k, m, n in new[:8]:
            print("  %s: %s" % (k, m[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0
