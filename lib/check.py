"""Running a check: parallel cases, violations, known findings, evidence."""
import os, sys, json, time, random, hashlib, traceback, multiprocessing, collections
import build, drv

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")
MAXV = 6


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if l.startswith("finding: property=%s " % prop):
                rest = l[len("finding: property=%s " % prop):]
                k, _, text = rest.partition(" :: ")
                assert k.startswith("key=")
                out.append((k[4:], text))
    return out


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.counters = collections.Counter()
        self.samples = []
        self.viols = []
        self.known = load_known(prop)
        self.known_seen = set()
        self.assumptions = []
        self.rule = ""
        self.level = "exploration"
        self.notes = {}

    def q(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def build(self, *variants):
        for v in variants:
            build.ensure(v, drv.HARNESS)

    # ---- recording
    def violation(self, key, text, replay=None):
        for k, t in self.known:
            if k == key:
                self.known_seen.add(k)
                return
        if any(v[0] == key for v in self.viols) and len(self.viols) >= 2: return
        self.viols.append((key, text, replay))

    def absorb(self, res):
        self.evals += res["evals"]
        self.distinct |= res["distinct"]
        self.counters.update(res["counters"])
        for s in res["samples"]:
            if len(self.samples) < 25: self.samples.append(s)
        for v in res["viols"]: self.violation(*v)

    # ---- parallel case loop
    def cases(self, fn, n, variant="asan", workers=8, tag="", timeout=40, leaks=False, end=None):
        """fn(cx, rng, i): cx.d is a driver; cx.fail(key, text) reports; cx.seen(x) counts a distinct observation"""
        workers = max(1, min(workers, n))
        ctx = multiprocessing.get_context("fork")
        qs = []
        for w in range(workers):
            r, s = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(self.prop, self.tier, self.seed, fn, n, w, workers, variant, tag, timeout, leaks, end, s))
            p.start(); s.close(); qs.append((p, r))
        bad = None
        for p, r in qs:
            try: res = r.recv()
            except EOFError: bad = "worker died"; res = None
            p.join()
            if res is None: continue
            if res.get("fatal"): bad = res["fatal"]
            else: self.absorb(res)
        if bad: raise RuntimeError(bad)

    # ---- end
    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        os.makedirs(VERIF + "/work", exist_ok=True)
        n_dist = len(self.distinct)
        import glob
        for old in glob.glob(VERIF + "/work/%s-%s-*.json" % (self.prop, self.tier)): os.unlink(old)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": n_dist,
                "rule": self.rule, "samples": self.samples[:20],
                "observed": {k: v for k, v in sorted(self.counters.items())},
            },
            "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.viols),
        }
        if self.notes: ev["coverage"]["notes"] = self.notes
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f: json.dump(ev, f, indent=1)
        for k, t in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        for i, (key, text, replay) in enumerate(self.viols[:MAXV]):
            path = VERIF + "/work/%s-%s-%d.json" % (self.prop, self.tier, i)
            with open(path, "w") as f: json.dump({"property": self.prop, "key": key, "text": text, "replay": replay}, f, indent=1)
            print("  %s: %s" % (key, text[:600].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s %s: %d evaluations, %d distinct, %d violations, %.1fs" % (self.prop, self.tier, self.evals, n_dist, len(self.viols), wall))
        sys.stdout.flush()
        return 1 if self.viols else 0


ODD = (AttributeError, TypeError, ValueError, LookupError, ArithmeticError, AssertionError)

class Case:
    """what a case function gets"""
    def __init__(self, d, res, seed):
        self.d, self.res, self.seed = d, res, seed
        self.tier = "quick"

    def fail(self, key, text, **replay):
        r = {k: (v if isinstance(v, (int, float, str, list, dict, type(None), bool)) else repr(v)) for k, v in replay.items()}
        if self.d and self.d.log: r["last_request"] = [a.decode("latin1") for a in self.d.log[-1]]
        r["case"] = self.case
        self.res["viols"].append((key, text, r))

    def seen(self, x):
        self.res["distinct"].add(hashlib.blake2b(repr(x).encode(), digest_size=8).digest())

    def ev(self, n=1):
        self.res["evals"] += n

    def count(self, k, n=1):
        self.res["counters"][k] += n

    def sample(self, s):
        if len(self.res["samples"]) < 4: self.res["samples"].append(s)


def _worker(prop, tier, seed, fn, n, w, workers, variant, tag, timeout, leaks, end, pipe):
    res = {"evals": 0, "distinct": set(), "counters": collections.Counter(), "samples": [], "viols": []}
    try:
        d = drv.Drv(variant, timeout=timeout, leaks=leaks) if variant else None
        cx = Case(d, res, seed)
        cx.tier = tier
        i = w
        while i < n:
            cx.case = "%s%d" % (tag, i)
            rng = random.Random("%s:%s:%s:%d" % (seed, prop, tag, i))
            try:
                fn(cx, rng, i)
            except drv.Crash as e:
                if e.kind == "hang":
                    try:   # slow machine? once more, alone and with more time
                        d.timeout = timeout * 3
                        rng = random.Random("%s:%s:%s:%d" % (seed, prop, tag, i))
                        fn(cx, rng, i)
                        e = None
                    except drv.Crash as e2:
                        e = e2
                    d.timeout = timeout
                if e is not None:
                    cx.res["evals"] += 1
                    cx.res["viols"].append((e.kind, "%s\n%s" % (e.kind, e.text[-3000:]),
                                            {"case": cx.case, "request": [a.decode("latin1") for a in e.request]}))
            except ODD:
                # the code under test answered something no right answer looks like
                cx.res["viols"].append(odd({"case": cx.case, "request": [a.decode("latin1") for a in (d.log[-1] if d and d.log else [])]}))
            if len(res["viols"]) > 12: break
            i += workers
        if d:
            rc, err = d.close()
            if rc not in (0,):
                if "DRIVER-ERROR" in err: raise drv.DriverError(err[-2000:])
                res["viols"].append((drv.classify(rc, err), err[-4000:], {"case": "at exit"}))
        pipe.send(res)
    except BaseException:
        pipe.send({"fatal": traceback.format_exc()})
    finally:
        pipe.close()
        os._exit(0)


def odd(replay):
    tb = traceback.format_exc()
    at = [l.strip() for l in tb.splitlines() if l.strip().startswith("File ")][-1]
    return "answer not understood", "%s\n%s" % (at.split("/")[-1], tb[-2500:]), replay


def main(table):
    """table: id -> function(Check)"""
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    ck = Check(prop, tier)
    try:
        table[prop](ck)
    except ODD:
        ck.violation(*odd({}))
    except build.BuildError as e:
        print("build failed:\n%s" % e); sys.exit(2)
    sys.exit(ck.finish())
