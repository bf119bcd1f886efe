"""What a check covered and found; evidence files; known findings."""
import hashlib, json, os, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
sys.path.insert(0, os.path.join(ROOT, "lib"))
import tlc, pool


class HarnessError(Exception):
    pass


class Enough(Exception):
    """The property is already known to be broken: no need to look further."""


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.violations = []     # (clause, replay object)
        self.known = []
        self.assumptions = []
        self.info = {}
        self.troubles = []       # what the machinery could not make sense of
        self.skipped = 0
        self.deadline = self.t0 + (600 if self.quick else 12000)

    quick = property(lambda self: self.tier != "thorough")

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # -- a model run of TLC; `expect` names what must be violated (a specification of a defect)
    def model(self, module, cfg, expect=(), what="", **kw):
        r = tlc.run(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        if bool(r.violated) != bool(expect):
            # the specification itself does not have the property: an error of the machinery,
            # whatever the code does
            raise HarnessError("model %s: violated %s, expected %s\n%s" % (module, r.violated, list(expect), r.stdout[-4000:]))
        self.models.append({"module": module, "what": what, "distinct_states": r.distinct,
                            "states_generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1)})
        self.log("TLC %s (%s): %d distinct states, %d generated, %d records, %.1fs" % (
            module, what, r.distinct, r.generated, len(r.out), r.wall))
        return r

    # -- judge recorded traces with a monitor module; returns [(index, event number, clause)]
    def judge(self, module, traces, env=None, chunk=20000, spec="TSpec", what="", consts="", workers=8):
        found = []
        for k in range(0, len(traces), chunk):
            part = traces[k:k + chunk]
            r = tlc.run(module, "SPECIFICATION %s\n%s" % (spec, consts), data={"TRACES": part}, env=env,
                        workers=workers, timeout=3000)
            seen = {}
            for o in r.out:
                seen[o["tr"]] = o["bad"]
            if len(seen) != len(part):
                raise HarnessError("%s judged %d of %d traces\n%s" % (module, len(seen), len(part), r.stdout[-3000:]))
            for i, bad in seen.items():
                for l, clause in bad:
                    found.append((k + i - 1, l, clause))
            self.states += r.distinct
            self.transitions += r.generated
            self.log("TLC %s judged %d traces (%s) in %.1fs" % (module, len(part), what, r.wall))
        self.traces += len(traces)
        found.sort()
        for (i, l, clause) in found:
            if clause.startswith("trace."):
                self.trouble("%s: %s at event %d of %s" % (module, clause, l, json.dumps(traces[i])[:4000]))
        return [f for f in found if not f[2].startswith("trace.")]

    # -- real executions: (jobs, results) of those that gave one
    def drive(self, fn, jobs, what, key="ev", timeout=90, budget=None, procs=None, quiet=False):
        t = time.time()
        left = max(30, self.deadline - t)
        budget = min(left, budget or (300 if self.quick else 4000))
        res = pool.pmap(fn, jobs, item_timeout=timeout, budget=budget, procs=procs)
        good = []
        skipped = 0
        for j, r in zip(jobs, res):
            if "_skipped" in r:
                skipped += 1
            elif key not in r:
                self.trouble("driver: %s for %s" % (str(r)[:3000], json.dumps(j)[:3000]))
            else:
                good.append((j, r))
        self.skipped += skipped
        if not quiet:
            self.log("%d real executions (%s) in %.1fs%s" % (len(good), what, time.time() - t, ", %d skipped" % skipped if skipped else ""))
        return [j for j, _ in good], [r for _, r in good]

    # -- repeat suspicious executions, a few at a time and patiently: the clauses seen for each
    def confirm(self, fn, jobs, module, totraces, times=3, key="ev", timeout=300, most=6):
        jobs = jobs[:most]
        again = [j for j in jobs for _ in range(times)]
        js, rs = self.drive(fn, again, "confirmation", key=key, timeout=timeout, procs=4)
        hits = {}
        flat = [(json.dumps(j, sort_keys=True), tr) for j, r in zip(js, rs) for tr in totraces(r)]
        for i, l, cl in self.judge(module, [x for _, x in flat], what="confirmation") if flat else []:
            hits.setdefault(flat[i][0], set()).add(cl)
        return [hits.get(json.dumps(j, sort_keys=True), set()) for j in jobs]

    def trouble(self, what):
        self.troubles.append(what)

    def checkpoint(self):
        known = load_known()
        if any(not is_known(known, self.pid, cl, rp) for cl, rp in self.violations):
            raise Enough()

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, clause, replay):
        self.violations.append((clause, replay))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        known = load_known()
        fresh = []
        for clause, rp in self.violations:
            k = is_known(known, self.pid, clause, rp)
            if k:
                self.known.append(k[0])
            else:
                fresh.append((clause, rp))
        done = set()
        for e in self.known:
            if e["id"] not in done:
                done.add(e["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        n = 0
        byclause = {}
        for clause, rp in fresh:
            byclause.setdefault(clause, []).append(rp)
        for clause, rps in byclause.items():
            rps.sort(key=lambda x: len(json.dumps(x, default=str)))
            rp = dict(rps[0], clause=clause, property=self.pid, count=len(rps))
            h = hashlib.sha1(json.dumps(rp, sort_keys=True, default=str).encode()).hexdigest()[:10]
            fn = os.path.join("evidence", "%s-%s-%s.json" % (self.pid, clause.split(".", 1)[1], h))
            with open(os.path.join(ROOT, fn), "w") as f:
                json.dump(rp, f, indent=1, default=str)
            print("clause %s broken in %d recorded executions, e.g. %s" % (clause, len(rps), json.dumps(rp, default=str)[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, fn))
            n += 1
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_recorded": self.events,
               "samples": self.samples[:6], "models": self.models}
        cov.update(self.info)
        if self.skipped:
            cov["skipped_for_time"] = self.skipped
        for x in self.troubles[:3]:
            print("trouble:", x)
        if self.troubles and not fresh:
            raise HarnessError("%d executions could not be judged" % len(self.troubles))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": n}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.log("%s %s: %d states, %d traces, %d violations" % (self.pid, self.tier, self.states, self.traces, n))
        return 1 if n else 0


def is_known(known, pid, clause, rp):
    return [e for e in known if e["property"] == pid and e["clause"] == clause
            and all(rp.get("key", {}).get(a) == b for a, b in e["match"].items())]


def load_known():
    fn = os.path.join(ROOT, "known_findings.json")
    try:
        with open(fn) as f:
            return [e for e in json.load(f)["findings"]]
    except FileNotFoundError:
        return []
