"""C01-C05, C14 (builds), C23 (closures of plain graphs): the scheduler."""
import json, random, time
import env, pool, solver_drv, intr_drv
from report import HarnessError

INV = "StateOk DepsFirst AtMostWorkers NoDependentOfFailed SuccessComplete FailureReported MalformedRefused OnlyNeeded".split()
PROPS = "NothingAfterFailure NothingAfterInterrupt StartedOnce".split()


def mc_cfg(n, w, malformed=False, intr=False, allupd=True, gen=False, live=False):
    b = lambda x: "TRUE" if x else "FALSE"
    return ("SPECIFICATION MCSpec\nCONSTANTS N=%d MaxW=%d MALFORMED=%s INTERRUPTS=%s ALLUPD=%s GEN=%s\n"
            % (n, w, b(malformed), b(intr), b(allupd), b(gen))
            + "".join("INVARIANT %s\n" % x for x in INV)
            + "".join("PROPERTY %s\n" % x for x in PROPS + (["Ends"] if live else [])))


def model(rep, malformed=False, intr=False):
    q = rep.quick
    if malformed:
        rep.model("SolverMC", mc_cfg(2, 2, malformed=True), what="all digraphs <= 2 nodes incl. unknown deps")
        rep.model("SolverMC", mc_cfg(3, 1, malformed=True), what="all digraphs <= 3 nodes incl. unknown deps")
        return
    rep.model("SolverMC", mc_cfg(3, 3, intr=intr), workers=8, what="DAGs <= 3, workers <= 3, all outcomes")
    rep.model("SolverMC", mc_cfg(3, 2, allupd=False), workers=8, what="with update conditions and roots")
    rep.model("SolverMC", mc_cfg(3, 2, live=True), workers=8, what="liveness")
    if not q:
        rep.model("SolverMC", mc_cfg(4, 3, intr=intr), workers=8, what="DAGs <= 4, workers <= 3, all outcomes")


def impl_model(rep, intr=False):
    """The worker/queue design refines the abstract scheduler and always returns."""
    def cfg(n, w, h, i="FALSE", k="TRUE"):
        return ("SPECIFICATION Spec\nCONSTANTS N=%d MaxW=%d HANDLE_RAISE=%s INTR=%s CANCEL=%s\nPROPERTY Refines Returns\nINVARIANT NoLostItem\n" % (n, w, h, i, k))
    if intr:
        rep.model("SolverImpl", cfg(3, 2, "TRUE", "TRUE"), workers=8, what="interrupted design refines Solver and returns")
        rep.model("SolverImpl", cfg(2, 2, "TRUE", "TRUE", "FALSE"), workers=8, expect=["Returns"], what="an interrupt that only sets the flag hangs")
        return
    rep.model("SolverImpl", cfg(3, 2 if rep.quick else 3, "TRUE"), workers=8, what="design refines Solver and returns")
    rep.model("SolverImpl", cfg(2, 2, "FALSE"), workers=8, expect=["Returns"], what="design before the repair hangs on a raise")


def behaviours(rep, allupd=True):
    if allupd:
        r = rep.model("SolverMC", mc_cfg(3, 3, gen=True), workers=8, what="generation of behaviours")
    else:
        r = rep.model("SolverMC", mc_cfg(3, 2, allupd=False, gen=True), workers=8, what="generation with roots and conditions")
    return r.out


FLAGS = [[], [], ["-q"], ["-d"], ["-t"], ["--printruntime"], ["-q", "-t"]]
OKS = ["none", "true", "text", "one", "zero", "empty", "list"]


def jobs_from(beh, rng, modes, fails=("false", "raise"), keep=lambda c: True, **kw):
    jobs, seen = [], set()
    for b in beh:
        c = b["c"]
        if not keep(c):
            continue
        prio = [t for e, t in b["h"] if e == "End"]
        k = json.dumps([c, prio])
        if k in seen:
            continue
        seen.add(k)
        rest = [t for t in range(1, c["n"] + 1) if t not in prio]
        rng.shuffle(rest)
        kinds = [rng.choice(OKS) if o == "ok" else rng.choice(fails) for o in c["out"]]
        jobs.append(dict(c=c, mode=rng.choice(modes), kinds=kinds, prio=prio + rest,
                         seed=rng.randrange(1 << 30), batch=rng.choice([0, 0.3]), **kw))
    return jobs


def rand_graph(rng, n, p=None, layers=None):
    p = rng.choice([0.05, 0.15, 0.3, 0.6]) if p is None else p
    perm = list(range(1, n + 1))
    rng.shuffle(perm)
    deps = [None] * n
    for i, t in enumerate(perm):
        d = [u for u in perm[:i] if rng.random() < p]
        rng.shuffle(d)
        deps[t - 1] = d
    return deps


def rand_jobs(rng, count, maxn, modes, fail_p=0.0, free=False, maxw=6, fails=("false", "raise"), **kw):
    jobs = []
    for _ in range(count):
        n = rng.randint(4, maxn)
        mode = rng.choice(modes)
        pf = rng.choice([0, fail_p, 1.5 / n]) if fail_p else 0
        out = ["fail" if rng.random() < pf else "ok" for _ in range(n)]
        deps = rand_graph(rng, n)
        up = rng.choice([1.0, 0.5, 0.2])
        solver = mode == "solver"
        tops = [t for t in range(1, n + 1) if not any(t in d for d in deps)]
        c = dict(n=n, deps=deps, root=0 if solver else rng.choice(tops + [rng.randint(1, n)]),
                 upd=[True if solver else rng.random() < up for _ in range(n)],
                 workers=rng.randint(1, maxw), out=out)
        prio = list(range(1, n + 1))
        rng.shuffle(prio)
        kinds = [rng.choice(OKS) if o == "ok" else rng.choice(fails) for o in out]
        jobs.append(dict(c=c, mode=mode, kinds=kinds, prio=prio, seed=rng.randrange(1 << 30),
                         batch=rng.choice([0, 0.2, 0.5]), free=free, **kw))
    return jobs


def shapes(rng, modes, fails=False):
    """Larger regular graphs: fans, chains, layers, more workers than any default."""
    jobs = []
    def add(deps, w, kinds=None, mode=None, root=None, free=False):
        n = len(deps)
        m = mode or rng.choice(modes)
        kinds = kinds or ["none"] * n
        c = dict(n=n, deps=deps, root=0 if m == "solver" else (root or n), upd=[True] * n, workers=w,
                 out=["fail" if k in solver_drv.FAILS else "ok" for k in kinds])
        prio = list(range(1, n + 1)); rng.shuffle(prio)
        jobs.append(dict(c=c, mode=m, kinds=kinds, prio=prio, seed=rng.randrange(1 << 30), batch=0.3, free=free))
    for w in (1, 3, 8, 40, 70):
        n = 45
        add([[] for _ in range(n)] + [list(range(1, n + 1))], w)                  # fan in
        add([[]] + [[1] for _ in range(n)] + [list(range(2, n + 2))], w)          # fan out, in
    for w in (1, 2, 5):
        add([[t - 1] if t > 1 else [] for t in range(1, 91)], w)                 # chain
        lay, wd = 6, 6
        add([[] if t < wd else [(t // wd - 1) * wd + k + 1 for k in range(wd)] for t in range(lay * wd)] +
            [[(lay - 1) * wd + k + 1 for k in range(wd)]], w)                     # full layers
        add([[] if t < wd else [(t // wd - 1) * wd + k + 1 for k in range(wd) if rng.random() < .4] for t in range(lay * wd)] +
            [list(range(1, lay * wd + 1))], w)
    if not fails:
        n = 1100      # deeper than the interpreter's stack
        add([[t - 1] if t > 1 else [] for t in range(1, n + 1)], 2, mode="core", free=True)
    if fails:
        for j in jobs:
            n = j["c"]["n"]
            for t in rng.sample(range(n), 2):
                j["kinds"][t] = rng.choice(["false", "raise"])
                j["c"]["out"][t] = "fail"
    return jobs


def malformed_jobs(rng, modes, quick):
    """Every digraph of up to 3 nodes with a cycle or an unknown dependency (sampled in quick)."""
    jobs = []
    for n in (1, 2, 3):
        for code in range((2 ** (n + 1)) ** n):
            x, deps = code, []
            for t in range(n):
                b = x % (2 ** (n + 1)); x //= 2 ** (n + 1)
                d = [u for u in range(0, n + 1) if b >> u & 1]
                rng.shuffle(d)
                deps.append(d)
            for root in range(0, n + 1):
                m = "solver" if root == 0 else rng.choice([m for m in modes if m != "solver"])
                c = dict(n=n, deps=deps, root=root, upd=[True] * n if root == 0 or rng.random() < .5 else
                         [rng.random() < .5 for _ in range(n)], workers=rng.randint(1, 3), out=["ok"] * n)
                ctl = solver_drv.Ctl(dict(c=c, kinds=[]))
                ctl.prepare()
                if ctl.wf:
                    continue
                jobs.append(dict(c=c, mode=m, kinds=["none"] * n, prio=list(range(1, n + 1)), seed=rng.randrange(1 << 30)))
    if quick:
        jobs = [j for j in jobs if j["c"]["n"] < 3 or rng.random() < 0.35]
    # larger: an acyclic graph with one cycle or unknown dependency hidden in it
    for _ in range(300 if quick else 3000):
        n = rng.randint(4, 14)
        mode = rng.choice(modes)
        deps = rand_graph(rng, n)
        if rng.random() < 0.3:
            deps[rng.randrange(n)].append(0)
        else:
            k = rng.randint(1, min(6, n))
            cyc = rng.sample(range(1, n + 1), k)
            for a, b in zip(cyc, cyc[1:] + cyc[:1]):
                if b not in deps[a - 1]:
                    deps[a - 1].append(b)
        c = dict(n=n, deps=deps, root=0, upd=[True] * n, workers=rng.randint(1, 4), out=["ok"] * n)
        if mode != "solver":
            c["root"] = rng.randint(1, n)
        ctl = solver_drv.Ctl(dict(c=c, kinds=[]))
        ctl.prepare()
        if ctl.wf:
            continue      # the request does not concern the malformed part
        jobs.append(dict(c=c, mode=mode, kinds=["none"] * n, prio=list(range(1, n + 1)), seed=rng.randrange(1 << 30)))
    return jobs


TIMED = {"C04.idle-worker-while-ready", "C02.hang", "C03.hang", "C05.hang", "C22.hang",
         "C03.started-after-failure", "C22.started-after-interrupt", "C03.returned-while-running"}


def replay(rep, jobs, what):
    """Real executions of the jobs, judged by SolverTrace; violations of rep's property are kept."""
    jobs, res = rep.drive(solver_drv.one, jobs, what)
    totr = lambda r: [{"c": r["c"], "ev": r["ev"]}]
    traces = [x for r in res for x in totr(r)]
    rep.events += sum(len(x["ev"]) for x in traces)
    bad = [(i, l, cl) for i, l, cl in rep.judge("SolverTrace", traces, what=what) if cl.startswith(rep.pid + ".")]
    if traces:
        rep.sample({"what": what, "trace": traces[len(traces) // 2]})
    # what could be slowness of this machine is repeated, a few at a time and patiently
    sure = {i for i, l, cl in bad if cl not in TIMED}
    sus = [] if sure else sorted({i for i, l, cl in bad}, key=lambda i: len(traces[i]["ev"]))[:6]
    confirmed = dict(zip(sus, rep.confirm(
        solver_drv.one, [dict(jobs[i], slow=20.0, register=1.5 if jobs[i].get("register") else 0) for i in sus],
        "SolverTrace", totr, timeout=200) if sus else []))
    for i, l, cl in bad:
        if cl in TIMED and cl not in confirmed.get(i, ()):
            if i in confirmed:
                rep.log("not confirmed: %s in job %d" % (cl, i))
            continue
        rep.violation(cl, {"driver": "solver", "event": l, "trace": traces[i], "job": jobs[i]})
    rep.checkpoint()


def scheduler(rep):
    """C01, C02, C03, C04."""
    env.load()
    rng = random.Random(rep.seed * 7919 + int(rep.pid[1:]))
    q = rep.quick
    model(rep, intr=False)
    impl_model(rep)
    beh = behaviours(rep)
    solver = jobs_from(beh, rng, ["solver"], register=0)
    beh2 = behaviours(rep, allupd=False)
    core = jobs_from(beh2, rng, ["core", "core", "routine", "file"])
    if rep.pid in ("C02", "C04"):
        solver = [j for j in solver if "fail" not in j["c"]["out"]] + rng.sample(solver, 600)
    if rep.pid == "C03":
        solver = [j for j in solver if "fail" in j["c"]["out"]]
        for j in rng.sample(solver, 150 if q else 1000):
            j["register"] = 0.25
    core = rng.sample(core, min(len(core), 2500 if q else 30000))
    replay(rep, solver, "all behaviours, DAGs <= 3")
    replay(rep, core, "behaviours with roots and conditions")
    fp = {"C02": 0.0, "C04": 0.05}.get(rep.pid, 0.15)
    modes = ["solver", "core", "routine", "cli", "file", "file", "clifile"]
    replay(rep, rand_jobs(rng, 3000 if q else 30000, 14 if q else 24, modes, fail_p=fp), "random graphs, gated")
    if rep.pid in ("C01", "C02", "C03"):
        replay(rep, rand_jobs(rng, 3000 if q else 30000, 14 if q else 24, modes, fail_p=fp, free=True), "random graphs, free running")
    replay(rep, shapes(rng, ["solver", "core", "file"], fails=rep.pid in ("C01", "C03")), "large regular graphs")
    rep.info["exhaustive"] = False
    rep.info["bounds"] = "all acyclic graphs <= 3 targets x workers <= 3 x outcomes x completion orders exhaustively; random graphs to %d targets" % (14 if q else 24)
    rep.assumptions += ["CPython threads and asyncio behave as documented",
                        "a pool with nothing to wait for becomes quiescent within the driver's patience (suspicions are repeated with 5 times the patience)"]


def malformed(rep):
    env.load()
    rng = random.Random(rep.seed * 7919 + 5)
    model(rep, malformed=True)
    replay(rep, malformed_jobs(rng, ["solver", "core", "routine", "cli", "cliroutine"], rep.quick), "malformed graphs")
    # well-formed graphs with similar shapes must be accepted
    rep.info["bounds"] = "all malformed digraphs <= 3 nodes%s; random to 14 nodes" % (" (35% sample at 3)" if rep.quick else "")


def cli_builds(rep):
    """C14: exit status of builds requested on the command line (in process)."""
    env.load()
    rng = random.Random(rep.seed * 7919 + 14)
    beh = behaviours(rep, allupd=False)
    jobs = jobs_from(beh, rng, ["cli", "cliroutine", "clifile"])
    jobs = rng.sample(jobs, min(len(jobs), 2500 if rep.quick else 30000))
    replay(rep, jobs, "command line builds")
    replay(rep, rand_jobs(rng, 1500 if rep.quick else 15000, 12, ["cli", "cliroutine", "clifile"], fail_p=.15), "random command line builds")
    mal = [j for j in malformed_jobs(rng, ["cli", "cliroutine"], True) if j["mode"].startswith("cli")]
    replay(rep, rng.sample(mal, 300), "malformed graphs on the command line")


def interrupts(rep):
    """C22: SIGINT to a real build script at every stage of the build, and the build after it."""
    env.load()
    rng = random.Random(rep.seed * 7919 + 22)
    q = rep.quick
    model(rep, intr=True)
    impl_model(rep, intr=True)
    jobs = []
    def add(c, kinds, **kw):
        j = dict(c=c, kinds=kinds, mode=rng.choice(["core", "core", "routine"]), api=rng.choice(["cli", "cli", "core"]),
                 seed=rng.randrange(1 << 30), after=rng.randint(0, c["n"] - 1), exact=rng.random() < .7,
                 group=rng.random() < .5, settle=rng.random() < .75, flags=rng.choice(FLAGS), delay=rng.choice([0, 0, .005, .05]))
        j.update(kw)
        jobs.append(j)
    # all acyclic graphs of up to three targets, at every stage
    for b in rng.sample(beh := behaviours(rep, allupd=False), len(beh)):
        c = b["c"]
        if all(c["upd"]) and "fail" not in c["out"]:
            k = (json.dumps([c["deps"], c["root"], c["workers"]]))
            if k not in rep.__dict__.setdefault("_seen", set()):
                rep._seen.add(k)
                for after in range(c["n"]):
                    add(c, ["ok"] * c["n"], after=after, exact=True, settle=True)
    if q:
        jobs = rng.sample(jobs, min(len(jobs), 250))
    for _ in range(200 if q else 2500):
        n = rng.randint(3, 9)
        deps = rand_graph(rng, n)
        tops = [t for t in range(1, n + 1) if not any(t in d for d in deps)]
        c = dict(n=n, deps=deps, root=rng.choice(tops), upd=[True] * n, workers=rng.choice([1, 2, 3, 4, 8]), out=["ok"] * n)
        pk = rng.choice([0, 0, .3, 1])
        kinds = ["cmd" if rng.random() < pk else "false" if rng.random() < .05 else "ok" for _ in range(n)]
        add(c, kinds)
    jobs, res = rep.drive(intr_drv.run, jobs, "interrupted builds", key="traces", timeout=400)
    flat = [(i, tr) for i, r in enumerate(res) for tr in r["traces"]]
    rep.info["interrupts_delivered"] = sum(e["e"] == "Interrupt" for _, x in flat for e in x["ev"])
    rep.info["interrupts_with_actions_running"] = rep.info["interrupts_delivered"]
    rep.events += sum(len(x["ev"]) for _, x in flat)
    rep.sample({"what": "interrupted build", "trace": flat[-2][1]})
    bad = [b for b in rep.judge("SolverTrace", [x for _, x in flat], what="interrupted builds") if b[2].startswith("C22.")]
    sus = sorted({flat[i][0] for i, _, _ in bad})[:8]
    conf = dict(zip(sus, rep.confirm(intr_drv.run, [dict(jobs[i], slow=4.0) for i in sus], "SolverTrace",
                                     lambda r: r["traces"], key="traces", timeout=400, most=8) if sus else []))
    for i, l, cl in bad:
        j = flat[i][0]
        if cl in conf.get(j, ()):
            rep.violation(cl, {"driver": "interrupt", "event": l, "trace": flat[i][1], "job": jobs[j]})
        elif j in conf:
            rep.log("not confirmed: %s in job %d" % (cl, j))
    rep.assumptions += ["0.35 s after the signal the build has registered it (suspicions are repeated with 1.4 s)",
                        "actions leave their results only when they complete"]
