"""Drives real licant builds of abstract graphs and records what happens.

A job: c (the scenario of Solver.tla), mode, kinds (concrete result of each action), prio (order
in which running actions are let go), batch (probability of letting several go at once),
free (no gates: random sleeps), slow (patience in seconds for quiescence and return)."""
import os, random, shutil, sys, tempfile, threading, time

FAILS = {"false", "raise", "sysexit"}


class Ctl:
    def __init__(self, job):
        self.job = job
        c = job["c"]
        self.c = c
        self.n = c["n"]
        self.lock = threading.Condition()
        self.ev = []
        self.running = set()
        self.started = []
        self.ended = {}
        self.solo = set()
        self.files, self.dir = {}, None
        self.gates = {t: threading.Event() for t in range(1, self.n + 1)}
        self.rng = random.Random(job.get("seed", 0))

    def act(self, t):
        with self.lock:
            self.ev.append({"e": "Start", "t": t})
            self.running.add(t)
            self.started.append(t)
            self.lock.notify_all()
        if self.job.get("free"):
            d = self.rng.random()
            if d < 0.7:
                time.sleep(d * 0.004)
        else:
            self.gates[t].wait(120)
        k = self.job["kinds"][t - 1]
        if t in self.files and k not in FAILS:
            with open(self.files[t], "w") as h:
                h.write("new")
        with self.lock:
            self.ev.append({"e": "End", "t": t, "out": "fail" if k in FAILS else "ok",
                            "solo": t in self.solo})
            self.running.discard(t)
            self.ended[t] = k
            self.lock.notify_all()
        if k == "false":
            return False
        if k == "raise":
            raise RuntimeError("action failed")
        if k == "sysexit":
            raise SystemExit(3)
        return {"none": None, "true": True, "text": "text", "one": 1, "zero": 0, "empty": "", "list": []}[k]

    # ---- guidance only: what the pool can be expected to run next
    def reach(self, t):
        out, todo = set(), list(self.c["deps"][t - 1])
        while todo:
            u = todo.pop()
            if u not in out:
                out.add(u)
                if 1 <= u <= self.n:
                    todo += self.c["deps"][u - 1]
        return out

    def prepare(self):
        c = self.c
        cl = {c["root"]} | self.reach(c["root"])
        if c["root"] == 0:
            cl = set().union(range(1, self.n + 1), *[self.reach(t) for t in range(1, self.n + 1)])
        self.wf = all(1 <= t <= self.n for t in cl) and all(t not in self.reach(t) for t in cl)
        if self.wf:
            self.needed = {t for t in cl if any(c["upd"][u - 1] for u in {t} | self.reach(t))}
            self.below = {t: self.reach(t) & self.needed for t in cl}

    def expected(self):
        good = {t for t, k in self.ended.items() if k not in FAILS}
        if len(good) != len(self.ended):
            return len(self.running)
        st = set(self.started)
        ready = [t for t in self.needed - st if self.below[t] <= good]
        return min(self.c["workers"], len(self.running) + len(ready))


def name(t):
    return "t%d" % t


def outdated(ctl):
    """Files for most of the targets: those whose condition holds are missing or older than a source."""
    c, r = ctl.c, ctl.rng
    ctl.dir = tempfile.mkdtemp(prefix="lic-sched-")
    up = lambda t: len(ctl.reach(t))
    for t in range(1, ctl.n + 1):
        if r.random() < ctl.job.get("files", .8):
            ctl.files[t] = ctl.dir + "/" + name(t)
            own, src = 1.6e9 + 100 * up(t), 1.5e9
            if c["upd"][t - 1]:
                src = 1.65e9
            for f, m in ((ctl.files[t], own), (ctl.dir + "/src%d" % t, src)):
                if f != ctl.files[t] or not c["upd"][t - 1] or r.random() < .7:
                    with open(f, "w") as h:
                        h.write("old")
                    os.utime(f, (m, m))


def make_core(ctl, licant, core=None):
    """Declare the graph in a core, in a shuffled order."""
    c, job = ctl.c, ctl.job
    if job["mode"] in ("file", "clifile"):
        from licant.make import MakeCore
        core = MakeCore()
        outdated(ctl)
    core = core or licant.Core()
    order = list(range(1, ctl.n + 1))
    ctl.rng.shuffle(order)
    for t in order:
        deps = [name(u) if 1 <= u <= ctl.n else "nosuchtarget" for u in c["deps"][t - 1]]
        upd = c["upd"][t - 1]
        if t in ctl.files:
            src = ctl.dir + "/src%d" % t
            core.source(src)
            core.ftarget(ctl.files[t], lambda s, t=t: ctl.act(t),
                         deps=[ctl.files.get(u, name(u)) if 1 <= u <= ctl.n else "nosuchtarget" for u in c["deps"][t - 1]] + [src])
        elif ctl.files:
            core.updtarget(name(t), deps=[ctl.files.get(u, name(u)) for u in c["deps"][t - 1]],
                           update=lambda s, t=t: ctl.act(t), update_if=lambda s, u=upd: u)
        elif job["mode"] in ("routine", "cliroutine"):
            core.routine(lambda t=t: ctl.act(t), deps=deps, update_if=lambda s, u=upd: u, tgt=name(t))
        else:
            core.updtarget(name(t), deps=deps, update=lambda s, t=t: ctl.act(t), update_if=lambda s, u=upd: u)
    return core


def build(ctl):
    """The real build; returns an event."""
    import licant
    c, job = ctl.c, ctl.job
    mode = job["mode"]
    if mode == "solver":
        from licant.solver import DependableTarget, InverseRecursiveSolver
        order = list(range(1, ctl.n + 1))
        ctl.rng.shuffle(order)
        ts = [DependableTarget(name(t), deps={name(u) if 1 <= u <= ctl.n else "nosuchtarget" for u in c["deps"][t - 1]},
                               what_to_do=(lambda t=t: ctl.act(t))) for t in order]
        r = InverseRecursiveSolver(ts, count_of_threads=c["workers"]).exec()
        return {"e": "Return", "res": "false" if r is False else "true"}
    core = make_core(ctl, licant)
    root = ctl.files.get(c["root"], name(c["root"]))
    if mode in ("cli", "cliroutine", "clifile"):
        code = 0
        try:
            licant.ex(root, core=core, argv=["-j", str(c["workers"])] + job.get("flags", []))
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        return {"e": "Exit", "code": code % 256}
    core.runtime["threads"] = c["workers"]
    act = "invoke_routine" if mode == "routine" else "recurse_update"
    if c["root"] in ctl.files and ctl.rng.random() < .5:
        act = "makefile"
    r = core.get(root).invoke(act)
    return {"e": "Return", "res": "false" if r is False else "true"}


def run(job):
    ctl = Ctl(job)
    ctl.prepare()
    slow = job.get("slow", 4.0)
    box = []

    def body():
        try:
            e = build(ctl)
        except BaseException as x:
            e = {"e": "Return", "res": "error", "exc": type(x).__name__}
            if job["mode"].startswith("cli"):
                e = {"e": "Exit", "code": 1, "exc": type(x).__name__}
        with ctl.lock:
            ctl.ev.append(e)
            box.append(e)
            ctl.lock.notify_all()

    th = threading.Thread(target=body, daemon=True)
    th.start()
    if not job.get("free") and ctl.wf:
        prio = {t: i for i, t in enumerate(job["prio"])}
        with ctl.lock:
            while True:
                end = time.time() + slow
                while not box and len(ctl.running) < ctl.expected() and time.time() < end:
                    ctl.lock.wait(max(0.0, end - time.time()))
                if box:
                    break
                if ctl.rng.random() < job.get("dwell", 0.15):
                    ctl.lock.wait(0.003)     # let anything too eager show itself
                failed = any(k in FAILS for k in ctl.ended.values())
                if not failed:
                    ctl.ev.append({"e": "Quiesce"})
                elif job.get("register"):
                    end = time.time() + job["register"]
                    while time.time() < end and not box:
                        ctl.lock.wait(max(0.0, end - time.time()))
                    ctl.ev.append({"e": "Register"})
                todo = sorted(ctl.running, key=lambda t: prio.get(t, 0))
                if not todo:
                    break
                k = 1
                if len(todo) > 1 and ctl.rng.random() < job.get("batch", 0.0):
                    k = ctl.rng.randint(2, len(todo))
                go = todo[:k]
                if k == 1:
                    ctl.solo.add(go[0])
                for t in go:
                    ctl.gates[t].set()
                end = time.time() + slow
                while any(t in ctl.running for t in go) and time.time() < end:
                    ctl.lock.wait(0.5)
                if any(k in FAILS for k in ctl.ended.values()):
                    ctl.lock.wait(0.002)
    else:
        for t in ctl.gates:
            ctl.gates[t].set()
    th.join(slow)
    with ctl.lock:
        if not box:
            if ctl.running:
                for t in ctl.gates:
                    ctl.gates[t].set()
    if not box:
        th.join(slow)
    with ctl.lock:
        if not box:
            ctl.ev.append({"e": "Hang"})
        ev = list(ctl.ev)
    for t in ctl.gates:
        ctl.gates[t].set()
    if ctl.dir:
        shutil.rmtree(ctl.dir, ignore_errors=True)
    c = dict(ctl.c, after=False)
    return {"c": c, "ev": ev, "job": job}


def one(job):
    """The command line reads its options once per process: those jobs get one of their own."""
    if job["mode"].startswith("cli"):
        import pool
        return pool.forked(lambda: run(job), timeout=80)
    return run(job)
