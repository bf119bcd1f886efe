"""Interrupts a real build script (a process of its own) and then runs it again undisturbed."""
import json, os, random, select, shutil, signal, subprocess, sys, tempfile, time
import env, solver_drv

CHILD = os.path.join(os.path.dirname(os.path.abspath(__file__)), "intr_child.py")


class Proc:
    def __init__(self, job, d):
        self.job, self.d = job, d
        c = job["c"]
        r0, self.w = os.pipe()
        self.r, w0 = os.pipe()
        order = list(range(1, c["n"] + 1))
        random.Random(job["seed"]).shuffle(order)
        arg = dict(c=c, mode=job["mode"], api=job["api"], kinds=job["kinds"], order=order, dir=d, repo=env.REPO,
                   flags=job.get("flags", []))
        arg["in"], arg["out"] = r0, w0
        self.p = subprocess.Popen([sys.executable, CHILD, json.dumps(arg)], pass_fds=[r0, w0], cwd=d, env={**os.environ, **env.caching()},
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  start_new_session=True,
                                  preexec_fn=lambda: signal.signal(signal.SIGINT, signal.SIG_DFL))
        os.close(r0); os.close(w0)
        self.buf = b""
        self.ev = []
        self.eof = False
        self.running, self.started, self.ended = set(), [], {}
        self.solo = set()

    def pump(self, timeout):
        """Take what has happened; True if anything did."""
        if self.eof:
            return False
        rd, _, _ = select.select([self.r], [], [], max(0, timeout))
        if not rd:
            return False
        x = os.read(self.r, 1 << 16)
        if not x:
            self.eof = True
            return True
        self.buf += x
        while b"\n" in self.buf:
            ln, self.buf = self.buf.split(b"\n", 1)
            a = ln.decode().split()
            t = int(a[1])
            if a[0] == "S":
                self.ev.append({"e": "Start", "t": t}); self.running.add(t); self.started.append(t)
            else:
                self.ev.append({"e": "End", "t": t, "out": a[2], "solo": False})
                self.running.discard(t); self.ended[t] = a[2]
        return True

    def until(self, cond, timeout):
        end = time.time() + timeout
        while not cond() and not self.eof and time.time() < end:
            self.pump(end - time.time())
        return cond()

    def go(self, t):
        try:
            if self.job["kinds"][t - 1] == "cmd":
                fd = os.open(os.path.join(self.d, "f%d" % t), os.O_WRONLY | os.O_NONBLOCK)
                os.write(fd, b"x\n"); os.close(fd)
            else:
                os.write(self.w, b"%d\n" % t)
        except OSError:
            return False
        return True

    def finish(self, slow):
        """Let everything go, until it exits."""
        end = time.time() + slow
        sent = set()
        while time.time() < end:
            for t in sorted(self.running - sent):
                if self.go(t):
                    sent.add(t)
            if self.eof:
                break
            self.pump(0.1)
            if self.p.poll() is not None and not self.pump(0):
                break
        try:
            code = self.p.wait(max(0.1, end - time.time()))
            while self.pump(0.05):
                pass
            self.ev.append({"e": "Exit", "code": code % 256})
        except subprocess.TimeoutExpired:
            self.ev.append({"e": "Hang"})
        self.close()

    def close(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        self.p.wait()
        for fd in (self.r, self.w):
            try: os.close(fd)
            except OSError: pass


def expected(c, pr, ok):
    """How many actions can be running."""
    reach = lambda t: set(c["deps"][t - 1]).union(*[reach(u) for u in c["deps"][t - 1]]) if c["deps"][t - 1] else set()
    cl = {c["root"]} | reach(c["root"])
    rest = [t for t in cl if t not in pr.started and reach(t) <= ok]
    return min(c["workers"], len(pr.running) + len(rest))


def run(job):
    c = job["c"]
    slow = job.get("slow", 1.0)
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    d = tempfile.mkdtemp(dir=env.scratch())
    try:
        for t in range(1, c["n"] + 1):
            if job["kinds"][t - 1] == "cmd":
                os.mkfifo(os.path.join(d, "f%d" % t))
        pr = Proc(job, d)
        rng = random.Random(job["seed"])
        good = lambda: {t for t, o in pr.ended.items() if o == "ok"}
        pr.until(lambda: pr.started, 20)
        n = 0
        while n < job["after"] and not pr.eof:
            if job["exact"]:
                pr.until(lambda: len(pr.running) >= expected(c, pr, good()), 3)
            else:
                pr.until(lambda: pr.running, 3)
            if not pr.running or "fail" in pr.ended.values():
                break
            t = rng.choice(sorted(pr.running))
            time.sleep(0.01 if job["kinds"][t - 1] == "cmd" else 0)
            if not pr.go(t):
                if pr.until(lambda: False, 0.05) or True:
                    continue
            pr.until(lambda: t not in pr.running, 5)
            n += 1
        if job["exact"]:
            pr.until(lambda: len(pr.running) >= expected(c, pr, good()), 3)
        elif job.get("delay"):
            pr.until(lambda: False, job["delay"])
        if not pr.eof and pr.running and pr.p.poll() is None:
            while pr.pump(0):
                pass
            pr.ev.append({"e": "Interrupt"})
            if job["group"]:
                os.killpg(pr.p.pid, signal.SIGINT)
            else:
                os.kill(pr.p.pid, signal.SIGINT)
            if job["settle"]:
                pr.until(lambda: False, 0.35 * slow)
                pr.ev.append({"e": "Settled"})
        pr.finish(10 * slow)
        made = [os.path.exists(os.path.join(d, "m%d" % t)) for t in range(1, c["n"] + 1)]
        c1 = dict(c, upd=[True] * c["n"], out=["ok"] * c["n"], after=False)
        # once more, undisturbed
        j2 = dict(job, kinds=["ok" if k == "false" else k for k in job["kinds"]])
        p2 = Proc(j2, d)
        p2.finish(10 * slow)
        c2 = dict(c, upd=[not m for m in made], out=["ok"] * c["n"], after=True)
        return {"traces": [{"c": c1, "ev": pr.ev}, {"c": c2, "ev": p2.ev}]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
