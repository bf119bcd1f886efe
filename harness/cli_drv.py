"""Command lines given to real build scripts (each in a process of its own)."""
import json, os, random, signal, subprocess, sys, tempfile
import env, pool

HERE = os.path.dirname(os.path.abspath(__file__))


def script(job, log):
    """The build script; log(record) notes the performed action."""
    import licant
    c = job["c"]
    rng = random.Random(job["seed"])
    core = licant.default_core() if job["defcore"] else licant.Core()

    def fin():
        if c["out"] == "ok":
            return job["okval"]
        if job["failkind"] == "raise":
            raise RuntimeError("failing")
        return False

    def note(t, a, args):
        log({"e": "Call", "t": t, "a": a, "args": list(args)})
        return fin()

    ts = list(c["targets"])
    rng.shuffle(ts)
    for t in ts:
        nm = t["name"]
        acts = {a: (lambda self, *args, nm=nm, a=a: note(nm, a, args)) for a in t["acts"]}
        if t["kind"] == "rt":
            core.routine(lambda *args, nm=nm: note(nm, "main", args), tgt=nm)
        elif t["kind"] == "upd":
            core.updtarget(nm, update=lambda self, nm=nm: note(nm, "main", ()), update_if=lambda s: True,
                           actions=list(acts) or None, **acts)
        elif job["sub"]:
            class Mine(licant.Target):
                __actions__ = licant.Target.__actions__.union(set(acts))

                def __getattribute__(self, k, acts=acts):
                    if k in acts:
                        return lambda s, *a: acts[k](s, *a)
                    return object.__getattribute__(self, k)
            core.add(Mine(nm, action=lambda self, *args, nm=nm: note(nm, "main", args)))
        else:
            core.target(nm, action=lambda self, *args, nm=nm: note(nm, "main", args), actions=list(acts) or None, **acts)
    kw = {} if job["defcore"] else {"core": core}
    if job["argvparam"]:
        kw["argv"] = job["full"]
    if c["default"]:
        kw["default"] = c["default"]
    if job["color"]:
        kw["colorwrap"] = True
    licant.ex(**kw)


def code_of(x):
    return (0 if x.code is None else x.code if isinstance(x.code, int) else 1) % 256


def forked(job):
    ev = []
    try:
        script(job, ev.append)
        code = 0
    except SystemExit as x:
        code = code_of(x)
    except BaseException:
        code = 1
    return {"ev": ev + [{"e": "Exit", "code": code}]}


def one(job):
    words = job.get("words")
    if words:
        job = dict(job, c=dict(job["c"], argv=words))
    c = job["c"]
    job["full"] = job["pre"] + c["argv"] + job["post"]
    if not job["real"]:
        job["argvparam"] = True
        r = pool.forked(lambda: forked(job), timeout=30)
    else:
        r = real(job)
    if "ev" in r:
        r["c"] = c
    return r


def real(job):
    """A script of its own, started by its command line."""
    fd, path = tempfile.mkstemp(dir=env.scratch())
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, "cli_drv.py")] + job["full"],
                           env=dict({**os.environ, **env.caching()}, VJOB=json.dumps(job), VLOG=path), cwd=env.scratch(),
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60,
                           start_new_session=True)
        ev = [json.loads(x) for x in os.read(fd, 1 << 20).decode().splitlines()]
        return {"ev": ev + [{"e": "Exit", "code": p.returncode % 256}]}
    finally:
        os.close(fd)
        os.unlink(path)


if __name__ == "__main__":
    sys.path.insert(0, env.REPO)
    job = json.loads(os.environ["VJOB"])

    def log(x):
        with open(os.environ["VLOG"], "a") as f:
            f.write(json.dumps(x) + "\n")
    script(job, log)
