"""Histories of routine invocations on the real code."""
import random, threading, time
import pool


def run(job):
    import licant
    p, rng = job["p"], random.Random(job["seed"])
    n = p["n"]
    cond = list(p["cond"])
    ev, lock = [], threading.Lock()
    fails = set()
    nm = lambda t: "r%d" % t
    cli = job["how"] == "cli"
    core = licant.Core()
    if job["how"] == "default":
        # the process-wide core, as the module-level functions use it (one process per job)
        core = licant.default_core()

    def act(t, args):
        with lock:
            ev.append({"e": "Run", "t": t, "args": [str(a) for a in args]})
        if rng.random() < job["pause"]:
            time.sleep(rng.random() * 0.003)
        bad = t in fails
        with lock:
            ev.append({"e": "Ran", "t": t, "out": "fail" if bad else "ok"})
            if not bad:
                for u in p["resets"][t - 1]:
                    cond[u - 1] = False
                for u in p["sets"][t - 1]:
                    cond[u - 1] = True
        if bad:
            if job["raises"]:
                raise RuntimeError("failing")
            return False
        return rng.choice([None, True, "x", 0, ""])

    order = list(range(1, n + 1))
    rng.shuffle(order)
    for t in order:
        deps = [nm(u) for u in p["deps"][t - 1]]
        always = job.get("always") and p["cond"][t - 1] and not any(t in r for r in p["resets"]) and \
            not any(o["o"] == "Set" and o["t"] == t for o in job["h"])
        kw = {} if always and p["kind"][t - 1] == "rt" else dict(update_if=lambda s, t=t: cond[t - 1])
        if p["kind"][t - 1] == "rt":
            def f(*args, t=t):
                return act(t, args)
            reg = licant.routine if job["how"] == "default" and rng.random() < .7 else core.routine
            form = rng.choice(["call", "decorator", "name"])
            if form == "call":
                reg(f, deps=deps, tgt=nm(t), **kw)
            elif form == "decorator":
                reg(deps=deps, tgt=nm(t), **kw)(f)
            else:
                f.__name__ = nm(t)
                if not deps and not kw:
                    reg(f)
                else:
                    reg(deps=deps, **kw)(f)
        else:
            core.updtarget(nm(t), deps=deps, update=lambda s, t=t: act(t, ()), **kw)
    if job["rt"]:
        core.runtime["threads"] = p["workers"]

    for o in job["h"]:
        if o["o"] == "Set":
            cond[o["t"] - 1] = o["b"]
            ev.append({"e": "Set", "t": o["t"], "b": o["b"]})
            continue
        t, args = o["t"], o["args"]
        fails.clear()
        fails.update(o["fails"])
        ev.append({"e": "Invoke", "t": t, "args": args})
        box = []

        def body():
            try:
                tg = core.get(nm(t))
                if cli:
                    code = 0
                    try:
                        licant.ex(None, core=core, argv=["-j", str(p["workers"]), nm(t)] + args)
                    except SystemExit as x:
                        code = 0 if x.code is None else x.code if isinstance(x.code, int) else 1
                    box.append("true" if code == 0 else "false")
                    return
                m = rng.random()
                if p["kind"][t - 1] == "rt":
                    if m < .4:
                        kw = {} if job["rt"] else dict(threads=p["workers"])
                        r = tg.invoke("invoke_routine", args=list(args), kwargs=kw)
                    elif m < .6:
                        r = tg.invoke(tg.default_action, args=tuple(args))
                    elif args or m < .85:
                        before = len(ev)
                        (licant.do if job["how"] == "default" else core.do)(nm(t), args=list(args))
                        r = None      # says nothing about success
                        with lock:
                            bad = any(e["e"] == "Ran" and e["out"] == "fail" for e in ev[before:])
                        r = not bad
                    else:
                        r = tg.invoke("recurse_update")
                else:
                    r = tg.invoke(rng.choice(["recurse_update", tg.default_action]))
                box.append("false" if r is False else "true")
            except BaseException as x:
                box.append("error")
        th = threading.Thread(target=body, daemon=True)
        th.start()
        th.join(job.get("patience", 10))
        if not box:
            with lock:
                ev.append({"e": "Hang"})
                return {"p": p, "ev": list(ev)}
        with lock:
            ev.append({"e": "Done", "res": box[0]})
        if cli:
            break
    with lock:
        return {"p": p, "ev": list(ev)}


def one(job):
    if job["how"] in ("cli", "default"):
        return pool.forked(lambda: run(job), timeout=80)
    return run(job)
