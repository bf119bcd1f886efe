"""Histories of the library registry utility (Registry.tla), each operation in a process of its own.

job: lib (file -> library), ops: list of
 {e: Make|Drop, p} | {e: Set, u, r} | {e: Op, u, o: {k, name, p, cwd}, fault, seed}"""
import json, os, random, shutil, signal, subprocess, sys
import env

WRAP = r'''
import sys, os, json, signal, resource
sys.path.insert(0, %(repo)r)
plan = json.loads(sys.argv[1])
sys.argv = ["licant-libs"] + plan["argv"]
import licant.libs, licant.licant_libs
assert os.path.realpath(licant.__file__).startswith(os.path.realpath(%(repo)r) + os.sep)
assert hasattr(licant.libs, "gpath") and licant.libs.lpath == os.environ["HOME"] + "/.licant"
licant.libs.gpath = plan["gpath"]
os.chdir(plan["cwd"])
if plan["fault"] in ("full", "fullkill"):
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if plan["fault"] == "fullkill" else signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (plan["at"], plan["at"]))
count = 0
def trace(frame, event, arg):
    global count
    count += 1
    if plan["fault"] == "kill" and count > plan["at"]:
        os.kill(os.getpid(), signal.SIGKILL)
    return trace
def counted():
    sys.settrace(None)
    if plan["count"]:
        with open(plan["count"], "w") as f:
            f.write(str(count))
def run():
    if plan["merged"]:
        licant.libs.libs_target.invoke("list")
    else:
        licant.licant_libs.licant_libs_utility()
if plan["fault"] == "kill" or plan["count"]:
    sys.settrace(trace)
try:
    run()
finally:
    counted()
'''


def nobody():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)


def one(job):
    d = os.path.realpath(os.path.join(env.scratch(), "g%d_%d" % (os.getpid(), random.randrange(1 << 40))))
    root, home, var = (os.path.join(d, x) for x in ("p", "home", "var"))
    for x in (root, home, var):
        os.makedirs(x)
        os.chmod(x, 0o777)
    os.chmod(d, 0o777)
    gpath, lpath = os.path.join(var, "licant"), os.path.join(home, ".licant")
    file = {"user": lpath, "system": gpath}
    try:
        return go(job, d, root, home, gpath, file)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def at(root, q):
    return os.path.join(root, *q)


def observe(root, f):
    try:
        with open(f, "rb") as h:
            raw = h.read()
    except FileNotFoundError:
        return {"ok": True, "m": []}, None
    try:
        m = json.loads(raw)
        assert isinstance(m, dict) and all(isinstance(v, str) for v in m.values())
    except Exception:
        return {"ok": False, "m": []}, raw
    return {"ok": True, "m": sorted([k, comps(v, root)] for k, v in m.items())}, raw


def comps(v, root):
    if v == root: return []
    return v[len(root) + 1:].split("/") if v.startswith(root + "/") else ["not below", v]


def spell(o, root, rng):
    q = "/".join(o["p"]["p"]) or "."
    if o["p"]["abs"]:
        q = root + "/" + "/".join(o["p"]["p"])
    if o["k"] == "dir" and rng.random() < .3:
        q += "/"
    return q


def go(job, d, root, home, gpath, file):
    ev = []
    for step in job["ops"]:
        if step["e"] == "Make":
            q = at(root, step["p"])
            # directories are made on the way, and are paths as well
            for k in range(1, len(step["p"])):
                os.makedirs(at(root, step["p"][:k]), exist_ok=True)
                ev.append({"e": "Make", "p": step["p"][:k]})
            if not os.path.exists(q):
                open(q, "w").close()
            ev.append(step)
            continue
        if step["e"] == "Drop":
            q = at(root, step["p"])
            shutil.rmtree(q) if os.path.isdir(q) else os.path.exists(q) and os.remove(q)
            ev.append(step)
            continue
        f = file.get(step["u"])
        if step["e"] == "Set":
            with open(f, "w") as h:
                h.write(json.dumps({k: at(root, v) for k, v in step["r"]["m"]}) if step["r"]["ok"] else '{"x": "/a/b", "y": ')
            os.chmod(f, 0o666)
            ev.append(step)
            continue
        o = step["o"]
        rng = random.Random(step["seed"])
        opt = []
        if o["k"] != "merged":
            if step["u"] == "user": opt.append(rng.choice(["-u", "--user"]))
            if o["k"] == "remove": opt.append(rng.choice(["-r", "--remove"]))
            if o["k"] == "list": opt.append(rng.choice(["-l", "--list"]))
            args = {"add": [o["name"], spell(o, root, rng)], "dir": [spell(o, root, rng)], "remove": [o["name"]], "list": [],
                    "bad": o.get("args", [])}[o["k"]]
            if o["k"] == "bad": opt += o["opts"]
            if len(opt) > 1 and rng.random() < .3:
                opt = ["-" + "".join(x.strip("-")[0] for x in opt)]
            argv = opt + args if rng.random() < .7 else args + opt
        else:
            argv = []
        cwd = at(root, o["cwd"])
        if not os.path.isdir(cwd):
            continue
        before = {u: observe(root, file[u])[1] for u in file}
        plan = dict(argv=argv, gpath=gpath, cwd=cwd, fault=step["fault"], at=0, merged=o["k"] == "merged", count="")

        def run(plan, **kw):
            e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": home, **env.caching(), "PYTHONIOENCODING": "utf-8"}
            return subprocess.run([sys.executable, "-c", WRAP % dict(repo=env.REPO), json.dumps(plan)], cwd="/", env=e, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=job.get("patience", 40), preexec_fn=nobody)
        hang = False
        try:
            if step["fault"] == "kill":
                # how many steps there are: a run on copies
                c2 = os.path.join(d, "copy")
                os.makedirs(c2 + "/home")
                for x, y in ((file["user"], c2 + "/home/.licant"), (gpath, c2 + "/licant")):
                    if os.path.exists(x): shutil.copy(x, y)
                for x in (c2, c2 + "/home"):
                    os.chmod(x, 0o777)
                home0, home = home, c2 + "/home"
                run(dict(plan, fault="none", gpath=c2 + "/licant", count=os.path.join(d, "count")))
                home = home0
                with open(os.path.join(d, "count")) as h:
                    n = int(h.read())
                shutil.rmtree(c2)
                plan["at"] = n - int(n * rng.random() ** 2)
            elif step["fault"] != "none":
                plan["at"] = int(rng.random() * (2.2 * len(before[step["u"]] or b"") + 60)) if rng.random() < .8 else 0
            p = run(plan)
            exit, out, err = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
            if "AssertionError" in err:
                return {"_error": err[-2000:]}
        except subprocess.TimeoutExpired:
            hang, exit, out = True, 0, ""
        seen = {u: observe(root, file[u]) for u in file}
        sep = ": " if o["k"] == "merged" else " "
        lines = [[x.split(sep + root, 1)[0], root + x.split(sep + root, 1)[1]] for x in out.splitlines() if sep + root in x] if o["k"] in ("list", "merged") and exit == 0 else []
        ev.append({"e": "Op", "u": step["u"], "o": {k: o[k] for k in ("k", "name", "p", "cwd")}, "fault": step["fault"], "exit": exit, "hang": hang,
                   "user": seen["user"][0], "system": seen["system"][0], "out": [[a, comps(b, root)] for a, b in lines],
                   "saved": all(seen[u][0]["ok"] or seen[u][1] == before[u] for u in file)})
    return {"lib": [[a, b] for a, b in job["lib"].items()], "ev": ev}
