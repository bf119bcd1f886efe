"""A build script as a user would write it; what its actions do is told by the parent."""
import json, os, sys, threading
job = json.loads(sys.argv[1])
sys.path.insert(0, job["repo"])
sys.argv = ["script"]
import licant
c = job["c"]
infd, outfd = job["in"], job["out"]
gates = {t: threading.Event() for t in range(1, c["n"] + 1)}


def reader():
    f = os.fdopen(infd)
    for ln in f:
        gates[int(ln)].set()


threading.Thread(target=reader, daemon=True).start()


def say(*a):
    os.write(outfd, (" ".join(map(str, a)) + "\n").encode())


def act(t):
    say("S", t)
    kind = job["kinds"][t - 1]
    try:
        if kind == "cmd":
            r = licant.Executor("read x < %s" % os.path.join(job["dir"], "f%d" % t))(core.get("t%d" % t))
            if r is not True:
                say("E", t, "fail")
                return False
        else:
            gates[t].wait(60)
    except BaseException:
        say("E", t, "fail")
        raise
    if kind == "false":
        say("E", t, "fail")
        return False
    open(os.path.join(job["dir"], "m%d" % t), "w").close()
    say("E", t, "ok")


core = licant.Core()
for t in job["order"]:
    kw = dict(deps=["t%d" % u for u in c["deps"][t - 1]],
              update_if=lambda s, t=t: not os.path.exists(os.path.join(job["dir"], "m%d" % t)))
    if job["mode"] == "routine":
        core.routine(lambda t=t: act(t), tgt="t%d" % t, **kw)
    else:
        core.updtarget("t%d" % t, update=lambda s, t=t: act(t), **kw)
root = "t%d" % c["root"]
if job["api"] == "cli":
    licant.ex(root, core=core, argv=["-j", str(c["workers"])] + job["flags"])
else:
    core.runtime["threads"] = c["workers"]
    t = core.get(root)
    if t.invoke(t.default_action) is False:
        sys.exit(1)
