"""Builds whose targets are made by commands that print and end as the scenario says."""
import json, os, random, re, shutil, sys, tempfile, threading
import env, pool

CHILD = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cmd_child.py")
TAG = re.compile(r"<<(\d+)\.(\d)\.(\d+)>>")


def command(job, d, i):
    c = job["c"]["cmds"][i - 1]
    log = os.path.join(d, "log")
    if job["shell"]:
        # nothing but the shell
        end = "kill -%d $$" % c["sig"] if c["sig"] else "exit %d" % c["status"]
        out = "".join("printf '<%%s%d.%d.%d>>%s' '<' 1>&%d; " % (i, w["s"], k, "x" * w["n"], w["s"]) for k, w in enumerate(c["w"], 1))
        return "echo %d >> %s; %s%s" % (i, log, out, end)
    sp = os.path.join(d, "spec%d" % i)
    rng = random.Random(job["seed"] + i)
    with open(sp, "w") as f:
        json.dump(dict(c, fill=[rng.choice(["x", "é", "x", "~"]) for _ in c["w"]], step=rng.choice([0, 0, 0, 4096, 7777]),
                       pause=rng.choice([0, 0, 0.01]), close=rng.random() < .2), f)
    return "exec %s -S -E -B %s %d %s %s" % (sys.executable, CHILD, i, log, sp)


def run(job):
    import licant, licant.make
    c = job["c"]
    d = job["dir"]
    rng = random.Random(job["seed"])
    cap = os.open(os.path.join(d, "out"), os.O_CREAT | os.O_RDWR | os.O_TRUNC)
    os.dup2(cap, 1)
    os.dup2(cap, 2)
    sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
    sys.stderr = open(2, "w", encoding="utf-8", closefd=False)
    core = licant.default_core() if job["api"] == "module" else licant.MakeCore()
    n = len(c["cmds"])
    names = []
    for i in range(1, n + 1):
        cmd = command(job, d, i)
        nm = os.path.join(d, "o", "f%d" % i) if job["sub"] else os.path.join(d, "f%d" % i)
        api = job["api"]
        if api == "module":
            licant.makefile(nm, [], cmd, message="MAKE {tgt}") if rng.random() < .5 else licant.makefile(nm, [], do=cmd)
        elif api == "make":
            core.ftarget(nm, exec=cmd)
        else:
            nm = "u%d" % i
            core.updtarget(nm, update=licant.Executor(cmd), update_if=lambda s: True)
        names.append(nm)
    core.updtarget("all", deps=names, update_if=lambda s: False)
    core.runtime["threads"] = job["workers"]
    for k in job["flags"]:
        core.runtime[k] = True
    box = []

    def body():
        try:
            if job["cli"]:
                code = 0
                try:
                    licant.ex("all", core=core, argv=["-j", str(job["workers"])] +
                              [{"quite": "-q", "debug": "-d", "trace": "-t"}[k] for k in job["flags"]])
                except SystemExit as x:
                    code = 0 if x.code is None else x.code if isinstance(x.code, int) else 1
                box.append("true" if code == 0 else "false")
            else:
                r = core.get("all").invoke("recurse_update")
                box.append("false" if r is False else "true")
        except BaseException:
            box.append("error")
    th = threading.Thread(target=body, daemon=True)
    th.start()
    th.join(job.get("patience", 20))
    try:
        with open(os.path.join(d, "log")) as f:
            began = sorted({int(x) for x in f.read().split()})
    except FileNotFoundError:
        began = []
    ev = [{"e": "Began", "i": i} for i in began]
    if not box:
        return {"c": c, "ev": ev + [{"e": "Hang"}]}
    sys.stdout.flush(); sys.stderr.flush()
    with open(os.path.join(d, "out"), "rb") as f:
        text = f.read().decode("utf-8", errors="replace")
    ms = [m for m in TAG.finditer(text)]
    pcs = {}
    for a, m in enumerate(ms):
        i, st, k = map(int, m.groups())
        end = ms[a + 1].start() if a + 1 < len(ms) else len(text)
        body = text[m.end():end]
        ch = body[:1]
        cnt = len(body) - len(body.lstrip(ch)) if ch in ("x", "é", "~") and ch else 0
        w = c["cmds"][i - 1]["w"]
        if not (1 <= k <= len(w)) or not w[k - 1]["p"]:
            cnt = 0
        pcs.setdefault((i, st), []).append({"k": k, "n": cnt})
    for i in began:
        for st in (1, 2):
            ev.append({"e": "Printed", "i": i, "s": st, "pcs": pcs.get((i, st), [])})
    return {"c": c, "ev": ev + [{"e": "Result", "res": box[0]}]}


def one(job):
    d = tempfile.mkdtemp(dir=env.scratch())
    try:
        return pool.forked(lambda: run(dict(job, dir=d)), timeout=job.get("patience", 20) + 10)
    finally:
        shutil.rmtree(d, ignore_errors=True)
