"""C11, C12, C13, C14: commands, routines, the command line."""
import itertools, json, random, time
import env, pool, routine_drv, cli_drv, cmd_drv
from report import HarnessError


def settle(rep, jobs, traces, found, fn, module, driver, **patient):
    """Violations of rep's property; hangs only if a patient repetition hangs too."""
    found = [f for f in found if f[2].startswith(rep.pid + ".")]
    sure = any(not cl.endswith(".hang") for _, _, cl in found)
    hung = [] if sure else sorted({i for i, _, cl in found if cl.endswith(".hang")})[:6]
    again = dict(zip(hung, rep.confirm(fn, [dict(jobs[i], **patient) for i in hung], module,
                                       lambda r: [{k: r[k] for k in traces[0]}], times=1) if hung else []))
    for i, l, cl in found:
        if not cl.endswith(".hang") or cl in again.get(i, ()):
            rep.violation(cl, {"driver": driver, "event": l, "trace": traces[i], "job": jobs[i]})
    rep.checkpoint()


def rt_cfg(n, ops, gen=False, fails=True, file=False):
    b = lambda x: "TRUE" if x else "FALSE"
    return ("SPECIFICATION Spec\nCONSTANTS GEN=%s N=%d MAXOPS=%d FAILS=%s FROMFILE=%s\n" % (b(gen), n, ops, b(fails), b(file)) +
            ("" if gen else "INVARIANT Once OnlyRootGetsArgs RootGetsArgs DepsBefore Exactly Never\n"))


def rand_routines(rng, i):
    n = rng.randint(2, 8)
    deps = [rng.sample(range(1, t), min(t - 1, rng.choice([0, 1, 1, 2, 3]))) for t in range(1, n + 1)]
    pc = rng.choice([1, .6, .3, .1])
    pr = rng.choice([0, .3, .8])
    ps = rng.choice([0, 0, .2])
    return dict(n=n, deps=deps, kind=[rng.choice(["rt", "rt", "up"]) for _ in range(n)],
                cond=[rng.random() < pc for _ in range(n)],
                resets=[rng.sample(range(1, n + 1), 1) if rng.random() < pr / 3 else [t] if rng.random() < pr else [] for t in range(1, n + 1)],
                sets=[rng.sample(range(1, n + 1), 1) if rng.random() < ps else [] for t in range(1, n + 1)],
                workers=rng.choice([1, 1, 2, 4]), id=i)


def routines(rep):
    env.load()
    rng = random.Random(rep.seed * 31337 + 12)
    q = rep.quick
    rep.model("RoutineMC", rt_cfg(2, 3), workers=8, what="all routine graphs <= 2, 3 operations")
    rep.model("RoutineMC", rt_cfg(3, 2 if q else 3, fails=q), workers=8, what="all routine graphs <= 3", timeout=3000)
    if not q:
        rep.model("RoutineMC", rt_cfg(2, 4), workers=8, what="all routine graphs <= 2, 4 operations", timeout=3000)
    small = rep.model("RoutineMC", rt_cfg(2, 2, gen=True, fails=False), workers=8, what="generation: all histories <= 2 routines").out
    hs = []
    for ops, cnt, fails in ((6, 3000, True), (12, 1500, False), (20, 500, False)):
        ps = [rand_routines(rng, i) for i in range(300)]
        r = rep.model("RoutineMC", rt_cfg(2, ops, gen=True, fails=fails, file=True), data={"PROJECTS": ps}, workers=8,
                      simulate=cnt * (1 if q else 8) // 8, depth=ops * 12 + 40, seed=rng.randrange(1 << 30), what="generation of histories")
        hs += r.out
    seen, jobs = set(), []
    def job(b, how):
        return dict(p=b["p"], h=b["h"], how=how, seed=rng.randrange(1 << 30), pause=rng.choice([0, .3]),
                    raises=rng.random() < .5, rt=rng.random() < .6, always=rng.random() < .5)
    small = [b for b in small if any(o["o"] == "Invoke" for o in b["h"])]
    for b in rng.sample(small, min(len(small), 3000 if q else 40000)):
        jobs.append(job(b, rng.choice(["core", "default"])))
    for b in hs:
        jobs.append(job(b, rng.choice(["core", "core", "default"])))
    for b in rng.sample(hs, 400 if q else 4000):
        jobs.append(job(b, "cli"))
    jobs, res = rep.drive(routine_drv.one, jobs, "routine histories")
    traces = [{"p": r["p"], "ev": r["ev"]} for r in res]
    rep.events += sum(len(x["ev"]) for x in traces)
    rep.info["invocations"] = sum(e["e"] == "Invoke" for x in traces for e in x["ev"])
    rep.sample({"what": "routines", "trace": traces[-1]})
    settle(rep, jobs, traces, rep.judge("RoutineTrace", traces, what="routine histories"), routine_drv.one, "RoutineTrace", "routine", patience=60)
    rep.info["bounds"] = "model: all graphs <= 3 routines; real: all 2-operation histories over <= 2 routines (sampled), random histories to 8 routines and 20 operations"
    rep.assumptions += ["routine functions accept any arguments; conditions change only between invocations or by successful runs"]


TRICKY = ["", "a b", "{x}", "*", "é", "0", "None", "[]", "'q'", "x=1", "a", "go", "\\", "%s", "x" * 300]


def cli_jobs(rng, cs, real=False):
    jobs = []
    for c in cs:
        c = dict(c, out=rng.choice(["ok", "ok", "fail"]))
        if rng.random() < .5:     # words that are not looked up may be anything
            c["argv"] = [w if i < 2 and w != "x" else rng.choice(TRICKY[:-1] if real else TRICKY) if w == "x" and i >= 1 else w
                         for i, w in enumerate(c["argv"])]
        fl = [["-q"], ["-d"], ["-t"], ["-j", "3"], ["-j1"], ["--printruntime"]]
        pre = sum(rng.sample(fl, rng.choice([0, 0, 1, 2])), [])
        post = sum(rng.sample(fl, rng.choice([0, 0, 0, 1])), []) if c["argv"] else []
        jobs.append(dict(c=c, pre=pre, post=post, real=real, seed=rng.randrange(1 << 30), defcore=rng.random() < .4,
                         sub=rng.random() < .4, okval=rng.choice([None, True, "x", 1, 0, ""]), failkind=rng.choice(["false", "raise"]),
                         argvparam=rng.random() < .3, color=rng.random() < .2))
    return jobs


def cli(rep):
    """C13, C14."""
    env.load()
    rng = random.Random(rep.seed * 31337 + int(rep.pid[1:]))
    q = rep.quick
    cfg = lambda gen, n: ("SPECIFICATION Spec\nCONSTANTS GEN=%s MAXARGS=%d\n" % (gen, n) +
                          ("" if gen == "TRUE" else "INVARIANT AtMostOne Tail3 Sane TargetFirst\nPROPERTY Ends\n"))
    rep.model("CliMC", cfg("FALSE", 3), workers=8, what="all command lines <= 3 words over all small registries", timeout=1500)
    cs = rep.model("CliMC", cfg("TRUE", 3), workers=8, what="generation of command lines").out
    rng.shuffle(cs)
    def prefer(c):        # those that get as far as an action are fewer
        return c["argv"][:1] and c["argv"][0] in ("a", "b", "go") or not c["argv"]
    cs.sort(key=lambda c: not prefer(c) if rng.random() < .6 else rng.random() < .5)
    k = 8000 if q else len(cs)
    jobs = cli_jobs(rng, cs[:k]) + cli_jobs(rng, rng.sample(cs, 160 if q else 1500), real=True)
    jobs, res = rep.drive(cli_drv.one, jobs, "command lines")
    traces = [{"c": r["c"], "ev": r["ev"]} for r in res]
    rep.events += sum(len(x["ev"]) for x in traces)
    rep.info["command_lines"] = rep.info.get("command_lines", 0) + len(traces)
    rep.info["actions_performed"] = sum(e["e"] == "Call" for x in traces for e in x["ev"])
    rep.sample({"what": "command line", "trace": traces[3]})
    settle(rep, jobs, traces, rep.judge("CliTrace", traces, what="command lines"), cli_drv.one, "CliTrace", "cli")


def commands(rep):
    """C11."""
    env.load()
    rng = random.Random(rep.seed * 31337 + 11)
    q = rep.quick
    cfg = lambda rd, ln, am: "SPECIFICATION Spec\nCONSTANTS CAP=2 LEN=%d AMOUNT=%d READER=\"%s\"\nINVARIANT Complete Right\nPROPERTY Ends\n" % (ln, am, rd)
    rep.model("CommandMC", cfg("both", 3 if q else 4, 3), workers=8, what="pipes of capacity 2, all programs", timeout=1500)
    rep.model("CommandMC", cfg("afterwards", 2, 3), workers=8, expect=["Ends"], what="reading afterwards hangs")
    rep.model("CommandMC", cfg("inorder", 2, 3), workers=8, expect=["Ends"], what="reading one stream first hangs")
    jobs = []
    def add(cmds, **kw):
        j = dict(c={"cmds": cmds}, seed=rng.randrange(1 << 30), api=rng.choice(["module", "make", "upd"]), sub=rng.random() < .3,
                 workers=rng.choice([1, 2, 4]), shell=False, cli=rng.random() < .3,
                 flags=[k for k in ("quite", "debug", "trace") if rng.random() < .2])
        j.update(kw)
        jobs.append(j)
    cmd = lambda w=(), status=0, sig=0: dict(w=list(w), status=status, sig=sig)
    W = lambda s, n, p=True: dict(s=s, n=n, p=p)
    for st in range(256):
        add([cmd(status=st)], shell=True)
    for sg in (1, 2, 3, 6, 8, 9, 10, 11, 13, 14, 15):
        for sh in (True, False):
            add([cmd([W(1, 3)], sig=sg)], shell=sh)
    sizes = [0, 1, 100, 4096, 65535, 65536, 65537, 70000, 200000] + ([] if q else [1000000])
    for _ in range(500 if q else 6000):
        n = rng.choice([1, 1, 1, 2, 3])
        cmds = []
        for _ in range(n):
            w = [W(rng.choice([1, 2]), rng.choice(sizes), rng.random() < .85) for _ in range(rng.randint(0, 4))]
            r = rng.random()
            cmds.append(cmd(w, status=0 if r < .6 else rng.choice([1, 2, 127, 255, rng.randint(1, 255)]) if r < .9 else 0,
                            sig=0 if r < .9 else rng.choice([9, 15, 11, 6])))
        add(cmds)
    jobs, res = rep.drive(cmd_drv.one, jobs, "commands")
    traces = [{"c": r["c"], "ev": r["ev"]} for r in res]
    rep.events += sum(len(x["ev"]) for x in traces)
    rep.info["commands_run"] = sum(e["e"] == "Began" for x in traces for e in x["ev"])
    rep.sample({"what": "commands", "trace": traces[-1]})
    settle(rep, jobs, traces, rep.judge("CommandTrace", traces, what="commands"), cmd_drv.one, "CommandTrace", "command", patience=80)
    rep.info["bounds"] = "model: pipes of 2 units, all programs of <= %d writes; real: all 256 statuses, 11 signals, random outputs to %d bytes per write" % (3 if q else 4, sizes[-1])
