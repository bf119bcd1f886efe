"""C06-C10, C23-C25 and parts of C02, C03, C14: projects of files over many requests and sessions."""
import json, os, random, time
import env, pool, build_drv, projects
from report import HarnessError

INV = "AsFromScratch RepeatDoesNothing NothingStale NotNeededMeansCurrent CleanComplete FilesHaveDirs".split()
PROPS = "SourcesOnlyByEdits DirsGrow OnlyClosure".split()


OPS = "Declare Edit Touch Delete RmDir Toggle Clean".split()


def cfg(gen=False, ops=5, fails=True, kills=True, ins=True, back=False, only=OPS):
    b = lambda x: "TRUE" if x else "FALSE"
    return ("SPECIFICATION Spec\nCONSTANTS GEN=%s MAXOPS=%d FAILS=%s KILLS=%s INSESSION=%s BACKDATE=%s OPS={%s}\n"
            % (b(gen), ops, b(fails), b(kills), b(ins), b(back), ",".join('"%s"' % x for x in only))
            + ("" if gen else "".join("INVARIANT %s\n" % x for x in INV) + "".join("PROPERTY %s\n" % x for x in PROPS)))


def model(rep):
    ps = projects.small()
    rep.model("BuildMC", cfg(ops=5 if rep.quick else 6), data={"PROJECTS": ps}, workers=8,
              what="%d small projects, all histories" % len(ps))
    if not rep.quick:
        rep.model("BuildMC", cfg(ops=6, back=True, kills=False), data={"PROJECTS": ps}, workers=8,
                  what="with equal times", timeout=3000)


def histories(rep, rng, count, nproj, ops, what, proj=None, **kw):
    """Behaviours of Build over random projects, from TLC's simulator: [(project, operations)]."""
    ps = [projects.rand(rng, **(proj or {})) for _ in range(nproj)]
    for i, p in enumerate(ps):
        p["id"] = i
    r = rep.model("BuildMC", cfg(gen=True, ops=ops, **kw), data={"PROJECTS": ps}, workers=8,
                  simulate=max(1, count // 8), depth=ops * 12 + 40, seed=rng.randrange(1 << 30), what="generation: " + what)
    return [(ps[b["p"]], b["h"]) for b in r.out]


def job(rng, p, h, **kw):
    order = list(range(1, p["n"] + 1))
    j = dict(p=p, h=h, api=rng.choice(["core", "make"]), req="invoke", build=["py"] * p["n"], weird=0, order=order,
             spell=None, flags=[], workers=rng.choice([1, 1, 2, 3, 5]), seed=rng.randrange(1 << 30),
             symsrc=rng.choice([0, 0, 1, 2, 3]), decoys=rng.random() < 0.5, killafter=rng.random() < 0.5, twin=None)
    j.update(kw)
    return j


def real_builders(rng, p, other=None):
    plain = lambda t: not p["deps"][t] and not p["glob"][t] and not p["late"][t]
    return [("cp" if p["copy"][t] and not p["force"][t] else "touch" if plain(t) and not p["force"][t] else other or rng.choice(["sh", "sh", "py"])) if p["kind"][t] == "gen" else "py" for t in range(p["n"])]


def one_request_sessions(h):
    """The command line serves one request per process."""
    out, seen = [], False
    for o in h:
        k = o["o"]
        if k in ("Build", "Clean") and seen:
            out += [{"o": "EndSession"}, {"o": "Session"}]
        if k in ("Build", "Clean"):
            seen = True
        if k in ("EndSession", "Kill", "Session"):
            seen = False
        if k in ("Edit", "Touch", "Delete", "RmDir", "Toggle") and seen:
            out += [{"o": "EndSession"}, o, {"o": "Session"}]
            seen = False
            continue
        if k == "Session" and out and insess(out):
            continue
        if k == "EndSession" and not insess(out):
            continue
        out.append(o)
    return out


def insess(out):
    for o in reversed(out):
        if o["o"] == "Session":
            return True
        if o["o"] in ("EndSession", "Kill"):
            return False
    return False


def replay(rep, jobs, what, wants=None):
    jobs, res = rep.drive(build_drv.run, jobs, what, timeout=600)
    traces = [{k: r[k] for k in ("p", "ev", "twin")} for r in res]
    rep.events += sum(len(x["ev"]) for x in traces)
    pre = rep.pid + "."
    bad = [(i, l, cl) for i, l, cl in rep.judge("BuildTrace", traces, what=what) if cl.startswith(pre)]
    if traces:
        rep.sample({"what": what, "trace": min(traces[:50], key=lambda x: abs(len(x["ev"]) - 25))})
    rep.info["requests"] = rep.info.get("requests", 0) + sum(e["e"] in ("Build", "Clean") for x in traces for e in x["ev"])
    rep.info["actions"] = rep.info.get("actions", 0) + sum(e["e"] == "Act" for x in traces for e in x["ev"])
    rep.info["kills"] = rep.info.get("kills", 0) + sum(e["e"] == "Killed" for x in traces for e in x["ev"])
    hung = sorted({i for i, l, cl in bad if cl.endswith(".hang")})[:6]
    sure = any(not cl.endswith(".hang") for _, _, cl in bad)
    again = {} if sure else dict(zip(hung, rep.confirm(
        build_drv.run, [dict(jobs[i], patience=150) for i in hung], "BuildTrace",
        lambda r: [{k: r[k] for k in ("p", "ev", "twin")}], times=1, timeout=1000) if hung else []))
    for i, l, cl in bad:
        if cl.endswith(".hang") and cl not in again.get(i, ()):
            continue
        rep.violation(cl, {"driver": "build", "event": l, "trace": traces[i], "job": jobs[i]})
    rep.checkpoint()


ASSUME = ["actions are deterministic, write their output only when they succeed, and do so as one indivisible step (kills fall between actions)",
          "an in-session change from outside is followed by update_info() of the file concerned"]


def histories_check(rep):
    """C06, C07, C08, C09, C25: one model, several families of histories."""
    env.load()
    rng = random.Random(rep.seed * 104729 + int(rep.pid[1:]))
    q = rep.quick
    pid = rep.pid
    k = 1 if q else 8
    model(rep)
    ins = dict(C06=0.5, C07=0.5, C08=0.4, C09=0.5, C25=1.0)[pid]
    dirs = pid in ("C08", "C09") or None
    def fam(count, ops, what, mk, proj=None, **kw):
        pr = dict(proj or {})
        if dirs is not None:
            pr.setdefault("dirs", dirs)
        hs = histories(rep, rng, count * k, max(60, count * k // 8), ops, what, proj=pr, **kw)
        replay(rep, [mk(p, h) for p, h in hs], what)
    fam(1600, 14, "sessions, failures, crashes", lambda p, h: job(rng, p, h), ins=rng.random() < ins or pid == "C25")
    if pid != "C25":
        fam(800, 14, "edits between sessions only", lambda p, h: job(rng, p, h), ins=False)
    else:
        fam(800, 16, "no crashes, one session mostly", lambda p, h: job(rng, p, h), kills=False)
        fam(600, 14, "declared during the session", lambda p, h: job(rng, p, h), proj=dict(late=True))
    if pid in ("C07", "C25"):
        fam(800, 12, "equal time stamps", lambda p, h: job(rng, p, h), back=True)
    if pid == "C08":
        fam(1200, 12, "names with special characters", lambda p, h: job(rng, p, h, weird=rng.randint(1, 40)), kills=False)
        fam(240, 12, "copies of names with special characters", lambda p, h: job(rng, p, h, weird=rng.randint(1, 40), build=real_builders(rng, p, "py")),
            proj=dict(copies=0.5, n=None, bare=.2), kills=False)
    if pid in ("C06", "C07", "C25"):
        fam(400, 9, "filesets of filesets", lambda p, h: job(rng, p, h), proj=dict(nest=True, force=False), kills=False, fails=False,
            only=["Edit", "Touch", "Delete"])
    fam(240, 12, "commands and copies", lambda p, h: job(rng, p, h, build=real_builders(rng, p)),
        proj=dict(copies=0.3, n=None, bare=.2), kills=False)
    fam(240, 10, "through the command line", lambda p, h: job(rng, p, one_request_sessions(h), req="cli", api=rng.choice(["core", "make"])),
        ins=False)
    rep.info["bounds"] = "model: all histories of %d operations over 11 small projects; real: random projects of 4-11 nodes, 10-16 operations" % (5 if q else 6)
    rep.assumptions += ASSUME


def shuffled(rng, p):
    o = list(range(1, p["n"] + 1))
    rng.shuffle(o)
    return o


def spelling(rep):
    """C10: the same history, declared in another order with other spellings."""
    env.load()
    rng = random.Random(rep.seed * 104729 + 10)
    q = rep.quick
    k = 1 if q else 8
    model(rep)
    def fam(count, ops, what, kw2=None, proj=None, **kw):
        hs = histories(rep, rng, count * k, max(60, count * k // 6), ops, what, proj=proj, **kw)
        jobs = []
        for p, h in hs:
            tw = {}
            m = rng.random()
            if m < 0.7:
                tw["spell"] = rng.randrange(1, 1 << 30)
            if m > 0.4:
                tw["order"] = shuffled(rng, p)
            if rng.random() < 0.3:
                tw["dup"] = True
                tw.setdefault("spell", rng.randrange(1, 1 << 30))
            if rng.random() < 0.5:
                tw["srcdecl"] = False
            j = job(rng, p, h, twin=tw, twinclause="C10.variant-differs", strict=True, **(kw2(p) if kw2 else {}))
            jobs.append(j)
        replay(rep, jobs, what)
    fam(1200, 12, "spellings and orders")
    fam(600, 12, "between sessions", ins=False)
    fam(200, 10, "commands and copies", kw2=lambda p: dict(build=real_builders(rng, p)), proj=dict(copies=0.3, bare=.2), kills=False)
    rep.assumptions += ASSUME


def options(rep):
    """C24: the same history with other options."""
    env.load()
    rng = random.Random(rep.seed * 104729 + 24)
    k = 1 if rep.quick else 8
    model(rep)
    def flags():
        f = [x for x in ("-q", "-d", "-t", "--printruntime") if rng.random() < 0.5]
        return f
    def fam(count, ops, what, kw2=None, proj=None, **kw):
        hs = histories(rep, rng, count * k, max(60, count * k // 6), ops, what, proj=proj, **kw)
        jobs = []
        for p, h in hs:
            extra = kw2(p) if kw2 else {}
            if extra.get("req") == "cli":
                h = one_request_sessions(h)
            tw = dict(flags=flags(), workers=rng.choice([0, 1, 2, 4, 9]))
            if extra.get("req") == "cli" and rng.random() < .2:
                tw["flags"] = tw["flags"] + ["-j" + str(tw["workers"])]
            jobs.append(job(rng, p, h, twin=tw, twinclause="C24.option-changes-behaviour", strict=True, **extra))
        replay(rep, jobs, what)
    fam(300, 10, "command line", kw2=lambda p: dict(req="cli"), ins=False, proj=dict(dirnodes=True))
    fam(240, 10, "command line, commands and copies", kw2=lambda p: dict(req="cli", build=real_builders(rng, p)),
        ins=False, kills=False, proj=dict(copies=.3, bare=.2))
    fam(600, 12, "in one process")
    rep.assumptions += ASSUME


def closures(rep):
    """C23: only the closure of the targets registered at the moment of the request."""
    env.load()
    rng = random.Random(rep.seed * 104729 + 23)
    k = 1 if rep.quick else 8
    model(rep)
    def fam(count, ops, what, kw2=None, proj=None, **kw):
        hs = histories(rep, rng, count * k, max(60, count * k // 6), ops, what, proj=proj, **kw)
        jobs = []
        for p, h in hs:
            extra = kw2(p) if kw2 else {}
            if extra.get("req") == "cli":
                h = one_request_sessions(h)
            jobs.append(job(rng, p, h, decoys=True, **extra))
        replay(rep, jobs, what)
    fam(1200, 14, "declarations during the session", proj=dict(late=True))
    fam(1200, 10, "declarations and builds", proj=dict(late=True), only=["Declare"], fails=False, kills=False)
    fam(800, 12, "declarations, edits and builds", proj=dict(late=True), only=["Declare", "Edit"], fails=False, kills=False)
    fam(800, 14, "unrelated targets")
    fam(200, 10, "command line", kw2=lambda p: dict(req="cli"), ins=False)
    rep.assumptions += ASSUME


def failing_commands(rep):
    """C02, C03, C14: builds of files with failing commands."""
    env.load()
    rng = random.Random(rep.seed * 104729 + 100 + int(rep.pid[1:]))
    k = 1 if rep.quick else 6
    for what, req, cnt in (("commands", "invoke", 240), ("commands, command line", "cli", 240)):
        hs = histories(rep, rng, cnt * k, 60, 8, what, proj=dict(copies=.2), kills=False, ins=False)
        jobs = []
        for p, h in hs:
            if req == "cli":
                h = one_request_sessions(h)
            jobs.append(job(rng, p, h, req=req, build=real_builders(rng, p)))
        replay(rep, jobs, what)
