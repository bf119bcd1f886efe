"""C19-C21: scripts, the library registry, installation."""
import json, random
import env, pool, script_drv, reg_drv, inst_drv
from front_checks import settle


# --------------------------------------------------------------------------- C19
def st(k, p=(), lib="", given=False, pat="", hide="", abs=False):
    return dict(k=k, p=dict(p=list(p), abs=abs), lib=lib, given=given, pat=pat, hide=hide)


def norm(q):
    r = []
    for x in q:
        if x == ".." and r and r[-1] != "..":
            r.pop()
        elif x != ".":
            r.append(x)
    return r


def too_long(c, limit=60):
    """Does the execution recurse for ever?  (Only to choose examples.)"""
    at = {tuple(f["dir"] + [f["name"]]): k for k, f in enumerate(c["files"])}
    reg = {**{r["lib"]: r["path"] for r in c["system"]}, **{r["lib"]: r["path"] for r in c["user"]}}

    def go(f, depth):
        n[0] += 1
        if n[0] > limit or depth > 15:
            raise OverflowError
        for s in c["files"][f]["st"]:
            q = norm(([] if s["p"]["abs"] else c["files"][f]["dir"]) + s["p"]["p"])
            if s["k"] == "exec" and tuple(q) in at:
                go(at[tuple(q)], depth + 1)
            elif s["k"] == "incl" and s["lib"] not in inc:
                q = q if s["given"] else reg.get(s["lib"])
                inc.add(s["lib"])
                if q is not None and tuple(q) in at:
                    go(at[tuple(q)], depth + 1)
            elif s["k"] == "rec":
                for k, g in sorted(enumerate(c["files"]), key=lambda _: rng.random()):
                    if g["dir"][:len(q)] == q and s["pat"] in g["name"] and not (s["hide"] and s["hide"] in g["dir"]):
                        go(k, depth + 1)
    rng = random.Random(0)
    try:
        for _ in range(3):
            inc, n = set(), [0]
            go(0, 1)
    except OverflowError:
        return True
    return False


def rand_scripts(rng):
    while True:
        tree = [[], ["a"], ["a", "b"], ["lib"], ["lib", "sub"], ["a", "hid-den"], ["x-y", "z"], ["a", "b", "c"]]
        n = rng.randint(2, 8)
        files = [dict(dir=rng.choice([[], [], ["a"], ["lib"]]), name="root.py", st=[])]
        while len(files) < n:
            f = dict(dir=rng.choice(tree), name=rng.choice(["s", "t", "u"]) + rng.choice([".g.py", ".py", ".x", ".g.py"]), st=[])
            if all((g["dir"], g["name"]) != (f["dir"], f["name"]) for g in files):
                files.append(f)
        libs = ["L", "M", "N"]
        def reg():
            return [dict(lib=l, path=f["dir"] + [f["name"]] if rng.random() < .95 else ["no", "such"])
                    for l in libs if rng.random() < .5 for f in [rng.choice(files[1:])]]
        def rel(a, b):
            up = 0
            while a[:len(a) - up] != b[:len(a) - up]:
                up += 1
            q = [".."] * up + b[len(a) - up:]
            if rng.random() < .1: q = ["."] + q
            return q
        bad = rng.choice([0, 0, .05])
        # what is hidden is matched against the path as it was spelled: no way leads out of a hidden directory
        hiding = rng.random() < .5
        for k, f in enumerate(files):
            f["st"].append(st("at"))
            for _ in range(rng.choice([0, 1, 1, 2, 3] if k else [1, 2, 3, 4])):
                r = rng.random()
                later = files[k + 1:] or files[1:]
                g = rng.choice(later if rng.random() < .9 else files[1:])
                ab = rng.random() < .1
                p = g["dir"] + [g["name"]] if ab else rel(f["dir"], g["dir"]) + [g["name"]]
                if hiding and "hid-den" in f["dir"]:
                    f["st"].append(st("incl", lib=rng.choice(libs)))
                elif rng.random() < bad:
                    f["st"].append(st("raise") if rng.random() < .3 else st("exec", ["nowhere.py"]) if rng.random() < .5 else st("incl", lib="unknown"))
                elif r < .35:
                    f["st"].append(st("exec", p, abs=ab))
                elif r < .6:
                    f["st"].append(st("incl", lib=rng.choice(libs)))
                elif r < .75:
                    f["st"].append(st("incl", p, lib=rng.choice(libs), given=True, abs=ab))
                else:
                    q = g["dir"][:rng.randint(0, len(g["dir"]))] if not ab else g["dir"]
                    f["st"].append(st("rec", (q if ab else rel(f["dir"], q)) or ["."], pat=rng.choice([".g.py", ".x", "s.", "t.g", "nothing"]),
                                      
                                      hide="" if not hiding or "hid-den" in q else rng.choice(["", "", "hid-den"]), abs=ab))
                f["st"].append(st("at"))
        pats = [".g.py", ".x", "s.", "t.g", "nothing"]
        c = dict(files=files, user=reg(), system=reg(), match=[[p, x] for p in pats for x in sorted({f["name"] for f in files}) if p in x])
        if not too_long(c):
            return c


def scripts(rep):
    env.load()
    rng = random.Random(rep.seed * 6007 + 19)
    q = rep.quick
    cfg = "SPECIFICATION Spec\nCONSTANTS MAXST=%d\nINVARIANT LibOnce Nested Whole Precedence Unknown\nPROPERTY Ends\n"
    rep.model("ScriptsMC", cfg % 2, workers=8, what="all small trees of 4 scripts with 2 statements in the root", timeout=3000)
    jobs = [dict(c=rand_scripts(rng), style=rng.randrange(1 << 30), decl=rng.random() < .3) for _ in range(5000 if q else 60000)]
    jobs, res = rep.drive(script_drv.one, jobs, "script trees", timeout=120, budget=260 if q else 6000)
    traces = [{"c": r["c"], "ev": r["ev"]} for r in res]
    rep.events += sum(len(t["ev"]) for t in traces)
    rep.info["script_runs"] = sum(e["e"] == "Start" for t in traces for e in t["ev"])
    rep.info["refused"] = sum(not t["ev"][-1]["ok"] for t in traces)
    rep.sample({"what": "scripts", "trace": traces[0]})
    settle(rep, jobs, traces, rep.judge("ScriptsTrace", traces, what="script trees"), script_drv.one, "ScriptsTrace", "scripts", patience=150)
    rep.info["bounds"] = "model: all trees of 4 scripts over menus of statements, 3 x 2 registries; real: random trees of up to 8 scripts in 8 directories, 2 registries, run from several working directories"


# --------------------------------------------------------------------------- C20
LIBS = {"x.g.py": "x", "y.g.py": "y", "long name.g.py": "long name", "x.1.g.py": "x", "é.g.py": "é", ".hid.g.py": None, "z.py": None, "q.g.pyc": None}


def rand_registry(rng):
    dirs = [["a"], ["a", "b"], ["c d"], []]
    names = ["x", "y", "z", "é", 'q"t', "back\\slash", "a.b"]
    p = lambda: rng.choice(dirs) + [rng.choice(list(LIBS))]
    ops = [{"e": "Make", "p": ["a", "b", "f"]}, {"e": "Make", "p": ["c d", "f"]}]
    ops += [{"e": "Make", "p": p()} for _ in range(rng.randint(2, 8))]
    faults = rng.choice([0, .3, .6])
    made = lambda: rng.choice([o["p"] for o in ops if o["e"] == "Make"])
    for _ in range(rng.randint(4, 10)):
        r = rng.random()
        if r < .08:
            ops.append({"e": "Make", "p": p()})
        elif r < .15:
            ops.append({"e": "Drop", "p": p()})
        elif r < .18:
            ok = rng.random() < .5
            ops.append({"e": "Set", "u": rng.choice(["user", "system"]), "r": {"ok": ok, "m": sorted([n, p()] for n in rng.sample(names, 2)) if ok else []}})
        else:
            k = rng.choice(["add"] * 5 + ["dir", "dir", "remove", "remove", "list", "merged", "bad"])
            cwd = rng.choice(dirs)
            q = made() if rng.random() < .85 else p()
            if k == "dir":
                q = rng.choice(dirs) if rng.random() < .9 else ["nowhere"]
            ab = rng.random() < .3
            n = rng.choice(names)
            if k == "remove" and rng.random() < .6:
                n = rng.choice([x["o"]["name"] for x in ops if x["e"] == "Op" and x["o"]["k"] == "add"] or names)
            o = dict(k=k, name=n, p=dict(abs=ab, p=q if ab else rel(rng, cwd, q)), cwd=cwd)
            if k == "bad":
                o["opts"], o["args"] = rng.choice([([], ["x", "a", "b"]), (["-r"], ["x", "y"]), (["-r"], []), ([], []), (["--nothing"], ["x", "a"]), (["-r"], ["x", "a", "b"])])
            ops.append({"e": "Op", "u": rng.choice(["user", "user", "system"]), "o": o, "seed": rng.randrange(1 << 30),
                        "fault": rng.choice(["kill", "kill", "full", "fullkill"]) if k not in ("list", "merged") and rng.random() < faults else "none"})
    return dict(lib={a: b for a, b in LIBS.items() if b}, ops=ops)


def rel(rng, a, b):
    up = 0
    while a[:len(a) - up] != b[:len(a) - up]:
        up += 1
    if up < len(a) and rng.random() < .2:
        up += 1
    q = [".."] * up + b[len(a) - up:]
    return ["."] + q if rng.random() < .1 else q


def registry(rep):
    env.load()
    rng = random.Random(rep.seed * 7001 + 20)
    q = rep.quick
    cfg = "SPECIFICATION Spec\nCONSTANTS ATOMIC=%s MAXOPS=%d\nINVARIANT Whole OldOrNew Map Other Precise\nPROPERTY OneAtATime\n"
    rep.model("RegistryMC", cfg % ("TRUE", 4 if q else 6), workers=8, what="all histories of updates, killed at any step")
    rep.model("RegistryMC", cfg % ("FALSE", 2), workers=8, expect="violated", what="an update in place must fail")
    jobs = [rand_registry(rng) for _ in range(1000 if q else 16000)]
    jobs, res = rep.drive(reg_drv.one, jobs, "registry histories", timeout=200, budget=300 if q else 6000)
    traces = [{"lib": r["lib"], "ev": r["ev"]} for r in res]
    ops = [e for t in traces for e in t["ev"] if e["e"] == "Op"]
    rep.events += len(ops)
    rep.info["operations"] = len(ops)
    rep.info["faults"] = {f: sum(e["fault"] == f for e in ops) for f in ("kill", "full", "fullkill")}
    rep.info["killed_or_failed"] = sum(e["fault"] != "none" and e["exit"] != 0 for e in ops)
    rep.sample({"what": "registry", "trace": traces[0]})
    settle(rep, jobs, traces, rep.judge("RegistryTrace", traces, what="registry histories"), reg_drv.one, "RegistryTrace", "registry", patience=150)
    rep.info["bounds"] = "model: all histories of 4 (6) operations on 2 names, 2 registries, death at every step; real: random histories of up to 10 operations, killed at random Python lines or stopped at random file sizes"


# --------------------------------------------------------------------------- C21
PATS = {"*.h": lambda n: n.endswith(".h"), "*.hxx": lambda n: n.endswith(".hxx"), "*.hpp": lambda n: n.endswith(".hpp"),
        "a*.h": lambda n: n[0] == "a" and n.endswith(".h"), "a.h": lambda n: n == "a.h", "?.h*": lambda n: n[1:3] == ".h",
        "*": lambda n: True, "[ab].h": lambda n: n in ("a.h", "b.h")}


def rand_install(rng):
    tops = [["h"], ["inc", "deep"], ["inc"]]
    subs = [[], [], ["d"], ["d", "e"], ["x.h"], [".priv"], ["d", "..e"]]
    names = ["a.h", "b.h", "ab.h", "c.hxx", "d.hpp", "e.c", ".f.h", "g", "a.h.in"]
    if rng.random() < .5:
        subs += [["sp ace"], ["d", "pa(r)"]]
        names += ["a b.h", "$HOME.h", "q'u.hpp", "a{k}.h", "a;b.hxx", "`w`.h", "u&.h", 'z".h', "\\t.h", "~.h", "%s.h", "#h.h"]
    tree = sorted({tuple(rng.choice(tops) + rng.choice(subs) + [rng.choice(names)]) for _ in range(rng.randint(3, 10))})
    tree = [list(x) for x in tree]
    others = [["l.c"], ["build", "m.c"], ["app"], ["n.so"]]
    built = [dict(tgt=["l.so"], src=["l.c"]), dict(tgt=["out", "m.so"], src=["build", "m.c"])]
    libs = [["l.so"], ["out", "m.so"], ["n.so"]]
    sets, roots = [], [["r"], ["r2", "s"], ["q"], ["r", "in"], ["r 3", "$q"]]
    rng.shuffle(roots)
    for k in range(rng.randint(1, 3)):
        kind = rng.choice(["library", "library", "headers", "application", "shared"])
        s = dict(kind=kind, dir=[], root=[], pats=[], libs=[], src=[], own=False)
        if kind in ("library", "headers"):
            s["dir"] = rng.choice(tops + [["h", "d"]])
            s["root"] = roots.pop()
            s["pats"] = (["*.h", "*.hxx", "*.hpp"] if kind == "library" else ["*.h", "*.hxx"]) if rng.random() < .5 else rng.sample(list(PATS), rng.randint(1, 3))
            s["libs"] = rng.sample(libs, rng.choice([0, 1, 1, 2])) if kind == "library" or rng.random() < .3 else []
        elif kind == "application":
            s["src"], s["root"], s["own"] = rng.choice([["app"], ["n.so"], ["l.so"]]), rng.choice([["app"], ["tool%d" % k], ["sub", "tool"]]), rng.random() < .5
        else:
            s["src"] = rng.choice(libs)
            s["root"] = rng.choice([s["src"][-1:], ["lib%d.so" % k]])
        sets.append(s)
    # no file is put in one place by two sets
    seen = set()
    for s in list(sets):
        at = {("l", x[-1]) for x in s["libs"]} if s["kind"] == "library" else {("l", s["root"][-1])} if s["kind"] == "shared" else {("b", tuple(s["root"]))} if s["kind"] == "application" else set()
        if at & seen:
            sets.remove(s)
        seen |= at
    steps = [dict(e="Write", p=q, c="%s0" % q[-1]) for q in tree + others]
    uns = [k for k, s in enumerate(sets) if s["kind"] == "library"]

    def reqs():
        for _ in range(rng.choice([1, 1, 2, 3])):
            yield ["uninstall", rng.choice(uns)] if uns and rng.random() < .25 else ["install", rng.randrange(len(sets))]
    for i in range(rng.randint(3, 8)):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < .5:
                q = rng.choice(tree + others)
                steps.append(dict(e="Write", p=q, c="%s%d" % (q[-1], rng.randrange(3))))
            elif r < .6:
                steps.append(dict(e="Write", p=rng.choice(tops) + rng.choice(subs) + [rng.choice(names)], c="new%d" % i))
            elif r < .7:
                steps.append(dict(e="Drop", p=rng.choice(tree)))
            else:
                steps.append(dict(e="Hand", how=rng.choice(["own", "own", "drop", "write", "nodir"]), seed=rng.randrange(1 << 30)))
        steps.append(dict(e="Session", reqs=list(reqs()), how=rng.choice(["cli", "api", "api"]), seed=rng.randrange(1 << 30)))
    every = sorted({q[-1] for q in tree} | set(names))
    return dict(c=dict(sets=sets, built=built, match=[[p, n] for p in PATS for n in every if PATS[p](n)]), steps=steps,
                prefix=rng.choice(["abs", "abs", "slash", "link", "rel", "there"]), style=rng.randrange(1 << 30))


def install(rep):
    env.load()
    rng = random.Random(rep.seed * 9001 + 21)
    q = rep.quick
    cfg = "SPECIFICATION Spec\nCONSTANTS MAXOPS=%d NEWER=%s\nINVARIANT Mirror Nothing Only Every Removed\n"
    rep.model("InstallMC", cfg % (4 if q else 5, "TRUE"), workers=8, what="all histories of edits, installations, stops and removals")
    rep.model("InstallMC", cfg % (3, "FALSE"), workers=8, expect="violated", what="copying only what is missing must fail")
    jobs = [rand_install(rng) for _ in range(1500 if q else 20000)]
    jobs, res = rep.drive(inst_drv.one, jobs, "installation histories", timeout=200, budget=300 if q else 6000)
    traces = [{"c": r["c"], "ev": r["ev"]} for r in res]
    ev = [e for t in traces for e in t["ev"]]
    rep.events += len(ev)
    rep.info["requests"] = {k: sum(e.get("k") == k for e in ev) for k in ("install", "uninstall")}
    rep.info["files_written"] = sum(len(e.get("touched", ())) for e in ev)
    rep.sample({"what": "installation", "trace": traces[0]})
    settle(rep, jobs, traces, rep.judge("InstallTrace", traces, what="installation histories"), inst_drv.one, "InstallTrace", "installations", patience=150)
    rep.info["bounds"] = "model: all histories of 4 (5) operations on two sets of 2 headers and a built library; real: random histories of up to 8 sessions on up to 3 sets and 10 headers, 5 ways to name the prefix"
