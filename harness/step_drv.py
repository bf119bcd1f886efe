"""Histories of Steps.tla on applications with generated sources, built by a tool chain that records.

job: files [{path, kind, uses, unit, owner, v, bad}], units [{...}], steps, ops, style, final."""
import json, os, random, shutil, subprocess, time
import env, pool

PAUSE = .012
HERE = os.path.dirname(os.path.abspath(__file__))
TOOLS = ("gcc", "g++", "ar", "moc", "uic", "objcopy", "javac", "dx", "gen")


def tool():
    exe = os.path.join(env.scratch(), "faketool")
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-w", "-o", tmp, os.path.join(HERE, "faketool.c")], check=True)
        os.rename(tmp, exe)
    return exe


def pairs(text):
    return [[int(x) for x in p.split(":")] for p in text.split() if ":" in p]


def lines(path):
    try:
        with open(path, errors="replace") as h:
            return [pairs(x) for x in h.read().split("\n") if x.startswith("obj")]
    except (FileNotFoundError, NotADirectoryError):
        return []


def generated(path):
    """The files a generated source or header was made of."""
    try:
        with open(path, errors="replace") as h:
            t = h.read().split("\n")
    except FileNotFoundError:
        return []
    return [[p for x in t if x.startswith("file ") for p in pairs(x[5:])]] if t[0] in ("moc", "uic") else []


class Project:
    def __init__(self, job, d):
        self.job, self.d = job, d
        self.root = os.path.join(d, "q", "p")
        os.makedirs(self.root)
        os.chdir(self.root)
        for x in ("bin", "calls", "broken"):
            os.makedirs(os.path.join(d, x))
        for t in TOOLS:
            os.link(tool(), os.path.join(d, "bin", t))
        for t in job["slow"]:
            open(os.path.join(d, "broken", "slow-" + t), "w").close()
        self.at = {}        # step -> its output
        self.step = {}
        for k, s in enumerate(job["steps"]):
            self.step[(s["kind"], s["id"])] = k + 1
        for k, f in enumerate(job["files"]):
            self.write(k + 1, f)

    def path(self, f):
        return self.job["files"][f - 1]["path"]

    def write(self, f, s):
        p = self.path(f)
        if not s["v"] or s.get("gone"):
            if os.path.exists(p):
                os.unlink(p)
            return
        if os.path.dirname(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        t = "file %d:%d\n" % (f, s["v"])
        for u in self.job["files"][f - 1]["uses"]:
            q = self.job["files"][u - 1]["path"]
            t += "inc %s\n" % os.path.join(os.path.dirname(q), "ui_" + os.path.splitext(os.path.basename(q))[0] + ".h")
        if s["bad"]:
            t += "bad\n"
        with open(p, "w") as h:
            h.write(t)

    def declare(self, licant):
        import licant.java_make as jm, licant.cxx_make as cm
        job = self.job
        rng = random.Random(job["style"])
        b = os.path.join(self.d, "bin") + "/"
        if rng.random() < .5:
            tc = cm.toolchain(b + "g++", b + "gcc", b + "ld", b + "ar", b + "objdump", moc=b + "moc", uic=b + "uic", objcopy=b + "objcopy")
        else:
            tc = licant.gcc_toolchain(b)
            tc.moc, tc.uic = b + "moc", b + "uic"
        licant.import_attribute("tc", tc)
        bydir = {}
        app = None
        for u in job["units"]:
            kw = {}
            base = os.path.join(u["dir"], u["srcdir"])
            if u["srcdir"]:
                kw["srcdir"] = u["srcdir"]
            for kind, name in (("src", "sources"), ("moc", "qt_moc"), ("ui", "qt_ui")):
                fs = [f for f in job["files"] if f["owner"] == u["name"] and f["kind"] == kind]
                ps = [os.path.abspath(f["path"]) if f["abs"] else os.path.relpath(f["path"], base or ".") for f in fs]
                if u["glob"].get(kind) and all(not f["abs"] for f in fs):
                    all_ = rng.random() < .5
                    pats = {q: all_ or rng.random() < .5 for q in sorted({os.path.join(os.path.dirname(p), "*" + os.path.splitext(p)[1]) for p in ps})}
                    ps = sorted({q if pats[q] else p for p in ps for q in [os.path.join(os.path.dirname(p), "*" + os.path.splitext(p)[1])]})
                    rng.shuffle(ps)
                if ps:
                    kw[name] = ps
            for a, nm in (("incl", "include_modules"), ("mdep", "mdepends")):
                if u[a]:
                    kw[nm] = u[a]
            gens = [s for s in job["steps"] if s["kind"] == "gen" and s["owner"] == u["name"]]
            if gens:
                kw["depends"] = ["gen/g%d.txt" % s["id"] for s in gens]
            if u["flags"]:
                kw["cxx_flags"] = u["flags"]
            if u["defines"]:
                kw["defines"] = u["defines"]
            if u["inc"]:
                kw["include_paths"] = u["inc"]
            txt = ["%s=%r" % i for i in kw.items()]
            if u["subs"]:
                txt.append("modules=[%s]" % ", ".join("licant.submodule(%r)" % s for s in u["subs"]))
            if u["kind"] == "app":
                if job["builddir"]:
                    txt.append("builddir=%r" % job["builddir"])
                txt.append("toolchain=licant.attribute('tc')")
                app = (u, ", ".join(txt))
            else:
                bydir.setdefault(u["dir"], []).append("licant.module(%r, %s)" % (u["name"], ", ".join(txt)))
        for dd, ls in bydir.items():
            f = os.path.join(dd, "mods.g.py")
            self.script(f, ls)
            licant.execute(f)
        u, kw = app
        fin = job["final"]
        if fin == "both":
            ls = ["licant.cxx_static_and_shared('all', 'libz.a', 'libz.so', %s)" % kw]
            outs = {"ar": "libz.a", "dynlib": "libz.so"}
        elif fin == "application":
            ls = ["licant.cxx_application('binx', %s%s)" % ("target='out/binx', " if job["out"] else "", kw)]
            outs = {"link": "out/binx" if job["out"] else "binx"}
        elif fin == "static":
            ls = [rng.choice(["licant.cxx_static_library('libz.a', %s)", "licant.cxx_library('libz.a', shared=False, %s)"]) % kw]
            outs = {"ar": "libz.a"}
        else:
            ls = [rng.choice(["licant.cxx_shared_library('libz.so', %s)", "licant.cxx_library('libz.so', %s)"]) % kw]
            outs = {"dynlib": "libz.so"}
        outs = {k: os.path.normpath(os.path.join(self.root, v)) for k, v in outs.items()}
        top = os.path.join(u["dir"], "app.g.py")
        self.script(top, ls)
        target, opts = {}, {}
        last = rng.random() < .5        # what is made of the application is declared before it
        if not last:
            licant.execute(top)
        for k, s in enumerate(job["steps"]):
            if s["unit"] <= -20:
                o = opts.setdefault(s["unit"], None) or cm.options(toolchain=tc, **{x: v for x, v in (
                    ("cxx_flags", "-fx"), ("cc_flags", "-fc"), ("include_paths", ["inc", "i/j"]), ("defines", ["H"]), ("ld_flags", "-Lq"), ("optimize", "-O2")) if rng.random() < .5})
                opts[s["unit"]] = o
                if s["kind"] == "cc":
                    src = self.path(s["id"])
                    out = "hob/%s.o" % src
                    licant.source(src)
                    kw = {"deps": [src] + [os.path.relpath(self.at[x]) for x in s["over"]]} if s["over"] or rng.random() < .3 else {}
                    cm.object(src, out, opts=o, **kw, **({"type": s["type"]} if s["type"] else {}))
                else:
                    out = "hout/%d.%s" % (s["id"], s["kind"])
                    make = {"link": cm.executable, "ar": cm.static_library, "dynlib": cm.dynamic_library}[s["kind"]]
                    make(out, [os.path.relpath(self.at[x]) for x in s["from"]], opts=o)
                self.at[k + 1] = os.path.abspath(out)
                target[k + 1] = out
            elif s["kind"] in outs:
                self.at[k + 1] = outs[s["kind"]]
                target[k + 1] = os.path.relpath(outs[s["kind"]])
            elif s["kind"] == "copy":
                src = os.path.relpath(self.at[s["from"][0]])
                out = "img/c%d.%s" % (k, s["fmt"])
                licant.objcopy(tc, tgt=out, src=src, format=s["fmt"], sections=s["sections"])
                self.at[k + 1] = os.path.abspath(out)
                target[k + 1] = out
            elif s["kind"] == "javac":
                srcs = [self.path(i) for i in s["ins"]]
                out = os.path.splitext(srcs[0])[0] + ".class"
                o = jm.java_options(toolchain=jm.android_toolchain(b + "javac", b + "dx"), javac_flags=s["jflags"])
                jm.javac(srcs, out, opts=o, **({'deps': [os.path.relpath(self.at[x]) for x in s['over']]} if s['over'] or rng.random() < .5 else {}))
                self.at[k + 1] = os.path.abspath(out)
                target[k + 1] = out
            elif s["kind"] == "dex":
                src = os.path.relpath(self.at[s["from"][0]])
                out = "img/d%d.dex" % k
                jm.dex(src, out, opts=jm.java_options(toolchain=jm.android_toolchain(b + "javac", b + "dx")), deps=[src])
                self.at[k + 1] = os.path.abspath(out)
                target[k + 1] = out
            elif s["kind"] == "gen":
                out = "gen/g%d.txt" % s["id"]
                licant.source(self.path(s["id"]))
                licant.makefile(tgt=out, deps=[self.path(s["id"])], do="%sgen %s %s" % (b, self.path(s["id"]), out))
                self.at[k + 1] = os.path.abspath(out)
                target[k + 1] = out
        if last:
            licant.execute(top)
        return target

    def script(self, f, ls):
        if os.path.dirname(f):
            os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as h:
            h.write("import licant\n" + "\n".join(ls) + "\n")

    def build(self, op):
        import licant, licant.cli

        def run():
            target = self.declare(licant)
            json.dump(self.at, open(os.path.join(self.d, "at"), "w"))
            if len(op["req"]) == 1:
                req = target[op["req"][0]]
            elif self.job["final"] == "both" and len(op["req"]) == 2 and op.get("name"):
                req = "all"
            else:
                req = "everything"
                licant.fileset("everything", [target[s] for s in op["req"]])
            try:
                licant.ex(req, argv=[req, "-j%d" % op["j"]])
            except SystemExit as x:
                return {"ok": x.code in (0, None)}
            return {"ok": True}
        bro = [x for t in op["broken"] for x in (("gcc", "g++") if t == "cc" else (t,))]
        for t in bro:
            open(os.path.join(self.d, "broken", t), "w").close()
        r = pool.forked(run, timeout=self.job.get("patience", 40), quiet=True)
        for t in bro:
            os.unlink(os.path.join(self.d, "broken", t))
        if "_timeout" in r:
            return {"e": "Hang"}
        if os.path.exists(os.path.join(self.d, "at")):
            self.at.update({int(k): v for k, v in json.load(open(os.path.join(self.d, "at"))).items()})
        kinds = {"cc": ["cc", "mocc", "link", "dynlib"], "moc": ["moc"], "uic": ["uic"], "ar": ["ar"], "objcopy": ["copy"], "javac": ["javac"], "dx": ["dex"], "gen": ["gen"]}
        n = len(self.job["steps"])
        e = dict(e="Build", req=op["req"], broken=[x for t in op["broken"] for x in kinds[t]],
                 ok=bool(r.get("ok")), tried=[], done=[], opts=[""] * n, stray=[])
        if "ok" not in r:
            e["raised"] = str(r)[:800]
        for name in sorted(os.listdir(os.path.join(self.d, "calls"))):
            with open(os.path.join(self.d, "calls", name)) as h:
                ln = h.read().split("\n")
            os.unlink(os.path.join(self.d, "calls", name))
            t = ln[0][5:]
            args = [x[4:] for x in ln if x.startswith("arg ")]
            rc = [int(x[3:]) for x in ln if x.startswith("rc ")]
            ident = next((x[3:] for x in ln if x.startswith("id ")), "")
            first = pairs(ident)[:1]
            k = None
            if "-MM" in args:
                continue
            if t in ("gcc", "g++") and "-c" in args:
                kind = "mocc" if ident.startswith("m ") else "cc"
                src = os.path.abspath(args[args.index("-c") + 1])
                if not first and not os.path.exists(src):
                    first = [[i + 1] for i, x in enumerate(self.job["files"]) if x["kind"] == "hand" and os.path.abspath(x["path"]) == src]
                k = self.step.get((kind, first[0][0])) if first else None
                if not first and os.path.exists(args[args.index("-c") + 1]) and not os.path.getsize(args[args.index("-c") + 1]):
                    continue        # an empty source: a failure
                if k:
                    self.at[k] = os.path.abspath(args[args.index("-o") + 1])
                    src = args[args.index("-c") + 1]
                    e["opts"][k - 1] = t + " " + " ".join(sorted(a for a in args if a not in ("-c", "-o", src, args[args.index("-o") + 1])))
            elif t in ("moc", "uic"):
                if not first:       # its input is not there
                    f = [i + 1 for i, x in enumerate(self.job["files"]) if os.path.abspath(x["path"]) in [os.path.abspath(a) for a in args]]
                    first = [f]
                k = self.step.get((t, first[0][0])) if first and first[0] else None
            elif t == "javac":
                kk = [i + 1 for i, s in enumerate(self.job["steps"]) if s["kind"] == "javac" and
                      [os.path.abspath(self.path(x)) for x in s["ins"]] == [os.path.abspath(a) for a in args if not a.startswith("-")] and
                      [a for a in args if a.startswith("-")] == s["jflags"].split()]
                k = kk[0] if kk else None
            else:
                if t == "ar":
                    out, kind = args[1], "ar"
                    if args[0] != "rcs": out = "odd"
                elif t == "objcopy":
                    out, kind = args[-1], "copy"
                elif t == "gen":
                    out, kind = args[-1], "gen"
                elif t == "dx":
                    out, kind = args[args.index("--output") + 1], "dex"
                else:
                    out, kind = args[args.index("-o") + 1], "dynlib" if "--shared" in args else "link"
                kk = [s for s, p in self.at.items() if p == os.path.abspath(out) and self.job["steps"][s - 1]["kind"] == kind]
                k = kk[0] if kk else None
                if k and kind == "copy":
                    s = self.job["steps"][k - 1]
                    want = ["-O", s["fmt"]] + [x for y in s["sections"] for x in ("-j", y)] + [self.at[s["from"][0]], self.at[k]]
                    have = args[:-2] + [os.path.abspath(a) for a in args[-2:]]
                    if want != have:
                        k = None
            if not k:
                e["stray"].append(" ".join([t] + args)[:300])
                continue
            e["tried"].append(k)
            if rc == [0]:
                e["done"].append(k)
        e["tried"].sort(); e["done"].sort()
        made = {}
        for b, _, fs in os.walk(self.d):
            for f in fs:
                g = generated(os.path.join(b, f)) if f.endswith((".h", ".cxx")) else []
                if g and g[0]:
                    made.setdefault(g[0][0][0], []).append(g[0])
        e["out"] = []
        for k in range(1, n + 1):
            s = self.job["steps"][k - 1]
            if s["kind"] in ("moc", "uic"):
                e["out"].append(made.get(s["id"], []))
            else:
                e["out"].append(lines(self.at[k]) if k in self.at else [])
        return e


def body(job, d):
    P = Project(job, d)
    cur = [dict(v=f["v"], bad=f["bad"]) for f in job["files"]]
    ev = []
    time.sleep(PAUSE)
    for op in job["ops"]:
        k = op["op"]
        if k == "build":
            e = P.build(op)
            ev.append(e)
            if e["e"] == "Hang":
                break
        elif k in ("edit", "delete"):
            f = op["f"]
            s = cur[f - 1]
            s["top"] = s.get("top", s["v"]) + 1
            s.update(v=s["top"] if k == "edit" else 0, bad=bool(op.get("bad")) and k == "edit")
            P.write(f, s)
            ev.append(dict(e="Set", f=f, v=s["v"], bad=s["bad"]))
        elif k == "lose":
            s = op["s"]
            p = P.at.get(s)
            if p and os.path.exists(p):
                os.unlink(p)
                ev.append(dict(e="Lost", s=s))
        time.sleep(PAUSE)
    return {"ev": ev}


def one(job):
    d = os.path.join(env.scratch(), "t%d_%d" % (os.getpid(), random.randrange(1 << 40)))
    os.makedirs(d)
    try:
        r = pool.forked(lambda: body(job, d), timeout=200, quiet=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if "ev" not in r:
        return r
    return {"files": [dict(v=f["v"], bad=f["bad"]) for f in job["files"]], "steps": job["steps"], "ev": r["ev"]}
