"""Applications and modules of Options.tla declared in licant and built with recording tool chains.

job: c (configuration), style (seed of the way things are declared)."""
import os, random, shutil
import env, pool, fakecc

CXX = ("cpp", "cxx", "cc")
FUNC = {"application": "cxx_application", "shared_library": "cxx_shared_library",
        "static_library": "cxx_static_library", "objects": "cxx_objects"}


def p(comps, root, absolute):
    s = "/".join(comps)
    return os.path.join(root, s) if absolute else s


def kwargs(m, root, rng, app, impl={}):
    """Python text of the keyword arguments of a module's declaration."""
    kw = {}
    explicit = lambda n: n in impl and (impl[n] != "x" or rng.random() < .5)
    if m["srcdir"] or rng.random() < .1:
        kw["srcdir"] = "/".join(m["srcdir"]) or "."
    src = [p(s["p"], root, s["abs"]) for s in m["src"]]
    if m.get("glob"):
        src = m["glob"]
    if src or rng.random() < .2:
        kw["sources"] = src
    for k, name in (("obj", "objects"), ("inc", "include_paths"), ("scr", "ldscripts")):
        if m[k]:
            kw[name] = [p(x["p"], root, x["abs"]) for x in m[k]]
    if m["lh"]:
        kw["local_headers"] = [("/".join(h["n"]), p(h["p"], root, h["abs"])) for h in m["lh"]]
    for k, name in (("def", "defines"), ("libs", "libs"), ("libdirs", "libdirs")):
        if m[k] or rng.random() < .1:
            kw[name] = m[k]
    for k, name in (("cxxf", "cxx_flags"), ("ccf", "cc_flags"), ("ldf", "ld_flags")):
        if m[k]:
            kw[name] = " ".join(m[k])
    for k, name in (("std", "cxxstd"), ("cstd", "ccstd"), ("opt", "optimize"), ("dbg", "debug")):
        if m[k]:
            kw[name] = "" if m[k] == "~" else m[k]
    if m["builddir"]:
        kw["builddir"] = "/".join(m["builddir"])
    if m["target"] and not (app and m["target"] == [m["name"]] and rng.random() < .6):
        kw["target"] = "/".join(m["target"])
    if m["type"] and not app:
        kw["type"] = m["type"]
    if m["incl"]:
        kw["include_modules"] = [(n, "x") if explicit(n) else n for n in m["incl"]]
    if m["mdep"]:
        kw["mdepends"] = list(m["mdep"])
    txt = ["%s=%r" % i for i in kw.items()]
    if m["subs"]:
        txt.append("modules=[%s]" % ", ".join("licant.submodule(%s)" % (rng.choice(["%r, 'x'", "(%r, 'x')", "%r, impl='x'"]) if explicit(s) else "%r") % s for s in m["subs"]))
    if m["tool"]:
        txt.append("toolchain=licant.attribute(%r)" % m["tool"])
    rng.shuffle(txt)
    return ", ".join(txt)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def setup(c, root):
    for m in c["mods"] + c["apps"]:
        d = os.path.join(root, *m["dir"])
        os.makedirs(d, exist_ok=True)
        for s in m["src"] + m["obj"]:
            base = root if s["abs"] else os.path.join(d, *m["srcdir"])
            os.makedirs(base, exist_ok=True)
            for k in range(1, len(s["p"])):
                step = os.path.join(base, *s["p"][:k])
                if not os.path.isdir(step):
                    os.mkdir(step)
            if not s.get("gen"):
                write(os.path.normpath(os.path.join(base, *s["p"])), "int main;\n")
        for s in m["scr"]:
            write(os.path.normpath(os.path.join(root if s["abs"] else d, *s["p"])), "script\n")
        for h in m["lh"]:
            f = os.path.normpath(os.path.join(root if h["abs"] else d, *h["p"]))
            write(f, "/".join(comps(f, root)))


def comps(path, root):
    r = os.path.relpath(os.path.normpath(os.path.join(root, path)), root)
    return [] if r == "." else r.split("/")


def options(args, root, cxx):
    r = dict(std="", dbg="", opt="", flags=[], inc=[], **{"def": []})
    r["cxx"] = cxx
    for a in args:
        if a.startswith("-std="):
            r["std"] = a[5:]
        elif a.startswith("-g"):
            r["dbg"] = a
        elif a.startswith("-O"):
            r["opt"] = a
        elif a.startswith("-I"):
            r["inc"].append(comps(a[2:], root))
        elif a.startswith("-D"):
            r["def"].append(a[2:])
        else:
            r["flags"].append(a)
    return r


def parse(tc, tool, args, root, e):
    cxx = tool == "g++"
    if args[0] == "-MM":
        e["ds"].append(dict(options(args[2:], root, cxx), tool=tc, src=comps(args[1], root)))
    elif "-c" in args:
        k = args.index("-c")
        o = args.index("-o")
        rest = [a for i, a in enumerate(args) if i not in (k, k + 1, o, o + 1)]
        e["cs"].append(dict(options(rest, root, cxx), tool=tc, src=comps(args[k + 1], root), obj=comps(args[o + 1], root)))
    elif tool == "ar":
        e["ls"].append(dict(kind="static_library" if args[0] == "rcs" else "odd", tool=tc, out=comps(args[1], root),
                            ins=[comps(a, root) for a in args[2:]], libs=[], libdirs=[], scr=[], flags=[]))
    else:
        l = dict(kind="application", tool=tc if tool == "g++" else "odd", out=[], ins=[], libs=[], libdirs=[], scr=[], flags=[])
        i = 0
        while i < len(args):
            a = args[i]
            if a == "-o":
                i += 1
                l["out"] = comps(args[i], root)
            elif a == "--shared":
                l["kind"] = "shared_library"
            elif a.startswith("-Wl,"):
                pass
            elif a.startswith("-l"):
                l["libs"].append(a[2:])
            elif a.startswith("-L"):
                l["libdirs"].append(a[2:])
            elif a.startswith("-T"):
                l["scr"].append(comps(a[2:], root))
            elif a.startswith("-"):
                l["flags"].append(a)
            else:
                l["ins"].append(comps(a, root))
            i += 1
        e["ls"].append(l)


def body(job, d):
    import licant, licant.cli
    c = job["c"]
    rng = random.Random(job["style"])
    root = os.path.join(d, "p", "q", "r")
    os.makedirs(root)
    os.chdir(root)
    setup(c, root)
    tools = {}
    for t in ("t1", "t2"):
        os.makedirs(os.path.join(d, t))
        pre, calls = fakecc.make(os.path.join(d, t))
        tools[t] = calls
        licant.import_attribute(t, licant.gcc_toolchain(pre))
    bydir = {}
    impl = {m["name"]: m["dfl"] for m in c["mods"] if m["impl"]}
    for m in c["mods"] + c["apps"]:
        for s in m["src"]:
            if s.get("gen"):
                f = p(m["dir"] + m["srcdir"] + s["p"], root, False) if not s["abs"] else p(s["p"], root, True)
                licant.makefile(tgt=f, deps=[], do="echo made > " + f)
    for m in c["mods"]:
        ls = bydir.setdefault("/".join(m["dir"]), [])
        if m["impl"]:
            kw = kwargs(m, root, rng, False, impl)
            x = [(m["impl"], kw), ("y", "sources=['decoy.c'], defines=['DECOY'], cxx_flags='-fdecoy', mdepends=['nosuch']")]
            rng.shuffle(x)
            txt = []
            for i, k in x:
                t = rng.choice(["licant.module(%r, %r, %s%s)", "licant.module(%r, impl=%r, %s%s)", "licant.implementation(%r, %r, %s%s)"])
                flag = i == m["dfl"] and rng.random() < .6
                txt.append(t % (m["name"], i, k, ", default=True" if flag and k else "default=True" if flag else ""))
                if i == m["dfl"] and not flag:
                    txt.append("licant.module_default_implementation(%r, %r)" % (m["name"], i))
            ls.append("\n".join(txt))
        else:
            ls.append("licant.module(%r, %s)" % (m["name"], kwargs(m, root, rng, False, impl)))
    order = list(bydir.items())
    rng.shuffle(order)
    for dd, lines in order:
        rng.shuffle(lines)
        f = os.path.join(dd, "s%d.g.py" % rng.randrange(1000))
        write(os.path.join(root, f), "import licant\n" + "\n".join(lines) + "\n")
        licant.execute(f)
    apps = list(enumerate(c["apps"]))
    rng.shuffle(apps)
    ok = True
    try:
        for k, a in apps:
            line = "licant.%s(%r, %s)" % (FUNC[a["type"]], a["name"], kwargs(a, root, rng, True, impl))
            f = os.path.join(*a["dir"], "app%d.g.py" % k)
            write(os.path.join(root, f), "import licant\n" + line + "\n")
            licant.execute(f)
    except SystemExit:
        ok = False
    evs = []
    rng.shuffle(apps)
    for k, a in apps:
        req = a["name"] if a["type"] == "objects" else "/".join(a["target"])
        e = dict(e="Build", a=k + 1, ok=False, cs=[], ds=[], ls=[], lh=[])
        if ok:
            def run():
                try:
                    licant.ex(req, argv=[req, "-j%d" % rng.choice([1, 4])])
                except SystemExit as x:
                    return {"ok": x.code in (0, None)}
                return {"ok": True}
            r = pool.forked(run, timeout=job.get("patience", 30), quiet=True)
            if "_timeout" in r:
                evs.append(dict(e, e="Hang"))
                break
            e["ok"] = bool(r.get("ok"))
            for t in tools:
                for tool, args in fakecc.calls(tools[t]):
                    parse(t, tool, args, root, e)
            for base, dirs, files in os.walk(d):
                if "__LOCAL_HEADERS__" in base.split("/"):
                    for f in files:
                        f = os.path.join(base, f)
                        with open(f) as h:
                            e["lh"].append(dict(at=comps(f, root), of=h.read().split("/")))
        evs.append(e)
    return {"ev": evs}


def one(job):
    d = os.path.join(env.scratch(), "o%d_%d" % (os.getpid(), random.randrange(1 << 40)))
    os.makedirs(d)
    try:
        r = pool.forked(lambda: body(job, d), timeout=90, quiet=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if "ev" not in r:
        return r
    c = {k: [{kk: v for kk, v in m.items() if kk != "glob"} for m in job["c"][k]] for k in ("mods", "apps")}
    return {"c": c, "ev": r["ev"]}
