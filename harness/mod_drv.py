"""Module libraries of Modules.tla declared in licant, and what a resolution gives.

job: c (scenario), how ("list" | "app"), style (seed of the way things are declared)."""
import contextlib, io, os, random, shutil, sys
import env, pool, fakecc


def dep(r, rng):
    if r["i"] == "":
        return r["n"]
    return (r["n"], r["i"])


def declare(c, rng, licant):
    lib = list(c["lib"])
    rng.shuffle(lib)
    dflt, late, again = {}, [], []
    for x in c["def"]:
        if dflt.setdefault(x["name"], x["impl"]) != x["impl"]:
            again.append((x["name"], x["impl"]))
    for m in lib:
        n, i = m["name"], m["impl"]
        kw = {}
        if m["req"] or rng.random() < .3:
            kw["mdepends"] = [dep(r, rng) for r in m["req"]]
        kw["defines"] = ["M_%s_%s" % (n, i.strip("_"))]
        isdef = dflt.get(n) == i
        if i == "__default__" and isdef:
            licant.module(n, **kw)
            continue
        k = rng.randrange(3)
        if isdef and k == 0:
            licant.implementation(n, i, default=True, **kw)
        elif isdef and k == 1:
            licant.module(n, impl=i, default=True, **kw)
        else:
            if rng.random() < .5:
                licant.module(n, impl=i, **kw)
            else:
                licant.implementation(n, i, **kw)
            if isdef:
                late.append((n, i))
    have = {(m["name"], m["impl"]) for m in lib}
    for n, i in dflt.items():
        if (n, i) not in have:
            late.append((n, i))
    rng.shuffle(late)
    for n, i in late + again:
        (licant.module_defimpl if rng.random() < .5 else licant.module_default_implementation)(n, i)


def body(job, d):
    import licant, licant.cli
    os.chdir(d)
    c = job["c"]
    rng = random.Random(job["style"])
    root = [dep(r, rng) for r in c["root"]]
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            early = rng.random() < .5
            if not early:
                declare(c, rng, licant)
            if job["how"] == "list":
                licant.module("zroot", mdepends=root)
                if early:
                    declare(c, rng, licant)
                licant.ex("cxxm", argv=["cxxm", "collect_modules", "zroot"])
            else:
                if early:
                    declare(c, rng, licant)
                with open("m.c", "w") as f:
                    f.write("int main;\n")
                pre, calls = fakecc.make(d)
                licant.cxx_application("zapp", sources=["m.c"], mdepends=root, toolchain=licant.gcc_toolchain(pre))
                licant.ex("zapp", argv=["zapp", "-j1"])
    except SystemExit as e:
        if e.code not in (0, None):
            return {"e": "Refused", "mods": [], "code": e.code if isinstance(e.code, int) else 1}
    except BaseException as x:
        return {"e": "Refused", "mods": [], "code": 1, "exc": repr(x)[:300]}
    names = {"M_%s_%s" % (m["name"], m["impl"].strip("_")): (m["name"], m["impl"]) for m in c["lib"]}
    mods = []
    if job["how"] == "list":
        for ln in buf.getvalue().split("\n"):
            if ":" in ln:
                n, i = ln.strip().split(":", 1)
                mods.append({"n": n, "i": i})
    else:
        cs = [a for t, a in fakecc.calls(calls) if "-c" in a]
        if len(cs) != 1:
            return {"_error": "%d compilations" % len(cs)}
        for a in cs[0]:
            if a.startswith("-DM_"):
                n, i = names[a[2:]]
                mods.append({"n": n, "i": i})
    return {"e": "Resolved", "mods": mods, "code": 0}


def one(job):
    d = os.path.join(env.scratch(), "m%d_%d" % (os.getpid(), random.randrange(1 << 40)))
    os.makedirs(d)
    try:
        r = pool.forked(lambda: body(job, d), timeout=job.get("patience", 20), quiet=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if "_timeout" in r:
        r = {"e": "Hang", "mods": [], "code": 0}
    if "e" not in r:
        return r
    return {"c": job["c"], "ev": [r]}
