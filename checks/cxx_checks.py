"""C15-C18: modules, options, objects, headers."""
import itertools, json, random
import env, pool, mod_drv, opt_drv, cxx_drv, step_drv
from front_checks import settle


def rand_library(rng):
    n = rng.randint(2, 6)
    names = ["m%d" % i for i in range(n)]
    impls = rng.choice([["x"], ["x", "y"], ["x", "y", "z"], ["__default__", "x"]])
    full = rng.random() < .7            # nothing missing
    lib, dfl = [], []
    pe = rng.choice([0, .1, .3, .8])    # how often an implementation is asked for
    same = rng.random() < .5            # ... always the same one
    for m in names:
        have = [i for i in impls if rng.random() < .7] or ([impls[0]] if full else [])
        for i in have:
            lib.append(dict(name=m, impl=i, req=[]))
        if have and (full or rng.random() < .8):
            dfl.append(dict(name=m, impl=rng.choice(have)))
        elif not full and rng.random() < .1:
            dfl.append(dict(name=m, impl="gone"))
    fav = {m: rng.choice([l["impl"] for l in lib if l["name"] == m] or ["x"]) for m in names}
    def req(m):
        if rng.random() < pe:
            i = fav[m] if same else rng.choice([l["impl"] for l in lib if l["name"] == m] or ["x"])
            if rng.random() < .03:
                i = rng.choice(["__none__", "nosuch"])
            return dict(n=m, i=i)
        return dict(n=m, i="")
    k = rng.choice([1, 1, 2, 3])
    acyclic = rng.random() < .3
    for l in lib:
        pool_ = names[:names.index(l["name"])] if acyclic else names
        for m in rng.sample(pool_, min(len(pool_), rng.randint(0, k))):
            l["req"].append(req(m))
        if not full and rng.random() < .02:
            l["req"].append(dict(n="missing", i=""))
    root = [req(m) for m in rng.sample(names, rng.randint(1, min(3, n)))]
    return dict(root=root, lib=lib, **{"def": dfl})


def small_libraries(rng, count):
    """A sample of the libraries ModulesMC goes through."""
    R = [[]] + [[dict(n=n, i=i)] for n in "pq" for i in ("", "x", "y")]
    out = []
    for _ in range(count):
        have = [(n, i) for n in "pq" for i in "xy" if rng.random() < .75]
        lib = [dict(name=n, impl=i, req=rng.choice(R)) for n, i in have]
        dfl = [dict(name=n, impl="x") for n in "pq" if rng.random() < .7]
        root = rng.choice(R[1:]) + ([dict(n="q", i=rng.choice(["", "x", "y"]))] if rng.random() < .5 else [])
        root = [r for k, r in enumerate(root) if r["n"] not in [x["n"] for x in root[:k]]]
        out.append(dict(root=root, lib=lib, **{"def": dfl}))
    return out


def modules(rep):
    env.load()
    rng = random.Random(rep.seed * 15485863 + 15)
    q = rep.quick
    cfg = lambda f: ("SPECIFICATION Spec\nCONSTANTS IMPLS={\"x\",\"y\"} FROMFILE=%s\n"
                     "INVARIANT OneEach Honoured Closed Requested DefaultElse Exist Reason Agrees Promised\n%s" % (f, "PROPERTY Ends\n" if f == "TRUE" else ""))
    rep.model("ModulesMC", cfg("FALSE"), workers=8, what="all libraries of 2 modules x 2 implementations")
    libs = [rand_library(rng) for _ in range(3000 if q else 30000)]
    rep.model("ModulesMC", cfg("TRUE"), workers=8, data={"LIBS": libs}, what="random libraries to 6 modules", timeout=3000)
    jobs = [dict(c=c, how="app" if rng.random() < .12 else "list", style=rng.randrange(1 << 30))
            for c in libs + small_libraries(rng, 3000 if q else 30000)]
    for j in rng.sample(jobs, len(jobs) // 15):
        two = [(m["name"], m["impl"]) for m in j["c"]["lib"] for x in j["c"]["def"] if x["name"] == m["name"] and x["impl"] != m["impl"]]
        if two:
            n, i = rng.choice(two)
            j["c"] = dict(j["c"], **{"def": j["c"]["def"] + [dict(name=n, impl=i)]})
    for j in jobs:
        if "__none__" in json.dumps(j["c"]):
            j["how"] = "list"       # the empty implementation leaves no mark on a command line
    jobs, res = rep.drive(mod_drv.one, jobs, "resolutions")
    traces = [{"c": r["c"], "ev": r["ev"]} for r in res]
    rep.events += len(traces)
    rep.info["resolved"] = sum(x["ev"][0]["e"] == "Resolved" for x in traces)
    rep.info["refused"] = sum(x["ev"][0]["e"] == "Refused" for x in traces)
    rep.sample({"what": "resolution", "trace": traces[0]})
    settle(rep, jobs, traces, rep.judge("ModulesTrace", traces, what="resolutions"), mod_drv.one, "ModulesTrace", "modules", patience=60)
    rep.info["bounds"] = "model: all libraries of 2 modules x 2 implementations with at most one request each; real: samples of those and random libraries to 6 modules x 3 implementations"


# --------------------------------------------------------------------------- C16, C18
def blank(name, dir=()):
    return dict(name=name, dir=list(dir), srcdir=[], src=[], obj=[], inc=[], scr=[], lh=[], libs=[], libdirs=[], cxxf=[], ccf=[], ldf=[],
                std="", cstd="", target=[], builddir=[], tool="", opt="", dbg="", type="", impl="", dfl="", incl=[], mdep=[], subs=[], **{"def": []})


class Gen:
    """A random configuration of Options.tla."""
    def __init__(self, rng, names=False):
        self.rng, self.names, self.k = rng, names, 0
        self.taken = set()
        self.mods = []
        self.dirs = [[], ["m"], ["m", "n"], ["lib"], ["lib", "x-y"], ["..", "out"]]
        self.sparse = rng.choice([.15, .3, .6])

    def fresh(self, s):
        self.k += 1
        return "%s%d" % (s, self.k)

    def path(self, ext, m, deep=True):
        rng = self.rng
        pre = rng.choice([[], [], [], ["sub"], ["a", "b"], ["..", "w"], [".", "v"], ["__", "u"]]) if deep else []
        if self.names:
            base = rng.choice(["a", "a", "b", "a.b", "main", "__", "a__b", "..a", "A", "a-1", "d"])
            pre = rng.choice([[], [], [], ["d"], ["e"], ["..", "d"], [".."], ["..", ".."], ["__"], ["..", "__"], ["d", "..", "e"], ["."]])
        else:
            base = self.fresh("s")
        return dict(p=pre + [base + ("." + ext if ext else "")], abs=rng.random() < .1)

    def where(self, m, s):
        q = []
        for x in ([] if s["abs"] else m["dir"] + m["srcdir"]) + s["p"]:
            if x == ".." and q and q[-1] != "..":
                q.pop()
            elif x != ".":
                q.append(x)
        return tuple(q)

    def fill(self, m, most, app=False):
        rng, pr = self.rng, self.sparse
        few = lambda f, n=2: [f() for _ in range(rng.randint(1, n))] if rng.random() < pr else []
        if rng.random() < .3:
            m["srcdir"] = rng.choice([["src"], ["src", "deep"], ["..", "shared"]])
        n = rng.randint(1 if app or rng.random() < .8 else 0, most)
        for _ in range(n):
            ext = rng.choice(["c", "c", "cpp", "cc", "cxx"])
            s = self.path(ext, m)
            if ext in ("c",) and rng.random() < .05:
                s["p"][-1] = s["p"][-1][:-1] + "S"
                ext = "S"
            w = self.where(m, s)
            if w in self.taken or len([1 for x in w if x == ".."]) > 2 or any(w[:len(t)] == t or t[:len(w)] == w for t in self.taken):
                continue
            self.taken.add(w)
            s["x"] = "cxx" if ext in ("cpp", "cxx", "cc") else "c"
            s["gen"] = rng.random() < .06       # made by another target
            m["src"].append(s)
        m["obj"] = few(lambda: dict(p=rng.choice([[], ["pre"]]) + [self.fresh("o") + ".o"], abs=False))
        m["inc"] = few(lambda: dict(p=rng.choice([["include"], [".."], ["."], ["..", self.fresh("i")], [self.fresh("i"), "j"]]), abs=rng.random() < .1), 3)
        m["scr"] = few(lambda: dict(p=[self.fresh("t") + ".ld"], abs=rng.random() < .2))
        m["lh"] = few(lambda: dict(n=rng.choice([[], ["pub"]]) + [self.fresh("h") + ".h"], p=rng.choice([[], ["hd"]]) + [self.fresh("h") + ".h"], abs=False))
        m["def"] = few(lambda: self.fresh("D") + rng.choice(["", "=1", "=x"]), 3)
        m["libs"] = few(lambda: self.fresh("l"), 3)
        m["libdirs"] = few(lambda: self.fresh("/L"))
        m["cxxf"] = few(lambda: "-f" + self.fresh("x"), 3)
        m["ccf"] = few(lambda: "-f" + self.fresh("c"), 3)
        m["ldf"] = few(lambda: "-f" + self.fresh("l"))
        one = lambda *v: rng.choice(v) if rng.random() < pr else ""
        m["std"], m["cstd"] = one("c++11", "c++14", "gnu++20"), one("c99", "gnu11")
        m["opt"], m["dbg"] = one("-O0", "-O2", "-Os", "~"), one("-g0", "-g3", "~")      # ~: given, and empty
        m["tool"] = one("t1", "t2")

    def module(self, most, scal):
        rng = self.rng
        m = blank(self.fresh("mod"), rng.choice(self.dirs))
        self.fill(m, most)
        if scal:        # scalars that must not leak into who includes it
            if rng.random() < .3: m["builddir"] = [self.fresh("bd")]
            if rng.random() < .3: m["target"] = [self.fresh("tg")]
            if rng.random() < .3: m["type"] = rng.choice(["objects", "static_library", "application"])
        self.mods.append(m)
        return m

    def unit(self, m, depth, single, most):
        """Gives m included modules, modules it depends on and submodules."""
        rng = self.rng
        def graph(n, field, cyc):
            ms = [self.module(most, True) for _ in range(n)]
            for i, x in enumerate(ms):
                for j, y in enumerate(ms):
                    if (j > i or cyc and j != i) and rng.random() < .35:
                        x[field].append(y["name"])
            return ms
        inc = graph(rng.choice([0, 0, 1, 2, 3]), "incl", False)
        dep = graph(rng.choice([0, 0, 1, 2, 3]), "mdep", True)
        m["incl"] = [x["name"] for x in inc if rng.random() < .7]
        m["mdep"] = [x["name"] for x in dep if rng.random() < .7]
        rng.shuffle(m["incl"]); rng.shuffle(m["mdep"])
        if inc and rng.random() < .15:
            m["mdep"].append(rng.choice(inc)["name"])       # included and depended on
        if depth > 0:
            for _ in range(rng.choice([0, 0, 1, 2])):
                s = blank(self.fresh("sm"), rng.choice(self.dirs))
                self.fill(s, most)
                self.mods.append(s)
                if single and rng.random() < .25:
                    s["type"] = rng.choice(["static_library", "shared_library"])
                    s["target"] = [self.fresh("lib") + ".a"]
                if single and rng.random() < .25:
                    s["builddir"] = [self.fresh("sb")]
                self.unit(s, depth - 1, single, most)
                reach = [x for x in inc if x["name"] in m["incl"]]
                (rng.choice(reach) if reach and rng.random() < .3 else m)["subs"].append(s["name"])

    def app(self, single, most, depth):
        rng = self.rng
        a = blank(self.fresh("app"), rng.choice([[], [], ["m"], ["apps"]]))
        self.fill(a, most, True)
        a["type"] = rng.choice(["application"] * 4 + ["shared_library", "static_library", "objects"])
        a["target"] = [a["name"]] if rng.random() < .6 or a["type"] == "objects" else rng.choice([["out", self.fresh("bin")], [self.fresh("bin") + ".elf"]])
        a["tool"] = rng.choice(["t1", "t2"])
        if not single or rng.random() < .5:
            a["builddir"] = rng.choice([[self.fresh("b")], ["out", self.fresh("b")], ["..", "far", self.fresh("b")]])
        self.unit(a, depth, single, most)
        return a

    def make(self):
        rng = self.rng
        single = self.names or rng.random() < .6
        most = 6 if self.names else rng.choice([1, 1, 2, 3])
        depth = rng.choice([0, 1, 2])
        apps = [self.app(single, most, depth)]
        if not single:
            # another application of the same modules
            for _ in range(rng.choice([1, 2])):
                b = blank(self.fresh("app"), rng.choice([[], ["m"]]))
                self.fill(b, most, True)
                b["type"], b["target"], b["tool"] = rng.choice(["application", "static_library", "objects"]), [b["name"]], rng.choice(["t1", "t2"])
                b["builddir"] = [self.fresh("b")]
                for f in ("incl", "mdep", "subs"):
                    b[f] = [x for x in apps[0][f] if rng.random() < .8]
                apps.append(b)
        for m in self.mods + apps:
            # the same, by patterns
            if m["src"] and rng.random() < .15 and not self.names:
                d = self.fresh("g")
                m["srcdir"] = [d]
                for s in m["src"]:
                    s["p"], s["abs"], s["gen"] = s["p"][-1:], False, False
                exts = sorted({s["p"][-1].rsplit(".", 1)[1] for s in m["src"]})
                m["glob"] = ["*." + e for e in exts] + rng.choice([[], [m["src"][0]["p"][-1]], ["s*." + exts[0]]])
        # modules that have another implementation, which is not the one asked for
        dep = {n for m in self.mods + apps for n in m["mdep"]}
        for m in self.mods:
            if rng.random() < .15:
                m["impl"] = "x"
                m["dfl"] = rng.choice(["x", "x", "y", ""]) if m["name"] not in dep else "x"
        return dict(mods=self.mods, apps=apps)


def compose(rep):
    env.load()
    rng = random.Random(rep.seed * 104729 + 16)
    q = rep.quick
    names = rep.pid == "C18"
    cfg = "SPECIFICATION Spec\nCONSTANT N=%d\nINVARIANT Steps Contributes OwnFirst Scalars Std Inherit LinkedAll\nPROPERTY Ends\n"
    rep.model("OptionsMC", cfg % 2, workers=8, what="all applications with 2 modules")
    if not names or not q:
        rep.model("OptionsMC", cfg % 3, workers=8, what="all applications with 3 modules", timeout=3000)
    n = 3000 if q else 40000
    jobs = [dict(c=Gen(rng, rng.random() < (.6 if names else .1)).make(), style=rng.randrange(1 << 30)) for _ in range(n)]
    jobs, res = rep.drive(opt_drv.one, jobs, "configurations", timeout=120, budget=240 if q else 5000)
    traces = [{"c": r["c"], "ev": r["ev"]} for r in res]
    rep.events += sum(len(e["cs"]) + len(e["ds"]) + len(e["ls"]) for t in traces for e in t["ev"])
    rep.info["builds"] = sum(len(t["ev"]) for t in traces)
    rep.info["compilations"] = sum(len(e["cs"]) for t in traces for e in t["ev"])
    rep.sample({"what": "configuration", "trace": traces[0]})
    settle(rep, jobs, traces, rep.judge("OptionsTrace", traces, what="configurations", chunk=1500), opt_drv.one, "OptionsTrace", "options", patience=120)
    rep.info["bounds"] = "model: all applications with up to 3 modules, each pair unrelated, included, depended on or a submodule, scalars set or not; real: random configurations to about 15 modules and 3 applications"


# --------------------------------------------------------------------------- C17
def rand_headers(rng):
    ns, nh = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 3, 4])
    nf = ns + nh
    odd = rng.random() < .3
    names = []
    for s in range(1, ns + 1):
        d = rng.choice(["", "", "src/", "src/deep/", "../ext/"])
        names.append(dict(path=d + "s%d.%s" % (s, rng.choice(["c", "c", "cpp", "cc"])), dir=None))
    for h in range(ns + 1, nf + 1):
        d = rng.choice([None, "inc", "inc2", "../common"])
        sub = rng.choice(["", "", "pub/"])
        base = ("h%d" % h) + (rng.choice(["+x", "-y", "@z", "~", ",", "=", "%", "{}", "!", "é", "[1]", "..", ".tar"]) if odd else "")
        names.append(dict(path=((d + "/") if d else rng.choice(["", "src/"])) + sub + base + rng.choice([".h", ".hpp", ".inl"]), dir=d))
    def incs(f):
        later = list(range(max(ns, f) + 1, nf + 1))
        return sorted(rng.sample(later, min(len(later), rng.choice([0, 1, 1, 2, 3]))))
    files = [dict(x=f <= ns or rng.random() < .95, v=1, inc=incs(f), bad="") for f in range(1, nf + 1)]
    for f in files:
        if not f["x"]:
            f["inc"] = []
    pb, pd = rng.choice([0, .1, .3]), rng.choice([0, .1, .2])
    ops = [dict(op="build", j=rng.choice([1, 1, 2, 4]))]
    for _ in range(rng.randint(2, 7)):
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            r = rng.random()
            f = rng.randint(1, nf)
            if r < .08:
                ops.append(dict(op="rmdep", f=rng.randint(1, ns)))
            elif r < .12:
                ops.append(dict(op="rmobj", f=rng.randint(1, ns)))
            elif r < .15:
                ops.append(dict(op="rmbin", f=0))
            elif r < .25:
                ops.append(dict(op="touch", f=f))
            elif r < .25 + pd and f > ns:
                ops.append(dict(op="delete", f=f))
            else:
                ops.append(dict(op="edit", f=f, inc=incs(f), bad=rng.choice(["error", "syntax", "link"]) if rng.random() < pb else ""))
        ops.append(dict(op="build", j=rng.choice([1, 1, 2, 4])))
        if rng.random() < .3:
            ops.append(dict(op="build", j=1))
    # mend everything, so that the history ends with a good build
    if rng.random() < .7:
        last = {}
        for k, f in enumerate(files):
            last[k + 1] = (f["x"], f["bad"])
        for o in ops:
            if o["op"] == "edit": last[o["f"]] = (True, o["bad"])
            if o["op"] == "delete": last[o["f"]] = (False, "")
        for f, (x, b) in last.items():
            if not x or b:
                ops.append(dict(op="edit", f=f, inc=incs(f), bad=""))
        ops += [dict(op="build", j=2), dict(op="build", j=1)]
    # a library has no linker to complain (static: the archiver takes anything; shared: symbols may be missing)
    kind = "application" if any(o.get("bad") == "link" for o in ops) or rng.random() < .6 else rng.choice(["static_library", "shared_library"])
    cut = rng.choice([0, 0, 1]) if ns > 1 else 0
    return dict(ns=ns, files=files, names=names, ops=ops, style=rng.randrange(1 << 30), kind=kind, cut=cut, how=rng.choice(["incl", "mdep", "sub"]))


def headers(rep):
    env.load()
    rng = random.Random(rep.seed * 7919 + 17)
    q = rep.quick
    cfg = "SPECIFICATION Spec\nCONSTANTS NS=%d NF=%d MAXOPS=%d OPS={%s} RESCAN=TRUE\nINVARIANT Right Follows Idle\n"
    every = '"edit","delete","rmdep","rmobj","rmbin","build","bad"'
    rep.model("CxxMC", cfg % (2, 4, 3, every), workers=8, what="2 sources, 2 headers, 3 operations")
    rep.model("CxxMC", cfg % (1, 3, 5 if q else 6, every), workers=8, what="1 source, 2 headers, %d operations" % (5 if q else 6), timeout=6000, mem="12g")
    rep.model("CxxMC", (cfg % (1, 2, 6, '"edit","delete","build"')).replace("RESCAN=TRUE", "RESCAN=FALSE"), expect=["Right"], workers=8,
              what="a compiler that overlooks missing headers, dependencies looked for once: must fail")
    if not q:
        rep.model("CxxMC", cfg % (2, 4, 4, every), workers=8, what="2 sources, 2 headers, 4 operations", timeout=6000, mem="12g")
        rep.model("CxxMC", cfg % (2, 3, 6, '"edit","build","bad"'), workers=8, what="2 sources, 1 header, 6 operations", timeout=6000, mem="12g")
    jobs = [rand_headers(rng) for _ in range(2200 if q else 20000)]
    jobs, res = rep.drive(cxx_drv.one, jobs, "histories", timeout=240, budget=330 if q else 6000)
    traces = [dict(ns=r["ns"], files=r["files"], ev=r["ev"]) for r in res]
    B = [e for t in traces for e in t["ev"] if e["e"] == "Build"]
    rep.events += sum(len(t["ev"]) for t in traces)
    rep.info.update(sessions=len(B), failed_sessions=sum(not e["ok"] for e in B), idle_sessions=sum(e["ok"] and not e["tried"] for e in B),
                    compilations=sum(len(e["tried"]) for e in B))
    rep.sample({"what": "history", "trace": traces[0]})
    settle(rep, jobs, traces, rep.judge("CxxTrace", traces, what="histories"), cxx_drv.one, "CxxTrace", "headers", patience=150)
    rep.info["bounds"] = "model: all histories of 3 operations on 2 sources and 2 headers and of 5 on 1 and 2 (thorough: 4, 6), edits of includes and of three kinds of errors; real: random histories on up to 4 sources and 4 headers, gcc"


# --------------------------------------------------------------------------- C26
def rand_steps(rng):
    """An application whose sources are partly made by tools, and a history of sessions."""
    files, steps, units = [], [], []
    taken = set()
    uni = rng.random() < .7
    def unit(name, kind):
        u = dict(name=name, kind=kind, dir=rng.choice(["", "", "m", "m/n", "lib"]), srcdir=rng.choice(["", "", "", "src", "s/t"]), incl=[], mdep=[], subs=[],
                 flags=rng.choice(["", "", "-f" + name]), defines=rng.choice([[], [], ["D" + name]]), inc=rng.choice([[], ["include"]]), glob={})
        units.append(u)
        return u
    app = unit("top", "app")
    host = {"top": 0}           # the compile unit a module belongs to
    comp = ["top"]
    for k in range(rng.choice([0, 0, 1, 2])):
        u = unit("inc%d" % k, "incl")
        rng.choice([app["incl"], app["mdep"]]).append(u["name"])
        if k and rng.random() < .4:
            u["incl" if "inc0" in app["incl"] else "mdep"].append("inc0")       # reached twice
        host[u["name"]] = 0
    for k in range(rng.choice([0, 0, 0, 1, 2])):
        u = unit("sub%d" % k, "sub")
        app["subs"].append(u["name"])
        host[u["name"]] = len(comp)
        comp.append(u["name"])
        if rng.random() < .3:
            v = unit("sinc%d" % k, "incl")
            u["incl"].append(v["name"])
            host[v["name"]] = host[u["name"]]
    def add(u, kind, ext, names, dirs):
        base = "/".join(x for x in (u["dir"], u["srcdir"]) if x)
        for _ in range(20):
            p = "/".join(x for x in (base, rng.choice(dirs), rng.choice(names) + rng.choice(ext)) if x)
            if p not in taken:
                break
        else:
            return
        taken.add(p)
        files.append(dict(path=p, kind=kind, owner=u["name"], unit=host[u["name"]], uses=[], v=1, bad=False, abs=kind != "ui" and rng.random() < .05))
    for u in units:
        mine = len(files)
        for _ in range(rng.choice([1, 1, 2, 3]) if u["kind"] == "app" else rng.choice([0, 1, 2])):
            add(u, "src", [".cpp", ".c", ".cc"], ["a", "b", "main", "a.h"], ["", "", "d"])
        for _ in range(rng.choice([0, 1, 2, 3])):
            add(u, "moc", [".h", ".h", ".hpp", ".hh"], ["a", "b", "a.b", "widget"], ["", "", "d", "e"])
        for _ in range(rng.choice([0, 0, 1, 2])):
            add(u, "ui", [".ui"], ["a", "form", "form", "x.y"], ["", "", "d", "e"])
        for kind in ("src", "moc", "ui"):
            u["glob"][kind] = rng.random() < .15
    if not any(f["kind"] == "src" and f["unit"] == 0 for f in files):
        add(app, "src", [".cpp"], ["only"], [""])
    # a pattern must not match another's files
    for u in units:
        for kind in u["glob"]:
            mine = [f for f in files if f["owner"] == u["name"] and f["kind"] == kind]
            ps = {(f["path"].rpartition("/")[0], f["path"].rpartition(".")[2]) for f in mine}
            if any((f["path"].rpartition("/")[0], f["path"].rpartition(".")[2]) in ps for f in files if f not in mine) or any(f["abs"] for f in mine):
                u["glob"][kind] = False
    for i, f in enumerate(files):
        if f["kind"] in ("src", "moc"):
            forms = [k + 1 for k, g in enumerate(files) if g["kind"] == "ui" and g["unit"] == f["unit"]]
            if forms and rng.random() < .7 and (f["kind"] == "src" or rng.random() < .5):
                f["uses"] = sorted(rng.sample(forms, min(len(forms), rng.choice([1, 1, 2]))))
    over = {}
    def step(kind, id, ins=(), frm=(), after=(), unit=0, lang="", **kw):
        steps.append(dict(kind=kind, id=id, ins=sorted(ins), after=sorted(after), over=sorted(over.get(unit, [])) if kind in ("uic", "moc", "cc", "mocc") else [], unit=unit, lang=lang, **dict(kw, **{"from": sorted(frm)})))
        return len(steps)
    for u in [app] + [x for x in units if x["kind"] == "sub"]:
        for _ in range(rng.choice([0, 0, 0, 0, 0, 1, 1, 2])):
            files.append(dict(path="in/g%d.txt" % len(files), kind="gen", owner="", unit=-9, uses=[], v=1, bad=False, abs=False))
            over.setdefault(host[u["name"]], []).append(step("gen", len(files), [len(files)], unit=-9, owner=u["name"]))
    uic = {i + 1: step("uic", i + 1, [i + 1], unit=f["unit"]) for i, f in enumerate(files) if f["kind"] == "ui"}
    forms = lambda un: [uic[i] for i in uic if files[i - 1]["unit"] == un]
    objs = []
    for i, f in enumerate(files):
        if f["kind"] == "src":
            objs.append(step("cc", i + 1, [i + 1], [uic[x] for x in f["uses"]], forms(f["unit"]), f["unit"], "c" if f["path"].endswith(".c") else "cxx"))
        elif f["kind"] == "moc":
            m = step("moc", i + 1, [i + 1], [], forms(f["unit"]), f["unit"])
            objs.append(step("mocc", i + 1, [], [m] + [uic[x] for x in f["uses"]], forms(f["unit"]), f["unit"], "cxx"))
    final = rng.choice(["application"] * 4 + ["static", "shared", "both", "both"])
    fins = []
    for k in {"application": ["link"], "static": ["ar"], "shared": ["dynlib"], "both": ["ar", "dynlib"]}[final]:
        fins.append(step(k, 0, frm=objs))
    extra = []
    for c in range(rng.choice([0, 0, 1, 2]) if final == "application" else 0):
        extra.append(step("copy", c + 1, frm=[fins[0]], fmt=rng.choice(["binary", "ihex", "srec"]), sections=rng.choice([[".text"], [".text", ".data"], []])))
    if rng.random() < .3:
        for c in range(rng.choice([1, 2])):
            ids = []
            for q in range(rng.choice([1, 2, 3])):
                files.append(dict(path="java%d/%s.java" % (c, "ABC"[q]), kind="java", owner="", unit=-1 - c, uses=[], v=1, bad=False, abs=False))
                ids.append(len(files))
            j = step("javac", 100 + c, ids, unit=-1, jflags=rng.choice(["", "-g", "-g -nowarn"]))
            if rng.random() < .5:       # needs something else made first
                steps[j - 1]["over"] = [rng.choice(fins + extra)]
            extra.append(j)
            if rng.random() < .6:
                extra.append(step("dex", 200 + c, frm=[j]))
    for c in range(rng.choice([0, 0, 0, 1, 1, 2])):         # objects and binaries declared one by one
        hand = []
        for q in rng.sample(["x.c", "x.cpp", "d/x.c", "y.cc", "z.S", "w.cxx", "v.s"], rng.choice([1, 2, 3])):
            files.append(dict(path="hand%d/%s" % (c, q), kind="hand", owner="", unit=-20 - c, uses=[], v=1, bad=False, abs=False))
            ext = q.rpartition(".")[2]
            typ = rng.choice([""] * 4 + ["cxx", "cc", "asm"])
            h = step("cc", len(files), [len(files)], unit=-20 - c, lang=("cxx" if typ == "cxx" else "cc") if typ else "cc" if ext in "csS" else "cxx", type=typ)
            if rng.random() < .3:
                steps[h - 1]["over"] = [rng.choice(fins + extra + hand)]
            hand.append(h)
        for k in rng.sample(["link", "ar", "dynlib"], rng.choice([1, 1, 2])):
            extra.append(step(k, 300 + c, frm=hand, unit=-20 - c))
    globbed = {i + 1 for i, f in enumerate(files) if f["owner"] and next(u for u in units if u["name"] == f["owner"])["glob"][f["kind"]]}
    pb, pt = rng.choice([0, 0, .15, .3]), rng.choice([0, 0, .15, .3])
    gone = set()
    bad = set()
    def build():
        r = rng.random()
        every = fins + extra
        req = every if r < .5 else fins if r < .75 else [rng.choice(every)]
        broken = [rng.choice(["moc", "uic", "moc", "uic", "cc", "ar", "objcopy", "javac", "dx", "gen"])] if rng.random() < pt else []
        return dict(op="build", req=sorted(req), j=rng.choice([1, 1, 2, 4, 8]), broken=broken, name=rng.random() < .5)
    ops = [build()]
    for _ in range(rng.randint(2, 7)):
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            r = rng.random()
            f = rng.randint(1, len(files))
            if r < .12:
                ops.append(dict(op="lose", s=rng.randint(1, len(steps))))
            elif r < .2 and pb and f not in globbed:
                gone.add(f)
                ops.append(dict(op="delete", f=f))
            else:
                b = rng.random() < pb
                gone.discard(f)
                (bad.add if b else bad.discard)(f)
                ops.append(dict(op="edit", f=f, bad=b))
        ops.append(build())
        if rng.random() < .4:
            ops.append(dict(ops[-1], j=rng.choice([1, 4]), broken=[]))
    for f in sorted(gone | bad):
        ops.append(dict(op="edit", f=f, bad=False))
    last = dict(op="build", req=fins + extra, j=2, broken=[], name=True)
    ops += [last, dict(last, j=1)]
    return dict(files=files, units=units, steps=steps, ops=ops, final=final, out=rng.random() < .4, builddir=rng.choice(["", "", "b", "out/b"]), style=rng.randrange(1 << 30),
                slow=rng.choice([[], [], ["uic", "gen"], ["moc"], ["gcc", "g++"]]))


def generated(rep):
    env.load()
    rng = random.Random(rep.seed * 6700417 + 26)
    q = rep.quick
    cfg = "SPECIFICATION Spec\nCONSTANTS MAXOPS = %d ATOMIC = %s\nINVARIANT Right\nCHECK_DEADLOCK FALSE\n"
    rep.model("StepsMC", cfg % (4 if q else 5, "TRUE"), what="licant's rule with generated sources", timeout=280 if q else 3000)
    rep.model("StepsMC", cfg % (4, "FALSE"), expect=["Right"], what="a failing moc or uic leaves a new output behind")
    step_drv.tool()
    jobs = [rand_steps(rng) for _ in range(1200 if q else 20000)]
    jobs, res = rep.drive(step_drv.one, jobs, "histories", timeout=240, budget=240 if q else 6000)
    traces = [dict(files=r["files"], steps=r["steps"], ev=r["ev"]) for r in res]
    B = [e for t in traces for e in t["ev"] if e["e"] == "Build"]
    rep.events += sum(len(t["ev"]) for t in traces)
    rep.info.update(sessions=len(B), failed_sessions=sum(not e["ok"] for e in B), idle_sessions=sum(e["ok"] and not e["tried"] for e in B), steps_run=sum(len(e["tried"]) for e in B))
    rep.sample({"what": "history", "trace": traces[0]})
    settle(rep, jobs, traces, rep.judge("StepsTrace", traces, what="histories", chunk=3000), step_drv.one, "StepsTrace", "generated", patience=150)
