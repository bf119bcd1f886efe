"""Histories of Cxx.tla on a real application, compiled by the real gcc behind a recording script.

job: ns, files [{x, v, inc, bad}], names (paths), ops, style.  Files are numbered from 1."""
import os, random, re, shutil, time
import env, pool

WRAP = r'''#!/bin/sh
log="@LOG@/$$"
{ for a in "$@"; do printf 'arg %s\n' "$a"; done; } > "$log"
@REAL@ "$@"
rc=$?
printf 'rc %s\n' "$rc" >> "$log"
exit $rc
'''
PAUSE = .012        # file times advance in steps of 4 or 10 ms


def tools(d):
    b, c = os.path.join(d, "bin"), os.path.join(d, "calls")
    os.makedirs(b); os.makedirs(c)
    for t, real in (("gcc", "/usr/bin/gcc"), ("g++", "/usr/bin/g++"), ("ar", "/usr/bin/ar")):
        f = os.path.join(b, t)
        with open(f, "w") as h:
            h.write(WRAP.replace("@LOG@", c).replace("@REAL@", real))
        os.chmod(f, 0o755)
    return b + "/", c


def drain(c):
    out = []
    for f in os.listdir(c):
        with open(os.path.join(c, f)) as h:
            ln = h.read().split("\n")
        os.unlink(os.path.join(c, f))
        out.append(([x[4:] for x in ln if x.startswith("arg ")], [int(x[3:]) for x in ln if x.startswith("rc ")]))
    return out


TOK = re.compile(rb"@@(\d+):(\d+)@@")


def tokens(path):
    try:
        with open(path, "rb") as h:
            return sorted({(int(a), int(b)) for a, b in TOK.findall(h.read())}) or [(0, 1)]
    except FileNotFoundError:
        return [(0, 0)]


class Project:
    def __init__(self, job, d):
        self.job, self.d = job, d
        self.names = job["names"]
        self.pre, self.calls = tools(d)
        self.root = os.path.join(d, "p")
        os.makedirs(self.root)
        os.chdir(self.root)
        self.ns = job["ns"]
        self.style = random.Random(job["style"])
        for k, f in enumerate(job["files"]):
            self.write(k + 1, f)
        self.bin = {"static_library": "libx.a", "shared_library": "libx.so"}.get(job["kind"], "app")

    def path(self, f):
        return self.names[f - 1]["path"]

    def write(self, f, s):
        p = self.path(f)
        if not s["x"]:
            if os.path.exists(p):
                os.unlink(p)
            return
        if os.path.dirname(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        cxx = p.endswith((".cpp", ".cc", ".cxx"))
        L = ["#pragma once"] if f > self.ns else []
        for g in s["inc"]:
            L.append("#include %s" % self.ref(f, g))
        L.append('static const char t%d[] __attribute__((used)) = "@@%d:%d@@";' % (f, f, s["v"]))
        if f <= self.ns:
            L.append(('extern "C" ' if cxx else "") + "int %s(void) { return %d; }" % ("main" if f == 1 else "f%d" % f, f))
        if s["bad"] == "error":
            L.append("#error no")
        elif s["bad"] == "syntax":
            L.append("int (;")
        elif s["bad"] == "link":
            L.append(("extern \"C\" int nowhere(void);" if cxx and f <= self.ns else "int nowhere(void);") +
                     " static int (*p%d)(void) __attribute__((used)) = nowhere;" % f)
        with open(p, "w") as h:
            h.write("\n".join(L) + "\n")

    def ref(self, f, g):
        # by the include path, or relative to the including file
        n = self.names[g - 1]
        if n["dir"] is not None and (f + g + self.job["style"]) % 2:
            q = os.path.relpath(n["path"], n["dir"])
            return ("<%s>" if (f + g) % 2 else '"%s"') % q
        return '"%s"' % os.path.relpath(n["path"], os.path.dirname(self.path(f)) or ".")

    def declare(self, licant):
        tc = licant.gcc_toolchain(self.pre)
        kw = dict(toolchain=tc, debug="")
        if self.job["kind"] == "static_library":
            decl, req = licant.cxx_static_library, "libx.a"
        elif self.job["kind"] == "shared_library":
            decl, req = licant.cxx_shared_library, "libx.so"
            kw.update(cc_flags="-fPIC", cxx_flags="-fPIC")
        else:
            decl, req = licant.cxx_application, "app"
        inc = sorted({n["dir"] for n in self.names if n["dir"]})
        far = lambda q, k: os.path.abspath(q) if (self.job["style"] >> k) % 4 == 0 else q
        inc = [far(q, k) for k, q in enumerate(inc)]
        src = [far(self.path(s), 4 + s) for s in range(1, self.ns + 1)]
        cut = self.job["cut"]
        if cut:
            licant.module("part", sources=src[-cut:])
            src = src[:-cut]
            kw["include_modules" if self.job["how"] == "incl" else "mdepends"] = ["part"]
            if self.job["how"] == "sub":
                kw.pop("mdepends")
                kw["modules"] = [licant.submodule("part")]
        decl(req, sources=src, include_paths=inc, **kw)
        return req

    def build(self, j):
        import licant, licant.cli

        def run():
            req = self.declare(licant)
            try:
                licant.ex(req, argv=[req, "-j%d" % j])
            except SystemExit as x:
                return {"ok": x.code in (0, None)}
            return {"ok": True}
        r = pool.forked(run, timeout=self.job.get("patience", 40), quiet=True)
        if "_timeout" in r:
            return {"e": "Hang"}
        e = dict(e="Build", ok=bool(r.get("ok")), tried=[], done=[], ltried=False, linked=False)
        if "ok" not in r:
            e["raised"] = str(r)[:500]
        where = {os.path.abspath(self.path(s)): s for s in range(1, self.ns + 1)}
        self.objs = getattr(self, "objs", {})
        self.deps = getattr(self, "deps", {})
        for args, rc in drain(self.calls):
            ok = rc == [0]
            if "-c" in args:
                s = where[os.path.abspath(args[args.index("-c") + 1])]
                self.objs[s] = args[args.index("-o") + 1]
                e["tried"].append(s)
                if ok:
                    e["done"].append(s)
            elif args[0] != "-MM":
                e["ltried"] = True
                e["linked"] = e["linked"] or ok
        e["tried"].sort(); e["done"].sort()
        e["obj"] = [tokens(self.objs[s]) if s in self.objs else [(0, 0)] for s in range(1, self.ns + 1)]
        e["bin"] = tokens(self.bin)
        return e


def find_deps(root):
    return [os.path.join(b, f) for b, _, fs in os.walk(os.path.join(root, "build")) for f in fs if f.endswith(".d")]


def body(job, d):
    import licant
    P = Project(job, d)
    files = [dict(f, e="Set") for f in job["files"]]
    ev = []
    time.sleep(PAUSE)
    for op in job["ops"]:
        k = op["op"]
        if k == "build":
            e = P.build(op.get("j", 1))
            ev.append(e)
            if e["e"] == "Hang":
                break
            time.sleep(PAUSE)
            continue
        f = op["f"]
        if k in ("edit", "delete", "touch"):
            new = dict(files[f - 1], f=f, e="Set")
            if k == "touch":
                if not new["x"]:
                    continue
                os.utime(P.path(f))
            else:
                new["v"] += 1
                if k == "edit":
                    new.update(x=True, inc=op["inc"], bad=op["bad"])
                else:
                    if not new["x"]:
                        continue
                    new.update(x=False, inc=[], bad="")
                P.write(f, new)
            files[f - 1] = new
            ev.append(new)
        elif k == "rmobj":
            o = getattr(P, "objs", {}).get(f)
            if o and os.path.exists(o):
                os.unlink(o)
                ev.append(dict(e="RmObj", f=f))
        elif k == "rmdep":
            # the dependency file lies beside the object, whatever its exact name
            o = getattr(P, "objs", {}).get(f)
            if o:
                b = os.path.splitext(os.path.abspath(o))[0] + ".d"
                if os.path.exists(b):
                    os.unlink(b)
                    ev.append(dict(e="RmDep", f=f))
        elif k == "rmbin":
            if os.path.exists(getattr(P, "bin", "none")):
                os.unlink(P.bin)
                ev.append(dict(e="RmBin", f=0))
        time.sleep(PAUSE)
    return {"ev": ev}


def one(job):
    d = os.path.join(env.scratch(), "x%d_%d" % (os.getpid(), random.randrange(1 << 40)))
    os.makedirs(d)
    try:
        r = pool.forked(lambda: body(job, d), timeout=200, quiet=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if "ev" not in r:
        return r
    return {"ns": job["ns"], "files": job["files"], "ev": r["ev"]}
