"""Trees of scripts of Scripts.tla, run by a real root script in a process of its own.

job: c, style, decl (whether to look at the paths of what the scripts declare)."""
import json, os, random, shutil, subprocess, sys
import env, fakecc

HEAD = "import licant\n_at, _start = licant.attribute('at'), licant.attribute('start')\n_start(%d)\n"
ROOT = r'''
import sys, os, json
sys.path.insert(0, %(repo)r)
import licant, licant.libs
assert os.path.realpath(licant.__file__).startswith(os.path.realpath(%(repo)r) + os.sep)
assert hasattr(licant.libs, "gpath")
licant.libs.gpath = %(gpath)r
_log = open(%(log)r, "a", buffering=1)
_cwd = os.getcwd()
def _where():
    return os.path.realpath(os.path.join(_cwd, licant.directory()))
_mods = []
def _start(f):
    _log.write(json.dumps(["Start", f, _where()]) + "\n")
def _at(f):
    _log.write(json.dumps(["At", f, _where()]) + "\n")
    if %(decl)r:
        n = "M%%d_%%d" %% (f, len(_mods))
        _mods.append(n)
        licant.module(n, include_paths=["I%%d" %% f])
licant.import_attribute("at", _at)
licant.import_attribute("start", _start)
_start(1)
%(body)s
_log.write(json.dumps(["Done", 0, ""]) + "\n")
if %(decl)r:
    os.chdir(_cwd)
    licant.cxx_objects("zz", sources=[%(zsrc)r], mdepends=_mods, toolchain=licant.gcc_toolchain(%(pre)r), builddir=%(zb)r)
    licant.ex("zz", argv=["zz"])
'''


def text(f, st, rng, root, reg):
    L = []
    for s in st:
        p = "/".join(s["p"]["p"])
        if s["p"]["abs"]:
            p = os.path.join(root, p)
        k = s["k"]
        if k == "at":
            L.append("_at(%d)" % f)
        elif k == "exec":
            L.append("licant.execute(%r)" % p)
        elif k == "raise":
            L.append("raise ValueError('no')")
        elif k == "rec":
            if s["hide"]:
                L.append("licant.execute_recursive(%r, %r, hide=%r)" % (p, s["pat"], s["hide"]) if rng.random() < .5
                         else "licant.execute_recursive(%r, %r, %r)" % (p, s["pat"], s["hide"]))
            else:
                L.append("licant.execute_recursive(%r, %r)" % (p, s["pat"]))
        elif not s["given"] and s["lib"] in reg and rng.random() < .3:      # by way of a link
            L.append("licant.include(%r, local_tunel=(%r, %r))" % (s["lib"], os.path.join(os.path.dirname(root), "tun", "nel", "l" + s["lib"]), reg[s["lib"]][-1]))
        else:
            L.append("licant.include(%r%s)" % (s["lib"], (", %r" % p if rng.random() < .5 else ", path=%r" % p) if s["given"] else ""))
    # scripts may define names of their own
    if rng.random() < .2:
        L.append("def here%d():\n    return %d" % (f, f))
    return "\n".join(L) + "\n"


def one(job):
    d = os.path.realpath(os.path.join(env.scratch(), "s%d_%d" % (os.getpid(), random.randrange(1 << 40))))
    root = os.path.join(d, "p")
    os.makedirs(root)
    c = job["c"]
    rng = random.Random(job["style"])
    try:
        pre, calls = fakecc.make(d)
        os.makedirs(os.path.join(d, "home"))
        for name, reg in (("home/.licant", c["user"]), ("global", c["system"])):
            if reg or rng.random() < .5:
                with open(os.path.join(d, name), "w") as h:
                    json.dump({r["lib"]: os.path.join(root, *r["path"]) for r in reg}, h)
        reg = {r["lib"]: r["path"] for r in c["system"] + c["user"]}
        if rng.random() < .2:
            os.makedirs(os.path.join(d, "tun", "nel"))
            for n, q in reg.items():
                if rng.random() < .5: os.symlink(os.path.join(root, *q[:-1]), os.path.join(d, "tun", "nel", "l" + n))
        log = os.path.join(d, "log")
        zsrc = os.path.join(d, "z.c")
        for f in (log, zsrc):
            open(f, "w").close()
        for k, f in enumerate(c["files"]):
            q = os.path.join(root, *f["dir"], f["name"])
            os.makedirs(os.path.dirname(q), exist_ok=True)
            t = text(k + 1, f["st"], rng, root, reg)
            if k == 0:
                t = ROOT % dict(repo=env.REPO, gpath=os.path.join(d, "global"), log=log, decl=job["decl"], body=t, zsrc=zsrc, pre=pre, zb=os.path.join(d, "zb"))
            else:
                t = HEAD % (k + 1) + t
            with open(q, "w") as h:
                h.write(t)
        rt = os.path.join(root, *c["files"][0]["dir"], c["files"][0]["name"])
        os.makedirs(os.path.join(d, "else", "where"))
        how = rng.choice(["own", "rel", "abs", "dot"])
        cwd = os.path.dirname(rt) if how in ("own", "dot") else os.path.join(d, "else", "where")
        arg = {"own": os.path.basename(rt), "dot": "./" + os.path.basename(rt), "rel": os.path.relpath(rt, cwd), "abs": rt}[how]
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": os.path.join(d, "home"), **env.caching()}
        try:
            p = subprocess.run([sys.executable, arg], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=job.get("patience", 40))
        except subprocess.TimeoutExpired:
            return {"c": c, "ev": [{"e": "Hang", "f": 0, "dir": [], "ok": False}]}
        if b"AssertionError" in p.stdout:
            return {"_error": p.stdout.decode(errors="replace")[-2000:]}
        ev, done = [], False
        with open(log) as h:
            for ln in h:
                k, f, w = json.loads(ln)
                if k == "Done":
                    done = True
                    continue
                ev.append({"e": k, "f": f, "dir": comps(w, root), "ok": True})
        ev.append({"e": "End", "f": 0, "dir": [], "ok": done})
        if done and job["decl"]:
            cs = [a for t, a in fakecc.calls(calls) if "-c" in a]
            if len(cs) != 1:
                return {"_error": "no compilation: " + p.stdout.decode(errors="replace")[-2000:]}
            for a in cs[0]:
                if a.startswith("-I"):
                    w = os.path.realpath(os.path.join(cwd, a[2:]))
                    ev.append({"e": "Decl", "f": int(os.path.basename(w)[1:]), "dir": comps(os.path.dirname(w), root), "ok": True})
            if len([x for x in ev if x["e"] == "Decl"]) != len([x for x in ev if x["e"] == "At"]):
                return {"_error": "declarations lost"}
        return {"c": c, "ev": ev}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def comps(p, root):
    r = os.path.relpath(p, root)
    return [] if r == "." else r.split("/")
