"""Histories of installations (Install.tla): sessions of a real script, edits between them.

job: c, prefix (how PREFIX is given), style, steps: list of
 {e: Write, p, c} | {e: Drop, p} | {e: Hand, how, seed} | {e: Session, reqs: [[k, s]], how, seed}"""
import json, os, random, shutil, subprocess, sys, time
import env

SCRIPT = r'''
import sys, os, json
sys.path.insert(0, %(repo)r)
import licant, licant.install as I
from licant.core import default_core
assert os.path.realpath(licant.__file__).startswith(os.path.realpath(%(repo)r) + os.sep)
for tgt, src in %(built)r:
    licant.source(src)
    licant.makefile(tgt=tgt, deps=[src], do="cp %%s %%s" %% (src, tgt))
names = []
for f, a, k in %(calls)r:
    r = getattr(I, f)(*a, **k)
    names.append(r[0] if f == "install_headers" else r)
reqs = %(reqs)r
un = %(un)r
if %(wrap)r:        # asked for by way of another set
    names = [licant.fileset(tgt="whole%%d" %% k, targets=[n]) for k, n in enumerate(names)]
if %(cli)r:
    licant.ex(names[%(default)d])
else:
    for k, s in reqs:
        sys.stdin.readline()
        r = default_core().get(names[s] if k == "install" else un[s]).invoke("makefile")
        print("@@", r is not False, flush=True)
'''


def walk(root):
    for d, ds, fs in os.walk(root):
        for f in fs:
            q = os.path.join(d, f)
            if not os.path.islink(q):
                yield q


def look(root, dirs=("p", "prefix")):
    S = {}
    for x in dirs:
        for q in walk(os.path.join(root, x)):
            st = os.stat(q)
            with open(q) as h:
                S[q] = (h.read(), st.st_mtime_ns, st.st_ctime_ns, st.st_ino)
    return S


def one(job):
    d = os.path.realpath(os.path.join(env.scratch(), "i%d_%d" % (os.getpid(), random.randrange(1 << 40))))
    os.makedirs(os.path.join(d, "p"))
    try:
        return go(job, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def name(s, k, given):
    """What the set is called."""
    if s["kind"] == "library": return "in%d" % k
    if s["kind"] == "application" and not s["own"]: return "app%d" % k
    return os.path.join(given, "bin" if s["kind"] == "application" else "lib", *s["root"])


def go(job, d):
    c, rng = job["c"], random.Random(job["style"])
    P = os.path.join(d, "p")
    src = lambda q: os.path.join(P, *q)
    comps = lambda q: os.path.relpath(q, d).split("/") if not q.startswith(P + "/") else os.path.relpath(q, P).split("/")

    def write(q, text):
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "w") as h:
            h.write(text)
        t = max([x[1] for x in look(d).values()] + [time.time_ns()]) + 1000000
        os.utime(q, ns=(t, t))
    pre = os.path.join(d, "prefix")
    how = job["prefix"]
    if how == "link":
        os.makedirs(pre)
        os.symlink(pre, os.path.join(d, "link"))
    elif how == "there":
        os.makedirs(os.path.join(pre, "include"))
        os.makedirs(os.path.join(pre, "lib", "sub"))
    given = {"abs": pre, "slash": pre + "/", "link": os.path.join(d, "link"), "rel": "../prefix", "there": pre}[how]

    def path(q):
        s = "/".join(q)
        r = rng.random()
        return s if r < .6 else "./" + s if r < .75 else os.path.join(P, s) if r < .9 else q[0] + "/../" + s if len(q) > 1 else s
    calls, un = [], []
    for k, s in enumerate(c["sets"]):
        u = None
        if s["kind"] == "library":
            u = "un%d" % k
            kw = dict(hroot="/".join(s["root"]), headers=path(s["dir"]) + rng.choice(["", "", "/"]), uninstall=u)
            if s["pats"] != ["*.h", "*.hxx", "*.hpp"] or rng.random() < .3:
                kw["headers_patterns"] = rng.choice([list, tuple])(s["pats"])
            if s["libs"]:
                L = [path(x) for x in s["libs"]]
                kw["libtgt"] = L[0] if len(L) == 1 and rng.random() < .7 else L
            calls.append(("install_library", ("in%d" % k,), kw))
        elif s["kind"] == "headers":
            kw = {}
            if s["pats"] != ["*.h", "*.hxx"] or rng.random() < .3:
                kw["patterns"] = rng.choice([list, tuple])(s["pats"])
            if s["libs"]:
                kw["adddeps"] = [path(x) for x in s["libs"]]
            calls.append(("install_headers", ("/".join(s["root"]), path(s["dir"])), kw))
        elif s["kind"] == "application":
            calls.append(("install_application", (path(s["src"]), "/".join(s["root"])), {} if s["own"] else {"tgt": "app%d" % k}))
        else:
            calls.append(("install_shared_library", (path(s["src"]),) + (() if s["root"] == s["src"][-1:] and rng.random() < .6 else ("/".join(s["root"]),)), {}))
        un.append(u)
    ev = []
    for step in job["steps"]:
        e = step["e"]
        if e == "Write":
            write(src(step["p"]), step["c"])
        elif e == "Drop":
            if os.path.exists(src(step["p"])): os.remove(src(step["p"]))
        elif e == "Hand":
            r = random.Random(step["seed"])
            have = sorted(walk(pre))
            if step["how"] == "own":
                write(os.path.join(pre, *r.choice([["include", "own.h"], ["lib", "own.so"], ["bin", "own"], ["include", "r", "mine.h"], ["other"]])), "own%d" % r.randrange(9))
            elif step["how"] == "nodir":
                shutil.rmtree(os.path.join(pre, r.choice(["include", "lib", "bin"])), ignore_errors=True)
            elif have:
                q = r.choice(have)
                os.remove(q) if step["how"] == "drop" else write(q, "hand%d" % r.randrange(9))
        else:
            r = random.Random(step["seed"])
            requests = [[k, s] for k, s in step["reqs"]]
            cli = step["how"] == "cli"
            wrap = step["seed"] % 3 == 0
            flags = r.choice([[], [], ["-j%d" % r.choice([1, 3, 8])], ["-q"], ["-d"]])
            pend = requests if not cli else requests[:1]
            # every request of a session is looked at on its own
            text = SCRIPT % dict(repo=env.REPO, built=[[path(b["tgt"]), path(b["src"])] for b in c["built"]], calls=calls, reqs=pend, un=un, cli=cli, wrap=wrap, default=pend[0][1])
            main = os.path.join(d, "make.py")
            with open(main, "w") as h:
                h.write(text)
            E = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": d, "PREFIX": given, **env.caching()}
            kw = dict(cwd=P, env=E, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            args = []
            if cli:
                k, s = pend[0]
                args = flags + ([un[s]] if k == "uninstall" else ["whole%d" % s] if wrap and r.random() < .5 else [] if c["sets"][s]["kind"] == "headers" or r.random() < .3 else [name(c["sets"][s], s, given)])
                if r.random() < .3: args.reverse()
            p = subprocess.Popen([sys.executable, main] + args, stdin=subprocess.PIPE, **kw)
            try:
                for k, s in pend:
                    S = look(d)
                    if cli:
                        out, _ = p.communicate(timeout=job.get("patience", 40))
                        ok = p.returncode == 0
                    else:
                        ok, out = None, ""
                        try:
                            p.stdin.write("\n"); p.stdin.flush()
                        except BrokenPipeError:
                            ok = False
                        while ok is None:
                            ln = p.stdout.readline()
                            out += ln
                            if ln.startswith("@@"):
                                ok = "True" in ln
                            elif not ln:
                                ok = False
                    if "AssertionError" in out:
                        return {"_error": out[-2000:]}
                    T = look(d)
                    rank = {t: n for n, t in enumerate(sorted({x[1] for x in S.values()}), 1)}
                    ev.append({"e": "Req", "k": k, "s": s + 1, "ok": ok,
                               "pre": [{"p": comps(q), "c": x[0], "t": rank[x[1]]} for q, x in sorted(S.items())],
                               "post": [{"p": comps(q), "c": x[0], "t": 0} for q, x in sorted(T.items())],
                               "touched": [comps(q) for q, x in sorted(T.items()) if S.get(q) != x]})
                    if not ok:
                        break
            except subprocess.TimeoutExpired:
                ev.append({"e": "Hang"})
            finally:
                p.kill()
                p.communicate()
    return {"c": c, "ev": ev}
