"""Runs histories of Build.tla on real licant projects in a scratch directory and records them.

job: p (project), h (operations), api ("core" | "make"), req ("invoke" | "cli"), build[t]
("py" | "sh" | "cp" | "touch"), weird (file names), order (declaration order), spell (seed of path spellings
or None), flags (options), workers, seed, twin (job of the second run or None)."""
import json, os, pathlib, random, shutil, stat, sys, threading, time
import env, pool

WEIRD = ["plain", "with space", "semi;colon", "dollar$(HOME)", "quo'te", 'dq"uote', "amp&er", "back`tick`",
         "tab\tx", "-dash", "hash#", "brace{x}", "par(en)", "ünïcode", "q?mark", "pipe|x", "a>b", "new\nline", "{}", "%s",
         "back\\slash", "~tilde", "!bang", "[abc]"]


# the same command, as users write it
FORMS = ["%s", "%s && true", "( %s )", "if %s; then true; else exit 3; fi", "true && %s", "false || %s", "x=1; %s",
         "%s || exit $?", "cd . && %s", "true | cat; %s", "%s; r=$?; exit $r", "set -e; %s"]


class Hist:
    def __init__(self, job, base):
        self.job, self.p = job, job["p"]
        self.base = base
        self.w = os.path.join(base, "w")
        self.ctl = os.path.join(base, "ctl")
        os.makedirs(self.ctl)
        os.makedirs(os.path.join(self.w, "src"))
        os.makedirs(os.path.join(self.w, "out0"))
        os.symlink("w", os.path.join(base, "wlink"))
        self.logf = os.path.join(self.ctl, "log")
        open(self.logf, "w").close()
        self.rng = random.Random(job.get("seed", 0))
        p = self.p
        n = p["n"]
        self.dirs = [None]
        for d in range(1, p["nd"] + 1):
            nm = self.fname("d%d" % d, d + 100)
            self.dirs.append(os.path.join(self.dirs[p["parent"][d - 1]] if p["parent"][d - 1] else "", nm))
        self.path = [None] * n
        for t in range(n):
            k = p["kind"][t]
            if k == "src":
                sub = "src"
                ext = ".in"
                if any(t + 1 in g for g in p["glob"]):
                    ext = ".g%d" % (1 + next(i for i, g in enumerate(p["glob"]) if t + 1 in g))
                self.path[t] = os.path.join(sub, p["name"][t] + ext if ext != ".in" else self.fname(p["name"][t], t) + ext)
            elif k == "gen":
                d = p["dir"][t]
                self.path[t] = os.path.join(self.dirs[d] if d else "out0", self.fname(p["name"][t], t))
            elif k == "dir":
                self.path[t] = self.dirs[p["dir"][t]]
            else:
                self.path[t] = p["name"][t]
        self.real = any(b != "py" for b in job["build"])
        self.cond = list(p["cond"])
        self.exists = {}
        # times: logical ones are well in the past, far older than any directory
        self.t0 = 1_000_000_000 * 1_000_000_000
        self.clock = self.t0
        self.step = 10_000_000
        # some sources are symbolic links to files elsewhere
        self.links = {t for t in range(n) if p["kind"][t] == "src" and job.get("symsrc") and
                      (t * 2654435761 + job["symsrc"]) % 3 == 0}
        os.makedirs(os.path.join(base, "store"))
        for t in range(n):
            if p["kind"][t] == "src" and p["exists"][t]:
                self.write(t, p["name"][t] + ".0;", self.t0)
        for a in ("alien.txt", "src/alien.h", "out0/alien.o"):
            with open(os.path.join(self.w, a), "w") as f:
                f.write(a)
            os.utime(os.path.join(self.w, a), ns=(self.t0, self.t0))
        self.alien = self.aliens()
        self.ver = 0
        self.failspec = []
        self.sess = None

    def fname(self, base, k):
        if not self.job.get("weird"):
            return base
        w = WEIRD[(k * 7 + self.job["weird"]) % len(WEIRD)]
        return w + base

    def abs(self, t):
        return os.path.join(self.w, self.path[t])

    def write(self, t, text, tm):
        if t in self.links and not os.path.lexists(self.abs(t)):
            os.symlink(os.path.join(self.base, "store", "s%d" % t), self.abs(t))
        with open(self.abs(t), "w") as f:
            f.write(text)
        if tm:
            os.utime(self.abs(t), ns=(tm, tm))

    def log(self, **e):
        data = (json.dumps(e) + "\n").encode()
        fd = os.open(self.logf, os.O_WRONLY | os.O_APPEND)
        os.write(fd, data)
        os.close(fd)

    def known(self):
        return {self.path[t] for t in range(self.p["n"]) if self.p["kind"][t] in ("src", "gen")}

    def aliens(self):
        known = self.known()
        out = {}
        for d, ds, fs in os.walk(self.w):
            for f in fs:
                q = os.path.join(d, f)
                r = os.path.relpath(q, self.w)
                if r not in known:
                    st = os.lstat(q)
                    out[r] = [st.st_mtime_ns, st.st_size, open(q, errors="replace").read() if stat.S_ISREG(st.st_mode) else "link"]
            for x in ds:
                r = os.path.relpath(os.path.join(d, x), self.w)
                if r not in self.dirs and r not in ("src", "out0"):
                    out[r] = "dir"
        return out

    def tree(self):
        p = self.p
        fs, tm = [], []
        for t in range(p["n"]):
            c, m = "", 0
            if p["kind"][t] in ("src", "gen"):
                try:
                    st = os.stat(self.abs(t)) if t in self.links else os.lstat(self.abs(t))
                    if t in self.links and not os.path.islink(self.abs(t)):
                        raise FileNotFoundError
                    c = open(self.abs(t), errors="replace").read() if stat.S_ISREG(st.st_mode) else "not a file"
                    c = c or "empty"
                    m = st.st_mtime_ns
                except (FileNotFoundError, NotADirectoryError):
                    pass
            fs.append(c); tm.append(m)
        al = self.aliens()
        diff = ""
        if al != self.alien:
            ks = [k for k in set(al) | set(self.alien) if al.get(k) != self.alien.get(k)]
            diff = "changed: " + ", ".join(sorted(ks))
            self.alien = al
        return dict(file=fs, time=tm, alien=diff,
                    dirs=[os.path.isdir(os.path.join(self.w, d)) for d in self.dirs[1:]])

    # ---------------------------------------------------------------- times
    def tick(self, strict):
        """A time for an edit: now (real) or the next logical one."""
        m = max([0] + [os.stat(self.abs(t)).st_mtime_ns for t in range(self.p["n"])
                       if self.p["kind"][t] in ("src", "gen") and os.path.exists(self.abs(t))])
        if self.real:
            if strict:
                while time.time_ns() <= m + 4_000_000:
                    time.sleep(0.004)
                return time.time_ns()
            return m
        return m + (self.step if strict else 0)

    # ------------------------------------------------------- between and in sessions
    def outside(self, o):
        """An operation of the user on files; returns the nodes/dirs concerned."""
        p, k = self.p, o["o"]
        if k == "Edit":
            self.ver += 1
            t = o["t"] - 1
            tm = self.tick(o.get("dt", 1) == 1)
            self.write(t, "%s.%d;" % (p["name"][t], self.ver), tm)
            self.log(e="Edit", t=o["t"], tm=os.stat(self.abs(t)).st_mtime_ns)
            return [self.abs(t)]
        if k == "Touch":
            t = o["t"] - 1
            if not os.path.exists(self.abs(t)):
                return []
            tm = self.tick(o.get("dt", 1) == 1)
            os.utime(self.abs(t), ns=(tm, tm))
            self.log(e="Touch", t=o["t"], tm=tm)
            return [self.abs(t)]
        if k == "Delete":
            t = o["t"] - 1
            if os.path.exists(self.abs(t)):
                if t in self.links:
                    os.unlink(os.path.realpath(self.abs(t)))
                os.unlink(self.abs(t))
                self.log(e="Delete", t=o["t"])
            return [self.abs(t)]
        if k == "RmDir":
            d = os.path.join(self.w, self.dirs[o["d"]])
            if self.sess is not None and any(x == d or x.startswith(d + os.sep) for x in self.sess):
                return []       # it was there when the session's targets were declared
            hit = [d]
            if os.path.isdir(d):
                for a, ds, fs in os.walk(d):
                    hit += [os.path.join(a, x) for x in ds + fs]
                shutil.rmtree(d)
                self.log(e="RmDir", d=o["d"])
                self.alien = self.aliens()
            return hit
        if k == "Toggle":
            self.cond[o["t"] - 1] = not self.cond[o["t"] - 1]
            self.log(e="Toggle", t=o["t"])
            return []
        raise ValueError(k)

    # ---------------------------------------------------------------- a session
    def spelled(self, t):
        r = self.path[t]
        if self.p["kind"][t] not in ("src", "gen", "dir") or self.job.get("spell") is None:
            return r
        d, b = os.path.split(r)
        forms = [r, "./" + r, os.path.join(self.w, r), "src/../" + r, "out0/./../" + r,
                 os.path.join(self.base, "wlink", r), os.path.join("..", "w", r), os.path.join("..", "wlink", r),
                 self.w + "//" + r, os.path.join(d, ".", b) if d else r]
        return self.srng.choice(forms)

    def session(self, ops):
        """Runs in a forked child."""
        os.environ["HOME"] = self.w
        os.chdir(self.w)
        sys.stdin.close()
        import licant, licant.core, licant.make
        job, p = self.job, self.p
        self.srng = random.Random(job.get("spell") or 0)
        self.licant = licant
        self.lock = threading.RLock()
        self.core = licant.MakeCore() if job["api"] == "make" else licant.default_core()
        self.other = licant.Core()
        self.killat = None
        self.nacts = 0
        self.cpstat = {}
        self.lists = {}
        fl = job.get("flags") or []
        if job["req"] == "invoke":
            rt = self.core.runtime
            rt["threads"] = job.get("workers", 1)
            rt["quite"] = "-q" in fl
            rt["debug"] = "-d" in fl
            rt["trace"] = "-t" in fl
        self.broken = False
        self.sess = [os.path.join(self.w, d) for d in self.dirs[1:] if os.path.isdir(os.path.join(self.w, d))]
        self.log(e="Session")
        try:
            self.declare([t for t in job["order"] if not p["late"][t - 1]], p["deps0"])
        except BaseException as x:
            self.broken = True
            sys.stderr.write("declaration: %r\n" % x)
        for o in ops:
            k = o["o"]
            if k == "Build":
                self.build(o)
            elif k == "Clean":
                self.clean(o)
            elif k == "Declare":
                try:
                    self.declare([o["t"]], p["deps"])
                except BaseException:
                    self.broken = True
                self.log(e="Declare", t=o["t"])
            else:
                for q in self.outside(o):
                    if self.core.has(q):
                        tg = self.core.get(q)
                        if hasattr(tg, "update_info"):
                            tg.update_info()
        self.log(e="EndSession")
        return True

    def declare(self, order, deps):
        """Declare targets in the given order; wildcards are expanded now."""
        p, job = self.p, self.job
        L, core = self.licant, self.core
        make = job["api"] == "make"
        drng = random.Random(job["seed"] + len(order))
        for t1 in order:
            t = t1 - 1
            k = p["kind"][t]
            tgt = self.spelled(t)
            dl = [self.spelled(u - 1) for u in deps[t]]
            if job.get("dup") and dl:
                dl = dl + [self.spelled(deps[t][0] - 1)]
            gl = [u for u in p["glob"][t] if os.path.exists(self.abs(u - 1))]
            if p["glob"][t]:
                # the wildcard matches exactly the sources made for this node
                dl.append(os.path.join("src", "*.g%d" % t1))
                if make:
                    for u in gl:
                        core.source(self.path[u - 1])
            reads = list(deps[t]) + gl
            if job["seed"] % 2:
                # scripts like to name a list of dependencies once
                dl = self.lists.setdefault((make, tuple(dl)), dl)
            elif job["seed"] % 3 == 0:
                # ... or to pass the targets themselves
                dl = [core.get(x) if (i or job["build"][t] != "cp") and drng.random() < .4 and "*" not in x and core.has(x) else x
                      for i, x in enumerate(dl)]
            full = tgt
            if make and k in ("src", "gen") and drng.random() < .3:
                r = os.path.relpath(os.path.join(self.w, tgt), self.w)
                full = pathlib.Path(tgt) if drng.random() < .5 or r.startswith("..") else "~/" + r
            if k == "src":
                if os.path.exists(self.abs(t)):
                    if make:
                        core.source(full)
                    elif job.get("srcdecl", True) or not self.used(t1):
                        L.source(tgt)
            elif k == "set":
                if make:
                    core.add(L.make.MakeFileTarget(tgt=tgt, deps=dl))
                else:
                    cut = drng.randint(0, len(dl)) if drng.random() < .4 else len(dl)
                    L.fileset(tgt, dl[:cut], **({"deps": dl[cut:]} if cut < len(dl) else {}))
            elif k == "upd":
                core.updtarget(tgt, deps=dl, update=lambda s, t=t1: self.act(t, None),
                               update_if=lambda s, t=t: self.cond[t])
            elif k == "dir":
                if make:
                    core.makedir(tgt, deps=core.dirkeep(tgt))
                else:
                    L.makedir(tgt)
            else:
                b = job["build"][t]
                kw = {"force": True} if p["force"][t] else {}
                if b == "touch" and make:
                    core.touch(full, content=p["name"][t] + "()")
                    self.cpstat[t1] = self.cpsig(t1)
                elif b == "cp":
                    if make:
                        core.copy(dl[0], full, deps=dl[1:])
                    else:
                        L.copy(tgt, dl[0], adddeps=dl[1:])
                    self.cpstat[t1] = self.cpsig(t1)
                elif b == "sh":
                    files = self.flat(reads, deps)
                    rule = "sh %s/act.sh %d %s %s %s" % (self.ctl, t1, p["name"][t] if not p["copy"][t] else "-",
                                                         self.abs(t), " ".join(self.abs(u - 1) for u in files))
                    rule = FORMS[(t1 * 31 + job["seed"]) % len(FORMS)] % rule
                    if make and not p["force"][t]:
                        core.ftarget(full, exec=rule, **({"deps": dl} if dl else {}))
                    elif make:
                        core.add(L.FileTarget(tgt=tgt, build=L.Executor(rule), deps=dl + core.dirkeep(tgt), use_dirkeep=False, **kw))
                    else:
                        L.makefile(tgt, dl, rule, **kw)
                else:
                    fn = lambda s, t=t1, r=tuple(reads), d=deps: self.act(t, self.flat(r, d))
                    if make and not p["force"][t]:
                        core.ftarget(full, build=fn, **({"deps": dl} if dl else {}))
                    elif make:
                        core.add(L.FileTarget(tgt=tgt, build=fn, deps=dl + core.dirkeep(tgt), use_dirkeep=False, **kw))
                    else:
                        core.add(L.FileTarget(tgt=tgt, build=fn, deps=dl, **kw))
        if self.job.get("decoys") and not getattr(self, "decoyed", False):
            self.decoyed = True
            srcs = [self.path[t] for t in range(p["n"]) if p["kind"][t] == "src" and os.path.exists(self.abs(t))][:1]
            def other(s=None):
                self.log(e="Other")
                return True
            for c, nm in ((core, "out0/decoy1"), (self.other, "out0/decoy2")):
                if c is self.other:
                    c.runtime["threads"] = 1
                    for x in srcs:
                        tg = L.FileTarget(tgt=x, build=lambda s: True, deps=[], use_dirkeep=False)
                        c.add(tg)
                c.add(L.FileTarget(tgt=nm, build=other, deps=list(srcs), use_dirkeep=False))
                c.updtarget("decoyupd", deps=[nm], update=other, update_if=lambda s: True)

    def used(self, t1):
        return any(t1 in d for d in self.p["deps0"]) or any(t1 in d for d in self.p["glob"])

    def flat(self, q, deps):
        """The files an action reads (guidance for the builder; TLC has its own)."""
        out = []
        for u in q:
            k = self.p["kind"][u - 1]
            if k in ("src", "gen"):
                out.append(u)
            elif k == "set":
                out += self.flat(self.setdeps(u, deps), deps)
        return out

    def setdeps(self, u, deps):
        return deps[u - 1]

    def cpsig(self, t1):
        try:
            st = os.stat(self.abs(t1 - 1))
            return [st.st_mtime_ns, st.st_ino, st.st_ctime_ns]
        except OSError:
            return None

    def flush_copies(self, failed=()):
        for t1 in sorted(self.cpstat):
            g = self.cpsig(t1)
            if g != self.cpstat[t1]:
                self.cpstat[t1] = g
                if g is not None:
                    self.log(e="Act", t=t1, out="ok", dirok=True, tm=g[0], cp=True)

    def act(self, t1, reads):
        """The action of a target, as one indivisible step."""
        p, t = self.p, t1 - 1
        with self.lock:
            self.flush_copies()
            self.nacts += 1
            if self.killat is not None and self.nacts == self.killat + 1:
                os._exit(9)
            dirok = True
            out = "ok"
            path = self.abs(t)
            if p["kind"][t] == "gen":
                dirok = os.path.isdir(os.path.dirname(path))
            tm = 0
            texts = []
            for u in reads or []:
                try:
                    texts.append(open(self.abs(u - 1)).read())
                except OSError:
                    out = "fail"
            if t1 in self.fails:
                out = "fail"
            if out == "ok" and p["kind"][t] == "gen":
                tm = 0 if self.real else self.tick(False) + (
                    self.step if self.job.get("strict") else self.rng.choice([0, self.step]))
                text = "".join(texts)
                try:
                    self.write(t, text if p["copy"][t] else p["name"][t] + "(" + text + ")", tm)
                    tm = os.stat(path).st_mtime_ns
                except OSError:
                    out = "fail"
                    tm = 0
            self.log(e="Act", t=t1, out=out, dirok=dirok, tm=tm)
            if self.killat is not None and self.nacts == self.killat and self.job.get("killafter"):
                os._exit(9)
            if out == "ok":
                return self.rng.choice([None, True, "text"])
            if self.rng.random() < 0.5:
                raise RuntimeError("action failed")
            return False

    def request(self, t1, action=None):
        t = t1 - 1
        name = self.spelled(t)
        if self.broken:
            return "error"
        try:
            if self.job["req"] == "cli":
                argv = list(self.job.get("flags") or [])
                if not any(a.startswith("-j") for a in argv):
                    argv += ["-j", str(self.job.get("workers", 1))]
                default = None
                if action is None and self.rng.random() < 0.3:
                    default = name
                elif action == "clean" and self.rng.random() < 0.3:
                    default = name
                    argv += ["clean"]
                else:
                    argv += [name] + ([action] if action else [])
                self.licant.ex(default, argv=argv, core=self.core)
                return "true"
            tg = self.core.get(name)
            act = action or tg.default_action
            if action is None and self.rng.random() < .2:
                act = "recurse_update"
            r = tg.invoke(act)
            return "false" if r is False else "true"
        except SystemExit as e:
            return "true" if e.code in (0, None) else "false"
        except BaseException as x:
            sys.stderr.write("request: %r\n" % x)
            return "error"

    def build(self, o):
        self.fails = set(o.get("fails", []))
        f = os.path.join(self.ctl, "fails")
        with open(f, "w") as fh:
            fh.write("".join(" %d " % t for t in self.fails))
        self.nacts = 0
        self.killat = o.get("kill")
        for t1 in self.cpstat:
            self.cpstat[t1] = self.cpsig(t1)
        self.log(e="Build", t=o["t"])
        if self.real:
            time.sleep(0.009)
        r = self.request(o["t"])
        self.flush_copies()
        self.killat = None
        self.log(e="End", res=r, cli=self.job["req"] == "cli", tree=self.tree())

    def clean(self, o):
        self.fails = set()
        for t1 in self.cpstat:
            self.cpstat[t1] = self.cpsig(t1)
        self.log(e="Clean", t=o["t"])
        r = self.request(o["t"], "clean")
        if r == "false" and self.job["req"] == "invoke":
            r = "true"
        if r == "false":
            r = "error"
        self.flush_copies()
        self.log(e="CleanEnd", res=r, tree=self.tree())

    # ---------------------------------------------------------------- everything
    def run(self):
        ops = self.job["h"]
        with open(os.path.join(self.ctl, "act.sh"), "w") as f:
            f.write(ACT_SH)
        i = 0
        while i < len(ops):
            o = ops[i]
            if o["o"] != "Session":
                self.outside(o)
                i += 1
                continue
            seg = []
            i += 1
            kill = False
            while i < len(ops) and ops[i]["o"] not in ("EndSession", "Kill"):
                seg.append(ops[i])
                i += 1
            if i < len(ops):
                if ops[i]["o"] == "Kill":
                    kill = True
                    seg[-1] = dict(seg[-1], kill=ops[i]["after"])
                i += 1
            before = len(open(self.logf).read())
            r = pool.forked(lambda: self.session(seg), timeout=self.job.get("patience", 40), quiet=True)
            if isinstance(r, dict) and "_timeout" in r:
                self.log(e="Hang")
                break
            if isinstance(r, dict) and "_error" in r:
                return r
            # what the child changed of our picture
            lines = [json.loads(x) for x in open(self.logf).read()[before:].splitlines()]
            for x in lines:
                if x["e"] == "Toggle":
                    self.cond[x["t"] - 1] = not self.cond[x["t"] - 1]
                if x["e"] == "Edit":
                    self.ver += 1
            self.alien = self.aliens_after(lines)
            if isinstance(r, dict):          # died
                self.log(e="Killed", tree=self.tree())
        ev = [json.loads(x) for x in open(self.logf).read().splitlines()]
        return ev

    def aliens_after(self, lines):
        if any(x["e"] in ("End", "CleanEnd") for x in lines):
            return self.aliens()
        return self.alien


ACT_SH = r'''
# the action of a command-built node: act.sh NODE NAME OUT DEPS...
ctl=$(dirname "$0"); t=$1; name=$2; out=$3; shift 3
dirok=false; [ -d "$(dirname "$out")" ] && dirok=true
ok=1
grep -q " $t " "$ctl/fails" && ok=0
for d in "$@"; do [ -e "$d" ] || ok=0; done
if [ $ok = 1 ]; then
  if [ "$name" = - ]; then cat "$@" > "$out" || ok=0
  else { printf '%s(' "$name"; [ $# = 0 ] || cat "$@"; printf ')'; } > "$out" || ok=0; fi
fi
if [ $ok = 1 ]; then
  tm=$(stat -c '%.9Y' "$out" | tr -d .)
  echo "{\"e\": \"Act\", \"t\": $t, \"out\": \"ok\", \"dirok\": $dirok, \"tm\": $tm}" >> "$ctl/log"
  exit 0
fi
echo "{\"e\": \"Act\", \"t\": $t, \"out\": \"fail\", \"dirok\": $dirok, \"tm\": 0}" >> "$ctl/log"
exit $((t % 7 + 1))
'''


def place_copies(p, evs):
    """A copy made by licant's own command is noticed late: it goes where its time says, a tie
    being broken in favour of the order of the dependencies."""
    below = {}
    for t in range(1, p["n"] + 1):
        s, todo = set(), list(p["deps"][t - 1])
        while todo:
            u = todo.pop()
            if u not in s:
                s.add(u)
                todo += p["deps"][u - 1]
        below[t] = s
    out, i = [], 0
    while i < len(evs):
        j = i
        while j < len(evs) and evs[j]["e"] == "Act":
            j += 1
        acts = [x for x in evs[i:j] if not x.get("cp")]
        # a file seen while it was being written is seen again
        cps = {x["t"]: x for x in evs[i:j] if x.get("cp")}
        for c in sorted(cps.values(), key=lambda x: (x["tm"], x["t"])):
            k = 0
            while k < len(acts):
                x = acts[k]
                if (x["tm"] > c["tm"] or x["tm"] in (0, c["tm"]) and c["t"] in below[x["t"]]):
                    break
                k += 1
            acts.insert(k, c)
        out += acts
        if j < len(evs):
            out.append(evs[j])
        i = j + 1
    return out


def single(job):
    base = os.path.join(env.scratch(), "h%d_%d" % (os.getpid(), random.randrange(1 << 40)))
    base = os.path.realpath(os.path.dirname(base)) + "/" + os.path.basename(base)
    os.makedirs(base)
    try:
        return Hist(job, base).run()
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


def ranks(evs):
    """Replace raw times by their ranks, together for one history."""
    raw = set()
    for e in evs:
        if e.get("tm"):
            raw.add(e["tm"])
        if "tree" in e:
            raw |= {x for x in e["tree"]["time"] if x}
    raw.add(1_000_000_000 * 1_000_000_000)
    r = {x: i + 1 for i, x in enumerate(sorted(raw))}
    r[0] = 0
    for e in evs:
        if "tm" in e:
            e["tm"] = r[e["tm"]]
        if "tree" in e:
            e["tree"]["time"] = [r[x] for x in e["tree"]["time"]]
    return r[1_000_000_000 * 1_000_000_000], evs


def run(job):
    ev = single(job)
    if isinstance(ev, dict):
        return ev
    t0, ev = ranks(place_copies(job["p"], ev))
    p = dict(job["p"], time0=t0)
    res = {"p": p, "ev": ev, "twin": "", "job": job}
    tw = job.get("twin")
    if tw:
        ev2 = single(dict(job, **tw, twin=None))
        if isinstance(ev2, dict):
            return ev2
        t1, ev2 = ranks(place_copies(job["p"], ev2))
        if t1 != t0:
            return {"_error": "ranks of the twins differ"}
        res["ev"] = ev + [{"e": "Twin"}] + ev2
        res["twin"] = job["twinclause"]
    return res
