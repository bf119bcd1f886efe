"""Planted bugs: each breaks a property while the stable tests still pass."""
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, timeout=60):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, timeout=timeout))

S, C, M, L, U = "licant/solver.py", "licant/core.py", "licant/make.py", "licant/cli.py", "licant/util.py"
X, CM, MO, LB, LL, SC, IN, CA = ("licant/cxx_make.py", "licant/cxx_modules.py", "licant/modules.py", "licant/libs.py",
    "licant/licant_libs.py", "licant/scripter.py", "licant/install.py", "licant/cache.py")

SOLVER = '''
import sys, threading, time
from licant.solver import DependableTarget, InverseRecursiveSolver
log, lock = [], threading.Lock()
def act(n, f=None):
    def g():
        with lock: log.append(("s", n))
        r = f() if f else True
        with lock: log.append(("e", n))
        return r
    return g
def run(ts, threads):
    return InverseRecursiveSolver(ts, count_of_threads=threads).exec()
'''

seed("s01-keep-going", "C03", [(S, """                task = await self.queue.get()

                if (self.error_while_execution):
                    break

""", """                task = await self.queue.get()

                if (self.error_while_execution and task.deptarget.deps):
                    self.queue.task_done()
                    continue

"""), (S, """                    print(
                        f"{red('LicantError')}: Error while executing task {task.name()}")
                    break
""", """                    print(
                        f"{red('LicantError')}: Error while executing task {task.name()}")
""")],
 "a queued target without dependencies at the moment another target fails",
 "targets that have no dependencies are still started after the failure",
 SOLVER + '''
ts = [DependableTarget(n, [], act(n, lambda: False)) for n in "abc"]
ok = run(ts, 1)
assert not ok
assert len([e for e in log if e[0] == "s"]) == 1, log
''')

seed("s02-twice", "C02", [(S, """        a = self.what_to_do(*self.args, **self.kwargs)
        return a
""", """        a = self.what_to_do(*self.args, **self.kwargs)
        self._is_done = True
        return a
"""), (S, """        self.depcount -= 1
        if self.depcount == 0:
            await self.task_invoker.add_target(self)
        assert self.depcount >= 0
""", """        self.depcount = len([d for d in self.solver_deps if not d.is_done()])
        if self.depcount == 0:
            await self.task_invoker.add_target(self)
"""), (S, """        inverse_deps_of_targets = invert_depends_dictionary(deps_of_targets)
""", """        inverse_deps_of_targets = invert_depends_dictionary(deps_of_targets)
        for deptarget in self.deptargets:
            deptarget.solver_deps = deps_of_targets[deptarget]
""")],
 "two dependencies of a target that finish at nearly the same time on two workers",
 "the dependent target is queued once per dependency and its action runs twice",
 SOLVER + '''
bad = False
for k in range(60):
    log.clear()
    bar = threading.Barrier(4)
    ts = [DependableTarget(n, [], act(n, lambda: (bar.wait(), True)[1])) for n in "abcd"]
    ts.append(DependableTarget("z", list("abcd"), act("z")))
    try:
        ok = run(ts, 4)
    except AssertionError:
        ok = False
    if not ok or log.count(("s", "z")) != 1:
        bad = True
        break
assert not bad, log
''')

seed("s03-workers-retire", "C04", [(S, """                async with self.mtx:
                    self.thread_on_base[no] = True
                    if all(self.thread_on_base) and self.queue.empty():
                        break
""", """                async with self.mtx:
                    self.thread_on_base[no] = True
                    if no > 0 and self.queue.empty():
                        return
                    if all(self.thread_on_base) and self.queue.empty():
                        break
""")],
 "a graph that narrows (queue empty when a worker other than the first finishes) and widens again",
 "workers that once found the queue empty are lost: later ready targets wait for a running one",
 SOLVER + '''
# a, b side by side; then m; then two targets that must be able to run together
def together():
    try:
        bar.wait(timeout=5)
        return True
    except threading.BrokenBarrierError:
        return False
bar = threading.Barrier(2)
ts = [DependableTarget("a", [], act("a", lambda: (time.sleep(0.5), True)[1])), DependableTarget("b", [], act("b", lambda: (time.sleep(0.2), True)[1])),
      DependableTarget("m", ["a", "b"], act("m")),
      DependableTarget("x", ["m"], act("x", together)), DependableTarget("y", ["m"], act("y", together))]
assert run(ts, 2) and ("e", "y") in log
''')

seed("s04-cycle-behind-leaf", "C05", [(S, """        if len(visited) != len(deptargets):
            nonvisited = set(deptargets) - visited
            raise ConnectivityError(nonvisited)
""", """        nonvisited = [t for t in deptargets if t not in visited
                      and not any(d in visited for d in t.inverse_deps)]
        if nonvisited:
            raise ConnectivityError(nonvisited)
""")],
 "a dependency cycle of one target that is not reachable from a leaf but is a direct dependency of a target that also depends on a leaf",
 "the leaf is built before the build is refused",
 SOLVER + '''
ts = [DependableTarget("leaf", [], act("leaf")), DependableTarget("c", ["c"], act("c")), DependableTarget("r", ["leaf", "c"], act("r"))]
refused = False
try:
    run(ts, 1)
except BaseException as e:
    refused = True
assert refused and not log, log
''')

FILES = '''
import os, sys, time, subprocess
import licant
from licant.make import MakeCore
def write(p, t):
    with open(p, "w") as f: f.write(t)
def read(p):
    with open(p) as f: return f.read()
def newer(p, q, by=0.01):
    s = os.stat(q).st_mtime_ns
    os.utime(p, ns=(s + int(by * 1e9), s + int(by * 1e9)))
'''

seed("s06-cached-missing", "C25", [(M, """        sts = self.build(self)
        self.update_info()
        return sts
""", """        sts = self.build(self)
        if sts:
            self.update_info()
        return sts
""")],
 "a file target built by a Python function that returns nothing, requested twice in one session",
 "the session keeps believing the file is missing and builds it again",
 FILES + '''
n = []
c = MakeCore()
def mk(t):
    n.append(1)
    write(t.tgt, "x")
c.ftarget("out", build=mk)
c.get("out").invoke("makefile"); c.get("out").invoke("makefile")
assert len(n) == 1, n
''')

seed("s07-makecore-source-clean", "C08", [(M, """            message="SOURCE {tgt}"
        ))
        target.clr = None
        target.dirkeep""", """            message="SOURCE {tgt}"
        ))
        target.clr = target.clr if target.exists() and os.path.islink(src) else None
        target.dirkeep""")],
 "a source that is a symbolic link, in a MakeCore project, and a clean of something that depends on it",
 "clean deletes the source a symbolic link points to",
 FILES + '''
write("real", "1"); os.symlink("real", "lnk")
c = MakeCore(); c.source("lnk"); c.copy("lnk", "out"); c.get("out").invoke("makefile"); c.get("out").invoke("clean")
assert not os.path.exists("out")
assert os.path.exists("real") and os.path.lexists("lnk")
''')

seed("s08-dirkeep-once", "C09", [(M, """            if not os.path.exists(dirpath):
                dirkeep(dirpath)
                deps = deps + [dirpath]
""", """            if not os.path.exists(dirpath) and not default_core().exist(dirpath):
                dirkeep(dirpath)
                deps = deps + [dirpath]
""")],
 "two outputs in the same missing directory where the second is built first",
 "only the first declared output waits for its directory; the second fails when it comes first",
 FILES + '''
write("a", "1")
licant.source("a")
licant.makefile(tgt="d/x", deps=["a"], do="cp a {tgt}")
licant.makefile(tgt="d/y", deps=["a"], do="cp a {tgt}")
ok = licant.get_target("d/y").invoke("makefile")
assert ok is not False and read("d/y") == "1"
''')

seed("s09-symlink-spelling", "C10", [(U, "DefaultDictLazy(lambda path: os.path.realpath(path))", "DefaultDictLazy(lambda path: os.path.abspath(path))")],
 "one project naming the same file through a symlinked directory and directly",
 "the two spellings are two targets, so the generated file is not built before its use",
 FILES + '''
os.mkdir("real"); os.symlink("real", "lnk"); write("a", "1")
licant.source("a")
licant.makefile(tgt="real/gen", deps=["a"], do="cp a real/gen")
licant.makefile(tgt="out", deps=["lnk/gen"], do="cp real/gen out")
try:
    licant.get_target("out").invoke("makefile")
except SystemExit:
    pass
assert os.path.exists("out") and read("out") == "1"
''')

seed("s10-killed-command", "C11", [(M, "    return True if ret == 0 else False\n", "    return ret < 1\n")],
 "a command that is killed by a signal",
 "its death by signal counts as success",
 FILES + '''
c = MakeCore()
c.ftarget("out", exec="kill -SEGV $$")
assert c.get("out").invoke("makefile") is False
''')

seed("s11-varargs", "C12", [(C, """        return self.func(*self.args)
""", """        return self.func(*self.args[:self.func.__code__.co_argcount])
""")],
 "a routine with variable arguments",
 "arguments beyond the named parameters are dropped",
 '''
import licant
c = licant.Core(); got = []
def f(a, *rest): got.append((a,) + rest)
c.routine(f)
c.do("f", args=["1", "2", "3"])
assert got == [("1", "2", "3")], got
''')

seed("s12-precedence", "C13", [(L, """    # Try look up fnd in targets
    if core.has(fnd):
""", """    # Actions of the default target
    if default is not None and len(args) > 1 and core.get(default).hasaction(fnd):
        return core.get(default).invoke(fnd, args=args[1:], critical=True)

    # Try look up fnd in targets
    if core.has(fnd):
""")],
 "a target with the same name as an action of the default target, and more arguments",
 "the default target's action runs instead of the target named first",
 '''
import licant, sys
got = []
c = licant.Core()
class T(licant.UpdatableTarget): pass
c.add(licant.Target("dflt", actions={"go"}, go=lambda s, *a: got.append(("dflt", a))))
c.add(licant.Target("go", actions={"run"}, run=lambda s, *a: got.append(("go", a))))
licant.ex("dflt", argv=["go", "run"], core=c)
assert got == [("go", ())], got
''')

seed("s13-closure-cache", "C23", [(C, "        self.depends_as_set_lazy_cache[tgt] = ret\n", "        self.depends_as_set_lazy_cache[(tgt, incroot)] = ret\n")],
 "targets registered between two builds of the same target in one session",
 "the second build uses the closure computed for the first one",
 FILES + '''
n = []
c = licant.Core()
c.add(licant.UpdatableTarget("x", [], update_if=lambda s: True, update=lambda s: n.append("x")))
c.add(licant.UpdatableTarget("top", ["x"], update_if=lambda s: True, update=lambda s: n.append("top")))
c.get("top").invoke("recurse_update")
c.add(licant.UpdatableTarget("y", [], update_if=lambda s: True, update=lambda s: n.append("y")))
c.add(licant.UpdatableTarget("x", ["y"], update_if=lambda s: True, update=lambda s: n.append("x")))
n.clear()
c.get("top").invoke("recurse_update")
assert n == ["y", "x", "top"], n
''')

seed("s14-quiet-status", "C24", [(M, """        else:
            sprint(rule)

    proc""", """        else:
            sprint(rule)
            rule = "set -x; " + rule if core.runtime["trace"] else rule
            rule = rule.replace("&&", ";") if core.runtime["trace"] else rule

    proc""")],
 "a command with && whose first part fails, run with --trace",
 "tracing changes the result of a command",
 '''
import licant, os
from licant.make import MakeCore
c = MakeCore(); c.runtime["trace"] = True; c.runtime["debug"] = True
c.ftarget("out", exec="false && true")
assert c.get("out").invoke("makefile") is False
''')
seed("s15-empty-result-status", "C14", [(S, """                if result is False:
                    self.error_while_execution = True
""", """                if result is False and task.deptarget.deps:
                    self.error_while_execution = True
                elif result is False:
                    self.failed = True
                    self.error_while_execution = bool(self.queue.qsize())
""")],
 "a failing target without dependencies while nothing else is queued",
 "the failure is forgotten and the process exits 0",
 '''
import subprocess, sys
r = subprocess.run([sys.executable, "-c", """
import licant
licant.makefile(tgt='out', deps=[], do='exit 3')
licant.ex('out', argv=[])
"""])
assert r.returncode != 0
''')

seed("s16-defaults-first", "C15", [(CM, """        defmod = mlibrary.get_default(name)
        specify_implementation(name, defmod, mod.name)

        if "mdepends" in defmod.opts:
            collect_modules(defmod)
""", """        # all that wait for a default get it, then their own dependencies are looked at
        names = [name]
        while not mdepends_default.empty():
            names.append(mdepends_default.get())
        names = [n for n in dict.fromkeys(names) if n not in mdepends]
        for n in names:
            specify_implementation(n, mlibrary.get_default(n), mod.name)
        for n in names:
            if "mdepends" in mdepends[n].opts:
                collect_modules(mdepends[n])
""")],
 "a module that depends on two others without naming implementations, the first of which names one for the second",
 "the second gets its default although an implementation is asked for: a consistent project is refused",
 '''
import licant, licant.cxx_modules as X
from licant.modules import mlibrary
licant.module("b", impl="one", default=True); licant.module("b", impl="two")
licant.module("a", mdepends=[("b", "two")])
licant.module("m", mdepends=["a", "b"])
r = {x.name: x.impl for x in X.collect_modules(mlibrary.get("m"))}
assert r["b"] == "two", r
''')

seed("s17-empty-override", "C16", [(CM, "    return base if local is None else local\n", "    return local or base\n")],
 "a submodule that overrides an inherited option with the empty string",
 "the submodule's sources are compiled with the parent's debug flags",
 '''
import os, subprocess, sys
open("a.c", "w").close(); open("b.c", "w").close()
open("make.py", "w").write("""
import licant
licant.module("sub", sources=["b.c"], debug="")
licant.cxx_objects("app", sources=["a.c"], modules=[licant.submodule("sub")], debug="-ggdb", builddir="o")
t = licant.default_core().get("o/b.o")
assert "-ggdb" not in t.opts.cc_flags, t.opts.cc_flags
assert "-ggdb" in licant.default_core().get("o/a.o").opts.cc_flags
""")
subprocess.run([sys.executable, "make.py"], check=True)
''')

seed("s18-shared-list", "C16", [(CM, """        local = []
    if base is None:
        base = []
    return base + local


def strconcat""", """        return base
    if base is None:
        base = []
    base += local
    return base


def strconcat""")],
 "a submodule with defines, followed by another submodule",
 "what one submodule defines leaks into its siblings compiled after it",
 '''
import os, subprocess, sys
for x in "abc": open(x + ".c", "w").close()
open("make.py", "w").write("""
import licant
licant.module("one", sources=["b.c"], defines=["ONE"])
licant.module("two", sources=["c.c"], defines=["TWO"])
licant.cxx_objects("app", sources=["a.c"], defines=["APP"], modules=[licant.submodule("one"), licant.submodule("two")], builddir="o")
g = lambda n: licant.default_core().get("o/%s.o" % n).opts.defopt
assert "ONE" in g("b") and "APP" in g("b"), g("b")
assert "ONE" not in g("c") and "TWO" in g("c"), g("c")
""")
subprocess.run([sys.executable, "make.py"], check=True)
''')

seed("s19-absolute-headers", "C17", [(U, "        return lst[2:]\n", "        return [h for h in lst[2:] if not os.path.isabs(h)]   # the system's do not change\n")],
 "an include path given as an absolute path, and a change in a header found there",
 "a change in such a header recompiles nothing",
 '''
import os, subprocess, sys, time
os.mkdir("inc"); open("inc/h.h", "w").write("#define X 1\\\\n")
open("m.c", "w").write('#include "h.h"\\\\nint main(){return X;}\\\\n')
open("make.py", "w").write("""
import licant, os
licant.cxx_application("app", sources=["m.c"], include_paths=[os.path.abspath("inc")])
licant.ex("app")
""")
def run():
    subprocess.run([sys.executable, "make.py"], check=True, stdout=subprocess.DEVNULL)
    return subprocess.run(["./app"]).returncode
assert run() == 1 and run() == 1
time.sleep(.05)
open("inc/h.h", "w").write("#define X 7\\\\n")
assert run() == 7
'''.replace("\\\\n", "\\n"))

seed("s20-generated-source", "C18", [(CM, """    for s in opts["sources"]:
        if "*" in s:
            ret.extend(glob.glob(s))
        else:
            ret.append(s)
""", """    for s in opts["sources"]:
        # a plain name is a pattern that matches itself
        ret.extend(sorted(glob.glob(s)))
""")],
 "a source file that another target generates and that is not there yet",
 "the source is neither compiled nor linked",
 '''
import os, subprocess, sys
open("a.c", "w").write("int g(void); int main(void){return g();}")
open("make.py", "w").write("""
import licant
licant.makefile(tgt="gen.c", deps=[], do="echo 'int g(void){{return 3;}}' > gen.c")
licant.cxx_application("app", sources=["a.c", "gen.c"], builddir="o")
licant.ex("app")
""")
subprocess.run([sys.executable, "make.py"], check=True)
assert subprocess.run(["./app"]).returncode == 3
''')

seed("s21-included-late", "C19", [(LB, """    included[lib] = libs[lib]
    print_about_lib(lib, libs[lib])
    scriptq.execute(libs[lib])
""", """    print_about_lib(lib, libs[lib])
    scriptq.execute(libs[lib])
    included[lib] = libs[lib]
""")],
 "two registered libraries that include each other",
 "a library's script is run again while it is running",
 '''
import json, os, subprocess, sys
w = os.getcwd()
json.dump({"a": w + "/a.g.py", "b": w + "/b.g.py"}, open(os.environ["HOME"] + "/.licant", "w"))
open("a.g.py", "w").write("open('log','a').write('a')\\nif len(open('log').read()) < 10: licant.include('b')\\n")
open("b.g.py", "w").write("open('log','a').write('b')\\nif len(open('log').read()) < 10: licant.include('a')\\n")
open("make.py", "w").write("import licant\\nlicant.include('a')\\n")
subprocess.run([sys.executable, "make.py"], check=True)
assert open("log").read() == "ab", open("log").read()
''')

seed("s22-hidden-of-parent", "C19", [(SC, """        root = os.path.join(self.curdir(), root)
        flst = licant.util.find_recursive(root, pattern, hide, debug)
        for f in flst:
            self.__execute(f)
""", """        root = os.path.join(self.curdir(), root)
        depth = len(self.stack)
        for f in licant.util.find_recursive(root, pattern, hide, debug):
            self.__execute(f)
            # scripts found together have one directory in effect after them
            self.stack[depth - 1:] = [os.path.join(root, os.path.basename(self.last()))]
"""), ],
 "execute_recursive of another directory, then a relative path in the same script",
 "the including script's directory is not restored",
 '''
import os, subprocess, sys
os.makedirs("sub/x")
open("sub/x/t.g.py", "w").write("")
open("one.py", "w").write("open('log','a').write('1')")
open("make.py", "w").write("import licant\\nlicant.execute_recursive('sub', '.g.py')\\nlicant.execute('one.py')\\n")
subprocess.run([sys.executable, "make.py"])
assert os.path.exists("log")
''')

seed("s23-directory-refresh", "C20", [(LL, """        ret = glob.glob(os.path.join(args[0], "*.g.py"))
""", """        ret = glob.glob(os.path.join(args[0], "*.g.py"))
        # what is no longer there is dropped
        paths = {k: v for k, v in paths.items()
                 if os.path.dirname(v) != os.path.abspath(args[0]) or os.path.exists(v)}
""")],
 "a registered script that is deleted, then its directory added again",
 "a name that was never removed disappears from the registry",
 '''
import json, os, sys, subprocess
os.mkdir("d"); open("d/a.g.py", "w").close(); open("d/b.g.py", "w").close()
run = lambda *a: subprocess.run([sys.executable, "-m", "licant", "-u", *a], check=True, stdout=subprocess.DEVNULL)
run("a", "d/a.g.py"); run("b", "d/b.g.py")
os.remove("d/a.g.py"); open("d/c.g.py", "w").close()
run("d")
r = json.load(open(os.environ["HOME"] + "/.licant"))
assert sorted(r) == ["a", "b", "c"], r
''')

seed("s24-hidden-directories", "C21", [(U, """    for base, dirs, files in os.walk(treeroot):
        goodfiles = fnmatch.filter(files, pattern)
""", """    for base, dirs, files in os.walk(treeroot):
        dirs[:] = [d for d in dirs if not d.startswith(".")]
        goodfiles = fnmatch.filter(files, pattern)
""")],
 "headers in a directory whose name begins with a dot",
 "they are not installed",
 '''
import os
os.environ["PREFIX"] = os.getcwd() + "/pre"
os.makedirs("h/.detail"); open("h/.detail/x.h", "w").close(); open("h/a.h", "w").close()
import licant, licant.install
licant.install.install_library("in", "r", "h", uninstall="un")
licant.default_core().get("in").invoke("makefile")
assert os.path.exists("pre/include/r/a.h") and os.path.exists("pre/include/r/.detail/x.h")
''')

seed("s25-clean-current", "C21", [(M, "            if if_file_and_exist(target) and target.clr:\n", "            if if_file_and_exist(target) and target.clr and not (self.weakdeps and target.need_update):\n")],
 "an installed header whose source changed since, then the uninstall target",
 "the stale installed copy is left behind",
 '''
import os, time
os.environ["PREFIX"] = os.getcwd() + "/pre"
os.makedirs("h"); open("h/a.h", "w").close(); open("h/b.h", "w").close()
import subprocess, sys
open("make.py", "w").write("""
import licant, licant.install
licant.install.install_library("in", "r", "h", uninstall="un")
licant.ex("in")
""")
subprocess.run([sys.executable, "make.py"], check=True, stdout=subprocess.DEVNULL)
assert os.path.exists("pre/include/r/a.h")
time.sleep(.05); open("h/a.h", "w").write("x")
subprocess.run([sys.executable, "make.py", "un"], check=True, stdout=subprocess.DEVNULL)
assert not os.path.exists("pre/include/r/b.h")
assert not os.path.exists("pre/include/r/a.h")
''')

seed("s26-interrupt-status", "C22", [(L, """        licant.util.error("interrupted by user")
""", """        print(licant.util.red("interrupted by user"))
        sys.exit(0 if core.runtime["quite"] else -1)
""")],
 "an interrupt while building with -q",
 "the exit status says that the build succeeded",
 '''
import os, signal, subprocess, sys, time
open("make.py", "w").write("""
import licant, time, signal
signal.signal(signal.SIGINT, signal.default_int_handler)
def slow(s):
    open("started", "w").close(); time.sleep(1)
licant.default_core().updtarget("t", update=slow, update_if=lambda s: True)
licant.ex("t")
""")
p = subprocess.Popen([sys.executable, "make.py", "-q"])
while not os.path.exists("started"): time.sleep(.01)
time.sleep(.1)
p.send_signal(signal.SIGINT)
assert p.wait(timeout=20) != 0
''')

seed("s27-existing-not-awaited", "C01", [(C, """            deps_as_targets_names = [self.core.get(d).tgt for d in d.deps]
""", """            deps_as_targets_names = [t.tgt for t in d.get_deplist()
                                     if not (getattr(t, "isfile", False) and t.is_exist() and t.isfile)
                                     or not d.need_update or t.update_if is None]
""")],
 "several workers and an intermediate file that exists but is out of date",
 "a target is made while the file it depends on is being made again",
 '''
import os, time
from licant.make import MakeCore
open("src", "w").write("1")
def build(v):
    c = MakeCore(); c.runtime["threads"] = 4
    c.source("src")
    def mid(s):
        time.sleep(.3); open("mid", "w").write(open("src").read())
    def out(s):
        open("out", "w").write(open("mid").read())
    c.ftarget("mid", mid, deps=["src"]); c.ftarget("out", out, deps=["mid"])
    assert c.get("out").invoke("makefile")
    return open("out").read()
assert build(1) == "1"
time.sleep(.05); open("src", "w").write("2")
import licant.cache
licant.cache.fcache.cache.clear()
assert build(2) == "2"
''')

seed("s28-fileset-directories", "C07", [(M, """    def mtime(self):
        return 0

    def update_if_need""", """    def update_if_need"""), (M, """        for dep in self.get_deplist():
            if not dep.is_file():
                continue
            depmtime = dep.mtime()
            if depmtime > maxtime:
                maxtime = depmtime

        if maxtime""", """        for dep in self.get_deplist():
            if not dep.is_file():
                continue
            # the directory of the file itself does not count
            if os.path.dirname(self.tgt) == dep.tgt:
                continue
            depmtime = dep.mtime()
            if depmtime > maxtime:
                maxtime = depmtime

        if maxtime""")],
 "a file that depends on a directory that is not its own (makedir), in which something appeared later",
 "an up-to-date file is made again",
 '''
import os, time, licant, subprocess, sys
open("make.py", "w").write("""
import licant
licant.makedir("data")
licant.makefile(tgt="out", deps=["data"], do="echo x >> log; touch out")
licant.ex("out")
""")
run = lambda: subprocess.run([sys.executable, "make.py"], check=True, stdout=subprocess.DEVNULL)
run(); run()
time.sleep(.05); open("data/file", "w").close()
run()
assert open("log").read() == "x\\n", open("log").read()
''')


TOOL = '''
import os, sys, subprocess, time, stat
def script(p, t):
    open(p, "w").write("#!/bin/sh\\n" + t); os.chmod(p, 0o755)
script("fmoc", 'echo "moc $1" >> log; echo "/* $1 */"; cat $1\\n')
script("fuic", 'echo "uic $1" >> log; sleep .4; echo "#define FORM $(cat $1)"\\n')
def run(*a, ok=True):
    r = subprocess.run([sys.executable, "make.py", *a], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    assert (r.returncode == 0) == ok
    time.sleep(.05)
TC = """
import licant
tc = licant.cxx_make.toolchain("g++", "gcc", "ld", "ar", "objdump", moc="./fmoc", uic="./fuic", objcopy="cp_")
"""
'''

seed("s29-forms-at-hand", "C26", [(CM, "            adddeps.extend(locuihxx)\n", "            # known headers are found by the dependency scan\n            adddeps.extend(h for h in locuihxx if not os.path.exists(h))\n")],
 "a source that failed to compile after its form was generated; then both are edited and built with several workers",
 "the source is compiled against the old header",
 TOOL + '''
open("make.py", "w").write(TC + """
licant.cxx_application("app", sources=["main.c"], qt_ui=["form.ui"], toolchain=tc)
licant.ex("app")
""")
open("form.ui", "w").write("3"); open("main.c", "w").write('#include "ui_form.h"\\n#include "oops.h"\\n')
run(ok=False)
open("form.ui", "w").write("4"); open("main.c", "w").write('#include "ui_form.h"\\nint main() { return FORM; }\\n')
run("-j4")
assert subprocess.run(["./app"]).returncode == 4
''')

seed("s30-shared-default", "C26", [("licant/java_make.py", "    for j in srcs:\n        licant.make.source(j)\n\n    core.add(", "    for j in srcs:\n        licant.make.source(j)\n    deps.extend(srcs)\n\n    core.add("),
                                   ("licant/java_make.py", "            deps=deps + srcs,\n", "            deps=deps,\n")],
 "two javac targets in one script, then a source of the one is edited",
 "the other's classes are compiled again",
 '''
import os, sys, subprocess, time
open("jc", "w").write('#!/bin/sh\\nfor f in "$@"; do echo "$f" >> log; touch "${f%.java}.class"; done\\n'); os.chmod("jc", 0o755)
open("make.py", "w").write("""
import licant, licant.java_make as j
o = j.java_options(toolchain=j.java_toolchain("./jc"))
j.javac(["a.java"], "a.class", opts=o)
j.javac(["b.java"], "b.class", opts=o)
licant.fileset("all", ["a.class", "b.class"])
licant.ex("all")
""")
open("a.java", "w").close(); open("b.java", "w").close()
run = lambda: (subprocess.run([sys.executable, "make.py"], check=True, stdout=subprocess.DEVNULL), time.sleep(.05))
run(); os.utime("a.java"); run(); os.utime("b.java"); run()
assert sorted(open("log").read().split()) == ["a.java", "a.java", "b.java", "b.java"], open("log").read()
''')

seed("s31-pattern-replaces", "C26", [(CM, '''    for s in opts["qt_ui"]:
        if "*" in s:
            ret.extend(glob.glob(s))
''', '''    for s in opts["qt_ui"]:
        if "*" in s:
            ret = sorted(glob.glob(s))
''')],
 "a list of forms with a pattern after another entry",
 "the forms before the pattern are not generated",
 TOOL + '''
open("make.py", "w").write(TC + """
licant.cxx_application("app", sources=["main.c"], qt_ui=["form.ui", "more/*.ui"], toolchain=tc)
licant.ex("app")
""")
os.mkdir("more"); open("more/other.ui", "w").write("5")
open("form.ui", "w").write("4"); open("main.c", "w").write('int main() { return 0; }\\n')
run()
assert sorted(open("log").read().split()) == ["form.ui", "more/other.ui", "uic", "uic"], open("log").read()
''')

seed("s32-image-before-binary", "C26", [(X, "            opts=opts,\n            deps=[src],\n            tgt=tgt,\n            build=licant.make.Executor(rule),", "            opts=opts,\n            deps=[src] if core.has(src) or not os.path.exists(src) else [],\n            tgt=tgt,\n            build=licant.make.Executor(rule),")],
 "objcopy declared before its binary, which exists from an earlier session",
 "the image is not made again when the binary changes",
 '''
import os, sys, subprocess, time
open("oc", "w").write('#!/bin/sh\\nwhile [ $# -gt 2 ]; do shift; done\\ncp "$1" "$2"\\n'); os.chmod("oc", 0o755)
open("make.py", "w").write("""
import licant
class T: objcopy = "./oc"
licant.objcopy(T, tgt="img", src="app", format="binary", sections=[".text"])
licant.source("in")
licant.makefile(tgt="app", deps=["in"], do="cp in app")
licant.ex("img")
""")
open("in", "w").write("1")
run = lambda: (subprocess.run([sys.executable, "make.py"], check=True, stdout=subprocess.DEVNULL), time.sleep(.05))
run(); assert open("img").read() == "1"
open("in", "w").write("2"); run()
assert open("img").read() == "2"
''')

seed("s33-moc-depends", "C26", [(CM, "        licant.cxx_make.qt_moc(src=m, tgt=s, opts=cxxopts, deps=[m] + adddeps)\n", "        licant.cxx_make.qt_moc(src=m, tgt=s, opts=cxxopts, deps=[m])\n")],
 "an application with depends=[...] and headers for moc, when what it depends on changes",
 "moc is not run again",
 TOOL + '''
open("make.py", "w").write(TC + """
licant.source("conf")
licant.cxx_application("app", sources=["main.c"], qt_moc=["a.h"], depends=["conf"], toolchain=tc)
licant.ex("app")
""")
open("a.h", "w").write(""); open("conf", "w").write(""); open("main.c", "w").write('int main() { return 0; }\\n')
run(); run()
assert open("log").read() == "moc a.h\\n"
os.utime("conf"); run()
assert open("log").read() == "moc a.h\\n" * 2, open("log").read()
''')

seed("s34-nested-fileset", "C06", [(M, "            dtgt = self.core.get(d)\n            if not dtgt.is_file():", "            dtgt = self.core.get(d)\n            if not getattr(dtgt, 'isfile', False):")],
 "a file that depends on a fileset of filesets, one of whose sources changes",
 "the file is not made again",
 """
import os, sys, subprocess, time
open("make.py", "w").write('''
import licant
licant.source("s")
licant.fileset("inner", ["s"])
licant.fileset("outer", ["inner"])
licant.makefile(tgt="out", deps=["outer"], do="cp s out")
licant.ex("out")
''')
open("s", "w").write("1")
run = lambda: (subprocess.run([sys.executable, "make.py"], check=True), time.sleep(.05))
run(); assert open("out").read() == "1"
open("s", "w").write("2"); run()
assert open("out").read() == "2"
""")

seed("s35-falsy-result", "C02", [(S, "                if result is False:", "                if result is not None and not result:")],
 "an action that returns a false value other than False, such as 0",
 "the build stops and fails although the action succeeded",
 """
import licant
for v in (None, True, 0, "", [], {}):
    c = licant.Core()
    done = []
    def act(n, v=v):
        done.append(n); return v
    c.updtarget("a", deps=[], update=lambda s: act("a"), update_if=lambda s: True)
    c.updtarget("b", deps=["a"], update=lambda s: act("b"), update_if=lambda s: True)
    assert c.get("b").invoke("recurse_update") is True, v
    assert done == ["a", "b"], (v, done)
""")

seed("s39-shared-dependencies", "C09", [(M, "                deps = deps + [dirpath]\n", "                deps += [dirpath]\n")],
 "two files declared with one list object of dependencies, in different missing directories",
 "building one of them creates the directory of the other",
 """
import os, licant
from licant.core import default_core
open("s", "w").write("1")
licant.source("s")
common = ["s"]
licant.makefile(tgt="one/out", deps=common, do="cp s one/out")
licant.makefile(tgt="two/out", deps=common, do="cp s two/out")
assert default_core().get("two/out").invoke("makefile")
assert os.path.exists("two/out") and not os.path.exists("one")
""")

seed("s40-java-dependencies", "C26", [("licant/java_make.py", "            deps=deps + srcs,", "            deps=deps or srcs,")],
 "Java classes declared with dependencies of their own, and an edited source",
 "the class is not made again from the edited source",
 """
import os, sys, subprocess, time
open("javac", "w").write("#!/bin/sh\\necho javac >> log\\ncp $1 A.class\\n"); os.chmod("javac", 0o755)
open("make.py", "w").write('''
import licant, licant.java_make as J
licant.source("conf")
J.javac(["A.java"], "A.class", opts=J.java_options(toolchain=J.java_toolchain("./javac")), deps=["conf"])
licant.ex("A.class")
''')
run = lambda: (subprocess.run([sys.executable, "make.py"], check=True), time.sleep(.05))
open("conf", "w").write(""); open("A.java", "w").write("1")
run(); assert open("A.class").read() == "1"
open("A.java", "w").write("2"); run()
assert open("A.class").read() == "2"
""")

seed("s41-first-default", "C15", [(MO, "        self.defimpls[modname] = impl\n", "        self.defimpls.setdefault(modname, impl)\n")],
 "a module whose default implementation is chosen again after a first choice",
 "the implementation chosen first is taken silently, not the one declared last",
 """
import licant
from licant.modules import mlibrary
licant.implementation("m", "a", default=True)
licant.implementation("m", "b")
licant.module_default_implementation("m", "b")
assert mlibrary.get("m").impl == "b"
""")

seed("s42-object-by-hand", "C26", [(X, 'core=default_core(), message="OBJECT {tgt}"):\n    if deps is None:\n        deps = [src]\n', 'core=default_core(), message="OBJECT {tgt}"):\n    if deps is None:\n        deps = []\n')],
 "an object declared by itself, without dependencies, and an edited source",
 "the object is not compiled again",
 """
import os, sys, subprocess, time
os.mkdir("bin")
for t in ("g++", "gcc"):
    open("bin/" + t, "w").write('#!/bin/sh\\ncp "$2" "$4"\\n'); os.chmod("bin/" + t, 0o755)
open("make.py", "w").write('''
import licant, licant.cxx_make as cm
licant.source("a.cpp")
cm.object("a.cpp", "a.o", opts=cm.options(toolchain=licant.gcc_toolchain("bin/")))
licant.ex("a.o")
''')
run = lambda: (subprocess.run([sys.executable, "make.py"], check=True), time.sleep(.05))
open("a.cpp", "w").write("1")
run(); assert open("a.o").read() == "1"
open("a.cpp", "w").write("2"); run()
assert open("a.o").read() == "2"
""")
