From c3ecd33474c6253c2f65080045dc58320b7d46e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 01/36] fix: a raising target action fails the build instead of
 hanging it

---
 licant/solver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/licant/solver.py b/licant/solver.py
index 90debb6..3411fbc 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -1,6 +1,7 @@
 import asyncio
 from licant.util import invert_depends_dictionary, red
 import contextlib
+import traceback
 
 
 class DependableTarget:
@@ -123,7 +124,11 @@ class TaskInvoker:
                 if self.trace:
                     print(f"[Trace] thread:{no} do task: {task.name()}")
 
-                result = await task.doit()
+                try:
+                    result = await task.doit()
+                except Exception:
+                    traceback.print_exc()
+                    result = False
                 self.queue.task_done()
 
                 if (self.error_while_execution):
-- 
2.43.0


From 290bffb404bfd017093ba4283fe7ec27215c741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 02/36] fix: commands with large or non-UTF-8 output no longer
 hang the build

---
 licant/make.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index c312d6d..62f8d25 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -45,13 +45,12 @@ def do_execute(target, rule, msgfield, prefix=None):
 
     proc = subprocess.Popen(
         rule, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
-    stdout = proc.stdout
-    stderr = proc.stderr
-    ret = proc.wait()
+    stdout, stderr = proc.communicate()
+    ret = proc.returncode
 
-    sprint(stdout.read().decode("utf-8"), end="")
+    sprint(stdout.decode("utf-8", errors="replace"), end="")
     sys.stdout.flush()
-    sprint(stderr.read().decode("utf-8"), end="")
+    sprint(stderr.decode("utf-8", errors="replace"), end="")
     sys.stderr.flush()
 
     if target.is_file():
-- 
2.43.0


From 594657df1572acbd880de361cd7ec3e975253c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 03/36] fix: the command line exits with an error status when
 the build fails

---
 licant/cli.py  | 5 ++++-
 licant/core.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/licant/cli.py b/licant/cli.py
index 4501b00..ee48de0 100644
--- a/licant/cli.py
+++ b/licant/cli.py
@@ -150,9 +150,12 @@ def cliexecute(
         print("PRINT RUNTIME:", core.runtime)
 
     try:
-        __cliexecute(args, default=default, core=core)
+        result = __cliexecute(args, default=default, core=core)
     except KeyboardInterrupt:
         licant.util.error("interrupted by user")
 
+    if result is False:
+        licant.util.error("execution failed")
+
     if colorwrap:
         print(licant.util.yellow("[finish]"))
diff --git a/licant/core.py b/licant/core.py
index 79fd5e6..2fd9ada 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -420,7 +420,7 @@ class Routine(UpdatableTarget):
 
     def invoke_routine(self, *args, threads=1, **kwargs):
         self.args = list(args)
-        self.recurse_update(threads=threads)
+        return self.recurse_update(threads=threads)
 
 
 def routine(func=None, **kwargs):
-- 
2.43.0


From c84af14de76a518f62fb6be64cb97c6b210ff498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 04/36] fix: pass command line arguments to actions unchanged

---
 licant/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/cli.py b/licant/cli.py
index ee48de0..f54a7d8 100644
--- a/licant/cli.py
+++ b/licant/cli.py
@@ -112,13 +112,13 @@ def __cliexecute(args, default, core):
                 )
             )
 
-        return target.invoke(act, *args[2:], critical=True)
+        return target.invoke(act, args=args[2:], critical=True)
 
     # Try look up fnd in actions of default_target
     if default is not None:
         dtarget = core.get(default)
         if dtarget.hasaction(fnd):
-            return dtarget.invoke(fnd, *args[1:], critical=True)
+            return dtarget.invoke(fnd, args=args[1:], critical=True)
 
     # Can't look fnd.
     licant.util.error(
-- 
2.43.0


From 98f273b89006136b16e12b624607bf2a68af59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 05/36] fix: file targets may depend on targets that are not
 files

---
 licant/make.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index 62f8d25..b1c9e8f 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -106,6 +106,8 @@ class MakeFileTarget(UpdatableTarget):
         maxtime = 0
         for d in self.deps:
             dtgt = self.core.get(d)
+            if not dtgt.is_file():
+                continue
             mtime = dtgt.mtime()
             if mtime is not None and mtime > maxtime:
                 maxtime = mtime
@@ -166,8 +168,10 @@ class FileTarget(MakeFileTarget):
 
         maxtime = 0
         for dep in self.get_deplist():
+            if not dep.is_file():
+                continue
             depmtime = dep.mtime()
-            if dep.is_file() and depmtime > maxtime:
+            if depmtime > maxtime:
                 maxtime = depmtime
 
         if maxtime > self.mtime():
-- 
2.43.0


From d88e8de8414aff2e9842caa6be8219ef8d1e3c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 06/36] fix: looking up a path does not pin it to a target
 replaced later

---
 licant/core.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index 2fd9ada..b73f29a 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -89,8 +89,6 @@ class Core:
             return True
 
         if licant.util.canonical_path(tgt) in self._targets:
-            # access optimization by lazy technique
-            self._targets[tgt] = self._targets[licant.util.canonical_path(tgt)]
             return True
 
         return False
-- 
2.43.0


From c41092177c443790590aa9ae2d26f050638656ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 07/36] fix: clean quotes the deleted path

---
 licant/make.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index b1c9e8f..547ffc2 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -9,6 +9,7 @@ from licant.util import purple, quite
 import threading
 import os
 import time
+import shlex
 import subprocess
 import fcntl
 import sys
@@ -160,7 +161,8 @@ class FileTarget(MakeFileTarget):
 
     def clr(self):
         """Delete this file."""
-        do_execute(self, "rm -f {tgt}", "clrmsg")
+        path = shlex.quote(self.tgt).replace("{", "{{").replace("}", "}}")
+        do_execute(self, "rm -f " + path, "clrmsg")
 
     def internal_update_if(self):
         if self.force or not self.is_exist():
-- 
2.43.0


From ebb082376130896fee8ac1595f2e1f70c3f169a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 08/36] fix: default action of updatable targets works without
 command line options

---
 licant/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index b73f29a..badf5fa 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -326,7 +326,7 @@ class UpdatableTarget(Target):
         self.need_update = None
 
     def recurse_update_get_args(self):
-        return self.recurse_update(threads=self.core.runtime["threads"])
+        return self.recurse_update()
 
     def update(self, *args, **kwargs):
         return True
-- 
2.43.0


From f538a042d1969dfd49f1ab63052452303586dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 09/36] fix: clean covers weak dependencies, so uninstall
 targets work

---
 licant/make.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/licant/make.py b/licant/make.py
index 547ffc2..2b3e719 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -91,6 +91,7 @@ class MakeFileTarget(UpdatableTarget):
     def clean(self):
         stree = self.core.depends_as_set(self.tgt, incroot=True)
         stree = [self.core.get(s) for s in stree]
+        stree += [self.core.get(s) for s in self.weakdeps]
 
         for target in stree:
             if if_file_and_exist(target) and target.clr:
-- 
2.43.0


From b3cccf53e289ee0a084e6d8c1e766ad65c887062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 10/36] fix: routine arguments do not leak into later
 invocations

---
 licant/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index badf5fa..642acad 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -418,7 +418,10 @@ class Routine(UpdatableTarget):
 
     def invoke_routine(self, *args, threads=1, **kwargs):
         self.args = list(args)
-        return self.recurse_update(threads=threads)
+        try:
+            return self.recurse_update(threads=threads)
+        finally:
+            self.args = []
 
 
 def routine(func=None, **kwargs):
-- 
2.43.0


From a9784ab4369258b0487d70c821ce0b0df29477ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 11/36] fix: a build with zero threads does not hang

---
 licant/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/licant/solver.py b/licant/solver.py
index 3411fbc..e3fce36 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -74,6 +74,7 @@ class TaskInvoker:
         self.loop = asyncio.new_event_loop()
         asyncio.set_event_loop(self.loop)
         self.queue = asyncio.Queue()
+        threads_count = max(1, threads_count)
         self.threads_count = threads_count
         self.tasks = []
         self.thread_on_base = [True] * threads_count
-- 
2.43.0


From 716c5412ff076fba50ba4d55832821715d6aad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 12/36] fix: thread counts above the default executor's limit
 take effect

---
 licant/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/licant/solver.py b/licant/solver.py
index e3fce36..5553bca 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -1,4 +1,5 @@
 import asyncio
+from concurrent.futures import ThreadPoolExecutor
 from licant.util import invert_depends_dictionary, red
 import contextlib
 import traceback
@@ -76,6 +77,8 @@ class TaskInvoker:
         self.queue = asyncio.Queue()
         threads_count = max(1, threads_count)
         self.threads_count = threads_count
+        self.loop.set_default_executor(
+            ThreadPoolExecutor(max_workers=threads_count))
         self.tasks = []
         self.thread_on_base = [True] * threads_count
         self.mtx = asyncio.Lock()
-- 
2.43.0


From ccac9ee42ce3718a0e8db10efb11b2d17b8e238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 13/36] fix: evaluate the need to update once per target, not
 once per path

---
 licant/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index 642acad..d462aae 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -335,14 +335,14 @@ class UpdatableTarget(Target):
         if self.need_update is not None:
             return self.need_update
 
-        if self.update_if(self):
-            return True
-
+        need = bool(self.update_if(self))
         for dep in self.get_deplist():
-            if dep.recursive_update_needed_request():
-                return True
+            if need:
+                break
+            need = dep.recursive_update_needed_request()
 
-        return False
+        self.need_update = need
+        return need
 
     def invoke_function_or_method(self, act):
         if isinstance(act, types.MethodType):
-- 
2.43.0


From 2f56192292ee68ca3850d2dc28131e16ce79f237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 14/36] fix: a directory created meanwhile by a command does
 not fail the build

---
 licant/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index 2b3e719..0d102b7 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -76,7 +76,7 @@ class DirectoryKeeper():
     def __call__(self, target, **kwargs):
         print("MAKEDIRS", target.tgt)
         if not target.exists():
-            os.makedirs(target.tgt)
+            os.makedirs(target.tgt, exist_ok=True)
             target.update_info()
 
 
-- 
2.43.0


From 9ede53049c5eee9e5127a41e92b8817e7a22d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 15/36] fix: WrongAction can be printed

---
 licant/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index d462aae..41bbe54 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -15,7 +15,7 @@ class WrongAction(Exception):
         self.actname = actname
 
     def __str__(self):
-        return "WrongAction: obj:{} actname:{} class:{} dict:{self.obj.__dict__}".format(self.obj, self.actname, self.obj.__class__, self.obj.__dict__)
+        return "WrongAction: obj:{} actname:{} class:{} dict:{}".format(self.obj, self.actname, self.obj.__class__, self.obj.__dict__)
 
 
 class NoneDictionary(dict):
-- 
2.43.0


From 6b94bccbd7e715a74eab1ef152103ee8a8559abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 16/36] fix: included modules may include modules by name

---
 licant/cxx_modules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 0509ed3..9891268 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -450,7 +450,8 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
 
                 if "include_modules" in imod.opts:
                     retopts = include_modules(
-                        retopts, imod.opts["include_modules"])
+                        retopts, [licant.modules.submodule(m)
+                                  for m in imod.opts["include_modules"]])
 
             return retopts
 
-- 
2.43.0


From d3f406d218b20232ac2245f103bf780f85180e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 17/36] fix: submodules are linked into their parent

---
 licant/cxx_modules.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 9891268..226fe13 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -116,10 +116,8 @@ def local_if_exist(base, local, solver, tbase, tlocal):
 def concat_to_submodule(base, local, solver, tbase, tlocal):
     if local is None:
         local = []
-    if base is None:
-        base = []
-    lm = [licant.modules.submodule(l) for l in local]
-    return base + lm
+    # What the base includes is already merged into the base options.
+    return [licant.modules.submodule(l) for l in local]
 
 
 def cxx_module_field_list():
@@ -525,7 +523,7 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         submodules_results = []
         # print(locopts["modules"])
         for smod in locopts["modules"]:
-            submodules_results += modmake(smod.name, smod.impl, locopts)
+            submodules_results += modmake(smod.name, smod.impl, locopts)[0]
 
         if locopts["type"] == "application":
             return ([executable(locobjs + submodules_results, locopts)], locopts)
-- 
2.43.0


From 4cc29a016b372a3488cb04c2c706a2987c290d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 18/36] fix: dependency files may name paths with any
 characters but spaces

---
 licant/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/util.py b/licant/util.py
index c91727c..a8c1711 100644
--- a/licant/util.py
+++ b/licant/util.py
@@ -237,7 +237,7 @@ def find_recursive(root, pattern, hide, debug):
     return result
 
 
-cxx_read_depends_pattern = re.compile(r"[\w./-]+")
+cxx_read_depends_pattern = re.compile(r"[^\s:\\]+")
 
 
 def cxx_read_depends(path):
-- 
2.43.0


From 8eee2a8d018a76acd116ce284381fea708a68bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:33 +0000
Subject: [PATCH 19/36] fix: cyclic dependencies on module implementations
 terminate

---
 licant/cxx_modules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 226fe13..2fcfb54 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -346,6 +346,7 @@ def collect_modules(mod):
     mdepends_default = queue.Queue()
     mdepends = dict()
     included_from = dict()
+    in_progress = []
 
     class SortKey:
         def __init__(self):
@@ -397,9 +398,11 @@ def collect_modules(mod):
 
                 specify_implementation(name=md[0], mod=nmod, incfrom=mod.name)
 
-                if "mdepends" in nmod.opts:
+                if "mdepends" in nmod.opts and nmod not in in_progress:
                     # Сразу же выполняем обход по данному модулю
+                    in_progress.append(nmod)
                     collect_modules(nmod)
+                    in_progress.pop()
 
             else:
                 licant.error("Very strange mpdepend")
-- 
2.43.0


From 3abf0f45f396ec02bc8b568a4371926f2183c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:33 +0000
Subject: [PATCH 20/36] fix: licant-libs --remove removes the named library

---
 licant/licant_libs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/licant/licant_libs.py b/licant/licant_libs.py
index 4f46556..5d31b91 100644
--- a/licant/licant_libs.py
+++ b/licant/licant_libs.py
@@ -75,6 +75,7 @@ def licant_libs_utility():
             add_record(name, path)
 
     if opts.remove:
+        name = args[0]
         try:
             del paths[name]
         except:
-- 
2.43.0


From 3ae1497090223fdc41170c72c8c6bba6e29a869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:33 +0000
Subject: [PATCH 21/36] fix: a failed or killed update does not damage the
 library registry

---
 licant/licant_libs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/licant/licant_libs.py b/licant/licant_libs.py
index 5d31b91..a878ff4 100644
--- a/licant/licant_libs.py
+++ b/licant/licant_libs.py
@@ -83,7 +83,9 @@ def licant_libs_utility():
 
     try:
         print(f"update: {paths_file}, text: {json.dumps(paths, indent=4)}")
-        json.dump(paths, open(paths_file, "w"))
+        with open(paths_file + ".new", "w") as f:
+            json.dump(paths, f)
+        os.replace(paths_file + ".new", paths_file)
     except IOError as e:
         print("Dump error:")
         print(e)
-- 
2.43.0


From 8550f1183654c9189494e693ad5a1e4e1f12272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:33 +0000
Subject: [PATCH 22/36] fix: sources differing only in extension get different
 objects

---
 licant/cxx_modules.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 2fcfb54..3668d59 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -235,22 +235,25 @@ def build_paths(srcs, opts, ext, prefix=None, builddir=None):
         builddir = opts.opts["builddir"]
 
     objs = []
+    used = {}
+
+    def build_path(path):
+        if os.path.isabs(path):
+            return os.path.normpath(builddir + path)
+        return os.path.normpath(
+            os.path.join(builddir, path.replace("..", "__")))
 
     for s in srcs:
+        src = os.path.normpath(s)
         if prefix:
             split = os.path.split(s)
             s = os.path.join(*split[:-1], prefix + split[-1])
-        if os.path.isabs(s):
-            s = builddir + gu.changeext(s, ext)
-            objs.append(s)
-        else:
-            objs.append(
-                os.path.normpath(
-                    os.path.join(
-                        builddir, gu.changeext(s, ext).replace("..", "__")
-                    )
-                )
-            )
+        obj = build_path(gu.changeext(s, ext))
+        # Different sources (a.c and a.cpp) need different files.
+        while used.setdefault(obj, src) != src:
+            s = s + "." + ext
+            obj = build_path(s)
+        objs.append(obj)
 
     return objs
 
-- 
2.43.0


From 68a5faf264bf171b7c2a1f7a24e7b179dd1d4a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:33 +0000
Subject: [PATCH 23/36] fix: the same headers can be installed to several
 places

---
 licant/install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/install.py b/licant/install.py
index 4a1ca26..27a4348 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -102,7 +102,7 @@ def install_headers(tgtdir, srcdir, patterns=("*.h", "*.hxx"), adddeps=[]):
 
     targets = [licant.copy(src=h, tgt=os.path.join(
         headers_path, tgtdir, os.path.relpath(h, srcdir)), adddeps=adddeps) for h in headers]
-    full_target = licant.fileset(tgt="headers://"+srcdir, targets=targets)
+    full_target = licant.fileset(tgt="headers://"+srcdir+":"+tgtdir, targets=targets)
 
     return full_target, targets
 
-- 
2.43.0


From 384c3b1ce81f00495a632fe564f23d3da5c77995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:44 +0000
Subject: [PATCH 24/36] fix: dependencies registered again after a build are
 honoured

---
 licant/core.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index 41bbe54..3898977 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -199,7 +199,6 @@ class Target:
 
         self.need_by_self = None
         self.need_by_deps = None
-        self.cached_deplist = None
 
     def to_name_if_needed(self, dep):
         if isinstance(dep, Target):
@@ -245,10 +244,7 @@ class Target:
             self.action(self)
 
     def get_deplist(self):
-        if self.cached_deplist is None:
-            self.cached_deplist = [self.core.get(d) for d in self.deps]
-
-        return self.cached_deplist
+        return [self.core.get(d) for d in self.deps]
 
     def actlist(self):
         print(licant.util.get_actions(self))
-- 
2.43.0


From 58197dc811887b633864fee9d14d007fd4695088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:13 +0000
Subject: [PATCH 25/36] fix: chains of dependencies may be longer than the
 recursion limit

---
 licant/core.py   | 37 +++++++++++++++++++++++++++++++------
 licant/solver.py | 18 +++++++++++++-----
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index 3898977..9b71cff 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -46,9 +46,32 @@ class Core:
     def evaluate_update_needity(self):
         if self.trace_mode():
             print("[Trace] evaluate_update_needity phase.")
-        for target in self._targets.values():
+        for target in self.targets_in_depends_order():
             target.evaluate_update_needity()
 
+    def targets_in_depends_order(self):
+        """All targets, dependencies first. Evaluation in this order does not
+        recurse deeply, however long the chains of dependencies are."""
+        visited = set()
+        ordered = []
+        for root in list(self._targets.values()):
+            stack = [(root, None)]
+            while stack:
+                target, deps = stack.pop()
+                if deps is None:
+                    if target in visited:
+                        continue
+                    visited.add(target)
+                    deps = iter(target.get_deplist()
+                                if isinstance(target, UpdatableTarget) else [])
+                dep = next(deps, None)
+                if dep is None:
+                    ordered.append(target)
+                else:
+                    stack.append((target, deps))
+                    stack.append((dep, None))
+        return ordered
+
     def update_update_needity(self):
         self.nullify_update_needity()
         self.evaluate_update_needity()
@@ -94,11 +117,13 @@ class Core:
         return False
 
     def depends_as_set_impl(self, tgt, accum):
-        target = self.get(str(tgt))
-        for d in target.deps:
-            if d not in accum:
-                accum.add(d)
-                self.depends_as_set_impl(d, accum)
+        queue = [tgt]
+        while queue:
+            target = self.get(str(queue.pop()))
+            for d in target.deps:
+                if d not in accum:
+                    accum.add(d)
+                    queue.append(d)
 
     def depends_as_set(self, tgt, incroot):
         if (tgt, incroot) in self.depends_as_set_lazy_cache:
diff --git a/licant/solver.py b/licant/solver.py
index 5553bca..c24fba3 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -237,12 +237,20 @@ class InverseRecursiveSolver:
     def dfs(self, target, visited, path):
         visited.add(target)
         path.append(target)
-        for dep in target.inverse_deps:
-            if dep in path:
+        on_path = {target}
+        stack = [iter(target.inverse_deps)]
+        while stack:
+            dep = next(stack[-1], None)
+            if dep is None:
+                stack.pop()
+                on_path.discard(path.pop())
+            elif dep in on_path:
                 raise CircularDependencyError(path + [dep])
-            if dep not in visited:
-                self.dfs(dep, visited, path)
-        path.pop()
+            elif dep not in visited:
+                visited.add(dep)
+                path.append(dep)
+                on_path.add(dep)
+                stack.append(iter(dep.inverse_deps))
 
     def connectivity_check(self, deptargets, non_dependable_targets):
         visited = set()
-- 
2.43.0


From 611316ad619951526d80d647ab862920ff2ca4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:53 +0000
Subject: [PATCH 26/36] fix: an interrupt can no longer hang the build

---
 licant/solver.py | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/licant/solver.py b/licant/solver.py
index c24fba3..f374a6d 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -2,6 +2,8 @@ import asyncio
 from concurrent.futures import ThreadPoolExecutor
 from licant.util import invert_depends_dictionary, red
 import contextlib
+import signal
+import threading
 import traceback
 
 
@@ -86,17 +88,29 @@ class TaskInvoker:
         self.error_while_execution = False
 
     def run_until_complete(self):
-        try:
-            self.loop.run_until_complete(self.start())
-            self.loop.close()
-        except KeyboardInterrupt:
+        self.interrupted = False
+        main_task = self.loop.create_task(self.start())
+
+        # KeyboardInterrupt raised in the middle of the event loop may lose
+        # a wakeup and hang the loop, so an interrupt cancels the main task.
+        def interrupt(signum, frame):
+            self.interrupted = True
             self.error_while_execution = True
-            all_tasks = asyncio.gather(*self.tasks, return_exceptions=True)
-            all_tasks.cancel()
+            self.loop.call_soon_threadsafe(main_task.cancel)
+
+        catch = (threading.current_thread() is threading.main_thread()
+                 and signal.getsignal(signal.SIGINT) is signal.default_int_handler)
+        if catch:
+            signal.signal(signal.SIGINT, interrupt)
+        try:
             with contextlib.suppress(asyncio.CancelledError):
-                self.loop.run_until_complete(all_tasks)
-            self.loop.run_until_complete(self.loop.shutdown_asyncgens())
-            raise
+                self.loop.run_until_complete(main_task)
+        finally:
+            if catch:
+                signal.signal(signal.SIGINT, signal.default_int_handler)
+        self.loop.close()
+        if self.interrupted:
+            raise KeyboardInterrupt()
 
     async def start(self):
         if self.trace:
@@ -107,13 +121,14 @@ class TaskInvoker:
                 self.worker(f'worker-{i}', self.queue, i))
             self.tasks.append(task)
 
-        await self.queue.join()
-
-        for task in self.tasks:
-            task.cancel()
+        try:
+            await self.queue.join()
+        finally:
+            for task in self.tasks:
+                task.cancel()
 
-        # Wait until all worker tasks are cancelled.
-        await asyncio.gather(*self.tasks, return_exceptions=True)
+            # Wait until all worker tasks are cancelled.
+            await asyncio.gather(*self.tasks, return_exceptions=True)
 
     async def worker(self, name, queue, no):
         while True:
@@ -130,7 +145,7 @@ class TaskInvoker:
 
                 try:
                     result = await task.doit()
-                except Exception:
+                except (Exception, KeyboardInterrupt):
                     traceback.print_exc()
                     result = False
                 self.queue.task_done()
-- 
2.43.0


From 9b8893924096799323e58faaa64a0c27cb2e3516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:39 +0000
Subject: [PATCH 27/36] fix: a default routine's invoke_routine and update can
 be named on the command line

---
 licant/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index 9b71cff..3ad7097 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -416,7 +416,7 @@ class UpdatableTarget(Target):
 
 class Routine(UpdatableTarget):
     __actions__ = {"recurse_update",
-                   "recurse_update_get_args", "invoke_routine" "update", "actlist"}
+                   "recurse_update_get_args", "invoke_routine", "update", "actlist"}
 
     def __init__(self,
                  func,
-- 
2.43.0


From 232ff5ec805cc11e8800d3dc9fab4c4858adb62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 28/36] fix: libraries can be submodules of an application

---
 licant/cxx_modules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 3668d59..74487a3 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -529,7 +529,9 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         submodules_results = []
         # print(locopts["modules"])
         for smod in locopts["modules"]:
-            submodules_results += modmake(smod.name, smod.impl, locopts)[0]
+            for res in modmake(smod.name, smod.impl, locopts)[0]:
+                # A library gives its target, objects give their paths.
+                submodules_results.append(getattr(res, "tgt", res))
 
         if locopts["type"] == "application":
             return ([executable(locobjs + submodules_results, locopts)], locopts)
-- 
2.43.0


From c628d803232bad3b8b746c69bc20c55033097909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 29/36] fix: include paths of a submodule's generated headers
 stay its own

---
 licant/cxx_modules.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 74487a3..1fb4f4e 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -467,8 +467,9 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
 
         local_headers_targets = []
         if len(locopts["local_headers"]):
-            locopts["include_paths"].append(
-                locopts["builddir"] + "/__LOCAL_HEADERS__/")
+            # The list may be the parent's: a new one is needed.
+            locopts.opts["include_paths"] = locopts["include_paths"] + [
+                locopts["builddir"] + "/__LOCAL_HEADERS__/"]
             for pair in locopts["local_headers"]:
                 licant.make.source(pair[1])
                 tgtpath = os.path.join(
@@ -503,7 +504,7 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
             adddeps.extend(locuihxx)
 
             if uidir not in locopts.opts["include_paths"]:
-                locopts.opts["include_paths"].append(uidir)
+                locopts.opts["include_paths"] = locopts["include_paths"] + [uidir]
 
             # Recompile with ui include path
             cxxopts = cxx_options_from_modopts(locopts)
-- 
2.43.0


From ace2dc90658241b517c42bea318f73f7007f5277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 30/36] fix: every source of an application is linked once,
 submodules included

---
 licant/cxx_modules.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 1fb4f4e..ea538f0 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -230,12 +230,13 @@ def cxx_options_from_modopts(modopts):
     )
 
 
-def build_paths(srcs, opts, ext, prefix=None, builddir=None):
+def build_paths(srcs, opts, ext, prefix=None, builddir=None, used=None):
     if builddir is None:
         builddir = opts.opts["builddir"]
 
     objs = []
-    used = {}
+    if used is None:
+        used = {}
 
     def build_path(path):
         if os.path.isabs(path):
@@ -258,6 +259,14 @@ def build_paths(srcs, opts, ext, prefix=None, builddir=None):
     return objs
 
 
+def once(paths):
+    # The same file may be named several times (diamond includes, patterns).
+    found = {}
+    for p in paths:
+        found.setdefault(os.path.normpath(p), p)
+    return list(found.values())
+
+
 def sources_paths(opts):
     ret = []
     for s in opts["sources"]:
@@ -265,7 +274,7 @@ def sources_paths(opts):
             ret.extend(glob.glob(s))
         else:
             ret.append(s)
-    return ret
+    return once(ret)
 
 
 def qt_moc_paths(opts):
@@ -436,6 +445,7 @@ def collect_modules(mod):
 def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
     opts = CXXModuleOptions(**kwargs)
     opts.set_default_if_empty()
+    used = {}  # paths taken by the objects of the module and its submodules
 
     def modmake(name, impl, baseopts):
         mod = mlibrary.get(name, impl)
@@ -489,8 +499,8 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
                 adddeps.append(dep)
 
         locsrcs = sources_paths(locopts)
-        locobjs = build_paths(locsrcs, locopts, "o")
-        locdeps = build_paths(locsrcs, locopts, "d")
+        locobjs = build_paths(locsrcs, locopts, "o", used=used)
+        locdeps = build_paths(locsrcs, locopts, "d", used=used)
 
         cxxopts = cxx_options_from_modopts(locopts)
 
@@ -512,8 +522,10 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         if len(locopts["qt_moc"]) != 0:
             locmoc = qt_moc_paths(locopts)
             locmoccxx = build_paths(locmoc, locopts, "h.cxx")
-            locmocobjs = build_paths(locmoc, locopts, "h.cxx.o")
-            locmocdeps = build_paths(locmoc, locopts, "h.cxx.d")
+            locmocobjs = build_paths(
+                locmoc, locopts, "h.cxx.o", used=used)
+            locmocdeps = build_paths(
+                locmoc, locopts, "h.cxx.d", used=used)
             link_qt_moc(locmoc, locmoccxx, cxxopts, adddeps)
 
             locsrcs.extend(locmoccxx)
@@ -523,13 +535,15 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         link_objects(locsrcs, locobjs, locdeps, cxxopts, adddeps)
 
         if len(locopts["objects"]) != 0:
-            for t in locopts["objects"]:
+            objects = once(locopts["objects"])
+            for t in objects:
                 licant.make.source(t)
-            locobjs.extend(locopts["objects"])
+            locobjs.extend(objects)
 
         submodules_results = []
         # print(locopts["modules"])
-        for smod in locopts["modules"]:
+        submodules = {(m.name, m.impl): m for m in locopts["modules"]}
+        for smod in submodules.values():
             for res in modmake(smod.name, smod.impl, locopts)[0]:
                 # A library gives its target, objects give their paths.
                 submodules_results.append(getattr(res, "tgt", res))
-- 
2.43.0


From 346f1da2220152b3508145e916000d2036850704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:05 +0000
Subject: [PATCH 31/36] fix: applications sharing a submodule get their own
 local headers

---
 licant/cxx_modules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index ea538f0..7e255e8 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -490,7 +490,8 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
                 local_headers_targets.append(tgtpath)
 
         licant.make.fileset(name + "__local_headers__", local_headers_targets)
-        adddeps.append(name + "__local_headers__")
+        # Another application may have its own fileset of this name.
+        adddeps.extend(local_headers_targets)
 
         for dep in locopts["depends"]:
             if "*" in dep:
-- 
2.43.0


From a9db0425d7ea27756e99e84abce653a3e7e5ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 32/36] fix: dependencies found before a failed compilation are
 looked for again

---
 licant/cxx_modules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 7e255e8..6507ae4 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -304,7 +304,10 @@ def link_objects(srcs, objs, deps, cxxopts, adddeps):
             licant.make.source(s)
 
         headers = cxx_read_depends(d)
-        force = headers is None
+        # A compiler may leave out headers it cannot find: dependencies
+        # are good once the object has been compiled after them.
+        force = headers is None or not os.path.exists(
+            o) or os.path.getmtime(o) < os.path.getmtime(d)
         if headers is None:
             headers = []
         else:
-- 
2.43.0


From 56b39873ac3de185e5f514ecff207f1eeb32f65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:32 +0000
Subject: [PATCH 33/36] fix: an application can be installed without naming the
 target

---
 licant/install.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/install.py b/licant/install.py
index 27a4348..5705916 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -81,9 +81,9 @@ def install_application(src, dst, tgt=None):
         return None
 
     apptgt = os.path.join(path, dst)
-    if tgt is None:
-        tgt = apptgt
     licant.make.copy(tgt=apptgt, src=src)
+    if tgt is None:
+        return apptgt
     return licant.fileset(tgt=tgt, targets=[apptgt])
 
 
-- 
2.43.0


From 22c94b2c4a9e411a838f8241f990ac656f47cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:36 +0000
Subject: [PATCH 34/36] fix: a failed moc or uic does not leave an output that
 looks up to date

---
 licant/cxx_make.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/licant/cxx_make.py b/licant/cxx_make.py
index f278dd4..f7c60ef 100644
--- a/licant/cxx_make.py
+++ b/licant/cxx_make.py
@@ -112,8 +112,9 @@ class options:
         self.ccobjrule = "{opts.toolchain.cc} -c {src} -o {tgt} {opts.incopt} {opts.defopt} {opts.cc_flags} {opts.optimize}"
         self.cxxdeprule = "{opts.toolchain.cxx} -MM {src} > {tgt} {opts.incopt} {opts.defopt} {opts.cxx_flags}"
         self.ccdeprule = "{opts.toolchain.cc} -MM {src} > {tgt} {opts.incopt} {opts.defopt} {opts.cc_flags}"
-        self.mocrule = "{opts.toolchain.moc} {src} > {tgt}"
-        self.uicrule = "{opts.toolchain.uic} {src} > {tgt}"
+        # A failed moc or uic must not leave a file that looks up to date.
+        self.mocrule = "{opts.toolchain.moc} {src} > {tgt}.new && mv {tgt}.new {tgt}"
+        self.uicrule = "{opts.toolchain.uic} {src} > {tgt}.new && mv {tgt}.new {tgt}"
 
     def __str__(self):
         return "(toolchain:{}, incopt:{}, defopt:{}, cxx_flags:{}, cc_flags:{}, ld_flags:{}, ld_srcs_add:{}, ldscripts:{})".format(
-- 
2.43.0


From 9d8d85889485b020aed75e3a5083cd8a11320be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:36 +0000
Subject: [PATCH 35/36] fix: moc outputs of headers of one stem are kept apart,
 and each header is linked once

---
 licant/cxx_modules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 6507ae4..ac68fe8 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -284,7 +284,7 @@ def qt_moc_paths(opts):
             ret.extend(glob.glob(s))
         else:
             ret.append(s)
-    return ret
+    return once(ret)
 
 
 def qt_ui_paths(opts):
@@ -294,7 +294,7 @@ def qt_ui_paths(opts):
             ret.extend(glob.glob(s))
         else:
             ret.append(s)
-    return ret
+    return once(ret)
 
 
 def link_objects(srcs, objs, deps, cxxopts, adddeps):
@@ -525,7 +525,7 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
 
         if len(locopts["qt_moc"]) != 0:
             locmoc = qt_moc_paths(locopts)
-            locmoccxx = build_paths(locmoc, locopts, "h.cxx")
+            locmoccxx = build_paths(locmoc, locopts, "h.cxx", used=used)
             locmocobjs = build_paths(
                 locmoc, locopts, "h.cxx.o", used=used)
             locmocdeps = build_paths(
-- 
2.43.0


From 687f3ba770a6a9a84d03ca8230532ae4011f0203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:52 +0000
Subject: [PATCH 36/36] fix: files are copied whatever characters their paths
 contain

---
 licant/make.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index 0d102b7..67b150e 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -245,6 +245,12 @@ def makedir(dirpath, message="MKDIR {tgt}"):
     return dirkeep(dirpath, message)
 
 
+def do_copy(target):
+    """Copy the file, whatever characters its path contains."""
+    rule = "cp {} {}".format(shlex.quote(target.src), shlex.quote(target.tgt))
+    return do_execute(target, rule.replace("{", "{{").replace("}", "}}"), "message")
+
+
 def copy(tgt, src, adddeps=[], message="COPY {src} {tgt}", core=default_core()):
     """Make the file copy target."""
     src = os.path.expanduser(str(src))
@@ -254,7 +260,7 @@ def copy(tgt, src, adddeps=[], message="COPY {src} {tgt}", core=default_core()):
     core.add(
         FileTarget(
             tgt=tgt,
-            build=Executor("cp {src} {tgt}"),
+            build=do_copy,
             src=src,
             deps=[src] + adddeps,
             message=message,
@@ -341,7 +347,7 @@ class MakeCore(Core):
         self.source(src)
         return self.add(FileTarget(
             tgt=dst,
-            build=Executor("cp {src} {tgt}"),
+            build=do_copy,
             src=src,
             deps=[src] + dirdeps + deps,
             use_dirkeep=False,
-- 
2.43.0

