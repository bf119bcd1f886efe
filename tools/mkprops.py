#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

S, C, M, L, U = "licant/solver.py", "licant/core.py", "licant/make.py", "licant/cli.py", "licant/util.py"
X, CM, MO, LB, LL, SC, IN, CA = ("licant/cxx_make.py", "licant/cxx_modules.py", "licant/modules.py", "licant/libs.py",
    "licant/licant_libs.py", "licant/scripter.py", "licant/install.py", "licant/cache.py")

p("C01", "Dependencies finish before their dependents start",
  "For every acyclic target graph, worker count and completion schedule, the action of a target starts only after the actions of all the targets it depends on, directly or transitively, have finished successfully.",
  ["schedules", "inputs"], "every acyclic graph of targets, every number of workers >= 1, every order in which running actions complete",
  "One 5-node graph with 3 threads and uncontrolled timing is executed; no test controls completion order.",
  [S, C], [("readiness counting", S+":DependableTargetRuntime.decrease_inverse_deps_count"), ("inverse dependency map", U+":invert_depends_dictionary"), ("closure to solver nodes", C+":UpdatableTarget.recurse_update")],
  [("depcount", "number of unfinished dependencies of a queued-to-be target", S+":DependableTargetRuntime")], ["start/end of target actions"])
p("C02", "A build of good actions terminates, complete, once each, and succeeds",
  "A build of an acyclic graph in which no action fails always terminates and reports success. By then every out-of-date target of the requested closure has had its action performed exactly once, for every worker count and completion schedule, and whatever non-False value the actions return.",
  ["schedules", "inputs", "configurations"], "every acyclic graph, worker count, completion order and non-False action result",
  "Tests run a handful of graphs and never bound the number of executions; lost wake-ups or lost workers need particular completion orders.",
  [S, C], [("worker loop and queue join", S+":TaskInvoker.worker/start"), ("exec", S+":InverseRecursiveSolver.exec")],
  [("queue", "ready targets", S+":TaskInvoker")], ["action start/end", "return value of the build"])
p("C03", "A failing action stops the build and is reported",
  "When an action fails (returns False, raises an exception, or its command exits non-zero) no target that depends on it, directly or transitively, is ever started, and once the failure has been registered no further target at all is started. Actions already running are allowed to finish, then the build terminates (it never hangs) and reports failure to its caller; other graphs' later builds are unaffected.",
  ["schedules", "fault_sequences"], "every acyclic graph, set of failing actions, kind of failure, worker count and completion order",
  "No test contains a failing action at all.",
  [S, M, C], [("error flag", S+":TaskInvoker.worker"), ("queue draining", S+":TaskInvoker.release_queue"), ("command status", M+":do_execute")],
  [("error_while_execution", "a failure has been registered", S+":TaskInvoker")], ["action start/end", "return value of the build"])
p("C04", "Workers: never more than N at once, never idle while work is ready",
  "With N workers (N >= 1) at most N actions run at the same time. Whenever a target of the running build is ready (all its dependencies finished) and fewer than N actions run and nothing failed, it is started without waiting for any running action to finish.",
  ["schedules", "configurations"], "every acyclic graph, N >= 1 and completion order",
  "No test observes how many actions run concurrently.",
  [S, L], [("one worker coroutine per thread", S+":TaskInvoker.start"), ("threads option", L+":cliexecute")],
  [], ["set of running actions at quiescent points"])
p("C05", "Malformed graphs are rejected before any action runs",
  "If the targets to be built contain a dependency cycle (of any length, reachable or not from a target without dependencies) or a dependency on a target that does not exist, the build is refused with an error: no action of it runs and it does not hang.",
  ["inputs"], "every directed graph with a cycle or a dangling dependency in the closure of the requested target, any declaration order",
  "Two malformed graphs are tested, of three and five nodes, at solver level only.",
  [S, C], [("cycle search", S+":InverseRecursiveSolver.dfs/connectivity_check"), ("name lookup", S+":collect_depends_of_targets"), ("registry lookup", C+":Core.get")],
  [], ["exception or error exit of the build", "absence of action starts"])
p("C06", "Incremental builds are as good as building from scratch",
  "Provided commands are deterministic, write their output only when they succeed, and edits advance file times, after any history of source edits, touches, deletions of generated files or directories, partial, failed or killed builds and cleans, a successful build of a target leaves every generated file in its closure with exactly the content a build from scratch would give. This holds also for dependencies reached through filesets and through wildcards, and for a build killed between any two actions.",
  ["histories", "crash_points", "inputs"], "every acyclic file-target graph (sources, generated files, forced files, filesets, directories) and every history of edits/builds/kills/failures/cleans",
  "Tests do one or two builds of one- or two-step copies; no history with failures, kills or partial builds is tried.",
  [M, C, CA], [("out-of-date test", M+":FileTarget.internal_update_if"), ("propagation of need", C+":UpdatableTarget.recursive_update_needed_request"), ("file info cache", CA+":FileCache")],
  [("need_update", "target must act in this invocation", C+":UpdatableTarget"), ("fcache", "existence and mtime per path", CA)], ["file contents after a build"])
p("C07", "Only out-of-date targets act; a repeated build does nothing",
  "A build performs the action of a target only if the target itself or something in its dependency closure is out of date: missing, forced, strictly older than a direct file dependency (a fileset counts as its newest member, a directory never), or asked for by its own update condition; and it performs it in every such case. In particular repeating a successful build with nothing changed performs no action, except forced and always-updating targets and what depends on them.",
  ["histories", "inputs"], "every acyclic graph and history of edits and builds, including equal time stamps",
  "One test checks that one copied file is not copied again.",
  [M, C, CA], [("strict comparison", M+":FileTarget.internal_update_if"), ("fileset time", M+":MakeFileTarget.mtime"), ("need evaluation", C+":Core.update_update_needity")],
  [], ["set of actions performed by a build"])
p("C08", "Sources are never touched; clean removes exactly the generated files",
  "No build or clean ever modifies or deletes a source file or any file that is not a generated target of the requested closure. Cleaning a target deletes every existing generated file in its closure and nothing else: no source, no directory, no file outside the closure, whatever characters the file names contain.",
  ["histories", "inputs"], "every graph, every history of builds/cleans, file names with spaces and shell metacharacters for files produced by Python builders",
  "clean is never called by a test.",
  [M, C], [("clean walk", M+":MakeFileTarget.clean"), ("deletion", M+":FileTarget.clr"), ("source marking", M+":source")],
  [], ["directory tree before/after"])
p("C09", "Output directories exist in time and never cause rebuilds",
  "The directory of an output file, at any nesting depth, that is missing when the file is declared through the API is created before that file's action runs, for any worker count and number of files sharing it. Directories are created only when missing, are never removed by clean, and their time stamps never make a target out of date.",
  ["histories", "schedules", "inputs"], "every set of output paths with shared/nested missing directories, any worker count, directories removed between builds",
  "Tests create one level of directory with one worker, and never rebuild with a newer directory.",
  [M], [("dirkeep", M+":dirkeep/MakeCore.dirkeep"), ("DirectoryTarget", M+":DirectoryTarget"), ("DirectoryKeeper", M+":DirectoryKeeper")],
  [], ["existence of directories when actions run", "actions of later builds"])
p("C10", "Path spelling and declaration order do not matter",
  "A file target is the same target under every spelling of its path (absolute, relative, ./, a/../, through a symlinked directory), and targets may be declared before or after the targets they depend on. Every such variation of a project gives the same actions, files and results for the same history of edits and builds, also when outputs of earlier sessions already exist.",
  ["inputs", "histories"], "every combination of spelling per reference and declaration order, over histories spanning several sessions",
  "Tests declare dependencies first and use one absolute spelling.",
  [C, U, M], [("canonical lookup", C+":Core.get/has/add"), ("canonical path", U+":canonical_path")],
  [("_targets", "registry of targets by name", C+":Core")], ["actions and files compared between variants"])
p("C11", "A command succeeds exactly when it exits 0, whatever it prints",
  "A command-built target succeeds if and only if its shell command exits with status 0; any other status or death by signal is a failure. This holds, without hanging, for any amount of output on standard output and error in any interleaving and for any bytes, and printable output is passed on completely.",
  ["inputs", "schedules"], "every exit status/signal, output size (beyond pipe capacity) on either stream, output bytes (including invalid UTF-8)",
  "Tests run only quiet successful commands.",
  [M], [("do_execute", M+":do_execute")], [], ["build result", "captured output", "termination"])
p("C12", "Routines run per invocation with exactly the given arguments",
  "Invoking a routine runs its dependencies first and then the routine itself exactly once, with exactly the positional arguments given to that invocation; routines run as dependencies get no arguments, whatever was passed earlier. A routine whose update condition is false and whose dependencies need nothing is not run, and the conditions are re-evaluated at every invocation.",
  ["histories", "inputs"], "every history of routine invocations with arguments over every acyclic routine graph and every assignment of update conditions",
  "Two routines without dependencies or arguments are tested.",
  [C], [("invoke_routine", C+":Routine.invoke_routine"), ("routine decorator", C+":Core.routine"), ("need reset", C+":Core.update_update_needity")],
  [], ["calls of routine functions with arguments"])
p("C13", "The command line selects the right target, action and arguments",
  "With no free arguments the default target's default action runs; a first argument naming a target runs its default action, or the action named by the second argument with the remaining arguments unchanged (a routine takes all remaining arguments itself); otherwise a first argument naming an action of the default target runs that action with the remaining arguments unchanged. Anything else (unknown name, unknown action, no default) performs no action and is an error; exactly one action is performed otherwise.",
  ["inputs", "configurations"], "every argument vector, registry of targets/routines and default target",
  "Only licant.ex with an empty command line is tested.",
  [L, C], [("dispatch", L+":__cliexecute"), ("invoke", C+":Target.invoke")], [], ["action calls with arguments", "exit"])
p("C14", "Process exit status tells whether the requested work succeeded",
  "A build script driven through the command-line entry point exits with status 0 if the requested action succeeded, and with a non-zero status if a target's action failed, a routine failed or raised, the request was not understood, a dependency was missing or cyclic, or it was interrupted.",
  ["inputs", "fault_sequences"], "every request and every position of a failing action in the closure, every worker count",
  "No test looks at exit status; failing builds are not tested.",
  [L, S, U], [("cliexecute", L+":cliexecute"), ("error exit", U+":error")], [], ["exit status"])
p("C15", "Module dependencies resolve to one consistent implementation set",
  "Resolving a module's dependencies yields every module reachable through module dependencies exactly once, in exactly one implementation: the explicitly requested one if any reached module requests one, otherwise the registered default (the one declared last, if several); nothing else is included, and cyclic module dependencies are fine. Requests are taken in the order listed: an explicit one at once, together with what it requests itself, while defaults are chosen first come, first served after that, each with what it requests itself before the next. Contradictory explicit requests (an explicit request for another implementation than the one already chosen), a missing module, a missing implementation or a missing default stop with an error instead of a silent choice.",
  ["inputs"], "every module library with variants/defaults, and every dependency graph over it including cycles",
  "One application without any module dependency is tested.",
  [CM, MO], [("collect_modules", CM+":collect_modules"), ("library", MO+":ModuleLibrary")],
  [("mdepends", "chosen implementation per module", CM+":collect_modules"), ("defimpls", "default implementation per module", MO+":ModuleLibrary")], ["resolved module set", "error exit"])
p("C16", "Module options compose by the documented rules",
  "The command lines of an application or library consist of its own options plus those of all included modules (included at any nesting, or reached by module dependencies), and its submodules inherit their parent's options: list options (sources, include paths, defines, libraries, library paths, flags, linker scripts, local headers) accumulate, own ones first, with paths taken relative to the declaring module's directory, while scalar options (toolchain, build directory, target, debug, optimization, type) of included modules never override the application's. Building several applications from the same modules, each in its own build directory, gives each the result it would have alone.",
  ["configurations", "inputs"], "every assignment of options to application, included modules, module dependencies and submodules",
  "One application with one source and no options is tested.",
  [CM, X], [("merge table", CM+":cxx_module_field_list"), ("merge", CM+":CXXModuleOptions.merge"), ("prepare_targets", CM+":prepare_targets")], [], ["compiler and linker command lines (recording toolchain)"])
p("C17", "A changed header recompiles exactly the objects that include it",
  "After any history of edits to sources and headers, including adding, removing or moving include directives, deleting dependency files or failed compilations, a successful build leaves every object and binary as a build from scratch would. It recompiles exactly those sources that changed, that include, directly or indirectly, a changed header, or whose dependency file was deleted, and relinks exactly when an object changed; a repeated build compiles nothing. (A header appearing earlier in the search path than the one in use is not a change.)",
  ["histories"], "every include graph and history of source/header edits, include changes and failures over several sessions",
  "One program without headers is compiled once.",
  [CM, X, U], [("dependency files", CM+":link_objects"), ("dependency reader", U+":cxx_read_depends"), ("forced depend", CM+":link_objects force")], [], ["compiler runs and outputs (recording toolchain)"])
p("C18", "Every source of an application gets its own object file",
  "Within one application or library, distinct source files are compiled to distinct object files, every source (its own and its included modules') is compiled, and every object is linked exactly once, whatever the source names, extensions and directories; objects stay inside the build directory.",
  ["inputs"], "every list of distinct source paths (same base name in different directories, different extensions, .., absolute)",
  "One source file is tested.",
  [CM], [("build_paths", CM+":build_paths")], [], ["compiler and linker command lines"])
p("C19", "Scripts and libraries: once each, right directory, right precedence",
  "An included library's script runs at most once per session; a library is looked up at the explicitly given path, else in the user's registry, else in the system registry, and an unknown library is an error. Every sub-script is found relative to the directory of the script that names it, at any nesting, paths declared in it are relative to its own directory, and after it returns the including script's directory is in effect again.",
  ["inputs", "configurations"], "every tree of scripts including each other directly, recursively by pattern or as libraries, and every pair of registries",
  "No test executes a sub-script or includes a library.",
  [SC, LB, "licant/__init__.py"], [("script stack", SC+":ScriptQueue"), ("include", LB+":include")],
  [("stack", "scripts being executed", SC+":ScriptQueue"), ("included", "libraries already included", LB)], ["order and directory of script executions"])
p("C20", "The library registry holds exactly what was registered",
  "After any history of add, add-directory, remove and list operations, for user or system registry, the registry maps exactly the added and not since removed names to the absolute path last given; a rejected operation (missing path, unknown name, bad arguments) changes nothing, and the other registry is never affected. An update that fails or is killed leaves either the old or the new registry, never a damaged one.",
  ["histories", "crash_points"], "every history of registry operations with a crash at any point of the update",
  "The registry utility has no test.",
  [LL, LB], [("utility", LL+":licant_libs_utility"), ("add_record", LL+":add_record")], [("paths", "registry contents", LL)], ["registry file contents"])
p("C21", "Install mirrors exactly the selected files; uninstall removes exactly them",
  "Installing a library, application or header tree copies each selected file (every header matching the patterns, at its path relative to the header root) with identical content to its place under the prefix and changes nothing else there; re-installing copies only what changed. The uninstall target deletes exactly the files its install target puts there, leaving other files and the sources alone.",
  ["histories", "inputs"], "every header tree, pattern list and history of edits, installs and uninstalls",
  "install is not tested (install_test only uses touch).",
  [IN, M], [("install_headers/install_library", IN), ("uninstall via weak dependencies", IN+":install_library")], [], ["files under the prefix"])
p("C22", "An interrupt stops the build cleanly",
  "When the user interrupts a build at any moment, no further target is started, running actions end, and the process terminates with a non-zero status instead of hanging. A later build then completes the work correctly.",
  ["crash_points", "schedules"], "an interrupt delivered at any point between the first action's start and the last action's end, any graph and worker count",
  "Interrupts are not tested.",
  [S, L], [("KeyboardInterrupt handling", S+":TaskInvoker.run_until_complete"), ("error exit", L+":cliexecute")], [], ["action starts after the interrupt", "exit status"])
p("C23", "A build acts only inside the requested target's closure",
  "Building, cleaning or running a target performs actions only of that target and the targets it depends on; other registered targets, however out of date, and other cores are neither acted upon nor changed. The closure is that of the targets registered at the moment of the request, including targets and dependencies registered after earlier builds of the same session.",
  ["histories", "inputs"], "every graph with unrelated out-of-date targets; histories interleaving registration and builds in one session, with several cores",
  "Tests register hardly any unrelated target and never extend a graph after a build.",
  [C], [("closure", C+":Core.depends_as_set"), ("recurse_update", C+":UpdatableTarget.recurse_update")], [], ["actions performed"])
p("C24", "Output and parallelism options never change what is done",
  "Quiet, debug, trace, print-runtime and thread-count options never change which actions are performed, their results, the files produced or the exit status.",
  ["configurations", "histories"], "every combination of -q, -d, -t, --printruntime and -j N over histories of builds, failures and cleans",
  "Only the default options are tested.",
  [L, M, C], [("runtime flags", L+":cliexecute"), ("do_execute printing", M+":do_execute")], [], ["actions, files, exit status compared between option sets"])
p("C25", "Within a session, later requests see the effects of earlier ones",
  "In one session, any sequence of build and clean requests on overlapping targets behaves as if each request were made in a fresh session: what an earlier request built is not rebuilt, what it cleaned or failed to build is, and after a file's information is refreshed an external change of it is honoured.",
  ["histories"], "every sequence of builds, failing builds, cleans and refreshed external changes in one process, over every graph",
  "One test repeats one copy and one refresh.",
  [C, M, CA], [("per-invocation need evaluation", C+":Target.invoke"), ("cache refresh after update", M+":FileTarget.update"), ("cache", CA+":FileCache")], [], ["actions and files compared with fresh sessions"])
p("C26", "Generated sources and tool steps stay complete and up to date",
  "Every header listed for moc is run through it, and its output is compiled with the options of the unit that lists it and linked exactly once; every form listed for uic becomes a header ui_NAME.h on the include path, up to date before any source of the unit is scanned or compiled. Distinct inputs have distinct outputs, inside the build directory. After any history of edits, lost outputs and failing tools, a successful build repeats exactly the steps (generation, compilation, linking, archiving, objcopy, javac, dex) whose inputs changed, whose output is missing or which failed, and those depending on them, and leaves every output as a build from scratch would; a failed build reports failure, and a repeated build runs no step.",
  ["histories", "inputs"], "every set of moc headers and forms in included modules and submodules, applications, libraries, images and Java builds over them, and every history of edits, losses and tool failures",
  "No test generates a source, archives a library, copies an object or compiles Java.",
  [CM, X, "licant/java_make.py"], [("moc and uic rules", CM+":qt_moc_paths"), ("rules of the C++ maker", X), ("link_objects", CM+":link_objects"), ("Java steps", "licant/java_make.py")], [], ["command lines of the tools (recording toolchain)", "contents of the files produced"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
