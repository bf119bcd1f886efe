------------------------------- MODULE Build -------------------------------
(* Projects of files: sources, generated files, filesets, directories and    *)
(* targets with a condition of their own, and their life over many requests, *)
(* sessions (processes), edits, failures and crashes.                        *)
(*                                                                           *)
(* A project p:                                                              *)
(*   n          number of nodes; a node is one of                            *)
(*   kind[t]    "src"  a source file                                         *)
(*              "gen"  a file made by an action from its dependencies        *)
(*              "set"  a fileset (a name for its dependencies)               *)
(*              "upd"  a target without file, acting when its condition says *)
(*              "dir"  a directory asked for by name                         *)
(*   deps[t]    dependencies, in the order the action reads them             *)
(*   deps0[t]   what t is declared with when a session starts (mostly deps)  *)
(*   late[t]    t is not declared when a session starts                      *)
(*   glob[t]    sources matched by a wildcard of t if they exist when t is   *)
(*              declared                                                     *)
(*   force[t]   t is always out of date                                      *)
(*   copy[t]    a "gen" whose content is that of its only dependency         *)
(*   exists[t]  a "src" is there from the beginning                          *)
(*   cond[t]    initial condition of an "upd"                                *)
(*   dir[t]     the output directory of t (0: one that always exists)        *)
(*   nd, parent[d]   directories and the directory each one lies in          *)
(*                                                                           *)
(* As in Solver, XxxBad gives the violated clauses and XxxEff the effect.    *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

If(b, x) == IF b THEN {x} ELSE {}
Max2(a, b) == IF a > b THEN a ELSE b
Range(q) == {q[i] : i \in DOMAIN q}

Nodes(p) == 1..p.n
IsFile(p, t) == p.kind[t] \in {"src", "gen"}
Acts(p, t) == p.kind[t] \in {"gen", "upd"}

RECURSIVE Up(_, _)      \* a directory and those it lies in
Up(p, d) == IF d = 0 THEN {} ELSE {d} \cup Up(p, p.parent[d])
Under(p, d) == {e \in 1..p.nd : d \in Up(p, e)}

-----------------------------------------------------------------------------
(* What is on disk and known: s.file[t] ("" when missing), s.time[t],        *)
(* s.dirs, s.cond, s.ver (edits so far); the session: s.decl (declared       *)
(* nodes), s.deps (their dependencies, wildcards expanded), s.managed        *)
(* (directories missing when the session started), s.fresh (declared after   *)
(* a request of the session).                                                *)

DepSet(s, t) == Range(s.deps[t])

RECURSIVE GrowB(_, _)
GrowB(s, S) ==
  LET T == S \cup UNION {DepSet(s, t) : t \in S \cap DOMAIN s.deps}
  IN IF T = S THEN S ELSE GrowB(s, T)
Below(s, t) == GrowB(s, DepSet(s, t))
ClosureB(s, root) == GrowB(s, {root})

\* the files a target reads through its dependencies, filesets flattened
RECURSIVE Reads(_, _, _)
Reads(p, s, q) ==
  IF q = <<>> THEN <<>>
  ELSE LET t == Head(q) IN
       (CASE IsFile(p, t) -> <<t>>
          [] p.kind[t] = "set" -> Reads(p, s, s.deps[t])
          [] OTHER -> <<>>) \o Reads(p, s, Tail(q))

\* the newest of the files an out-of-date test looks at
Newest(p, s, t) ==
  LET F == {s.time[u] : u \in Range(Reads(p, s, s.deps[t]))}
  IN IF F = {} THEN 0 ELSE CHOOSE x \in F : \A y \in F : y <= x

StaleB(p, s, t) ==
  CASE p.kind[t] = "src" -> s.file[t] = ""
    [] p.kind[t] = "gen" -> p.force[t] \/ s.file[t] = "" \/ Newest(p, s, t) > s.time[t]
    [] p.kind[t] = "upd" -> s.cond[t]
    [] p.kind[t] = "dir" -> p.dir[t] \notin s.dirs
    [] OTHER -> FALSE
NeededB(p, s, root) ==
  LET C == ClosureB(s, root)
      St == {t \in C : StaleB(p, s, t)}
  IN {t \in C : t \in St \/ Below(s, t) \cap St # {}}

\* the text an action makes of what it reads
RECURSIVE Cat(_, _)
Cat(f, q) == IF q = <<>> THEN "" ELSE f[Head(q)] \o Cat(f, Tail(q))
Text(p, t, f, q) == IF p.copy[t] THEN Cat(f, q) ELSE p.name[t] \o "(" \o Cat(f, q) \o ")"
Made(p, s, t) == Text(p, t, s.file, Reads(p, s, s.deps[t]))

\* ... and what a build from scratch makes of the sources (dependencies have smaller numbers)
RECURSIVE ScratchUpTo(_, _, _)
ScratchUpTo(p, s, t) ==
  IF t = 0 THEN <<>>
  ELSE LET f == ScratchUpTo(p, s, t - 1) IN
       Append(f, CASE p.kind[t] = "src" -> s.file[t]
                   [] p.kind[t] = "gen" /\ t \in s.decl -> Text(p, t, f, Reads(p, s, s.deps[t]))
                   [] OTHER -> "")
Scratch(p, s) == ScratchUpTo(p, s, p.n)

-----------------------------------------------------------------------------
Expand(p, s, t, base) == base \o SelectSeq(p.glob[t], LAMBDA u : s.file[u] # "")

NewB(p) ==
  [file |-> [t \in Nodes(p) |-> IF p.kind[t] = "src" /\ p.exists[t] THEN p.name[t] \o ".0;" ELSE ""],
   time |-> [t \in Nodes(p) |-> IF p.kind[t] = "src" /\ p.exists[t] THEN p.time0 ELSE 0],
   ver  |-> 0,
   dirs |-> {},
   cond |-> p.cond,
   decl |-> {}, deps |-> [t \in {} |-> <<>>], managed |-> {},
   sess |-> FALSE, reqs |-> 0, fresh |-> {},
   on |-> FALSE, root |-> 0, needed |-> {}, closure |-> {}, done |-> {}, failed |-> {},
   trust |-> TRUE]      \* edits advanced file times, dependencies did not change silently

SessionEff(p, s) ==
  [s EXCEPT !.sess = TRUE, !.reqs = 0, !.fresh = {}, !.on = FALSE,
            !.decl = {t \in Nodes(p) : ~p.late[t]},
            !.deps = [t \in {u \in Nodes(p) : ~p.late[u]} |-> Expand(p, s, t, p.deps0[t])],
            !.managed = (1..p.nd) \ s.dirs,
            !.trust = @ /\ \A t \in Nodes(p) : p.deps0[t] = p.deps[t]]
\* t is declared (again), with all of its dependencies
DeclareEff(p, s, t) ==
  [s EXCEPT !.decl = @ \cup {t},
            !.fresh = IF s.reqs > 0 THEN @ \cup {t} ELSE @,
            !.deps = [u \in s.decl \cup {t} |-> IF u = t THEN Expand(p, s, t, p.deps[t]) ELSE s.deps[u]],
            !.trust = @ /\ p.deps0[t] = p.deps[t]]

LaterTime(s, tm) == \A t \in DOMAIN s.time : s.time[t] <= tm
StrictlyLater(s, tm) == \A t \in DOMAIN s.time : s.time[t] < tm

\* edits happen between requests
EditEff(p, s, t, tm) ==
  [s EXCEPT !.ver = @ + 1, !.file[t] = p.name[t] \o "." \o ToString(s.ver + 1) \o ";", !.time[t] = tm,
            !.trust = @ /\ StrictlyLater(s, tm)]
\* touching a generated file that is not what it should be deceives every such build system
TouchEff(p, s, t, tm) ==
  [s EXCEPT !.time[t] = tm,
            !.trust = @ /\ StrictlyLater(s, tm)
                        /\ (p.kind[t] = "src" \/ (/\ t \in s.decl /\ s.file[t] = Scratch(p, s)[t]
                               /\ \A u \in s.decl : \A v \in Range(p.glob[u]) :
                                    s.file[v] # "" => v \in Range(s.deps[u])))]
DeleteEff(p, s, t) == [s EXCEPT !.file[t] = "", !.time[t] = 0]
RmDirEff(p, s, d) ==
  LET gone == {t \in Nodes(p) : p.kind[t] = "gen" /\ p.dir[t] # 0 /\ d \in Up(p, p.dir[t])} IN
  [s EXCEPT !.dirs = @ \ Under(p, d),
            !.file = [t \in Nodes(p) |-> IF t \in gone THEN "" ELSE s.file[t]],
            !.time = [t \in Nodes(p) |-> IF t \in gone THEN 0 ELSE s.time[t]]]
ToggleEff(p, s, t) == [s EXCEPT !.cond[t] = ~@]

-----------------------------------------------------------------------------
(* A build request. *)
BeginEff(p, s, root) ==
  [s EXCEPT !.on = TRUE, !.root = root, !.reqs = @ + 1,
            !.closure = ClosureB(s, root),
            !.needed = NeededB(p, s, root),
            !.done = {}, !.failed = {}]

Pending(p, s, t) == {u \in Below(s, t) \cap s.needed : Acts(p, u)} \ s.done

\* does some directory play a part in whether t is rebuilt
DirNear(p, s, t) == \E u \in ClosureB(s, t) : p.dir[u] # 0

ActBad(p, s, t, dirok) ==
  IF ~s.on THEN {"C23.action-without-request"}
  ELSE If(t \notin s.closure, "C23.outside-closure")
   \cup (IF t \in s.closure \ s.needed
         THEN {"C07.action-not-out-of-date"}
              \cup If(DirNear(p, s, t), "C09.rebuilt-because-of-directory")
              \cup If(s.reqs > 1, "C25.action-not-out-of-date")
         ELSE {})
   \cup If(t \in s.done \cup s.failed, "C02.started-twice")
   \cup (IF t \in s.closure
         THEN If(Pending(p, s, t) # {}, "C01.started-before-dependency-finished")
              \cup If(Below(s, t) \cap s.failed # {}, "C03.dependent-of-failed-started")
         ELSE {})
   \cup If(p.kind[t] = "gen" /\ ~dirok, "C09.directory-missing-when-action-runs")
\* out: "ok" | "fail"; a failing action writes nothing
ActEff(p, s, t, out, tm) ==
  LET isf == p.kind[t] = "gen" /\ out = "ok" /\ t \in s.decl IN
  [s EXCEPT !.done = IF out = "ok" THEN @ \cup {t} ELSE @,
            !.failed = IF out = "ok" THEN @ ELSE @ \cup {t},
            !.file[t] = IF isf THEN Made(p, s, t) ELSE @,
            !.time[t] = IF isf THEN tm ELSE @,
            !.dirs = IF p.dir[t] = 0 THEN @ ELSE @ \cup Up(p, p.dir[t]),
            !.trust = @ /\ (isf => LaterTime(s, tm))]

\* directories a build of closure C may leave behind
MayDirs(p, C) == UNION {Up(p, p.dir[t]) : t \in C}
MustDirs(p, s) == UNION {IF p.kind[t] = "dir" THEN Up(p, p.dir[t]) ELSE {} : t \in s.closure}

\* tree: [file, time, dirs (sequence of BOOLEAN), alien ("" when untouched)]
TreeBad(p, s, tree, C, kindOf) ==
  LET wrong == {t \in Nodes(p) : IsFile(p, t) /\ tree.file[t] # s.file[t]}
      times == {t \in Nodes(p) : IsFile(p, t) /\ t \notin wrong /\ s.file[t] # "" /\ tree.time[t] # s.time[t]}
      td == {d \in 1..p.nd : tree.dirs[d]}
  IN If(tree.alien # "", "C08.alien-file-changed")
     \cup If(\E t \in wrong \cup times : p.kind[t] = "src", "C08.source-changed")
     \cup If(\E t \in wrong \cup times : p.kind[t] = "gen" /\ t \notin C, "C08.file-outside-closure-changed")
     \cup If(\E t \in wrong \cup times : p.kind[t] = "gen" /\ t \in C, kindOf)
     \cup If(s.dirs \ td # {}, "C09.directory-removed")
     \cup If(td \ (s.dirs \cup MayDirs(p, C)) # {}, "C09.unrelated-directory-created")
TreeEff(p, s, tree) ==
  [s EXCEPT !.file = tree.file, !.time = tree.time, !.dirs = {d \in 1..p.nd : tree.dirs[d]}]

\* res: "true" | "false" | "error"
EndBad(p, s, res, tree) ==
  LET act == {t \in s.needed : Acts(p, t)}
      later(x) == IF s.reqs > 1 THEN {x} ELSE {}
      scr == Scratch(p, s)
  IN (IF s.failed = {}
      THEN If(res # "true", "C02.success-not-reported")
           \cup (IF act \ s.done # {}
                 THEN {"C07.out-of-date-not-rebuilt", "C02.incomplete"} \cup later("C25.out-of-date-not-rebuilt")
                 ELSE {})
      ELSE If(res = "true", "C03.failure-not-reported"))
     \cup If(s.failed = {} /\ s.closure \cap s.fresh # {} /\ (res # "true" \/ act \ s.done # {}),
             "C23.later-declaration-not-honoured")
     \cup (IF res = "true" /\ s.trust
           THEN If(\E t \in s.closure : p.kind[t] = "gen" /\ tree.file[t] # scr[t], "C06.not-as-from-scratch")
           ELSE {})
     \cup If(res = "true" /\ ~(MustDirs(p, s) \subseteq {d \in 1..p.nd : tree.dirs[d]}), "C09.directory-not-created")
     \cup TreeBad(p, s, tree, s.closure, "C08.generated-file-changed-otherwise")
EndEff(p, s, tree) == [TreeEff(p, s, tree) EXCEPT !.on = FALSE]

\* the process was killed: nothing but what acted has changed
KilledBad(p, s, tree) == TreeBad(p, s, tree, s.closure, "C08.generated-file-changed-otherwise")
KilledEff(p, s, tree) == [TreeEff(p, s, tree) EXCEPT !.on = FALSE, !.sess = FALSE]

\* an action cannot succeed without everything it reads
CanSucceed(p, s, t) == \A u \in Range(Reads(p, s, s.deps[t])) : s.file[u] # ""

-----------------------------------------------------------------------------
(* Cleaning. *)
CleanEff(p, s, root) ==
  LET C == ClosureB(s, root) IN
  [s EXCEPT !.reqs = @ + 1, !.root = root, !.closure = C,
            !.file = [t \in Nodes(p) |-> IF t \in C /\ p.kind[t] = "gen" THEN "" ELSE s.file[t]],
            !.time = [t \in Nodes(p) |-> IF t \in C /\ p.kind[t] = "gen" THEN 0 ELSE s.time[t]]]
CleanEndBad(p, s, res, tree) ==
  If(res = "error", "C08.clean-fails")
  \cup TreeBad(p, s, tree, s.closure, "C08.generated-file-not-removed")
  \cup If({d \in 1..p.nd : tree.dirs[d]} # s.dirs, "C09.clean-changes-directories")
  \cup If(s.reqs > 1 /\ TreeBad(p, s, tree, s.closure, "x") # {}, "C25.clean-differs")
=============================================================================
