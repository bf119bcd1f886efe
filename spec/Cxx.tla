-------------------------------- MODULE Cxx --------------------------------
(* Sources, headers, objects and a binary over a history of edits and build  *)
(* sessions: what each session must compile and what must be there after it. *)
(* Files are 1..nf, the first ns of them sources.  A file has a version and  *)
(* includes other files; bad says what is wrong with it: "error" stops the   *)
(* preprocessor, "syntax" the compiler, "link" the linker.                   *)
EXTENDS Naturals, FiniteSets, Sequences
If(b, x) == IF b THEN {x} ELSE {}
Range(q) == {q[i] : i \in DOMAIN q}

NoFile == [x |-> FALSE, v |-> 0, inc |-> {}, bad |-> ""]
RECURSIVE Closure(_, _)
Closure(fs, S) == LET T == S \cup UNION {IF fs[f].x THEN fs[f].inc ELSE {} : f \in S} IN IF T = S THEN S ELSE Closure(fs, T)
Reach(fs, s) == Closure(fs, {s})
ScanFails(fs, s) == \E f \in Reach(fs, s) : ~fs[f].x \/ fs[f].bad = "error"
CompileFails(fs, s) == ScanFails(fs, s) \/ \E f \in Reach(fs, s) : fs[f].bad = "syntax"
\* what an object made now contains
Content(fs, s) == {<<f, fs[f].v>> : f \in Reach(fs, s)}

\* obj[s]: contents or None; used[s]: files read for it; dirty[s]: must be compiled; bin; relink
None == {<<0, 0>>}
Init0(ns) == [obj |-> [s \in 1..ns |-> None], used |-> [s \in 1..ns |-> {}], dirty |-> [s \in 1..ns |-> TRUE], bin |-> None, relink |-> TRUE]
\* a change of file f: an edit, a touch, its appearance or disappearance
Changed(a, f) == [a EXCEPT !.dirty = [s \in DOMAIN a.dirty |-> a.dirty[s] \/ f = s \/ f \in a.used[s]]]
LostDep(a, s) == [a EXCEPT !.dirty[s] = TRUE]
LostObj(a, s) == [a EXCEPT !.dirty[s] = TRUE, !.obj[s] = None]
LostBin(a) == [a EXCEPT !.relink = TRUE, !.bin = None]

Dirty(a) == {s \in DOMAIN a.dirty : a.dirty[s]}
LinkFails(fs, a) == \E s \in DOMAIN a.dirty : \E f \in Reach(fs, s) : fs[f].bad = "link"
Relinks(a) == a.relink \/ Dirty(a) # {}
MustFail(fs, a) == (\E s \in Dirty(a) : CompileFails(fs, s)) \/ (Relinks(a) /\ LinkFails(fs, a))
\* after a session that compiled the sources in C successfully; gone: objects lost by failed compilations
After(fs, a, C, linked, gone) ==
  LET obj == [s \in DOMAIN a.obj |-> IF s \in C THEN Content(fs, s) ELSE IF s \in gone THEN None ELSE a.obj[s]] IN
  [obj |-> obj,
   used |-> [s \in DOMAIN a.used |-> IF s \in C THEN Reach(fs, s) ELSE a.used[s]],
   dirty |-> [s \in DOMAIN a.dirty |-> a.dirty[s] /\ s \notin C],
   bin |-> IF linked THEN UNION {obj[s] : s \in DOMAIN obj} ELSE a.bin,
   relink |-> IF linked THEN FALSE ELSE a.relink \/ C # {}]

\* a recorded session: tried (compiler runs), done (those that succeeded), linked (linker ran successfully),
\* ltried (the linker ran), ok, obj and bin as found
SessionBad(fs, a, e) ==
  LET D == Dirty(a)
      b == After(fs, a, e.done, e.linked, {s \in DOMAIN a.obj : e.obj[s] = None})
  IN If(e.tried \ D # {}, "C17.compiled-in-vain")
     \cup If(e.ltried /\ ~Relinks(a), "C17.linked-in-vain")
     \cup If(e.ok /\ D \ e.done # {}, "C17.not-recompiled")
     \cup If(e.ok /\ Relinks(a) /\ ~e.linked, "C17.not-relinked")
     \cup If(e.ok /\ MustFail(fs, a), "C17.failure-hidden")
     \cup If(~e.ok /\ ~MustFail(fs, a), "C17.refused")
     \cup If(e.ok /\ \E s \in DOMAIN a.obj : e.obj[s] # Content(fs, s), "C17.object-not-as-from-scratch")
     \cup If(e.ok /\ e.bin # UNION {Content(fs, s) : s \in DOMAIN a.obj}, "C17.binary-not-as-from-scratch")
     \cup If(e.linked /\ e.bin # b.bin, "C17.binary-of-other-objects")
=============================================================================
