---------------------------- MODULE ScriptsTrace ----------------------------
EXTENDS Scripts, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad, m
tvars == <<tr, l, bad, m>>
Ev == Traces[tr].ev
C == Traces[tr].c
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ m = Start
\* Start: a script begins (f, dir in effect); At: a statement (f, dir); End: the session's end (ok);
\* Decl: the directory that the paths declared in f were taken relative to
Judge(e, q) ==
  CASE e.e = "Start" ->
         IF q.vis # "start" THEN {IF q.vis = "refuse" THEN "C19.error-not-reported" ELSE IF \E k \in 1..(l-1) : Ev[k].e = "Start" /\ Ev[k].f = e.f THEN "C19.script-run-again" ELSE "C19.foreign-script"}
         ELSE If(e.f \notin q.set, "C19.wrong-script") \cup If(e.dir # Dir(C, e.f), "C19.wrong-directory")
    [] e.e = "At" -> If(q.vis # "at" \/ e.f \notin q.set, IF q.vis = "start" THEN "C19.script-not-run" ELSE IF q.vis = "refuse" THEN "C19.error-not-reported" ELSE "C19.wrong-order")
                     \cup If(e.dir # Dir(C, e.f), "C19.directory-not-restored")
    [] e.e = "Decl" -> If(e.dir # Dir(C, e.f), "C19.declared-elsewhere")
    [] e.e = "End" -> IF e.ok THEN If(q.vis = "refuse", "C19.error-not-reported") \cup If(q.vis = "start", "C19.script-not-run") \cup If(q.vis = "at", "C19.wrong-order")
                      ELSE If(q.vis # "refuse", "C19.refused")
    [] e.e = "Hang" -> {"C19.hang"}
TNext ==
  \/ /\ l <= Len(Ev)
     /\ LET e == Ev[l]
            q == IF e.e = "Decl" THEN [m |-> m, vis |-> "decl", set |-> {}]
                 ELSE IF l = 1 THEN [m |-> m, vis |-> "start", set |-> {1}]   \* the root, already on the stack
                 ELSE Quiet(C, m)
            b == IF Len(m.stack) > 60 THEN {} ELSE Judge(e, q) IN
        /\ bad' = bad \cup {<<l, x>> : x \in b}
        /\ m' = IF l = 1 THEN m
                ELSE IF e.e = "Start" /\ q.vis = "start" /\ e.f \in q.set THEN Started(q, e.f)
                ELSE IF e.e = "At" /\ q.vis = "at" THEN Passed(q) ELSE m
        \* after the first disagreement the rest says nothing more
        \* (nor does what follows in scripts that run each other for ever)
        /\ l' = IF Len(m.stack) > 60 THEN Len(Ev) + 1 ELSE IF b = {} \/ e.e = "Decl" \/ b \subseteq {"C19.wrong-directory", "C19.directory-not-restored"} THEN l + 1 ELSE Len(Ev) + 1
     /\ UNCHANGED tr
  \/ /\ l = Len(Ev) + 1 /\ PrintT(<<"@@", ToJson([tr |-> tr, bad |-> bad])>>)
     /\ l' = l + 1 /\ UNCHANGED <<tr, bad, m>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
