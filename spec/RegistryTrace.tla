---------------------------- MODULE RegistryTrace ----------------------------
EXTENDS Registry, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad, reg, fs
tvars == <<tr, l, bad, reg, fs>>
Ev == Traces[tr].ev
Lib == {<<x[1], x[2]>> : x \in Range(Traces[tr].lib)}
None == [ok |-> TRUE, m |-> {}]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ reg = [u \in {"user", "system"} |-> None] /\ fs = {}
Obs(x) == [ok |-> x.ok, m |-> {<<y[1], y[2]>> : y \in Range(x.m)}]
Of(e) == Obs(IF e.u = "user" THEN e.user ELSE e.system)
Other(e) == IF e.u = "user" THEN "system" ELSE "user"
OtherObs(e) == Obs(IF e.u = "user" THEN e.system ELSE e.user)
Want(e) == IF ~reg[e.u].ok THEN {reg[e.u]} ELSE {[ok |-> TRUE, m |-> R] : R \in Results(e.o, reg[e.u].m, fs, Lib)}
Judge(e) ==
  LET new == Of(e)  want == Want(e)  old == reg[e.u] IN
  If(OtherObs(e) # reg[Other(e)], "C20.other-registry")
  \cup (IF e.hang THEN {"C20.hang"} ELSE {})
  \cup (IF e.fault = "none" \/ e.exit = 0 THEN
          If(new \notin want, IF ~new.ok THEN "C20.damaged" ELSE IF Accepted(e.o, old.m, fs) THEN "C20.wrong-contents" ELSE "C20.rejected-but-changed")
        ELSE If(new \notin want \cup {old}, IF new.ok THEN "C20.partial-update" ELSE "C20.damaged"))
  \cup If(e.fault = "none" /\ old.ok /\ Accepted(e.o, old.m, fs) /\ e.exit # 0
          /\ ~(e.o.k = "merged" /\ ~reg[Other(e)].ok), "C20.refused")
  \cup If(~e.saved, "C20.unreadable-file-overwritten")
  \cup (IF e.fault = "none" /\ e.exit = 0 /\ e.o.k \in {"list", "merged"}
        THEN LET S == {<<y[1], y[2]>> : y \in Range(e.out)}
                 W == IF e.o.k = "list" THEN old.m ELSE Merged(reg["user"].m, reg["system"].m) IN
             If(S # W \/ Len(e.out) # Cardinality(W), "C20.list")
        ELSE {})
TNext ==
  \/ /\ l <= Len(Ev)
     /\ LET e == Ev[l] IN
        CASE e.e = "Op" -> /\ bad' = bad \cup {<<l, x>> : x \in Judge(e)}
                           /\ reg' = [u \in {"user", "system"} |-> Obs(IF u = "user" THEN e.user ELSE e.system)]
                           /\ UNCHANGED fs
          [] e.e = "Make" -> fs' = fs \cup {e.p} /\ UNCHANGED <<bad, reg>>
          [] e.e = "Drop" -> fs' = {q \in fs : ~Prefix(e.p, q)} /\ UNCHANGED <<bad, reg>>
          \* somebody else writes the file: damaged, or some contents
          [] e.e = "Set" -> reg' = [reg EXCEPT ![e.u] = Obs(e.r)] /\ UNCHANGED <<bad, fs>>
     /\ l' = l + 1 /\ UNCHANGED tr
  \/ /\ l = Len(Ev) + 1 /\ PrintT(<<"@@", ToJson([tr |-> tr, bad |-> bad])>>)
     /\ l' = l + 1 /\ UNCHANGED <<tr, bad, reg, fs>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
