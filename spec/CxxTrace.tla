----------------------------- MODULE CxxTrace ------------------------------
EXTENDS Cxx, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad, fs, a
tvars == <<tr, l, bad, fs, a>>
Ev == Traces[tr].ev
NS == Traces[tr].ns
Files == Traces[tr].files
File(x) == [x |-> x.x, v |-> x.v, inc |-> Range(x.inc), bad |-> x.bad]
Toks(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = {}
         /\ fs = [f \in 1..Len(Files) |-> File(Files[f])]
         /\ a = Init0(NS)
Rec(e) == [tried |-> Range(e.tried), done |-> Range(e.done), ltried |-> e.ltried, linked |-> e.linked, ok |-> e.ok,
           obj |-> [s \in 1..NS |-> Toks(e.obj[s])], bin |-> Toks(e.bin)]
\* each source is compiled at most once in a session
Twice(e) == If(Cardinality(Range(e.tried)) # Len(e.tried), "C17.compiled-twice")
TNext ==
  \/ /\ l <= Len(Ev)
     /\ LET e == Ev[l] IN
        CASE e.e = "Set" -> fs' = [fs EXCEPT ![e.f] = File(e)] /\ a' = Changed(a, e.f) /\ bad' = bad
          [] e.e = "RmDep" -> a' = LostDep(a, e.f) /\ UNCHANGED <<fs, bad>>
          [] e.e = "RmObj" -> a' = LostObj(a, e.f) /\ UNCHANGED <<fs, bad>>
          [] e.e = "RmBin" -> a' = LostBin(a) /\ UNCHANGED <<fs, bad>>
          [] e.e = "Hang" -> bad' = bad \cup {<<l, "C17.hang">>} /\ UNCHANGED <<fs, a>>
          [] e.e = "Build" -> LET r == Rec(e) IN
               /\ bad' = bad \cup {<<l, x>> : x \in SessionBad(fs, a, r) \cup Twice(e)}
               /\ a' = After(fs, a, r.done, r.linked, {s \in 1..NS : r.obj[s] = None})
               /\ UNCHANGED fs
     /\ l' = l + 1 /\ UNCHANGED tr
  \/ /\ l = Len(Ev) + 1 /\ PrintT(<<"@@", ToJson([tr |-> tr, bad |-> bad])>>)
     /\ l' = l + 1 /\ UNCHANGED <<tr, bad, fs, a>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
