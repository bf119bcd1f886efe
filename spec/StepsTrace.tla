----------------------------- MODULE StepsTrace -----------------------------
EXTENDS Steps, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad, fs, a
tvars == <<tr, l, bad, fs, a>>
Ev == Traces[tr].ev
StepsOf(q) == [s \in DOMAIN q |-> [kind |-> q[s].kind, ins |-> Range(q[s].ins), from |-> Range(q[s].from),
                                   after |-> Range(q[s].after), over |-> Range(q[s].over), unit |-> q[s].unit, lang |-> q[s].lang]]
S == StepsOf(Traces[tr].steps)
Files(q) == [f \in DOMAIN q |-> [v |-> q[f].v, bad |-> q[f].bad]]
Line(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Rec(e) == [req |-> Range(e.req), tried |-> e.tried, done |-> e.done, broken |-> Range(e.broken), ok |-> e.ok, stray |-> e.stray, opts |-> e.opts,
           out |-> [s \in DOMAIN e.out |-> [i \in DOMAIN e.out[s] |-> Line(e.out[s][i])]]]
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = {}
         /\ fs = Files(Traces[tr].files) /\ a = Init0(S)
TNext ==
  \/ /\ l <= Len(Ev)
     /\ LET e == Ev[l] IN
        CASE e.e = "Set" -> fs' = [fs EXCEPT ![e.f] = [v |-> e.v, bad |-> e.bad]] /\ a' = Changed(S, a, e.f) /\ bad' = bad
          [] e.e = "Lost" -> a' = Lost(S, a, e.s) /\ UNCHANGED <<fs, bad>>
          [] e.e = "Hang" -> bad' = bad \cup {<<l, "C26.hang">>} /\ UNCHANGED <<fs, a>>
          [] e.e = "Build" -> LET r == Rec(e) IN
               /\ bad' = bad \cup {<<l, x>> : x \in SessionBad(S, fs, a, r)}
               /\ a' = After(S, a, Range(e.done)) /\ UNCHANGED fs
     /\ l' = l + 1 /\ UNCHANGED tr
  \/ /\ l = Len(Ev) + 1 /\ PrintT(<<"@@", ToJson([tr |-> tr, bad |-> bad])>>)
     /\ l' = l + 1 /\ UNCHANGED <<tr, bad, fs, a>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
