---------------------------- MODULE RoutineTrace ----------------------------
EXTENDS Routine, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES p, s, tr, l, bad
tvars == <<p, s, tr, l, bad>>
Ev == Traces[tr].ev
Judge(e) ==
  CASE e.e = "Set"    -> [s |-> SetEff(p, s, e.t, e.b), b |-> {}]
    [] e.e = "Invoke" -> [s |-> InvokeEff(p, s, e.t, e.args), b |-> {}]
    [] e.e = "Run"    -> [s |-> RunEff(p, s, e.t), b |-> RunBad(p, s, e.t, e.args)]
    [] e.e = "Ran"    -> [s |-> RanEff(p, s, e.t, e.out), b |-> {}]
    [] e.e = "Done"   -> [s |-> DoneEff(p, s), b |-> DoneBad(p, s, e.res)]
    [] e.e = "Hang"   -> [s |-> DoneEff(p, s), b |-> {"C12.hang"}]
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ p = Traces[tr].p /\ s = NewR(p)
TNext ==
  \/ /\ l <= Len(Ev)
     /\ LET r == Judge(Ev[l]) IN s' = r.s /\ bad' = bad \cup {<<l, x>> : x \in r.b}
     /\ l' = l + 1 /\ UNCHANGED <<p, tr>>
  \/ /\ l = Len(Ev) + 1 /\ PrintT(<<"@@", ToJson([tr |-> tr, bad |-> bad])>>)
     /\ l' = l + 1 /\ UNCHANGED <<p, s, tr, bad>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
