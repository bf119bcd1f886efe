------------------------------ MODULE CliTrace ------------------------------
EXTENDS Cli, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES c, s, tr, l, bad
tvars == <<c, s, tr, l, bad>>
Ev == Traces[tr].ev
Judge(e) ==
  CASE e.e = "Call" -> [s |-> CallEff(c, s, e.t, e.a, e.args), b |-> CallBad(c, s, e.t, e.a, e.args)]
    [] e.e = "Exit" -> [s |-> ExitEff(c, s), b |-> ExitBad(c, s, e.code)]
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ c = Traces[tr].c /\ s = NewC(c)
TNext ==
  \/ /\ l <= Len(Ev)
     /\ LET r == Judge(Ev[l]) IN s' = r.s /\ bad' = bad \cup {<<l, x>> : x \in r.b}
     /\ l' = l + 1 /\ UNCHANGED <<c, tr>>
  \/ /\ l = Len(Ev) + 1 /\ PrintT(<<"@@", ToJson([tr |-> tr, bad |-> bad])>>)
     /\ l' = l + 1 /\ UNCHANGED <<c, s, tr, bad>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
