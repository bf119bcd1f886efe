---------------------------- MODULE CommandTrace ----------------------------
EXTENDS Command, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES c, s, tr, l, bad
tvars == <<c, s, tr, l, bad>>
Ev == Traces[tr].ev
Judge(e) ==
  CASE e.e = "Began"   -> [s |-> BeganEff(c, s, e.i), b |-> {}]
    [] e.e = "Printed" -> [s |-> s, b |-> PrintedBad(c, s, e.i, e.s, e.pcs)]
    [] e.e = "Result"  -> [s |-> ResultEff(c, s, e.res), b |-> ResultBad(c, s, e.res)]
    [] e.e = "Hang"    -> [s |-> s, b |-> {"C11.hang"}]
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ c = Traces[tr].c /\ s = NewX(c)
TNext ==
  \/ /\ l <= Len(Ev)
     /\ LET r == Judge(Ev[l]) IN s' = r.s /\ bad' = bad \cup {<<l, x>> : x \in r.b}
     /\ l' = l + 1 /\ UNCHANGED <<c, tr>>
  \/ /\ l = Len(Ev) + 1 /\ PrintT(<<"@@", ToJson([tr |-> tr, bad |-> bad])>>)
     /\ l' = l + 1 /\ UNCHANGED <<c, s, tr, bad>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
