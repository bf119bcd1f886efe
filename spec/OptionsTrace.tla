---------------------------- MODULE OptionsTrace ----------------------------
EXTENDS Options, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad
tvars == <<tr, l, bad>>
Ev == Traces[tr].ev
C == Traces[tr].c
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ bad = {}
Judge(e) == CASE e.e = "Build" -> BuildBad(C, C.apps[e.a], e)
              [] e.e = "Hang" -> {"C16.hang"}
TNext ==
  \/ /\ l <= Len(Ev) /\ bad' = bad \cup {<<l, x>> : x \in Judge(Ev[l])} /\ l' = l + 1 /\ UNCHANGED tr
  \/ /\ l = Len(Ev) + 1 /\ PrintT(<<"@@", ToJson([tr |-> tr, bad |-> bad])>>)
     /\ l' = l + 1 /\ UNCHANGED <<tr, bad>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
