---------------------------- MODULE ModulesTrace ----------------------------
EXTENDS Modules, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad
tvars == <<tr, l, bad>>
Ev == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ bad = {}
TNext ==
  \/ /\ l <= Len(Ev)
     /\ bad' = bad \cup {<<l, x>> : x \in (IF Ev[l].e = "Hang" THEN {"C15.hang"}
                                          ELSE ResolvedBad(Traces[tr].c, Ev[l].e = "Refused", Ev[l].mods))}
     /\ l' = l + 1 /\ UNCHANGED tr
  \/ /\ l = Len(Ev) + 1 /\ PrintT(<<"@@", ToJson([tr |-> tr, bad |-> bad])>>)
     /\ l' = l + 1 /\ UNCHANGED <<tr, bad>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
