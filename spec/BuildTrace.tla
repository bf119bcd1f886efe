----------------------------- MODULE BuildTrace -----------------------------
(* Total monitor of recorded project histories (see Build). A "Twin" event   *)
(* starts the same history again, run with other spellings, orders or        *)
(* options: its verdicts and results must be those of the first run.         *)
EXTENDS Build, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES p, s, tr, l, bad, obs, half
tvars == <<p, s, tr, l, bad, obs, half>>

Ev == Traces[tr].ev
J(x, b) == [s |-> x, b |-> b]
ExitB(x, e) == IF ~e.cli THEN {}
               ELSE IF x.failed # {} THEN If(e.res = "true", "C14.zero-although-failed")
               ELSE If(e.res # "true", "C14.nonzero-although-succeeded")
Judge(e) ==
  CASE e.e = "Session"  -> J(SessionEff(p, s), {})
    [] e.e = "EndSession" -> J([s EXCEPT !.sess = FALSE], {})
    [] e.e = "Declare"  -> J(DeclareEff(p, s, e.t), {})
    [] e.e = "Edit"     -> J(EditEff(p, s, e.t, e.tm), {})
    [] e.e = "Touch"    -> J(TouchEff(p, s, e.t, e.tm), {})
    [] e.e = "Delete"   -> J(DeleteEff(p, s, e.t), {})
    [] e.e = "RmDir"    -> J(RmDirEff(p, s, e.d), {})
    [] e.e = "Toggle"   -> J(ToggleEff(p, s, e.t), {})
    [] e.e = "Build"    -> J(BeginEff(p, s, e.t), {})
    [] e.e = "Act"      -> J(ActEff(p, s, e.t, e.out, e.tm), ActBad(p, s, e.t, e.dirok))
    [] e.e = "Other"    -> J(s, {"C23.other-target-acted"})
    [] e.e = "End"      -> J(EndEff(p, s, e.tree), EndBad(p, s, e.res, e.tree) \cup ExitB(s, e))
    [] e.e = "Hang"     -> J(s, {"C02.hang"})
    [] e.e = "Killed"   -> J(KilledEff(p, s, e.tree), KilledBad(p, s, e.tree))
    [] e.e = "Clean"    -> J(CleanEff(p, s, e.t), {})
    [] e.e = "CleanEnd" -> J(TreeEff(p, s, e.tree), CleanEndBad(p, s, e.res, e.tree))
    [] e.e = "Twin"     -> J(NewB(p), {})

\* what a twin must agree on: which clauses are broken; results and actions request by request,
\* until the first failure or crash (which independent targets ran besides it is left open)
Open == obs # <<>> /\ obs[Len(obs)].q = "open"
Seen(e) ==
  CASE Open -> <<>>
    [] e.e = "End" -> <<IF s.failed = {}
                        THEN [q |-> "End", res |-> e.res, acts |-> s.done, file |-> e.tree.file]
                        ELSE [q |-> "open", res |-> e.res, acts |-> {}, file |-> <<>>]>>
    [] e.e \in {"Killed", "Hang"} -> <<[q |-> "open", res |-> "", acts |-> {}, file |-> <<>>]>>
    [] e.e = "CleanEnd" -> <<[q |-> "Clean", res |-> e.res, acts |-> {}, file |-> e.tree.file]>>
    [] OTHER -> <<>>
OpenAt(q) == LET O == {i \in DOMAIN q : q[i].q = "open"} IN IF O = {} THEN Len(q) + 1 ELSE CHOOSE i \in O : TRUE
Agree(a, b) ==
  LET m == IF OpenAt(a) < OpenAt(b) THEN OpenAt(a) ELSE OpenAt(b)
  IN /\ \A i \in 1..(m - 1) : i \in DOMAIN a /\ i \in DOMAIN b /\ a[i] = b[i]
     /\ (OpenAt(a) = Len(a) + 1 /\ OpenAt(b) = Len(b) + 1) => Len(a) = Len(b)
Names(B) == {x[2] : x \in B}

TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ obs = <<>> /\ half = <<>>
         /\ p = Traces[tr].p /\ s = NewB(p)
TNext ==
  \/ /\ l <= Len(Ev)
     /\ LET r == Judge(Ev[l]) IN
          /\ s' = r.s
          /\ IF Ev[l].e = "Twin"
             THEN half' = <<[bad |-> Names(bad), obs |-> obs]>> /\ obs' = <<>> /\ bad' = {}
             ELSE half' = half /\ obs' = obs \o Seen(Ev[l]) /\ bad' = bad \cup {<<l, x>> : x \in r.b}
     /\ l' = l + 1 /\ UNCHANGED <<p, tr>>
  \/ /\ l = Len(Ev) + 1
     /\ LET diff == IF half = <<>> THEN {}
                    ELSE IF Names(bad) # half[1].bad \/ ~Agree(half[1].obs, obs)
                    THEN {<<l, Traces[tr].twin>>} ELSE {}
        IN PrintT(<<"@@", ToJson([tr |-> tr, bad |-> bad \cup diff])>>)
     /\ l' = l + 1 /\ UNCHANGED <<p, s, tr, bad, obs, half>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
