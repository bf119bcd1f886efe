---------------------------- MODULE SolverTrace ----------------------------
(* Total monitor: judges recorded executions with the definitions of Solver. *)
EXTENDS Solver, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad
tvars == <<c, s, tr, l, bad>>

Ev == Traces[tr].ev
Judge(e) ==
  CASE e.e = "Start"     -> [s |-> StartEff(c, s, e.t), b |-> StartBad(c, s, e.t)]
    [] e.e = "End"       -> [s |-> EndEff(c, s, e.t, e.out, e.solo), b |-> EndBad(c, s, e.t)]
    [] e.e = "Register"  -> [s |-> RegisterEff(c, s), b |-> {}]
    [] e.e = "Quiesce"   -> [s |-> s, b |-> QuiesceBad(c, s)]
    [] e.e = "Return"    -> [s |-> ReturnEff(c, s, e.res), b |-> ReturnBad(c, s, e.res)]
    [] e.e = "Hang"      -> [s |-> s, b |-> HangBad(c, s)]
    [] e.e = "Exit"      -> [s |-> s, b |-> ExitBad(c, s, e.code)]
    [] e.e = "Interrupt" -> [s |-> InterruptEff(c, s), b |-> {}]
    [] e.e = "Settled"   -> [s |-> SettledEff(c, s), b |-> {}]

TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = {}
         /\ c = Traces[tr].c /\ s = NewState(c)
TNext ==
  \/ /\ l <= Len(Ev)
     /\ LET r == Judge(Ev[l]) IN
          /\ s' = r.s
          /\ bad' = bad \cup {<<l, IF c.after THEN "C22.later-build-wrong" ELSE x>> : x \in r.b}
     /\ l' = l + 1 /\ UNCHANGED <<c, tr>>
  \/ /\ l = Len(Ev) + 1
     /\ PrintT(<<"@@", ToJson([tr |-> tr, bad |-> bad])>>)
     /\ l' = l + 1 /\ UNCHANGED <<c, s, tr, bad>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
