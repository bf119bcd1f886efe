------------------------------ MODULE SolverMC ------------------------------
(* Exhaustive exploration of Solver, and generation of behaviours. *)
EXTENDS Solver, TLC, Json, SequencesExt
CONSTANTS N, MaxW, MALFORMED, INTERRUPTS, ALLUPD, GEN
VARIABLE hist      \* completed behaviours are printed when GEN

\* all acyclic graphs up to renumbering: dependencies point downwards
DagDeps(n) == {d \in [1..n -> SUBSET (1..n)] : \A t \in 1..n : \A u \in d[t] : u < t}
\* all directed graphs, with 0 standing for an unknown dependency
AnyDeps(n) == [1..n -> SUBSET (0..n)]

Scenario(n, d, w, o, u, r) ==
  [n |-> n, deps |-> [t \in 1..n |-> SetToSeq(d[t])], root |-> r, upd |-> u,
   workers |-> w, out |-> o]

Init ==
  /\ hist = <<>>
  /\ \E n \in 1..N, w \in 1..MaxW :
     \E d \in (IF MALFORMED THEN AnyDeps(n) ELSE DagDeps(n)) :
     \E o \in (IF MALFORMED THEN {[t \in 1..n |-> "ok"]} ELSE [1..n -> {"ok", "fail"}]) :
     \E r \in (IF ALLUPD THEN {0} ELSE 1..n) :
     \E u \in (IF ALLUPD THEN {[t \in 1..n |-> TRUE]} ELSE [1..n -> BOOLEAN]) :
        c = Scenario(n, d, w, o, u, r)
  /\ s = NewState(c)

E(x) == hist' = IF GEN THEN Append(hist, x) ELSE hist
MCNext ==
  \/ \E t \in 1..c.n : (Start(t) /\ E(<<"Start", t>>)) \/ (End(t) /\ E(<<"End", t>>))
  \/ Register /\ E(<<"Register", 0>>)
  \/ Refuse /\ E(<<"Return", 0>>)
  \/ Return /\ E(<<"Return", 0>>) /\ (GEN => PrintT(<<"@@", ToJson([c |-> c, h |-> hist])>>))
  \/ INTERRUPTS /\ Interrupt /\ E(<<"Interrupt", 0>>)
MCSpec == Init /\ [][MCNext]_<<c, s, hist>> /\ WF_<<c, s, hist>>(MCNext)
=============================================================================
