------------------------------- MODULE Solver -------------------------------
(* The build of one dependency graph by a pool of workers, as its user sees  *)
(* it: actions of targets start and end, the build returns, is refused, or   *)
(* is interrupted.                                                           *)
(*                                                                           *)
(* A scenario c describes the graph and the request:                         *)
(*   n, deps[t] (sequence of targets; a number outside 1..n is a dependency  *)
(*   on something that does not exist), root (0: everything), upd[t] (the    *)
(*   target itself asks for an update), workers, out[t] ("ok" | "fail").     *)
(*   For the monitor: after -- this build follows an interrupted one.        *)
(*                                                                           *)
(* Every step is written as  XxxBad(c, s, ..) -- the set of the names of the *)
(* clauses the step would violate in state s -- and XxxEff(c, s, ..).  The   *)
(* specification takes a step iff the set is empty; the trace monitor        *)
(* (SolverTrace) applies the same definitions to recorded executions and     *)
(* reports the names.  A clause name starts with the property it belongs to. *)
EXTENDS Naturals, FiniteSets, Sequences

Targets(c) == 1..c.n
Deps(c, t) == {c.deps[t][i] : i \in DOMAIN c.deps[t]}

RECURSIVE Grow(_, _)
Grow(c, S) ==
  LET T == S \cup UNION {Deps(c, t) : t \in S \cap Targets(c)}
  IN IF T = S THEN S ELSE Grow(c, T)
\* everything t depends on, directly or transitively (t itself only if on a cycle)
Reach(c, t) == Grow(c, Deps(c, t))
Closure(c) == IF c.root = 0 THEN Grow(c, Targets(c)) ELSE {c.root} \cup Reach(c, c.root)

WellFormed(c) ==
  /\ Closure(c) \subseteq Targets(c)
  /\ \A t \in Closure(c) : t \notin Reach(c, t)

\* a target acts iff itself or anything below it asks for an update
Needed(c) == {t \in Closure(c) \cap Targets(c) :
                 \E u \in ({t} \cup Reach(c, t)) \cap Targets(c) : c.upd[u]}

\* Reach for all targets at once, by squaring
RECURSIVE Close(_)
Close(R) ==
  LET Q == [t \in DOMAIN R |-> R[t] \cup UNION {R[u] : u \in R[t] \cap DOMAIN R}]
  IN IF Q = R THEN R ELSE Close(Q)

\* Very large graphs are given numbered from the bottom up and with upd TRUE everywhere; looking
\* at direct dependencies is then enough (what they depend on has ended before they started).
Big(c) == c.n > 300
NewState(c) ==
  LET R == IF Big(c) THEN [t \in Targets(c) |-> Deps(c, t)] ELSE Close([t \in Targets(c) |-> Deps(c, t)])
      cl == IF c.root = 0 THEN Targets(c) \cup UNION {R[t] : t \in Targets(c)} ELSE IF Big(c) THEN Grow(c, {c.root}) ELSE {c.root} \cup R[c.root]
      wf == cl \subseteq Targets(c) /\ \A t \in cl : t \notin R[t] /\ (Big(c) => \A u \in R[t] : u < t)
  IN [ph      |-> "run",
      wf      |-> wf,
      closure |-> cl,
      needed  |-> IF wf THEN {t \in cl : Big(c) \/ \E u \in {t} \cup R[t] : c.upd[u]} ELSE {},
      reach   |-> [t \in Targets(c) |-> IF wf THEN R[t] ELSE {}],
      started |-> {},          \* actions started so far
      running |-> {},
      ok      |-> {},          \* ended successfully
      failed  |-> {},          \* ended in failure
      reg     |-> FALSE,       \* a failure has been registered by the scheduler
      intr    |-> "no",        \* "no" | "sent" | "settled"
      res     |-> ""]

\* dependencies that act and have not ended successfully
Missing(c, s, t) == (s.reach[t] \cap s.needed) \ s.ok
Ready(c, s) == {t \in s.needed \ s.started : Missing(c, s, t) = {}}

If(b, x) == IF b THEN {x} ELSE {}

-----------------------------------------------------------------------------
StartBad(c, s, t) ==
  IF ~s.wf THEN {"C05.action-of-malformed-graph"}
  ELSE If(Missing(c, s, t) # {}, "C01.started-before-dependency-finished")
   \cup If(s.reach[t] \cap s.failed # {}, "C03.dependent-of-failed-started")
   \cup If(t \in s.started, "C02.started-twice")
   \cup If(t \notin s.closure, "C23.outside-closure")
   \cup If(t \in s.closure \ s.needed, "C07.not-out-of-date")
   \cup If(s.reg, "C03.started-after-failure")
   \cup If(Cardinality(s.running) >= c.workers, "C04.too-many-at-once")
   \cup If(s.intr = "settled", "C22.started-after-interrupt")
   \cup If(s.ph # "run", "C02.started-after-return")
StartEff(c, s, t) ==
  [s EXCEPT !.started = @ \cup {t}, !.running = @ \cup {t}]

EndBad(c, s, t) == If(t \notin s.running, "trace.end-without-start")
\* solo: it ended while the pool was quiescent, so that its worker's next act
\* is to register the result
EndEff(c, s, t, out, solo) ==
  [s EXCEPT !.running = @ \ {t},
            !.ok = IF out = "ok" THEN @ \cup {t} ELSE @,
            !.failed = IF out = "ok" THEN @ ELSE @ \cup {t},
            !.reg = @ \/ (solo /\ out # "ok")]

RegisterEff(c, s) == [s EXCEPT !.reg = (s.failed # {})]

\* nothing more will start until a running action ends
QuiesceBad(c, s) ==
  If(/\ s.wf /\ s.failed = {} /\ s.intr = "no" /\ s.ph = "run"
     /\ Cardinality(s.running) < c.workers
     /\ Ready(c, s) # {}, "C04.idle-worker-while-ready")

\* res: "true" | "false" | "error"
ReturnBad(c, s, res) ==
  IF ~s.wf THEN If(res # "error", "C05.malformed-graph-accepted")
  ELSE If(s.running # {}, "C03.returned-while-running")
   \cup (IF s.intr # "no" THEN {}
         ELSE IF s.failed = {}
         THEN If(s.needed \ s.ok # {}, "C02.incomplete")
              \cup If(res # "true", "C02.success-not-reported")
         ELSE If(res = "true", "C03.failure-not-reported"))
ReturnEff(c, s, res) == [s EXCEPT !.ph = "end", !.res = res]

\* nothing runs, everything was let go, and still no return
HangBad(c, s) ==
  {IF ~s.wf THEN "C05.hang"
   ELSE IF s.intr # "no" THEN "C22.hang"
   ELSE IF s.failed # {} THEN "C03.hang" ELSE "C02.hang"}

\* exit status of the process, for a build requested on the command line
ExitBad(c, s, code) ==
  IF s.intr # "no"
  THEN If(code = 0 /\ ~(s.failed = {} /\ s.needed \subseteq s.ok), "C22.exit-status-zero")
       \cup If(s.running # {}, "C22.running-action-abandoned")
  ELSE If(s.running # {}, "C03.returned-while-running")
  \cup (IF ~s.wf THEN If(code = 0, "C14.zero-although-malformed")
        ELSE IF s.failed # {} THEN If(code = 0, "C14.zero-although-failed")
        ELSE If(s.needed \ s.ok # {}, "C02.incomplete")
             \cup If(code # 0, "C14.nonzero-although-succeeded"))

InterruptEff(c, s) == [s EXCEPT !.intr = "sent"]
SettledEff(c, s) == [s EXCEPT !.intr = IF @ = "sent" THEN "settled" ELSE @]

-----------------------------------------------------------------------------
(* The state machine. *)
VARIABLES c, s
vars == <<c, s>>

Start(t) == StartBad(c, s, t) = {} /\ t \in Ready(c, s) /\ s' = StartEff(c, s, t) /\ c' = c
End(t)   == t \in s.running /\ s' = EndEff(c, s, t, c.out[t], FALSE) /\ c' = c
Register == s.failed # {} /\ ~s.reg /\ s' = RegisterEff(c, s) /\ c' = c
Interrupt == s.ph = "run" /\ s.intr = "no" /\ s' = [s EXCEPT !.intr = "settled"] /\ c' = c
Refuse   == s.ph = "run" /\ ~s.wf /\ s' = ReturnEff(c, s, "error") /\ c' = c
Return   == /\ s.ph = "run" /\ s.wf /\ s.running = {}
            /\ \E r \in {"true", "false", "error"} :
                 /\ ReturnBad(c, s, r) = {}
                 /\ (r = "error") = (s.intr # "no")
                 /\ s' = ReturnEff(c, s, r)
            /\ c' = c
StepS == (\E t \in 1..c.n : Start(t) \/ End(t)) \/ Register \/ Refuse \/ Return
Next == StepS \/ Interrupt
Spec == s = NewState(c) /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The properties, stated on their own, not through the guards above. *)
\* the efficient definitions used in the state agree with the plain ones
StateOk == /\ s.wf = WellFormed(c) /\ s.closure = Closure(c)
           /\ s.wf => /\ s.needed = Needed(c)
                     /\ \A t \in Targets(c) : s.reach[t] = Reach(c, t)
DepsFirst == \A t \in s.started : \A u \in Reach(c, t) \cap Needed(c) :
                 s.wf => u \in s.ok
AtMostWorkers == Cardinality(s.running) <= c.workers
NoDependentOfFailed == \A t \in s.started : s.wf => Reach(c, t) \cap s.failed = {}
SuccessComplete == (s.ph = "end" /\ s.wf /\ s.intr = "no" /\ s.failed = {}) =>
                       /\ s.res = "true" /\ s.ok = Needed(c) /\ s.started = Needed(c)
FailureReported == (s.ph = "end" /\ s.failed # {} /\ s.intr = "no") => s.res # "true"
MalformedRefused == (~WellFormed(c)) => s.started = {} /\ (s.ph = "end" => s.res = "error")
OnlyNeeded == s.started \subseteq Needed(c)
NothingAfterFailure == [][s.reg => s'.started = s.started]_vars
NothingAfterInterrupt == [][s.intr = "settled" => s'.started = s.started]_vars
StartedOnce == [][\A t \in s.started : t \notin s'.running \/ t \in s.running]_vars
Ends == <>(s.ph = "end")
=============================================================================
