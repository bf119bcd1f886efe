------------------------------ MODULE Routine ------------------------------
(* Routines (and targets with a condition), invoked again and again in one   *)
(* session with arguments.                                                   *)
(*                                                                           *)
(* A scenario p: n, deps[t], kind[t] ("rt" routine | "up" target with a      *)
(* condition), cond[t] (the condition at first), resets[t] (the conditions   *)
(* that a successful run of t turns off), sets[t] (... turns on), workers.   *)
EXTENDS Naturals, FiniteSets, Sequences

If(b, x) == IF b THEN {x} ELSE {}
Range(q) == {q[i] : i \in DOMAIN q}
Nodes(p) == 1..p.n

RECURSIVE GrowR(_, _)
GrowR(p, S) == LET T == S \cup UNION {Range(p.deps[t]) : t \in S} IN IF T = S THEN S ELSE GrowR(p, T)
Below(p, t) == GrowR(p, Range(p.deps[t]))
ClosureR(p, t) == {t} \cup Below(p, t)
NeededR(p, cond, r) ==
  {t \in ClosureR(p, r) : \E u \in ClosureR(p, t) : cond[u]}

NewR(p) == [cond |-> p.cond, on |-> FALSE, root |-> 0, args |-> <<>>, needed |-> {}, started |-> {},
            running |-> {}, ok |-> {}, failed |-> {}, n |-> 0]

SetEff(p, s, t, b) == [s EXCEPT !.cond[t] = b]
\* args: what this invocation was given; act: the way it was invoked ("routine" hands them on,
\* "update" has none to hand on)
InvokeEff(p, s, r, args) ==
  [s EXCEPT !.on = TRUE, !.root = r, !.args = args, !.needed = NeededR(p, s.cond, r),
            !.started = {}, !.running = {}, !.ok = {}, !.failed = {}, !.n = @ + 1]

ArgsFor(p, s, t) == IF t = s.root /\ p.kind[t] = "rt" THEN s.args ELSE <<>>

RunBad(p, s, t, args) ==
  IF ~s.on THEN {"C12.ran-without-invocation"}
  ELSE If(t \in ClosureR(p, s.root) \ s.needed, "C12.ran-although-not-needed")
   \cup If(t \notin ClosureR(p, s.root), "C12.ran-outside-dependencies")
   \cup If(t \in s.started, "C12.ran-twice")
   \cup If((Below(p, t) \cap s.needed) \ s.ok # {}, "C12.ran-before-dependencies")
   \cup If(p.kind[t] = "rt" /\ args # ArgsFor(p, s, t),
           IF t = s.root THEN "C12.wrong-arguments" ELSE "C12.dependency-got-arguments")
RunEff(p, s, t) == [s EXCEPT !.started = @ \cup {t}, !.running = @ \cup {t}]
RanEff(p, s, t, out) ==
  [s EXCEPT !.running = @ \ {t},
            !.ok = IF out = "ok" THEN @ \cup {t} ELSE @,
            !.failed = IF out = "ok" THEN @ ELSE @ \cup {t},
            !.cond = IF out # "ok" THEN @
                     ELSE [u \in Nodes(p) |-> (s.cond[u] /\ u \notin Range(p.resets[t])) \/ u \in Range(p.sets[t])]]
\* res: "true" | "false" | "error"
DoneBad(p, s, res) ==
  IF s.failed = {}
  THEN If(s.needed \ s.ok # {}, "C12.not-run") \cup If(res # "true", "C12.success-not-reported")
  ELSE If(res = "true", "C12.failure-not-reported")
DoneEff(p, s) == [s EXCEPT !.on = FALSE]
=============================================================================
