-------------------------------- MODULE Cli --------------------------------
(* One run of a build script: what its command line asks for, what is then   *)
(* done, and the exit status.                                                *)
(*                                                                           *)
(* A scenario c: targets (sequence of [name, kind, acts]; kind "plain" a     *)
(* target with an action, "upd" a target with a condition, "rt" a routine;   *)
(* acts its further actions), default ("" none), argv (the free arguments),  *)
(* out (what any action that is performed does: "ok" | "fail").              *)
EXTENDS Naturals, Sequences, FiniteSets

If(b, x) == IF b THEN {x} ELSE {}
Range(q) == {q[i] : i \in DOMAIN q}
Names(c) == {c.targets[i].name : i \in DOMAIN c.targets}
Tgt(c, x) == c.targets[CHOOSE i \in DOMAIN c.targets : c.targets[i].name = x]
\* actions that can be named; "main" stands for what the target is there for
Actions(c, x) == Range(Tgt(c, x).acts) \cup {"actlist"}
                 \cup (IF Tgt(c, x).kind = "rt" THEN {"invoke_routine"} ELSE {})
Main(a) == IF a = "invoke_routine" THEN "main" ELSE a
From(q, k) == SubSeq(q, k, Len(q))

Error == [k |-> "error", t |-> "", a |-> "", args |-> <<>>]
Do(t, a, args) == [k |-> "call", t |-> t, a |-> a, args |-> args]

Dispatch(c) ==
  LET v == c.argv IN
  IF v = <<>> THEN
       IF c.default \in Names(c) THEN Do(c.default, "main", <<>>) ELSE Error
  ELSE IF v[1] \in Names(c) THEN
       IF Tgt(c, v[1]).kind = "rt" THEN Do(v[1], "main", From(v, 2))
       ELSE IF Len(v) = 1 THEN Do(v[1], "main", <<>>)
       ELSE IF v[2] \in Actions(c, v[1]) THEN Do(v[1], v[2], From(v, 3))
       ELSE Error
  ELSE IF c.default \in Names(c) /\ v[1] \in Actions(c, c.default) THEN Do(c.default, Main(v[1]), From(v, 2))
  ELSE Error
\* listing the actions takes no arguments; what it does with some is not specified
Specified(c) == LET d == Dispatch(c) IN ~(d.a = "actlist" /\ d.args # <<>>)

NewC(c) == [want |-> Dispatch(c), calls |-> <<>>, ph |-> "run"]
CallBad(c, s, t, a, args) ==
  IF s.want.k = "error" THEN {"C13.action-although-not-understood"}
  ELSE IF s.calls # <<>> THEN {"C13.more-than-one-action"}
  ELSE If(t # s.want.t, "C13.wrong-target") \cup If(a # s.want.a, "C13.wrong-action")
       \cup If(args # s.want.args, "C13.wrong-arguments")
CallEff(c, s, t, a, args) == [s EXCEPT !.calls = Append(@, <<t, a, args>>)]
Observable(d) == d.k = "call" /\ d.a # "actlist"
ExitBad(c, s, code) ==
  If(Observable(s.want) /\ s.calls = <<>>, "C13.action-not-performed")
  \cup (IF s.want.k = "error" THEN If(code = 0, "C13.not-understood-but-no-error") \cup If(code = 0, "C14.zero-although-not-understood")
        ELSE IF Observable(s.want) /\ c.out # "ok" THEN If(code = 0, "C14.zero-although-failed")
        ELSE If(code # 0, "C14.nonzero-although-succeeded") \cup If(code # 0 /\ s.calls = <<>>, "C13.refused"))
ExitEff(c, s) == [s EXCEPT !.ph = "end"]
=============================================================================
