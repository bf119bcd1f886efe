------------------------------- MODULE CliMC -------------------------------
EXTENDS Cli, TLC, Json
CONSTANTS GEN, MAXARGS
VARIABLES c, s
vars == <<c, s>>
Words == {"a", "b", "go", "x", "invoke_routine", "actlist"}
Argvs == UNION {[1..k -> Words] : k \in 0..MAXARGS}
ActSets == {<<>>, <<"go">>, <<"go", "b">>}
Ts(n) == {[name |-> n, kind |-> "rt", acts |-> <<>>]} \cup {[name |-> n, kind |-> k, acts |-> a] : k \in {"plain", "upd"}, a \in ActSets}
Init == /\ \E ts \in {<<x>> : x \in Ts("a")} \cup {<<x, y>> : x \in Ts("a"), y \in Ts("b")} :
           \E d \in {"", "a", "b", "zz"} : \E v \in Argvs : \E o \in (IF GEN THEN {"ok"} ELSE {"ok", "fail"}) :
             c = [targets |-> ts, default |-> d, argv |-> v, out |-> o]
        /\ Specified(c) /\ s = NewC(c)
        /\ GEN => PrintT(<<"@@", ToJson(c)>>)
Call == /\ s.ph = "run" /\ Observable(s.want) /\ s.calls = <<>>
        /\ CallBad(c, s, s.want.t, s.want.a, s.want.args) = {}
        /\ s' = CallEff(c, s, s.want.t, s.want.a, s.want.args) /\ UNCHANGED c
Exit == /\ s.ph = "run"
        /\ \E code \in {0, 1} : ExitBad(c, s, code) = {} /\ s' = ExitEff(c, s) /\ UNCHANGED c
Next == ~GEN /\ (Call \/ Exit)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
AtMostOne == Len(s.calls) <= 1
\* arguments are handed on unchanged: they are a tail of the command line
Tail3 == \A i \in DOMAIN s.calls : LET a == s.calls[i][3] IN
            Len(a) <= Len(c.argv) /\ a = From(c.argv, Len(c.argv) - Len(a) + 1)
\* only ever an existing target and one of its actions
Sane == \A i \in DOMAIN s.calls : s.calls[i][1] \in Names(c) /\ s.calls[i][2] \in {"main"} \cup Actions(c, s.calls[i][1])
\* a target of that name is preferred to an action of that name
TargetFirst == \A i \in DOMAIN s.calls : (c.argv # <<>> /\ c.argv[1] \in Names(c)) => s.calls[i][1] = c.argv[1]
\* and the code can always exit
Ends == <>(GEN \/ s.ph = "end")
=============================================================================
