----------------------------- MODULE RoutineMC -----------------------------
EXTENDS Routine, TLC, Json, IOUtils, SequencesExt
CONSTANTS GEN, N, MAXOPS, FAILS, FROMFILE
Given == IF FROMFILE THEN JsonDeserialize(IOEnv.PROJECTS) ELSE <<>>
VARIABLES p, s, ops, hist, fset, calls, start
vars == <<p, s, ops, hist, fset, calls, start>>
Args == {<<>>, <<"a">>, <<"a", "b">>}

Dags(n) == {d \in [1..n -> SUBSET (1..n)] : \A t \in 1..n : \A u \in d[t] : u < t}
All == UNION {{[n |-> n, deps |-> [t \in 1..n |-> SetToSeq(d[t])], kind |-> k, cond |-> c,
                resets |-> [t \in 1..n |-> IF r THEN <<t>> ELSE <<>>], sets |-> [t \in 1..n |-> <<>>], workers |-> 2, id |-> 0] :
               d \in Dags(n), k \in {[t \in 1..n |-> "rt"], [t \in 1..n |-> IF t = 1 THEN "up" ELSE "rt"]},
               c \in [1..n -> BOOLEAN], r \in BOOLEAN} : n \in 1..N}
Init == /\ \E q \in (IF FROMFILE THEN Range(Given) ELSE All) : p = q
        /\ s = NewR(p) /\ ops = 0 /\ hist = <<>> /\ fset = {} /\ calls = <<>> /\ start = s.cond
Op(x) == ops < MAXOPS /\ ops' = ops + 1 /\ hist' = IF GEN THEN Append(hist, x) ELSE hist
Set == /\ ~s.on /\ \E t \in Nodes(p) : s' = SetEff(p, s, t, ~s.cond[t]) /\ Op([o |-> "Set", t |-> t, b |-> ~s.cond[t]])
       /\ UNCHANGED <<p, fset, calls, start>>
Invoke == /\ ~s.on
          /\ \E r \in Nodes(p), a \in Args : \E F \in {{}} \cup (IF FAILS THEN {{t} : t \in ClosureR(p, r)} ELSE {}) :
               /\ p.kind[r] = "up" => a = <<>>
               /\ s' = InvokeEff(p, s, r, a) /\ fset' = F
               /\ Op([o |-> "Invoke", t |-> r, args |-> a, fails |-> F])
          /\ calls' = <<>> /\ start' = s.cond /\ UNCHANGED p
Run == /\ s.on /\ s.failed = {} /\ Cardinality(s.running) < p.workers
       /\ \E t \in s.needed \ s.started :
            /\ RunBad(p, s, t, ArgsFor(p, s, t)) = {} /\ s' = RunEff(p, s, t)
            /\ calls' = Append(calls, <<t, ArgsFor(p, s, t)>>)
       /\ UNCHANGED <<p, ops, hist, fset, start>>
Ran == /\ s.on /\ \E t \in s.running : s' = RanEff(p, s, t, IF t \in fset THEN "fail" ELSE "ok")
       /\ UNCHANGED <<p, ops, hist, fset, calls, start>>
Done == /\ s.on /\ s.running = {} /\ (s.failed # {} \/ s.needed \subseteq s.ok)
        /\ DoneBad(p, s, IF s.failed = {} THEN "true" ELSE "false") = {}
        /\ s' = DoneEff(p, s) /\ UNCHANGED <<p, ops, hist, fset, calls, start>>
Finish == /\ GEN /\ ~s.on /\ ops = MAXOPS /\ hist # <<>>
          /\ PrintT(<<"@@", ToJson([p |-> p, h |-> hist])>>)
          /\ hist' = <<>> /\ UNCHANGED <<p, s, ops, fset, calls, start>>
Next == Set \/ Invoke \/ Run \/ Ran \/ Done \/ Finish
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* stated through the record of calls of the current (or last) invocation and the conditions at its start
Called(t) == {i \in DOMAIN calls : calls[i][1] = t}
Once == \A t \in Nodes(p) : Cardinality(Called(t)) <= 1
OnlyRootGetsArgs == \A i \in DOMAIN calls : calls[i][2] # <<>> => calls[i][1] = s.root /\ calls[i][2] = s.args
RootGetsArgs == \A i \in DOMAIN calls : calls[i][1] = s.root /\ p.kind[s.root] = "rt" => calls[i][2] = s.args
DepsBefore == \A i, j \in DOMAIN calls : calls[j][1] \in Below(p, calls[i][1]) => j < i
\* a call happened iff the node or something below it wanted it when the invocation began
Wanted(t) == \E u \in ClosureR(p, t) : start[u]
Exactly == (~s.on /\ s.n > 0 /\ s.failed = {}) =>
             {t \in Nodes(p) : Called(t) # {}} = {t \in ClosureR(p, s.root) : Wanted(t)}
Never == \A i \in DOMAIN calls : Wanted(calls[i][1]) /\ calls[i][1] \in ClosureR(p, s.root)
=============================================================================
