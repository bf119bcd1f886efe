----------------------------- MODULE CommandMC -----------------------------
(* The machinery of one command: pipes of limited capacity, a child that     *)
(* blocks on a full one, and a builder that reads.  READER "both" reads      *)
(* whatever there is; "afterwards" reads when the child has ended; "inorder" *)
(* reads standard output to its end first.                                   *)
EXTENDS Command, TLC
CONSTANTS CAP, LEN, AMOUNT, READER
VARIABLES c, s, pos, left, pipe, got, child
vars == <<c, s, pos, left, pipe, got, child>>
W == [s : {1, 2}, n : 1..AMOUNT, p : {TRUE}]
Init == /\ \E l \in 0..LEN : \E w \in [1..l -> W] : \E st \in {0, 1}, sg \in {0, 9} :
             c = [cmds |-> <<[w |-> w, status |-> st, sig |-> sg]>>]
        /\ s = BeganEff(c, NewX(c), 1) /\ pos = 1 /\ left = (IF c.cmds[1].w = <<>> THEN 0 ELSE c.cmds[1].w[1].n)
        /\ pipe = [x \in {1, 2} |-> <<>>] /\ got = [x \in {1, 2} |-> <<>>] /\ child = "alive"
w == c.cmds[1].w
Write == /\ child = "alive" /\ pos <= Len(w)
         /\ LET x == w[pos].s IN
            /\ Len(pipe[x]) < CAP
            /\ pipe' = [pipe EXCEPT ![x] = Append(@, pos)]
         /\ IF left = 1
            THEN pos' = pos + 1 /\ left' = IF pos + 1 <= Len(w) THEN w[pos + 1].n ELSE 0
            ELSE pos' = pos /\ left' = left - 1
         /\ UNCHANGED <<c, s, got, child>>
Die == child = "alive" /\ pos > Len(w) /\ child' = "dead" /\ UNCHANGED <<c, s, pos, left, pipe, got>>
Eof(x) == child = "dead" /\ pipe[x] = <<>>
MayRead(x) == CASE READER = "both" -> TRUE
                [] READER = "afterwards" -> child = "dead"
                [] READER = "inorder" -> x = 1 \/ Eof(1)
Read(x) == /\ pipe[x] # <<>> /\ MayRead(x)
           /\ got' = [got EXCEPT ![x] = @ \o pipe[x]] /\ pipe' = [pipe EXCEPT ![x] = <<>>]
           /\ UNCHANGED <<c, s, pos, left, child>>
\* pieces put together again
Count(q, k) == Cardinality({i \in DOMAIN q : q[i] = k})
RECURSIVE Glue(_, _)
Glue(q, k) == IF k > Len(w) THEN <<>>
              ELSE (IF Count(q, k) > 0 THEN <<[k |-> k, n |-> Count(q, k)]>> ELSE <<>>) \o Glue(q, k + 1)
Finish == /\ s.res = "" /\ Eof(1) /\ Eof(2)
          /\ s' = ResultEff(c, s, IF Good(c.cmds[1]) THEN "true" ELSE "false")
          /\ UNCHANGED <<c, pos, left, pipe, got, child>>
Next == Write \/ Die \/ Read(1) \/ Read(2) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Complete == s.res # "" => \A x \in {1, 2} : PrintedBad(c, s, 1, x, Glue(got[x], 1)) = {}
Right == s.res # "" => ResultBad(c, s, s.res) = {} /\ (s.res = "true") = (c.cmds[1].status = 0 /\ c.cmds[1].sig = 0)
Ends == <>(s.res # "")
=============================================================================
