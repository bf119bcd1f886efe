------------------------------ MODULE StepsMC -------------------------------
(* licant's rule (a step runs when its output is missing or older than what   *)
(* it declares to depend on, or when one of those runs) against Steps.tla,    *)
(* for an application with a generated source, a form and an image of it.     *)
EXTENDS Steps, TLC
CONSTANTS MAXOPS, ATOMIC    \* ATOMIC: moc and uic write their output only when they succeed
VARIABLES fs, ft, ot, oc, a, n, clock, cur, verdict
vars == <<fs, ft, ot, oc, a, n, clock, cur, verdict>>
Mk(k, ins, from, after) == [kind |-> k, ins |-> ins, from |-> from, after |-> after \ {7}, over |-> after \cap {7}, unit |-> 0, lang |-> ""]
\* files: 1 a source that uses the form, 2 a header for moc, 3 the form and the input of what the unit depends on
S == <<Mk("uic", {3}, {}, {7}), Mk("moc", {2}, {}, {1, 7}), Mk("cc", {1}, {1}, {1, 7}), Mk("mocc", {}, {2}, {1, 7}), Mk("link", {}, {3, 4}, {}), Mk("copy", {}, {5}, {}),
      Mk("gen", {3}, {}, {})>>
Steps == DOMAIN S
Redirected == {"moc", "uic"}
Init == /\ fs = [f \in 1..3 |-> [v |-> 1, bad |-> FALSE]] /\ ft = [f \in 1..3 |-> 1]
        /\ ot = [s \in Steps |-> 0] /\ oc = [s \in Steps |-> {}] /\ a = Init0(S) /\ n = 0 /\ clock = 1
        /\ cur = [on |-> FALSE] /\ verdict = {}
Edit == /\ ~cur.on /\ n < MAXOPS
        /\ \E f \in 1..3, b \in BOOLEAN :
             /\ fs' = [fs EXCEPT ![f] = [v |-> fs[f].v + 1, bad |-> b]] /\ ft' = [ft EXCEPT ![f] = clock + 1] /\ a' = Changed(S, a, f)
        /\ clock' = clock + 1 /\ n' = n + 1 /\ UNCHANGED <<ot, oc, cur, verdict>>
Lose == /\ ~cur.on /\ n < MAXOPS
        /\ \E s \in {x \in Steps : ot[x] > 0} : ot' = [ot EXCEPT ![s] = 0] /\ oc' = [oc EXCEPT ![s] = {}] /\ a' = Lost(S, a, s)
        /\ n' = n + 1 /\ UNCHANGED <<fs, ft, clock, cur, verdict>>
\* what a step declares to depend on
Older(s) == ot[s] = 0 \/ (\E f \in S[s].ins : ft[f] > ot[s]) \/ (\E t \in S[s].from \cup S[s].after \cup S[s].over : ot[t] > ot[s])
Needed == LET RECURSIVE G(_)
              G(X) == LET Y == X \cup {s \in Steps : (S[s].from \cup S[s].after \cup S[s].over) \cap X # {}} IN IF X = Y THEN X ELSE G(Y)
          IN G({s \in Steps : Older(s)})
Start == /\ ~cur.on /\ n < MAXOPS
         /\ \E req \in {{6}, {5}, {4}}, broken \in {{}, {"moc"}, {"uic"}, {"link"}} :
              cur' = [on |-> TRUE, req |-> req, broken |-> broken, todo |-> Needed \cap Close(S, req), tried |-> <<>>, done |-> <<>>, ok |-> TRUE]
         /\ n' = n + 1 /\ UNCHANGED <<fs, ft, ot, oc, a, clock, verdict>>
Made(s) == IF S[s].kind \in Gather THEN UNION {oc[t] : t \in S[s].from}
           ELSE {{<<f, fs[f].v>> : f \in S[s].ins} \cup UNION UNION {oc[t] : t \in S[s].from}}
\* a generated file that is not there, or half there, is noticed when it is used or not: here it is not
Run == /\ cur.on /\ cur.ok /\ cur.todo # {}
       /\ \E s \in cur.todo :
            /\ (S[s].from \cup S[s].after \cup S[s].over) \cap cur.todo = {}
            /\ clock' = clock + 1
            /\ IF Fails(S, fs, cur.broken, s)
               THEN /\ cur' = [cur EXCEPT !.ok = FALSE, !.tried = Append(@, s)]
                    /\ IF ~ATOMIC /\ S[s].kind \in Redirected
                       THEN ot' = [ot EXCEPT ![s] = clock + 1] /\ oc' = [oc EXCEPT ![s] = {{<<0, 0>>}}]
                       ELSE UNCHANGED <<ot, oc>>
               ELSE /\ cur' = [cur EXCEPT !.todo = @ \ {s}, !.tried = Append(@, s), !.done = Append(@, s)]
                    /\ ot' = [ot EXCEPT ![s] = clock + 1] /\ oc' = [oc EXCEPT ![s] = Made(s)]
       /\ UNCHANGED <<fs, ft, a, n, verdict>>
SeqOf(T) == CHOOSE q \in [1..Cardinality(T) -> T] : Range(q) = T
End == /\ cur.on /\ (~cur.ok \/ cur.todo = {})
       /\ verdict' = SessionBad(S, fs, a, [req |-> cur.req, broken |-> cur.broken, tried |-> cur.tried, done |-> cur.done, ok |-> cur.ok, stray |-> <<>>,
                                           opts |-> [s \in Steps |-> ""], out |-> [s \in Steps |-> SeqOf(oc[s])]])
       /\ a' = After(S, a, Range(cur.done)) /\ cur' = [on |-> FALSE]
       /\ UNCHANGED <<fs, ft, ot, oc, n, clock>>
Next == Edit \/ Lose \/ Start \/ Run \/ End
Spec == Init /\ [][Next]_vars
\* every session is as Steps.tla demands
Right == verdict = {}
=============================================================================
