----------------------------- MODULE SolverImpl -----------------------------
(* The design of licant/solver.py: N worker coroutines of one event loop     *)
(* share a queue of ready targets; each action runs in a thread; a worker    *)
(* that sees a failure, or the end of all work, leaves its loop and drains   *)
(* the queue; the build returns when the queue is joined (every item put has *)
(* been acknowledged).  One action of this module is one stretch of a        *)
(* coroutine between two suspensions.                                        *)
(*                                                                           *)
(* Checked: it refines Solver (so Solver's properties hold of it) and always *)
(* returns.  HANDLE_RAISE = FALSE is the design before the repair of the     *)
(* hang on raising actions: then the liveness check must fail.               *)
(*                                                                           *)
(* An interrupt (INTR) sets the error flag and cancels the build: workers    *)
(* stop where they are, running actions end in their threads, nobody looks   *)
(* at their results.  CANCEL = FALSE is a design in which the flag alone is  *)
(* set: the item a waiting worker takes up is never acknowledged and the     *)
(* build does not return.                                                    *)
EXTENDS Naturals, FiniteSets, Sequences, SequencesExt
CONSTANTS N, MaxW, HANDLE_RAISE, INTR, CANCEL
VARIABLES c, queue, unfinished, w, wtask, depcount, error, onbase, st, en, returned,
          reg,    \* a failure set the error flag
          intr    \* "no" | "sent" | "done" (the build is cancelled)
vars == <<c, queue, unfinished, w, wtask, depcount, error, onbase, st, en, returned, reg, intr>>

W == 1..c.workers
T == 1..c.n
D(t) == {c.deps[t][i] : i \in DOMAIN c.deps[t]}
Dependents(t) == {u \in T : t \in D(u)}

Init ==
  \E n \in 1..N, k \in 1..MaxW :
  \E d \in {d \in [1..n -> SUBSET (1..n)] : \A t \in 1..n : \A u \in d[t] : u < t} :
  \E o \in [1..n -> {"ok", "fail", "raise"}] :
    LET ready == {t \in 1..n : d[t] = {}} IN
    /\ c = [n |-> n, deps |-> [t \in 1..n |-> SetToSeq(d[t])], root |-> 0,
            upd |-> [t \in 1..n |-> TRUE], workers |-> k, out |-> o]
    /\ queue = SetToSeq(ready)
    /\ unfinished = Cardinality(ready)
    /\ w = [i \in 1..k |-> "get"]
    /\ wtask = [i \in 1..k |-> 0]
    /\ depcount = [t \in 1..n |-> Cardinality(d[t])]
    /\ error = FALSE
    /\ onbase = [i \in 1..k |-> TRUE]
    /\ st = {} /\ en = {}
    /\ returned = ""
    /\ reg = FALSE /\ intr = "no"

\* leave the loop: drain what is queued now, keep draining later
Drain(i) == /\ w' = [w EXCEPT ![i] = "drain"]
            /\ queue' = <<>>

Get(i) ==
  /\ w[i] = "get" /\ queue # <<>>
  /\ IF error
     THEN /\ Drain(i) /\ unfinished' = unfinished - (Len(queue) - 1)  \* the item in hand is never acknowledged
          /\ UNCHANGED <<wtask, onbase, st>>
     ELSE /\ queue' = Tail(queue) /\ unfinished' = unfinished
          /\ w' = [w EXCEPT ![i] = "exec"]
          /\ wtask' = [wtask EXCEPT ![i] = Head(queue)]
          /\ onbase' = [onbase EXCEPT ![i] = FALSE]
          /\ st' = st \cup {Head(queue)}
  /\ UNCHANGED <<c, depcount, error, en, returned, reg, intr>>

ThreadEnds(i) ==   \* the action returns or raises in its thread
  /\ w[i] = "exec"
  /\ w' = [w EXCEPT ![i] = "post"]
  /\ en' = en \cup {wtask[i]}
  /\ UNCHANGED <<c, queue, unfinished, wtask, depcount, error, onbase, st, returned, reg, intr>>

OrphanEnds(i) ==   \* so does the action of a cancelled worker
  /\ w[i] = "orphan"
  /\ w' = [w EXCEPT ![i] = "gone"]
  /\ en' = en \cup {wtask[i]}
  /\ UNCHANGED <<c, queue, unfinished, wtask, depcount, error, onbase, st, returned, reg, intr>>

Post(i) ==         \* the worker resumes with the result
  /\ w[i] = "post"
  /\ LET t == wtask[i]
         raised == c.out[t] = "raise"
         succ == IF raised THEN {} ELSE Dependents(t)
         dc == [u \in T |-> IF u \in succ THEN depcount[u] - 1 ELSE depcount[u]]
         q == queue \o SetToSeq({u \in succ : dc[u] = 0})
         pending == unfinished + Cardinality({u \in succ : dc[u] = 0}) - 1
         bad == c.out[t] # "ok"
         base == [onbase EXCEPT ![i] = TRUE]
     IN IF raised /\ ~HANDLE_RAISE
        THEN /\ w' = [w EXCEPT ![i] = "dead"]
             /\ UNCHANGED <<queue, unfinished, depcount, error, onbase, reg>>
        ELSE /\ depcount' = dc
             /\ reg' = (reg \/ bad)
             /\ IF error \/ bad
                THEN /\ Drain(i) /\ unfinished' = pending - Len(q)
                     /\ error' = TRUE /\ UNCHANGED onbase
                ELSE /\ error' = error
                     /\ onbase' = base
                     /\ IF (\A j \in W : base[j]) /\ q = <<>>
                        THEN Drain(i) /\ unfinished' = pending
                        ELSE /\ w' = [w EXCEPT ![i] = "get"]
                             /\ queue' = q /\ unfinished' = pending
  /\ UNCHANGED <<c, wtask, st, en, returned, intr>>

DrainMore(i) ==
  /\ w[i] = "drain" /\ queue # <<>>
  /\ queue' = Tail(queue) /\ unfinished' = unfinished - 1
  /\ UNCHANGED <<c, w, wtask, depcount, error, onbase, st, en, returned, reg, intr>>

Join ==
  /\ returned = "" /\ unfinished = 0
  /\ intr # "done"
  /\ returned' = IF intr # "no" THEN "error" ELSE IF error THEN "false" ELSE "true"
  /\ UNCHANGED <<c, queue, unfinished, w, wtask, depcount, error, onbase, st, en, reg, intr>>

Interrupt ==      \* the signal handler, at any moment
  /\ INTR /\ intr = "no" /\ returned = ""
  /\ intr' = "sent" /\ error' = TRUE
  /\ UNCHANGED <<c, queue, unfinished, w, wtask, depcount, onbase, st, en, returned, reg>>

Cancel ==         \* what it scheduled, between two stretches of the event loop
  /\ CANCEL /\ intr = "sent" /\ returned = ""
  /\ intr' = "done"
  /\ w' = [i \in W |-> IF w[i] = "exec" THEN "orphan" ELSE "gone"]
  /\ UNCHANGED <<c, queue, unfinished, wtask, depcount, error, onbase, st, en, returned, reg>>

Leave ==          \* the process ends when the last action has ended
  /\ intr = "done" /\ returned = "" /\ \A i \in W : w[i] = "gone"
  /\ returned' = "error"
  /\ UNCHANGED <<c, queue, unfinished, w, wtask, depcount, error, onbase, st, en, reg, intr>>

Work(i) == Get(i) \/ ThreadEnds(i) \/ OrphanEnds(i) \/ Post(i) \/ DrainMore(i)
Step == Join \/ Cancel \/ Leave \/ \E i \in W : Work(i)
Next == Step \/ Interrupt
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(Cancel) /\ \A i \in 1..MaxW : WF_vars(i \in W /\ Work(i))

-----------------------------------------------------------------------------
\* local copy (an instance may not be used in its own substitution)
RECURSIVE Grow(_, _)
Grow(cc, S) ==
  LET X == S \cup UNION {{cc.deps[t][i] : i \in DOMAIN cc.deps[t]} : t \in S}
  IN IF X = S THEN S ELSE Grow(cc, X)

\* refinement: what the user sees of it is a behaviour of Solver
bad == {t \in en : c.out[t] # "ok"}
absc == [c EXCEPT !.out = [t \in T |-> IF c.out[t] = "ok" THEN "ok" ELSE "fail"]]
Abs == INSTANCE Solver WITH c <- absc,
  s <- [ph |-> IF returned = "" THEN "run" ELSE "end", wf |-> TRUE,
        closure |-> T, needed |-> T,
        reach |-> [t \in T |-> Grow(c, D(t))],
        started |-> st, running |-> st \ en, ok |-> en \ bad,
        failed |-> bad,
        reg |-> reg, intr |-> IF intr = "no" THEN "no" ELSE "settled", res |-> returned]

Refines == Abs!Spec
Returns == <>(returned # "")
NoLostItem == unfinished >= 0
=============================================================================
