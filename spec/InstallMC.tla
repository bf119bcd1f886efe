------------------------------ MODULE InstallMC ------------------------------
(* All histories of edits, installations and removals on a library with two  *)
(* headers and a built file and a second set of the same headers, performed   *)
(* file by file in any order by licant's rule (copy what is missing or older  *)
(* than anything it depends on), with stops anywhere.                         *)
EXTENDS Install, TLC, Json, IOUtils
CONSTANTS MAXOPS, NEWER   \* NEWER = FALSE: copies only what is missing
VARIABLES fs, todo, n, now, hand, act
vars == <<fs, todo, n, now, hand, act>>
C == [sets |-> <<[kind |-> "library", dir |-> <<"h">>, root |-> <<"r">>, pats |-> <<"*.h">>, libs |-> <<<<"l.so">>>>],
                 [kind |-> "headers", dir |-> <<"h">>, root |-> <<"q">>, pats |-> <<"*.h">>, libs |-> <<>>]>>,
      built |-> <<[tgt |-> <<"l.so">>, src |-> <<"l.c">>]>>, match |-> <<<<"*.h", "a.h">>, <<"*.h", "b.h">>>>]
Srcs == {<<"h", "a.h">>, <<"h", "d", "b.h">>, <<"l.c">>}
Others == {<<"h", "x.c">>, <<"prefix", "include", "r", "own.h">>}
Put(S, p, v, t) == {x \in S : x.p # p} \cup {[p |-> p, c |-> v, t |-> t]}
Init == /\ fs = {[p |-> p, c |-> 0, t |-> 1] : p \in Srcs \cup Others} /\ todo = {} /\ n = 0 /\ now = 2
        /\ hand = {}   \* installed files changed by hand since
        /\ act = [k |-> "none"]
Dst == UNION {Dsts(C, s, fs) : s \in Range(C.sets)}
Edit == /\ todo = {} /\ n < MAXOPS /\ n' = n + 1 /\ now' = now + 1
        /\ \/ \E p \in Srcs, v \in {0, 1} : fs' = Put(fs, p, v, now) /\ hand' = hand
           \/ \E p \in Srcs \ {<<"l.c">>} : p \in Paths(fs) /\ fs' = {x \in fs : x.p # p} /\ hand' = hand
           \/ \E p \in Dst : p \in Paths(fs) /\ (fs' = {x \in fs : x.p # p} \/ (fs' = Put(fs, p, 9, now))) /\ hand' = (hand \cup {p})
           \/ \E p \in {<<"l.so">>} : fs' = {x \in fs : x.p # p} /\ hand' = hand
        /\ act' = [k |-> "edit"] /\ UNCHANGED todo
Install == /\ todo = {} /\ n < MAXOPS /\ n' = n + 1 /\ now' = now + 1
           /\ \E s \in Range(C.sets) :
                \* first what is built
                LET fs1 == IF (\E i \in Items(C, s, fs) : <<"l.so">> \in {i.src} \cup i.more) /\ Remade(C, fs, <<"l.so">>)
                           THEN Put(fs, <<"l.so">>, File(fs, <<"l.c">>).c, now) ELSE fs IN
                /\ fs' = fs1
                /\ act' = [k |-> "install", s |-> s, pre |-> fs, wrote |-> {x.p : x \in fs1 \ fs}]
                /\ todo' = {i \in Items(C, s, fs1) : \E q \in {i.src} \cup i.more : IF NEWER THEN Stale(fs1, i.dst, q) ELSE i.dst \notin Paths(fs1)}
           /\ UNCHANGED hand
Step == /\ todo # {} /\ \E i \in todo : /\ fs' = Put(fs, i.dst, File(fs, i.src).c, now - 1)
                                        /\ todo' = todo \ {i}
                                        /\ act' = [act EXCEPT !.wrote = @ \cup {i.dst}]
                                        /\ hand' = hand \ {i.dst}
        /\ UNCHANGED <<n, now>>
Stop == todo # {} /\ todo' = {} /\ act' = [k |-> "stopped"] /\ UNCHANGED <<fs, n, now, hand>>
Uninstall == /\ todo = {} /\ n < MAXOPS /\ n' = n + 1 /\ now' = now
             /\ fs' = {x \in fs : x.p \notin Dsts(C, C.sets[1], fs)} /\ hand' = {p \in hand : p \in Paths(fs')}
             /\ act' = [k |-> "uninstall", pre |-> fs] /\ UNCHANGED todo
Next == Edit \/ Install \/ Step \/ Stop \/ Uninstall
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == act.k = "install" /\ todo = {}
\* after an installation every file selected is there, with the content of its source, unless changed by hand
Mirror == Done => \A i \in Items(C, act.s, fs) : i.dst \in Paths(fs) /\ (i.dst \notin hand => File(fs, i.dst).c = File(fs, i.src).c)
Nothing == (Done \/ act.k = "install") => \A x \in act.pre : x.p \in act.wrote \/ x \in fs
Only == Done => act.wrote \subseteq Needed(C, act.s, act.pre) \cup {i.dst : i \in {j \in Items(C, act.s, act.pre) : May(C, act.pre, j)}}
Every == Done => \A i \in Items(C, act.s, act.pre) : Must(C, act.pre, i) => i.dst \in act.wrote
Removed == act.k = "uninstall" => /\ \A p \in Dsts(C, C.sets[1], act.pre) : p \notin Paths(fs)
                                  /\ \A x \in act.pre : x \in fs \/ x.p \in Dsts(C, C.sets[1], act.pre)
=============================================================================
