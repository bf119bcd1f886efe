------------------------------ MODULE Command ------------------------------
(* Shell commands run for targets: each writes to its standard output and    *)
(* error and ends with a status or by a signal; the builder passes on what   *)
(* was written and takes status 0, and only that, for success.               *)
(*                                                                           *)
(* A scenario c: cmds[i] = [w (sequence of [s stream 1|2, n amount, p        *)
(* printable]), status (0..255), sig (0: none)].                             *)
EXTENDS Naturals, Sequences, FiniteSets
If(b, x) == IF b THEN {x} ELSE {}
Good(cmd) == cmd.status = 0 /\ cmd.sig = 0

\* what has to be seen of stream s: numbered pieces with their amounts (0 for unprintable ones)
RECURSIVE Pieces(_, _, _)
Pieces(w, s, k) ==
  IF k > Len(w) THEN <<>>
  ELSE (IF w[k].s = s THEN <<[k |-> k, n |-> IF w[k].p THEN w[k].n ELSE 0]>> ELSE <<>>) \o Pieces(w, s, k + 1)

NewX(c) == [began |-> {}, res |-> ""]
BeganEff(c, s, i) == [s EXCEPT !.began = @ \cup {i}]
\* what was passed on for command i on stream st
Seen(pcs) == [j \in DOMAIN pcs |-> pcs[j].k]
PrintedBad(c, s, i, st, pcs) ==
  LET want == Pieces(c.cmds[i].w, st, 1) IN
  IF i \notin s.began THEN {}
  ELSE If(Seen(pcs) # Seen(want), "C11.output-lost")
       \cup If(Seen(pcs) = Seen(want) /\ pcs # want, "C11.output-cut")
ResultBad(c, s, res) ==
  LET bad == {i \in s.began : ~Good(c.cmds[i])} IN
  (IF bad = {} THEN If(res # "true", "C11.status-zero-taken-for-failure") \cup If(s.began # DOMAIN c.cmds, "C11.not-run")
   ELSE If(res = "true", "C11.failure-taken-for-success"))
ResultEff(c, s, res) == [s EXCEPT !.res = res]
=============================================================================
