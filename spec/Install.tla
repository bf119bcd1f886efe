------------------------------- MODULE Install -------------------------------
(* Installation of libraries, applications and header trees under a prefix.  *)
(* A state of the file system is a set of records [p, c, t]: path, content    *)
(* and a rank of the time it was written.                                     *)
(* c.sets: what can be installed; c.built: files made of others, [tgt, src];  *)
(* c.match: the pairs <<pattern, file name>> that match.                      *)
EXTENDS Naturals, FiniteSets, Sequences
If(b, x) == IF b THEN {x} ELSE {}
Range(q) == {q[i] : i \in DOMAIN q}
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Rest(p, q) == SubSeq(q, Len(p) + 1, Len(q))
Base(q) == q[Len(q)]
Paths(S) == {x.p : x \in S}
File(S, p) == CHOOSE x \in S : x.p = p

INC == <<"prefix", "include">>
LIBDIR == <<"prefix", "lib">>
BIN == <<"prefix", "bin">>
\* the files that set s puts under the prefix: where from, where to, and what else its age is compared with
Headers(c, s, S) ==
  {[src |-> p, dst |-> INC \o s.root \o Rest(s.dir, p), more |-> Range(s.libs)] :
     p \in {q \in Paths(S) : Len(q) > Len(s.dir) /\ Prefix(s.dir, q) /\ \E x \in Range(s.pats) : <<x, Base(q)>> \in Range(c.match)}}
Libs(s) == {[src |-> p, dst |-> Append(LIBDIR, Base(p)), more |-> {}] : p \in Range(s.libs)}
Items(c, s, S) ==
  CASE s.kind = "library" -> Headers(c, s, S) \cup Libs(s)
    [] s.kind = "headers" -> Headers(c, s, S)
    [] s.kind = "application" -> {[src |-> s.src, dst |-> BIN \o s.root, more |-> {}]}
    [] s.kind = "shared" -> {[src |-> s.src, dst |-> LIBDIR \o s.root, more |-> {}]}
\* files to be made again: the source is newer, or the file is missing
Stale(S, p, q) == p \notin Paths(S) \/ File(S, q).t > File(S, p).t
BuiltOf(c, p) == {b \in Range(c.built) : b.tgt = p}
Remade(c, S, p) == \E b \in BuiltOf(c, p) : Stale(S, p, b.src)
Content(c, S, p) == IF Remade(c, S, p) THEN File(S, (CHOOSE b \in BuiltOf(c, p) : TRUE).src).c ELSE File(S, p).c
Later(c, S, p, q) == Remade(c, S, q) \/ Stale(S, p, q)
\* those that an installation has to copy, and those that it may
Must(c, S, i) == Later(c, S, i.dst, i.src)
May(c, S, i) == Must(c, S, i) \/ \E q \in i.more : Later(c, S, i.dst, q)
\* the files there are to be afterwards, and which may have been written
Needed(c, s, S) == LET I == Items(c, s, S) IN
  {b.tgt : b \in {x \in Range(c.built) : \E i \in I : x.tgt = i.src \/ x.tgt \in i.more}}
Dsts(c, s, S) == {i.dst : i \in Items(c, s, S)}
=============================================================================
