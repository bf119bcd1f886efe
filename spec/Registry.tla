------------------------------ MODULE Registry ------------------------------
(* The registries of libraries: one of the user, one of the system; each maps *)
(* names to absolute paths.  A registry is a set of pairs <<name, path>>.     *)
EXTENDS Naturals, FiniteSets, Sequences
If(b, x) == IF b THEN {x} ELSE {}
Range(q) == {q[i] : i \in DOMAIN q}
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
RECURSIVE NormF(_, _, _)
NormF(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE NormF(q, i + 1,
    IF q[i] = "." THEN acc
    ELSE IF q[i] = ".." /\ acc # <<>> THEN SubSeq(acc, 1, Len(acc) - 1)
    ELSE Append(acc, q[i]))
Norm(q) == NormF(q, 1, <<>>)

Names(R) == {x[1] : x \in R}
Put(R, n, p) == {x \in R : x[1] # n} \cup {<<n, p>>}
Del(R, n) == {x \in R : x[1] # n}
\* registers every name of F, with one of its paths
RECURSIVE PutAll(_, _)
PutAll(R, F) == IF F = {} THEN {R}
                ELSE LET n == (CHOOSE x \in F : TRUE)[1] IN
                     UNION {PutAll(Put(R, n, x[2]), {y \in F : y[1] # n}) : x \in {y \in F : y[1] = n}}

\* o: [k, name, p, cwd]; fs: the set of paths there are; lib: names of library scripts, as pairs <<file, library>>
Full(o) == IF o.p.abs THEN Norm(o.p.p) ELSE Norm(o.cwd \o o.p.p)
Found(o, fs, lib) == {<<l[2], Append(Full(o), l[1])>> : l \in {x \in lib : Append(Full(o), x[1]) \in fs}}
Accepted(o, R, fs) ==
  CASE o.k \in {"list", "merged", "dir"} -> TRUE
    [] o.k = "add" -> Full(o) \in fs
    [] o.k = "remove" -> o.name \in Names(R)
    [] OTHER -> FALSE
Results(o, R, fs, lib) ==
  CASE o.k = "add" /\ Full(o) \in fs -> {Put(R, o.name, Full(o))}
    [] o.k = "dir" -> PutAll(R, Found(o, fs, lib))
    [] o.k = "remove" -> {Del(R, o.name)}
    [] OTHER -> {R}
\* what a request for a library sees
Merged(U, S) == U \cup {x \in S : x[1] \notin Names(U)}
=============================================================================
