------------------------------- MODULE Steps -------------------------------
(* Steps of the tool chain: generated sources (moc), generated headers (uic), *)
(* compilations, links, archives, section copies, java classes, over a        *)
(* history of edits, losses of outputs, failing tools and build sessions.     *)
(* A step reads files (ins) and outputs of other steps (from); it may be      *)
(* repeated, but need not be, after steps it only waits for (after); it has   *)
(* to be repeated after those its unit declares to depend on (over).          *)
EXTENDS Naturals, FiniteSets, Sequences
If(b, x) == IF b THEN {x} ELSE {}
Range(q) == {q[i] : i \in DOMAIN q}

\* S: sequence of steps [kind, ins, from, after, over, unit]; fs: files [v, bad], v = 0: there is none
Close(S, R) == LET RECURSIVE C(_)
                   C(X) == LET Y == X \cup UNION {S[s].from \cup S[s].after \cup S[s].over : s \in X} IN IF X = Y THEN X ELSE C(Y)
               IN C(R)
Gather == {"link", "dynlib", "ar", "copy", "dex"}
\* what a step's output tells: a set of lines, each a set of files with their versions
RECURSIVE Lines(_, _, _)
Lines(S, fs, s) ==
  IF S[s].kind \in Gather THEN UNION {Lines(S, fs, t) : t \in S[s].from}
  ELSE {{<<f, fs[f].v>> : f \in S[s].ins} \cup UNION UNION {Lines(S, fs, t) : t \in S[s].from}}

\* must: steps to run; may: steps that may run as well
Init0(S) == [must |-> DOMAIN S, may |-> {}, out |-> [s \in DOMAIN S |-> {}]]
Grow(S, X, all) ==
  LET RECURSIVE G(_)
      G(Y) == LET Z == Y \cup {t \in DOMAIN S : (S[t].from \cup S[t].over) \cap Y # {} \/ (all /\ S[t].after \cap Y # {})} IN IF Z = Y THEN Y ELSE G(Z)
  IN G(X)
Must(S, a, R) == Grow(S, a.must \cap Close(S, R), FALSE) \cap Close(S, R)
May(S, a, R) == Grow(S, (a.must \cup a.may) \cap Close(S, R), TRUE) \cap Close(S, R)
Changed(S, a, f) == [a EXCEPT !.must = @ \cup {s \in DOMAIN S : f \in S[s].ins}]
Lost(S, a, s) == [a EXCEPT !.must = @ \cup {s}]
Fails(S, fs, broken, s) == S[s].kind \in broken \/ \E f \in S[s].ins : fs[f].v = 0 \/ fs[f].bad
After(S, a, done) ==
  [a EXCEPT !.must = (@ \cup {t \in DOMAIN S : (S[t].from \cup S[t].over) \cap done # {}}) \ done,
            !.may = (@ \cup {t \in DOMAIN S : S[t].after \cap done # {}}) \ done]

(* A session: req, steps requested; tried, done: sequences of steps run and    *)
(* run well; out[s]: lines found; opts[s]: options of compilations in done.    *)
SessionBad(S, fs, a, e) ==
  LET M == Must(S, a, e.req)
      A == May(S, a, e.req)
      T == Range(e.tried)
      D == Range(e.done)
      C == Close(S, e.req)
      Wrong(s) == Range(e.out[s]) # Lines(S, fs, s) \/ Len(e.out[s]) # Cardinality(Lines(S, fs, s))
      Same(s, t) == S[s].unit = S[t].unit /\ S[s].lang = S[t].lang /\ S[s].lang # ""
  IN If(T \ A # {}, "C26.run-in-vain")
     \cup If(Len(e.tried) # Cardinality(T), "C26.run-twice")
     \cup If(e.ok /\ M \ D # {}, "C26.not-run")
     \cup If(e.ok /\ \E s \in M : Fails(S, fs, e.broken, s), "C26.failure-hidden")
     \cup If(~e.ok /\ ~\E s \in A : Fails(S, fs, e.broken, s), "C26.refused")
     \cup If(e.ok /\ \E s \in C : Wrong(s), "C26.not-as-from-scratch")
     \cup If(\E s \in D : Wrong(s), "C26.made-of-old-parts")
     \cup If(\E s, t \in D : Same(s, t) /\ e.opts[s] # e.opts[t], "C26.options-of-the-unit")
     \cup If(e.stray # <<>>, "C26.foreign-step")
=============================================================================
