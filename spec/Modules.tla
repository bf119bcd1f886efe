------------------------------ MODULE Modules ------------------------------
(* Choice of one implementation for every module that is reached through     *)
(* module dependencies.                                                      *)
(*                                                                           *)
(* A scenario c: root (sequence of requests), lib (sequence of [name, impl,  *)
(* req]: the registered implementations and their requests), def (sequence   *)
(* of [name, impl]: the defaults).  A request is [n name, i implementation], *)
(* with i = "" when any will do.                                             *)
(*                                                                           *)
(* The resolution goes on in any order, except that explicit requests that   *)
(* are known come before the defaults.  An explicit request for another      *)
(* implementation than the one already chosen, or for something that does    *)
(* not exist, stops it.                                                      *)
EXTENDS Naturals, FiniteSets, Sequences
If(b, x) == IF b THEN {x} ELSE {}
Range(q) == {q[i] : i \in DOMAIN q}

Known(c) == {c.lib[k].name : k \in DOMAIN c.lib}
HasImpl(c, n, i) == \/ \E k \in DOMAIN c.lib : c.lib[k].name = n /\ c.lib[k].impl = i
                    \/ n \in Known(c) /\ i = "__none__"       \* the empty implementation is always there
Req(c, n, i) ==
  IF i = "__none__" /\ ~\E k \in DOMAIN c.lib : c.lib[k].name = n /\ c.lib[k].impl = i THEN {}
  ELSE Range(c.lib[CHOOSE k \in DOMAIN c.lib : c.lib[k].name = n /\ c.lib[k].impl = i].req)
HasDef(c, n) == \E k \in DOMAIN c.def : c.def[k].name = n
\* of several defaults declared the last one counts
Def(c, n) == c.def[CHOOSE k \in DOMAIN c.def : c.def[k].name = n /\ \A j \in DOMAIN c.def : c.def[j].name = n => j <= k].impl

Err == [err |-> TRUE, set |-> {}]
Ok(ch) == [err |-> FALSE, set |-> ch]
ChosenNames(ch) == {x[1] : x \in ch}

\* state: ch set of <<name, impl>>, ex pending explicit requests, df pending names
St(ch, ex, df) == [ch |-> ch, ex |-> ex, df |-> df]
Start(c) == LET R == Range(c.root) IN
  St({}, {<<r.n, r.i>> : r \in {x \in R : x.i # ""}}, {r.n : r \in {x \in R : x.i = ""}})
Choose(c, s, n, i) ==
  LET R == Req(c, n, i) IN
  St(s.ch \cup {<<n, i>>},
     (s.ex \ {<<n, i>>}) \cup {<<r.n, r.i>> : r \in {x \in R : x.i # ""}},
     (s.df \cup {r.n : r \in {x \in R : x.i = ""}}) \ {n})
\* successor states; Err-or-final results are given as [done |-> result]
ExStep(c, s, x) ==
  IF ~HasImpl(c, x[1], x[2]) THEN [done |-> TRUE, r |-> Err, s |-> s]
  ELSE IF x \in s.ch THEN [done |-> FALSE, r |-> Err, s |-> [s EXCEPT !.ex = @ \ {x}]]
  ELSE IF x[1] \in ChosenNames(s.ch) THEN [done |-> TRUE, r |-> Err, s |-> s]
  ELSE [done |-> FALSE, r |-> Err, s |-> Choose(c, s, x[1], x[2])]
DfStep(c, s, n) ==
  IF n \in ChosenNames(s.ch) THEN [done |-> FALSE, r |-> Err, s |-> [s EXCEPT !.df = @ \ {n}]]
  ELSE IF ~HasDef(c, n) \/ ~HasImpl(c, n, Def(c, n)) THEN [done |-> TRUE, r |-> Err, s |-> s]
  ELSE [done |-> FALSE, r |-> Err, s |-> Choose(c, s, n, Def(c, n))]
Steps(c, s) == IF s.ex # {} THEN {ExStep(c, s, x) : x \in s.ex} ELSE {DfStep(c, s, n) : n \in s.df}

\* all results of the resolution, over all orders
RECURSIVE Explore(_, _, _, _)
Explore(c, todo, seen, res) ==
  IF todo = {} THEN res
  ELSE LET next == UNION {{z.s : z \in {y \in Steps(c, s) : ~y.done}} : s \in todo}
           fin == UNION {{z.r : z \in {y \in Steps(c, s) : y.done}} : s \in todo}
                  \cup {Ok(s.ch) : s \in {t \in todo : t.ex = {} /\ t.df = {}}}
       IN Explore(c, next \ (seen \cup todo), seen \cup todo, res \cup fin)
Outcomes(c) == Explore(c, {Start(c)}, {}, {})

-----------------------------------------------------------------------------
(* The order licant promises: requests are taken as listed, an explicit one   *)
(* at once, with what it asks for itself; defaults are chosen first come,     *)
(* first served, each with what it asks for itself before the next one.       *)
Seq0(c, n, i) == IF Req(c, n, i) = {} THEN <<>> ELSE c.lib[CHOOSE k \in DOMAIN c.lib : c.lib[k].name = n /\ c.lib[k].impl = i].req
RECURSIVE Take(_, _, _, _)
Take(c, rs, z, prog) ==
  IF z.err \/ rs = <<>> THEN z
  ELSE LET r == Head(rs)
           x == <<r.n, r.i>>
           y == IF r.i = "" THEN (IF r.n \in ChosenNames(z.ch) THEN z ELSE [z EXCEPT !.q = Append(@, r.n)])
                ELSE IF ~HasImpl(c, r.n, r.i) \/ (r.n \in ChosenNames(z.ch) /\ x \notin z.ch) THEN [z EXCEPT !.err = TRUE]
                ELSE IF x \in prog THEN z
                ELSE Take(c, Seq0(c, r.n, r.i), [z EXCEPT !.ch = @ \cup {x}], prog \cup {x})
       IN Take(c, Tail(rs), y, prog)
RECURSIVE Drain(_, _)
Drain(c, z) ==
  IF z.err THEN Err
  ELSE IF z.q = <<>> THEN Ok(z.ch)
  ELSE LET n == Head(z.q) IN
       IF n \in ChosenNames(z.ch) THEN Drain(c, [z EXCEPT !.q = Tail(@)])
       ELSE IF ~HasDef(c, n) \/ ~HasImpl(c, n, Def(c, n)) THEN Err
       ELSE Drain(c, Take(c, Seq0(c, n, Def(c, n)), [z EXCEPT !.q = Tail(@), !.ch = @ \cup {<<n, Def(c, n)>>}], {}))
Ordered(c) == Drain(c, Take(c, c.root, [err |-> FALSE, ch |-> {}, q |-> <<>>], {}))

\* what the user sees: an error, or a sequence of [n, i]
ResolvedBad(c, err, mods) ==
  LET O == Outcomes(c)
      S == {<<m.n, m.i>> : m \in Range(mods)}
      oks == {o.set : o \in {x \in O : ~x.err}}
  IN IF err THEN If(Err \notin O, "C15.refused-although-consistent") \cup If(~Ordered(c).err, "C15.refused-out-of-order")
     ELSE If(oks # {} /\ Ordered(c).err, "C15.accepted-out-of-order") \cup If(Cardinality({m.n : m \in Range(mods)}) # Len(mods), "C15.module-twice")
          \cup (IF S \in oks THEN {}
                ELSE IF oks = {} THEN {"C15.inconsistent-accepted"}
                ELSE IF \E o \in oks : ChosenNames(o) = ChosenNames(S) THEN {"C15.wrong-implementation"}
                ELSE {"C15.wrong-modules"})
=============================================================================
