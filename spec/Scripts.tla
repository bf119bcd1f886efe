------------------------------ MODULE Scripts ------------------------------
(* Build scripts that execute other scripts, directly, by pattern or as       *)
(* libraries: which script runs, how often, and which directory is in effect. *)
(* c.files[f] = [dir, name, st] with st the statements; file 1 is the root.   *)
(* c.user, c.system: registries; c.match: pairs <<pattern, name>>.            *)
EXTENDS Naturals, FiniteSets, Sequences
If(b, x) == IF b THEN {x} ELSE {}
Range(q) == {q[i] : i \in DOMAIN q}
RECURSIVE NormF(_, _, _)
NormF(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE NormF(q, i + 1,
    IF q[i] = "." THEN acc
    ELSE IF q[i] = ".." /\ acc # <<>> /\ acc[Len(acc)] # ".." THEN SubSeq(acc, 1, Len(acc) - 1)
    ELSE Append(acc, q[i]))
Norm(q) == NormF(q, 1, <<>>)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

Path(c, f) == Append(c.files[f].dir, c.files[f].name)
\* the file at a path, 0 if there is none
At(c, p) == LET S == {f \in DOMAIN c.files : Path(c, f) = Norm(p)} IN IF S = {} THEN 0 ELSE CHOOSE f \in S : TRUE
Dir(c, f) == c.files[f].dir
\* a path named in script f
Rel(c, f, p) == IF p.abs THEN p.p ELSE Dir(c, f) \o p.p

Has(reg, lib) == \E k \in DOMAIN reg : reg[k].lib = lib
Entry(reg, lib) == reg[CHOOSE k \in DOMAIN reg : reg[k].lib = lib].path
\* where a library is looked for: -1 means it is not known
Lookup(c, f, s) == IF s.given THEN At(c, Rel(c, f, s.p))
                   ELSE IF Has(c.user, s.lib) THEN At(c, Entry(c.user, s.lib))
                   ELSE IF Has(c.system, s.lib) THEN At(c, Entry(c.system, s.lib))
                   ELSE 0
Matches(c, f, s) == LET root == Norm(Rel(c, f, s.p)) IN
  {g \in DOMAIN c.files : Prefix(root, Dir(c, g)) /\ <<s.pat, c.files[g].name>> \in Range(c.match)
                          /\ (s.hide # "" => s.hide \notin Range(Dir(c, g)))}

\* stack of frames: script, next statement, scripts still to be run by the last one
Frame(f) == [f |-> f, pc |-> 1, todo |-> {}]
Start == [stack |-> <<Frame(1)>>, inc |-> {}]
Top(m) == m.stack[Len(m.stack)]
Push(m, f) == [m EXCEPT !.stack = Append(@, Frame(f))]
PopF(m) == [m EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
\* go on with the next statement of the running script
Step(m) == [m EXCEPT !.stack[Len(m.stack)].pc = @ + 1]
Todo(m, T) == [m EXCEPT !.stack[Len(m.stack)].todo = T]

\* silent steps up to the next visible one: [m, vis], vis: "start" (of one of set), "at", "end", "refuse"
RECURSIVE Quiet(_, _)
Quiet(c, m) ==
  IF m.stack = <<>> THEN [m |-> m, vis |-> "end", set |-> {}]
  ELSE LET t == Top(m)  n == Len(c.files[t.f].st) IN
    IF t.todo # {} THEN [m |-> m, vis |-> "start", set |-> t.todo]
    ELSE IF t.pc > n THEN Quiet(c, PopF(m))
    ELSE LET s == c.files[t.f].st[t.pc] IN
      CASE s.k = "raise" -> [m |-> m, vis |-> "refuse", set |-> {}]
        [] s.k = "at" -> [m |-> m, vis |-> "at", set |-> {t.f}]
        [] s.k = "exec" -> LET g == At(c, Rel(c, t.f, s.p)) IN
             IF g = 0 THEN [m |-> m, vis |-> "refuse", set |-> {}]
             ELSE [m |-> Todo(Step(m), {g}), vis |-> "start", set |-> {g}]
        [] s.k = "rec" -> Quiet(c, Todo(Step(m), Matches(c, t.f, s)))
        [] s.k = "incl" ->
             IF s.lib \in m.inc THEN Quiet(c, Step(m))
             ELSE LET g == Lookup(c, t.f, s) IN
               IF g = 0 THEN [m |-> m, vis |-> "refuse", set |-> {}]
               ELSE [m |-> [Todo(Step(m), {g}) EXCEPT !.inc = @ \cup {s.lib}], vis |-> "start", set |-> {g}]
\* the visible steps
Started(q, g) == Push(Todo(q.m, Top(q.m).todo \ {g}), g)
Passed(q) == Step(q.m)
=============================================================================
