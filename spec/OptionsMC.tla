----------------------------- MODULE OptionsMC -----------------------------
(* Composition of options, one included module at a time, over all small     *)
(* applications; what the result must satisfy is said without the steps.     *)
EXTENDS Options, TLC, Json, IOUtils
CONSTANT N          \* number of modules
VARIABLES c, E, stack, queue, done, over
vars == <<c, E, stack, queue, done, over>>
Id == 0..N          \* 0 is the application
Nm(i) == CASE i = 0 -> "app" [] i = 1 -> "m1" [] i = 2 -> "m2" [] i = 3 -> "m3"
Pairs == {p \in Id \X (1..N) : p[1] < p[2]}
Sel(e, i, kind) == LET S == {j \in 1..N : <<i, j>> \in Pairs /\ e[<<i, j>>] = kind}
                       RECURSIVE Sorted(_)
                       Sorted(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<Nm(x)>> \o Sorted(T \ {x})
                   IN Sorted(S)
MkMod(e, sc, i) ==
  [name |-> Nm(i), dir |-> IF i = 0 THEN <<>> ELSE <<"d", Nm(i)>>, srcdir |-> <<>>,
   src |-> <<[p |-> <<Nm(i)>>, x |-> "c", abs |-> FALSE]>>, obj |-> <<>>,
   inc |-> <<[p |-> <<"..", "inc", Nm(i)>>, abs |-> FALSE]>>, scr |-> <<>>, lh |-> <<>>, def |-> <<Nm(i)>>,
   libs |-> <<Nm(i)>>, libdirs |-> <<>>, cxxf |-> <<>>, ccf |-> <<Nm(i)>>, ldf |-> <<>>,
   std |-> IF i \in sc THEN Nm(i) ELSE "", cstd |-> "", target |-> IF i \in sc THEN <<Nm(i)>> ELSE <<>>,
   builddir |-> IF i \in sc THEN <<"b", Nm(i)>> ELSE <<>>, tool |-> IF i \in sc THEN Nm(i) ELSE "",
   opt |-> IF i \in sc THEN Nm(i) ELSE "", dbg |-> IF i \in sc THEN Nm(i) ELSE "",
   type |-> IF i = 0 THEN "application" ELSE IF i \in sc THEN "static_library" ELSE "",
   incl |-> Sel(e, i, "incl"), mdep |-> Sel(e, i, "mdep"), subs |-> Sel(e, i, "sub")]
App == c.apps[1]
Init ==
  /\ \E e \in [Pairs -> {"none", "incl", "mdep", "sub"}] : \E sc \in SUBSET Id :
       c = [mods |-> [i \in 1..N |-> MkMod(e, sc, i)], apps |-> <<MkMod(e, sc, 0)>>]
  /\ E = Own(Default, App) /\ stack = App.incl /\ queue = App.mdep /\ done = {} /\ over = FALSE
Step ==
  /\ ~over
  /\ IF stack # <<>>
     THEN LET m == Mod(c, Head(stack)) IN
          E' = Include(E, m) /\ stack' = m.incl \o Tail(stack) /\ UNCHANGED <<queue, done, over>>
     ELSE IF queue # <<>>
     THEN LET m == Mod(c, Head(queue)) IN
          IF m.name \in done THEN queue' = Tail(queue) /\ UNCHANGED <<E, stack, done, over>>
          ELSE E' = Include(E, m) /\ queue' = Tail(queue) \o m.mdep /\ done' = done \cup {m.name} /\ UNCHANGED <<stack, over>>
     ELSE over' = TRUE /\ UNCHANGED <<E, stack, queue, done>>
  /\ UNCHANGED c
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
RECURSIVE Close(_, _)
Close(S, incl) == LET T == S \cup UNION {Range(IF incl THEN Mod(c, n).incl ELSE Mod(c, n).mdep) : n \in S}
                  IN IF T = S THEN S ELSE Close(T, incl)
Joins(m) == Close(Range(m.incl), TRUE) \cup Close(Range(m.mdep), FALSE)
Steps == over => E = Effective(c, Default, App)
Contributes == over =>
  /\ Range(E.def) = {App.name} \cup Joins(App) /\ Range(E.ccf) = Range(E.def) /\ Range(E.libs) = Range(E.def)
  /\ {s.p[Len(s.p)] : s \in Range(E.src)} = Range(E.def)
  /\ \A n \in Joins(App) : <<"d", "inc", n>> \in Range(E.inc)
OwnFirst == E.def[1] = App.name /\ E.src[1].p = <<App.name>>
Scalars == /\ E.tool = App.tool /\ E.opt = App.opt /\ E.type = App.type
           /\ E.dbg = (IF App.dbg = "" THEN "-g" ELSE App.dbg)
           /\ E.builddir = (IF App.builddir = <<>> THEN <<"build">> ELSE App.builddir)
           /\ E.target = (IF App.target = <<>> THEN <<"target">> ELSE App.target)
Std == over => E.std \in {IF App.std = "" THEN "c++17" ELSE App.std} \cup {Mod(c, n).std : n \in Joins(App)}
               /\ ((\A n \in Joins(App) : Mod(c, n).std = "") => E.std = IF App.std = "" THEN "c++17" ELSE App.std)
\* submodules see everything of their parent, their parent sees nothing of theirs
Inherit == over => \A k \in DOMAIN E.subs :
  LET m == Mod(c, E.subs[k])  F == Effective(c, E, m) IN
  /\ Prefix(E.def, F.def) /\ Prefix(E.inc, F.inc) /\ Prefix(E.libs, F.libs)
  /\ F.builddir = (IF m.builddir = <<>> THEN E.builddir ELSE m.builddir) /\ F.tool = (IF m.tool = "" THEN E.tool ELSE m.tool)
  /\ {s.p[Len(s.p)] : s \in Range(F.src)} = {m.name} \cup Joins(m)
\* exactly the application's and typed submodules' links, every source in one of them
LinkedAll == over =>
  LET L == Links(c, Default, App) IN
  /\ \A x \in Compiles(c, App) : \E l \in L : [o |-> TRUE, p |-> x.src] \in l.ins
  /\ \A l \in L : \A i \in l.ins : i.o => \E x \in Compiles(c, App) : x.src = i.p
Ends == <>over
=============================================================================
