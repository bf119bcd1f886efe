------------------------------ MODULE Options ------------------------------
(* How the options of an application, of the modules it includes or depends *)
(* on, and of its submodules compose, and what the tool chain is asked to do.*)
(* A path is a sequence of names, relative to the project.                   *)
EXTENDS Naturals, FiniteSets, Sequences
If(b, x) == IF b THEN {x} ELSE {}
Range(q) == {q[i] : i \in DOMAIN q}

\* ".." and "." taken out
RECURSIVE NormF(_, _, _)
NormF(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE NormF(q, i + 1,
    IF q[i] = "." THEN acc
    ELSE IF q[i] = ".." /\ acc # <<>> /\ acc[Len(acc)] # ".." THEN SubSeq(acc, 1, Len(acc) - 1)
    ELSE Append(acc, q[i]))
Norm(q) == NormF(q, 1, <<>>)
\* first occurrences only
RECURSIVE FirstF(_, _, _)
FirstF(q, i, acc) == IF i > Len(q) THEN acc
                     ELSE FirstF(q, i + 1, IF q[i] \in Range(acc) THEN acc ELSE Append(acc, q[i]))
First(q) == FirstF(q, 1, <<>>)
Map(Op(_), q) == [i \in DOMAIN q |-> Op(q[i])]
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Count(x, q) == Cardinality({i \in DOMAIN q : q[i] = x})

Mod(c, n) == c.mods[CHOOSE k \in DOMAIN c.mods : c.mods[k].name = n]

\* an absolute path is the driver's project directory and more: abs |-> TRUE
At(dir, p) == Norm(IF p.abs THEN p.p ELSE dir \o p.p)
Local(m) ==
  [src |-> Map(LAMBDA s : [p |-> At(m.dir \o m.srcdir, s), x |-> s.x], m.src),
   obj |-> Map(LAMBDA s : At(m.dir \o m.srcdir, s), m.obj),
   inc |-> Map(LAMBDA s : At(m.dir, s), m.inc),
   scr |-> Map(LAMBDA s : At(m.dir, s), m.scr),
   lh  |-> Map(LAMBDA h : [n |-> h.n, p |-> At(m.dir, h)], m.lh),
   def |-> m.def, libs |-> m.libs, libdirs |-> m.libdirs,
   cxxf |-> m.cxxf, ccf |-> m.ccf, ldf |-> m.ldf, subs |-> m.subs]
Default ==
  [src |-> <<>>, obj |-> <<>>, inc |-> <<>>, scr |-> <<>>, lh |-> <<>>, def |-> <<>>, libs |-> <<>>, libdirs |-> <<>>,
   cxxf |-> <<>>, ccf |-> <<>>, ldf |-> <<>>, subs |-> <<>>,
   std |-> "c++17", cstd |-> "c11", target |-> <<"target">>, builddir |-> <<"build">>, tool |-> "", opt |-> "", dbg |-> "-g", type |-> "objects"]
Lists(E, L) ==
  [E EXCEPT !.inc = @ \o L.inc, !.scr = @ \o L.scr, !.lh = @ \o L.lh, !.def = @ \o L.def, !.libs = @ \o L.libs,
            !.libdirs = @ \o L.libdirs, !.cxxf = @ \o L.cxxf, !.ccf = @ \o L.ccf, !.ldf = @ \o L.ldf]
PickP(own, inherited) == IF own = <<>> THEN inherited ELSE own
\* "": not given; "~": given, and empty
PickS(own, inherited) == IF own = "" THEN inherited ELSE IF own = "~" THEN "" ELSE own

\* a module included: its lists are added, its scalars are not looked at but for the language standards
Include(E, m) == LET L == Local(m) IN
  [Lists(E, L) EXCEPT !.src = @ \o L.src, !.obj = @ \o L.obj, !.subs = @ \o L.subs,
                      !.std = PickS(m.std, @), !.cstd = PickS(m.cstd, @)]
\* an application, or a submodule of what has the options E
Own(E, m) == LET L == Local(m) IN
  [Lists(E, L) EXCEPT !.src = L.src, !.obj = L.obj, !.subs = L.subs,
                      !.std = PickS(m.std, @), !.cstd = PickS(m.cstd, @), !.target = PickP(m.target, @),
                      !.builddir = PickP(m.builddir, @), !.tool = PickS(m.tool, @), !.opt = PickS(m.opt, @),
                      !.dbg = PickS(m.dbg, @), !.type = PickS(m.type, "objects")]

\* included modules, those a module includes right after it
RECURSIVE InclOrder(_, _)
InclOrder(c, names) ==
  IF names = <<>> THEN <<>>
  ELSE <<Head(names)>> \o InclOrder(c, Mod(c, Head(names)).incl) \o InclOrder(c, Tail(names))
\* modules depended on, breadth first, each once
RECURSIVE DepOrder(_, _, _)
DepOrder(c, queue, done) ==
  IF queue = <<>> THEN done
  ELSE IF Head(queue) \in Range(done) THEN DepOrder(c, Tail(queue), done)
  ELSE DepOrder(c, Tail(queue) \o Mod(c, Head(queue)).mdep, Append(done, Head(queue)))
Joined(c, m) == InclOrder(c, m.incl) \o DepOrder(c, m.mdep, <<>>)
RECURSIVE IncludeAll(_, _, _)
IncludeAll(c, E, names) == IF names = <<>> THEN E ELSE IncludeAll(c, Include(E, Mod(c, Head(names))), Tail(names))
LHDir(E) == E.builddir \o <<"__LOCAL_HEADERS__">>
Effective(c, E, m) == LET F == IncludeAll(c, Own(E, m), Joined(c, m)) IN
  IF F.lh = <<>> THEN F ELSE [F EXCEPT !.inc = Append(@, LHDir(F))]

\* the application and its submodules, each with its options and the numbers of its submodules
RECURSIVE Units(_, _, _)
RECURSIVE UnitsOf(_, _, _)
Units(c, E, m) == LET F == Effective(c, E, m) IN <<F>> \o UnitsOf(c, F, F.subs)
UnitsOf(c, F, subs) == IF subs = <<>> THEN <<>> ELSE Units(c, F, Mod(c, Head(subs))) \o UnitsOf(c, F, Tail(subs))

-----------------------------------------------------------------------------
\* what is compiled: one record for each source of each unit
Compile(F, s) ==
  [src |-> s.p, cxx |-> s.x = "cxx", tool |-> F.tool, std |-> IF s.x = "cxx" THEN F.std ELSE F.cstd, dbg |-> F.dbg, opt |-> F.opt,
   flags |-> First(IF s.x = "cxx" THEN F.cxxf ELSE F.ccf), inc |-> First(F.inc), def |-> First(F.def)]
Compiles(c, a) == UNION {{Compile(F, s) : s \in Range(F.src)} : F \in Range(Units(c, Default, a))}

\* what goes into a link: object(s) stands for the object of s
RECURSIVE Inputs(_, _, _)
RECURSIVE InputsOf(_, _, _)
RECURSIVE Links(_, _, _)
Inputs(c, E, m) == LET F == Effective(c, E, m)
                       I == {[o |-> TRUE, p |-> s.p] : s \in Range(F.src)} \cup {[o |-> FALSE, p |-> p] : p \in Range(F.obj)} \cup InputsOf(c, F, F.subs)
                   IN IF F.type = "objects" THEN I ELSE {[o |-> FALSE, p |-> F.target]}
InputsOf(c, F, subs) == UNION {Inputs(c, F, Mod(c, subs[k])) : k \in DOMAIN subs}
Links(c, E, m) ==
  LET F == Effective(c, E, m)
      I == {[o |-> TRUE, p |-> s.p] : s \in Range(F.src)} \cup {[o |-> FALSE, p |-> p] : p \in Range(F.obj)} \cup InputsOf(c, F, F.subs)
      lib == F.type = "static_library"
  IN UNION {Links(c, F, Mod(c, F.subs[k])) : k \in DOMAIN F.subs}
     \cup IF F.type = "objects" THEN {}
          ELSE {[out |-> F.target, kind |-> F.type, tool |-> F.tool, ins |-> I,
                 libs |-> IF lib THEN <<>> ELSE First(F.libs), libdirs |-> IF lib THEN <<>> ELSE First(F.libdirs),
                 scr |-> IF lib THEN <<>> ELSE First(F.scr), flags |-> IF lib THEN <<>> ELSE First(F.ldf)]}

-----------------------------------------------------------------------------
(* One build of application a, as recorded: cs compilations, ds dependency    *)
(* scans, ls links, lh local headers found, ok the build's success.           *)
BuildBad(c, a, e) ==
  LET U == Units(c, Default, a)
      X == Compiles(c, a)
      want == {x.src : x \in X}
      got == {e.cs[i].src : i \in DOMAIN e.cs}
      ObjOf(p) == e.cs[CHOOSE i \in DOMAIN e.cs : e.cs[i].src = p].obj
      Opts(r, D) == UNION {
          If(r.cxx # x.cxx \/ r.tool # x.tool, "C16.toolchain") \cup If(r.std # x.std, "C16.language-standard")
          \cup If(r.dbg # x.dbg, "C16.debug") \cup If(~D /\ r.opt # x.opt, "C16.optimize")
          \cup If(First(r.flags) # x.flags, "C16.flags")
          \cup If(First(r.inc) # x.inc, "C16.include-paths") \cup If(First(r.def) # x.def, "C16.defines")
          : x \in {y \in X : y.src = r.src}}
      LinkBad(l) ==
        LET ms == {i \in DOMAIN e.ls : e.ls[i].out = l.out} IN
        IF ms = {} THEN {"C16.not-linked"}
        ELSE LET r == e.ls[CHOOSE i \in ms : TRUE]
                 ins == {IF i.o THEN ObjOf(i.p) ELSE i.p : i \in {j \in l.ins : j.o => j.p \in got}}
             IN If(Cardinality(ms) > 1, "C16.linked-twice")
                \cup If(r.kind # l.kind, "C16.type") \cup If(r.tool # l.tool, "C16.toolchain")
                \cup If(First(r.libs) # l.libs, "C16.libraries") \cup If(First(r.libdirs) # l.libdirs, "C16.library-paths")
                \cup If(First(r.scr) # l.scr, "C16.linker-scripts") \cup If(First(r.flags) # l.flags, "C16.link-flags")
                \cup If(\E p \in ins : p \notin Range(r.ins), "C18.object-not-linked")
                \cup If(\E p \in ins : Count(p, r.ins) > 1, "C18.object-linked-twice")
                \cup If(\E p \in Range(r.ins) : p \notin ins, "C18.foreign-object-linked")
      L == Links(c, Default, a)
  IN IF ~e.ok THEN {"C16.refused"}
     ELSE If(want \ got # {}, "C18.source-not-compiled")
          \cup If(got \ want # {}, "C16.foreign-source-compiled")
          \cup If(\E i, j \in DOMAIN e.cs : i # j /\ e.cs[i].src = e.cs[j].src, "C18.source-compiled-twice")
          \cup If(\E i, j \in DOMAIN e.cs : e.cs[i].src # e.cs[j].src /\ e.cs[i].obj = e.cs[j].obj, "C18.object-shared")
          \cup If(\E i \in DOMAIN e.cs : \A F \in Range(U) : ~Prefix(F.builddir, e.cs[i].obj), "C18.object-outside-the-build-directory")
          \cup If(\E i \in DOMAIN e.cs : e.cs[i].obj \in want, "C18.object-replaces-source")
          \cup UNION {Opts(e.cs[i], FALSE) : i \in DOMAIN e.cs}
          \cup UNION {Opts(e.ds[i], TRUE) : i \in DOMAIN e.ds}
          \cup UNION {LinkBad(l) : l \in L}
          \cup If(\E i \in DOMAIN e.ls : ~\E l \in L : l.out = e.ls[i].out, "C16.foreign-link")
          \cup If(\E F \in Range(U) : F.src # <<>> /\ \E h \in Range(F.lh) :
                   ~\E k \in DOMAIN e.lh : e.lh[k].at = LHDir(F) \o h.n /\ e.lh[k].of = h.p, "C16.local-headers")
=============================================================================
