---------------------------- MODULE InstallTrace ----------------------------
EXTENDS Install, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad
tvars == <<tr, l, bad>>
Ev == Traces[tr].ev
C == Traces[tr].c
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ bad = {}
\* e: a request: [k: install|uninstall, s: set, pre, post: files, touched: paths written, ok]
Judge(e) ==
  LET S == Range(e.pre)  P == Range(e.post)  T == Range(e.touched)  s == C.sets[e.s] IN
  IF ~e.ok THEN {"C21.refused"}
  ELSE IF e.k = "install" THEN
    LET I == Items(C, s, S)
        dst == {i.dst : i \in I}
        need == Needed(C, s, S) IN
    If(\E i \in I : i.dst \notin Paths(P), "C21.not-installed")
    \cup If(\E i \in I : i.dst \in Paths(P) /\ Must(C, S, i) /\ File(P, i.dst).c # Content(C, S, i.src), "C21.wrong-content")
    \cup If(\E i \in I : i.dst \in Paths(P) /\ i.dst \in T /\ File(P, i.dst).c # Content(C, S, i.src), "C21.wrong-content")
    \cup If(\E i \in I : i.dst \in Paths(P) /\ i.dst \in T /\ ~May(C, S, i), "C21.copied-unchanged")
    \cup If(\E p \in T \cup Paths(P) : p \notin Paths(S) /\ p \notin dst \cup need, "C21.extra-file")
    \cup If(\E x \in S : x.p \notin dst \cup need /\ (x.p \in T \/ x.p \notin Paths(P) \/ File(P, x.p).c # x.c), "C21.touched-other")
  ELSE
    LET D == Dsts(C, s, S) IN
    If(\E p \in D : p \in Paths(P), "C21.not-removed")
    \cup If(\E x \in S : x.p \notin D /\ (x.p \in T \/ x.p \notin Paths(P) \/ File(P, x.p).c # x.c), "C21.uninstall-touched-other")
    \cup If(\E p \in Paths(P) : p \notin Paths(S), "C21.uninstall-made")
TNext ==
  \/ /\ l <= Len(Ev) /\ bad' = bad \cup {<<l, x>> : x \in IF Ev[l].e = "Hang" THEN {"C21.hang"} ELSE Judge(Ev[l])}
     /\ l' = l + 1 /\ UNCHANGED tr
  \/ /\ l = Len(Ev) + 1 /\ PrintT(<<"@@", ToJson([tr |-> tr, bad |-> bad])>>)
     /\ l' = l + 1 /\ UNCHANGED <<tr, bad>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
