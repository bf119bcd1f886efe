----------------------------- MODULE ScriptsMC -----------------------------
(* All small trees of scripts; their execution, and what every execution     *)
(* satisfies.                                                                *)
EXTENDS Scripts, TLC, Json, IOUtils
CONSTANTS MAXST        \* statements in the root script; the others have one
VARIABLES c, m, log, over
vars == <<c, m, log, over>>
Ex(p) == [k |-> "exec", p |-> [p |-> p, abs |-> FALSE], lib |-> "", given |-> FALSE, pat |-> "", hide |-> ""]
In(lib) == [k |-> "incl", p |-> [p |-> <<>>, abs |-> FALSE], lib |-> lib, given |-> FALSE, pat |-> "", hide |-> ""]
InP(lib, p) == [k |-> "incl", p |-> [p |-> p, abs |-> FALSE], lib |-> lib, given |-> TRUE, pat |-> "", hide |-> ""]
Rc(p) == [k |-> "rec", p |-> [p |-> p, abs |-> FALSE], lib |-> "", given |-> FALSE, pat |-> ".x", hide |-> ""]
AtS == [k |-> "at", p |-> [p |-> <<>>, abs |-> FALSE], lib |-> "", given |-> FALSE, pat |-> "", hide |-> ""]
\* files: root, a/s.x, a/b/s.x, lib/l.py
Menu == [i \in 1..4 |->
   CASE i = 1 -> {<<>>, <<Ex(<<"a", "s.x">>)>>, <<In("L")>>, <<InP("L", <<"a", "b", "s.x">>)>>, <<Rc(<<"a">>)>>, <<Ex(<<"s.x">>)>>}
     [] i = 2 -> {<<>>, <<Ex(<<"b", "s.x">>)>>, <<In("L")>>, <<InP("L", <<"..", "lib", "l.py">>)>>, <<Rc(<<"b">>)>>}
     [] i = 3 -> {<<>>, <<In("L")>>, <<Ex(<<"..", "..", "lib", "l.py">>)>>, <<InP("M", <<"..", "..", "lib", "l.py">>)>>}
     [] i = 4 -> {<<>>, <<In("L")>>, <<In("M")>>, <<In("M"), In("L")>>}]
Two(S) == S \cup {x \o y : x \in S, y \in S}
Log(st) == <<AtS>> \o [i \in 1..(2 * Len(st)) |-> IF i % 2 = 1 THEN st[(i + 1) \div 2] ELSE AtS]
Init ==
  /\ \E s1 \in IF MAXST = 2 THEN Two(Menu[1]) ELSE Menu[1], s2 \in Menu[2], s3 \in Menu[3], s4 \in Menu[4],
        u \in {<<>>, <<[lib |-> "L", path |-> <<"lib", "l.py">>]>>, <<[lib |-> "L", path |-> <<"a", "b", "s.x">>]>>},
        g \in {<<>>, <<[lib |-> "L", path |-> <<"lib", "l.py">>], [lib |-> "M", path |-> <<"a", "b", "s.x">>]>>} :
       c = [files |-> <<[dir |-> <<>>, name |-> "root", st |-> Log(s1)], [dir |-> <<"a">>, name |-> "s.x", st |-> Log(s2)],
                        [dir |-> <<"a", "b">>, name |-> "s.x", st |-> Log(s3)], [dir |-> <<"lib">>, name |-> "l.py", st |-> Log(s4)]>>,
            user |-> u, system |-> g, match |-> <<<<".x", "s.x">>>>]
  /\ m = Start /\ log = <<[e |-> "Start", f |-> 1, lib |-> "", depth |-> 1]>> /\ over = FALSE
LibOf(q, g) == LET t == Top(q.m)  s == c.files[t.f].st[t.pc - 1] IN IF s.k = "incl" THEN s.lib ELSE ""
Next ==
  /\ ~over
  /\ LET q == Quiet(c, m) IN
     CASE q.vis \in {"end", "refuse"} -> over' = TRUE /\ m' = q.m /\ log' = Append(log, [e |-> q.vis, f |-> 0, lib |-> "", depth |-> 0])
       [] q.vis = "at" -> m' = Passed(q) /\ log' = Append(log, [e |-> "At", f |-> Top(q.m).f, lib |-> "", depth |-> Len(m'.stack)]) /\ over' = FALSE
       [] q.vis = "start" -> \E g \in q.set : m' = Started(q, g) /\ over' = FALSE
                                /\ log' = Append(log, [e |-> "Start", f |-> g, lib |-> LibOf(q, g), depth |-> Len(m'.stack)])
  /\ UNCHANGED c
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
\* a library's script runs once
LibOnce == \A i, j \in DOMAIN log : (i < j /\ log[i].lib # "") => log[i].lib # log[j].lib
\* nested like calls: a script's statements come with the script on top, callers wait
Nested == \A i \in DOMAIN log : log[i].e = "At" =>
            LET S == {k \in 1..i : log[k].e = "Start" /\ log[k].depth = log[i].depth} IN
            S # {} /\ log[CHOOSE k \in S : \A z \in S : z <= k].f = log[i].f
\* a complete run runs every statement of every script started
Whole == (over /\ log[Len(log)].e = "end") =>
            \A f \in DOMAIN c.files : Cardinality({k \in DOMAIN log : log[k].e = "At" /\ log[k].f = f})
              = Cardinality({k \in DOMAIN log : log[k].e = "Start" /\ log[k].f = f}) * Cardinality({k \in DOMAIN c.files[f].st : c.files[f].st[k].k = "at"})
\* the user's registry comes first, the system's is used only for what it lacks
Precedence == \A k \in DOMAIN log : (log[k].lib # "" /\ Has(c.user, log[k].lib)) =>
                 log[k].f = At(c, Entry(c.user, log[k].lib)) \/ \E f \in DOMAIN c.files : \E i \in DOMAIN c.files[f].st : c.files[f].st[i].given /\ c.files[f].st[i].lib = log[k].lib
Unknown == (over /\ log[Len(log)].e = "refuse") => \E f \in DOMAIN c.files : \E i \in DOMAIN c.files[f].st :
              LET s == c.files[f].st[i] IN (s.k = "incl" /\ Lookup(c, f, s) = 0) \/ (s.k = "exec" /\ At(c, Rel(c, f, s.p)) = 0)
Ends == <>over
=============================================================================
