----------------------------- MODULE RegistryMC -----------------------------
(* The update of a registry, step by step, by licant's algorithm: read,      *)
(* compute, write a new file in pieces, put it in place; it can be killed or  *)
(* fail at any step.  ATOMIC = FALSE: writes the registry itself.            *)
EXTENDS Registry, TLC, Json, IOUtils
CONSTANTS ATOMIC, MAXOPS
VARIABLES disk, tmp, proc, want, n, fs
vars == <<disk, tmp, proc, want, n, fs>>
Us == {"user", "system"}
P(q) == [abs |-> FALSE, p |-> q]
Ops == {[k |-> "add", name |-> x, p |-> P(q), cwd |-> <<"w">>] : x \in {"x", "y"}, q \in {<<"a.g.py">>, <<"..", "w", "b.g.py">>}}
       \cup {[k |-> "remove", name |-> x, p |-> P(<<>>), cwd |-> <<>>] : x \in {"x", "y"}}
       \cup {[k |-> k, name |-> "", p |-> P(q), cwd |-> <<>>] : k \in {"dir"}, q \in {<<"w">>}}
       \cup {[k |-> k, name |-> "", p |-> P(<<>>), cwd |-> <<>>] : k \in {"list", "bad"}}
Lib == {<<"a.g.py", "x">>, <<"b.g.py", "y">>}
Files == {<<"w", "a.g.py">>, <<"w", "b.g.py">>}
\* a file: the part written, of a registry
Old(R) == [m |-> R, whole |-> TRUE]
Idle == [pc |-> "idle"]
Init == /\ disk = [u \in Us |-> Old({})] /\ tmp = [u \in Us |-> Old({})] /\ proc = Idle
        /\ want = [u \in Us |-> {{}}] /\ n = 0 /\ fs \in SUBSET Files
Begin == /\ proc.pc = "idle" /\ n < MAXOPS
         /\ \E u \in Us, o \in Ops : \E R \in Results(o, disk[u].m, fs, Lib) :
              /\ want' = [want EXCEPT ![u] = {disk[u].m} \cup Results(o, disk[u].m, fs, Lib)]
              /\ proc' = IF o.k \in {"list", "bad"} \/ (o.k = "add" /\ ~Accepted(o, disk[u].m, fs)) THEN Idle
                         ELSE [pc |-> "open", u |-> u, new |-> R]
              /\ n' = n + 1
         /\ UNCHANGED <<disk, tmp, fs>>
\* the file written to
Set(f) == IF ATOMIC THEN tmp' = [tmp EXCEPT ![proc.u] = f] /\ UNCHANGED disk
          ELSE disk' = [disk EXCEPT ![proc.u] = f] /\ UNCHANGED tmp
Open == proc.pc = "open" /\ Set([m |-> {}, whole |-> FALSE]) /\ proc' = [proc EXCEPT !.pc = "write"] /\ UNCHANGED <<want, n, fs>>
Write == proc.pc = "write" /\ Set(Old(proc.new)) /\ proc' = [proc EXCEPT !.pc = "replace"] /\ UNCHANGED <<want, n, fs>>
Replace == /\ proc.pc = "replace" /\ (IF ATOMIC THEN disk' = [disk EXCEPT ![proc.u] = tmp[proc.u]] ELSE UNCHANGED disk)
           /\ want' = [want EXCEPT ![proc.u] = {proc.new}]
           /\ proc' = Idle /\ UNCHANGED <<tmp, n, fs>>
Dies == proc.pc # "idle" /\ proc' = Idle /\ UNCHANGED <<disk, tmp, want, n, fs>>
Files2 == proc.pc = "idle" /\ n < MAXOPS /\ \E f \in Files : fs' = (IF f \in fs THEN fs \ {f} ELSE fs \cup {f}) /\ n' = n + 1 /\ UNCHANGED <<disk, tmp, proc, want>>
Next == Begin \/ Open \/ Write \/ Replace \/ Dies \/ Files2
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Whole == \A u \in Us : disk[u].whole
OldOrNew == \A u \in Us : disk[u].m \in want[u]
Map == \A u \in Us : \A x, y \in disk[u].m : x[1] = y[1] => x = y
Other == \A u \in Us : (proc.pc # "idle" /\ proc.u # u) => disk[u].whole
Precise == \A x \in Merged(disk["user"].m, disk["system"].m) : x \in disk["user"].m \cup disk["system"].m
\* a step changes one registry at most
OneAtATime == [][\A u, v \in Us : disk'[u] # disk[u] /\ disk'[v] # disk[v] => u = v]_vars
=============================================================================
