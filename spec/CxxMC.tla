------------------------------- MODULE CxxMC -------------------------------
(* licant's way to decide, with file times and dependency files, over all    *)
(* small histories, against Cxx.                                             *)
EXTENDS Cxx, TLC, Json, IOUtils
CONSTANTS NS, NF, MAXOPS, OPS,
          RESCAN      \* dependencies are looked for again until the object has been compiled
VARIABLES fs, a, t, dep, ot, bt, oc, bc, now, n, ses
vars == <<fs, a, t, dep, ot, bt, oc, bc, now, n, ses>>
F == 1..NF
S == 1..NS
NoDep == [x |-> FALSE, l |-> {}, t |-> 0]
\* ses: the session: off, or what was read at its start and where each source stands
Off == [on |-> FALSE, D |-> [s \in S |-> {}], force |-> [s \in S |-> FALSE], ph |-> [s \in S |-> "d"], fail |-> FALSE,
        tried |-> {}, done |-> {}, ltried |-> FALSE, linked |-> FALSE, over |-> FALSE]
Includes == {X \in [S -> SUBSET (F \ S)] : TRUE}
Init ==
  /\ fs \in [F -> {[x |-> TRUE, v |-> 1, inc |-> I, bad |-> ""] : I \in SUBSET (F \ S)}]
  /\ \A f \in F \ S : fs[f].inc \subseteq {g \in F : g > f}
  /\ a = Init0(NS) /\ t = [f \in F |-> 1] /\ dep = [s \in S |-> NoDep]
  /\ ot = [s \in S |-> 0] /\ bt = 0 /\ oc = [s \in S |-> None] /\ bc = None
  /\ now = 2 /\ n = 0 /\ ses = Off
Op(k) == ~ses.on /\ n < MAXOPS /\ k \in OPS /\ n' = n + 1
Same == UNCHANGED <<dep, ot, bt, oc, bc, ses>>
Edit(f) ==
  /\ Op("edit")
  /\ \E I \in SUBSET (F \ S), b \in {"", "error", "syntax", "link"} :
       /\ (f \in S \/ I \subseteq {g \in F : g > f}) /\ (b # "" => "bad" \in OPS)
       /\ fs' = [fs EXCEPT ![f] = [x |-> TRUE, v |-> @.v + 1, inc |-> I, bad |-> b]]
  /\ t' = [t EXCEPT ![f] = now] /\ now' = now + 1 /\ a' = Changed(a, f) /\ Same
Delete(f) ==
  /\ Op("delete") /\ f \notin S /\ fs[f].x
  /\ fs' = [fs EXCEPT ![f] = [NoFile EXCEPT !.v = fs[f].v]]
  /\ UNCHANGED <<t, now>> /\ a' = Changed(a, f) /\ Same
RmDep(s) == Op("rmdep") /\ dep[s].x /\ dep' = [dep EXCEPT ![s] = NoDep] /\ a' = LostDep(a, s) /\ UNCHANGED <<fs, t, ot, bt, oc, bc, now, ses>>
RmObj(s) == Op("rmobj") /\ ot[s] # 0 /\ ot' = [ot EXCEPT ![s] = 0] /\ oc' = [oc EXCEPT ![s] = None] /\ a' = LostObj(a, s) /\ UNCHANGED <<fs, t, dep, bt, bc, now, ses>>
RmBin == Op("rmbin") /\ bt # 0 /\ bt' = 0 /\ bc' = None /\ a' = LostBin(a) /\ UNCHANGED <<fs, t, dep, ot, oc, now, ses>>

Start ==
  /\ Op("build")
  /\ ses' = [Off EXCEPT !.on = TRUE, !.D = [s \in S |-> dep[s].l], !.force = [s \in S |-> ~dep[s].x \/ dep[s].l = {} \/ (RESCAN /\ (ot[s] = 0 \/ ot[s] < dep[s].t))]]
  /\ UNCHANGED <<fs, a, t, dep, ot, bt, oc, bc, now>>
Newer(s, than) == \E f \in {s} \cup ses.D[s] : ~fs[f].x \/ t[f] > than
Go == ses.on /\ ~ses.over /\ n' = n
\* a failure stops the build at once, or what runs beside it still ends
\* a compiler may overlook what is missing when it only looks for dependencies
Scan(s) ==
  /\ Go /\ ses.ph[s] = "d"
  /\ IF ses.force[s] \/ ~dep[s].x \/ Newer(s, dep[s].t)
     THEN \E fails \in {TRUE, FALSE} :
          LET R == Reach(fs, s) IN
          /\ (fails => ScanFails(fs, s)) /\ ((\E f \in R : fs[f].x /\ fs[f].bad = "error") => fails)
          /\ dep' = [dep EXCEPT ![s] = [x |-> TRUE, l |-> IF fails THEN {} ELSE {f \in R : fs[f].x}, t |-> now]]
          /\ now' = now + 1
          /\ ses' = [ses EXCEPT !.ph[s] = IF fails THEN "x" ELSE "o", !.fail = @ \/ fails]
     ELSE ses' = [ses EXCEPT !.ph[s] = "o"] /\ UNCHANGED <<dep, now>>
  /\ UNCHANGED <<fs, a, t, ot, bt, oc, bc>>
Compile(s) ==
  /\ Go /\ ses.ph[s] = "o"
  /\ IF ot[s] = 0 \/ Newer(s, ot[s]) \/ dep[s].t > ot[s]
     THEN IF CompileFails(fs, s)
          THEN /\ ses' = [ses EXCEPT !.ph[s] = "x", !.fail = TRUE, !.tried = @ \cup {s}]
               /\ \/ ot' = [ot EXCEPT ![s] = 0] /\ oc' = [oc EXCEPT ![s] = None]
                  \/ UNCHANGED <<ot, oc>>
               /\ UNCHANGED now
          ELSE /\ ses' = [ses EXCEPT !.ph[s] = "ok", !.tried = @ \cup {s}, !.done = @ \cup {s}]
               /\ ot' = [ot EXCEPT ![s] = now] /\ oc' = [oc EXCEPT ![s] = Content(fs, s)] /\ now' = now + 1
     ELSE ses' = [ses EXCEPT !.ph[s] = "ok"] /\ UNCHANGED <<ot, oc, now>>
  /\ UNCHANGED <<fs, a, t, dep, bt, bc>>
Link ==
  /\ Go /\ \A s \in S : ses.ph[s] = "ok"
  /\ IF bt = 0 \/ \E s \in S : ot[s] > bt
     THEN IF LinkFails(fs, a) THEN ses' = [ses EXCEPT !.fail = TRUE, !.ltried = TRUE, !.over = TRUE] /\ UNCHANGED <<bt, bc, now>>
          ELSE /\ ses' = [ses EXCEPT !.ltried = TRUE, !.linked = TRUE, !.over = TRUE]
               /\ bt' = now /\ bc' = UNION {oc[s] : s \in S} /\ now' = now + 1
     ELSE ses' = [ses EXCEPT !.over = TRUE] /\ UNCHANGED <<bt, bc, now>>
  /\ UNCHANGED <<fs, a, t, dep, ot, oc>>
Stop == Go /\ ses.fail /\ ses' = [ses EXCEPT !.over = TRUE] /\ UNCHANGED <<fs, a, t, dep, ot, bt, oc, bc, now>>
Ses == [tried |-> ses.tried, done |-> ses.done, ltried |-> ses.ltried, linked |-> ses.linked, ok |-> ~ses.fail, obj |-> oc, bin |-> bc]
End ==
  /\ ses.on /\ ses.over
  /\ a' = After(fs, a, ses.done, ses.linked, {s \in S : oc[s] = None})
  /\ ses' = Off /\ UNCHANGED <<fs, t, dep, ot, bt, oc, bc, now, n>>
Next ==
  \/ \E f \in F : Edit(f) \/ Delete(f)
  \/ \E s \in S : RmDep(s) \/ RmObj(s) \/ Scan(s) \/ Compile(s)
  \/ RmBin \/ Start \/ Link \/ Stop \/ End
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Right == (ses.on /\ ses.over) => SessionBad(fs, a, Ses) = {}
\* the abstract state is the real one
Follows == ~ses.on => /\ a.obj = oc /\ a.bin = bc
                      /\ \A s \in S : ~a.dirty[s] => oc[s] = Content(fs, s)
                      /\ (~a.relink /\ Dirty(a) = {}) => bc = UNION {Content(fs, s) : s \in S}
\* a session right after a good one does nothing
Idle == (~ses.on /\ Dirty(a) = {} /\ ~a.relink) =>
          \A s \in S : dep[s].x /\ dep[s].l # {} /\ ~(\E f \in dep[s].l : ~fs[f].x \/ t[f] > dep[s].t \/ t[f] > ot[s]) /\ dep[s].t <= ot[s] /\ ot[s] <= bt
=============================================================================
