----------------------------- MODULE ModulesMC -----------------------------
(* Small module libraries:     the resolution, step by step, and what every  *)
(* result of it satisfies.                                                   *)
EXTENDS Modules, TLC, Json, IOUtils, SequencesExt
CONSTANTS IMPLS,     \* names of implementations
          FROMFILE   \* libraries are read from a file
VARIABLES c, s, res
vars == <<c, s, res>>
None == [err |-> FALSE, set |-> {<<"none", "none">>}]

Nm == {"p", "q"}
R(n) == {[n |-> n, i |-> ""], [n |-> n, i |-> "x"], [n |-> n, i |-> "y"]}
\* what an implementation may request: at most one request per module
Reqs(S) == {q \in SUBSET (UNION {R(n) : n \in S}) : \A n \in S : Cardinality({z \in q : z.n = n}) <= 1}
Small(S) == {q \in Reqs(S) : Cardinality(q) <= 1}
All ==
  /\ \E root \in Reqs(Nm) :
     \E have \in SUBSET (Nm \X IMPLS) :
     \E rq \in [have -> Small(Nm)] :
     \E df \in [Nm -> {"", "x"}] :
        c = [root |-> SetToSeq(root),
             lib |-> SetToSeq({[name |-> h[1], impl |-> h[2], req |-> SetToSeq(rq[h])] : h \in have}),
             def |-> SetToSeq({[name |-> n, impl |-> df[n]] : n \in {m \in Nm : df[m] # ""}})]
Init ==
  /\ IF FROMFILE THEN \E q \in Range(JsonDeserialize(IOEnv.LIBS)) : c = q ELSE All
  /\ s = Start(c) /\ res = None
Step == /\ res = None
        /\ \/ \E z \in Steps(c, s) : IF z.done THEN res' = z.r /\ s' = s ELSE s' = z.s /\ res' = res
           \/ s.ex = {} /\ s.df = {} /\ res' = Ok(s.ch) /\ s' = s
        /\ c' = c
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Good == res # None /\ ~res.err
Requests(S) == {<<r.n, r.i>> : r \in Range(c.root) \cup UNION {Req(c, x[1], x[2]) : x \in S}}
\* one implementation each
OneEach == Good => \A x, y \in res.set : x[1] = y[1] => x = y
\* explicit requests of everything reached are honoured
Honoured == Good => \A q \in Requests(res.set) : q[2] # "" => q \in res.set
\* nothing is missing, nothing is there without a request
Closed == Good => \A q \in Requests(res.set) : q[1] \in ChosenNames(res.set)
Requested == Good => \A x \in res.set : \E q \in Requests(res.set) : q[1] = x[1]
\* the default is taken only where nothing explicit asks
DefaultElse == Good => \A x \in res.set : (~\E q \in Requests(res.set) : q = x) => HasDef(c, x[1]) /\ Def(c, x[1]) = x[2]
Exist == Good => \A x \in res.set : HasImpl(c, x[1], x[2])
\* an error has a reason: something missing, or two different implementations asked for or set as default
Everything == UNION {Req(c, c.lib[k].name, c.lib[k].impl) : k \in DOMAIN c.lib} \cup Range(c.root)
Reason == (res # None /\ res.err) =>
   \/ \E r \in Everything : r.i # "" /\ ~HasImpl(c, r.n, r.i)
   \/ \E r \in Everything : r.i = "" /\ (~HasDef(c, r.n) \/ ~HasImpl(c, r.n, Def(c, r.n)))
   \/ \E r, q \in Everything : r.n = q.n /\ r.i # "" /\ q.i # r.i /\ (q.i # "" \/ Def(c, r.n) # r.i)
\* the order promised gives one of the results
Promised == s = Start(c) => Ordered(c) \in Outcomes(c)
Agrees == res # None => res \in Outcomes(c)
Ends == <>(res # None)
=============================================================================
