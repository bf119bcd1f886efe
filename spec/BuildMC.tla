------------------------------ MODULE BuildMC ------------------------------
(* Exploration of Build over the projects of a file, and generation of       *)
(* histories (the operations; what the builds do is left to the code).       *)
EXTENDS Build, Json, IOUtils
CONSTANTS GEN, MAXOPS, FAILS, KILLS, INSESSION, BACKDATE,
          OPS       \* the operations to be tried (requests and sessions always are)
Projects == JsonDeserialize(IOEnv.PROJECTS)
VARIABLES p, s, clock, ops, hist, fset, last
vars == <<p, s, clock, ops, hist, fset, last>>

NoTree == [file |-> s.file, time |-> s.time, dirs |-> [d \in 1..p.nd |-> d \in s.dirs], alien |-> ""]

Init == /\ \E i \in DOMAIN Projects : p = Projects[i]
        /\ s = NewB(p)
        /\ clock = p.time0 /\ ops = 0 /\ hist = <<>> /\ fset = {} /\ last = "none"

Always == {"Session", "EndSession", "Build"}
Op(x) == /\ x.o \in Always \cup OPS /\ ops < MAXOPS /\ ops' = ops + 1
         /\ hist' = IF GEN THEN Append(hist, x) ELSE hist
Idle == ~s.on
Between == Idle /\ (INSESSION \/ ~s.sess)
Roots == {t \in s.decl : p.kind[t] # "src" /\ ClosureB(s, t) \subseteq s.decl}

Session == /\ Idle /\ ~s.sess
           /\ Op([o |-> "Session"]) /\ s' = SessionEff(p, s) /\ last' = "session"
           /\ UNCHANGED <<p, clock, fset>>
EndSession == /\ Idle /\ s.sess /\ s.reqs > 0
              /\ Op([o |-> "EndSession"]) /\ s' = [s EXCEPT !.sess = FALSE] /\ last' = "none"
              /\ UNCHANGED <<p, clock, fset>>
Declare == /\ Idle /\ s.sess /\ "Declare" \in OPS
           \* (a session never holds a dangling dependency: C05 is about those)
           /\ \E t \in Nodes(p) : /\ Range(p.deps[t]) \subseteq s.decl
                                  /\ (t \notin s.decl \/ (p.deps0[t] # p.deps[t] /\ s.deps[t] # p.deps[t]))
                                  /\ s' = DeclareEff(p, s, t)
                                  /\ Op([o |-> "Declare", t |-> t])
           /\ last' = "declare" /\ UNCHANGED <<p, clock, fset>>
Edit == /\ Between
        /\ \E t \in Nodes(p) :
             /\ p.kind[t] = "src" /\ (s.file[t] = "" => ~s.sess)
             /\ \E dt \in (IF BACKDATE THEN {0, 1} ELSE {1}) :
                  /\ s' = EditEff(p, s, t, clock + dt) /\ clock' = clock + dt
                  /\ Op([o |-> "Edit", t |-> t, dt |-> dt])
        /\ last' = "edit" /\ UNCHANGED <<p, fset>>
Touch == /\ Between
         /\ \E t \in Nodes(p) :
              /\ IsFile(p, t) /\ s.file[t] # ""
              /\ \E dt \in (IF BACKDATE THEN {0, 1} ELSE {1}) :
                  /\ s' = TouchEff(p, s, t, clock + dt) /\ clock' = clock + dt
                  /\ Op([o |-> "Touch", t |-> t, dt |-> dt])
         /\ last' = "edit" /\ UNCHANGED <<p, fset>>
Delete == /\ Between
          /\ \E t \in Nodes(p) :
              /\ p.kind[t] = "gen" /\ s.file[t] # ""
              /\ s' = DeleteEff(p, s, t) /\ Op([o |-> "Delete", t |-> t])
          /\ last' = "edit" /\ UNCHANGED <<p, clock, fset>>
RmDir == /\ Between
         /\ \E d \in s.dirs :
              /\ s.sess => Under(p, d) \subseteq s.managed
              /\ s' = RmDirEff(p, s, d) /\ Op([o |-> "RmDir", d |-> d])
         /\ last' = "edit" /\ UNCHANGED <<p, clock, fset>>
Toggle == /\ Idle
          /\ \E t \in Nodes(p) : p.kind[t] = "upd" /\ s' = ToggleEff(p, s, t) /\ Op([o |-> "Toggle", t |-> t])
          /\ last' = "edit" /\ UNCHANGED <<p, clock, fset>>
Clean == /\ Idle /\ s.sess
         /\ \E r \in Roots : /\ p.kind[r] \in {"gen", "set"}
                             /\ s' = CleanEff(p, s, r) /\ Op([o |-> "Clean", t |-> r])
         /\ last' = "clean" /\ UNCHANGED <<p, clock, fset>>

Begin == /\ Idle /\ s.sess
         /\ \E r \in Roots :
            \E F \in {{}} \cup (IF FAILS THEN {{t} : t \in {u \in ClosureB(s, r) : Acts(p, u)}} ELSE {}) :
              /\ s' = BeginEff(p, s, r) /\ fset' = F
              /\ Op([o |-> "Build", t |-> r, fails |-> F])
         /\ last' = "begin" /\ UNCHANGED <<p, clock>>
Act == /\ s.on
       /\ \E t \in s.needed :
            /\ Acts(p, t) /\ t \notin s.done /\ Pending(p, s, t) = {} /\ s.failed = {}
            /\ LET out == IF t \in fset \/ ~CanSucceed(p, s, t) THEN "fail" ELSE "ok" IN
               \E dt \in {0, 1} :
                 /\ ActBad(p, s, t, TRUE) = {}
                 /\ s' = ActEff(p, s, t, out, clock + dt) /\ clock' = clock + dt
       /\ UNCHANGED <<p, ops, hist, fset>> /\ last' = "act"
End == /\ s.on
       /\ s.failed # {} \/ {t \in s.needed : Acts(p, t)} \subseteq s.done
       /\ LET t == [NoTree EXCEPT !.dirs = [d \in 1..p.nd |-> d \in s.dirs \cup (IF s.failed = {} THEN MustDirs(p, s) ELSE {})]] IN
          /\ EndBad(p, s, IF s.failed = {} THEN "true" ELSE "false", t) = {}
          /\ s' = EndEff(p, s, t)
       /\ last' = IF s.failed = {} THEN "success" ELSE "failure"
       /\ UNCHANGED <<p, clock, ops, hist, fset>>
Kill == /\ KILLS /\ s.on /\ s.failed = {}
        /\ s' = KilledEff(p, s, NoTree) /\ last' = "killed"
        /\ hist' = IF GEN THEN Append(hist, [o |-> "Kill", after |-> Cardinality(s.done)]) ELSE hist
        /\ UNCHANGED <<p, clock, ops, fset>>
Finish == /\ GEN /\ Idle /\ ops = MAXOPS /\ last # "finished"
          /\ PrintT(<<"@@", ToJson([p |-> p.id, h |-> hist])>>)
          /\ last' = "finished" /\ UNCHANGED <<p, s, clock, ops, hist, fset>>

\* an operation on the outside must not disturb: these are the only ones that change sources
Next == Session \/ EndSession \/ Declare \/ Edit \/ Touch \/ Delete \/ RmDir \/ Toggle \/ Clean
        \/ Begin \/ Act \/ End \/ Kill \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties. *)
\* C06
AsFromScratch == (last = "success" /\ s.trust) =>
   LET scr == Scratch(p, s) IN \A t \in s.closure : p.kind[t] = "gen" => s.file[t] = scr[t]
\* C07: a repeated build does nothing, but for what always acts
Restless(t) == \E u \in {t} \cup Below(s, t) : (p.kind[u] = "gen" /\ p.force[u]) \/ (p.kind[u] = "upd" /\ s.cond[u])
RepeatDoesNothing == (last = "success") =>
   \A t \in NeededB(p, s, s.root) : Acts(p, t) => Restless(t)
\* C06/C07: nothing that is out of date in itself is left after a success
NothingStale == (last = "success") =>
   \A t \in s.closure : StaleB(p, s, t) => Restless(t)
\* C06, inductively: what no build would touch is as it should be -- also after failures,
\* crashes, cleans and partial builds, between any two operations
NotNeededMeansCurrent == (~s.on /\ s.sess /\ s.trust) =>
   LET scr == Scratch(p, s) IN
   \A t \in s.decl : (p.kind[t] = "gen" /\ ClosureB(s, t) \subseteq s.decl /\ t \notin NeededB(p, s, t))
                       => s.file[t] = scr[t]
\* C08
SourcesOnlyByEdits == [][\A t \in Nodes(p) : p.kind[t] = "src" /\ (s'.file[t] # s.file[t] \/ s'.time[t] # s.time[t])
                          => last' = "edit"]_vars
CleanComplete == (last = "clean") => \A t \in s.closure : p.kind[t] = "gen" => s.file[t] = ""
\* C09: directories never disappear but from outside; every generated file has its directory
DirsGrow == [][last' # "edit" => s.dirs \subseteq s'.dirs]_vars
FilesHaveDirs == \A t \in Nodes(p) : p.kind[t] = "gen" /\ s.file[t] # "" => Up(p, p.dir[t]) \subseteq s.dirs
\* C23
OnlyClosure == [][s.on => \A t \in Nodes(p) \ s.closure : s'.file[t] = s.file[t] /\ s'.time[t] = s.time[t]]_vars
=============================================================================
