----------------------------- MODULE UnidistMC ------------------------------
(***************************************************************************)
(* All interleavings of small client programs under the rules of           *)
(* UnidistAPI: the controller issues its calls in order, any number of     *)
(* workers start and end calls whenever the rules allow it.  TLC checks    *)
(* that the rules are consistent and strong enough: the values are those   *)
(* of a sequential evaluation whatever the interleaving, nothing runs      *)
(* twice, every get, wait and shutdown returns, and no state is stuck.     *)
(* Programs: IOEnv.PROGS, each [prog |-> tables, ops |-> events the        *)
(* controller issues].                                                     *)
(***************************************************************************)
EXTENDS UnidistAPI, Json, IOUtils

Progs == JsonDeserialize(IOEnv.PROGS)
VARIABLES k, pc, st, obs
vars == <<k, pc, st, obs>>
Pr == Progs[k].prog
Ops == Progs[k].ops

(***************************************************************************)
(* Sequential meaning of a program: tasks in the order of submission.      *)
(***************************************************************************)
RECURSIVE SeqRun(_, _, _)
(* s = [v: task -> outputs, f: set of failed or dead tasks, a: actor states] *)
SeqVal(s, r) == LET d == Pr.refs[r] IN IF d.t = 0 THEN d.v ELSE s.v[d.t][d.i + 1]
RECURSIVE SeqArg(_, _)
SeqArg(s, a) == CASE a.k = "c" -> a.x [] a.k = "h" -> 0 [] a.k = "r" -> SeqVal(s, a.x)
                  [] OTHER -> Fold(a.k, [j \in 1..Len(a.x) |-> SeqArg(s, a.x[j])])
SeqRun(s, order, j) ==
  IF j > Len(order) THEN s
  ELSE LET t == order[j]
           q == Pr.tasks[t]
           bad == \E r \in TaskRefs(Pr, t) : Pr.refs[r].t # 0 /\ Pr.refs[r].t \in s.f
           av == [i \in 1..Len(q.a) |-> SeqArg(s, q.a[i])]
           x == IF q.A > 0 THEN s.a[q.A] ELSE 0
       IN SeqRun(IF bad \/ q.b # "ok" THEN [s EXCEPT !.f = @ \cup {t}]
                 ELSE [s EXCEPT !.v[t] = Outputs(q, av \o (IF q.A > 0 THEN <<x>> ELSE <<>>)),
                                !.a = IF q.A = 0 THEN @ ELSE [@ EXCEPT ![q.A] = ActorState(x, t, av)]],
                 order, j + 1)
SeqInit == [v |-> [t \in DOMAIN Pr.tasks |-> <<>>], f |-> {}, a |-> [A \in DOMAIN Pr.actors |-> Pr.actors[A].v % Prime]]
SubOrder == LET s == SelectSeq(Ops, LAMBDA o : o.e = "sub") IN [j \in 1..Len(s) |-> s[j].t]
Expected == SeqRun(SeqInit, SubOrder, 1)

(***************************************************************************)
(* The system.                                                             *)
(***************************************************************************)
Ok(e) == Violated(Pr, st, e) = {}
Do(e) == Ok(e) /\ st' = Apply(Pr, st, e)

(* The controller. *)
Idle == st.open[0] = "none"
Issue == /\ pc <= Len(Ops) /\ Idle
         /\ Do(Ops[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<k, obs>>
Return ==
  /\ ~Idle
  /\ LET o == Ops[pc - 1] IN
     \/ o.e = "put" /\ Do([e |-> "putr", c |-> 0]) /\ obs' = obs
     \/ o.e = "sub" /\ Do([e |-> "subr", t |-> o.t, n |-> Pr.tasks[o.t].n]) /\ obs' = obs
     \/ o.e = "actor" /\ Do([e |-> "actorr", A |-> o.A]) /\ obs' = obs
     \/ /\ o.e = "geti"
        /\ LET g == Pr.gets[o.g] IN
           \/ /\ \A j \in 1..Len(g.rs) : RefState(Pr, st, g.rs[j]) = "ok"
              /\ LET v == [j \in 1..Len(g.rs) |-> RefVal(Pr, st, g.rs[j])]
                 IN Do([e |-> "getr", g |-> o.g, v |-> v]) /\ obs' = obs \cup {<<"get", o.g, v>>}
           \/ \E x \in UNION {RefOrigins(Pr, st, g.rs[j]) : j \in {i \in 1..Len(g.rs) : Failed(Pr, st, g.rs[i])}} :
                Do([e |-> "getx", g |-> o.g, x |-> x]) /\ obs' = obs \cup {<<"exc", o.g, <<>>>>}
     \/ /\ o.e = "waiti"
        /\ LET w == Pr.waits[o.w] IN
           \E S \in SUBSET Range(w.rs) :
             /\ Cardinality(S) = w.n
             /\ Do([e |-> "waitr", w |-> o.w, rdy |-> SelectSeq(w.rs, LAMBDA r : r \in S), nr |-> SelectSeq(w.rs, LAMBDA r : r \notin S), ok |-> TRUE])
        /\ obs' = obs
     \/ o.e = "shut" /\ Do([e |-> "shutr"]) /\ obs' = obs
  /\ UNCHANGED <<k, pc>>

(* The workers: processes 1..W. *)
Ctor == \E A \in DOMAIN Pr.actors :
          /\ \E j \in 1..(pc - 1) : Ops[j].e = "actor" /\ Ops[j].A = A
          /\ st.shut = 0 /\ Do([e |-> "ctor", A |-> A, i |-> A, v |-> <<Pr.actors[A].v>>, p |-> A])
          /\ UNCHANGED <<k, pc, obs>>
Start == \E t \in st.sub :
          /\ st.nstart[t] = 0 /\ st.shut < 2
          /\ LET q == Pr.tasks[t]
                 e == [e |-> "start", t |-> t, v |-> IF \A r \in TaskRefs(Pr, t) : RefState(Pr, st, r) = "ok" THEN ArgVals(Pr, st, t) ELSE <<>>,
                       p |-> IF q.A > 0 THEN q.A ELSE Pr.W, i |-> IF q.A > 0 THEN st.actor[q.A].inst ELSE 0, s |-> IF q.A > 0 THEN st.actor[q.A].s ELSE 0]
             IN Do(e)
          /\ UNCHANGED <<k, pc, obs>>
End == \E t \in st.sub :
          /\ st.nstart[t] = 1 /\ st.fin[t] = "no"
          /\ LET q == Pr.tasks[t] IN
             Do([e |-> IF q.b = "ok" THEN "end" ELSE "fail", t |-> t, s |-> IF q.A > 0 THEN ActorState(st.actor[q.A].s, t, st.av[t]) ELSE 0])
          /\ UNCHANGED <<k, pc, obs>>
Init == k \in 1..Len(Progs) /\ pc = 1 /\ st = InitState(Progs[k].prog) /\ obs = {}
Next == Issue \/ Return \/ Ctor \/ Start \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Issue \/ Return) /\ WF_vars(Ctor) /\ WF_vars(Start) /\ WF_vars(End)

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
(* C01, C05: whatever the interleaving, results are those of the sequential evaluation. *)
Determined == LET x == Expected IN \A t \in DOMAIN Pr.tasks :
  /\ st.fin[t] = "ok" => t \notin x.f /\ st.tv[t] = x.v[t]
  /\ TaskState(Pr, st, t) \in {"fail", "dead"} => t \in x.f
Answers == LET x == Expected IN \A o \in obs :
  LET g == Pr.gets[o[2]] fl == {j \in 1..Len(g.rs) : Pr.refs[g.rs[j]].t # 0 /\ Pr.refs[g.rs[j]].t \in x.f} IN
  IF o[1] = "get" THEN fl = {} /\ o[3] = [j \in 1..Len(g.rs) |-> SeqVal(x, g.rs[j])] ELSE fl # {}
(* C02 *)
Once == \A t \in DOMAIN Pr.tasks : st.nstart[t] <= 1 /\ (st.nstart[t] = 1 => t \in st.sub)
InputsFirst == \A t \in DOMAIN Pr.tasks : st.nstart[t] = 1 => \A r \in TaskRefs(Pr, t) : RefState(Pr, st, r) = "ok"
(* C05: consumers of a failed call never run *)
NoZombie == \A t \in DOMAIN Pr.tasks : st.nstart[t] = 1 => \A r \in TaskRefs(Pr, t) : ~Failed(Pr, st, r)
(* C06 *)
OneAtATime == \A A \in DOMAIN Pr.actors : Cardinality({t \in st.actor[A].run : Pr.tasks[t].m = ""}) <= 1
(* C03, C04, C15: every program comes to its end, and so does everything submitted unless it was cut off by shutdown *)
Finishes == <>(pc = Len(Ops) + 1 /\ Idle)
AllRun == <>(st.shut = 2 \/ \A t \in st.sub : TaskState(Pr, st, t) # "pending")
(* A state without successors is the end of the program. *)
NotStuck == (~ENABLED Next) => (pc = Len(Ops) + 1 /\ Idle /\ (st.shut = 2 \/ \A t \in st.sub : TaskState(Pr, st, t) # "pending"))
=============================================================================
