----------------------------- MODULE UnidistAPI -----------------------------
(***************************************************************************)
(* Abstract specification of the unidist programming interface.            *)
(*                                                                         *)
(* A program pr is a table of remote calls ("tasks", plain or on actors),  *)
(* references, gets and waits.  A history is a sequence of events e (client*)
(* calls and returns, starts and ends of remote calls).  The specification *)
(* is a state machine over states st:                                      *)
(*    Violated(pr, st, e)  the set of names of the rules that event e      *)
(*                         breaks in state st ({} = the event is allowed)  *)
(*    Apply(pr, st, e)     the successor state                             *)
(* Behaviours of the specification are exactly the event sequences in      *)
(* which every event is allowed.  The same operators are used             *)
(*   - by UnidistMC    (all interleavings of small programs, properties),  *)
(*   - by UnidistGen   (generation of client programs),                    *)
(*   - by UnidistTrace (validation of histories of the implementation).    *)
(*                                                                         *)
(* Values are integers  h*64 + kind  (kind = payload kind, uval.py).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Prime == 9973
KindNone == 27

RECURSIVE WSum(_, _, _)
WSum(xs, w, j) == IF j > Len(xs) THEN 0 ELSE (j - 1 + w) * xs[j] + WSum(xs, w, j + 1)

KindNo(k) == CASE k = "L" -> 1 [] k = "T" -> 2 [] k = "D" -> 3
Fold(k, xs) == ((WSum(xs, 3, 1) + 11 * Len(xs) + KindNo(k)) % Prime) * 64 + 63
TaskVal(t, vals, i, k) ==
  IF k = KindNone THEN KindNone
  ELSE ((t * 131 + i * 17 + WSum(vals, 2, 1) + 7) % Prime) * 64 + k
ActorState(s, t, vals) == (s * 5 + t * 3 + WSum(vals, 2, 1) + 1) % Prime
Outputs(task, vals) == [i \in 1..task.n |-> TaskVal(task.t, vals, i - 1, task.k)]

Range(f) == {f[x] : x \in DOMAIN f}

(***************************************************************************)
(* Program tables.  pr.tasks[t] = [t, c, a, n, b, k, rs, A, m, body]       *)
(*   c  context: 0 = the controller, otherwise the task that submits it    *)
(*   a  arguments [k |-> "c"|"r"|"h"|"L"|"T"|"D", x |-> value|ref|actor|<<args>>]    *)
(*   n  num_returns, rs  references of the results                         *)
(*   b  "ok" | "raise" | "unser" (result cannot be serialised) |           *)
(*      "nometh" (the actor has no such method)                            *)
(*   A  actor number or 0, m  "" or the kind of async method               *)
(* pr.refs[r] = [t, i, v]: t > 0 output i of task t, t = 0 put of value v  *)
(* pr.gets[g] = [rs, l, c], pr.waits[w] = [rs, n, c], pr.actors[A] = [v,c,b] *)
(***************************************************************************)
RECURSIVE ArgRefs(_), ArgsRefs(_, _)
ArgRefs(a) == CASE a.k \in {"c", "h"} -> {}
                [] a.k = "r" -> {a.x}
                [] OTHER -> ArgsRefs(a.x, 1)
ArgsRefs(as, j) == IF j > Len(as) THEN {} ELSE ArgRefs(as[j]) \cup ArgsRefs(as, j + 1)
TaskRefs(pr, t) == ArgsRefs(pr.tasks[t].a, 1)

(***************************************************************************)
(* State.                                                                  *)
(***************************************************************************)
InitState(pr) ==
  LET T == DOMAIN pr.tasks IN
  [ sub    |-> {},                            \* submitted calls (invocation)
    ret    |-> {},                            \* submissions that returned
    order  |-> <<>>,                          \* submissions in order
    nstart |-> [t \in T |-> 0],
    fin    |-> [t \in T |-> "no"],            \* no | ok | fail
    tv     |-> [t \in T |-> <<>>],            \* result values
    av     |-> [t \in T |-> <<>>],            \* argument values seen (validated)
    at     |-> [t \in T |-> -1],              \* process that ran it
    acc    |-> [t \in {0} \cup T |-> <<>>],   \* values got inside a context
    put    |-> {},
    known  |-> {},                            \* <<ctx, ref>>: locally available to the context
    aval   |-> {},                            \* calls whose arguments were available when issued
    mark   |-> {},                            \* calls under a settled state (must have run)
    actor  |-> [A \in DOMAIN pr.actors |-> [inst |-> 0, s |-> 0, run |-> {}, p |-> -1]],
    alive  |-> {},                            \* actors with a live handle in the controller
    resv   |-> [t \in T |-> {}],              \* alive actors when t was submitted
    epoch  |-> 0,                             \* changes whenever reservations change
    ep     |-> [t \in T |-> 0],
    open   |-> [c \in {0} \cup T |-> "none"], \* call in progress per context
    opened |-> {},
    gone   |-> {},                            \* dropped references
    shut   |-> 0,                             \* 0 running, 1 shutdown called, 2 returned
    done   |-> FALSE ]

(* State of a reference: "ok", "fail", "dead" (an input failed, so the call never runs) or "pending". *)
(* Calls that can never start: unknown method, or the constructor of the actor raises. *)
Stillborn(pr, t) == LET k == pr.tasks[t] IN
  k.b = "nometh" \/ (k.A > 0 /\ pr.actors[k.A].b = "raise")
OwnOrigin(pr, t) == LET k == pr.tasks[t] IN
  (IF k.A > 0 /\ pr.actors[k.A].b = "raise" THEN {1000 + k.A} ELSE {}) \cup
  (IF k.b = "nometh" THEN {t} ELSE {})
RECURSIVE TaskState(_, _, _)
RefState(pr, st, r) ==
  LET d == pr.refs[r] IN
  IF d.t = 0 THEN (IF r \in st.put THEN "ok" ELSE "pending") ELSE TaskState(pr, st, d.t)
TaskState(pr, st, t) ==
  IF st.fin[t] # "no" THEN st.fin[t]
  ELSE IF st.nstart[t] = 0 /\ t \in st.sub /\
          (Stillborn(pr, t) \/ \E r \in TaskRefs(pr, t) : RefState(pr, st, r) \in {"fail", "dead"})
       THEN "dead" ELSE "pending"
Failed(pr, st, r) == RefState(pr, st, r) \in {"fail", "dead"}
Finished(pr, st, r) == RefState(pr, st, r) # "pending"

(* Exceptions that may surface for a failed call/reference. *)
RECURSIVE Origins(_, _, _)
RefOrigins(pr, st, r) == Origins(pr, st, pr.refs[r].t)
Origins(pr, st, t) ==
  IF st.fin[t] = "fail" THEN {t}
  ELSE OwnOrigin(pr, t) \cup UNION {RefOrigins(pr, st, r) : r \in {q \in TaskRefs(pr, t) : Failed(pr, st, q)}}

RefVal(pr, st, r) ==
  LET d == pr.refs[r] IN IF d.t = 0 THEN d.v ELSE st.tv[d.t][d.i + 1]

RECURSIVE ArgVal(_, _, _)
ArgVal(pr, st, a) ==
  CASE a.k = "c" -> a.x
    [] a.k = "h" -> 0
    [] a.k = "r" -> RefVal(pr, st, a.x)
    [] OTHER -> Fold(a.k, [j \in 1..Len(a.x) |-> ArgVal(pr, st, a.x[j])])
ArgVals(pr, st, t) == LET as == pr.tasks[t].a IN [j \in 1..Len(as) |-> ArgVal(pr, st, as[j])]

(* Values the body of a call contributes to its results. *)
Extra(pr, st, t, s) ==
  LET k == pr.tasks[t] IN (IF k.A > 0 /\ k.m = "" THEN <<s>> ELSE <<>>) \o st.acc[t]

Available(pr, st, t) ==
  LET c == pr.tasks[t].c IN
  \A r \in TaskRefs(pr, t) : <<c, r>> \in st.known

If(b, name) == IF b THEN {name} ELSE {}

(***************************************************************************)
(* Rules.                                                                  *)
(***************************************************************************)
VStart(pr, st, e) ==
  LET t == e.t
      k == pr.tasks[t]
      refs == TaskRefs(pr, t)
      inputsOk == ~Stillborn(pr, t) /\ \A r \in refs : RefState(pr, st, r) = "ok"
  IN If(t \notin st.sub, "start-unsubmitted")
     \cup If(st.nstart[t] > 0, "start-twice")
     \cup If(st.shut = 2, "start-after-shutdown")
     \cup If(~inputsOk, "start-inputs")
     \cup If(inputsOk /\ e.v # ArgVals(pr, st, t), "start-args")
     \cup If(e.p = 0 \/ (k.c # 0 /\ k.A = 0 /\ st.at[k.c] = e.p), "place-self")
     \cup (IF k.A = 0 THEN {} ELSE
           LET a == st.actor[k.A] IN
              If(a.inst # e.i \/ a.inst = 0, "actor-instance")
              \cup If(k.m = "" /\ a.s # e.s, "actor-state")
              \cup If(\E u \in a.run : pr.tasks[u].m = "", "actor-overlap")
              \cup If(t \in st.aval /\ \E u \in st.aval :
                        /\ u # t /\ pr.tasks[u].A = k.A /\ pr.tasks[u].c = k.c
                        /\ st.nstart[u] = 0 /\ ~Stillborn(pr, u)
                        /\ \E x \in 1..Len(st.order) : st.order[x] = u /\
                              \E y \in (x + 1)..Len(st.order) : st.order[y] = t,
                      "actor-order"))

VEnd(pr, st, e) ==
  LET k == pr.tasks[e.t] IN
  If(st.nstart[e.t] = 0 \/ st.fin[e.t] # "no", "end-unexpected")
  \cup If((e.e = "end") # (k.b = "ok"), "end-kind")
  \cup If(k.A > 0 /\ e.e = "end" /\ k.m = "" /\ e.s # ActorState(st.actor[k.A].s, e.t, st.av[e.t]), "actor-state")

VGet(pr, st, e) ==
  LET g == pr.gets[e.g]
      failed == {j \in 1..Len(g.rs) : Failed(pr, st, g.rs[j])}
      pending == {j \in 1..Len(g.rs) : RefState(pr, st, g.rs[j]) = "pending"}
      stopping == g.c # 0 /\ (st.shut > 0 \/ st.done)  \* calls still running at shutdown are cancelled
  IN IF e.e = "getx"
     THEN If(failed = {} /\ ~stopping, "get-exc-unexpected")
          \cup If(failed # {} /\ ~stopping /\ e.x \notin UNION {RefOrigins(pr, st, g.rs[j]) : j \in failed}, "get-exc-wrong")
     ELSE If(Len(e.v) # Len(g.rs), "get-length")
          \cup If(pending # {}, "get-early")
          \cup If(failed # {}, "get-exc-missing")
          \cup If(Len(e.v) = Len(g.rs) /\ pending = {} /\ failed = {} /\
                  \E j \in 1..Len(g.rs) : e.v[j] # RefVal(pr, st, g.rs[j]), "get-value")

(* A value received earlier (by a get, or as an argument kept by an actor) is looked at again. *)
VHeld(pr, st, e) ==
  If(e.v # (IF e.e = "heldarg" THEN st.av[e.t] ELSE [j \in 1..Len(pr.gets[e.g].rs) |-> RefVal(pr, st, pr.gets[e.g].rs[j])]), "held-value")

(* Payloads still held by some process after the clean-up had every chance to run: e.hs = their numbers. *)
VScan(pr, st, e) ==
  LET ok == {r \in DOMAIN pr.refs : r \notin st.gone /\ RefState(pr, st, r) = "ok"}
  IN If(\E j \in 1..Len(e.hs) : \A r \in ok : RefVal(pr, st, r) \div 64 # e.hs[j], "not-reclaimed")

VWait(pr, st, e) ==
  LET w == pr.waits[e.w]
      all == e.rdy \o e.nr
  IN If(Len(all) # Len(w.rs) \/ Range(all) # Range(w.rs), "wait-partition")
     \cup If(Len(e.rdy) # w.n, "wait-count")
     \cup If(\E r \in Range(e.rdy) : r \in DOMAIN pr.refs /\ ~Finished(pr, st, r), "wait-unfinished")
     \cup If(~e.ok, "wait-list")

(* Rules about process exits: p = process, code = exit status, fin = MPI finalised. *)
VExit(pr, st, e) ==
  If(e.code # 0, "exit-code")
  \cup If(st.shut = 0 /\ ~st.done, "exit-early")
  \cup If(e.fin # TRUE, "exit-unfinalized")

(* End of the run.  e.status = "done" or the kind of hang. *)
Settled(pr, st) ==
  {t \in st.sub : st.nstart[t] = 0 /\ TaskState(pr, st, t) # "dead"}

CtxPlain(pr, st) == SelectSeq(st.order, LAMBDA t : pr.tasks[t].c = 0 /\ pr.tasks[t].A = 0)

(* Placement: windows of consecutive controller submissions under unchanged reservations use distinct workers. *)
VPlace(pr, st) ==
  LET s == CtxPlain(pr, st)
      free(t) == pr.W - Cardinality(st.resv[t])
      pairs == {<<i, j>> \in (1..Len(s)) \X (1..Len(s)) :
                  i < j /\ st.ep[s[i]] = st.ep[s[j]] /\ st.at[s[i]] >= 0 /\ st.at[s[j]] >= 0}
  IN If(\E ij \in pairs : LET i == ij[1] j == ij[2] IN
           (j - i < free(s[i]) /\ st.at[s[i]] = st.at[s[j]]) \/
           ((j - i) % free(s[i]) = 0 /\ st.at[s[i]] # st.at[s[j]]), "place-cycle")
     \cup If(\E i \in 1..Len(s) : st.at[s[i]] >= 0 /\
               \E A \in st.resv[s[i]] : st.actor[A].p = st.at[s[i]], "place-reserved")

VFinal(pr, st, e) ==
  (IF e.status = "done" THEN {}
   ELSE IF st.open[0] # "none" THEN {"hang-" \o st.open[0]}
   ELSE IF st.done \/ st.shut > 0 THEN {"hang-exit"} ELSE {"hang-other"})
  \cup (IF e.status # "done" /\ \E c \in DOMAIN st.open : c # 0 /\ st.open[c] # "none" THEN {"hang-nested"} ELSE {})
  \cup (IF pr.place THEN VPlace(pr, st) ELSE {})

Violated(pr, st, e) ==
  CASE e.e = "start"  -> VStart(pr, st, e)
    [] e.e \in {"end", "fail"} -> VEnd(pr, st, e)
    [] e.e \in {"getr", "getx"} -> VGet(pr, st, e)
    [] e.e = "waitr"  -> VWait(pr, st, e)
    [] e.e = "waitx"  -> {"wait-exc"}
    [] e.e = "scan" -> VScan(pr, st, e)
    [] e.e \in {"held", "heldarg"} -> VHeld(pr, st, e)
    [] e.e = "subr"   -> If(e.n # pr.tasks[e.t].n, "shape")
    [] e.e = "ctor"   -> If(st.actor[e.A].inst # 0, "actor-twice")
                         \cup If(e.v # <<pr.actors[e.A].v>>, "actor-args")
                         \cup If(\E B \in st.alive \ {e.A} : pr.actors[e.A].c = 0 /\ pr.actors[B].c = 0
                                    /\ pr.place /\ e.A \in st.alive /\ st.actor[B].p = e.p, "place-actors")
    [] e.e = "operr"  -> IF e.o = "sub" /\ pr.noworker /\ e.t \in DOMAIN pr.tasks /\ pr.tasks[e.t].c = 0
                            /\ Cardinality(st.alive) >= pr.W THEN {}
                         ELSE {"op-error-" \o e.o}
    [] e.e = "settle" -> If(Settled(pr, st) # {}, "not-run")
    [] e.e = "mpi_error" -> {"mpi-error"}
    [] e.e = "exit"   -> VExit(pr, st, e)
    [] e.e = "final"  -> VFinal(pr, st, e)
    [] OTHER -> {}

(***************************************************************************)
(* Effects.                                                                *)
(***************************************************************************)
Know(st, c, rs) == [st EXCEPT !.known = @ \cup {<<c, r>> : r \in rs}]

Apply(pr, st, e) ==
  CASE e.e = "put"   -> [Know(st, e.c, {e.r}) EXCEPT !.put = @ \cup {e.r}, !.open[e.c] = "put"]
    [] e.e = "putr"  -> [st EXCEPT !.open[e.c] = "none"]
    [] e.e = "sub"   -> [st EXCEPT !.sub = @ \cup {e.t},
                                   !.order = Append(@, e.t),
                                   !.aval = IF Available(pr, st, e.t) THEN @ \cup {e.t} ELSE @,
                                   !.resv[e.t] = st.alive,
                                   !.ep[e.t] = st.epoch,
                                   !.open[e.c] = "sub"]
    [] e.e = "subr"  -> [st EXCEPT !.ret = @ \cup {e.t}, !.open[pr.tasks[e.t].c] = "none"]
    [] e.e = "start" ->
         LET k == pr.tasks[e.t]
             s1 == [st EXCEPT !.nstart[e.t] = @ + 1, !.av[e.t] = e.v, !.at[e.t] = e.p]
         IN IF k.A = 0 THEN s1 ELSE [s1 EXCEPT !.actor[k.A].run = @ \cup {e.t}]
    [] e.e = "end"   ->
         LET k == pr.tasks[e.t]
             sv == IF k.A > 0 THEN st.actor[k.A].s ELSE 0
             s1 == [st EXCEPT !.fin[e.t] = "ok",
                              !.tv[e.t] = Outputs(k, st.av[e.t] \o Extra(pr, st, e.t, sv))]
         IN IF k.A = 0 THEN s1
            ELSE [s1 EXCEPT !.actor[k.A].run = @ \ {e.t}, !.actor[k.A].s = ActorState(sv, e.t, st.av[e.t])]
    [] e.e = "fail"  ->
         LET k == pr.tasks[e.t]
             s1 == [st EXCEPT !.fin[e.t] = "fail"]
         IN IF k.A = 0 THEN s1 ELSE [s1 EXCEPT !.actor[k.A].run = @ \ {e.t}]
    [] e.e = "geti"  -> [st EXCEPT !.open[e.c] = "get"]
    [] e.e = "getr"  ->
         LET c == pr.gets[e.g].c IN
         [Know(st, c, Range(pr.gets[e.g].rs)) EXCEPT !.open[c] = "none", !.acc[c] = @ \o e.v]
    [] e.e = "getx"  -> [st EXCEPT !.open[pr.gets[e.g].c] = "none"]
    [] e.e = "waiti" -> [st EXCEPT !.open[e.c] = "wait"]
    [] e.e \in {"waitr", "waitx"} -> [st EXCEPT !.open[pr.waits[e.w].c] = "none"]
    [] e.e = "actor" -> [st EXCEPT !.open[e.c] = "actor",
                                   !.alive = IF e.c = 0 THEN @ \cup {e.A} ELSE @,
                                   !.epoch = @ + 1]
    [] e.e = "actorr" -> [st EXCEPT !.open[pr.actors[e.A].c] = "none"]
    [] e.e = "dela"  -> [st EXCEPT !.alive = @ \ {e.A}, !.epoch = @ + 1]
    [] e.e = "ctor"  -> [st EXCEPT !.actor[e.A] = [inst |-> e.i, s |-> pr.actors[e.A].v % Prime, run |-> {}, p |-> e.p]]
    [] e.e = "operr" -> [st EXCEPT !.open[e.c] = "none",
                                   !.sub = IF e.t \in DOMAIN pr.tasks /\ e.t \notin st.ret THEN @ \ {e.t} ELSE @,
                                   !.order = IF e.t \in DOMAIN pr.tasks /\ e.t \notin st.ret
                                             THEN SelectSeq(@, LAMBDA u : u # e.t) ELSE @]
    [] e.e = "del"   -> [st EXCEPT !.gone = @ \cup Range(e.rs)]
    [] e.e = "shut"  -> [st EXCEPT !.shut = IF @ = 0 THEN 1 ELSE @, !.open[0] = "shutdown"]
    [] e.e = "shutr" -> [st EXCEPT !.shut = 2, !.open[0] = "none"]
    [] e.e = "init"  -> [st EXCEPT !.open[0] = "none"]
    [] e.e = "begin" -> [st EXCEPT !.open[0] = "init"]
    [] e.e = "done"  -> [st EXCEPT !.done = TRUE]
    [] OTHER -> st
=============================================================================
