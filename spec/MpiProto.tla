------------------------------ MODULE MpiProto ------------------------------
(* The protocol the MPI backend runs between its processes: the controller (rank 0), the monitor (rank 1) and the       *)
(* workers (ranks 2..W+1), one action per operation message received and per API call of the controller.                *)
(*                                                                                                                     *)
(* Channels are first-in-first-out per pair of ranks and tag (MPI's non-overtaking rule): `op` carries operations       *)
(* (read by a rank's loop from any source), `rep` the answers a blocked rank waits for.                                  *)
(*                                                                                                                     *)
(* `hist` records the controller's calls and the order in which operations are received.  It is not part of the         *)
(* protocol's state (see View in MpiProto.cfg): the simulator takes it from behaviours TLC generates and drives the     *)
(* real processes through the same program in the same order.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS W,          \* number of workers
          MaxTasks,   \* bounds on the controller program
          MaxPuts, MaxGets, MaxWaits, MaxCleanups, MaxNested,
          Emitting    \* print the behaviours

Root == 0
Mon == 1
Workers == 2..(W + 1)
Ranks == 0..(W + 1)
NoId == 0
Ids == 1..(MaxTasks + MaxPuts + MaxNested)

VARIABLES
  op, rep,     \* channels: op[s][d], rep[s][d]
  nid,         \* identifiers handed out so far
  task,        \* id -> [arg, w, nest, sub]: the calls made (nest: its body submits one and gets its result)
  root,        \* the controller
  wk,          \* the workers
  mon,         \* the monitor
  ran,         \* id -> number of times the call was executed
  err,         \* protocol errors
  hist

vars == <<op, rep, nid, task, root, wk, mon, ran, err, hist>>
View == <<op, rep, nid, task, root, wk, mon, ran, err>>

Send(c, s, d, m) == [c EXCEPT ![s][d] = Append(@, m)]
SendAll(c, s, D, m) == [c EXCEPT ![s] = [d \in Ranks |-> IF d \in D THEN Append(@[d], m) ELSE @[d]]]
IsTask(i) == i \in DOMAIN task

Init ==
  /\ op = [s \in Ranks |-> [d \in Ranks |-> <<>>]]
  /\ rep = [s \in Ranks |-> [d \in Ranks |-> <<>>]]
  /\ nid = 0 /\ task = <<>> /\ ran = <<>> /\ err = {} /\ hist = <<>>
  /\ root = [pc |-> "idle", x |-> {}, live |-> {}, store |-> {}, dropped |-> {}, sub |-> 0, sent |-> {}, next |-> 0,
             nput |-> 0, ntask |-> 0, nget |-> 0, nwait |-> 0, nclean |-> 0, nnest |-> 0]
  /\ wk = [w \in Workers |-> [store |-> {}, own |-> <<>>, pend |-> <<>>, req |-> {}, getq |-> {}, sent |-> {}, canc |-> FALSE,
                              ready |-> FALSE, up |-> TRUE, busy |-> NoId]]
  /\ mon = [cnt |-> 0, done |-> {}, wait |-> {}, need |-> 0, got |-> {}, rdy |-> {}, up |-> TRUE]

(* ------------------------------------------------------------------------------------------------------------ controller *)
Idle == root.pc = "idle"
RU == UNCHANGED <<wk, mon, err>>

Put == /\ Idle /\ root.nput < MaxPuts
       /\ nid' = nid + 1
       /\ root' = [root EXCEPT !.nput = @ + 1, !.live = @ \cup {nid + 1}, !.store = @ \cup {nid + 1}]
       /\ hist' = Append(hist, <<"put", nid + 1>>)
       /\ RU /\ UNCHANGED <<op, rep, task, ran>>

(* What a submission sends ahead of the call: the argument, or who has it. *)
Push(c, s, store, sent, owner(_), arg, d) ==
  IF arg = NoId THEN c
  ELSE IF arg \in store THEN (IF <<arg, d>> \in sent THEN c ELSE Send(c, s, d, <<"PUT_DATA", arg>>))
  ELSE Send(c, s, d, <<"PUT_OWNER", arg, owner(arg)>>)

RootOwner(i) == IF IsTask(i) THEN task[i].w ELSE Root

Submit(arg, nest) ==
  /\ Idle /\ root.ntask < MaxTasks
  /\ arg \in root.live \cup {NoId}
  /\ nest => (root.nnest < MaxNested /\ W > 1)
  /\ LET t == nid + 1
         d == 2 + root.next
         w2 == 2 + ((root.next + 1) % W)       \* where the call made inside goes
     IN /\ nid' = IF nest THEN nid + 2 ELSE nid + 1
        /\ task' = IF nest THEN (t :> [arg |-> arg, w |-> d, nest |-> t + 1, top |-> TRUE]) @@ (t + 1 :> [arg |-> NoId, w |-> w2, nest |-> NoId, top |-> FALSE]) @@ task
                   ELSE (t :> [arg |-> arg, w |-> d, nest |-> NoId, top |-> TRUE]) @@ task
        /\ ran' = IF nest THEN (t :> 0) @@ (t + 1 :> 0) @@ ran ELSE (t :> 0) @@ ran
        /\ op' = Send(Push(op, Root, root.store, root.sent, RootOwner, arg, d), Root, d, <<"EXECUTE", t>>)
        /\ root' = [root EXCEPT !.ntask = @ + 1, !.nnest = IF nest THEN @ + 1 ELSE @, !.sub = @ + 1, !.next = (@ + 1) % W, !.live = @ \cup {t},
                                !.sent = IF arg \in root.store THEN @ \cup {<<arg, d>>} ELSE @]
        /\ hist' = Append(hist, <<"sub", t, arg, IF nest THEN 1 ELSE 0>>)
  /\ RU /\ UNCHANGED rep

Get(i) == /\ Idle /\ root.nget < MaxGets /\ i \in root.live
          /\ root' = [root EXCEPT !.nget = @ + 1, !.pc = IF i \in root.store THEN "idle" ELSE "get", !.x = {i}]
          /\ op' = IF i \in root.store THEN op ELSE Send(op, Root, RootOwner(i), <<"GET", i, Root, TRUE>>)
          /\ hist' = Append(hist, <<"get", i>>)
          /\ RU /\ UNCHANGED <<rep, nid, task, ran>>

(* `wait` on calls whose results the controller does not have. *)
Wait(S, n) == /\ Idle /\ root.nwait < MaxWaits
              /\ S \subseteq root.live \ root.store /\ S # {} /\ n \in 1..Cardinality(S)
              /\ root' = [root EXCEPT !.nwait = @ + 1, !.pc = "wait", !.x = S]
              /\ op' = Send(op, Root, Mon, <<"WAIT", S, n>>)
              /\ hist' = Append(hist, <<"wait", S, n>>)
              /\ RU /\ UNCHANGED <<rep, nid, task, ran>>

Drop(i) == /\ Idle /\ i \in root.live
           /\ root' = [root EXCEPT !.live = @ \ {i}, !.store = @ \ {i}, !.dropped = @ \cup {i}]
           /\ hist' = Append(hist, <<"del", i>>)
           /\ RU /\ UNCHANGED <<op, rep, nid, task, ran>>

Cleanup == /\ Idle /\ root.nclean < MaxCleanups /\ root.dropped # {}
           /\ root' = [root EXCEPT !.nclean = @ + 1, !.pc = "count"]
           /\ op' = Send(op, Root, Mon, <<"COUNT">>)
           /\ hist' = Append(hist, <<"cleanup">>)
           /\ RU /\ UNCHANGED <<rep, nid, task, ran>>

Shutdown == /\ Idle
            /\ root' = [root EXCEPT !.pc = "shut"]
            /\ op' = SendAll(op, Root, Workers, <<"CANCEL">>)
            /\ hist' = Append(hist, <<"shutdown">>)
            /\ RU /\ UNCHANGED <<rep, nid, task, ran>>

RootReply(s) ==
  /\ root.pc \in {"get", "wait", "count", "shut"}
  /\ rep[s][Root] # <<>>
  /\ LET m == Head(rep[s][Root]) IN
     /\ rep' = [rep EXCEPT ![s][Root] = Tail(@)]
     /\ CASE root.pc = "get" /\ m[1] = "DATA" /\ m[2] \in root.x ->
               root' = [root EXCEPT !.pc = "idle", !.store = @ \cup {m[2]}] /\ UNCHANGED <<op, err>>
          [] root.pc = "wait" /\ m[1] = "READY_IDS" ->
               root' = [root EXCEPT !.pc = "idle"] /\ UNCHANGED op
               /\ err' = IF m[2] \subseteq {i \in DOMAIN ran : ran[i] > 0} /\ m[2] \subseteq root.x THEN err ELSE err \cup {"wait"}
          [] root.pc = "count" /\ m[1] = "COUNT" ->
               IF m[2] = root.sub
               THEN /\ op' = SendAll(op, Root, Workers \cup {Mon}, <<"CLEANUP", root.dropped>>)
                    /\ root' = [root EXCEPT !.pc = "idle", !.dropped = {}]
                    /\ UNCHANGED err
               ELSE root' = [root EXCEPT !.pc = "idle"] /\ UNCHANGED <<op, err>>
          [] root.pc = "shut" /\ m[1] = "SHUTDOWN" ->
               root' = [root EXCEPT !.pc = "end"] /\ UNCHANGED <<op, err>>
          [] OTHER -> err' = err \cup {"reply"} /\ root' = [root EXCEPT !.pc = "end"] /\ UNCHANGED op
  /\ UNCHANGED <<nid, task, wk, mon, ran, hist>>

(* --------------------------------------------------------------------------------------------------------------- workers *)
(* A step of worker `w` is computed on s = [me, op, rep, ran, err]. *)
Answer(s, w, i, src, blk) ==
  IF blk \/ src = Root THEN [s EXCEPT !.rep = Send(@, w, src, <<"DATA", i>>)]
  ELSE IF <<i, src>> \in s.me.sent THEN s
  ELSE [s EXCEPT !.op = Send(@, w, src, <<"PUT_DATA", i>>), !.me.sent = @ \cup {<<i, src>>}]

RECURSIVE AnswerAll(_, _, _)
AnswerAll(s, w, Q) == IF Q = {} THEN s ELSE LET q == CHOOSE q \in Q : TRUE IN AnswerAll(Answer(s, w, q[1], q[2], q[3]), w, Q \ {q})

(* The call's result exists: whoever asked gets it, the monitor is told. *)
Complete(s, w, t) ==
  LET Q == {q \in s.me.getq : q[1] = t}
      s1 == [s EXCEPT !.me.store = @ \cup {t}, !.me.getq = @ \ Q]
      s2 == AnswerAll(s1, w, Q)
  IN [s2 EXCEPT !.op = Send(@, w, Mon, <<"TASK_DONE", t, IF task[t].top THEN 1 ELSE 0>>)]

(* Try a call; a nested one submits its inner call and blocks the worker. *)
Have(s, a) == a = NoId \/ a \in s.me.store
Start(s, w, t) ==
  LET s1 == [s EXCEPT !.ran[t] = @ + 1] IN
  IF task[t].nest = NoId THEN Complete(s1, w, t)
  ELSE LET c == task[t].nest IN
       [s1 EXCEPT !.op = Send(Send(@, w, task[c].w, <<"EXECUTE", c>>), w, task[c].w, <<"GET", c, w, TRUE>>), !.me.busy = t]

Request(s, w, a) ==
  IF a \in s.me.req \/ (a \in DOMAIN s.me.own /\ s.me.own[a] = w) THEN s
  ELSE IF a \notin DOMAIN s.me.own THEN [s EXCEPT !.err = @ \cup {"missing"}]
  ELSE [s EXCEPT !.op = Send(@, w, s.me.own[a], <<"GET", a, w, FALSE>>), !.me.req = @ \cup {a}]

(* The pending calls, in order, again and again until none can run. *)
RECURSIVE Pending(_, _, _)
Pending(s, w, k) ==
  IF s.me.busy # NoId \/ k > Len(s.me.pend) THEN s
  ELSE LET t == s.me.pend[k] IN
       IF Have(s, task[t].arg)
       THEN LET rest == SubSeq(s.me.pend, 1, k - 1) \o SubSeq(s.me.pend, k + 1, Len(s.me.pend))
            IN Pending(Start([s EXCEPT !.me.pend = rest], w, t), w, 1)
       ELSE Pending(Request(s, w, task[t].arg), w, k + 1)

Execute(s, w, t) ==
  IF Have(s, task[t].arg) THEN Pending(Start(s, w, t), w, 1)
  ELSE Request([s EXCEPT !.me.pend = Append(@, t)], w, task[t].arg)

Handle(s, w, m) ==
  LET me == s.me IN
  CASE m[1] = "EXECUTE" -> IF me.canc THEN s ELSE Execute(s, w, m[2])
    [] m[1] = "GET" ->
         IF me.canc THEN (IF m[4] /\ m[3] # Root THEN Answer(s, w, m[2], m[3], TRUE) ELSE s)
         ELSE IF m[2] \in me.store THEN Answer(s, w, m[2], m[3], m[4])
         ELSE [s EXCEPT !.me.getq = @ \cup {<<m[2], m[3], m[4]>>}]
    [] m[1] = "PUT_DATA" ->
         IF me.canc THEN s
         ELSE Pending([s EXCEPT !.me.store = @ \cup {m[2]}, !.me.req = @ \ {m[2]}], w, 1)
    [] m[1] = "PUT_OWNER" -> IF me.canc THEN s ELSE [s EXCEPT !.me.own = (m[2] :> m[3]) @@ @]
    [] m[1] = "CLEANUP" -> [s EXCEPT !.me.store = @ \ m[2], !.me.sent = {p \in @ : p[1] \notin m[2]},
                                     !.me.own = [i \in DOMAIN @ \ m[2] |-> @[i]]]
    [] m[1] = "CANCEL" ->
         LET Q == {q \in me.getq : q[3] /\ q[2] # Root}
         IN AnswerAll([s EXCEPT !.me.pend = <<>>, !.me.getq = {}, !.me.canc = TRUE], w, Q)
    [] m[1] = "SHUTDOWN" -> IF me.ready THEN [s EXCEPT !.me.up = FALSE] ELSE [s EXCEPT !.err = @ \cup {"shutdown"}]
    [] OTHER -> [s EXCEPT !.err = @ \cup {"operation"}]

Apply(w, s) == /\ wk' = [wk EXCEPT ![w] = s.me] /\ op' = s.op /\ rep' = s.rep /\ ran' = s.ran /\ err' = s.err
               /\ UNCHANGED <<nid, task, root, mon>>

Receive(w, src) ==
  /\ wk[w].up /\ wk[w].busy = NoId /\ op[src][w] # <<>>
  /\ LET m == Head(op[src][w])
         s == [me |-> wk[w], op |-> [op EXCEPT ![src][w] = Tail(@)], rep |-> rep, ran |-> ran, err |-> err]
     IN Apply(w, Handle(s, w, m))
  /\ hist' = Append(hist, <<"rcv", w, src>>)

(* The answer to the get inside a nested call. *)
Unblock(w, src) ==
  /\ wk[w].up /\ wk[w].busy # NoId /\ rep[src][w] # <<>>
  /\ LET t == wk[w].busy
         s == [me |-> [wk[w] EXCEPT !.busy = NoId, !.store = @ \cup {task[t].nest}], op |-> op, rep |-> [rep EXCEPT ![src][w] = Tail(@)],
               ran |-> ran, err |-> err]
     IN Apply(w, Pending(Complete(s, w, t), w, 1))
  /\ UNCHANGED hist

Ready(w) == /\ wk[w].up /\ wk[w].canc /\ ~wk[w].ready /\ wk[w].busy = NoId
            /\ wk' = [wk EXCEPT ![w].ready = TRUE]
            /\ op' = Send(op, w, Mon, <<"READY">>)
            /\ UNCHANGED <<rep, nid, task, root, mon, ran, err, hist>>

(* --------------------------------------------------------------------------------------------------------------- monitor *)
(* The awaited identifiers that are complete, up to the requested number. *)
Answered(m) == LET R == m.wait \cap m.done IN m.wait # {} /\ Cardinality(R) >= m.need
MonStep(src, m) ==
  CASE m[1] = "TASK_DONE" -> [mon EXCEPT !.cnt = @ + m[3], !.done = @ \cup {m[2]}]
    [] m[1] = "WAIT" -> [mon EXCEPT !.wait = m[2], !.need = m[3]]
    [] m[1] = "READY" -> [mon EXCEPT !.rdy = @ \cup {src}]
    [] OTHER -> mon

Monitor(src) ==
  /\ mon.up /\ op[src][Mon] # <<>>
  /\ LET m == Head(op[src][Mon])
         op1 == [op EXCEPT ![src][Mon] = Tail(@)]
         m1 == MonStep(src, m)
         stop == m1.rdy = Workers
     IN \E R \in IF Answered(m1) THEN {R \in SUBSET (m1.wait \cap m1.done) : Cardinality(R) = m1.need} ELSE {{}} :
        /\ rep' = LET r1 == IF m[1] = "COUNT" THEN Send(rep, Mon, Root, <<"COUNT", m1.cnt>>) ELSE rep
                      r2 == IF Answered(m1) THEN Send(r1, Mon, Root, <<"READY_IDS", R>>) ELSE r1
                  IN IF stop THEN Send(r2, Mon, Root, <<"SHUTDOWN">>) ELSE r2
        /\ mon' = [m1 EXCEPT !.wait = IF Answered(m1) THEN {} ELSE @, !.up = ~stop]
        /\ op' = IF stop THEN SendAll(op1, Mon, Workers, <<"SHUTDOWN">>) ELSE op1
  /\ hist' = Append(hist, <<"rcv", Mon, src>>)
  /\ UNCHANGED <<nid, task, root, wk, ran, err>>

(* ------------------------------------------------------------------------------------------------------------------------ *)
Over == root.pc = "end" /\ ~mon.up /\ \A w \in Workers : ~wk[w].up
Next ==
  \/ Put \/ Cleanup \/ Shutdown
  \/ \E a \in Ids \cup {NoId} : \E n \in BOOLEAN : Submit(a, n)
  \/ \E i \in Ids : Get(i) \/ Drop(i)
  \/ \E S \in SUBSET Ids : \E n \in 1..Cardinality(Ids) : Wait(S, n)
  \/ \E s \in Ranks : RootReply(s) \/ Monitor(s) \/ (\E w \in Workers : Receive(w, s) \/ Unblock(w, s))
  \/ \E w \in Workers : Ready(w)
  \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --------------------------------------------------------------------------------------------------------------- properties *)
NoError == err = {}
Once == \A i \in DOMAIN ran : ran[i] <= 1
Inflight(i) == \E s, d \in Ranks : (\E k \in 1..Len(op[s][d]) : op[s][d][k][1] = "PUT_DATA" /\ op[s][d][k][2] = i)
                                   \/ (\E k \in 1..Len(rep[s][d]) : rep[s][d][k] = <<"DATA", i>>)
Cancelled == root.pc \in {"shut", "end"}
(* What exists and is still referenced, or is an argument of a call that has not run, is somewhere. *)
Needed(i) == i \in root.live \/ \E t \in DOMAIN task : task[t].arg = i /\ ran[t] = 0
Exists(i) == IF IsTask(i) THEN ran[i] = 1 /\ wk[task[i].w].busy # i ELSE TRUE
Kept == Cancelled \/ \A i \in 1..nid : Needed(i) /\ Exists(i) =>
          i \in root.store \/ (\E w \in Workers : i \in wk[w].store) \/ Inflight(i)
(* Clean-up is requested for nothing that is still needed. *)
CleanupSafe == Cancelled \/ \A d \in Ranks : \A k \in 1..Len(op[Root][d]) : op[Root][d][k][1] = "CLEANUP" =>
                 \A i \in op[Root][d][k][2] : ~Needed(i)
(* The monitor stops after everyone is ready; nobody waits for a process that is gone. *)
Orderly == (\E w \in Workers : ~wk[w].up) => ~mon.up
NoOrphan == \A w \in Workers : wk[w].busy # NoId => \A v \in Workers : wk[v].up \/ rep[v][w] # <<>> \/ v # task[task[wk[w].busy].nest].w
(* Nothing gets stuck: TLC's deadlock check.  Every program that ends is followed by everyone's end. *)
Stops == (root.pc = "shut") ~> Over
GetEnds == (root.pc \in {"get", "wait", "count"}) ~> (root.pc \notin {"get", "wait", "count"})

Emit == (Emitting /\ Over) => PrintT(ToJson(hist))
=============================================================================
