----------------------------- MODULE UnidistGen -----------------------------
(***************************************************************************)
(* Random client programs.  Behaviours of this module are client programs  *)
(* of the interface specified in UnidistAPI (every action appends one API  *)
(* call whose references/actors exist at that point); `tlc -simulate`      *)
(* samples them.  The mix is given by a profile (JSON, IOEnv.PROFILE).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Pf == JsonDeserialize(IOEnv.PROFILE)
VARIABLES ops, nt, nr, ng, nw, na, live, acts, boxes
vars == <<ops, nt, nr, ng, nw, na, live, acts, boxes>>

Pick(s) == s[RandomElement(1..(Len(s) + 0 * Len(ops)))]  \* state-level on purpose: TLC caches constants
Val(k) == IF k = 27 THEN 27 ELSE RandomElement(0..(9972 + 0 * Len(ops))) * 64 + k

Const == <<"c", Val(Pick(Pf.kinds))>>
Leaf(L) == IF L # {} /\ Pick(Pf.refarg) = 1 THEN <<"r", RandomElement(L)>> ELSE Const
RECURSIVE Leaves(_, _)
Leaves(n, L) == IF n = 0 THEN <<>> ELSE Append(Leaves(n - 1, L), Leaf(L))
Arg(L, ks) == LET k == Pick(ks) IN
          IF k = "x" THEN Leaf(L) ELSE <<k, Leaves(RandomElement(0..3), L)>>
RECURSIVE Args(_, _, _), Kws(_, _, _)
Args(n, L, ks) == IF n = 0 THEN <<>> ELSE Append(Args(n - 1, L, ks), Arg(L, ks))
Kws(n, L, ks) == IF n = 0 THEN <<>> ELSE Append(Kws(n - 1, L, ks), <<"kw" \o ToString(n), Arg(L, ks)>>)
Ids(from, n) == [j \in 1..n |-> from + j]
RECURSIVE Seq1(_, _)
Seq1(from, n) == IF n = 0 THEN <<>> ELSE Append(Seq1(from, n - 1), from + n)

SubOpK(t, r, L, n, ks) ==
  [o |-> "sub", t |-> t, a |-> Args(Pick(Pf.nargs), L, ks), kw |-> Kws(Pick(Pf.nkw), L, ks), n |-> n,
   b |-> Pick(Pf.beh), k |-> Pick(Pf.kinds), rs |-> Seq1(r, n), f |-> Pick(Pf.nform), form |-> Pick(Pf.oform),
   d |-> Pick(Pf.dur), mut |-> Pick(Pf.amut)]

SubOp(t, r, L, n) == SubOpK(t, r, L, n, Pf.argk)
CallOp(t, r, L, n) == SubOpK(t, r, L, n, Pf.cargk)  \* actor methods: references are direct arguments

Init == /\ ops = <<>> /\ nt = 0 /\ nr = 0 /\ ng = 0 /\ nw = 0 /\ na = 0
        /\ live = {} /\ acts = {} /\ boxes = {}

Add(op) == ops' = Append(ops, op)

Put == /\ Add([o |-> "put", r |-> nr + 1, v |-> Val(Pick(Pf.kinds)), mut |-> Pick(Pf.mut)])
       /\ nr' = nr + 1 /\ live' = live \cup {nr + 1}
       /\ UNCHANGED <<nt, ng, nw, na, acts, boxes>>

Sub == \E n \in {Pick(Pf.nret)} :
       /\ Add(SubOp(nt + 1, nr, live, n))
       /\ nt' = nt + 1 /\ nr' = nr + n /\ live' = live \cup ((nr + 1)..(nr + n))
       /\ UNCHANGED <<ng, nw, na, acts, boxes>>

(* A burst of calls. *)
Burst == \E b \in {RandomElement(2..4)} :
         LET RECURSIVE Mk(_)
             Mk(j) == IF j = 0 THEN <<>> ELSE Append(Mk(j - 1), SubOp(nt + j, nr + j - 1, live \cup ((nr + 1)..(nr + j - 1)), 1))
         IN /\ ops' = ops \o Mk(b)
            /\ nt' = nt + b /\ nr' = nr + b /\ live' = live \cup ((nr + 1)..(nr + b))
            /\ UNCHANGED <<ng, nw, na, acts, boxes>>

RECURSIVE Refs(_)
Refs(n) == IF n = 0 THEN <<>> ELSE Append(Refs(n - 1), RandomElement(live))
Get == /\ live # {}
       /\ \E l \in {Pick(Pf.getlist) = 1} :
          Add([o |-> "get", g |-> ng + 1, rs |-> Refs(IF l THEN Pick(Pf.getlen) ELSE 1), l |-> l])
       /\ ng' = ng + 1 /\ UNCHANGED <<nt, nr, nw, na, live, acts, boxes>>
GetAll == /\ live # {}
          /\ LET RECURSIVE Ord(_)
                 Ord(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Ord(S \ {x})
             IN Add([o |-> "get", g |-> ng + 1, rs |-> Ord(live), l |-> TRUE])
          /\ ng' = ng + 1 /\ UNCHANGED <<nt, nr, nw, na, live, acts, boxes>>

RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Shuffle(S \ {x})
RECURSIVE SomeOf(_, _)
SomeOf(S, m) == IF m = 0 \/ S = {} THEN {} ELSE LET x == RandomElement(S) IN {x} \cup SomeOf(S \ {x}, m - 1)
Wait == /\ live # {}
        /\ \E m \in {RandomElement(1..IF Cardinality(live) > 6 THEN 6 ELSE Cardinality(live))} :
           \E rs \in {Shuffle(SomeOf(live, m))} :
           Add([o |-> "wait", w |-> nw + 1, rs |-> rs, n |-> RandomElement(1..Len(rs))])
        /\ nw' = nw + 1 /\ UNCHANGED <<nt, nr, ng, na, live, acts, boxes>>

Del == /\ live # {}
       /\ \E S \in {SomeOf(live \ boxes, Pick(Pf.ndel))} :
          /\ Add([o |-> "del", rs |-> Shuffle(S)])
          /\ live' = live \ S
       /\ UNCHANGED <<nt, nr, ng, nw, na, acts, boxes>>

Actor == /\ Cardinality(acts) < Pf.maxact
         /\ Add([o |-> "actor", A |-> na + 1, a |-> <<<<"c", Val(0)>>>>, b |-> Pick(Pf.ctor)])
         /\ na' = na + 1 /\ acts' = acts \cup {na + 1}
         /\ UNCHANGED <<nt, nr, ng, nw, live, boxes>>
Call == /\ acts # {}
        /\ \E n \in {Pick(Pf.nret)} : \E A \in {RandomElement(acts)} : \E m \in {Pick(Pf.meth)} :
           LET base == CallOp(nt + 1, nr, live, n)
               op == [base EXCEPT !.o = "call"]
           IN /\ Add(IF m = "" THEN [op EXCEPT !.b = Pick(Pf.cbeh)] @@ [A |-> A] ELSE op @@ [A |-> A, m |-> m])
              /\ nt' = nt + 1 /\ nr' = nr + n /\ live' = live \cup ((nr + 1)..(nr + n))
        /\ UNCHANGED <<ng, nw, na, acts, boxes>>
(* Two async methods of one actor of which the first waits for the second. *)
Pair == /\ acts # {}
        /\ \E A \in {RandomElement(acts)} :
           LET w == [[CallOp(nt + 1, nr, {}, 1) EXCEPT !.o = "call", !.b = "ok"] EXCEPT !.rs = <<nr + 1>>] @@ [A |-> A, m |-> "wait"]
               s == [[CallOp(nt + 2, nr + 1, live, 1) EXCEPT !.o = "call"] EXCEPT !.rs = <<nr + 2>>] @@ [A |-> A, m |-> "set"]
           IN ops' = ops \o <<w, [s EXCEPT !.b = "ok", !.a = <<Const>>, !.kw = <<>>]>>
        /\ nt' = nt + 2 /\ nr' = nr + 2 /\ live' = live \cup {nr + 1, nr + 2}
        /\ UNCHANGED <<ng, nw, na, acts, boxes>>
(* A second handle of an actor; "dela" drops the copies first. *)
DupA == /\ acts # {}
        /\ \E A \in {RandomElement(acts)} : Add([o |-> "dupa", A |-> A, swap |-> RandomElement(0..1)])
        /\ UNCHANGED <<nt, nr, ng, nw, na, live, acts, boxes>>
Copies(A) == Cardinality({j \in 1..Len(ops) : ops[j].o = "dupa" /\ ops[j].A = A})
             - Cardinality({j \in 1..Len(ops) : ops[j].o = "dela" /\ ops[j].A = A})
DelA == /\ acts # {}
        /\ \E A \in {RandomElement(acts)} : Add([o |-> "dela", A |-> A]) /\ acts' = IF Copies(A) > 0 THEN acts ELSE acts \ {A}
        /\ UNCHANGED <<nt, nr, ng, nw, na, live, boxes>>

(* A call whose body uses the API itself.  At most one call that blocks in its body is outstanding (`boxes` holds *)
(* its reference): two of them on two workers may wait for calls queued behind each other.                         *)
Blocking(tpl) == tpl \notin {"put", "fire", "hfire", "hfires"}
Nest == \E tpl0 \in {Pick(Pf.nest)} : \E n0 \in {Pick(Pf.nret)} : \E A \in {IF acts = {} THEN 0 ELSE RandomElement(acts)} :
  LET tpl == IF A = 0 /\ tpl0 \in {"hcall", "hfire", "hfires", "csub"} THEN "sub" ELSE tpl0
      n == IF Blocking(tpl) /\ n0 = 0 THEN 1 ELSE n0
      t == nt + 1
      base == SubOp(t, nr, live, n)
      cbase == [CallOp(t, nr, live, n) EXCEPT !.o = "call"] @@ [A |-> A]
      outer == IF tpl = "csub" THEN cbase
               ELSE IF tpl \in {"hcall", "hfire", "hfires"} THEN [base EXCEPT !.a = Append(@, <<"h", A>>)]
               ELSE base
      pre == IF Blocking(tpl) /\ boxes # {}
             THEN <<[o |-> "get", g |-> ng + 1, rs |-> <<CHOOSE b \in boxes : TRUE>>, l |-> FALSE]>> ELSE <<>>
      g0 == ng + Len(pre)
      r0 == nr + n
      put == [o |-> "put", r |-> r0 + 1, v |-> Val(Pick(Pf.kinds)), mut |-> 0]
      inner == SubOp(t + 1, r0 + 1, {r0 + 1}, 1)
      inner2 == SubOp(t + 2, r0 + 2, {r0 + 1, r0 + 2}, 1)
      icall(k, r, L, B) == [CallOp(k, r, L, 1) EXCEPT !.o = "call"] @@ [A |-> B]
      get(g, rs) == [o |-> "get", g |-> g, rs |-> rs, l |-> Len(rs) > 1]
      Done(body, dt, dr, dg, op) ==
        /\ ops' = ops \o pre \o <<op @@ [body |-> body]>>
        /\ nt' = t + dt /\ nr' = r0 + dr /\ ng' = g0 + dg
        /\ live' = live \cup ((nr + 1)..(nr + n))
        /\ boxes' = IF Blocking(tpl) THEN {nr + 1} ELSE boxes
  IN /\ CASE tpl = "put"    -> Done(<<put, get(g0 + 1, <<r0 + 1>>)>>, 0, 1, 1, outer)
          [] tpl \in {"sub", "csub"} -> Done(<<put, inner, get(g0 + 1, <<r0 + 2>>)>>, 1, 2, 1, outer)
          [] tpl = "sub2"   -> Done(<<put, inner, inner2, get(g0 + 1, <<r0 + 3, r0 + 2, r0 + 1>>)>>, 2, 3, 1, outer)
          [] tpl = "fire"   -> Done(<<put, inner>>, 1, 2, 0, outer)
          [] tpl = "firedel" -> Done(<<put, inner, [o |-> "del", rs |-> <<r0 + 1>>], get(g0 + 1, <<r0 + 2>>)>>, 1, 2, 1, outer)
          [] tpl = "get2"   -> Done(<<put, inner, get(g0 + 1, <<r0 + 2>>), get(g0 + 2, <<r0 + 2, r0 + 1>>)>>, 1, 2, 2, outer)
          [] tpl = "wait"   -> Done(<<put, inner, [o |-> "wait", w |-> nw + 1, rs |-> <<r0 + 2>>, n |-> 1], get(g0 + 1, <<r0 + 2>>)>>, 1, 2, 1, outer)
          [] tpl = "hcall"  -> Done(<<put, icall(t + 1, r0 + 1, {r0 + 1}, A), icall(t + 2, r0 + 2, {r0 + 1, r0 + 2}, A),
                                      get(g0 + 1, <<r0 + 3, r0 + 2>>)>>, 2, 3, 1, outer)
          [] tpl = "hfire"  -> Done(<<put, icall(t + 1, r0 + 1, {r0 + 1}, A)>>, 1, 2, 0, outer)
          [] tpl = "hfires" -> Done(<<put, icall(t + 1, r0 + 1, {r0 + 1}, A), icall(t + 2, r0 + 2, {}, A), icall(t + 3, r0 + 3, {r0 + 2}, A)>>,
                                    3, 4, 0, outer)
          [] tpl = "nact"   -> Done(<<put, [o |-> "actor", A |-> na + 1, a |-> <<<<"c", Val(0)>>>>],
                                      icall(t + 1, r0 + 1, {r0 + 1}, na + 1), icall(t + 2, r0 + 2, {r0 + 1, r0 + 2}, na + 1),
                                      get(g0 + 1, <<r0 + 2, r0 + 3>>), [o |-> "dela", A |-> na + 1]>>, 2, 3, 1, outer)
          [] tpl = "churn"  -> Done(<<put, [o |-> "churn", n |-> Pick(Pf.churn), v |-> Val(Pick(Pf.kinds)), get |-> 1, task |-> 0, d |-> 0],
                                      inner, get(g0 + 1, <<r0 + 2, r0 + 1>>)>>, 1, 2, 1, outer)
     /\ nw' = IF tpl = "wait" THEN nw + 1 ELSE nw
     /\ na' = IF tpl = "nact" THEN na + 1 ELSE na
     /\ UNCHANGED acts

Sleep == Add([o |-> "sleep", d |-> Pick(Pf.sleep)]) /\ UNCHANGED <<nt, nr, ng, nw, na, live, acts, boxes>>
Settle == Add([o |-> "settle"]) /\ UNCHANGED <<nt, nr, ng, nw, na, live, acts, boxes>>
Churn == Add([o |-> "churn", n |-> Pick(Pf.churn), v |-> Val(Pick(Pf.kinds)), get |-> RandomElement(0..1), task |-> Pick(Pf.churntask),
              d |-> Pick(Pf.churnd)])
         /\ UNCHANGED <<nt, nr, ng, nw, na, live, acts, boxes>>

(* A clean-up that comes while calls with dropped arguments wait behind slow ones; before that a few finished calls of  *)
(* one kind: if these were miscounted, the clean-up would take the waiting calls for finished.                          *)
GcRace ==
  \E m \in {RandomElement(1..2)} : \E q \in {RandomElement(1..3)} : \E c \in {RandomElement(0..(m + q))} :
  \E kind \in {IF acts = {} THEN RandomElement({"sub0", "fail", "sub"}) ELSE RandomElement({"call", "call0", "sub0"})} :
  LET A == IF acts = {} THEN 0 ELSE CHOOSE x \in acts : TRUE
      one(t, r, L) == [SubOpK(t, r, L, 1, <<"x">>) EXCEPT !.b = "ok", !.d = 0]
      n == IF kind \in {"sub0", "call0"} THEN 0 ELSE 1
      R == nr + c * n
      T == nt + c
      pre(j) == LET b == [one(nt + j, nr + j - 1, {}) EXCEPT !.n = n, !.rs = IF n = 0 THEN <<>> ELSE <<nr + j>>, !.b = IF kind = "fail" THEN "raise" ELSE "ok"]
                IN IF kind \in {"call", "call0"} THEN [b EXCEPT !.o = "call"] @@ [A |-> A] ELSE b
      RECURSIVE Pre(_), Slow(_), Use(_)
      Pre(j) == IF j = 0 THEN <<>> ELSE Append(Pre(j - 1), pre(j))
      Slow(j) == IF j = 0 THEN <<>> ELSE Append(Slow(j - 1), [one(T + j, R + j - 1, {}) EXCEPT !.d = 30])
      p == m + 1
      Use(j) == IF j = 0 THEN <<>> ELSE Append(Use(j - 1), [one(T + p + j, R + p + j - 1, {}) EXCEPT !.a = <<<<"r", R + p>>>> \o @])
  IN /\ ops' = ops \o Pre(c) \o <<[o |-> "settle"]>> \o Slow(m) \o <<one(T + p, R + p - 1, {})>> \o Use(q)
                  \o <<[o |-> "del", rs |-> <<R + p>>], [o |-> "churn", n |-> 40, v |-> Val(Pick(Pf.kinds)), get |-> 1, task |-> 0, d |-> 1]>>
     /\ nt' = T + p + q /\ nr' = R + p + q
     /\ live' = live \cup (((nr + 1)..(R + p + q)) \ {R + p})
     /\ UNCHANGED <<ng, nw, na, acts, boxes>>

Finish == /\ Len(ops) >= Pf.len
          /\ \A j \in 1..Len(ops) : ops[j].o # "end"
          /\ LET S == Shuffle(live)
                 gets == [j \in 1..Len(S) |-> [o |-> "get", g |-> ng + j, rs |-> <<S[j]>>, l |-> FALSE]]
             IN ops' = ops \o (IF Pick(Pf.fin) = 1 THEN gets ELSE <<>>) \o <<[o |-> "end"]>>
          /\ UNCHANGED <<nt, nr, ng, nw, na, live, acts, boxes>>

Next == \/ /\ Len(ops) < Pf.len
           /\ \E a \in {Pick(Pf.w)} :
              CASE a = "put" -> Put [] a = "sub" -> Sub [] a = "burst" -> Burst
                [] a = "get" -> IF live = {} THEN Put ELSE Get
                [] a = "getall" -> IF live = {} THEN Put ELSE GetAll
                [] a = "wait" -> IF live = {} THEN Sub ELSE Wait
                [] a = "del" -> IF live = {} THEN Put ELSE Del
                [] a = "actor" -> IF Cardinality(acts) < Pf.maxact THEN Actor ELSE IF acts = {} THEN Sub ELSE Call
                [] a = "call" -> IF acts = {} THEN (IF Pf.maxact > 0 THEN Actor ELSE Sub) ELSE Call
                [] a = "pair" -> IF acts = {} THEN (IF Pf.maxact > 0 THEN Actor ELSE Sub) ELSE Pair
                [] a = "dupa" -> IF acts = {} THEN Sub ELSE DupA
                [] a = "dela" -> IF acts = {} THEN Sub ELSE DelA
                [] a = "nest" -> Nest
                [] a = "gcrace" -> GcRace
                [] a = "sleep" -> Sleep [] a = "settle" -> Settle [] a = "churn" -> Churn
        \/ Finish

Spec == Init /\ [][Next]_vars
Emit == (ops # <<>> /\ ops[Len(ops)].o = "end") => PrintT(ToJson(ops))
=============================================================================
