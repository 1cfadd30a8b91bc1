------------------------------ MODULE ShmTrace ------------------------------
(* Checks transitions recorded from the real allocator (JSON file TRACES: list of walks) against ShmAlloc.      *)
(* A walk is [M, N, steps]; a step [o, id, n, ids, pre, post, refs, pend] with pre/post the observed blocks.    *)
EXTENDS ShmAlloc, Json, IOUtils, TLC
Walks == JsonDeserialize(IOEnv.TRACES)
VARIABLES w, i, bad
tvars == <<w, i, bad, used, refs, pend>>
Set(s) == {s[j] : j \in 1..Len(s)}
Blocks(s) == {[id |-> s[j][1], f |-> s[j][2], l |-> s[j][3], s |-> s[j][4]] : j \in 1..Len(s)}
If(b, x) == IF b THEN {x} ELSE {}
Bad(W, e) ==
  LET pre == Blocks(e.pre) post == Blocks(e.post) IN
  CASE e.o = "reserve" ->
         If(Cardinality(post) > Cardinality(pre) /\ ~ReserveOk(pre, W.M, W.N, e.id, e.n, post), "alloc-overlap")
         \cup If(post = pre /\ ~ReserveFail(pre, W.M, W.N, e.n, post), "alloc-refused")
         \cup If(post # pre /\ ~(Cardinality(post) > Cardinality(pre)), "alloc-corrupt")
    [] e.o = "clear" ->
         LET want == ClearPost(pre, Set(e.refs), Set(e.pend), Set(e.ids)) IN
         If(want \ post # {}, "alloc-freed-in-use") \cup If(post \ want # {}, "alloc-not-freed")
    [] e.o = "drop" -> If(post # pre, "alloc-corrupt")
    [] e.o = "error" -> {"alloc-error"}
    [] OTHER -> {}
TInit == /\ w \in 1..Len(Walks) /\ i = 1 /\ bad = <<>>
         /\ used = {} /\ refs = {} /\ pend = {}
TNext == /\ i <= Len(Walks[w].steps)
         /\ LET e == Walks[w].steps[i] v == Bad(Walks[w], e)
            IN bad' = IF v = {} THEN bad ELSE Append(bad, <<i, v>>)
         /\ i' = i + 1 /\ UNCHANGED <<w, used, refs, pend>>
TSpec == TInit /\ [][TNext]_tvars
TReport == (i = Len(Walks[w].steps) + 1) => PrintT(ToJson([trace |-> w, bad |-> bad]))
=============================================================================
