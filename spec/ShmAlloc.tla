------------------------------ MODULE ShmAlloc ------------------------------
(* The shared-memory manager of one host: ranges of data memory and bookkeeping slots handed out for objects.   *)
(* Placement is left open (first fit, best fit, ... are all allowed); what users rely on is fixed: ranges are   *)
(* in bounds and disjoint, a request fails only if no gap (or slot) exists, a failed request changes nothing,   *)
(* and clean-up frees exactly the requested objects that nobody refers to.                                      *)
EXTENDS Integers, FiniteSets, Sequences

(* A block is [id, f, l, s]: object, first byte, end (exclusive), bookkeeping slot. *)
Covered(used) == UNION {b.f..(b.l - 1) : b \in used}
Gap(used, M, n) == \E f \in 0..(M - n) : (f..(f + n - 1)) \cap Covered(used) = {}
(* The same from the ends of the blocks only (equal to Gap, see GapsAgree): usable for memories of any size. *)
GapB(used, M, n) ==
  \E f \in {0} \cup {b.l : b \in used} : f + n <= M /\ \A b \in used : b.l <= f \/ f + n <= b.f
SlotsUsed(used) == {b.s : b \in used}
SlotLeft(used, N) == Cardinality(SlotsUsed(used)) < N

InBounds(used, M, N) == \A b \in used : 0 <= b.f /\ b.f < b.l /\ b.l <= M /\ b.s \in 0..(N - 1)
Disjoint(used) ==
  \A b, c \in used : b # c => /\ (b.l <= c.f \/ c.l <= b.f)
                              /\ b.s # c.s /\ b.id # c.id

(* Everything a reservation may do; `post` is the set of blocks afterwards. *)
ReserveOk(used, M, N, id, n, post) ==
  \E b \in post \ used :
     /\ post = used \cup {b} /\ b.id = id /\ b.l - b.f = n
     /\ InBounds({b}, M, N) /\ Disjoint(used \cup {b})
ReserveFail(used, M, N, n, post) == post = used /\ ~(GapB(used, M, n) /\ SlotLeft(used, N))

(* Clean-up: refs = objects still referred to, pend = objects whose clean-up was requested before. *)
Freed(used, refs, pend, ids) == {b \in used : b.id \in (pend \cup ids) \ refs}
ClearPost(used, refs, pend, ids) == used \ Freed(used, refs, pend, ids)
ClearPend(used, refs, pend, ids) == {i \in pend \cup ids : i \in refs /\ \E b \in used : b.id = i}

(***************************************************************************)
(* The specification as a state machine, model checked by itself.          *)
(***************************************************************************)
CONSTANTS M, N, Ids
VARIABLES used, refs, pend
vars == <<used, refs, pend>>
Live == {b.id : b \in used}
Init == used = {} /\ refs = {} /\ pend = {}
Reserve(id, n) ==
  /\ id \notin Live /\ id \notin refs /\ id \notin pend
  /\ IF Gap(used, M, n) /\ SlotLeft(used, N)
     THEN \E f \in 0..(M - n) : \E s \in 0..(N - 1) :
            LET b == [id |-> id, f |-> f, l |-> f + n, s |-> s]
            IN /\ ReserveOk(used, M, N, id, n, used \cup {b})
               /\ used' = used \cup {b} /\ refs' = refs \cup {id}
     ELSE ReserveFail(used, M, N, n, used) /\ UNCHANGED <<used, refs>>
  /\ UNCHANGED pend
Drop(id) == id \in refs /\ refs' = refs \ {id} /\ UNCHANGED <<used, pend>>
Clear(ids) == /\ used' = ClearPost(used, refs, pend, ids)
              /\ pend' = ClearPend(used, refs, pend, ids)
              /\ UNCHANGED refs
Next == \/ \E id \in Ids, n \in 1..M : Reserve(id, n)
        \/ \E id \in Ids : Drop(id)
        \/ \E ids \in SUBSET Live : ids # {} /\ Clear(ids)
Spec == Init /\ [][Next]_vars

Inv == /\ InBounds(used, M, N) /\ Disjoint(used)
       /\ Cardinality(Covered(used)) + Cardinality((0..(M - 1)) \ Covered(used)) = M
       /\ refs \subseteq Live /\ pend \subseteq Live
GapsAgree == \A n \in 1..M : Gap(used, M, n) <=> GapB(used, M, n)
(* Memory in use by referred objects never moves or disappears. *)
Stable == [][\A b \in used : b.id \in refs => b \in used']_vars
(* With no references left, one clean-up of everything makes the whole memory available again. *)
Reusable == refs = {} => ClearPost(used, refs, pend, Live) = {}
=============================================================================
