------------------------------ MODULE MemCopy -------------------------------
(* Copying a buffer into shared memory with several threads.  The data is cut at block boundaries of the source *)
(* address:  | prefix | one chunk of whole blocks per thread | suffix |.  The pieces have to cover every byte   *)
(* exactly once, whatever the alignment, length, block size and number of threads, and in whatever order the    *)
(* threads run.  harness/memcopy.py drives the real function over all alignments and lengths around the block   *)
(* size, with guard bytes on both sides.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS B, MaxLen, MaxThreads

Up(x) == ((x + B - 1) \div B) * B
Down(x) == (x \div B) * B
(* Pieces as [f, n] relative to the start of the data; a = address of the source. *)
Pieces(a, n, t) ==
  IF n < B THEN {[f |-> 0, n |-> n]}
  ELSE LET left == Up(a)
           right0 == Down(a + n)
           right == right0 - ((((right0 - left) \div B) % t) * B)
           chunk == (right - left) \div t
           pre == left - a
       IN {[f |-> 0, n |-> pre], [f |-> pre + t * chunk, n |-> a + n - right]} \cup {[f |-> pre + i * chunk, n |-> chunk] : i \in 0..(t - 1)}

VARIABLES a, n, t, todo, dst
vars == <<a, n, t, todo, dst>>
Init == /\ a \in 0..(B - 1) /\ n \in 0..MaxLen /\ t \in 1..MaxThreads
        /\ todo = {p \in Pieces(a, n, t) : p.n # 0} /\ dst = [i \in 0..(MaxLen - 1) |-> 0]
Step == \E p \in todo : /\ todo' = todo \ {p}
                        /\ dst' = [i \in 0..(MaxLen - 1) |-> IF p.f <= i /\ i < p.f + p.n THEN dst[i] + 1 ELSE dst[i]]
                        /\ UNCHANGED <<a, n, t>>
Spec == Init /\ [][Step]_vars
InBounds == \A p \in todo : p.n > 0 /\ p.f >= 0 /\ p.f + p.n <= n
Once == \A i \in 0..(MaxLen - 1) : dst[i] <= IF i < n THEN 1 ELSE 0
Complete == todo = {} => \A i \in 0..(n - 1) : dst[i] = 1
=============================================================================
