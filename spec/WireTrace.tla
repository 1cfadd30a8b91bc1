----------------------------- MODULE WireTrace ------------------------------
(* Recorded crossings of process boundaries: what arrived (g) is what was sent (w). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, bad
vars == <<tr, i, bad>>
Cross(e) == IF e.g # <<>> /\ \A k \in 1..Len(e.g) : e.g[k] = e.w THEN {} ELSE {"wire-" \o e.m}
Init == tr \in 1..Len(Traces) /\ i = 0 /\ bad = <<>>
Next == /\ i < Len(Traces[tr])
        /\ i' = i + 1
        /\ LET c == Cross(Traces[tr][i + 1]) IN bad' = IF c = {} THEN bad ELSE Append(bad, <<i + 1, c>>)
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Report == i = Len(Traces[tr]) => PrintT(ToJson([trace |-> tr, bad |-> bad]))
=============================================================================
