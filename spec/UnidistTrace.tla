---------------------------- MODULE UnidistTrace ----------------------------
(* Validates recorded histories (JSON file named by the environment variable TRACES) against UnidistAPI.     *)
(* Every trace is one initial state; the violated rules are collected in `bad` and printed at the end.       *)
EXTENDS UnidistAPI, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES k, i, st, bad
vars == <<k, i, st, bad>>

Prog(j) == Traces[j].prog
Ev(j) == Traces[j].ev

Init == /\ k \in 1..Len(Traces)
        /\ i = 1
        /\ st = InitState(Prog(k))
        /\ bad = <<>>

Next == /\ i <= Len(Ev(k))
        /\ LET e == Ev(k)[i]
               v == Violated(Prog(k), st, e)
           IN /\ bad' = IF v = {} THEN bad ELSE Append(bad, <<i, v>>)
              /\ st' = Apply(Prog(k), st, e)
        /\ i' = i + 1
        /\ UNCHANGED k

Spec == Init /\ [][Next]_vars

(* Never violated; prints the verdict of a finished trace. *)
Report == (i = Len(Ev(k)) + 1) => PrintT(ToJson([trace |-> k, events |-> Len(Ev(k)), bad |-> bad]))
=============================================================================
