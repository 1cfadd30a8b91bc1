----------------------------- MODULE ConfigTrace -----------------------------
(* Settings observed in every process of a run (JSON file TRACES) against the rules of Config.                  *)
(* A run is [set, obs, vars]: set = sequence of [name, ev, av] (meanings, "-" = unset); obs = sequence of       *)
(* [p, v, e] with v the effective values and e the requested environment variables seen by process p;           *)
(* vars = sequence of [k, v] requested for the workers.  The first observation is the controller's.             *)
EXTENDS Config
Runs == JsonDeserialize(IOEnv.TRACES)
VARIABLES r
If(b, x) == IF b THEN {x} ELSE {}
Def(n) == LET j == CHOOSE k \in 1..Len(Params) : Params[k].name = n IN Params[j].def
Set(R, n) == IF \E k \in 1..Len(R.set) : R.set[k].name = n
             THEN R.set[CHOOSE k \in 1..Len(R.set) : R.set[k].name = n] ELSE [name |-> n, ev |-> Unset, av |-> Unset]
Own(R, n) == LET s == Set(R, n) IN Value(Def(n), s.ev, s.av)
(* The threshold of the shared store takes over when that is on. *)
Eff(R, n) == IF n = "MpiPickleThreshold" /\ Own(R, "MpiSharedObjectStore") = "True" THEN Own(R, "MpiSharedObjectStoreThreshold") ELSE Own(R, n)
Names == {Params[j].name : j \in {k \in 1..Len(Params) : Params[k].name \in
            {"Backend", "CpuCount", "MpiSpawn", "MpiHosts", "MpiPickleThreshold", "MpiBackoff", "MpiLog", "MpiSharedObjectStore",
             "MpiSharedObjectStoreMemory", "MpiSharedServiceMemory", "MpiSharedObjectStoreThreshold"}}}
Bad(R) ==
  UNION {
    If(\E n \in Names : Eff(R, n) # "?" /\ R.obs[j].v[n] # Eff(R, n), IF j = 1 THEN "config-value" ELSE "config-differs")
    \cup If(\E n \in Names : R.obs[j].v[n] # R.obs[1].v[n], "config-differs")
    \cup If(j > 1 /\ \E k \in 1..Len(R.vars) : R.obs[j].e[k] # R.vars[k].v, "config-env")
    : j \in 1..Len(R.obs)}
CInit == r \in 1..Len(Runs) /\ par = Params[1] /\ env = Unset /\ api = Unset /\ hist = <<>>
CNext == UNCHANGED <<r, vars>>
CSpec == CInit /\ [][CNext]_<<r, vars>>
CReport == PrintT(ToJson([trace |-> r, bad |-> <<<<1, Bad(Runs[r])>>>>]))
=============================================================================
