------------------------------- MODULE Config -------------------------------
(* Settings of unidist.  A setting has a type, an environment variable and a default; the value set through the *)
(* API wins over the environment, which wins over the default.  Spelling tables give every accepted spelling    *)
(* its one meaning ("!" = rejected, which must not change anything).  Values are written as Python literals.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Depth

(* [x |-> spelling, m |-> meaning]; e: usable in the environment too (x is a Python string literal). *)
A(x, m) == [x |-> x, m |-> m, e |-> FALSE]
E(x, m) == [x |-> x, m |-> m, e |-> TRUE]
Spellings == [
  bool |-> <<A("True", "True"), A("False", "False"), E("'true'", "True"), E("' Yes '", "True"), E("'1'", "True"), E("'TRUE'", "True"),
             E("'false'", "False"), E("'NO'", "False"), E("'0'", "False"), E("'maybe'", "!"), E("''", "!"), E("'2'", "!"), A("None", "!"), A("2", "!")>>,
  int |-> <<A("5", "5"), A("0", "0"), E("'7'", "7"), E("' 8 '", "8"), E("'0012'", "12"), E("'123456789012'", "123456789012"),
            E("'abc'", "!"), E("'1.5'", "!"), E("''", "!"), E("'1 2'", "!"), A("None", "!"), A("1.5", "!"), A("[1]", "!")>>,
  float |-> <<A("0.25", "0.25"), A("0.0", "0.0"), E("'0.5'", "0.5"), E("' 2 '", "2.0"), E("'3.'", "3.0"), E("'abc'", "!"), E("'1.2.3'", "!"),
              E("''", "!"), A("None", "!"), A("[]", "!")>>,
  exact |-> <<E("'10.0.0.1'", "'10.0.0.1'"), E("' A b '", "' A b '"), E("''", "''"), E("'x;y=\"1\"'", "'x;y=\"1\"'"), A("None", "!"), A("5", "!")>>,
  backend |-> <<E("'mpi'", "'mpi'"), E("'MPI'", "'mpi'"), E("' Ray '", "'ray'"), E("'pyseq'", "'pyseq'"), E("'pymp'", "'pymp'"), E("'Dask'", "'dask'"),
                E("'spark'", "!"), E("''", "!"), E("'mpi mpi'", "!"), A("None", "!"), A("5", "!")>>
]
(* The settings of the library; default "?" = not fixed here. *)
P(n, t, v, d) == [name |-> n, ty |-> t, var |-> v, def |-> d]
Params == <<
  P("Backend", "backend", "UNIDIST_BACKEND", "'mpi'"), P("CpuCount", "int", "UNIDIST_CPUS", "?"),
  P("RayGpuCount", "int", "UNIDIST_RAY_GPUS", "None"), P("IsRayCluster", "bool", "UNIDIST_RAY_CLUSTER", "None"),
  P("RayRedisAddress", "exact", "UNIDIST_RAY_REDIS_ADDRESS", "None"), P("RayRedisPassword", "exact", "UNIDIST_RAY_REDIS_PASSWORD", "?"),
  P("RayObjectStoreMemory", "int", "UNIDIST_RAY_OBJECT_STORE_MEMORY", "None"),
  P("DaskMemoryLimit", "int", "UNIDIST_DASK_MEMORY_LIMIT", "None"), P("IsDaskCluster", "bool", "UNIDIST_DASK_CLUSTER", "None"),
  P("DaskSchedulerAddress", "exact", "UNIDIST_DASK_SCHEDULER_ADDRESS", "None"),
  P("MpiSpawn", "bool", "UNIDIST_MPI_SPAWN", "True"), P("MpiHosts", "exact", "UNIDIST_MPI_HOSTS", "None"),
  P("MpiPickleThreshold", "int", "UNIDIST_MPI_PICKLE_THRESHOLD", "262144"), P("MpiBackoff", "float", "UNIDIST_MPI_BACKOFF", "0.0001"),
  P("MpiLog", "bool", "UNIDIST_MPI_LOG", "False"), P("MpiSharedObjectStore", "bool", "UNIDIST_MPI_SHARED_OBJECT_STORE", "False"),
  P("MpiSharedObjectStoreMemory", "int", "UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY", "None"),
  P("MpiSharedServiceMemory", "int", "UNIDIST_MPI_SHARED_SERVICE_MEMORY", "None"),
  P("MpiSharedObjectStoreThreshold", "int", "UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD", "100000") >>
Fresh == {P("", t, "", IF t = "backend" THEN "'ray'" ELSE "None") : t \in DOMAIN Spellings}

Unset == "-"
(* Effective value of a setting: ev, av = meanings of environment and API value. *)
Value(def, ev, av) == IF av # Unset THEN av ELSE IF ev # Unset THEN ev ELSE def
Source(ev, av) == IF av # Unset THEN "SET_BY_USER" ELSE IF ev # Unset THEN "GOT_FROM_CFG_SOURCE" ELSE "DEFAULT"

VARIABLES par, env, api, hist
vars == <<par, env, api, hist>>
Ev == IF env = Unset THEN Unset ELSE LET t == Spellings[par.ty] IN t[CHOOSE j \in 1..Len(t) : t[j].x = env].m

Real == {Params[j] : j \in 1..Len(Params)}
Init == /\ par \in Fresh \cup Real
        /\ env \in {Unset} \cup {Spellings[par.ty][j].x : j \in {k \in 1..Len(Spellings[par.ty]) : Spellings[par.ty][k].e}}
        /\ api = Unset /\ hist = <<>>
Log(o, x, r) == hist' = Append(hist, [o |-> o, x |-> x, r |-> r])
Get == Log("get", "", Value(par.def, Ev, api)) /\ UNCHANGED <<par, env, api>>
Src == /\ ~(Ev = "!" /\ api = Unset)
       /\ Log("source", "", Source(Ev, api)) /\ UNCHANGED <<par, env, api>>
Put == \E j \in 1..Len(Spellings[par.ty]) :
         LET s == Spellings[par.ty][j] IN
         /\ Log("put", s.x, IF s.m = "!" THEN "!" ELSE "ok")
         /\ api' = IF s.m = "!" THEN api ELSE s.m
         /\ UNCHANGED <<par, env>>
Lim == IF par.name = "" THEN Depth ELSE Depth - 1
Next == \/ Len(hist) < Lim /\ (Get \/ Src \/ Put)
        \/ Len(hist) = Lim /\ Get
        \/ Len(hist) = Lim + 1 /\ Src
Spec == Init /\ [][Next]_vars

(* A rejected value never shows up, and the API wins. *)
Rules == /\ api # "!"
         /\ (api # Unset => Value(par.def, Ev, api) = api)
         /\ \A j \in 1..Len(hist) : hist[j].o = "put" /\ hist[j].r = "!" =>
              \A k \in (j + 1)..Len(hist) : hist[k].o = "get" => \E l \in 1..Len(Spellings[par.ty]) :
                 hist[k].r \in {"!", par.def, Spellings[par.ty][l].m}
Final == Len(hist) = Lim + 2 \/ (Len(hist) = Lim + 1 /\ Ev = "!" /\ api = Unset)
Emit == Final => PrintT(ToJson([name |-> par.name, ty |-> par.ty, var |-> par.var, def |-> par.def, env |-> env, hist |-> hist]))
=============================================================================
