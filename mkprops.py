#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
M = "unidist/core/backends/mpi/core/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "A task's result is the value its inputs determine, on any schedule",
  "For every program of remote calls on the MPI backend, getting a result reference returns exactly the value obtained by applying the function to the values of its arguments, whether those arguments are plain values, references, keyword arguments or (for remote functions) references nested in lists, tuples and dicts, and whichever process produced them. The outcome does not depend on the number of workers, message timing or order of completion.",
  ["programs", "schedules", "configurations"],
  "all acyclic programs of remote calls over references, all message/worker interleavings, all worker counts and store settings",
  "The tests run a handful of one- or two-step programs on whatever schedule real MPI happens to produce; they never vary timing, worker count or nesting.",
  [M+"controller/api.py", M+"controller/common.py", M+"worker/task_store.py", M+"worker/loop.py", M+"worker/request_store.py", M+"common.py"],
  [("push data / owner before the task", M+"controller/common.py:push_data"),
   ("argument materialisation", M+"common.py:materialize_data_ids"),
   ("pending tasks re-examined when data arrives", M+"worker/task_store.py:check_pending_tasks")],
  [("pending tasks", "calls whose arguments are not all local", M+"worker/task_store.py"),
   ("owner map", "which rank holds a reference's value", M+"local_object_store.py")],
  ["value returned by get", "arguments seen by the user function"])
p("C02", "Every remote call runs exactly once, and only after its inputs exist",
  "Every submitted remote call or actor call starts exactly once on exactly one worker, never zero times and never twice, as long as the system is not shut down. A call starts only after every call that produces one of its arguments has finished.",
  ["programs", "schedules", "histories"],
  "all programs and interleavings of task, data and request messages, with and without failing calls",
  "Existing tests only look at returned values; a duplicated or skipped side effect with the right value is invisible, and out-of-order starts need particular timings.",
  [M+"worker/task_store.py", M+"worker/loop.py", M+"controller/api.py", M+"controller/actor.py"],
  [("task removed from the pending list when executed", M+"worker/task_store.py:check_pending_tasks"),
   ("one EXECUTE message per submit", M+"controller/api.py:submit")],
  observe=["start/end of user functions (logged from inside them)"])
p("C03", "Getting a result never hangs once its computation can finish",
  "If every remote call needed by a reference terminates, then getting the reference, alone or in a list, always returns, for every dependency shape, number of workers, data size and message timing, and independently of MPI's internal buffering of small messages. No sequence of earlier API calls leaves a runnable call stuck forever.",
  ["programs", "schedules", "configurations"],
  "all terminating programs issued by the controller process, all interleavings, eager and rendezvous sends",
  "Tests observe one schedule with generous timeouts; lost wake-ups and circular waits need particular arrival orders.",
  [M+"worker/task_store.py", M+"worker/request_store.py", M+"worker/loop.py", M+"controller/common.py", M+"monitor/loop.py", M+"async_operations.py"],
  [("pending GET requests answered when output appears", M+"worker/request_store.py:check_pending_get_requests"),
   ("pending tasks woken by arriving data", M+"worker/loop.py:worker_loop"),
   ("data request de-duplication", M+"worker/request_store.py:is_data_already_requested")],
  observe=["quiescence of all processes with an API call outstanding"])
p("C04", "wait returns exactly the requested number of finished references",
  "A wait on n distinct references for k <= n returns two lists that together contain exactly the given references, each once, with exactly k in the first list, and every reference in the first list has a finished (successful or failed) computation at that moment. The call returns as soon as at least k of them are finished, does not block on the others, and leaves the caller's own list untouched.",
  ["inputs", "schedules", "histories"],
  "all lists of references (finished, pending, failed, put objects, outputs of multi-return tasks and actors), all k, all completion orders, repeated waits",
  "Tests wait on one or two successful tasks; completion order, failed tasks, already finished references and successive waits are not varied.",
  ["unidist/core/base/backend.py", M+"controller/api.py", M+"monitor/loop.py", "unidist/core/backends/pymp/core/object_store.py", "unidist/core/backends/pyseq/backend.py", "unidist/core/backends/dask/backend.py", "unidist/core/backends/ray/backend.py"],
  [("completed IDs tracked by the monitor", M+"monitor/loop.py:DataIDTracker"), ("wait handler", M+"monitor/loop.py:WaitHandler")],
  [("completed ids", "outputs reported by finished tasks", M+"monitor/loop.py")],
  ["return of wait against the logged ends of user functions"])
p("C05", "A failing call surfaces its exception and harms nothing else",
  "If a remote or actor call raises an exception (a subclass of Exception that survives pickling), every get of any of its result references, including a repeated get of the same reference and gets of every call that consumes it, raises the same exception type and message, and consumers never run. Calls that do not depend on the failed one complete normally, and the workers keep serving later calls; this also holds for exceptions, arguments and results that cannot be pickled, except that the reported exception may then be a different one.",
  ["programs", "fault_sequences", "schedules"],
  "all programs with any subset of calls failing, any number of returns, any dependency shape and schedule",
  "Tests cover one failing call and one get; propagation chains, several returns, zero returns, list gets and repeated gets are not combined.",
  [M+"worker/task_store.py", M+"controller/common.py", M+"controller/api.py", M+"object_store.py", "unidist/core/backends/pymp/core/process_manager.py", "unidist/core/backends/pyseq/core/api.py"],
  [("exception stored as the output value", M+"worker/task_store.py:execute_received_task"),
   ("exception re-raised on receipt", M+"controller/common.py:request_worker_data")],
  observe=["exceptions raised by get", "starts of dependent functions"])
p("C06", "An actor is one object whose calls run one at a time in order",
  "All calls made through any handle of an actor act on the same single instance, created exactly once; its ordinary (non-async) methods never overlap, and on the MPI, multiprocessing and sequential backends calls issued by one caller whose arguments are already available execute in the order they were issued. Calls to one actor never change the state of another actor, even of the same class.",
  ["programs", "schedules"],
  "all interleavings of calls to several actors of the same and different classes, from the controller and from tasks holding a handle",
  "Tests create one actor and call it a few times; instance confusion, lost updates and overtaking need several actors and adversarial timing.",
  [M+"controller/actor.py", M+"worker/loop.py", M+"worker/task_store.py", "unidist/core/backends/mpi/actor.py", "unidist/core/base/actor.py", "unidist/core/backends/pymp/core/actor.py"],
  [("actor map keyed by handle", M+"worker/loop.py:actor_map"), ("handle pickling", M+"controller/actor.py:Actor.__reduce__")],
  [("actor_map", "instances living on a worker", M+"worker/loop.py")],
  ["state returned by actor methods", "start/end of methods logged from inside them"])
p("C07", "Async actor methods finish and interleave only at await points",
  "Every async actor method that can finish does finish, its result becomes available to gets, waits and dependent calls, and its failure is reported like that of a normal call. While one async method is suspended, other methods of the same actor and other calls can make progress, so methods that wait for each other complete.",
  ["programs", "schedules"],
  "all mixtures of async and normal actor calls, suspension patterns, failures, return counts and dependents",
  "The tests contain one async actor scenario with a fixed order; failing coroutines, dependents and waits on coroutine outputs are never exercised.",
  [M+"worker/task_store.py", M+"worker/loop.py"],
  [("background asyncio task per coroutine call", M+"worker/task_store.py:execute_received_task"),
   ("event loop keeps running while waiting for messages", M+"worker/loop.py:async_wrap")],
  observe=["get/wait on coroutine outputs"])
p("C08", "Actors get a worker of their own; tasks go round the free workers",
  "While any handle of an actor is alive in the process that created it, no ordinary task and no other actor of that process is placed on its worker; once all its handles are gone the worker is used for tasks again. Tasks are placed cyclically over all remaining workers, never on the controller, on a service process or on the process that submits them, and submission fails with an error, not a hang, when no worker is left.",
  ["programs", "histories"],
  "all sequences of creating, copying, passing and dropping actor handles mixed with task submissions, from controller and workers",
  "Tests never inspect placement; a leaked or double-released reservation only shows after particular handle life cycles.",
  [M+"controller/common.py", M+"controller/actor.py", M+"communication.py", "unidist/core/backends/pymp/core/process_manager.py", "unidist/core/backends/pymp/core/actor.py"],
  [("RoundRobin reserve/release", M+"controller/common.py:RoundRobin"), ("handle destructor", M+"controller/actor.py:Actor.__del__")],
  [("reserved ranks", "workers held by live actor handles", M+"controller/common.py")],
  ["rank on which the user function runs"])
p("C09", "num_returns fixes the shape and position of results",
  "On every backend, a call with num_returns = 0 returns None and still runs, 1 returns one reference, and n > 1 returns n references of which the i-th yields the i-th element of the returned sequence, for plain tasks, actor methods and per-call overrides alike. Failing calls make every one of their n references raise.",
  ["inputs", "programs", "configurations"],
  "all n, call kinds, overrides, consumers of single elements, all backends",
  "Tests check n in {0,1,2} for one successful call each.",
  ["unidist/core/base/remote_function.py", "unidist/core/base/actor.py", "unidist/core/backends/mpi/remote_function.py", "unidist/core/backends/mpi/actor.py", M+"local_object_store.py", M+"worker/task_store.py", "unidist/core/backends/pymp/core/api.py", "unidist/core/backends/pyseq/core/api.py", "unidist/core/backends/dask/remote_function.py", "unidist/core/backends/ray/remote_function.py"],
  [("output ID generation", M+"local_object_store.py:generate_output_data_id"), ("zip of outputs and IDs", M+"worker/task_store.py:execute_received_task")],
  observe=["shape of remote()'s return", "get of each reference"])
p("C10", "A put object is an immutable snapshot of the value at put time",
  "On the MPI backend a reference returned by put, and an argument passed by value, denote the value at the moment of the call: later in-place changes of the original object by the caller are never visible to any get or task. The same reference yields equal values however often, wherever and through whatever path (controller, first or later task, another worker, shared memory) it is read, as long as no receiver modifies a received object in place.",
  ["inputs", "histories", "schedules", "configurations"],
  "all put/mutate/get/submit sequences, object kinds with and without out-of-band buffers, sizes around the thresholds, shared store on and off",
  "Tests put once and read once along one path.",
  [M+"controller/api.py", M+"local_object_store.py", M+"object_store.py", M+"serialization.py", M+"shared_object_store.py", M+"controller/common.py"],
  [("copy of out-of-band buffers", M+"local_object_store.py:cache_serialized_data"), ("serialisation at put", M+"controller/api.py:put"), ("read-only views of shared data", M+"shared_object_store.py:_read_from_shared_buffer")],
  [("serialization cache", "bytes of locally put objects", M+"local_object_store.py")],
  ["values read in get and in tasks"])
p("C11", "Reclaiming dropped references never loses data still needed",
  "Dropping references and the background clean-up it triggers never affects an object that is still reachable: every live reference, and every argument of an already submitted call even if its reference was dropped right after submission, still yields its value, at any later time. Clean-up never makes an unrelated get, wait or call fail or hang.",
  ["histories", "schedules"],
  "all interleavings of submissions, drops, completion reports and clean-up rounds, including actor calls",
  "Clean-up needs more than ten dropped references, a counter multiple and a one second pause; the tests barely reach it and never race it with pending work.",
  [M+"controller/garbage_collector.py", M+"local_object_store.py", M+"common.py", M+"worker/loop.py", M+"monitor/loop.py", M+"monitor/shared_memory_manager.py", M+"controller/actor.py", M+"controller/api.py"],
  [("clean-up only when all submitted tasks are executed", M+"controller/garbage_collector.py:regular_cleanup"),
   ("strong references to foreign IDs until CLEANUP", M+"local_object_store.py:maybe_update_data_id_map")],
  [("submitted/executed counters", "quiescence test for clean-up", M+"controller/garbage_collector.py")],
  ["values of live references after clean-up"])
p("C12", "Memory of dropped objects is eventually reclaimed",
  "On the MPI backend, when the program keeps calling the API for long enough for the periodic clean-up to run and all submitted calls have finished, the data of every object created by the controller program whose references are gone is released in all processes and in shared memory, whatever mix of tasks, puts, actor calls and failures was executed (actor instances themselves are kept). Shared memory freed in this way is available to later objects, so a program whose live data stays bounded and that gives the clean-up time to run never exhausts the store.",
  ["histories"],
  "all histories of puts, tasks, actor calls, failures and drops followed by continued API use",
  "No test observes the memory of workers or the free list.",
  [M+"controller/garbage_collector.py", M+"local_object_store.py", M+"common.py", M+"monitor/shared_memory_manager.py", M+"shared_object_store.py", M+"controller/actor.py"],
  [("cleanup list and thresholds", M+"controller/garbage_collector.py"), ("shared reference counts", M+"shared_object_store.py"), ("weak-key stores", M+"local_object_store.py")],
  observe=["objects alive on workers", "occupied shared memory"])
p("C13", "Shared-memory ranges are disjoint, in bounds and reusable",
  "At every moment the ranges handed out for live shared objects and for their bookkeeping slots lie inside the configured memory and do not overlap, and free plus used memory always add up to the whole. Released ranges merge with neighbouring free ranges, so a request succeeds whenever a contiguous free gap of that size exists, and a request that cannot be met fails without consuming or corrupting anything.",
  ["histories", "inputs"],
  "all sequences of reservations and releases of any sizes",
  "Only a few fixed sequences are executed indirectly; merge cases on both sides and failure paths are not reached.",
  [M+"monitor/shared_memory_manager.py"],
  [("free list", M+"monitor/shared_memory_manager.py:FreeMemoryRange"), ("reservations", M+"monitor/shared_memory_manager.py:SharedMemoryManager")],
  [("range", "sorted list of free gaps", M+"monitor/shared_memory_manager.py")],
  ["reservation results"])
p("C14", "A shared object is complete and stays intact while anyone can read it",
  "With the shared object store on, no process ever observes partially written, stale or foreign bytes of an object: whatever host it runs on, it reads exactly what the producer stored. The bytes stay in place as long as any process on any host still holds the object or a value obtained from it, and are recycled only afterwards, under every interleaving of readers, writers, reference drops and clean-up.",
  ["schedules", "histories", "configurations"],
  "all interleavings of put, transfer, cross-host copy, reference counting and clean-up, one or several hosts",
  "Tests run on one host, with real timing, and with few shared objects that are never recycled.",
  [M+"shared_object_store.py", M+"monitor/shared_memory_manager.py", M+"monitor/loop.py", M+"controller/common.py", M+"communication.py"],
  [("service info written after data", M+"shared_object_store.py:_put_service_info"), ("locked reference counts", M+"shared_object_store.py:WinLock"), ("agreement of monitors before release", M+"monitor/shared_memory_manager.py:clear")],
  [("service slot", "owner, number, offset, reference count", M+"shared_object_store.py")],
  ["values read by tasks and gets"])
p("C15", "Shutdown always stops every process, exactly once",
  "On the MPI backend, calling shutdown, or just ending the controller program, at any moment after initialisation - with tasks running, pending on arguments, actors alive or requests unanswered - returns, and every worker and service process then terminates by itself without an error; calls that have not started by then may be dropped but none starts afterwards. A second shutdown is harmless.",
  ["schedules", "crash_points", "histories"],
  "all states of the cluster at the moment shutdown is called, all interleavings of in-flight messages, one or several hosts",
  "The test harness kills leftover processes, so a hang at exit is invisible; pending work at shutdown is never tested.",
  [M+"controller/api.py", M+"worker/loop.py", M+"monitor/loop.py", M+"async_operations.py", M+"shared_object_store.py", "unidist/core/backends/mpi/backend.py"],
  [("CANCEL / READY_TO_SHUTDOWN / SHUTDOWN handshake", M+"worker/loop.py; " + M + "monitor/loop.py"), ("atexit handler", M+"controller/api.py:_termination_handler")],
  observe=["exit of every process"])
p("C16", "Values cross process boundaries unchanged",
  "Any picklable Python value - nested containers, numpy and pandas objects of any size, dtype and layout, functions, classes, big integers, bytes - has the same type and value after put, get, being an argument, or being returned, on the MPI backend, provided it has no cycles or extreme nesting and is not itself an exception instance. This holds on both sides of every size threshold and however a buffer is split into blocks for transport.",
  ["inputs", "configurations"],
  "all values, all thresholds, block sizes and transport paths",
  "Tests send a few small values and one array; threshold edges and mixtures of in-band and out-of-band buffers are not enumerated.",
  [M+"serialization.py", M+"communication.py", M+"local_object_store.py", M+"object_store.py", M+"shared_object_store.py", M+"memory/memory.cpp", M+"memory/_memory.pyx"],
  [("msgpack + pickle5 + cloudpickle encoding", M+"serialization.py:ComplexDataSerializer"), ("block partition", M+"communication.py:mpi_isend_buffer"), ("parallel copy", M+"memory/memory.cpp:parallel_memcopy")],
  observe=["value received by the consumer"])
p("C17", "Configuration is resolved by fixed rules and is equal on all processes",
  "A setting made through the configuration API wins over its environment variable, which wins over the default; every accepted spelling of a value has one meaning, and a value outside the accepted form or choices is rejected without changing the setting. Worker and service processes started by the controller run with the same effective settings and requested environment variables as the controller.",
  ["configurations", "inputs", "histories"],
  "all settings, value spellings, and sequences of set/read operations, both ways of starting the workers",
  "Tests touch few parameters and never read the configuration inside spawned processes.",
  ["unidist/config/parameter.py", "unidist/config/backends/mpi/envvars.py", "unidist/config/backends/common/envvars.py", "unidist/config/backends/dask/envvars.py", "unidist/config/backends/ray/envvars.py", M+"controller/api.py"],
  [("typed parameters", "unidist/config/parameter.py:Parameter"), ("start-up program of spawned processes", M+"controller/api.py:init")],
  observe=["Parameter.get in controller and workers", "os.environ in workers"])
p("C18", "The same program gives the same answers on every backend",
  "A program that only uses the public API (remote functions, actors, put, get, wait, reference arguments, num_returns, exceptions) produces the same values, the same exceptions at the same calls and the same result shapes on the sequential, multiprocessing, Dask, Ray and MPI backends. Reference arguments given positionally or by keyword reach the function as their values on all of them.",
  ["programs", "configurations"],
  "all programs of the common API subset, all backends",
  "Each backend is tested separately with the same tiny assertions; combinations are not.",
  ["unidist/api.py", "unidist/core/base/backend.py", "unidist/core/base/common.py", "unidist/core/base/actor.py", "unidist/core/base/remote_function.py", "unidist/core/backends/pyseq/core/api.py", "unidist/core/backends/pymp/core/api.py", "unidist/core/backends/pymp/core/object_store.py", "unidist/core/backends/dask/backend.py", "unidist/core/backends/dask/actor.py", "unidist/core/backends/ray/backend.py"],
  [("backend proxy", "unidist/core/base/backend.py:BackendProxy"), ("argument unwrapping", "unidist/core/base/common.py:filter_arguments")],
  observe=["results of the public API"])
p("C19", "get on a list returns values in list order, duplicates included",
  "get on a list of references returns a list of the same length whose i-th element is the value of the i-th reference, for any mixture of local, remote, shared, repeated and already fetched references and any arrival order of the answers; get on one reference returns just the value. If some of them failed, one of their exceptions is raised and later gets on the remaining references still work.",
  ["inputs", "schedules", "histories"],
  "all lists (order, repetition, mixture), all arrival orders, all earlier gets",
  "Tests get short lists without repetition and with one arrival order.",
  [M+"controller/api.py", M+"controller/common.py", "unidist/core/base/backend.py"],
  [("one request per missing reference, answers from any source", M+"controller/common.py:request_worker_data")],
  observe=["return value of get"])
p("C20", "Tasks and actors can themselves submit, put, get and share references",
  "On the MPI backend a task or actor method may put objects, submit further calls, get their results and receive actor handles and use them; the values are the same as if the controller had done so, and references it created stay valid while it holds them. A worker that is inside such a call still receives its answers, and they are never mixed up with data sent to it for other calls.",
  ["programs", "schedules"],
  "all nested programs whose nested calls land on workers that are not themselves blocked waiting, all interleavings",
  "Two tests nest one call; races between answers for the nested call and ordinary traffic to the same worker are not reached.",
  [M+"controller/common.py", M+"worker/request_store.py", M+"controller/api.py", M+"local_object_store.py", M+"controller/actor.py"],
  [("separate tag for blocking answers", M+"communication.py:_send_complex_data_impl"), ("blocking flag in GET", M+"worker/request_store.py:process_get_request"), ("scheduling never targets the submitting process", M+"controller/common.py:RoundRobin")],
  observe=["values seen inside nested calls and by the controller"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
