From 2d81868248f995a10cd8c1b1801ae711973f4055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:02 +0000
Subject: [PATCH 01/48] fix: do not drain cached out-of-band buffers on
 de-serialization

---
 unidist/core/backends/mpi/core/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index cb6d4d2..4c3962c 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -121,7 +121,9 @@ class ComplexDataSerializer:
     PICKLE_THRESHOLD = MpiPickleThreshold.get()
 
     def __init__(self, buffers=None, buffer_count=None):
-        self.buffers = buffers if buffers else []
+        # Make a copy since the buffers get removed from the list when de-serializing,
+        # whereas the passed list may belong to the serialization cache.
+        self.buffers = list(buffers) if buffers else []
         self.buffer_count = list(buffer_count) if buffer_count else []
         self._callback_counter = 0
 
-- 
2.43.0


From 466093d1b13cbac5caad7a95712b2b82413d65c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:02 +0000
Subject: [PATCH 02/48] fix: get of duplicated remote data IDs hangs in MPI
 backend

---
 unidist/core/backends/mpi/core/controller/api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 2352392..45c6280 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -415,9 +415,12 @@ def get(data_ids):
     is_list = isinstance(data_ids, list)
     if not is_list:
         data_ids = [data_ids]
-    remote_data_ids = [
-        data_id for data_id in data_ids if not object_store.contains(data_id)
-    ]
+    # Request every remote data only once even if its ID is duplicated in `data_ids`
+    remote_data_ids = list(
+        dict.fromkeys(
+            data_id for data_id in data_ids if not object_store.contains(data_id)
+        )
+    )
     # Remote data gets available in the local store inside `request_worker_data`
     if remote_data_ids:
         request_worker_data(remote_data_ids)
-- 
2.43.0


From 5364f4b5b9758a4e51f016335094ac4d90188464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:26 +0000
Subject: [PATCH 03/48] fix: shutdown hangs in MPI backend if the root monitor
 is not rank 1

---
 unidist/core/backends/mpi/core/controller/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 45c6280..f79e3ce 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -328,7 +328,7 @@ def shutdown():
         # Make sure that monitor has sent the shutdown signal to all workers.
         op_type = communication.mpi_recv_object(
             mpi_state.global_comm,
-            communication.MPIRank.MONITOR,
+            mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
         )
         if op_type != common.Operation.SHUTDOWN:
             raise ValueError(f"Got wrong operation type {op_type}.")
-- 
2.43.0


From 6270522fcfa16f160e064de6d33e5b153d455363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:26 +0000
Subject: [PATCH 04/48] fix: repeated get of a failed task returns the
 exception object in MPI backend

---
 unidist/core/backends/mpi/core/controller/api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index f79e3ce..298a32f 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -412,6 +412,7 @@ def get(data_ids):
         A Python object.
     """
     object_store = ObjectStore.get_instance()
+    local_store = LocalObjectStore.get_instance()
     is_list = isinstance(data_ids, list)
     if not is_list:
         data_ids = [data_ids]
@@ -428,6 +429,10 @@ def get(data_ids):
     logger.debug("GET {} ids".format(common.unwrapped_data_ids_list(data_ids)))
 
     values = [object_store.get(data_id) for data_id in data_ids]
+    # A result that has been fetched before can be an exception of a failed task
+    for data_id, value in zip(data_ids, values):
+        if isinstance(value, Exception) and local_store.contains_data_owner(data_id):
+            raise value
 
     # Initiate reference count based cleaup
     # if all the tasks were completed
-- 
2.43.0


From d74b3dd773f37617302f01ed88f125648c0e1f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:24 +0000
Subject: [PATCH 05/48] fix: a failed task with num_returns=0 crashes the
 worker in MPI backend

---
 unidist/core/backends/mpi/core/worker/task_store.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index f9be5c5..3096f80 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -263,7 +263,7 @@ class TaskStore:
                     ):
                         for output_id in output_data_ids:
                             local_store.put(output_id, e)
-                    else:
+                    elif output_data_ids is not None:
                         local_store.put(output_data_ids, e)
                 else:
                     if output_data_ids is not None:
@@ -352,7 +352,7 @@ class TaskStore:
                 ):
                     for output_id in output_data_ids:
                         local_store.put(output_id, e)
-                else:
+                elif output_data_ids is not None:
                     local_store.put(output_data_ids, e)
             else:
                 if output_data_ids is not None:
-- 
2.43.0


From 001c811c0a94740f8bf519fb9bf3841f02075d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:24 +0000
Subject: [PATCH 06/48] fix: results of failed tasks never get ready for wait
 in MPI backend

---
 unidist/core/backends/mpi/core/worker/task_store.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 3096f80..05ab6c3 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -233,6 +233,7 @@ class TaskStore:
         if inspect.iscoroutinefunction(task):
 
             async def execute():
+                nonlocal completed_data_ids
                 try:
                     w_logger.debug("- Start task execution -")
 
@@ -263,8 +264,10 @@ class TaskStore:
                     ):
                         for output_id in output_data_ids:
                             local_store.put(output_id, e)
+                        completed_data_ids = list(output_data_ids)
                     elif output_data_ids is not None:
                         local_store.put(output_data_ids, e)
+                        completed_data_ids = [output_data_ids]
                 else:
                     if output_data_ids is not None:
                         if (
@@ -352,8 +355,10 @@ class TaskStore:
                 ):
                     for output_id in output_data_ids:
                         local_store.put(output_id, e)
+                    completed_data_ids = list(output_data_ids)
                 elif output_data_ids is not None:
                     local_store.put(output_data_ids, e)
+                    completed_data_ids = [output_data_ids]
             else:
                 if output_data_ids is not None:
                     if (
-- 
2.43.0


From dfb80df5a17ade0da9321065970e8cffb13b28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:01 +0000
Subject: [PATCH 07/48] fix: failed arguments nested in containers do not fail
 the task in MPI backend

---
 .../core/backends/mpi/core/worker/task_store.py  | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 05ab6c3..2628a78 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -444,11 +444,16 @@ class TaskStore:
             "REMOTE outputs: {}".format(common.unwrapped_data_ids_list(output_ids))
         )
 
+        def unwrap_data_id(arg):
+            value, is_pending = self.unwrap_local_data_id(arg)
+            if is_data_id(arg) and isinstance(value, Exception):
+                # The data ID may be nested in a container
+                request.setdefault("exception", value)
+            return value, is_pending
+
         # DataID -> real data
-        args, is_pending = common.materialize_data_ids(args, self.unwrap_local_data_id)
-        kwargs, is_kw_pending = common.materialize_data_ids(
-            kwargs, self.unwrap_local_data_id
-        )
+        args, is_pending = common.materialize_data_ids(args, unwrap_data_id)
+        kwargs, is_kw_pending = common.materialize_data_ids(kwargs, unwrap_data_id)
 
         w_logger.debug("Is pending - {}".format(is_pending))
 
@@ -457,6 +462,9 @@ class TaskStore:
             request["kwargs"] = kwargs
             return request
         else:
+            if "exception" in request:
+                # One of the arguments has failed so the task has to fail as well
+                args, kwargs = [request["exception"]], {}
             self.execute_received_task(output_ids, task, args, kwargs)
             if output_ids is not None:
                 RequestStore.get_instance().check_pending_get_requests(output_ids)
-- 
2.43.0


From 0eef810c501d57b6e1c221073fb196015ed0b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:02 +0000
Subject: [PATCH 08/48] fix: account actor tasks in the submitted task counter
 in MPI backend

---
 unidist/core/backends/mpi/core/controller/actor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/actor.py b/unidist/core/backends/mpi/core/controller/actor.py
index cb994e6..795f7a3 100644
--- a/unidist/core/backends/mpi/core/controller/actor.py
+++ b/unidist/core/backends/mpi/core/controller/actor.py
@@ -61,6 +61,10 @@ class ActorMethod:
             is_serialized=False,
         )
         async_operations.extend(h_list)
+
+        # Track the task execution
+        garbage_collector.increment_task_counter()
+
         return output_id
 
 
-- 
2.43.0


From 4b29c2f9f713a899f2661a6014dc4e0005fd3c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:02 +0000
Subject: [PATCH 09/48] fix: blocking get hangs if the data has already been
 pushed to the requester in MPI backend

---
 unidist/core/backends/mpi/core/controller/common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index 6d6f368..d0d19e4 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -252,8 +252,9 @@ def _push_local_data(dest_rank, data_id, is_blocking_op, is_serialized):
     """
     local_store = LocalObjectStore.get_instance()
 
-    # Check if data was already pushed
-    if not local_store.is_already_sent(data_id, dest_rank):
+    # Check if data was already pushed.
+    # The requester of the blocking operation always waits for the response.
+    if is_blocking_op or not local_store.is_already_sent(data_id, dest_rank):
         logger.debug("PUT LOCAL {} id to {} rank".format(data_id._id, dest_rank))
 
         mpi_state = communication.MPIState.get_instance()
@@ -310,8 +311,9 @@ def _push_shared_data(dest_rank, data_id, is_blocking_op):
         even for a worker since it can get into controller mode.
     """
     local_store = LocalObjectStore.get_instance()
-    # Check if data was already pushed
-    if not local_store.is_already_sent(data_id, dest_rank):
+    # Check if data was already pushed.
+    # The requester of the blocking operation always waits for the response.
+    if is_blocking_op or not local_store.is_already_sent(data_id, dest_rank):
         mpi_state = communication.MPIState.get_instance()
         shared_store = SharedObjectStore.get_instance()
         mpi_state = communication.MPIState.get_instance()
-- 
2.43.0


From 6d27c1ba91578d81027029131f047666133ed0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:00 +0000
Subject: [PATCH 10/48] fix: pending tasks are not woken up by data produced in
 the same worker in MPI backend

---
 unidist/core/backends/mpi/core/worker/loop.py  | 16 ++++++----------
 .../backends/mpi/core/worker/task_store.py     | 18 ++++++++++++++++++
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 5515ff5..d762954 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -119,7 +119,7 @@ async def worker_loop():
                     task_store.put(pending_request)
                 else:
                     # Check pending requests. Maybe some data became available.
-                    task_store.check_pending_tasks()
+                    task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.GET:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -140,10 +140,8 @@ async def worker_loop():
                 # Discard data request to another worker, if data has become available
                 request_store.discard_data_request(request["id"])
 
-                # Check pending requests. Maybe some data became available.
-                task_store.check_pending_tasks()
-                # Check pending actor requests also.
-                task_store.check_pending_actor_tasks()
+                # Check pending requests including actor ones. Maybe some data became available.
+                task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.PUT_OWNER:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -162,10 +160,8 @@ async def worker_loop():
             # Clear cached request to another worker, if data_id became available
             request_store.discard_data_request(result["id"])
 
-            # Check pending requests. Maybe some data became available.
-            task_store.check_pending_tasks()
-            # Check pending actor requests also.
-            task_store.check_pending_actor_tasks()
+            # Check pending requests including actor ones. Maybe some data became available.
+            task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.WAIT:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -198,7 +194,7 @@ async def worker_loop():
                     task_store.put_actor(pending_actor_request)
                 else:
                     # Check pending requests. Maybe some data became available.
-                    task_store.check_pending_actor_tasks()
+                    task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.CLEANUP:
             cleanup_list = communication.recv_serialized_data(
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 2628a78..fc775d2 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -120,6 +120,22 @@ class TaskStore:
                     updated_list.append(pending_request)
             self._pending_actor_tasks_list = updated_list
 
+    def check_all_pending_tasks(self):
+        """
+        Check both pending tasks and pending actor tasks until none of them can be executed.
+
+        A task executed during the check may produce data other pending tasks depend on.
+        """
+        pending_count = None
+        while pending_count != len(self._pending_tasks_list) + len(
+            self._pending_actor_tasks_list
+        ):
+            pending_count = len(self._pending_tasks_list) + len(
+                self._pending_actor_tasks_list
+            )
+            self.check_pending_tasks()
+            self.check_pending_actor_tasks()
+
     def clear_pending_actor_tasks(self):
         """
         Clear a list of pending actor task execution requests.
@@ -317,6 +333,8 @@ class TaskStore:
                     completed_data_ids,
                     root_monitor,
                 )
+                # Pending tasks may depend on the output data of the coroutine.
+                self.check_all_pending_tasks()
 
             async_task = asyncio.create_task(execute())
             # Add task to the set. This creates a strong reference.
-- 
2.43.0


From 33b2c7ac3d2cb04d2917e3d636c1f12bb670005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:04 +0000
Subject: [PATCH 11/48] fix: get of a result of a pending async actor method
 hangs in MPI backend

---
 unidist/core/backends/mpi/core/worker/request_store.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/request_store.py b/unidist/core/backends/mpi/core/worker/request_store.py
index 89703cf..58825c5 100644
--- a/unidist/core/backends/mpi/core/worker/request_store.py
+++ b/unidist/core/backends/mpi/core/worker/request_store.py
@@ -146,18 +146,18 @@ class RequestStore:
         def check_request(data_id):
             # Check non-blocking data requests for one of the workers
             if data_id in self._nonblocking_get_requests:
-                ranks_with_get_request = self._nonblocking_get_requests[data_id]
+                # The request gets back to the store if the data is not available yet
+                ranks_with_get_request = self._nonblocking_get_requests.pop(data_id)
                 for rank_num in ranks_with_get_request:
                     # Data is already in DataMap, so not problem here
                     self.process_get_request(rank_num, data_id, is_blocking_op=False)
-                del self._nonblocking_get_requests[data_id]
             # Check blocking data requests for other of the workers
             if data_id in self._blocking_get_requests:
-                ranks_with_get_request = self._blocking_get_requests[data_id]
+                # The request gets back to the store if the data is not available yet
+                ranks_with_get_request = self._blocking_get_requests.pop(data_id)
                 for rank_num in ranks_with_get_request:
                     # Data is already in DataMap, so not problem here
                     self.process_get_request(rank_num, data_id, is_blocking_op=True)
-                del self._blocking_get_requests[data_id]
 
         if isinstance(data_ids, (list, tuple)):
             for data_id in data_ids:
-- 
2.43.0


From c84d3b19f9c70884a9d4954d850c837ac8d992e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:29 +0000
Subject: [PATCH 12/48] fix: options of an actor method keep the actor alive
 after its handles are gone

---
 unidist/core/base/actor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/unidist/core/base/actor.py b/unidist/core/base/actor.py
index 7763546..9bf39c3 100644
--- a/unidist/core/base/actor.py
+++ b/unidist/core/base/actor.py
@@ -41,17 +41,20 @@ class ActorMethod:
         FuncWrapper
             An instance of wrapped method that a non-underscore .remote() can be called on.
         """
-        actor_method_cls = self._actor_method_cls
-
         class FuncWrapper:
+            # The actor must not be referenced from the class itself. Otherwise, it would be
+            # kept alive until the cyclic garbage collector gets rid of the class.
+            def __init__(self, actor_method_cls):
+                self._actor_method_cls = actor_method_cls
+
             def remote(self, *args, **kwargs):
                 args, kwargs = filter_arguments(*args, **kwargs)
 
-                return actor_method_cls._remote(
+                return self._actor_method_cls._remote(
                     *args, num_returns=num_returns, **kwargs
                 )
 
-        return FuncWrapper()
+        return FuncWrapper(self._actor_method_cls)
 
     def remote(self, *args, **kwargs):
         """
-- 
2.43.0


From 85a306d01a35a2f9091950107f96503166284fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:18 +0000
Subject: [PATCH 13/48] fix: response to a nested get is mixed up with pushed
 data in MPI backend

---
 unidist/core/backends/mpi/core/common.py       |  4 ++++
 .../core/backends/mpi/core/communication.py    | 18 ++++++++++--------
 .../backends/mpi/core/controller/common.py     |  5 ++++-
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/unidist/core/backends/mpi/core/common.py b/unidist/core/backends/mpi/core/common.py
index 8e61ab7..77dde88 100755
--- a/unidist/core/backends/mpi/core/common.py
+++ b/unidist/core/backends/mpi/core/common.py
@@ -104,12 +104,16 @@ class MPITag:
     OBJECT_BLOCKING : int, default: 114
         The tag for send/recv of a regular Python object
         to indicate the blocking get request.
+    BUFFER_BLOCKING : int, default: 115
+        The tag for send/recv of a buffer-like object
+        to indicate the blocking get request.
     """
 
     OPERATION = 111
     OBJECT = 112
     BUFFER = 113
     OBJECT_BLOCKING = 114
+    BUFFER_BLOCKING = 115
 
 
 class MetadataPackage(ImmutableDict):
diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index a864e66..94325a8 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -651,14 +651,14 @@ def _send_complex_data_impl(comm, s_data, raw_buffers, dest_rank, info_package):
     Notes
     -----
     The special tags are used for this communication, namely,
-    ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
+    ``common.MPITag.OBJECT_BLOCKING`` and ``common.MPITag.BUFFER_BLOCKING``.
     """
     # wrap to dict for sending and correct deserialization of the object by the recipient
     comm.send(dict(info_package), dest=dest_rank, tag=common.MPITag.OBJECT_BLOCKING)
     with pkl5._bigmpi as bigmpi:
-        comm.Send(bigmpi(s_data), dest=dest_rank, tag=common.MPITag.BUFFER)
+        comm.Send(bigmpi(s_data), dest=dest_rank, tag=common.MPITag.BUFFER_BLOCKING)
         for sbuf in raw_buffers:
-            comm.Send(bigmpi(sbuf), dest=dest_rank, tag=common.MPITag.BUFFER)
+            comm.Send(bigmpi(sbuf), dest=dest_rank, tag=common.MPITag.BUFFER_BLOCKING)
 
 
 def send_complex_data(comm, data, dest_rank, is_serialized=False):
@@ -813,7 +813,7 @@ def isend_complex_data(comm, data, dest_rank, is_serialized=False):
     return handlers, s_data, raw_buffers, buffer_count
 
 
-def recv_complex_data(comm, source_rank, info_package):
+def recv_complex_data(comm, source_rank, info_package, tag=common.MPITag.BUFFER):
     """
     Receive the data that may consist of different user provided complex types, lambdas and buffers.
 
@@ -827,6 +827,8 @@ def recv_complex_data(comm, source_rank, info_package):
         Source MPI process to receive data from.
     info_package : unidist.core.backends.mpi.core.common.MetadataPackage
         Required information to deserialize data.
+    tag : common.MPITag, default: common.MPITag.BUFFER
+        Tag of the messages containing the data.
 
     Returns
     -------
@@ -835,16 +837,16 @@ def recv_complex_data(comm, source_rank, info_package):
 
     Notes
     -----
-    The special tags are used for this communication, namely,
-    ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
+    The special tag is used for this communication, namely, ``common.MPITag.BUFFER``
+    or ``common.MPITag.BUFFER_BLOCKING`` for a response to the blocking get request.
     """
     msgpack_buffer = bytearray(info_package["s_data_len"])
     buffer_count = info_package["buffer_count"]
     raw_buffers = list(map(bytearray, info_package["raw_buffers_len"]))
     with pkl5._bigmpi as bigmpi:
-        comm.Recv(bigmpi(msgpack_buffer), source=source_rank, tag=common.MPITag.BUFFER)
+        comm.Recv(bigmpi(msgpack_buffer), source=source_rank, tag=tag)
         for rbuf in raw_buffers:
-            comm.Recv(bigmpi(rbuf), source=source_rank, tag=common.MPITag.BUFFER)
+            comm.Recv(bigmpi(rbuf), source=source_rank, tag=tag)
 
     return deserialize_complex_data(msgpack_buffer, raw_buffers, buffer_count)
 
diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index d0d19e4..2131334 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -128,11 +128,14 @@ def pull_data(comm, owner_rank=None):
     object
         Received data object from another MPI process.
     """
+    buffer_tag = common.MPITag.BUFFER
     if owner_rank is None:
         info_package, source = communication.mpi_iprobe_recv_object(
             comm, tag=common.MPITag.OBJECT_BLOCKING
         )
         owner_rank = source
+        # The data must not be mixed up with the data being pushed from the same source
+        buffer_tag = common.MPITag.BUFFER_BLOCKING
     else:
         info_package = communication.mpi_recv_object(comm, owner_rank)
     if info_package["package_type"] == common.MetadataPackage.SHARED_DATA:
@@ -155,7 +158,7 @@ def pull_data(comm, owner_rank=None):
     elif info_package["package_type"] == common.MetadataPackage.LOCAL_DATA:
         local_store = LocalObjectStore.get_instance()
         data = communication.recv_complex_data(
-            comm, owner_rank, info_package=info_package
+            comm, owner_rank, info_package=info_package, tag=buffer_tag
         )
         data_id = info_package["id"]
         local_store.put(data_id, data)
-- 
2.43.0


From 288e3189339cbe6e471976ddb84391610aaf2701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:18 +0000
Subject: [PATCH 14/48] fix: a remote function used before can not be called
 from a task in MPI backend

---
 unidist/core/backends/mpi/remote_function.py | 22 ++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/remote_function.py b/unidist/core/backends/mpi/remote_function.py
index a0b7c30..14bc78d 100644
--- a/unidist/core/backends/mpi/remote_function.py
+++ b/unidist/core/backends/mpi/remote_function.py
@@ -5,7 +5,6 @@
 """An implementation of ``RemoteFunction`` interface using MPI."""
 
 import unidist.core.backends.mpi.core as mpi
-from unidist.core.backends.common.data_id import is_data_id
 from unidist.core.backends.common.utils import unwrap_object_refs
 from unidist.core.base.object_ref import ObjectRef
 from unidist.core.base.remote_function import RemoteFunction
@@ -29,10 +28,25 @@ class MPIRemoteFunction(RemoteFunction):
 
     def __init__(self, function, num_cpus, num_returns, resources):
         self._remote_function = function
+        # ID of the function put into the object store of the current process
+        self._remote_function_id = None
         self._num_cpus = num_cpus
         self._num_returns = 1 if num_returns is None else num_returns
         self._resources = resources
 
+    def __getstate__(self):
+        """
+        Remove the function ID since it is valid in the current process only.
+
+        Returns
+        -------
+        dict
+            State of the object without the function ID.
+        """
+        state = self.__dict__.copy()
+        state["_remote_function_id"] = None
+        return state
+
     def _remote(self, *args, num_cpus=None, num_returns=None, resources=None, **kwargs):
         """
         Execute `self._remote_function` in a worker process.
@@ -72,11 +86,11 @@ class MPIRemoteFunction(RemoteFunction):
         unwrapped_args = [unwrap_object_refs(arg) for arg in args]
         unwrapped_kwargs = {k: unwrap_object_refs(v) for k, v in kwargs.items()}
 
-        if not is_data_id(self._remote_function):
-            self._remote_function = mpi.put(self._remote_function)
+        if self._remote_function_id is None:
+            self._remote_function_id = mpi.put(self._remote_function)
 
         data_ids = mpi.submit(
-            self._remote_function,
+            self._remote_function_id,
             *unwrapped_args,
             num_returns=num_returns,
             **unwrapped_kwargs
-- 
2.43.0


From ad52f7fff8ab5109bcafc5b2e7d9e38412f11689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:10 +0000
Subject: [PATCH 15/48] fix: tasks submitted by workers break the task
 accounting of the garbage collector in MPI backend

---
 .../core/backends/mpi/core/monitor/loop.py    | 26 +++++++++++++------
 unidist/core/backends/mpi/core/worker/loop.py |  3 +++
 .../backends/mpi/core/worker/task_store.py    | 18 ++++++++++---
 3 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/unidist/core/backends/mpi/core/monitor/loop.py b/unidist/core/backends/mpi/core/monitor/loop.py
index 7787133..0b40271 100755
--- a/unidist/core/backends/mpi/core/monitor/loop.py
+++ b/unidist/core/backends/mpi/core/monitor/loop.py
@@ -4,6 +4,8 @@
 
 """Monitoring process."""
 
+from collections import defaultdict
+
 try:
     import mpi4py
 except ImportError:
@@ -33,7 +35,8 @@ class TaskCounter:
     __instance = None
 
     def __init__(self):
-        self.task_counter = 0
+        # Number of executed tasks by the rank they were submitted from
+        self.task_counter = defaultdict(int)
 
     @classmethod
     def get_instance(cls):
@@ -48,9 +51,16 @@ class TaskCounter:
             cls.__instance = TaskCounter()
         return cls.__instance
 
-    def increment(self):
-        """Increment task counter by one."""
-        self.task_counter += 1
+    def increment(self, submitter_rank):
+        """
+        Increment task counter by one.
+
+        Parameters
+        ----------
+        submitter_rank : int
+            The rank the task was submitted from.
+        """
+        self.task_counter[submitter_rank] += 1
 
 
 class DataIDTracker:
@@ -195,11 +205,11 @@ def monitor_loop():
         )
         # Proceed the request
         if operation_type == common.Operation.TASK_DONE:
-            task_counter.increment()
-            output_data_ids = communication.mpi_recv_object(
+            operation_data = communication.mpi_recv_object(
                 mpi_state.global_comm, source_rank
             )
-            data_id_tracker.add_to_completed(output_data_ids)
+            task_counter.increment(operation_data["submitter"])
+            data_id_tracker.add_to_completed(operation_data["data_ids"])
             wait_handler.process_wait_requests()
         elif operation_type == common.Operation.WAIT:
             # TODO: WAIT request can be received from several workers,
@@ -215,7 +225,7 @@ def monitor_loop():
             # We use a blocking send here because the receiver is waiting for the result.
             communication.mpi_send_object(
                 mpi_state.global_comm,
-                task_counter.task_counter,
+                task_counter.task_counter[source_rank],
                 source_rank,
             )
         elif operation_type == common.Operation.RESERVE_SHARED_MEMORY:
diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index d762954..4cbc346 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -113,6 +113,7 @@ async def worker_loop():
         if operation_type == common.Operation.EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
             if not ready_to_shutdown_posted:
+                request["submitter"] = source_rank
                 # Execute the task if possible
                 pending_request = task_store.process_task_request(request)
                 if pending_request:
@@ -188,6 +189,8 @@ async def worker_loop():
                 actor_method = getattr(actor_map[handler], method_name)
                 request["task"] = actor_method
 
+                request["submitter"] = source_rank
+
                 # Execute the actor task if possible
                 pending_actor_request = task_store.process_task_request(request)
                 if pending_actor_request:
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index fc775d2..ba76eba 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -221,7 +221,7 @@ class TaskStore:
         else:
             return arg, False
 
-    def execute_received_task(self, output_data_ids, task, args, kwargs):
+    def execute_received_task(self, output_data_ids, task, args, kwargs, submitter_rank):
         """
         Execute a task/actor-task and handle results.
 
@@ -235,6 +235,8 @@ class TaskStore:
             Positional arguments to be passed in the `task`.
         kwargs : dict
             Keyword arguments to be passed in the `task`.
+        submitter_rank : int
+            The rank the task was submitted from.
 
         Notes
         -----
@@ -330,7 +332,10 @@ class TaskStore:
                 communication.send_simple_operation(
                     communication.MPIState.get_instance().global_comm,
                     common.Operation.TASK_DONE,
-                    completed_data_ids,
+                    {
+                        "submitter": submitter_rank,
+                        "data_ids": completed_data_ids,
+                    },
                     root_monitor,
                 )
                 # Pending tasks may depend on the output data of the coroutine.
@@ -422,7 +427,10 @@ class TaskStore:
             communication.send_simple_operation(
                 communication.MPIState.get_instance().global_comm,
                 common.Operation.TASK_DONE,
-                completed_data_ids,
+                {
+                    "submitter": submitter_rank,
+                    "data_ids": completed_data_ids,
+                },
                 root_monitor,
             )
 
@@ -483,7 +491,9 @@ class TaskStore:
             if "exception" in request:
                 # One of the arguments has failed so the task has to fail as well
                 args, kwargs = [request["exception"]], {}
-            self.execute_received_task(output_ids, task, args, kwargs)
+            self.execute_received_task(
+                output_ids, task, args, kwargs, request["submitter"]
+            )
             if output_ids is not None:
                 RequestStore.get_instance().check_pending_get_requests(output_ids)
                 RequestStore.get_instance().check_pending_wait_requests(output_ids)
-- 
2.43.0


From bd529a6ee975de3de3dce9ed7b077a54a86cdb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:42 +0000
Subject: [PATCH 16/48] fix: a failed argument is raised at submission in
 Python Sequential backend

---
 unidist/core/backends/pyseq/core/api.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/unidist/core/backends/pyseq/core/api.py b/unidist/core/backends/pyseq/core/api.py
index 84dcfbb..a9100bb 100644
--- a/unidist/core/backends/pyseq/core/api.py
+++ b/unidist/core/backends/pyseq/core/api.py
@@ -100,15 +100,16 @@ def submit(func, *args, num_returns=1, **kwargs):
     """
     obj_store = ObjectStore.get_instance()
 
-    materialized_args = [
-        obj_store.get(arg) if isinstance(arg, DataID) else arg for arg in args
-    ]
-    materialized_kwargs = {
-        key: obj_store.get(value) if isinstance(value, DataID) else value
-        for key, value in kwargs.items()
-    }
-
     try:
+        # An argument may hold an exception of a failed task, which is raised by `get`
+        # and has to become the result of this task.
+        materialized_args = [
+            obj_store.get(arg) if isinstance(arg, DataID) else arg for arg in args
+        ]
+        materialized_kwargs = {
+            key: obj_store.get(value) if isinstance(value, DataID) else value
+            for key, value in kwargs.items()
+        }
         result = func(*materialized_args, **materialized_kwargs)
     except Exception as e:
         result = [e] * num_returns if num_returns > 1 else e
-- 
2.43.0


From abaf62f7b9688f98bc203c4ed17b36251cf6db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:12 +0000
Subject: [PATCH 17/48] fix: put of a list, dict or set returns a broken
 reference in Dask backend

---
 unidist/core/backends/dask/backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/dask/backend.py b/unidist/core/backends/dask/backend.py
index 0685fa2..7afbff6 100644
--- a/unidist/core/backends/dask/backend.py
+++ b/unidist/core/backends/dask/backend.py
@@ -95,7 +95,9 @@ class DaskBackend(Backend):
         distributed.client.Future
             Dask Future matching to data.
         """
-        return get_client().scatter(data, hash=False)
+        # `data` is wrapped into a list because `scatter` handles
+        # elements of a list, tuple, dict or set separately.
+        return get_client().scatter([data], hash=False)[0]
 
     @staticmethod
     def wait(futures, num_returns=1):
-- 
2.43.0


From cc9a6de811dbd1298095576c50eff1729f55eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:12 +0000
Subject: [PATCH 18/48] fix: tasks with num_returns=0 may not be executed in
 Dask backend

---
 unidist/core/backends/dask/actor.py           | 4 +++-
 unidist/core/backends/dask/remote_function.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/dask/actor.py b/unidist/core/backends/dask/actor.py
index 73d87c7..4ad7d68 100644
--- a/unidist/core/backends/dask/actor.py
+++ b/unidist/core/backends/dask/actor.py
@@ -4,7 +4,7 @@
 
 """Actor specific functionality using Dask backend."""
 
-from distributed.client import get_client
+from distributed.client import fire_and_forget, get_client
 
 from unidist.core.base.actor import Actor, ActorMethod
 from unidist.core.base.object_ref import ObjectRef
@@ -88,6 +88,8 @@ class DaskActorMethod(ActorMethod):
                 for i in range(num_returns)
             ]
         elif num_returns == 0:
+            # The task would be cancelled because there is no reference to the future.
+            fire_and_forget(future)
             return None
 
 
diff --git a/unidist/core/backends/dask/remote_function.py b/unidist/core/backends/dask/remote_function.py
index 8102948..63a0dea 100644
--- a/unidist/core/backends/dask/remote_function.py
+++ b/unidist/core/backends/dask/remote_function.py
@@ -4,7 +4,7 @@
 
 """An implementation of ``RemoteFunction`` interface using Dask."""
 
-from distributed.client import get_client
+from distributed.client import fire_and_forget, get_client
 
 from unidist.core.base.object_ref import ObjectRef
 from unidist.core.base.remote_function import RemoteFunction
@@ -91,4 +91,6 @@ class DaskRemoteFunction(RemoteFunction):
                 for i in range(num_returns)
             ]
         elif num_returns == 0:
+            # The task would be cancelled because there is no reference to the future.
+            fire_and_forget(future)
             return None
-- 
2.43.0


From 9ab202af72f2c6d156d5af0b917c6e07b2f1608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:12 +0000
Subject: [PATCH 19/48] fix: wait returns unfinished or raises failed
 references in Python Multiprocessing backend

---
 .../core/backends/pymp/core/object_store.py   | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 8af83c8..44b414b 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -129,19 +129,15 @@ class ObjectStore:
             data_ids = [data_ids]
 
         ready = list()
-        not_ready = list()
-
-        for idx, data_id in enumerate(data_ids[:]):
-            if not isinstance(self.store_delayed[data_id], Delayed):
-                ready.append(data_ids.pop(idx))
-
-            if len(ready) == num_returns:
-                break
-
-        not_ready = data_ids
-
-        while len(ready) != num_returns:
-            self.get(not_ready[0])
-            ready.append(not_ready.pop(0))
+        not_ready = list(data_ids)
+
+        # Failed computations are considered to be completed as well.
+        while len(ready) < num_returns and not_ready:
+            for data_id in not_ready[:]:
+                if len(ready) == num_returns:
+                    break
+                if not isinstance(self.store_delayed[data_id], Delayed):
+                    not_ready.remove(data_id)
+                    ready.append(data_id)
 
         return ready, not_ready
-- 
2.43.0


From 241058e937e0b435e38a9531cd8827d3b1208eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:12 +0000
Subject: [PATCH 20/48] fix: bytes objects can not be got in Python
 Multiprocessing backend

---
 .../core/backends/pymp/core/object_store.py   | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 44b414b..7afe5e5 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -16,6 +16,20 @@ class Delayed:
     pass
 
 
+class Pickled:
+    """
+    Class-type that holds a callable in the serialized form.
+
+    Parameters
+    ----------
+    data : bytes
+        Serialized callable.
+    """
+
+    def __init__(self, data):
+        self.data = data
+
+
 class ObjectStore:
     """
     Class that stores objects and provides access to these from different processes.
@@ -66,7 +80,9 @@ class ObjectStore:
         """
         data_id = DataID() if data_id is None else data_id
 
-        self.store_delayed[data_id] = pkl.dumps(data) if callable(data) else data
+        self.store_delayed[data_id] = (
+            Pickled(pkl.dumps(data)) if callable(data) else data
+        )
         return data_id
 
     def get(self, data_ids):
@@ -101,7 +117,7 @@ class ObjectStore:
             if isinstance(value, Exception):
                 raise value
 
-            values[idx] = pkl.loads(value) if isinstance(value, bytes) else value
+            values[idx] = pkl.loads(value.data) if isinstance(value, Pickled) else value
 
         return values if is_list else values[0]
 
-- 
2.43.0


From fbd14b7ef4f486e193f2f6659696fb24147dc25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:12 +0000
Subject: [PATCH 21/48] fix: submitted methods are lost with deletion of an
 actor in Python Multiprocessing backend

---
 unidist/core/backends/pymp/core/actor.py          |  2 ++
 .../core/backends/pymp/core/process_manager.py    | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/unidist/core/backends/pymp/core/actor.py b/unidist/core/backends/pymp/core/actor.py
index 8a5b75e..da26daf 100644
--- a/unidist/core/backends/pymp/core/actor.py
+++ b/unidist/core/backends/pymp/core/actor.py
@@ -108,6 +108,8 @@ class Actor:
 
         self._cls_obj = manager.WrappedClass(*args, **kwargs)
         self._worker, self._worker_id = ProcessManager.get_instance().grab_worker()
+        # Methods can still be in the queue of the worker when the actor gets deleted.
+        self._worker.hold_actor_obj(self._cls_obj)
 
     def __getattr__(self, name):
         """
diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index 07037af..d209073 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -31,6 +31,21 @@ class Worker(Process):
         Process.__init__(self, daemon=True)
         self.task_queue = task_queue
         self._obj_store = obj_store
+        self._actor_obj = None
+
+    def hold_actor_obj(self, obj):
+        """
+        Keep the object of an actor alive until its methods submitted to this worker are executed.
+
+        Parameters
+        ----------
+        obj : multiprocessing.managers.BaseProxy
+            Object of the actor that has grabbed the worker.
+        """
+        if self._actor_obj is not None:
+            # Methods of the previous actor may not be executed yet.
+            self.task_queue.join()
+        self._actor_obj = obj
 
     def run(self):
         """Run main infinite loop of process to execute tasks from `self.task_queue`."""
-- 
2.43.0


From e2627d289a479adca5c28a240e23bd0681533210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:28 +0000
Subject: [PATCH 22/48] fix: a result that can not be stored kills the worker
 in Python Multiprocessing backend

---
 unidist/core/backends/pymp/core/process_manager.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index d209073..f8a9d3c 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -56,19 +56,19 @@ class Worker(Process):
             data_ids = task.data_ids
             try:
                 value = task()
+                if data_ids is not None:
+                    # A value, which can not be stored, makes the task failed.
+                    if isinstance(data_ids, list) and len(data_ids) > 1:
+                        for data_id, val in zip(data_ids, value):
+                            self._obj_store.put(val, data_id)
+                    else:
+                        self._obj_store.put(value, data_ids)
             except Exception as e:
                 if isinstance(data_ids, list) and len(data_ids) > 1:
                     for i, data_id in enumerate(data_ids):
                         self._obj_store.store_delayed[data_id] = e
                 else:
                     self._obj_store.store_delayed[data_ids] = e
-            else:
-                if data_ids is not None:
-                    if isinstance(data_ids, list) and len(data_ids) > 1:
-                        for data_id, val in zip(data_ids, value):
-                            self._obj_store.store_delayed[data_id] = val
-                    else:
-                        self._obj_store.store_delayed[data_ids] = value
             finally:
                 self.task_queue.task_done()
         return
-- 
2.43.0


From 7450a0ff50bfa58bfb833c02a4de4ce2c6989c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:39 +0000
Subject: [PATCH 23/48] fix: a result that can not be serialized kills the
 worker in MPI backend

---
 .../backends/mpi/core/worker/task_store.py    | 119 +++++++-----------
 1 file changed, 48 insertions(+), 71 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index ba76eba..93e6950 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -221,6 +221,46 @@ class TaskStore:
         else:
             return arg, False
 
+    def store_output_data(self, output_data_ids, output_values):
+        """
+        Store results of a task/actor-task.
+
+        Parameters
+        ----------
+        output_data_ids : unidist.core.backends.mpi.core.common.MpiDataID, list or None
+            Output data ID(s) to store the results with.
+        output_values : object
+            Result(s) of the task.
+
+        Returns
+        -------
+        list
+            Data IDs the results are stored with.
+
+        Notes
+        -----
+        All the results get serialized before any of them is stored
+        so that the task fails as a whole if the serialization fails.
+        """
+        if output_data_ids is None:
+            return []
+        local_store = LocalObjectStore.get_instance()
+        shared_store = SharedObjectStore.get_instance()
+        if isinstance(output_data_ids, (list, tuple)) and len(output_data_ids) > 1:
+            outputs = list(zip(output_data_ids, output_values))
+        else:
+            outputs = [(output_data_ids, output_values)]
+        serialized_outputs = [serialize_complex_data(value) for _, value in outputs]
+        for (output_id, value), serialized_data in zip(outputs, serialized_outputs):
+            local_store.put(output_id, value)
+            if shared_store.is_allocated() and shared_store.should_be_shared(
+                serialized_data
+            ):
+                shared_store.put(output_id, serialized_data)
+            else:
+                local_store.cache_serialized_data(output_id, serialized_data)
+        return [output_id for output_id, _ in outputs]
+
     def execute_received_task(self, output_data_ids, task, args, kwargs, submitter_rank):
         """
         Execute a task/actor-task and handle results.
@@ -243,7 +283,6 @@ class TaskStore:
         Exceptions are stored in output data IDs as value.
         """
         local_store = LocalObjectStore.get_instance()
-        shared_store = SharedObjectStore.get_instance()
         completed_data_ids = []
         # Note that if a task is coroutine,
         # the local store or the shared store will contain output data
@@ -273,6 +312,10 @@ class TaskStore:
                     )
                     w_logger.debug("- End task execution -")
 
+                    completed_data_ids = self.store_output_data(
+                        output_data_ids, output_values
+                    )
+
                 except Exception as e:
                     w_logger.debug("Exception - {}".format(e))
 
@@ -286,41 +329,6 @@ class TaskStore:
                     elif output_data_ids is not None:
                         local_store.put(output_data_ids, e)
                         completed_data_ids = [output_data_ids]
-                else:
-                    if output_data_ids is not None:
-                        if (
-                            isinstance(output_data_ids, (list, tuple))
-                            and len(output_data_ids) > 1
-                        ):
-                            completed_data_ids = [None] * len(output_data_ids)
-                            for idx, (output_id, value) in enumerate(
-                                zip(output_data_ids, output_values)
-                            ):
-                                serialized_data = serialize_complex_data(value)
-                                local_store.put(output_id, value)
-                                if (
-                                    shared_store.is_allocated()
-                                    and shared_store.should_be_shared(serialized_data)
-                                ):
-                                    shared_store.put(output_id, serialized_data)
-                                else:
-                                    local_store.cache_serialized_data(
-                                        output_id, serialized_data
-                                    )
-                                completed_data_ids[idx] = output_id
-                        else:
-                            serialized_data = serialize_complex_data(output_values)
-                            local_store.put(output_data_ids, output_values)
-                            if (
-                                shared_store.is_allocated()
-                                and shared_store.should_be_shared(serialized_data)
-                            ):
-                                shared_store.put(output_data_ids, serialized_data)
-                            else:
-                                local_store.cache_serialized_data(
-                                    output_data_ids, serialized_data
-                                )
-                            completed_data_ids = [output_data_ids]
 
                 RequestStore.get_instance().check_pending_get_requests(output_data_ids)
                 # Monitor the task execution
@@ -369,6 +377,10 @@ class TaskStore:
                 )
                 w_logger.debug("- End task execution -")
 
+                completed_data_ids = self.store_output_data(
+                    output_data_ids, output_values
+                )
+
             except Exception as e:
                 w_logger.debug("Exception - {}".format(e))
 
@@ -382,41 +394,6 @@ class TaskStore:
                 elif output_data_ids is not None:
                     local_store.put(output_data_ids, e)
                     completed_data_ids = [output_data_ids]
-            else:
-                if output_data_ids is not None:
-                    if (
-                        isinstance(output_data_ids, (list, tuple))
-                        and len(output_data_ids) > 1
-                    ):
-                        completed_data_ids = [None] * len(output_data_ids)
-                        for idx, (output_id, value) in enumerate(
-                            zip(output_data_ids, output_values)
-                        ):
-                            serialized_data = serialize_complex_data(value)
-                            local_store.put(output_id, value)
-                            if (
-                                shared_store.is_allocated()
-                                and shared_store.should_be_shared(serialized_data)
-                            ):
-                                shared_store.put(output_id, serialized_data)
-                            else:
-                                local_store.cache_serialized_data(
-                                    output_id, serialized_data
-                                )
-                            completed_data_ids[idx] = output_id
-                    else:
-                        serialized_data = serialize_complex_data(output_values)
-                        local_store.put(output_data_ids, output_values)
-                        if (
-                            shared_store.is_allocated()
-                            and shared_store.should_be_shared(serialized_data)
-                        ):
-                            shared_store.put(output_data_ids, serialized_data)
-                        else:
-                            local_store.cache_serialized_data(
-                                output_data_ids, serialized_data
-                            )
-                        completed_data_ids = [output_data_ids]
             RequestStore.get_instance().check_pending_get_requests(output_data_ids)
             # Monitor the task execution.
             # We use a blocking send here because we have to wait for
-- 
2.43.0


From c72a089864282f197e88e669382f09408441da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:26 +0000
Subject: [PATCH 24/48] fix: a failed actor constructor or a missing actor
 method kills the worker in MPI backend

---
 unidist/core/backends/mpi/core/worker/loop.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 4cbc346..be559a0 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -177,7 +177,11 @@ async def worker_loop():
                 args = request["args"]
                 kwargs = request["kwargs"]
                 handler = request["handler"]
-                actor_map[handler] = cls(*args, **kwargs)
+                try:
+                    actor_map[handler] = cls(*args, **kwargs)
+                except Exception as e:
+                    # All the tasks of the actor have to fail with the exception
+                    actor_map[handler] = e
 
         elif operation_type == common.Operation.ACTOR_EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
@@ -186,8 +190,12 @@ async def worker_loop():
                 # Actor method here is a data id so we have to retrieve it from the storage
                 method_name = object_store.get(request["task"])
                 handler = request["handler"]
-                actor_method = getattr(actor_map[handler], method_name)
-                request["task"] = actor_method
+                try:
+                    if isinstance(actor_map[handler], Exception):
+                        raise actor_map[handler]
+                    request["task"] = getattr(actor_map[handler], method_name)
+                except Exception as e:
+                    request["exception"] = e
 
                 request["submitter"] = source_rank
 
-- 
2.43.0


From bac83593572a56f340be691db781ac608545c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:46 +0000
Subject: [PATCH 25/48] fix: a method called from a task before creation of the
 actor is done kills the worker in MPI backend

---
 unidist/core/backends/mpi/core/worker/loop.py | 56 +++++++++++++------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index be559a0..30fd077 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -5,6 +5,7 @@
 """Worker MPI process task processing functionality."""
 
 import asyncio
+from collections import defaultdict
 from functools import wraps, partial
 
 try:
@@ -37,6 +38,8 @@ log_file = "{}.log".format(logger_name)
 w_logger = common.get_logger(logger_name, log_file)
 # Actors map {handle : actor}
 actor_map = {}
+# Requests to execute tasks of the actors that are not created yet
+actor_requests = defaultdict(list)
 
 
 # -------------- #
@@ -91,6 +94,34 @@ async def worker_loop():
     request_store = RequestStore.get_instance()
     async_operations = AsyncOperations.get_instance()
 
+    def execute_actor_task(request):
+        """
+        Execute the actor task if possible or make it pending.
+
+        Parameters
+        ----------
+        request : dict
+            Actor task related data (method, args, output, handler).
+        """
+        # Prepare the data
+        # Actor method here is a data id so we have to retrieve it from the storage
+        method_name = object_store.get(request["task"])
+        handler = request["handler"]
+        try:
+            if isinstance(actor_map[handler], Exception):
+                raise actor_map[handler]
+            request["task"] = getattr(actor_map[handler], method_name)
+        except Exception as e:
+            request["exception"] = e
+
+        # Execute the actor task if possible
+        pending_actor_request = task_store.process_task_request(request)
+        if pending_actor_request:
+            task_store.put_actor(pending_actor_request)
+        else:
+            # Check pending requests. Maybe some data became available.
+            task_store.check_all_pending_tasks()
+
     # Barrier to check if worker process is ready to start the communication loop
     mpi_state.global_comm.Barrier()
     w_logger.debug("Worker loop started")
@@ -182,30 +213,18 @@ async def worker_loop():
                 except Exception as e:
                     # All the tasks of the actor have to fail with the exception
                     actor_map[handler] = e
+                for actor_request in actor_requests.pop(handler, []):
+                    execute_actor_task(actor_request)
 
         elif operation_type == common.Operation.ACTOR_EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
             if not ready_to_shutdown_posted:
-                # Prepare the data
-                # Actor method here is a data id so we have to retrieve it from the storage
-                method_name = object_store.get(request["task"])
-                handler = request["handler"]
-                try:
-                    if isinstance(actor_map[handler], Exception):
-                        raise actor_map[handler]
-                    request["task"] = getattr(actor_map[handler], method_name)
-                except Exception as e:
-                    request["exception"] = e
-
                 request["submitter"] = source_rank
-
-                # Execute the actor task if possible
-                pending_actor_request = task_store.process_task_request(request)
-                if pending_actor_request:
-                    task_store.put_actor(pending_actor_request)
+                if request["handler"] in actor_map:
+                    execute_actor_task(request)
                 else:
-                    # Check pending requests. Maybe some data became available.
-                    task_store.check_all_pending_tasks()
+                    # The actor is created by another process, whose request is not received yet
+                    actor_requests[request["handler"]].append(request)
 
         elif operation_type == common.Operation.CLEANUP:
             cleanup_list = communication.recv_serialized_data(
@@ -217,6 +236,7 @@ async def worker_loop():
         elif operation_type == common.Operation.CANCEL:
             task_store.clear_pending_tasks()
             task_store.clear_pending_actor_tasks()
+            actor_requests.clear()
             request_store.clear_get_requests()
             request_store.clear_wait_requests()
             async_operations.finish()
-- 
2.43.0


From 7543021a9bc31136bb38ffcf00953fc66357cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:48 +0000
Subject: [PATCH 26/48] fix: garbage collection inside of the locked section
 dead-locks the shared object store in MPI backend

---
 unidist/core/backends/mpi/core/shared_object_store.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/unidist/core/backends/mpi/core/shared_object_store.py b/unidist/core/backends/mpi/core/shared_object_store.py
index 4aff7c4..d511593 100644
--- a/unidist/core/backends/mpi/core/shared_object_store.py
+++ b/unidist/core/backends/mpi/core/shared_object_store.py
@@ -4,6 +4,7 @@
 
 """`SharedObjectStore` functionality."""
 
+import gc
 import os
 import sys
 import time
@@ -56,11 +57,17 @@ class WinLock:
 
     def __enter__(self):
         """Lock the current MPI.Window for other processes."""
+        # Finalizers of data IDs take the lock as well,
+        # so the garbage collector must not run them while the lock is held.
+        self.gc_enabled = gc.isenabled()
+        gc.disable()
         self.win.Lock(communication.MPIRank.MONITOR)
 
     def __exit__(self, *args):
         """Unlock the current MPI.Window for other processes."""
         self.win.Unlock(communication.MPIRank.MONITOR)
+        if self.gc_enabled:
+            gc.enable()
 
 
 class SharedObjectStore:
-- 
2.43.0


From ccf5189694d3b89ea1ea833bd34b99a648d5cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:08 +0000
Subject: [PATCH 27/48] fix: workers exchanging data dead-lock at shutdown in
 MPI backend

---
 .../backends/mpi/core/async_operations.py     | 11 +++++
 unidist/core/backends/mpi/core/worker/loop.py | 40 ++++++++++++-------
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/unidist/core/backends/mpi/core/async_operations.py b/unidist/core/backends/mpi/core/async_operations.py
index 03a9ebb..004dccf 100644
--- a/unidist/core/backends/mpi/core/async_operations.py
+++ b/unidist/core/backends/mpi/core/async_operations.py
@@ -60,6 +60,17 @@ class AsyncOperations:
             tup for tup in self._send_async_handlers if not is_ready(tup[0])
         ]
 
+    def is_empty(self):
+        """
+        Check if there are no MPI async send requests in progress.
+
+        Returns
+        -------
+        bool
+            ``True`` if all the requests found by the last check have been completed.
+        """
+        return not self._send_async_handlers
+
     def finish(self):
         """Finish all MPI async send requests."""
         for handler, _ in self._send_async_handlers:
diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 30fd077..879bd49 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -15,6 +15,7 @@ except ImportError:
         "Missing dependency 'mpi4py'. Use pip or conda to install it."
     ) from None
 
+from unidist.config import MpiBackoff
 import unidist.core.backends.mpi.core.common as common
 import unidist.core.backends.mpi.core.communication as communication
 from unidist.core.backends.mpi.core.object_store import ObjectStore
@@ -130,8 +131,23 @@ async def worker_loop():
     # and the worker sends the ready to shutdown signal to ``Monitor``.
     # Once all workers excluding ``Root`` and ``Monitor`` ranks are ready to shutdown,
     # ``Monitor` sends the shutdown signal to every worker so they can exit the loop.
+    is_cancelled = False
     ready_to_shutdown_posted = False
     while True:
+        if is_cancelled and not ready_to_shutdown_posted:
+            # Complete the communications and keep receiving operations at the same time,
+            # since other workers may be completing their communications with this one.
+            async_operations.check()
+            if async_operations.is_empty():
+                communication.mpi_send_operation(
+                    mpi_state.global_comm,
+                    common.Operation.READY_TO_SHUTDOWN,
+                    mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
+                )
+                ready_to_shutdown_posted = True
+            elif not mpi_state.global_comm.iprobe(tag=common.MPITag.OPERATION):
+                await asyncio.sleep(MpiBackoff.get())
+                continue
         # Listen receive operation from any source
         operation_type, source_rank = await async_wrap(
             communication.mpi_recv_operation
@@ -143,7 +159,7 @@ async def worker_loop():
         # Proceed the request
         if operation_type == common.Operation.EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
-            if not ready_to_shutdown_posted:
+            if not is_cancelled:
                 request["submitter"] = source_rank
                 # Execute the task if possible
                 pending_request = task_store.process_task_request(request)
@@ -155,14 +171,14 @@ async def worker_loop():
 
         elif operation_type == common.Operation.GET:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
-            if request is not None and not ready_to_shutdown_posted:
+            if request is not None and not is_cancelled:
                 request_store.process_get_request(
                     request["source"], request["id"], request["is_blocking_op"]
                 )
 
         elif operation_type == common.Operation.PUT_DATA:
             request = pull_data(mpi_state.global_comm, source_rank)
-            if not ready_to_shutdown_posted:
+            if not is_cancelled:
                 w_logger.debug(
                     "PUT (RECV) {} id from {} rank".format(
                         request["id"]._id, source_rank
@@ -177,7 +193,7 @@ async def worker_loop():
 
         elif operation_type == common.Operation.PUT_OWNER:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
-            if not ready_to_shutdown_posted:
+            if not is_cancelled:
                 local_store.put_data_owner(request["id"], request["owner"])
 
                 w_logger.debug(
@@ -197,13 +213,13 @@ async def worker_loop():
 
         elif operation_type == common.Operation.WAIT:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
-            if not ready_to_shutdown_posted:
+            if not is_cancelled:
                 w_logger.debug("WAIT for {} id".format(request["id"]._id))
                 request_store.process_wait_request(request["id"])
 
         elif operation_type == common.Operation.ACTOR_CREATE:
             request = pull_data(mpi_state.global_comm, source_rank)
-            if not ready_to_shutdown_posted:
+            if not is_cancelled:
                 cls = request["class"]
                 args = request["args"]
                 kwargs = request["kwargs"]
@@ -218,7 +234,7 @@ async def worker_loop():
 
         elif operation_type == common.Operation.ACTOR_EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
-            if not ready_to_shutdown_posted:
+            if not is_cancelled:
                 request["submitter"] = source_rank
                 if request["handler"] in actor_map:
                     execute_actor_task(request)
@@ -239,13 +255,7 @@ async def worker_loop():
             actor_requests.clear()
             request_store.clear_get_requests()
             request_store.clear_wait_requests()
-            async_operations.finish()
-            communication.mpi_send_operation(
-                mpi_state.global_comm,
-                common.Operation.READY_TO_SHUTDOWN,
-                mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
-            )
-            ready_to_shutdown_posted = True
+            is_cancelled = True
         elif operation_type == common.Operation.SHUTDOWN and ready_to_shutdown_posted:
             w_logger.debug("Exit worker event loop")
             SharedObjectStore.get_instance().finalize()
@@ -256,5 +266,5 @@ async def worker_loop():
             raise ValueError(f"Unsupported operation: {operation_type}")
 
         # Check completion status of previous async MPI routines
-        if not ready_to_shutdown_posted:
+        if not is_cancelled:
             async_operations.check()
-- 
2.43.0


From 95b83f85e22f53aa1bea5d9a50939e10d7a7b94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:28 +0000
Subject: [PATCH 28/48] fix: shutdown hangs if a worker is blocked in a nested
 get in MPI backend

---
 unidist/core/backends/mpi/core/worker/loop.py |  3 ++
 .../backends/mpi/core/worker/request_store.py | 32 ++++++++++++++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 879bd49..3ec8e78 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -175,6 +175,8 @@ async def worker_loop():
                 request_store.process_get_request(
                     request["source"], request["id"], request["is_blocking_op"]
                 )
+            elif request is not None and request["is_blocking_op"]:
+                request_store.cancel_get_request(request["source"], request["id"])
 
         elif operation_type == common.Operation.PUT_DATA:
             request = pull_data(mpi_state.global_comm, source_rank)
@@ -258,6 +260,7 @@ async def worker_loop():
             is_cancelled = True
         elif operation_type == common.Operation.SHUTDOWN and ready_to_shutdown_posted:
             w_logger.debug("Exit worker event loop")
+            async_operations.finish()
             SharedObjectStore.get_instance().finalize()
             if not MPI.Is_finalized():
                 MPI.Finalize()
diff --git a/unidist/core/backends/mpi/core/worker/request_store.py b/unidist/core/backends/mpi/core/worker/request_store.py
index 58825c5..ffda69f 100644
--- a/unidist/core/backends/mpi/core/worker/request_store.py
+++ b/unidist/core/backends/mpi/core/worker/request_store.py
@@ -8,6 +8,7 @@ import unidist.core.backends.mpi.core.common as common
 import unidist.core.backends.mpi.core.communication as communication
 from unidist.core.backends.mpi.core.controller.common import push_data
 from unidist.core.backends.mpi.core.object_store import ObjectStore
+from unidist.core.backends.mpi.core.local_object_store import LocalObjectStore
 
 
 mpi_state = communication.MPIState.get_instance()
@@ -123,10 +124,39 @@ class RequestStore:
         self._data_requests.discard(data_id)
 
     def clear_get_requests(self):
-        """Clear blocking and non-blocking get requests."""
+        """
+        Clear blocking and non-blocking get requests.
+
+        Notes
+        -----
+        The workers blocked on the requests get an exception
+        because they could not get ready to shutdown otherwise.
+        """
+        for data_id, ranks in self._blocking_get_requests.items():
+            for rank in ranks:
+                self.cancel_get_request(rank, data_id)
         self._blocking_get_requests.clear()
         self._nonblocking_get_requests.clear()
 
+    def cancel_get_request(self, source_rank, data_id):
+        """
+        Respond to a blocking GET request of another worker when getting to shutdown.
+
+        Parameters
+        ----------
+        source_rank : int
+            Rank number of the requester.
+        data_id : unidist.core.backends.mpi.core.common.MpiDataID
+            An ID to the requested data.
+        """
+        if source_rank == communication.MPIRank.ROOT:
+            return
+        if not ObjectStore.get_instance().contains(data_id):
+            LocalObjectStore.get_instance().put(
+                data_id, RuntimeError("The task is cancelled because of shutdown")
+            )
+        push_data(source_rank, data_id, is_blocking_op=True)
+
     def clear_wait_requests(self):
         """Clear blocking wait requests requests."""
         self._blocking_wait_requests.clear()
-- 
2.43.0


From 08c033cda1335c274ac339fb9b68e682a743df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:58 +0000
Subject: [PATCH 29/48] fix: an async actor method finishing during shutdown
 hangs the worker in MPI backend

A coroutine that completes between CANCEL and the final barrier pushed its
output to ranks that had already left the loop. Cancel it as the pending
tasks are.
---
 unidist/core/backends/mpi/core/worker/loop.py       | 1 +
 unidist/core/backends/mpi/core/worker/task_store.py | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 3ec8e78..0e56e97 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -254,6 +254,7 @@ async def worker_loop():
         elif operation_type == common.Operation.CANCEL:
             task_store.clear_pending_tasks()
             task_store.clear_pending_actor_tasks()
+            task_store.cancel_background_tasks()
             actor_requests.clear()
             request_store.clear_get_requests()
             request_store.clear_wait_requests()
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 93e6950..153c480 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -144,6 +144,15 @@ class TaskStore:
 
         self._pending_actor_tasks_list.clear()
 
+    def cancel_background_tasks(self):
+        """
+        Cancel execution of coroutines that are not complete yet.
+        """
+        w_logger.debug("Cancel background tasks")
+
+        for task in self.background_tasks:
+            task.cancel()
+
     def request_worker_data(self, dest_rank, data_id):
         """
         Send GET operation with data request to destination worker.
-- 
2.43.0


From e67a9bc0e3a133ca01693b282e62e8ffab2aaaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:53 +0000
Subject: [PATCH 30/48] fix: containers and frames with objects of classes
 defined in __main__ kill the worker in MPI backend

---
 unidist/core/backends/mpi/core/serialization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index 4c3962c..3811bbb 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -157,7 +157,9 @@ class ComplexDataSerializer:
         dict
             Dictionary with array of serialized bytes.
         """
-        s_frame = pkl.dumps(frame, protocol=5, buffer_callback=self._buffer_callback)
+        # Objects inside of the frame may need cloudpickle, e.g. if their class
+        # is defined in `__main__`, which is another module in a worker
+        s_frame = cpkl.dumps(frame, protocol=5, buffer_callback=self._buffer_callback)
         self.buffer_count.append(self._callback_counter)
         self._callback_counter = 0
         return {"__pickle5_custom__": True, "as_bytes": s_frame}
@@ -192,7 +194,9 @@ class ComplexDataSerializer:
         dict
             Dictionary with array of serialized bytes.
         """
-        return {"__pickle_custom__": True, "as_bytes": pkl.dumps(obj)}
+        # Items of the container may need cloudpickle, e.g. if their class
+        # is defined in `__main__`, which is another module in a worker
+        return {"__pickle_custom__": True, "as_bytes": cpkl.dumps(obj)}
 
     def _encode_custom(self, obj):
         """
-- 
2.43.0


From c1f5fe001640dcf7782e97072960a5011a72cda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:53 +0000
Subject: [PATCH 31/48] fix: strings with lone surrogates can not be serialized
 in MPI backend

---
 unidist/core/backends/mpi/core/serialization.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index 3811bbb..ae4131a 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -234,7 +234,12 @@ class ComplexDataSerializer:
         -----
         Uses msgpack, cloudpickle and pickle libraries.
         """
-        return msgpack.packb(data, default=self._encode_custom, strict_types=True)
+        return msgpack.packb(
+            data,
+            default=self._encode_custom,
+            strict_types=True,
+            unicode_errors="surrogatepass",
+        )
 
     def _decode_custom(self, obj):
         """
@@ -282,7 +287,10 @@ class ComplexDataSerializer:
         """
         gc.disable()  # Performance optimization for msgpack
         unpacked_data = msgpack.unpackb(
-            s_data, object_hook=self._decode_custom, strict_map_key=False
+            s_data,
+            object_hook=self._decode_custom,
+            strict_map_key=False,
+            unicode_errors="surrogatepass",
         )
         gc.enable()
         return unpacked_data
-- 
2.43.0


From baa7db561eca8608b346080e49cd0007ec08d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:19 +0000
Subject: [PATCH 32/48] fix: an argument that can not be serialized breaks the
 stream of messages to the worker in MPI backend

---
 .../core/backends/mpi/core/communication.py   | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index 94325a8..1d94181 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -959,12 +959,6 @@ def isend_complex_operation(
     The special tags are used for this communication, namely,
     ``common.MPITag.OPERATION``, ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
     """
-    # Send operation type
-    handlers = []
-    h1 = mpi_isend_operation(comm, operation_type, dest_rank)
-    handlers.append((h1, None))
-
-    # Send operation data
     if is_serialized:
         # Send already serialized data
         s_data = operation_data["s_data"]
@@ -975,16 +969,26 @@ def isend_complex_operation(
         info_package = common.MetadataPackage.get_local_info(
             data_id, len(s_data), [len(sbuf) for sbuf in raw_buffers], buffer_count
         )
-        h2_list = _isend_complex_data_impl(
-            comm, s_data, raw_buffers, dest_rank, info_package
-        )
-        handlers.extend(h2_list)
     else:
-        # Serialize and send the data
-        h2_list, s_data, raw_buffers, buffer_count = isend_complex_data(
-            comm, operation_data, dest_rank
+        # Serialize the data before sending anything because the receiver
+        # of the operation type waits for the data even if the serialization fails
+        serialized_data = serialize_complex_data(operation_data)
+        s_data = serialized_data["s_data"]
+        raw_buffers = serialized_data["raw_buffers"]
+        buffer_count = serialized_data["buffer_count"]
+        info_package = common.MetadataPackage.get_task_info(
+            len(s_data), [len(sbuf) for sbuf in raw_buffers], buffer_count
         )
-        handlers.extend(h2_list)
+
+    # Send operation type
+    handlers = []
+    h1 = mpi_isend_operation(comm, operation_type, dest_rank)
+    handlers.append((h1, None))
+    # Send operation data
+    h2_list = _isend_complex_data_impl(
+        comm, s_data, raw_buffers, dest_rank, info_package
+    )
+    handlers.extend(h2_list)
     return handlers, {
         "s_data": s_data,
         "raw_buffers": raw_buffers,
-- 
2.43.0


From aae809133f14dd4ec11a3641dc46075c6d3c26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:17 +0000
Subject: [PATCH 33/48] fix: an exception that can not be (de-)serialized kills
 the worker in MPI backend

---
 .../backends/mpi/core/worker/task_store.py    | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 153c480..deade11 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -6,6 +6,7 @@ import asyncio
 import functools
 import inspect
 import time
+import traceback
 
 from unidist.core.backends.common.data_id import is_data_id
 import unidist.core.backends.mpi.core.common as common
@@ -14,7 +15,10 @@ from unidist.core.backends.mpi.core.async_operations import AsyncOperations
 from unidist.core.backends.mpi.core.object_store import ObjectStore
 from unidist.core.backends.mpi.core.local_object_store import LocalObjectStore
 from unidist.core.backends.mpi.core.shared_object_store import SharedObjectStore
-from unidist.core.backends.mpi.core.serialization import serialize_complex_data
+from unidist.core.backends.mpi.core.serialization import (
+    serialize_complex_data,
+    deserialize_complex_data,
+)
 from unidist.core.backends.mpi.core.worker.request_store import RequestStore
 
 mpi_state = communication.MPIState.get_instance()
@@ -26,6 +30,30 @@ log_file = "{}.log".format(logger_name)
 w_logger = common.get_logger(logger_name, log_file)
 
 
+def get_transferable_exception(exception):
+    """
+    Get an exception that can be sent to other processes.
+
+    Parameters
+    ----------
+    exception : Exception
+        The exception raised by a task.
+
+    Returns
+    -------
+    Exception
+        Either the `exception` itself or, if it doesn't survive
+        (de-)serialization, ``RuntimeError`` that describes it.
+    """
+    try:
+        deserialize_complex_data(**serialize_complex_data(exception))
+        return exception
+    except Exception:
+        return RuntimeError(
+            "".join(traceback.format_exception_only(type(exception), exception)).strip()
+        )
+
+
 class TaskStore:
     """Class that stores tasks/actor-tasks that couldn't be executed due to data dependencies."""
 
@@ -328,6 +356,7 @@ class TaskStore:
                 except Exception as e:
                     w_logger.debug("Exception - {}".format(e))
 
+                    e = get_transferable_exception(e)
                     if (
                         isinstance(output_data_ids, (list, tuple))
                         and len(output_data_ids) > 1
@@ -393,6 +422,7 @@ class TaskStore:
             except Exception as e:
                 w_logger.debug("Exception - {}".format(e))
 
+                e = get_transferable_exception(e)
                 if (
                     isinstance(output_data_ids, (list, tuple))
                     and len(output_data_ids) > 1
-- 
2.43.0


From a1de9212acf2c4b76a07060054bf6494df6cc6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:30 +0000
Subject: [PATCH 34/48] fix: dicts with the keys used by the serializer kill
 the worker in MPI backend

---
 .../core/backends/mpi/core/serialization.py   | 46 +++++++++++--------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index ae4131a..65b82f3 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -119,6 +119,10 @@ class ComplexDataSerializer:
 
     # Minimum buffer size for serialization with pickle 5 protocol
     PICKLE_THRESHOLD = MpiPickleThreshold.get()
+    # msgpack extension codes of the objects msgpack couldn't handle
+    CLOUDPICKLE_CODE = 1
+    PICKLE_CODE = 2
+    PICKLE5_CODE = 3
 
     def __init__(self, buffers=None, buffer_count=None):
         # Make a copy since the buffers get removed from the list when de-serializing,
@@ -154,15 +158,15 @@ class ComplexDataSerializer:
 
         Returns
         -------
-        dict
-            Dictionary with array of serialized bytes.
+        msgpack.ExtType
+            Serialized bytes marked with the code of the serializer.
         """
         # Objects inside of the frame may need cloudpickle, e.g. if their class
         # is defined in `__main__`, which is another module in a worker
         s_frame = cpkl.dumps(frame, protocol=5, buffer_callback=self._buffer_callback)
         self.buffer_count.append(self._callback_counter)
         self._callback_counter = 0
-        return {"__pickle5_custom__": True, "as_bytes": s_frame}
+        return msgpack.ExtType(self.PICKLE5_CODE, s_frame)
 
     def _cpkl_encode(self, obj):
         """
@@ -175,10 +179,10 @@ class ComplexDataSerializer:
 
         Returns
         -------
-        dict
-            Dictionary with array of serialized bytes.
+        msgpack.ExtType
+            Serialized bytes marked with the code of the serializer.
         """
-        return {"__cloud_custom__": True, "as_bytes": cpkl.dumps(obj)}
+        return msgpack.ExtType(self.CLOUDPICKLE_CODE, cpkl.dumps(obj))
 
     def _pkl_encode(self, obj):
         """
@@ -191,12 +195,12 @@ class ComplexDataSerializer:
 
         Returns
         -------
-        dict
-            Dictionary with array of serialized bytes.
+        msgpack.ExtType
+            Serialized bytes marked with the code of the serializer.
         """
         # Items of the container may need cloudpickle, e.g. if their class
         # is defined in `__main__`, which is another module in a worker
-        return {"__pickle_custom__": True, "as_bytes": cpkl.dumps(obj)}
+        return msgpack.ExtType(self.PICKLE_CODE, cpkl.dumps(obj))
 
     def _encode_custom(self, obj):
         """
@@ -241,7 +245,7 @@ class ComplexDataSerializer:
             unicode_errors="surrogatepass",
         )
 
-    def _decode_custom(self, obj):
+    def _decode_custom(self, code, data):
         """
         De-serialization hook for msgpack library.
 
@@ -249,15 +253,17 @@ class ComplexDataSerializer:
 
         Parameters
         ----------
-        obj : object
-            Python object.
+        code : int
+            Code of the serializer.
+        data : bytes
+            Serialized object.
         """
-        if "__cloud_custom__" in obj:
-            return cpkl.loads(obj["as_bytes"])
-        elif "__pickle_custom__" in obj:
-            return pkl.loads(obj["as_bytes"])
-        elif "__pickle5_custom__" in obj:
-            frame = pkl.loads(obj["as_bytes"], buffers=self.buffers)
+        if code == self.CLOUDPICKLE_CODE:
+            return cpkl.loads(data)
+        elif code == self.PICKLE_CODE:
+            return pkl.loads(data)
+        elif code == self.PICKLE5_CODE:
+            frame = pkl.loads(data, buffers=self.buffers)
             # check if there are out-of-band buffers
             # TODO: look at this condition and get rid of it because
             # `buffer_count` should always be a list with length greater 0.
@@ -265,7 +271,7 @@ class ComplexDataSerializer:
                 del self.buffers[: self.buffer_count.pop(0)]
             return frame
         else:
-            return obj
+            return msgpack.ExtType(code, data)
 
     def deserialize(self, s_data):
         """
@@ -288,7 +294,7 @@ class ComplexDataSerializer:
         gc.disable()  # Performance optimization for msgpack
         unpacked_data = msgpack.unpackb(
             s_data,
-            object_hook=self._decode_custom,
+            ext_hook=self._decode_custom,
             strict_map_key=False,
             unicode_errors="surrogatepass",
         )
-- 
2.43.0


From 61f53ad9c273a97f0b5c038035398a6aeef7faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:30 +0000
Subject: [PATCH 35/48] fix: failed deserialization leaves the garbage
 collector disabled in MPI backend

---
 unidist/core/backends/mpi/core/serialization.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index 65b82f3..64241b1 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -292,13 +292,15 @@ class ComplexDataSerializer:
         Uses msgpack, cloudpickle and pickle libraries.
         """
         gc.disable()  # Performance optimization for msgpack
-        unpacked_data = msgpack.unpackb(
-            s_data,
-            ext_hook=self._decode_custom,
-            strict_map_key=False,
-            unicode_errors="surrogatepass",
-        )
-        gc.enable()
+        try:
+            unpacked_data = msgpack.unpackb(
+                s_data,
+                ext_hook=self._decode_custom,
+                strict_map_key=False,
+                unicode_errors="surrogatepass",
+            )
+        finally:
+            gc.enable()
         return unpacked_data
 
 
-- 
2.43.0


From 3e03489f59a4e0946b15717cac4b654d5a20eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:19 +0000
Subject: [PATCH 36/48] fix: in-place change of an argument after submission is
 visible to the task in MPI backend

---
 unidist/core/backends/mpi/core/communication.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index 1d94181..f47ff17 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -974,7 +974,11 @@ def isend_complex_operation(
         # of the operation type waits for the data even if the serialization fails
         serialized_data = serialize_complex_data(operation_data)
         s_data = serialized_data["s_data"]
-        raw_buffers = serialized_data["raw_buffers"]
+        # We make a copy because the sending is asynchronous
+        # and a user may modify the passed objects before it is complete
+        raw_buffers = [
+            memoryview(buf.tobytes()) for buf in serialized_data["raw_buffers"]
+        ]
         buffer_count = serialized_data["buffer_count"]
         info_package = common.MetadataPackage.get_task_info(
             len(s_data), [len(sbuf) for sbuf in raw_buffers], buffer_count
-- 
2.43.0


From f39758d4c6ec9d9b4f51fae5d8633b85b2a5db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:03 +0000
Subject: [PATCH 37/48] fix: a failed task breaks the connection of later tasks
 in Python Multiprocessing backend

---
 .../core/backends/pymp/core/process_manager.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index f8a9d3c..4d8e855 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -52,6 +52,7 @@ class Worker(Process):
         while 1:
             task = self.task_queue.get()
             task = pkl.loads(task)
+            task.obj_store = self._obj_store
 
             data_ids = task.data_ids
             try:
@@ -69,6 +70,10 @@ class Worker(Process):
                         self._obj_store.store_delayed[data_id] = e
                 else:
                     self._obj_store.store_delayed[data_ids] = e
+                # Break the reference cycle to not keep proxies of `task` until
+                # the garbage collector destroys them along with the connection
+                # other proxies may be using at that moment.
+                e.__traceback__ = None
             finally:
                 self.task_queue.task_done()
         return
@@ -221,6 +226,19 @@ class Task:
         self.data_ids = data_ids
         self.obj_store = obj_store
 
+    def __getstate__(self):
+        """
+        Get the state to be sent to a worker.
+
+        Returns
+        -------
+        dict
+            The state without the object store the worker has its own one of.
+        """
+        state = self.__dict__.copy()
+        state["obj_store"] = None
+        return state
+
     def __call__(self):
         """
         Execute `self._func`.
-- 
2.43.0


From 1aeec14178078ba367c286fa9de97e3824d6ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:43 +0000
Subject: [PATCH 38/48] fix: values got from shared memory are overwritten
 after their references are gone in MPI backend

The memory of an object was recycled once its data IDs were collected although
the de-serialized values may still refer to the shared buffer.
---
 .../backends/mpi/core/shared_object_store.py  | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/unidist/core/backends/mpi/core/shared_object_store.py b/unidist/core/backends/mpi/core/shared_object_store.py
index d511593..411c92a 100644
--- a/unidist/core/backends/mpi/core/shared_object_store.py
+++ b/unidist/core/backends/mpi/core/shared_object_store.py
@@ -4,6 +4,7 @@
 
 """`SharedObjectStore` functionality."""
 
+import ctypes
 import gc
 import os
 import sys
@@ -286,7 +287,7 @@ class SharedObjectStore:
         splited_id = str(data_id).replace(")", "").split("_")
         return int(splited_id[1]), int(splited_id[3])
 
-    def _increment_ref_number(self, data_id, service_index):
+    def _increment_ref_number(self, data_id, service_index, holder=None):
         """
         Increment the number of references to indicate to the monitor that this data is being used.
 
@@ -295,11 +296,15 @@ class SharedObjectStore:
         data_id : unidist.core.backends.mpi.core.common.MpiDataID
         service_index : int
             The service buffer index.
+        holder : object, default: None
+            The object that uses the data. If ``None``, this is `data_id` itself.
 
         Notes
         -----
-        This function create `weakref.finalizer' with decrement function which will be called after data_id collecting.
+        This function create `weakref.finalizer' with decrement function which will be called after holder collecting.
         """
+        if holder is None:
+            holder = data_id
         if MPI.Is_finalized():
             return
         if service_index is None:
@@ -318,7 +323,7 @@ class SharedObjectStore:
             )
         self.finalizers.append(
             weakref.finalize(
-                data_id, self._decrement_ref_number, str(data_id), service_index
+                holder, self._decrement_ref_number, str(data_id), service_index
             )
         )
 
@@ -457,14 +462,19 @@ class SharedObjectStore:
         )
         prev_last_index = s_data_last_index
         raw_buffers = []
-        for raw_buffer_len in buffer_lens:
-            raw_last_index = prev_last_index + raw_buffer_len
-            raw_buffers.append(
-                self.shared_buffer[prev_last_index:raw_last_index]
-                .cast("b")
-                .toreadonly()
+        if buffer_lens:
+            # The deserialized data refers to the shared memory, so the memory must not be
+            # cleared until the data is collected, even if the `data_id` has already been.
+            last_index = s_data_last_index + sum(buffer_lens)
+            holder = (ctypes.c_ubyte * sum(buffer_lens)).from_buffer(
+                self.shared_buffer[s_data_last_index:last_index]
             )
-            prev_last_index = raw_last_index
+            self._increment_ref_number(data_id, service_index, holder)
+            raw_data = memoryview(holder).toreadonly()
+            for raw_buffer_len in buffer_lens:
+                raw_buffers.append(raw_data[:raw_buffer_len])
+                raw_data = raw_data[raw_buffer_len:]
+                prev_last_index += raw_buffer_len
 
         data = deserialize_complex_data(s_data, raw_buffers, buffer_count)
         self.logger.debug(
-- 
2.43.0


From 899f41fb1535f859a14729829a830e4f0aab35c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 39/48] fix: a reservation that can not be met consumes shared
 memory in MPI backend

---
 .../core/backends/mpi/core/monitor/shared_memory_manager.py    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
index 17d0063..b873ff4 100644
--- a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
+++ b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
@@ -174,10 +174,11 @@ class SharedMemoryManager:
                 "`SharedMemoryManager` cannot be used if the shared object storage is not enabled."
             )
         first_index, last_index = self.free_memory.occupy(memory_len)
-        service_index, _ = self.free_service_indexes.occupy(SharedObjectStore.INFO_SIZE)
         if first_index is None:
             raise MemoryError("Overflow memory")
+        service_index, _ = self.free_service_indexes.occupy(SharedObjectStore.INFO_SIZE)
         if service_index is None:
+            self.free_memory.release(first_index, last_index)
             raise MemoryError("Overflow service memory")
 
         reservation_info = ImmutableDict(
-- 
2.43.0


From ca5c863794d84a7ec15770043857a3ce94ba4a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:51 +0000
Subject: [PATCH 40/48] fix: overflow of the shared memory kills the monitor in
 MPI backend

The requester of the memory gets the error instead.
---
 unidist/core/backends/mpi/core/communication.py |  5 ++++-
 unidist/core/backends/mpi/core/monitor/loop.py  | 15 +++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index f47ff17..0e043f6 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -1093,4 +1093,7 @@ def send_reserve_operation(comm, data_id, data_size):
         operation_data,
         mpi_state.get_monitor_by_worker_rank(),
     )
-    return mpi_recv_object(comm, mpi_state.get_monitor_by_worker_rank())
+    reservation_info = mpi_recv_object(comm, mpi_state.get_monitor_by_worker_rank())
+    if isinstance(reservation_info, Exception):
+        raise reservation_info
+    return reservation_info
diff --git a/unidist/core/backends/mpi/core/monitor/loop.py b/unidist/core/backends/mpi/core/monitor/loop.py
index 0b40271..00c486f 100755
--- a/unidist/core/backends/mpi/core/monitor/loop.py
+++ b/unidist/core/backends/mpi/core/monitor/loop.py
@@ -231,15 +231,18 @@ def monitor_loop():
         elif operation_type == common.Operation.RESERVE_SHARED_MEMORY:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
             reservation_info = shm_manager.get(request["id"])
-            if reservation_info is None:
-                reservation_info = shm_manager.put(request["id"], request["size"])
-                is_first_request = True
-            else:
-                is_first_request = False
+            is_first_request = reservation_info is None
+            try:
+                if is_first_request:
+                    reservation_info = shm_manager.put(request["id"], request["size"])
+                response = {**reservation_info, "is_first_request": is_first_request}
+            except MemoryError as e:
+                # The requester has to handle the overflow
+                response = e
 
             communication.mpi_send_object(
                 mpi_state.global_comm,
-                data={**reservation_info, "is_first_request": is_first_request},
+                data=response,
                 dest_rank=source_rank,
             )
         elif operation_type == common.Operation.REQUEST_SHARED_DATA:
-- 
2.43.0


From 3220b73bec4e619ec5cdf60ecdb370eb088f634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:07 +0000
Subject: [PATCH 41/48] fix: a worker keeps the data of the last operation
 alive in MPI backend

---
 unidist/core/backends/mpi/core/worker/loop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 0e56e97..76a3d4a 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -269,6 +269,9 @@ async def worker_loop():
         else:
             raise ValueError(f"Unsupported operation: {operation_type}")
 
+        # Do not keep the data alive while waiting for the next operation
+        request = pending_request = result = args = kwargs = actor_request = None
+
         # Check completion status of previous async MPI routines
         if not is_cancelled:
             async_operations.check()
-- 
2.43.0


From a46ce863de79a7eeae350f00c570ffe8f25b33e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:07 +0000
Subject: [PATCH 42/48] fix: data of failed tasks is never reclaimed in MPI
 backend

---
 unidist/core/backends/mpi/core/controller/api.py    | 5 ++++-
 unidist/core/backends/mpi/core/controller/common.py | 5 ++++-
 unidist/core/backends/mpi/core/worker/task_store.py | 4 +++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 298a32f..59a0d87 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -6,6 +6,7 @@
 
 import os
 import sys
+import copy
 import atexit
 import signal
 import asyncio
@@ -432,7 +433,9 @@ def get(data_ids):
     # A result that has been fetched before can be an exception of a failed task
     for data_id, value in zip(data_ids, values):
         if isinstance(value, Exception) and local_store.contains_data_owner(data_id):
-            raise value
+            # The stored exception must not refer to the frames of the caller,
+            # otherwise, the data would never be reclaimed
+            raise copy.copy(value)
 
     # Initiate reference count based cleaup
     # if all the tasks were completed
diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index 2131334..c5740c6 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -4,6 +4,7 @@
 
 """Common functionality related to `controller`."""
 
+import copy
 import itertools
 
 from unidist.core.backends.common.data_id import is_data_id
@@ -233,7 +234,9 @@ def request_worker_data(data_ids):
                 f"DataID {data_id} isn't in the requested list {data_ids}"
             )
     if exception_raised:
-        raise exception_raised
+        # The stored exception must not refer to the frames of the caller,
+        # otherwise, the data would never be reclaimed
+        raise copy.copy(exception_raised)
 
 
 def _push_local_data(dest_rank, data_id, is_blocking_op, is_serialized):
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index deade11..f406634 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -47,7 +47,9 @@ def get_transferable_exception(exception):
     """
     try:
         deserialize_complex_data(**serialize_complex_data(exception))
-        return exception
+        # The traceback refers to the arguments and the output data IDs of the task,
+        # which would never be reclaimed while the exception is stored
+        return exception.with_traceback(None)
     except Exception:
         return RuntimeError(
             "".join(traceback.format_exception_only(type(exception), exception)).strip()
-- 
2.43.0


From a5ddd1ceb82a375daca7a74555e9c6330b1c35d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:09 +0000
Subject: [PATCH 43/48] fix: a boolean setting put as a string is always
 considered positive

The negative spellings ('false', 'no', '0') are accepted by `put` but
turned the setting on, because any non-empty string is a true value.
---
 unidist/config/parameter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unidist/config/parameter.py b/unidist/config/parameter.py
index 271a344..435da07 100644
--- a/unidist/config/parameter.py
+++ b/unidist/config/parameter.py
@@ -51,7 +51,11 @@ _TYPE_PARAMS = {
     ),
     bool: TypeDescriptor(
         decode=lambda value: value.strip().lower() in {"true", "yes", "1"},
-        normalize=bool,
+        normalize=lambda value: (
+            value
+            if isinstance(value, bool)
+            else value.strip().lower() in {"true", "yes", "1"}
+        ),
         verify=lambda value: isinstance(value, bool)
         or (
             isinstance(value, str)
-- 
2.43.0


From 520ef9645eebcc0df6c3c3b940bd8a25ded235c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:09 +0000
Subject: [PATCH 44/48] fix: a value out of the supported set is accepted by
 put of a setting

The previous value was overwritten and every later `get` raised an
exception. The value is rejected at once now as other unsupported ones.
---
 unidist/config/parameter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unidist/config/parameter.py b/unidist/config/parameter.py
index 435da07..73a9c97 100644
--- a/unidist/config/parameter.py
+++ b/unidist/config/parameter.py
@@ -233,7 +233,12 @@ class Parameter(object):
         """
         if not _TYPE_PARAMS[cls.type].verify(value):
             raise ValueError(f"Unsupported value: {value}")
-        cls._value = _TYPE_PARAMS[cls.type].normalize(value)
+        value = _TYPE_PARAMS[cls.type].normalize(value)
+        if cls.choices is not None and value not in cls.choices:
+            raise ValueError(
+                f"Unsupported value '{value}'. Supported set of values is {cls.choices}."
+            )
+        cls._value = value
         cls._value_source = ValueSource.SET_BY_USER
 
 
-- 
2.43.0


From b1c02c611049e8d0c6a7d8d7491d057f00179308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:09 +0000
Subject: [PATCH 45/48] fix: environment variables with quotes or backslashes
 break the workers in MPI backend

The values were put into the program of the spawned processes without
escaping, so it had a syntax error or set the variable to another value.
---
 unidist/core/backends/mpi/core/controller/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 59a0d87..bc3f6c1 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -158,7 +158,7 @@ def init():
         if MpiSpawn.get_value_source() != ValueSource.DEFAULT:
             py_str += [f"cfg.MpiSpawn.put({MpiSpawn.get()})"]
         if MpiHosts.get_value_source() != ValueSource.DEFAULT:
-            py_str += [f"cfg.MpiHosts.put('{MpiHosts.get()}')"]
+            py_str += [f"cfg.MpiHosts.put({MpiHosts.get()!r})"]
         if CpuCount.get_value_source() != ValueSource.DEFAULT:
             py_str += [f"cfg.CpuCount.put({CpuCount.get()})"]
         if MpiPickleThreshold.get_value_source() != ValueSource.DEFAULT:
@@ -188,7 +188,7 @@ def init():
                 if option == MpiRuntimeEnv.env_vars:
                     for env_var_name, env_var_value in value.items():
                         env_vars += [
-                            f"os.environ['{env_var_name}'] = '{env_var_value}'"
+                            f"os.environ[{env_var_name!r}] = {str(env_var_value)!r}"
                         ]
             py_str += env_vars
         py_str += ["unidist.init()"]
-- 
2.43.0


From 701df976d693b7133f52cd3b588a472cfc66f2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:09 +0000
Subject: [PATCH 46/48] fix: reading the pickle threshold loses the source of
 its value in MPI backend

If it was read while the shared object store was on, the source got
overwritten, and the value set by the user was not passed to the workers
after the store had been turned off.
---
 unidist/config/backends/mpi/envvars.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/unidist/config/backends/mpi/envvars.py b/unidist/config/backends/mpi/envvars.py
index 417cfa7..b0e3504 100644
--- a/unidist/config/backends/mpi/envvars.py
+++ b/unidist/config/backends/mpi/envvars.py
@@ -56,11 +56,23 @@ class MpiPickleThreshold(EnvironmentVariable, type=int):
         """
         if MpiSharedObjectStore.get():
             mpi_pickle_threshold = MpiSharedObjectStoreThreshold.get()
-            cls.put_value_source(MpiSharedObjectStoreThreshold.get_value_source())
         else:
             mpi_pickle_threshold = super().get()
         return mpi_pickle_threshold
 
+    @classmethod
+    def get_value_source(cls):
+        """
+        Get value source of minimum buffer size for serialization with pickle 5 protocol.
+
+        Returns
+        -------
+        int
+        """
+        if MpiSharedObjectStore.get():
+            return MpiSharedObjectStoreThreshold.get_value_source()
+        return super().get_value_source()
+
 
 class MpiBackoff(EnvironmentVariable, type=float):
     """
-- 
2.43.0


From 832f3f0ea1d5112fcc7e28dc00ffa3d9d1574f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 47/48] fix: small buffers corrupt the shared memory in MPI
 backend

The multithreaded copy assumes that the data contains at least one block
boundary, otherwise it copies bytes out of the bounds of the buffers. Empty
buffers can't be addressed at all.
---
 unidist/core/backends/mpi/core/memory/_memory.pyx | 2 ++
 unidist/core/backends/mpi/core/memory/memory.cpp  | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/unidist/core/backends/mpi/core/memory/_memory.pyx b/unidist/core/backends/mpi/core/memory/_memory.pyx
index af43c07..cbe54a0 100644
--- a/unidist/core/backends/mpi/core/memory/_memory.pyx
+++ b/unidist/core/backends/mpi/core/memory/_memory.pyx
@@ -19,6 +19,8 @@ def parallel_memcopy(const uint8_t[:] src, uint8_t[:] dst, int memcopy_threads):
     memcopy_threads : int
         Number of threads to write.
     """
+    if len(src) == 0:
+        return
     with nogil:
         memory.parallel_memcopy(&dst[0],
                                 &src[0],
diff --git a/unidist/core/backends/mpi/core/memory/memory.cpp b/unidist/core/backends/mpi/core/memory/memory.cpp
index 5eba543..803399f 100644
--- a/unidist/core/backends/mpi/core/memory/memory.cpp
+++ b/unidist/core/backends/mpi/core/memory/memory.cpp
@@ -26,6 +26,12 @@ namespace unidist {
                         int64_t nbytes,
                         uintptr_t block_size,
                         int num_threads) {
+    // The layout below requires at least one block boundary in the data
+    if (nbytes < static_cast<int64_t>(block_size)) {
+      std::memcpy(dst, src, nbytes);
+      return;
+    }
+
     std::vector<std::thread> threadpool(num_threads);
     uint8_t *left = pointer_logical_and(src + block_size - 1, ~(block_size - 1));
     uint8_t *right = pointer_logical_and(src + nbytes, ~(block_size - 1));
-- 
2.43.0


From afaebb49256d4748d974b93451423ef6551df853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:31 +0000
Subject: [PATCH 48/48] fix: do not read shared data of another host while
 shutting down

A worker that has reported it is ready to shut down could still receive
PUT_SHARED_DATA and request the buffer from the monitor of the owner's host,
which may have exited already, so the worker waited forever.
---
 unidist/core/backends/mpi/core/worker/loop.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 76a3d4a..40c4d14 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -205,13 +205,17 @@ async def worker_loop():
                 )
 
         elif operation_type == common.Operation.PUT_SHARED_DATA:
-            result = pull_data(mpi_state.global_comm, source_rank)
+            if not is_cancelled:
+                result = pull_data(mpi_state.global_comm, source_rank)
 
-            # Clear cached request to another worker, if data_id became available
-            request_store.discard_data_request(result["id"])
+                # Clear cached request to another worker, if data_id became available
+                request_store.discard_data_request(result["id"])
 
-            # Check pending requests including actor ones. Maybe some data became available.
-            task_store.check_all_pending_tasks()
+                # Check pending requests including actor ones. Maybe some data became available.
+                task_store.check_all_pending_tasks()
+            else:
+                # Do not read the data because the monitor of its host may have already exited
+                communication.mpi_recv_object(mpi_state.global_comm, source_rank)
 
         elif operation_type == common.Operation.WAIT:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
-- 
2.43.0

