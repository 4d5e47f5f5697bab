From ba1aa9c4b355e493c9cc7a55c7a36997ed29180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 001/102] fix: get_results of an ordered container without
 results returns an empty list

It raised an IndexError, inside of Scheduler.get_results with the scheduler
lock held.
---
 mdp/parallel/scheduling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index db06de5..f97cd46 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -73,7 +73,7 @@ class OrderedResultContainer(ListResultContainer):
         results = self._results
         self._results = []
         results.sort(key=lambda x: x[1])
-        return list(zip(*results))[0]
+        return [result for result, _ in results]
 
 
 class TaskCallable(object):
-- 
2.43.0


From a144271839b725db8f84abf27ddf9427bebdd416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 002/102] fix: a failing task or result container no longer
 blocks a scheduler forever

The scheduler lock stayed held when the task, the result container or a
missing callable raised an exception, so that the next call hung.
Failures can now be registered and are raised by get_results.
---
 mdp/parallel/scheduling.py | 61 ++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index f97cd46..88cc337 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -214,6 +214,8 @@ class Scheduler(object):
         # count the number of submitted tasks, also used for the task index
         self._task_counter = 0
         self._lock = threading.Lock()
+        # first exception of a failed task, is raised by get_results
+        self._task_exception = None
         self._last_callable = None  # last callable is stored
         # task index of the _last_callable, can be *.5 if updated between tasks
         self._last_callable_index = -1.0
@@ -248,6 +250,7 @@ class Scheduler(object):
         self._lock.acquire()
         if task_callable is None:
             if self._last_callable is None:
+                self._lock.release()
                 raise Exception("No task_callable specified and " +
                                 "no previous callable available.")
         self._n_open_tasks += 1
@@ -290,29 +293,50 @@ class Scheduler(object):
         This function blocks to avoid any problems during result storage.
         """
         self._lock.acquire()
-        self.result_container.add_result(result, task_index)
+        try:
+            self.result_container.add_result(result, task_index)
+            if self.verbose:
+                if task_index is not None:
+                    print("    finished task no. %d" % task_index)
+                else:
+                    print("    task failed")
+        except Exception as exception:
+            if self._task_exception is None:
+                self._task_exception = exception
+        finally:
+            self._n_open_tasks -= 1
+            self._lock.release()
+
+    def _store_failure(self, exception, task_index):
+        """Register that a task failed, so that get_results raises exception.
+
+        This function blocks like _store_result.
+        """
+        self._lock.acquire()
         if self.verbose:
-            if task_index is not None:
-                print("    finished task no. %d" % task_index)
-            else:
-                print("    task failed")
+            print("    task no. %d failed" % task_index)
+        if self._task_exception is None:
+            self._task_exception = exception
         self._n_open_tasks -= 1
         self._lock.release()
 
     def get_results(self):
         """Get the accumulated results from the result container.
 
-        This method blocks if there are open tasks.
+        This method blocks if there are open tasks. If a task failed then its
+        exception is raised and the other results are discarded.
         """
         while True:
-            self._lock.acquire()
-            if self._n_open_tasks == 0:
-                results = self.result_container.get_results()
-                self._lock.release()
-                return results
-            else:
-                self._lock.release()
-                time.sleep(1)
+            with self._lock:
+                if self._n_open_tasks == 0:
+                    exception = self._task_exception
+                    self._task_exception = None
+                    results = self.result_container.get_results()
+                    break
+            time.sleep(1)
+        if exception is not None:
+            raise exception
+        return results
 
     def shutdown(self):
         """Controlled shutdown of the scheduler.
@@ -351,8 +375,13 @@ class Scheduler(object):
         task_callable must not be called. Only a forked version can be called.
         """
         # IMPORTANT: always call fork, since it must be called at least once!
-        task_callable = task_callable.fork()
-        result = task_callable(data)
+        try:
+            task_callable = task_callable.fork()
+            result = task_callable(data)
+        except:
+            self._n_open_tasks -= 1
+            self._lock.release()
+            raise
         # release lock before store_result
         self._lock.release()
         self._store_result(result, task_index)
-- 
2.43.0


From 349d943dd0291810df6d8b9cc9528c4ac4632d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 003/102] fix: set_task_callable accepts plain functions, like
 add_task

---
 mdp/parallel/scheduling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 88cc337..e167dbd 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -277,6 +277,9 @@ class Scheduler(object):
         task_callable -- Callable that will be used unless a new task_callable
             is given.
         """
+        if not hasattr(task_callable, "fork"):
+            # not a TaskCallable (probably a function), so wrap it
+            task_callable = TaskCallableWrapper(task_callable)
         self._lock.acquire()
         self._last_callable = task_callable
         # set _last_callable_index to half value since the callable is newer
-- 
2.43.0


From 52664177963a66bbb833dcb7773252cfb127ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 004/102] fix: ThreadScheduler respects n_threads and survives
 failing tasks and thread starts

The number of active threads was never incremented, so n_threads had no
effect. A failed thread start released a lock that was not held, and a
failing task was never marked as finished so that get_results hung.
---
 mdp/parallel/thread_schedule.py | 68 +++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/mdp/parallel/thread_schedule.py b/mdp/parallel/thread_schedule.py
index 09a4d11..3671996 100644
--- a/mdp/parallel/thread_schedule.py
+++ b/mdp/parallel/thread_schedule.py
@@ -52,36 +52,48 @@ class ThreadScheduler(Scheduler):
         It blocks when the maximum number of threads is reached (given by
         n_threads) or when the system is not able to start a new thread.
         """
+        while self._n_active_threads >= self._n_threads:
+            # release lock for other threads and wait
+            self._lock.release()
+            time.sleep(SLEEP_TIME)
+            self._lock.acquire()
+        self._n_active_threads += 1
+        self._lock.release()
+        try:
+            task_callable = task_callable.fork()
+            if self.copy_callable:
+                # create a deep copy of the task_callable,
+                # since it might not be thread safe 
+                # (but the fork is still required)
+                as_str = pickle.dumps(task_callable, -1)
+                task_callable = pickle.loads(as_str)
+        except:
+            with self._lock:
+                self._n_open_tasks -= 1
+                self._n_active_threads -= 1
+            raise
         task_started = False
         while not task_started:
-            if self._n_active_threads >= self._n_threads:
-                # release lock for other threads and wait
-                self._lock.release()
-                time.sleep(SLEEP_TIME)
-                self._lock.acquire()
-            else:
-                self._lock.release()
-                task_callable = task_callable.fork()
-                if self.copy_callable:
-                    # create a deep copy of the task_callable,
-                    # since it might not be thread safe 
-                    # (but the fork is still required)
-                    as_str = pickle.dumps(task_callable, -1)
-                    task_callable = pickle.loads(as_str)
-                try:
-                    thread = threading.Thread(target=self._task_thread,
-                                              args=(data, task_callable,
-                                                    task_index))
-                    thread.start()
-                    task_started = True
-                except Exception:
-                    if self.verbose:
-                        print ("unable to create new thread,"
-                               " waiting 2 seconds...")
-                    time.sleep(2)
+            try:
+                thread = threading.Thread(target=self._task_thread,
+                                          args=(data, task_callable,
+                                                task_index))
+                thread.start()
+                task_started = True
+            except Exception:
+                if self.verbose:
+                    print ("unable to create new thread,"
+                           " waiting 2 seconds...")
+                time.sleep(2)
 
     def _task_thread(self, data, task_callable, task_index):
         """Thread function which processes a single task."""
-        result = task_callable(data)
-        self._store_result(result, task_index)
-        self._n_active_threads -= 1
+        try:
+            result = task_callable(data)
+        except BaseException as exception:
+            self._store_failure(exception, task_index)
+        else:
+            self._store_result(result, task_index)
+        finally:
+            with self._lock:
+                self._n_active_threads -= 1
-- 
2.43.0


From 6c0418d56c3540c42f334e27112974fa3244b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 005/102] fix: process workers without callable caching fork
 the callable as documented

---
 mdp/parallel/process_schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index cb99cd2..3f0f29a 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -233,6 +233,7 @@ def _process_run(cache_callable=True):
                     task_callable = task_callable.fork()
                 else:
                     task_callable.setup_environment()
+                    task_callable = task_callable.fork()
                 result = task_callable(data)
                 del task_callable  # free memory
                 pickle.dump(result, pickle_out, protocol=-1)
-- 
2.43.0


From 7ba700b9062ffd95674189ae9731f35bcbbdd995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 006/102] fix: ProcessScheduler survives dead workers and tags
 worker caches correctly

A failing task or worker was never marked as finished (get_results hung),
its dead process was put back into use, a failed thread start released a
lock that was not held, and shutdown could fail because a finished process
was not yet free. The cache tag of a process was taken when the task thread
ran, not when the task was submitted, so that a task could be executed with
the callable of another one.
---
 mdp/parallel/process_schedule.py | 132 ++++++++++++++++++++-----------
 1 file changed, 84 insertions(+), 48 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index 3f0f29a..2be7e3b 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -106,32 +106,63 @@ class ProcessScheduler(Scheduler):
         if source_paths is None:
             source_paths = sys.path
         process_args += source_paths
+        self._process_args = process_args
         # list of processes not in use, start the processes now
-        self._free_processes = [subprocess.Popen(args=process_args,
-                                                 stdout=subprocess.PIPE,
-                                                 stdin=subprocess.PIPE)
+        self._free_processes = [self._start_process()
                                 for _ in range(self._n_processes)]
-        # tag each process with its cached callable task_index,
-        # this is compared with _last_callable_index to check if the cached
-        # task_callable is still up to date
-        for process in self._free_processes:
-            process._callable_index = -1
         if self.verbose:
             print ("scheduler initialized with %d processes" %
                    self._n_processes)
 
+    def _start_process(self):
+        """Start and return a new slave process."""
+        process = subprocess.Popen(args=self._process_args,
+                                   stdout=subprocess.PIPE,
+                                   stdin=subprocess.PIPE)
+        # tag each process with its cached callable task_index,
+        # this is compared with _last_callable_index to check if the cached
+        # task_callable is still up to date
+        process._callable_index = -1
+        return process
+
+    def _replace_process(self, process):
+        """Dispose a failed slave process and return a new one.
+
+        If no new process can be started then the failed one is returned
+        (starting a new one is tried again after the next failure).
+        """
+        try:
+            process.kill()
+            process.wait()
+            process.stdout.close()
+            new_process = self._start_process()
+        except Exception:
+            if self.verbose:
+                traceback.print_exc()
+            return process
+        try:
+            process.stdin.close()
+        except Exception:
+            # there might be unsent data left in the buffer
+            pass
+        return new_process
+
     def _shutdown(self):
         """Shut down the slave processes.
 
         If a process is still running a task then an exception is raised.
         """
-        self._lock.acquire()
-        if len(self._free_processes) < self._n_processes:
-            raise Exception("some slave process is still working")
-        for process in self._free_processes:
-            pickle.dump("EXIT", process.stdin)
-            process.stdin.flush()
-        self._lock.release()
+        with self._lock:
+            if len(self._free_processes) < self._n_processes:
+                raise Exception("some slave process is still working")
+            for process in self._free_processes:
+                try:
+                    pickle.dump("EXIT", process.stdin)
+                    process.stdin.flush()
+                except Exception:
+                    # this process is no longer alive
+                    if self.verbose:
+                        traceback.print_exc()
         if self.verbose:
             print("scheduler shutdown")
 
@@ -141,55 +172,60 @@ class ProcessScheduler(Scheduler):
         It blocks when the system is not able to start a new thread
         or when the processes are all in use.
         """
+        # the index must be read before the lock is released for the first time
+        callable_index = self._last_callable_index
+        while not len(self._free_processes):
+            # release lock for other threads and wait
+            self._lock.release()
+            time.sleep(SLEEP_TIME)
+            self._lock.acquire()
+        process = self._free_processes.pop()
+        self._lock.release()
+        if self._cache_callable:
+            # check if the cached callable is the right one
+            if process._callable_index != callable_index:
+                process._callable_index = callable_index
+            else:
+                task_callable = None
         task_started = False
         while not task_started:
-            if not len(self._free_processes):
-                # release lock for other threads and wait
-                self._lock.release()
-                time.sleep(SLEEP_TIME)
-                self._lock.acquire()
-            else:
-                try:
-                    process = self._free_processes.pop()
-                    self._lock.release()
-                    thread = threading.Thread(target=self._task_thread,
-                                              args=(process, data,
-                                                    task_callable, task_index))
-                    thread.start()
-                    task_started = True
-                except thread.error:
-                    if self.verbose:
-                        print ("unable to create new task thread,"
-                               " waiting 2 seconds...")
-                    time.sleep(2)
+            try:
+                thread = threading.Thread(target=self._task_thread,
+                                          args=(process, data,
+                                                task_callable, task_index))
+                thread.start()
+                task_started = True
+            except Exception:
+                if self.verbose:
+                    print ("unable to create new task thread,"
+                           " waiting 2 seconds...")
+                time.sleep(2)
 
     def _task_thread(self, process, data, task_callable, task_index):
         """Thread function which cares for a single task.
 
         The task is pushed to the process via stdin, then we wait for the
-        result on stdout, pass the result to the result container, free
-        the process and exit.
+        result on stdout, free the process, pass the result to the result
+        container and exit. If this fails then the process is replaced and
+        the failure is registered.
         """
         try:
-            if self._cache_callable:
-                # check if the cached callable is up to date
-                if process._callable_index < self._last_callable_index:
-                    process._callable_index = self._last_callable_index
-                else:
-                    task_callable = None
             # push the task to the process
             pickle.dump((data, task_callable, task_index),
                         process.stdin, protocol=-1)
             process.stdin.flush()
             # wait for result to arrive
             result = pickle.load(process.stdout)
-        except:
-            traceback.print_exc()
+        except BaseException as exception:
+            if self.verbose:
+                traceback.print_exc()
+            self._free_processes.append(self._replace_process(process))
+            self._store_failure(exception, task_index)
+        else:
+            # free the process first, so that all processes are free when
+            # there are no more open tasks
             self._free_processes.append(process)
-            sys.exit("failed to execute task %d in process:" % task_index)
-        # store the result and clean up
-        self._store_result(result, task_index)
-        self._free_processes.append(process)
+            self._store_result(result, task_index)
 
 
 def _process_run(cache_callable=True):
-- 
2.43.0


From 1e924acf7e42a26abfa3810db3e8a311804f1850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 007/102] fix: ExecuteResultContainer does not keep the forked
 nodes of earlier executions

A scheduler which was used for several parallel executions joined the forks
from all previous executions again.
---
 mdp/parallel/parallelflows.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 9eb2e44..703e3b1 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -207,6 +207,8 @@ class ExecuteResultContainer(OrderedResultContainer):
         excecute_results = super(ExecuteResultContainer, self).get_results()
         flownode_results = ([self._flownode,]
                               + ([None] * (len(excecute_results)-1)))
+        # the next results belong to another execution
+        self._flownode = None
         return list(zip(excecute_results, flownode_results))
 
 ### ParallelFlow Class ###
-- 
2.43.0


From 335d377b44bb5a2b8ead7ec651095aac0bd7b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 008/102] fix: parallel training with an iterable of schedulers
 works when nothing is left to train

Comparing the node index None with a number raised a TypeError (also at the
end of every BiFlow training), and a scheduler was shut down twice when the
next one could not be provided.
---
 bimdp/parallel/parallelbiflow.py | 18 +++++++++++-------
 mdp/parallel/parallelflows.py    | 17 ++++++++++-------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index fceac56..42c7c53 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -185,19 +185,21 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
+                                scheduler = None
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    else:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                                scheduler = None
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
@@ -221,11 +223,13 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                         self.use_results(results)
                     # check if we have to switch to next scheduler
                     if ((schedulers is not None) and
+                        (self._i_train_node is not None) and
                         (self._i_train_node > last_trained_node)):
                         # dispose unused schedulers
                         for _ in range(self._i_train_node - last_trained_node):
                             if scheduler is not None:
                                 scheduler.shutdown()
+                                scheduler = None
                             scheduler = next(schedulers)
                         last_trained_node = self._i_train_node
                         # check that the scheduler is compatible
diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 703e3b1..3cdc5d5 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -326,19 +326,21 @@ class ParallelFlow(mdp.Flow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
+                                scheduler = None
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    else:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                                scheduler = None
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
@@ -368,6 +370,7 @@ class ParallelFlow(mdp.Flow):
                         for _ in range(self._i_train_node - last_trained_node):
                             if scheduler is not None:
                                 scheduler.shutdown()
+                                scheduler = None
                             scheduler = next(schedulers)
                         last_trained_node = self._i_train_node
                         # check that the scheduler is compatible
-- 
2.43.0


From f308c534fa4a8d4e3a87baef5c4c12b15a891d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 009/102] fix: a failed parallel training or execution does not
 leave the flow in a parallel state

The flow claimed forever that parallel training is underway, kept its data
iterators (so that it could not be copied or saved) and results of the failed
run were left in the scheduler and merged into the next training.
---
 bimdp/parallel/parallelbiflow.py | 23 ++++++++++++++++++++++-
 mdp/parallel/parallelflows.py    | 30 +++++++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 42c7c53..9656981 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -239,13 +239,27 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                                             parallel.TrainResultContainer))):
                             scheduler.result_container = \
                                             parallel.TrainResultContainer()
+            except:
+                self._abort_parallel_run(scheduler)
+                raise
             finally:
                 # reset remaining iterator references, which cannot be pickled
+                self._train_data_iterables = None
+                self._train_msg_iterables = None
                 self._train_data_iterator = None
                 self._train_msg_iterator = None
                 if (schedulers is not None) and (scheduler is not None):
                     scheduler.shutdown()
 
+    def _abort_parallel_run(self, scheduler=None):
+        """Leave the parallel state after parallel training / execution failed."""
+        super(ParallelBiFlow, self)._abort_parallel_run(scheduler)
+        self._train_msg_iterables = None
+        self._train_msg_iterator = None
+        self._exec_msg_iterator = None
+        self._exec_target_iterator = None
+        self._bi_reset()
+
     def setup_parallel_training(self, data_iterables, msg_iterables=None,
                                 stop_messages=None,
                                 train_callable_class=BiFlowTrainCallable):
@@ -289,7 +303,11 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         self._stop_messages = stop_messages
         self._flownode = BiFlowNode(BiFlow(self.flow))
         self._i_train_node = 0
-        self._next_train_phase()
+        try:
+            self._next_train_phase()
+        except:
+            self._abort_parallel_run()
+            raise
 
     def _next_train_phase(self):
         """Find the next phase or node for parallel training.
@@ -463,6 +481,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 task = self.get_task()
                 scheduler.add_task(*task)
             result = self.use_results(scheduler.get_results())
+        except:
+            self._abort_parallel_run(scheduler)
+            raise
         finally:
             # reset remaining iterator references, which cannot be pickled
             self._exec_data_iterator = None
diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 3cdc5d5..f5a81b3 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -379,6 +379,9 @@ class ParallelFlow(mdp.Flow):
                             (not isinstance(scheduler.result_container,
                                             TrainResultContainer))):
                             scheduler.result_container = TrainResultContainer()
+            except:
+                self._abort_parallel_run(scheduler)
+                raise
             finally:
                 # reset iterable references, which cannot be pickled
                 self._train_data_iterables = None
@@ -386,6 +389,24 @@ class ParallelFlow(mdp.Flow):
                 if (schedulers is not None) and (scheduler is not None):
                     scheduler.shutdown()
 
+    def _abort_parallel_run(self, scheduler=None):
+        """Leave the parallel state after parallel training / execution failed.
+
+        The remaining results of the failed run are removed from the scheduler
+        (if one is given), since they must not be mixed up with later results.
+        """
+        self._i_train_node = None
+        self._next_task = None
+        self._train_data_iterables = None
+        self._train_data_iterator = None
+        self._exec_data_iterator = None
+        if isinstance(scheduler, Scheduler):
+            try:
+                scheduler.get_results()
+            except Exception:
+                # the original exception is more relevant for the user
+                pass
+
     def setup_parallel_training(self, data_iterables,
                                 train_callable_class=FlowTrainCallable):
         """Prepare the flow for handing out tasks to do the training.
@@ -414,7 +435,11 @@ class ParallelFlow(mdp.Flow):
         self._train_data_iterables = self._train_check_iterables(data_iterables)
         self._i_train_node = 0
         self._flownode = FlowNode(mdp.Flow(self.flow))
-        self._next_train_phase()
+        try:
+            self._next_train_phase()
+        except:
+            self._abort_parallel_run()
+            raise
 
     def _next_train_phase(self):
         """Find the next phase or node for parallel training.
@@ -585,6 +610,9 @@ class ParallelFlow(mdp.Flow):
                 task = self.get_task()
                 scheduler.add_task(*task)
             result = self.use_results(scheduler.get_results())
+        except:
+            self._abort_parallel_run(scheduler)
+            raise
         finally:
             # reset remaining iterator references, which cannot be pickled
             self._exec_data_iterator = None
-- 
2.43.0


From b7bb1f71967bcaf5227f62ac6f93cb68a29e3419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 010/102] fix: parallel execution closes open training phases
 like normal execution does

---
 bimdp/parallel/parallelbiflow.py |  1 +
 mdp/parallel/parallelflows.py    | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 9656981..3941fea 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -518,6 +518,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                                                            iterable,
                                                            msg_iterable,
                                                            target_iterable)
+        self._close_train_phases()
         self._exec_data_iterator = iter(iterable)
         self._exec_msg_iterator = iter(msg_iterable)
         self._exec_target_iterator = iter(target_iterable)
diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index f5a81b3..4fc18e4 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -644,6 +644,7 @@ class ParallelFlow(mdp.Flow):
         self._execute_callable_class = execute_callable_class
         if isinstance(iterable, n.ndarray):
             iterable = [iterable]
+        self._close_train_phases(nodenr)
         self._exec_data_iterator = iter(iterable)
         first_task = self._create_execute_task()
         if first_task is None:
@@ -657,6 +658,20 @@ class ParallelFlow(mdp.Flow):
                            self._execute_callable_class(self._flownode,
                                                         purge_nodes=True))
 
+    def _close_train_phases(self, nodenr=None):
+        """Close the last training phase of nodes where it is still open.
+
+        Normal execution closes them implicitly, but here this would only
+        happen in the forks.
+        """
+        if nodenr is None:
+            nodenr = len(self.flow) - 1
+        for node in self.flow[:nodenr+1]:
+            if (not isinstance(node, mdp.OnlineNode) and node.is_training() and
+                    node._train_phase_started and
+                    node.get_remaining_train_phase() == 1):
+                node.stop_training()
+
     def _create_execute_task(self):
         """Create and return a single execution task.
 
-- 
2.43.0


From bd3c5d8f2ee022245bc4fb6ce4728cbb9a31fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 011/102] fix: nodes which inherit an unsuitable
 parallelization are trained locally

---
 mdp/parallel/parallelnodes.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mdp/parallel/parallelnodes.py b/mdp/parallel/parallelnodes.py
index b0ca7cc..bec467c 100644
--- a/mdp/parallel/parallelnodes.py
+++ b/mdp/parallel/parallelnodes.py
@@ -208,6 +208,20 @@ class ParallelSFANode(ParallelExtensionNode, mdp.nodes.SFANode):
             self._join_covariance(self._dcov_mtx, forked_node._dcov_mtx)
 
 
+class ParallelNIPALSNode(ParallelExtensionNode, mdp.nodes.NIPALSNode):
+    """NIPALSNode collects the data itself, so it cannot be forked like PCA."""
+
+    def _fork(self):
+        raise NotForkableParallelException("NIPALSNode cannot be forked.")
+
+
+class ParallelVartimeSFANode(ParallelExtensionNode, mdp.nodes.VartimeSFANode):
+    """VartimeSFANode may need the previous chunk, so it cannot be forked."""
+
+    def _fork(self):
+        raise NotForkableParallelException("VartimeSFANode cannot be forked.")
+
+
 class ParallelFDANode(ParallelExtensionNode, mdp.nodes.FDANode):
 
     def _fork(self):
-- 
2.43.0


From 874d27d49a7fad9f06d749c22b510fdd1d9c20c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 012/102] fix: parallel execution respects nodenr, also for
 manually handled tasks

---
 bimdp/parallel/parallelbiflow.py | 2 +-
 mdp/parallel/parallelflows.py    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 3941fea..df69140 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -470,7 +470,6 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                               parallel.ExecuteResultContainer):
                 scheduler.result_container = parallel.ExecuteResultContainer()
         # do parallel execution
-        self._flownode = BiFlowNode(BiFlow(self.flow))
         try:
             self.setup_parallel_execution(
                                 iterable=iterable,
@@ -518,6 +517,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                                                            iterable,
                                                            msg_iterable,
                                                            target_iterable)
+        self._flownode = BiFlowNode(BiFlow(self.flow))
         self._close_train_phases()
         self._exec_data_iterator = iter(iterable)
         self._exec_msg_iterator = iter(msg_iterable)
diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 4fc18e4..816f18e 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -600,7 +600,6 @@ class ParallelFlow(mdp.Flow):
                               ExecuteResultContainer):
                 scheduler.result_container = ExecuteResultContainer()
         # do parallel execution
-        self._flownode = FlowNode(mdp.Flow(self.flow))
         try:
             self.setup_parallel_execution(
                                 iterable,
@@ -644,6 +643,8 @@ class ParallelFlow(mdp.Flow):
         self._execute_callable_class = execute_callable_class
         if isinstance(iterable, n.ndarray):
             iterable = [iterable]
+        nodes = self.flow if nodenr is None else self.flow[:nodenr+1]
+        self._flownode = FlowNode(mdp.Flow(nodes))
         self._close_train_phases(nodenr)
         self._exec_data_iterator = iter(iterable)
         first_task = self._create_execute_task()
-- 
2.43.0


From 52ac87dc811be3e1fe193ab06deb042b6c3d0a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 013/102] fix: parallel layers fork and join nodes which need
 forking in execution

---
 mdp/parallel/parallelhinet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/parallel/parallelhinet.py b/mdp/parallel/parallelhinet.py
index ac95fde..579272e 100644
--- a/mdp/parallel/parallelhinet.py
+++ b/mdp/parallel/parallelhinet.py
@@ -51,7 +51,7 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
         """Fork or copy all the nodes in the layer to fork the layer."""
         forked_nodes = []
         for node in self.nodes:
-            if node.is_training():
+            if node.is_training() or node.use_execute_fork():
                 forked_nodes.append(node.fork())
             else:
                 forked_nodes.append(node)
@@ -60,7 +60,7 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
     def _join(self, forked_node):
         """Join the trained nodes from the forked layer."""
         for i_node, layer_node in enumerate(self.nodes):
-            if layer_node.is_training():
+            if layer_node.is_training() or layer_node.use_execute_fork():
                 layer_node.join(forked_node.nodes[i_node])
     
     def use_execute_fork(self):
-- 
2.43.0


From 83a3648ff8c7a6ca689f82f7041c917932836a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 014/102] fix: layers do not repeat training phases which their
 nodes completed before

---
 mdp/hinet/layer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 1894d5d..3076321 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -52,6 +52,8 @@ class Layer(mdp.Node):
         output_dim = self._get_output_dim_from_nodes()
 
         # set layer state
+        self._pretrained_phase = [node.get_current_train_phase()
+                                  for node in nodes]
         nodes_is_training = [node.is_training() for node in nodes]
         if mdp.numx.any(nodes_is_training):
             self._is_trainable = True
@@ -135,11 +137,14 @@ class Layer(mdp.Node):
     def _get_train_seq(self):
         """Return the train sequence.
 
-        The length is set by the node with maximum length.
+        The length is set by the node with maximum length, training phases
+        which were already completed before do not count.
         """
         max_train_length = 0
-        for node in self.nodes:
-            node_length = len(node._get_train_seq())
+        for node, pretrained_phase in zip(self.nodes, self._pretrained_phase):
+            if not node.is_trainable():
+                continue
+            node_length = len(node._get_train_seq()) - pretrained_phase
             if node_length > max_train_length:
                 max_train_length = node_length
         return [[self._train, self._stop_training]] * max_train_length
@@ -309,6 +314,8 @@ class SameInputLayer(Layer):
         output_dim = self._get_output_dim_from_nodes()
 
         # set layer state
+        self._pretrained_phase = [node.get_current_train_phase()
+                                  for node in nodes]
         nodes_is_training = [node.is_training() for node in nodes]
         if mdp.numx.any(nodes_is_training):
             self._is_trainable = True
-- 
2.43.0


From beb6494a7377dd630b491375bb036bc87441596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 015/102] fix: a flow node can consist of a single node with a
 fixed output dimension

---
 mdp/hinet/flownode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index a6a10f7..f73de0c 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -82,7 +82,8 @@ class FlowNode(mdp.Node):
     def _set_output_dim(self, n):
         last_node = self._flow[-1]
         if len(self._flow) == 1:
-            self._flow[-1].output_dim = n
+            if last_node.output_dim is None:
+                last_node.output_dim = n
         elif last_node.output_dim is None:
             self._fix_nodes_dimensions()
             # check if it worked
-- 
2.43.0


From c7d661855ea759720c393b12c111b6e5b12e37a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 016/102] fix: checkpoint functions of a BiCheckpointFlow need
 not return a dictionary

---
 bimdp/biflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index c5e9395..f1508a8 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -607,7 +607,7 @@ class BiCheckpointFlow(BiFlow, mdp.CheckpointFlow):
                              msg_iterables[i_node], stop_messages[i_node])
             if i_node <= len(checkpoints) and checkpoints[i_node] is not None:
                 checkpoint_dict = checkpoints[i_node](self.flow[i_node])
-                if dict:
+                if checkpoint_dict:
                     self.__dict__.update(checkpoint_dict)
             if self.verbose:
                 print("training finished")
-- 
2.43.0


From d288f881566682a11787595aa88ce4082a6cd6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 017/102] fix: parallel checkpoint flows also call checkpoint
 functions which evaluate to False

---
 mdp/parallel/parallelflows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 816f18e..fb0386b 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -806,7 +806,7 @@ class ParallelCheckpointFlow(ParallelFlow, mdp.CheckpointFlow):
         i_node = self._i_train_node
         if self.flow[i_node].get_remaining_train_phase() == 0:
             if ((i_node <= len(self._checkpoints))
-                and self._checkpoints[i_node]):
+                and self._checkpoints[i_node] is not None):
                 dict = self._checkpoints[i_node](self.flow[i_node])
                 # store result, just like in the original CheckpointFlow
                 if dict:
-- 
2.43.0


From 801cc2733c1ace893c35bb2ec774d45cfdb5e12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 018/102] fix: parallel checkpoint flows can be trained without
 a scheduler

---
 mdp/parallel/parallelflows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index fb0386b..ec6e927 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -774,7 +774,7 @@ class ParallelCheckpointFlow(ParallelFlow, mdp.CheckpointFlow):
                                                      **kwargs)
 
     def train(self, data_iterables, checkpoints, scheduler=None,
-              train_callable_class=FlowTrainCallable,
+              train_callable_class=None,
               overwrite_result_container=True,
               **kwargs):
         """Train all trainable nodes in the flow.
-- 
2.43.0


From a5e1261869dd7f26bfb8ed6a686f73293edf10c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 019/102] fix: parallel bidirectional checkpoint flows pass on
 stop messages and train without a scheduler

---
 bimdp/parallel/parallelbiflow.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index df69140..d057ff4 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -164,8 +164,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 err = ("A train_callable_class was specified but no scheduler "
                        "was given, so the train_callable_class has no effect.")
                 raise ParallelBiFlowException(err)
-            super(ParallelBiFlow, self).train(data_iterables, msg_iterables,
-                                              stop_messages,
+            super(ParallelBiFlow, self).train(data_iterables,
+                                              msg_iterables=msg_iterables,
+                                              stop_messages=stop_messages,
                                               **kwargs)
         else:
             if train_callable_class is None:
@@ -649,10 +650,12 @@ class ParallelCheckpointBiFlow(mdp.parallel.ParallelCheckpointFlow,
                         train_callable_class=train_callable_class,
                         overwrite_result_container=overwrite_result_container,
                         msg_iterables=msg_iterables,
+                        stop_messages=stop_messages,
                         **kwargs)
 
     def setup_parallel_training(self, data_iterables, checkpoints,
                                 msg_iterables=None,
+                                stop_messages=None,
                                 train_callable_class=BiFlowTrainCallable,
                                 **kwargs):
         """Checkpoint version of parallel training."""
@@ -662,4 +665,5 @@ class ParallelCheckpointBiFlow(mdp.parallel.ParallelCheckpointFlow,
                                     checkpoints=checkpoints,
                                     train_callable_class=train_callable_class,
                                     msg_iterables=msg_iterables,
+                                    stop_messages=stop_messages,
                                     **kwargs)
-- 
2.43.0


From 13bb2f0daf44a846f4a41d246d98ec420d6f66cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 020/102] fix: flows skip already trained nodes which get no
 training data

---
 bimdp/biflow.py     | 3 ++-
 mdp/linear_flows.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index f1508a8..802fd4a 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -156,7 +156,8 @@ class BiFlow(mdp.Flow):
 
         Note: unlike the normal mdp.Flow we do no exception handling here.
         """
-        if not self.flow[nodenr].is_trainable():
+        if not self.flow[nodenr].is_training():
+            # node is not trainable or already trained
             return
         iterable, msg_iterable, _ = self._sanitize_iterables(iterable,
                                                              msg_iterable)
diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index b07946d..f2416b3 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -154,8 +154,8 @@ class Flow(object):
             err_str = ("\n! Node %d is training"
                        " but instead of iterable received 'None'." % nodenr)
             raise FlowException(err_str)
-        elif (data_iterable is None) and (not node.is_trainable()):
-            # skip training if node is not trainable
+        elif data_iterable is None:
+            # skip training if node is not trainable or already trained
             return
 
         try:
-- 
2.43.0


From 2b2069f9e7d2a0da142b3cb9e4f0e92961116cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 021/102] fix: CheckpointSaveFunction also saves nodes which
 are already trained

---
 mdp/linear_flows.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index f2416b3..191eb52 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -681,7 +681,8 @@ class CheckpointSaveFunction(CheckpointFunction):
             self.mode = 'w'
 
     def __call__(self, node):
+        # an already trained node has nothing to stop
+        if self.stop_training and node.is_training():
+            node.stop_training()
         with open(self.filename, self.mode) as fid:
-            if self.stop_training:
-                node.stop_training()
             _cPickle.dump(node, fid, self.proto)
-- 
2.43.0


From 1fe8f9f7efa06db55a00317d170106cd758d05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 022/102] fix: nodes and flows can be saved with pickle
 protocol 0

---
 mdp/linear_flows.py | 16 ++++++----------
 mdp/signal_node.py  |  5 ++---
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 191eb52..1a5f2f4 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -438,9 +438,8 @@ class Flow(object):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
-            with open(filename, mode) as flh:
+            # pickles are always written as bytes, also with protocol 0
+            with open(filename, 'wb') as flh:
                 _cPickle.dump(self, flh, protocol)
 
     def __call__(self, iterable, nodenr=None):
@@ -666,19 +665,16 @@ class CheckpointSaveFunction(CheckpointFunction):
                            closing the training phase
                            if set to 1 the training phase is closed and then
                            the node is dumped
-        'binary'        -- sets binary mode for opening the file.
-                           When using a protocol higher than 0, make sure
-                           the file is opened in binary mode.
+        'binary'        -- has no effect, the file is always opened in
+                           binary mode.
         'protocol'      -- is the 'protocol' argument for the pickle dump
                            (see Pickle documentation for details)
         """
         self.filename = filename
         self.proto = protocol
         self.stop_training = stop_training
-        if binary or protocol > 0:
-            self.mode = 'wb'
-        else:
-            self.mode = 'w'
+        # pickles are always written as bytes, also with protocol 0
+        self.mode = 'wb'
 
     def __call__(self, node):
         # an already trained node has nothing to stop
diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 3cec90d..e0d3cbf 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -721,9 +721,8 @@ class Node(with_metaclass(NodeMetaclass, object)):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'wb' if protocol != 0 else 'w'
-            with open(filename, mode) as flh:
+            # pickles are always written as bytes, also with protocol 0
+            with open(filename, 'wb') as flh:
                 _cPickle.dump(self, flh, protocol)
 
 
-- 
2.43.0


From 240445ff8702eb9a41f201b3b1fd834741ebf246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 023/102] fix: bidirectional flows do not modify the messages
 they are given

---
 bimdp/biflow.py                  |  9 ++++++++-
 bimdp/parallel/parallelbiflow.py | 17 +++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 802fd4a..57420c2 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -177,6 +177,10 @@ class BiFlow(mdp.Flow):
         empty_iterator = True
         for (x, msg) in zip(iterable, msg_iterable):
             empty_iterator = False
+            if msg:
+                # nodes consume message entries, so protect the original
+                # (which is needed again for the next training phase)
+                msg = msg.copy()
             ## execute the flow until the nodes return value is right
             i_node = 0
             while True:
@@ -253,7 +257,7 @@ class BiFlow(mdp.Flow):
         if stop_msg is None:
             result = self.flow[nodenr].stop_training()
         else:
-            result = self.flow[nodenr].stop_training(stop_msg)
+            result = self.flow[nodenr].stop_training(stop_msg.copy())
         if result is None:
             # the training phase ends here without an execute phase
             return
@@ -316,6 +320,9 @@ class BiFlow(mdp.Flow):
                 i_node = 0
             else:
                 i_node = self._target_to_index(target)
+            if msg:
+                # nodes consume message entries, so protect the original
+                msg = msg.copy()
             result = self._execute_seq(x=x, msg=msg, i_node=i_node)
             if not isinstance(result, tuple):
                 y = result
diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index d057ff4..ce3f7b9 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -35,6 +35,9 @@ class BiFlowTrainCallable(parallel.FlowTrainCallable):
         data -- tuple containing x and msg
         """
         x, msg = data
+        if msg:
+            # nodes consume message entries, so protect the original
+            msg = msg.copy()
         while True:
             result = self._flownode.train(x, msg)
             if (result is None) or isinstance(result, dict):
@@ -398,8 +401,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 print ("    finished nonparallel task no. %d" % i_task)
         # perform stop_training with result check
         self._stop_training_hook()
-        result = self._flownode.stop_training(
-                                self._stop_messages[self._i_train_node])
+        result = self._flownode.stop_training(self._get_stop_message())
         self._post_stop_training_hook()
         if (result is not None) and (not isinstance(result, dict)):
             if (isinstance(result, tuple) and
@@ -412,6 +414,14 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 raise BiFlowException(err)
         self._bi_reset()
 
+    def _get_stop_message(self):
+        """Return the stop_training message for the current node."""
+        msg = self._stop_messages[self._i_train_node]
+        if msg:
+            # nodes consume message entries, so protect the original
+            msg = msg.copy()
+        return msg
+
     def _create_train_task(self):
         """Create and return a single training task without callable.
 
@@ -568,8 +578,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 self._flownode.join(result)
             # perform local stop_training with result check
             self._stop_training_hook()
-            result = self._flownode.stop_training(
-                                    self._stop_messages[self._i_train_node])
+            result = self._flownode.stop_training(self._get_stop_message())
             self._post_stop_training_hook()
             if (result is not None):
                 target = result[2]
-- 
2.43.0


From a7b787dbff95b6aacfe96d0a4b02f6e0b3e25abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 024/102] fix: stop messages also reach the last node in a
 BiFlowNode and may continue the flow in parallel

---
 bimdp/hinet/biflownode.py        |  5 +++--
 bimdp/parallel/parallelbiflow.py | 32 +++++++++++++++-----------------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index 78d2dd2..cab82af 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -226,8 +226,9 @@ class BiFlowNode(BiNode, hinet.FlowNode):
         """Return wrapper for stop_training to set BiFlowNode outputdim."""
         # We have to overwrite the version from FlowNode to take care of the
         # optional return value.
-        def _stop_training_wrapper(*args, **kwargs):
-            result = func(*args, **kwargs)
+        # The msg argument is required to receive the message.
+        def _stop_training_wrapper(msg=None):
+            result = func(msg)
             self.output_dim = node.output_dim
             return result
         return _stop_training_wrapper
diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index ce3f7b9..d4b4359 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -403,17 +403,22 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         self._stop_training_hook()
         result = self._flownode.stop_training(self._get_stop_message())
         self._post_stop_training_hook()
-        if (result is not None) and (not isinstance(result, dict)):
-            if (isinstance(result, tuple) and
-                (result[2] in [1, -1, EXIT_TARGET])):
-                pass
-            else:
-                err = ("Target node not found in flow during " +
-                       "stop_training phase, last result: " +
-                       str(result))
-                raise BiFlowException(err)
+        self._check_stop_training_result(result)
         self._bi_reset()
 
+    @staticmethod
+    def _check_stop_training_result(result):
+        """Check the result of a stop_training execution phase.
+
+        Like in BiFlow a problem is only reported if the target was not found
+        (if there is no target then the end of the flow was reached).
+        """
+        if (isinstance(result, tuple) and (len(result) == 3) and
+            (result[2] not in [1, -1, EXIT_TARGET])):
+            err = ("Target node not found in flow during " +
+                   "stop_training phase, last result: " + str(result))
+            raise BiFlowException(err)
+
     def _get_stop_message(self):
         """Return the stop_training message for the current node."""
         msg = self._stop_messages[self._i_train_node]
@@ -580,14 +585,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             self._stop_training_hook()
             result = self._flownode.stop_training(self._get_stop_message())
             self._post_stop_training_hook()
-            if (result is not None):
-                target = result[2]
-                # values of +1, -1 and EXIT_TARGET are tolerated
-                if target not in [1, -1, EXIT_TARGET]:
-                    err = ("Target node not found in flow during " +
-                           "stop_training phase, last result: " +
-                           str(result))
-                    raise BiFlowException(err)
+            self._check_stop_training_result(result)
             self._flownode.bi_reset()
             if self.verbose:
                 print ("finished parallel training phase of node no. " +
-- 
2.43.0


From 3501a2b74a6c96e58017317d390f7581db75c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 025/102] fix: cumulating classifiers accept single labels and
 lists of labels

---
 mdp/classifier_node.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mdp/classifier_node.py b/mdp/classifier_node.py
index 41a3f1a..31d93c2 100644
--- a/mdp/classifier_node.py
+++ b/mdp/classifier_node.py
@@ -114,15 +114,14 @@ class ClassifierCumulator(VariadicCumulator('data', 'labels'), ClassifierNode):
 
     def _train(self, x, labels):
         """Cumulate all input data in a one dimensional list."""
-        self.tlen += x.shape[0]
-        self.data.extend(x.ravel().tolist())
-
         # if labels is a number, all x's belong to the same class
         if isinstance(labels, (list, tuple, numx.ndarray)):
-            pass
+            labels = numx.asarray(labels)
         else:
-            labels = [labels] * x.shape[0]
+            labels = numx.array([labels] * x.shape[0])
 
+        self.tlen += x.shape[0]
+        self.data.extend(x.ravel().tolist())
         self.labels.extend(labels.ravel().tolist())
 
     def _stop_training(self, *args, **kwargs):
-- 
2.43.0


From f6f1238a54c147b0473185b88986922d28f366ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 026/102] fix: copying a flow node does not change the original

---
 mdp/hinet/flownode.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index f73de0c..6d140b9 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -197,14 +197,11 @@ class FlowNode(mdp.Node):
         #    result of _get_train_seq).
         #
         # copy the nodes by delegation
-        old_nodes = self._flow[:]
+        old_nodes = self._flow.flow
         new_nodes = [node.copy() for node in old_nodes]
-        # now copy the rest of this flownode via deepcopy
-        self._flow.flow = None
-        new_flownode = _copy.deepcopy(self)
-        new_flownode._flow.flow = new_nodes
-        self._flow.flow = old_nodes
-        return new_flownode
+        # now copy the rest of this flownode via deepcopy, the memo tells it
+        # that the list of nodes has already been copied
+        return _copy.deepcopy(self, {id(old_nodes): new_nodes})
 
     ## container methods ##
 
-- 
2.43.0


From 95491e419a4a8bb24c388cb42d9af79c24b84401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 027/102] fix: scikits nodes can be pickled

---
 mdp/nodes/scikits_nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdp/nodes/scikits_nodes.py b/mdp/nodes/scikits_nodes.py
index e7c04b8..3a5f523 100644
--- a/mdp/nodes/scikits_nodes.py
+++ b/mdp/nodes/scikits_nodes.py
@@ -283,6 +283,8 @@ def wrap_scikits_classifier(scikits_class):
 
     # modify class name and docstring
     ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    # pickle looks up classes by their qualified name
+    ScikitsNode.__qualname__ = ScikitsNode.__name__
     ScikitsNode.__doc__ = _gen_docstring(scikits_class)
 
     # change the docstring of the methods to match the ones in sklearn
@@ -384,6 +386,8 @@ def wrap_scikits_transformer(scikits_class):
 
     # modify class name and docstring
     ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    # pickle looks up classes by their qualified name
+    ScikitsNode.__qualname__ = ScikitsNode.__name__
     ScikitsNode.__doc__ = _gen_docstring(scikits_class)
 
     # change the docstring of the methods to match the ones in sklearn
@@ -478,6 +482,8 @@ def wrap_scikits_predictor(scikits_class):
 
     # modify class name and docstring
     ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    # pickle looks up classes by their qualified name
+    ScikitsNode.__qualname__ = ScikitsNode.__name__
     ScikitsNode.__doc__ = _gen_docstring(scikits_class)
 
     # change the docstring of the methods to match the ones in sklearn
-- 
2.43.0


From 5762b9aa56fa6eb1f586835314a94704bbd3cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 028/102] fix: noise nodes can be saved with pickle protocol 0

---
 mdp/nodes/misc_nodes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index b73b0e6..0d04386 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -725,9 +725,8 @@ class NoiseNode(PreserveDimNode):
             # self.noise_func attribute.
             return real_pickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
-            with open(filename, mode) as flh:
+            # pickle files have to be binary in every protocol
+            with open(filename, 'wb') as flh:
                 real_pickle.dump(self, flh, protocol)
 
 
-- 
2.43.0


From 0d6b26465766a8e17b4ea53103cdb6734850cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 029/102] fix: hit parade nodes can be copied and pickled after
 training

---
 mdp/nodes/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/__init__.py b/mdp/nodes/__init__.py
index b2ced40..a32d2c7 100644
--- a/mdp/nodes/__init__.py
+++ b/mdp/nodes/__init__.py
@@ -81,7 +81,11 @@ if config.has_sklearn:
             __all__.append(name)
         del name
 
-utils.fixup_namespace(__name__, __all__ + ['ICANode'],
+# internal names differ from the name of the object, which would then not be
+# found by pickle
+utils.fixup_namespace(__name__,
+                      [_name for _name in __all__ if not _name.startswith('_')]
+                      + ['ICANode'],
                       ('pca_nodes',
                        'sfa_nodes',
                        'ica_nodes',
-- 
2.43.0


From e4ee4e4bbbb5a1fe678f5bff27842350f336bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 030/102] fix: a crash dump which cannot be written does not
 hide the original failure

---
 mdp/linear_flows.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 1a5f2f4..f751824 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -51,8 +51,8 @@ class CrashRecoveryException(mdp.MDPException):
             fl = _os.fdopen(fd, 'w+b', -1)
         else:
             fl = open(filename, 'w+b', -1)
-        _cPickle.dump(self.crashing_obj, fl)
-        fl.close()
+        with fl:
+            _cPickle.dump(self.crashing_obj, fl)
         return filename
 
 
@@ -79,9 +79,14 @@ class FlowExceptionCR(CrashRecoveryException, FlowException):
                 name = rec
             else:
                 name = None
-            name = CrashRecoveryException.dump(self, name)
-            dumpinfo = '\nA crash dump is available on: "%s"' % name
-            self.filename = name
+            try:
+                name = CrashRecoveryException.dump(self, name)
+                dumpinfo = '\nA crash dump is available on: "%s"' % name
+                self.filename = name
+            except Exception as e:
+                # do not hide the original failure
+                dumpinfo = ('\nThe crash dump could not be written: %s: %s' %
+                            (type(e).__name__, e))
             errstr = errstr+dumpinfo
 
         Exception.__init__(self, errstr)
-- 
2.43.0


From c017f05110c4bbdcb6a84d801500fadb10bf681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 031/102] fix: flow exceptions keep the parent exception and
 crash dump also for failures in upstream and nested nodes

---
 mdp/linear_flows.py        |  8 ++++++--
 mdp/linear_flows_online.py | 22 +---------------------
 2 files changed, 7 insertions(+), 23 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index f751824..b823ce0 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -223,15 +223,19 @@ class Flow(object):
                       " Continuing anyway." % nodenr)
             _warnings.warn(wrnstr, mdp.MDPWarning)
         except FlowExceptionCR as e:
+            if e.crashing_obj is not self:
+                # a flow inside of the node failed
+                self._propagate_exception(e, nodenr)
             # this exception was already propagated,
             # probably during the execution  of a node upstream in the flow
-            (exc_type, val) = _sys.exc_info()[:2]
             prev = ''.join(_traceback.format_exception_only(e.__class__, e))
             prev = prev[prev.find('\n')+1:]
             act = "\nWhile training node #%d (%s):\n" % (nodenr,
                                                          str(self.flow[nodenr]))
             err_str = ''.join(('\n', 40*'=', act, prev, 40*'='))
-            raise FlowException(err_str)
+            # keep the parent exception and the name of the crash dump
+            e.args = (err_str,)
+            raise
         except Exception as e:
             # capture any other exception occured during training.
             self._propagate_exception(e, nodenr)
diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index b8543f0..dc1e7cf 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -2,7 +2,7 @@ from builtins import range
 from builtins import str
 import mdp
 from mdp import numx
-from .linear_flows import FlowException, FlowExceptionCR, _sys, _traceback
+from .linear_flows import FlowException
 from collections import deque as _deque
 
 
@@ -139,16 +139,6 @@ class OnlineFlow(mdp.Flow):
 
                     # input for the next node
                     x = node.execute(x)
-                except FlowExceptionCR as e:
-                    # this exception was already propagated,
-                    # probably during the execution  of a node upstream in the flow
-                    (exc_type, val) = _sys.exc_info()[:2]
-                    prev = ''.join(_traceback.format_exception_only(e.__class__, e))
-                    prev = prev[prev.find('\n') + 1:]
-                    act = "\nWhile training node #%d (%s):\n" % (nodenr,
-                                                                 str(self.flow[nodenr]))
-                    err_str = ''.join(('\n', 40 * '=', act, prev, 40 * '='))
-                    raise FlowException(err_str)
                 except Exception as e:
                     # capture any other exception occured during training.
                     self._propagate_exception(e, nodenr)
@@ -459,16 +449,6 @@ class CircularOnlineFlow(OnlineFlow):
                         if node.is_training():
                             node.train(x)
                         x = node.execute(x)
-                    except FlowExceptionCR as e:
-                        # this exception was already propagated,
-                        # probably during the execution  of a node upstream in the flow
-                        (exc_type, val) = _sys.exc_info()[:2]
-                        prev = ''.join(_traceback.format_exception_only(e.__class__, e))
-                        prev = prev[prev.find('\n') + 1:]
-                        act = "\nWhile training node #%d (%s):\n" % (nodenr,
-                                                                     str(self.flow[nodenr]))
-                        err_str = ''.join(('\n', 40 * '=', act, prev, 40 * '='))
-                        raise FlowException(err_str)
                     except Exception as e:
                         # capture any other exception occured during training.
                         self._propagate_exception(e, nodenr)
-- 
2.43.0


From 7a6295473ab9a4866c14583fe4564a3596722bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 032/102] fix: FDANode refuses labels which are new in the
 second phase before using the data

---
 mdp/nodes/fda_nodes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mdp/nodes/fda_nodes.py b/mdp/nodes/fda_nodes.py
index 139b5df..79f3ec7 100644
--- a/mdp/nodes/fda_nodes.py
+++ b/mdp/nodes/fda_nodes.py
@@ -69,6 +69,15 @@ class FDANode(mdp.Node):
             msg = ("The number of labels should be equal to the number of "
                    "datapoints (%d != %d)" % (len(labels), x.shape[0]))
             raise mdp.TrainingException(msg)
+        if self.get_current_train_phase() == 1:
+            # only the classes of the first phase have a mean
+            if not isinstance(labels, (list, tuple, numx.ndarray)):
+                labels = [labels]
+            for label in set(numx.asarray(labels)):
+                if label not in self.means:
+                    msg = ("Label %s was not present in the first training "
+                           "phase." % str(label))
+                    raise mdp.TrainingException(msg)
 
     # Training step 1: compute mean and number of elements in each class
 
-- 
2.43.0


From fe410340124fb6c3a5e05efba2f1ef6ea1117b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 033/102] fix: IncSFANode starts a new episode only at the
 first sample

---
 mdp/nodes/sfa_nodes_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index 61adb08..6ff51a6 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -158,8 +158,6 @@ class IncSFANode(mdp.OnlineNode):
 
         if self._new_episode is None:  # Set new_episode to True for the very first sample
             self._new_episode = True
-        elif self._new_episode:  # Set new_episode to False for the subsequent samples
-            self._new_episode = False
 
     @staticmethod
     def _pseudo_check_fn(node, x):
@@ -217,6 +215,8 @@ class IncSFANode(mdp.OnlineNode):
             if new_episode is not None:
                 self._new_episode = new_episode
             sf_change = self._step_train(x)
+            # set new_episode to False for the subsequent samples
+            self._new_episode = False
 
         self.wv = self.whiteningnode.v
         self.sf_change = sf_change
-- 
2.43.0


From 781646b2bd252cd765aa80687fbca4af8f996a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 034/102] fix: ISFANode and TDSEPNode refuse too short chunks
 before using them

---
 mdp/nodes/isfa_nodes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdp/nodes/isfa_nodes.py b/mdp/nodes/isfa_nodes.py
index b8cc69e..c8ef928 100644
--- a/mdp/nodes/isfa_nodes.py
+++ b/mdp/nodes/isfa_nodes.py
@@ -280,6 +280,13 @@ class ISFANode(Node):
         else:
             self._effective_input_dim = n
 
+    def _check_train_args(self, x):
+        # check this before any of the covariance matrices is updated
+        if x.shape[0] <= max(self.lags):
+            raise mdp.TrainingException(
+                'Block length is %d, should be at least %d.'
+                % (x.shape[0], max(self.lags) + 1))
+
     def _train(self, x):
         # train the whitening node if needed
         if not self.whitened:
-- 
2.43.0


From 875c710a3232abf1ccee1e27c5110024c4a9069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 035/102] fix: layers check training arguments for all nodes
 before training any of them

---
 mdp/hinet/layer.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 3076321..87d6000 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -149,6 +149,17 @@ class Layer(mdp.Node):
                 max_train_length = node_length
         return [[self._train, self._stop_training]] * max_train_length
 
+    def _check_train_args(self, x, *args, **kwargs):
+        """Let all nodes check the arguments before any of them is trained."""
+        start_index = 0
+        stop_index = 0
+        for node in self.nodes:
+            start_index = stop_index
+            stop_index += node.input_dim
+            if node.is_training():
+                node._check_train_args(x[:, start_index: stop_index],
+                                       *args, **kwargs)
+
     def _train(self, x, *args, **kwargs):
         """Perform single training step by training the internal nodes."""
         start_index = 0
@@ -333,6 +344,12 @@ class SameInputLayer(Layer):
     def is_invertible():
         return False
 
+    def _check_train_args(self, x, *args, **kwargs):
+        """Let all nodes check the arguments before any of them is trained."""
+        for node in self.nodes:
+            if node.is_training():
+                node._check_train_args(x, *args, **kwargs)
+
     def _train(self, x, *args, **kwargs):
         """Perform single training step by training the internal nodes."""
         for node in self.nodes:
-- 
2.43.0


From 2c1026d992239cb2066d0a41d680eceb846f77ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 036/102] fix: calls refused by a node do not close its
 training phase

Executing or inverting a node with open training phases closed the current
phase before it was refused, malformed data closed the training and an empty
chunk fixed the input dimension.
---
 mdp/signal_node.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index e0d3cbf..bf224ac 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -472,6 +472,10 @@ class Node(with_metaclass(NodeMetaclass, object)):
             error_str = "x has rank %d, should be 2" % (x.ndim)
             raise NodeException(error_str)
 
+        if x.shape[0] == 0:
+            error_str = "x must have at least one observation (zero given)"
+            raise NodeException(error_str)
+
         # set the input dimension if necessary
         if self.input_dim is None:
             self.input_dim = x.shape[1]
@@ -486,10 +490,6 @@ class Node(with_metaclass(NodeMetaclass, object)):
                                                               self.input_dim)
             raise NodeException(error_str)
 
-        if x.shape[0] == 0:
-            error_str = "x must have at least one observation (zero given)"
-            raise NodeException(error_str)
-
     def _check_output(self, y):
         # check output rank
         if not y.ndim == 2:
@@ -504,11 +504,12 @@ class Node(with_metaclass(NodeMetaclass, object)):
 
     def _if_training_stop_training(self):
         if self.is_training():
-            self.stop_training()
             # if there is some training phases left we shouldn't be here!
-            if self.get_remaining_train_phase() > 0:
+            # (this must not close the current phase)
+            if self.get_remaining_train_phase() > 1:
                 error_str = "The training phases are not completed yet."
                 raise TrainingException(error_str)
+            self.stop_training()
 
     def _pre_execution_checks(self, x):
         """This method contains all pre-execution checks.
@@ -525,11 +526,11 @@ class Node(with_metaclass(NodeMetaclass, object)):
                 else:
                     break
 
-        self._if_training_stop_training()
-
-        # control the dimension x
+        # control the dimension x (before the training is closed)
         self._check_input(x)
 
+        self._if_training_stop_training()
+
         # set the output dimension if necessary
         if self.output_dim is None:
             self.output_dim = self.input_dim
@@ -542,6 +543,10 @@ class Node(with_metaclass(NodeMetaclass, object)):
         if not self.is_invertible():
             raise IsNotInvertibleException("This node is not invertible.")
 
+        # do not close the training if y can not be right
+        if self._output_dim is not None:
+            self._check_output(y)
+
         self._if_training_stop_training()
 
         # set the output dimension if necessary
-- 
2.43.0


From 70b9789d7640d2787cd7871b251757bf0b60f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 037/102] fix: a refused execution of a layer does not train or
 close some of its nodes

---
 mdp/hinet/layer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 87d6000..2a17b3c 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -180,6 +180,11 @@ class Layer(mdp.Node):
 
     def _pre_execution_checks(self, x):
         """Make sure that output_dim is set and then perform normal checks."""
+        if self.output_dim is None:
+            # refuse bad data and open training phases for the whole layer
+            self._check_input(x)
+            if self._train_phase_started:
+                self._if_training_stop_training()
         if self.output_dim is None:
             # first make sure that the output_dim is set for all nodes
             in_start = 0
@@ -358,6 +363,11 @@ class SameInputLayer(Layer):
 
     def _pre_execution_checks(self, x):
         """Make sure that output_dim is set and then perform nromal checks."""
+        if self.output_dim is None:
+            # refuse bad data and open training phases for the whole layer
+            self._check_input(x)
+            if self._train_phase_started:
+                self._if_training_stop_training()
         if self.output_dim is None:
             # first make sure that the output_dim is set for all nodes
             for node in self.nodes:
-- 
2.43.0


From 2e05d4282d6fd52c9fb0fc8ef3b33a1fbd822e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 038/102] fix: deactivating extensions restores exactly the
 original attributes

Static methods were restored as plain functions, inherited methods were
injected into subclasses or own methods lost if a superclass is extended too,
the hidden original vanished with the extension of a superclass, a colliding
activation removed attributes of the other extension and attributes registered
for an active extension destroyed the original ones on deactivation.
---
 mdp/extension.py | 105 +++++++++++++++++++++++++++--------------------
 1 file changed, 60 insertions(+), 45 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 21f765d..f942fdb 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -56,6 +56,12 @@ _NON_EXTENSION_ATTRIBUTES = [
 _SETUP_FUNC_ATTR = "_extension_setup"
 _TEARDOWN_FUNC_ATTR = "_extension_teardown"
 
+# marks a missing original attribute
+_NO_ATTRIBUTE = object()
+# (node class, attribute name) of the extended attributes for which the original
+# attribute is inherited from a superclass
+_inherited_originals = set()
+
 # dict of dicts of dicts, contains a key for each extension,
 # the inner dict maps the node types to their extension node,
 # the innermost dict then maps attribute names to values
@@ -293,6 +299,25 @@ def get_active_extensions():
     # value is used in a for-loop (see deactivate_extensions function)
     return list(_active_extensions)
 
+def _get_original_attribute(classes, attr_name):
+    """Return an attribute as it is without any extensions.
+
+    classes -- Classes to be searched, in method resolution order.
+
+    The attribute is returned as it is stored in the class (e.g. the
+    staticmethod object), if there is none then _NO_ATTRIBUTE is returned.
+    """
+    for cls in classes:
+        if (cls, attr_name) in _inherited_originals:
+            continue
+        if _EXTENSION_ATTR_PREFIX + attr_name in cls.__dict__:
+            name = ORIGINAL_ATTR_PREFIX + attr_name
+        else:
+            name = attr_name
+        if name in cls.__dict__:
+            return cls.__dict__[name]
+    return _NO_ATTRIBUTE
+
 def activate_extension(extension_name, verbose=False):
     """Activate the extension by injecting the extension methods."""
     if extension_name not in list(_extensions.keys()):
@@ -313,26 +338,26 @@ def activate_extension(extension_name, verbose=False):
                 if verbose:
                     print ("extension %s: adding %s to %s" %
                            (extension_name, attr_name, node_cls.__name__))
-                ## store the original attribute / make it available
                 ext_attr_name = _EXTENSION_ATTR_PREFIX + attr_name
-                if attr_name in dir(node_cls):
-                    if ext_attr_name in node_cls.__dict__:
-                        # two extensions override the same attribute
-                        err = ("Name collision for attribute '" +
-                               attr_name + "' between extension '" +
-                               getattr(node_cls, ext_attr_name)
-                               + "' and newly activated extension '" +
-                               extension_name + "'.")
-                        raise ExtensionException(err)
-                    # only overwrite the attribute if the extension is not
-                    # yet active on this class or its superclasses
-                    if ext_attr_name not in dir(node_cls):
-                        original_attr = getattr(node_cls, attr_name)
-                        if verbose:
-                            print ("extension %s: overwriting %s in %s" %
-                                (extension_name, attr_name, node_cls.__name__))
-                        setattr(node_cls, ORIGINAL_ATTR_PREFIX + attr_name,
-                                original_attr)
+                if ext_attr_name in node_cls.__dict__:
+                    # two extensions override the same attribute
+                    err = ("Name collision for attribute '" +
+                           attr_name + "' between extension '" +
+                           getattr(node_cls, ext_attr_name)
+                           + "' and newly activated extension '" +
+                           extension_name + "'.")
+                    raise ExtensionException(err)
+                ## store the original attribute / make it available
+                original_attr = _get_original_attribute(node_cls.__mro__,
+                                                        attr_name)
+                if original_attr is not _NO_ATTRIBUTE:
+                    if verbose:
+                        print ("extension %s: overwriting %s in %s" %
+                               (extension_name, attr_name, node_cls.__name__))
+                    setattr(node_cls, ORIGINAL_ATTR_PREFIX + attr_name,
+                            original_attr)
+                    if attr_name not in node_cls.__dict__:
+                        _inherited_originals.add((node_cls, attr_name))
                 setattr(node_cls, attr_name, attr_value)
                 # store to which extension this attribute belongs, this is also
                 # used as a flag that this is an extension attribute
@@ -354,37 +379,27 @@ def deactivate_extension(extension_name, verbose=False):
             continue
         for attr_name in list(attributes.keys()):
             original_name = ORIGINAL_ATTR_PREFIX + attr_name
+            ext_attr_name = _EXTENSION_ATTR_PREFIX + attr_name
+            if node_cls.__dict__.get(ext_attr_name) != extension_name:
+                # was not injected, e.g. because the activation failed or
+                # because it was registered after the activation
+                continue
             if verbose:
                 print ("extension %s: removing %s from %s" %
                        (extension_name, attr_name, node_cls.__name__))
+            delattr(node_cls, attr_name)
+            delattr(node_cls, ext_attr_name)
             if original_name in node_cls.__dict__:
-                # restore the original attribute
-                if verbose:
-                    print ("extension %s: restoring %s in %s" %
-                           (extension_name, attr_name, node_cls.__name__))
-                delattr(node_cls, attr_name)
-                original_attr = getattr(node_cls, original_name)
-                # Check if the attribute is defined by one of the super
-                # classes and test if the overwritten method is not that
-                # method, otherwise we would inject unwanted methods.
-                # Note: '==' tests identity for .__func__ and .__self__,
-                #    but .im_class does not matter in Python 2.6.
-                if all([getattr(x, attr_name, None) !=
-                           original_attr for x in node_cls.__mro__[1:]]):
-                    setattr(node_cls, attr_name, original_attr)
+                original_attr = node_cls.__dict__[original_name]
                 delattr(node_cls, original_name)
-            else:
-                try:
-                    # no original attribute to restore, so simply delete
-                    # might be missing if the activation failed
-                    delattr(node_cls, attr_name)
-                except AttributeError:
-                    pass
-            try:
-                # might be missing if the activation failed
-                delattr(node_cls, _EXTENSION_ATTR_PREFIX + attr_name)
-            except AttributeError:
-                pass
+                if (node_cls, attr_name) in _inherited_originals:
+                    # must not be injected into this class
+                    _inherited_originals.remove((node_cls, attr_name))
+                else:
+                    if verbose:
+                        print ("extension %s: restoring %s in %s" %
+                               (extension_name, attr_name, node_cls.__name__))
+                    setattr(node_cls, attr_name, original_attr)
     if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
         _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
     _active_extensions.remove(extension_name)
-- 
2.43.0


From 50354030897e806c4849d11b110275d274368468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 039/102] fix: failing or repeated activations of extensions
 leave others alone

A failing group activation deactivated all extensions, a failing teardown
function left its extension listed as active and skipped those after it, an
extension context entered twice or given an iterator did not deactivate.
---
 mdp/extension.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index f942fdb..097da4c 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -362,7 +362,7 @@ def activate_extension(extension_name, verbose=False):
                 # store to which extension this attribute belongs, this is also
                 # used as a flag that this is an extension attribute
                 setattr(node_cls, ext_attr_name, extension_name)
-    except Exception:
+    except:
         # make sure that an incomplete activation is reverted
         deactivate_extension(extension_name)
         raise
@@ -400,23 +400,28 @@ def deactivate_extension(extension_name, verbose=False):
                         print ("extension %s: restoring %s in %s" %
                                (extension_name, attr_name, node_cls.__name__))
                     setattr(node_cls, attr_name, original_attr)
-    if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
-        _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
-    _active_extensions.remove(extension_name)
+    try:
+        if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
+            _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
+    finally:
+        _active_extensions.remove(extension_name)
 
 def activate_extensions(extension_names, verbose=False):
     """Activate all the extensions for the given names.
 
     extension_names -- Sequence of extension names.
     """
+    activated = []
     try:
         for extension_name in extension_names:
+            was_active = extension_name in _active_extensions
             activate_extension(extension_name, verbose=verbose)
+            if not was_active:
+                activated.append(extension_name)
     except:
-        # if something goes wrong deactivate all, otherwise we might be
-        # in an inconsistent state (e.g. methods for active extensions might
-        # have been removed)
-        deactivate_extensions(get_active_extensions())
+        # if something goes wrong deactivate all the extensions that were
+        # activated here (a failed activation is reverted)
+        deactivate_extensions(activated)
         raise
 
 def deactivate_extensions(extension_names, verbose=False):
@@ -424,8 +429,14 @@ def deactivate_extensions(extension_names, verbose=False):
 
     extension_names -- Sequence of extension names.
     """
-    for extension_name in extension_names:
-        deactivate_extension(extension_name, verbose=verbose)
+    extension_names = list(extension_names)
+    try:
+        while extension_names:
+            deactivate_extension(extension_names.pop(0), verbose=verbose)
+    finally:
+        # a failing teardown function must not keep the others active
+        if extension_names:
+            deactivate_extensions(extension_names, verbose=verbose)
 
 # TODO: add check that only extensions are deactivated that were
 #    originally activcated by this extension (same in context manager)
@@ -489,14 +500,15 @@ class extension(object):
     def __init__(self, ext_names):
         if isinstance(ext_names, __builtins__['str']):
             ext_names = [ext_names]
-        self.ext_names = ext_names
+        self.ext_names = list(ext_names)
+        # one entry each time the context is entered (it might be nested)
         self.deactivate_exts = []
 
     def __enter__(self):
         already_active = get_active_extensions()
-        self.deactivate_exts = [ext_name for ext_name in self.ext_names
-                                if ext_name not in already_active]
         activate_extensions(self.ext_names)
+        self.deactivate_exts.append([ext_name for ext_name in self.ext_names
+                                     if ext_name not in already_active])
 
     def __exit__(self, type, value, traceback):
-        deactivate_extensions(self.deactivate_exts)
+        deactivate_extensions(self.deactivate_exts.pop())
-- 
2.43.0


From 64bf0e83448c5394b2eaef2d0229bcc2acd2ceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:56 +0000
Subject: [PATCH 040/102] fix: extensions of a node method also reach classes
 deeper in the hierarchy which redefine the private method

---
 mdp/signal_node.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index bf224ac..7fd9710 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -88,15 +88,20 @@ class NodeMetaclass(type):
 
             recursed = hasattr(orig_pubmethod, '_undecorated_')
             if recursed:
+                # Skip the inherited wrapper (it can have another signature),
+                # but still look up the public method when it is called,
+                # otherwise extensions of the ancestor would be bypassed.
                 undec_pubmethod = orig_pubmethod._undecorated_
+                wrapped_cls = orig_pubmethod._wrapper_class_
                 priv_info.update(NodeMetaclass._get_infos(undec_pubmethod))
-                wrapper_method = cls._wrap_function(undec_pubmethod,
-                                                    priv_info)
+                wrapper_method = cls._wrap_method(priv_info, wrapped_cls)
                 wrapper_method._undecorated_ = undec_pubmethod
+                wrapper_method._wrapper_class_ = wrapped_cls
             else:
                 priv_info.update(NodeMetaclass._get_infos(orig_pubmethod))
                 wrapper_method = cls._wrap_method(priv_info, new_cls)
                 wrapper_method._undecorated_ = orig_pubmethod
+                wrapper_method._wrapper_class_ = new_cls
 
             setattr(new_cls, wrapper_name, wrapper_method)
         return new_cls
-- 
2.43.0


From 2238a623528fe5b25cf83ab3974423f022364d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:56 +0000
Subject: [PATCH 041/102] fix: a cache directory which could not be created is
 not taken for the current one

---
 mdp/caching/caching_extension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index fcb24b8..a1823c9 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -54,8 +54,9 @@ def set_cachedir(cachedir=None, verbose=0):
 
     # only reset if the directory changes
     if cachedir != _cachedir:
-        _cachedir = cachedir
+        # this can fail, e.g. if the directory cannot be created
         _memory = joblib.Memory(cachedir, verbose=verbose)
+        _cachedir = cachedir
         # reset cached methods
         _cached_methods.clear()
 
-- 
2.43.0


From 17c6cd66c14da164c35db04bd4ce21cfaf965841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 042/102] fix: removing an instance from caching also works if
 it was added several times

---
 mdp/caching/caching_extension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index a1823c9..bb52a7f 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -102,7 +102,8 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
         if active:
             _cached_instances.append(self)
         else:
-            if self in _cached_instances:
+            # it can have been added several times
+            while self in _cached_instances:
                 _cached_instances.remove(self)
 
     def execute(self, x, *args, **kwargs):
-- 
2.43.0


From 3a8daa3b4b0db1c117b6ceb0458374f148750366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 043/102] fix: a failed first execution of a cached node does
 not prevent the checks before the next one

---
 mdp/caching/caching_extension.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index bb52a7f..c1d892b 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -116,12 +116,13 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
 
         if self not in _cached_methods:
             global _memory
-            _cached_methods[self] = _memory.cache(
-                self._non_extension_execute.__func__)
             # execute pre-execution checks once so that all automatic
             # settings of things like dtype and input_dim are done, and
             # caching begins from first execution, not the second
+            # (if they fail they have to be repeated the next time)
             self._pre_execution_checks(x)
+            _cached_methods[self] = _memory.cache(
+                self._non_extension_execute.__func__)
 
         return _cached_methods[self](self, x, *args, **kwargs)
 
-- 
2.43.0


From 325b6fa41cf9490b2b85cd532c3ee77c65a86891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 044/102] fix: a failed activation of the caching extension
 leaves no selection behind

---
 mdp/caching/caching_extension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index c1d892b..f016e91 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -155,6 +155,8 @@ def activate_caching(cachedir=None,
     global _cached_instances
 
     set_cachedir(cachedir=cachedir, verbose=verbose)
+    # if this fails the selection below must not stay behind
+    activate_extension('cache_execute')
     _cache_active_global = (cache_classes is None and cache_instances is None)
 
     # active cache for specific classes and instances
@@ -163,8 +165,6 @@ def activate_caching(cachedir=None,
     if cache_instances is not None:
         _cached_instances = list(cache_instances)
 
-    activate_extension('cache_execute')
-
 def deactivate_caching(cachedir=None):
     """De-activate caching extension."""
     deactivate_extension('cache_execute')
-- 
2.43.0


From 076057a0127d82d7c0274eeb542d911a805c98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 045/102] fix: the clean-up of a temporary directory does not
 follow symbolic links to other directories

---
 mdp/utils/temporarydir.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mdp/utils/temporarydir.py b/mdp/utils/temporarydir.py
index ac2a082..551e57a 100644
--- a/mdp/utils/temporarydir.py
+++ b/mdp/utils/temporarydir.py
@@ -35,7 +35,9 @@ class TemporaryDirectory(object):
     def cleanup(self, _warn=False):
         if self.name and not self._closed:
             try:
-                self._rmtree(self.name)
+                # never follow a link which was put in place of the directory
+                if not self._islink(self.name):
+                    self._rmtree(self.name)
             except (TypeError, AttributeError) as ex:
                 # Issue #10188: Emit a warning on stderr
                 # if the directory could not be cleaned
@@ -62,6 +64,7 @@ class TemporaryDirectory(object):
     _listdir = staticmethod(_os.listdir)
     _path_join = staticmethod(_os.path.join)
     _isdir = staticmethod(_os.path.isdir)
+    _islink = staticmethod(_os.path.islink)
     _remove = staticmethod(_os.remove)
     _rmdir = staticmethod(_os.rmdir)
     _os_error = _os.error
@@ -72,7 +75,9 @@ class TemporaryDirectory(object):
         for name in self._listdir(path):
             fullname = self._path_join(path, name)
             try:
-                isdir = self._isdir(fullname)
+                # links to directories are removed, not followed
+                isdir = (self._isdir(fullname) and
+                         not self._islink(fullname))
             except self._os_error:
                 isdir = False
             if isdir:
-- 
2.43.0


From 260bd99fc7e4f4b4674a6e1019d157da0b8c6aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:44 +0000
Subject: [PATCH 046/102] fix: entries which vanish during the clean-up of a
 temporary directory do not stop it

---
 mdp/utils/temporarydir.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/temporarydir.py b/mdp/utils/temporarydir.py
index 551e57a..615c19a 100644
--- a/mdp/utils/temporarydir.py
+++ b/mdp/utils/temporarydir.py
@@ -81,7 +81,11 @@ class TemporaryDirectory(object):
             except self._os_error:
                 isdir = False
             if isdir:
-                self._rmtree(fullname)
+                try:
+                    self._rmtree(fullname)
+                except self._os_error:
+                    # e.g. it was removed by somebody else in the meantime
+                    pass
             else:
                 try:
                     self._remove(fullname)
-- 
2.43.0


From 105fc64d5cd804dfa1e77a492f5929d28aecec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 047/102] fix: progressinfo works with empty sequences

---
 mdp/utils/progress_bar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/progress_bar.py b/mdp/utils/progress_bar.py
index b113074..42c6dcc 100644
--- a/mdp/utils/progress_bar.py
+++ b/mdp/utils/progress_bar.py
@@ -239,6 +239,7 @@ def progressinfo(sequence, length = None, style = 'bar', custom = None):
 
     # start main loop
     last = None
+    count = -1
     for count, value in enumerate(sequence):
         # generate progress info
         if iterate_on_items:
@@ -248,7 +249,7 @@ def progressinfo(sequence, length = None, style = 'bar', custom = None):
         yield value
     else:
         # we need this for the 100% notice
-        if iterate_on_items:
+        if iterate_on_items or count == -1:
             last = _progress(1., last, style, layout)
         else:
             last = _progress(old_div((count+1),length), last, style, layout)
-- 
2.43.0


From 399141e24166f728482796b74fe5b315073b065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 048/102] fix: the time estimate of progressinfo works without
 progress, from any start and in nested loops

---
 mdp/utils/progress_bar.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mdp/utils/progress_bar.py b/mdp/utils/progress_bar.py
index 42c6dcc..0a74360 100644
--- a/mdp/utils/progress_bar.py
+++ b/mdp/utils/progress_bar.py
@@ -75,8 +75,10 @@ def _progress(percent, last, style, layout):
                 e_t_a = old_div(elapsed,percent) - elapsed
             else:
                 # instantaneous speed
-                progress = percent-_progress.last_percent
-                e_t_a = (1 - percent)/progress*(now-_progress.last_time)
+                progress = percent-layout['last_percent']
+                if progress:
+                    layout['last_speed'] = (now-layout['last_time'])/progress
+                e_t_a = (1 - percent)*layout['last_speed']
             # build the time box
             tbox = ''.join([fmt_time(elapsed, layout['delimiters']),
                             layout['separator'],
@@ -95,8 +97,9 @@ def _progress(percent, last, style, layout):
                            ' ',
                            percent_s])
 
-        _progress.last_percent = percent
-        _progress.last_time = now
+        # keep these per loop, several loops can be active at the same time
+        layout['last_percent'] = percent
+        layout['last_time'] = now
 
     # print it only if something changed from last time
     if box != last:
@@ -233,6 +236,8 @@ def progressinfo(sequence, length = None, style = 'bar', custom = None):
                    }
         if custom is not None:
             layout.update(custom)
+        layout.update(last_percent=0., last_time=layout['t_start'],
+                      last_speed=0.)
     else:
         err_str = "Style `%s' not known." % style
         raise ValueError(err_str)
-- 
2.43.0


From c8e00b8defd226721b849a90927174f2e4c351b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:21 +0000
Subject: [PATCH 049/102] fix: progressinfo survives jumps of the clock

---
 mdp/utils/progress_bar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/progress_bar.py b/mdp/utils/progress_bar.py
index 0a74360..60313ca 100644
--- a/mdp/utils/progress_bar.py
+++ b/mdp/utils/progress_bar.py
@@ -31,7 +31,11 @@ def get_termsize():
 
 def fmt_time(t, delimiters):
     """Return time formatted as a timedelta object."""
-    meta_t = timedelta(seconds=round(t))
+    try:
+        meta_t = timedelta(seconds=round(t))
+    except OverflowError:
+        # e.g. after a jump of the clock
+        meta_t = '?'
     return ''.join([delimiters[0], str(meta_t), delimiters[1]])
 
 def _progress(percent, last, style, layout):
-- 
2.43.0


From 1f8f67048e82b24dcf461115771d7a0d921a117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:51 +0000
Subject: [PATCH 050/102] fix: assigning an iterator to a flow slice no longer
 drops its nodes

---
 mdp/linear_flows.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index b823ce0..73fd9e1 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -506,6 +506,8 @@ class Flow(object):
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
+            # the value might be a one-shot iterator
+            value = list(value)
             [self._check_value_type_isnode(item) for item in value]
         else:
             self._check_value_type_isnode(value)
-- 
2.43.0


From 1551213ce59f37156b4fe200d454de58bc830d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:51 +0000
Subject: [PATCH 051/102] fix: in-place addition to a flow checks first and
 leaves the caller's list alone

---
 mdp/linear_flows.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 73fd9e1..110265a 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -558,14 +558,17 @@ class Flow(object):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % (type(other).__name__))
             raise TypeError(err_str)
-        self._check_nodes_consistency(self.flow)
+        # check dimension consistency
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
         return self
 
     # public container methods
-- 
2.43.0


From be3d37a241132811b67458a6052e6a45e0654a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 052/102] fix: initial eigenvectors given to the constructor of
 online nodes are used

---
 mdp/nodes/mca_nodes_online.py | 3 +++
 mdp/nodes/pca_nodes_online.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mdp/nodes/mca_nodes_online.py b/mdp/nodes/mca_nodes_online.py
index 653a234..23a08f5 100755
--- a/mdp/nodes/mca_nodes_online.py
+++ b/mdp/nodes/mca_nodes_online.py
@@ -111,6 +111,9 @@ class MCANode(mdp.OnlineNode):
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.output_dim).astype(self.dtype)
             else:
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.input_dim).astype(self.dtype)
+        elif self.v is None:
+            # the vectors were given to the constructor
+            self.init_eigen_vectors = self._init_v
 
     def _train(self, x):
         """Update the minor components."""
diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index a5b482a..e7f967f 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -121,6 +121,9 @@ class CCIPCANode(mdp.OnlineNode):
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.output_dim).astype(self.dtype)
             else:
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.input_dim).astype(self.dtype)
+        elif self.v is None:
+            # the vectors were given to the constructor
+            self.init_eigen_vectors = self._init_v
 
     def _amnesic(self, n):
         """Return amnesic weights.
-- 
2.43.0


From 0eda88cb3e7368ce1b9f99eb04a2782ba5ac103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 053/102] fix: CCIPCANode does not claim to support batch
 training, which always failed

---
 mdp/nodes/pca_nodes_online.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index e7f967f..a9870a0 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -125,6 +125,10 @@ class CCIPCANode(mdp.OnlineNode):
             # the vectors were given to the constructor
             self.init_eigen_vectors = self._init_v
 
+    def _get_supported_training_types(self):
+        # the update rule is only defined for single observations
+        return ['incremental']
+
     def _amnesic(self, n):
         """Return amnesic weights.
         
-- 
2.43.0


From f0604a03bb7fc5bacfc90ee0134dd0af3bc3f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 054/102] fix: OnlineTimeDiffNode keeps the previous sample in
 batch training

---
 mdp/nodes/stats_nodes_online.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/stats_nodes_online.py b/mdp/nodes/stats_nodes_online.py
index 0b99c92..774fd6e 100644
--- a/mdp/nodes/stats_nodes_online.py
+++ b/mdp/nodes/stats_nodes_online.py
@@ -169,12 +169,13 @@ class OnlineTimeDiffNode(mdp.PreserveDimOnlineNode):
 
     def _check_params(self, x):
         if self.x_prev is None:
-            self.x_prev = mdp.numx.zeros(x.shape, dtype=self.dtype)
-            self.x_cur = mdp.numx.zeros(x.shape, dtype=self.dtype)
+            self.x_prev = mdp.numx.zeros((1, x.shape[1]), dtype=self.dtype)
+            self.x_cur = mdp.numx.zeros((1, x.shape[1]), dtype=self.dtype)
 
     def _train(self, x):
         """Update the buffer."""
-        self.x_prev = self.x_cur
+        x = mdp.numx.vstack((self.x_cur, x))
+        self.x_prev = x[-2:-1]
         self.x_cur = x[-1:]
 
     @staticmethod
-- 
2.43.0


From 26b2cf2a8c04c6d1bd46f87cba367b5832975e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 055/102] fix: IncSFANode uses the first chunk only once and
 can be used without mean removal

---
 mdp/nodes/sfa_nodes_online.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index 6ff51a6..57d061a 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -146,9 +146,9 @@ class IncSFANode(mdp.OnlineNode):
         if self._init_sf is None:
             if self.remove_mean:
                 self._pseudo_check_fn(self.avgnode, x)
-            x = self.avgnode.execute(x)
             self._pseudo_check_fn(self.whiteningnode, x)
-            x = self.whiteningnode.execute(x)
+            # this must not train the whitening node
+            x = self.whiteningnode._execute(x)
             self._pseudo_check_fn(self.tdiffnode, x)
             self._pseudo_check_fn(self.mcanode, x)
             self._init_sf = mult(self.whiteningnode.init_eigen_vectors, self.mcanode.init_eigen_vectors)
@@ -235,7 +235,10 @@ class IncSFANode(mdp.OnlineNode):
 
         :return: The inverse of the slow feature response.
         """
-        return mult(y, pinv(self.sf)) + self.avgnode.avg
+        x = mult(y, pinv(self.sf))
+        if self.remove_mean:
+            x = x + self.avgnode.avg
+        return x
 
     def __repr__(self):
         """Print all args.
-- 
2.43.0


From fa7f14133d10c29175066644953e13e40b0b3e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 056/102] fix: online layers are trained like online nodes and
 count their training iterations

---
 mdp/hinet/layer_online.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mdp/hinet/layer_online.py b/mdp/hinet/layer_online.py
index 9911284..f787638 100644
--- a/mdp/hinet/layer_online.py
+++ b/mdp/hinet/layer_online.py
@@ -94,6 +94,11 @@ class OnlineLayer(Layer, mdp.OnlineNode):
         """
         return mdp.OnlineNode._get_train_seq(self)
 
+    def train(self, x, *args, **kwargs):
+        """Perform single training step by training the internal nodes."""
+        # Use OnlineNode's train not Layer's
+        mdp.OnlineNode.train(self, x, *args, **kwargs)
+
 
 class CloneOnlineLayer(CloneLayer, OnlineLayer):
     """OnlineLayer with a single node instance that is used multiple times.
@@ -147,3 +152,8 @@ class SameInputOnlineLayer(SameInputLayer, OnlineLayer):
         self.numx_rng = numx_rng
         # set training type
         self._set_training_type_from_nodes(nodes)
+
+    def train(self, x, *args, **kwargs):
+        """Perform single training step by training the internal nodes."""
+        # Use OnlineNode's train not SameInputLayer's
+        mdp.OnlineNode.train(self, x, *args, **kwargs)
-- 
2.43.0


From 672fbf89011a47ad3b67506052e450afb0d9b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 057/102] fix: executing an online layer neither closes its
 training nor trains its nodes twice

---
 mdp/hinet/layer_online.py | 12 ++++++++++++
 mdp/signal_node_online.py |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/mdp/hinet/layer_online.py b/mdp/hinet/layer_online.py
index f787638..e9b9672 100644
--- a/mdp/hinet/layer_online.py
+++ b/mdp/hinet/layer_online.py
@@ -99,6 +99,12 @@ class OnlineLayer(Layer, mdp.OnlineNode):
         # Use OnlineNode's train not Layer's
         mdp.OnlineNode.train(self, x, *args, **kwargs)
 
+    def _pre_execution_checks(self, x):
+        """Train an untrained layer as a whole, not node by node."""
+        if (self.get_current_train_phase() == 0) and not self._train_phase_started:
+            self.train(x)
+        super(OnlineLayer, self)._pre_execution_checks(x)
+
 
 class CloneOnlineLayer(CloneLayer, OnlineLayer):
     """OnlineLayer with a single node instance that is used multiple times.
@@ -157,3 +163,9 @@ class SameInputOnlineLayer(SameInputLayer, OnlineLayer):
         """Perform single training step by training the internal nodes."""
         # Use OnlineNode's train not SameInputLayer's
         mdp.OnlineNode.train(self, x, *args, **kwargs)
+
+    def _pre_execution_checks(self, x):
+        """Train an untrained layer as a whole, not node by node."""
+        if (self.get_current_train_phase() == 0) and not self._train_phase_started:
+            self.train(x)
+        super(SameInputOnlineLayer, self)._pre_execution_checks(x)
diff --git a/mdp/signal_node_online.py b/mdp/signal_node_online.py
index 5582a66..59e41d2 100644
--- a/mdp/signal_node_online.py
+++ b/mdp/signal_node_online.py
@@ -172,6 +172,10 @@ class OnlineNode(Node):
 
     # check functions
 
+    def _if_training_stop_training(self):
+        # online nodes can be executed without closing the training phase
+        pass
+
     # The stop-training operation is removed to support continual training
     # and execution phases.
     def _pre_execution_checks(self, x):
-- 
2.43.0


From a230079c46177d455027d59036af3fe3ba7e9fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 058/102] fix: online flow nodes can contain nodes which are
 already trained

---
 mdp/hinet/flownode_online.py | 46 +++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index 1eb5067..a729255 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -106,6 +106,21 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
 
             return _execute
 
+        def get_train_function(_node):
+            # nodes which are already trained are only executed
+            def _train(x, *args, **kwargs):
+                if _node.is_training():
+                    _node.train(x, *args, **kwargs)
+
+            return _train
+
+        def get_stop_training_function(_node):
+            def _stop_training(*args, **kwargs):
+                if _node.is_training():
+                    _node.stop_training(*args, **kwargs)
+
+            return _stop_training
+
         def get_empty_function():
             def _empty(x, *args, **kwargs):
                 pass
@@ -130,11 +145,13 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
             if i < (len(trainable_nodes_nrs) - 1):
                 # the execute function channels the data from the current node to the
                 # next trainable node
-                train_seq += [(trainable_nodes[i].train, trainable_nodes[i].stop_training,
+                train_seq += [(get_train_function(trainable_nodes[i]),
+                               get_stop_training_function(trainable_nodes[i]),
                                get_execute_function(trainable_nodes_nrs[i], trainable_nodes_nrs[i + 1]))]
             else:
                 # skip the execution for the last trainable node.
-                train_seq += [(trainable_nodes[i].train, trainable_nodes[i].stop_training,
+                train_seq += [(get_train_function(trainable_nodes[i]),
+                               get_stop_training_function(trainable_nodes[i]),
                                get_empty_function())]
 
         # try fix the dimension of the internal nodes and the FlowNode
@@ -250,6 +267,21 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
 
             return _execute
 
+        def get_train_function(_node):
+            # nodes which are already trained are only executed
+            def _train(x, *args, **kwargs):
+                if _node.is_training():
+                    _node.train(x, *args, **kwargs)
+
+            return _train
+
+        def get_stop_training_function(_node):
+            def _stop_training(*args, **kwargs):
+                if _node.is_training():
+                    _node.stop_training(*args, **kwargs)
+
+            return _stop_training
+
         def get_empty_function():
             def _empty(x, *args, **kwargs):
                 pass
@@ -298,12 +330,12 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
             if i < (len(trainable_nodes_nrs) - 1):
                 # the execute function channels the data from the current node to the
                 # next trainable node
-                train_seq += [(trainable_nodes[i].train, get_empty_function(),
+                train_seq += [(get_train_function(trainable_nodes[i]), get_empty_function(),
                                get_execute_function(trainable_nodes_nrs[i], trainable_nodes_nrs[i + 1]))]
             else:
                 # the execute function channels the data through the remaining nodes
                 # to generate input for the next iteration
-                train_seq += [(trainable_nodes[i].train, get_empty_function(),
+                train_seq += [(get_train_function(trainable_nodes[i]), get_empty_function(),
                                get_execute_function(trainable_nodes_nrs[i], len(self._flow)))]
 
         # repeat for (self._flow_iterations-1) iterations
@@ -318,12 +350,14 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
             if i < (len(trainable_nodes_nrs) - 1):
                 # the execute function channels the data from the current node to the
                 # next trainable node
-                train_seq += [(trainable_nodes[i].train, trainable_nodes[i].stop_training,
+                train_seq += [(get_train_function(trainable_nodes[i]),
+                               get_stop_training_function(trainable_nodes[i]),
                                get_execute_function(trainable_nodes_nrs[i], trainable_nodes_nrs[i + 1]))]
             else:
                 # the execute function channels the data through the remaining nodes
                 # to save the output for the next train call.
-                train_seq += [(trainable_nodes[i].train, trainable_nodes[i].stop_training,
+                train_seq += [(get_train_function(trainable_nodes[i]),
+                               get_stop_training_function(trainable_nodes[i]),
                                _get_save_output_wrapper(get_execute_function(trainable_nodes_nrs[i],
                                                                              len(self._flow))))]
 
-- 
2.43.0


From 6907e0aa7d4e379ed09181961960d0914b802407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 059/102] fix: a terminal offline node of an online flow is
 trained on all chunks, not only on the first

---
 mdp/linear_flows_online.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index dc1e7cf..f877371 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -137,8 +137,11 @@ class OnlineFlow(mdp.Flow):
                         if node.is_training():
                             node.train(x)
 
-                    # input for the next node
-                    x = node.execute(x)
+                    # input for the next node (executing the last node is not
+                    # needed and would close the training of a terminal
+                    # trainable Node which is no OnlineNode)
+                    if nodenr < len(self.flow) - 1:
+                        x = node.execute(x)
                 except Exception as e:
                     # capture any other exception occured during training.
                     self._propagate_exception(e, nodenr)
-- 
2.43.0


From e26023d16576779a428a308d97eb6aa2dfb98088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 060/102] fix: online flows train all phases of a terminal
 offline node and leave terminal online nodes open

---
 mdp/linear_flows_online.py | 129 ++++++++++++++++++++-----------------
 1 file changed, 70 insertions(+), 59 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index f877371..b0af3a6 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -101,66 +101,77 @@ class OnlineFlow(mdp.Flow):
         return _train_arg_keys_list, _train_args_needed_list
 
     def _train_nodes(self, data_iterables):
-        empty_iterator = True
-        for x in data_iterables:
-            if (type(x) is tuple) or (type(x) is list):
-                args = x[1:]
-                x = x[0]
-                if len(args) != len(self.flow):
-                    err = ("Wrong number of argument-tuples provided by " +
-                           "the iterable (%d needed, %d given).\n" % (len(self.flow), len(args)))
-                    raise OnlineFlowException(err)
-            else:
-                args = ()
-            empty_iterator = False
-            for nodenr in range(len(self.flow)):
-                try:
-                    node = self.flow[nodenr]
-                    # check if the required number of arguments was given
-                    if self._train_args_needed_list[nodenr]:
-                        # the nodenr'th arguments tuple are passed only to the
-                        # currently training node, allowing the implementation of
-                        # supervised nodes
-                        arg = args[nodenr]
-
-                        if len(self._train_arg_keys_list[nodenr]) != len(arg):
-                            err = ("Wrong number of arguments provided by " +
-                                   "the iterable for node #%d " % nodenr +
-                                   "(%d needed, %d given).\n" %
-                                   (len(self._train_arg_keys_list[nodenr]), len(arg)) +
-                                   "List of required argument keys: " +
-                                   str(self._train_arg_keys_list[nodenr]))
-                            raise OnlineFlowException(err)
-                        if node.is_training():
-                            node.train(x, *arg)
-                    else:
-                        if node.is_training():
-                            node.train(x)
-
-                    # input for the next node (executing the last node is not
-                    # needed and would close the training of a terminal
-                    # trainable Node which is no OnlineNode)
-                    if nodenr < len(self.flow) - 1:
-                        x = node.execute(x)
-                except Exception as e:
-                    # capture any other exception occured during training.
-                    self._propagate_exception(e, nodenr)
-        if empty_iterator:
-            if self.flow[-1].get_current_train_phase() == 1:
-                err_str = ("The training data iteration "
-                           "could not be repeated for the "
-                           "second training phase, you probably "
-                           "provided an iterator instead of an "
-                           "iterable.")
-                raise FlowException(err_str)
-            else:
-                err_str = ("The training data iterator "
-                           "is empty.")
-                raise FlowException(err_str)
-        self._stop_training_hook()
-        if self.flow[-1].get_remaining_train_phase() > 1:
+        last_node = self.flow[-1]
+        first_pass = True
+        # the data is only needed again for further training phases of a
+        # terminal Node which is no OnlineNode
+        while True:
+            empty_iterator = True
+            for x in data_iterables:
+                if (type(x) is tuple) or (type(x) is list):
+                    args = x[1:]
+                    x = x[0]
+                    if len(args) != len(self.flow):
+                        err = ("Wrong number of argument-tuples provided by " +
+                               "the iterable (%d needed, %d given).\n" % (len(self.flow), len(args)))
+                        raise OnlineFlowException(err)
+                else:
+                    args = ()
+                empty_iterator = False
+                for nodenr in range(len(self.flow)):
+                    try:
+                        node = self.flow[nodenr]
+                        # check if the required number of arguments was given
+                        if self._train_args_needed_list[nodenr]:
+                            # the nodenr'th arguments tuple are passed only to the
+                            # currently training node, allowing the implementation of
+                            # supervised nodes
+                            arg = args[nodenr]
+
+                            if len(self._train_arg_keys_list[nodenr]) != len(arg):
+                                err = ("Wrong number of arguments provided by " +
+                                       "the iterable for node #%d " % nodenr +
+                                       "(%d needed, %d given).\n" %
+                                       (len(self._train_arg_keys_list[nodenr]), len(arg)) +
+                                       "List of required argument keys: " +
+                                       str(self._train_arg_keys_list[nodenr]))
+                                raise OnlineFlowException(err)
+                            if node.is_training() and (first_pass or node is last_node):
+                                node.train(x, *arg)
+                        else:
+                            if node.is_training() and (first_pass or node is last_node):
+                                node.train(x)
+
+                        # input for the next node (executing the last node is not
+                        # needed and would close the training of a terminal
+                        # trainable Node which is no OnlineNode)
+                        if nodenr < len(self.flow) - 1:
+                            x = node.execute(x)
+                    except Exception as e:
+                        # capture any other exception occured during training.
+                        self._propagate_exception(e, nodenr)
+            if empty_iterator:
+                if not first_pass:
+                    err_str = ("The training data iteration "
+                               "could not be repeated for the "
+                               "second training phase, you probably "
+                               "provided an iterator instead of an "
+                               "iterable.")
+                    raise FlowException(err_str)
+                else:
+                    err_str = ("The training data iterator "
+                               "is empty.")
+                    raise FlowException(err_str)
+            self._stop_training_hook()
+            if (not last_node.is_training() or isinstance(last_node, mdp.OnlineNode)
+                    or last_node.get_remaining_train_phase() <= 1):
+                break
             # close the previous training phase
-            self.flow[-1].stop_training()
+            try:
+                last_node.stop_training()
+            except Exception as e:
+                self._propagate_exception(e, len(self.flow) - 1)
+            first_pass = False
 
     def _train_check_iterables(self, data_iterables):
         """Return the data iterable after some checks and sanitizing.
-- 
2.43.0


From d3874cc0f7996fbf51d235c9eb3b3caf8a817993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 061/102] fix: online flows accept a terminal trainable node in
 item assignment, like in the constructor

---
 mdp/linear_flows_online.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index b0af3a6..9dc69a9 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -255,13 +255,15 @@ class OnlineFlow(mdp.Flow):
     def _check_compatibility(self, flow):
         [self._check_value_type_is_online_or_nontrainable_node(item) for item in flow[:-1]]
         # terminal node can be a trainable Node whose training hasn't finished.
-        self._check_value_type_isnode(flow[-1])
+        [self._check_value_type_isnode(item) for item in flow[-1:]]
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
-            [self._check_value_type_is_online_or_nontrainable_node(item) for item in value]
+            # the value might be a one-shot iterator
+            value = list(value)
+            [self._check_value_type_isnode(item) for item in value]
         else:
-            self._check_value_type_is_online_or_nontrainable_node(value)
+            self._check_value_type_isnode(value)
 
         flow_copy = list(self.flow)
         flow_copy[key] = value
-- 
2.43.0


From fae8dc39ef6daa676768bfc99b39f35137b20f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 062/102] fix: in-place addition to an online flow checks first
 and leaves the list of the caller alone

---
 mdp/linear_flows_online.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 9dc69a9..85f672f 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -287,7 +287,7 @@ class OnlineFlow(mdp.Flow):
     def __add__(self, other):
         # append other to self
         if isinstance(other, mdp.Flow):
-            flow_copy = list(self.flow).__add__(other.flow)
+            flow_copy = list(self.flow) + list(other.flow)
             # check OnlineFlow compatibility
             self._check_compatibility(flow_copy)
             # check dimension consistency
@@ -311,16 +311,18 @@ class OnlineFlow(mdp.Flow):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, mdp.Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
-        self._train_arg_keys_list, self._train_args_needed_list = self._get_required_train_args_from_flow(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
+        self._train_arg_keys_list, self._train_args_needed_list = self._get_required_train_args_from_flow(flow_copy)
         return self
 
     # public container methods
-- 
2.43.0


From af0ef3a7b706f249f165d27ed0b15bca0c1fcddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 063/102] fix: container operations of circular online flows
 keep the output node and no longer raise

---
 mdp/linear_flows_online.py | 76 ++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 85f672f..3093940 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -567,13 +567,38 @@ class CircularOnlineFlow(OnlineFlow):
 
     # private container methods
 
-    def __setitem__(self, key, value):
-        super(CircularOnlineFlow, self).__setitem__(key, value)
+    def _set_flow(self, old_nodes, key=None, n_new=0):
+        """Make the flow circular again after a container operation.
+
+        The output node stays the same node, if it was replaced or deleted then
+        the output node is reset to the last node.
+
+        key - index or slice of the nodes that were replaced or deleted.
+        """
         self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
-            print('Output node is replaced! Resetting the output node.')
+        positions = list(range(old_nodes))
+        if isinstance(key, slice):
+            positions[key] = [None] * n_new
+        elif n_new:
+            positions[key] = None
+        else:
+            del positions[key]
+        if self.output_node_idx in positions:
+            self.output_node_idx = positions.index(self.output_node_idx)
+        else:
+            print('Output node is replaced or deleted! Resetting the output node.')
             self.reset_output_node()
 
+    def __setitem__(self, key, value):
+        old_nodes = len(self.flow)
+        if isinstance(key, slice):
+            value = list(value)
+            n_new = len(value)
+        else:
+            n_new = 1
+        super(CircularOnlineFlow, self).__setitem__(key, value)
+        self._set_flow(old_nodes, key, n_new)
+
     def __getitem__(self, key):
         if isinstance(key, slice):
             flow_copy = list(self.flow)
@@ -584,49 +609,41 @@ class CircularOnlineFlow(OnlineFlow):
             return self.flow[key]
 
     def __delitem__(self, key):
+        old_nodes = len(self.flow)
         super(CircularOnlineFlow, self).__delitem__(key)
-        self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
-            print('Output node deleted! Resetting the output node to the default last node.')
-            self.reset_output_node()
-        elif self.output_node_idx > key.stop():
-            self.set_output_node(self.output_node_idx - key.stop + key.start)
+        self._set_flow(old_nodes, key)
 
     def __add__(self, other):
         # append other to self
         if isinstance(other, OnlineFlow):
-            flow_copy = list(self.flow)
-            flow_copy.append(other)
-            self._check_compatibility(flow_copy)
-            self._check_nodes_consistency(flow_copy)
-            # if no exception was raised, accept the new sequence
-            return self.__class__(flow_copy)
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.OnlineNode):
-            flow_copy = list(self.flow)
-            flow_copy.append(other)
-            # check onlineflow compatibility
-            self._check_compatibility(flow_copy)
-            # check dimension consistency
-            self._check_nodes_consistency(flow_copy)
-            # if no exception was raised, accept the new sequence
-            return self.__class__(flow_copy)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate OnlineFlow or OnlineNode'
                        ' (not \'%s\') to CircularOnlineFlow' % type(other).__name__)
             raise TypeError(err_str)
+        # check onlineflow compatibility
+        self._check_compatibility(flow_copy)
+        # check dimension consistency
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        return self.__class__(flow_copy)
 
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, OnlineFlow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.OnlineNode):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate OnlineFlow or OnlineNode'
                        ' (not \'%s\') to CircularOnlineFlow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = _deque(flow_copy)
         return self
 
     # public container methods
@@ -653,6 +670,3 @@ class CircularOnlineFlow(OnlineFlow):
         self[i:i] = [x]
         self._check_nodes_consistency(self.flow)
         self._check_compatibility(self.flow)
-
-        if self.output_node_idx >= i:
-            self.set_output_node(self.output_node_idx + 1)
-- 
2.43.0


From 5c03d7644148553f7cd8ec7449d910a35e95624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 064/102] fix: circular online flows can be inverted, starting
 from the output node

---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 3093940..60700e1 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -535,7 +535,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def _inverse_seq(self, x):
         # Successively invert input data 'x' through all nodes backwards from the output node to the input node.
-        flow = self.flow[:self.output_node_idx]
+        flow = list(self.flow)[:self.output_node_idx + 1]
         for i in range(len(flow) - 1, -1, -1):
             try:
                 x = flow[i].inverse(x)
-- 
2.43.0


From c02f18c75bb603f72675ffc7c7023f2c3414248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 065/102] fix: circular online flows refuse input and output
 nodes behind the last node

---
 mdp/linear_flows_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 60700e1..40530b5 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -545,7 +545,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_input_node(self, node_idx):
         """Set the input node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.flow.rotate(-node_idx)
@@ -553,7 +553,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_output_node(self, node_idx):
         """Set the output node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.output_node_idx = node_idx
-- 
2.43.0


From e9c0ed7e7b33167e1f8ce982f874aa42849c8fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 066/102] fix: the stored input of circular online flows is
 also set if the input dimension is not known yet

---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 40530b5..de4f805 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -430,7 +430,7 @@ class CircularOnlineFlow(OnlineFlow):
             if x.shape[-1] != self.flow[0].input_dim:
                 raise CircularOnlineFlowException(
                     "Dimension mismatch! should be %d, given %d" % (self.flow[0].input_dim, x.shape[-1]))
-            self._stored_input = x
+        self._stored_input = x
 
     def get_stored_input(self):
         """return the current stored input"""
-- 
2.43.0


From d59ca62e2533e8f7682a653c5085fde9679eb821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 067/102] fix: online layers and flow nodes without a random
 generator do not replace those of their nodes

---
 mdp/hinet/flownode_online.py | 8 ++++++++
 mdp/hinet/layer_online.py    | 4 ++++
 mdp/signal_node_online.py    | 6 +++++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index a729255..3207736 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -84,6 +84,10 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
                 node.numx_rng = rng
         self._numx_rng = rng
 
+    def _set_default_numx_rng(self):
+        # the nodes keep the generators which they have
+        self._numx_rng = mdp.numx_rand.RandomState()
+
     def _get_train_seq(self):
         """Return a training sequence containing all training phases.
 
@@ -236,6 +240,10 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
                 node.numx_rng = rng
         self._numx_rng = rng
 
+    def _set_default_numx_rng(self):
+        # the nodes keep the generators which they have
+        self._numx_rng = mdp.numx_rand.RandomState()
+
     def _get_train_seq(self):
         """Return a training sequence containing all training phases.
 
diff --git a/mdp/hinet/layer_online.py b/mdp/hinet/layer_online.py
index e9b9672..480bf62 100644
--- a/mdp/hinet/layer_online.py
+++ b/mdp/hinet/layer_online.py
@@ -88,6 +88,10 @@ class OnlineLayer(Layer, mdp.OnlineNode):
                 node.numx_rng = rng
         self._numx_rng = rng
 
+    def _set_default_numx_rng(self):
+        # the nodes keep the generators which they have
+        self._numx_rng = mdp.numx_rand.RandomState()
+
     def _get_train_seq(self):
         """Return the train sequence.
            Use OnlineNode train_seq not Layer's
diff --git a/mdp/signal_node_online.py b/mdp/signal_node_online.py
index 59e41d2..d8497e0 100644
--- a/mdp/signal_node_online.py
+++ b/mdp/signal_node_online.py
@@ -102,6 +102,10 @@ class OnlineNode(Node):
     def _set_numx_rng(self, rng):
         self._numx_rng = rng
 
+    def _set_default_numx_rng(self):
+        # called if no numx_rng was given before data is processed
+        self.numx_rng = mdp.numx_rand.RandomState()
+
     numx_rng = property(get_numx_rng,
                         set_numx_rng,
                         doc="Numpy seeded random number generator")
@@ -223,7 +227,7 @@ class OnlineNode(Node):
 
         # set numx_rng if necessary
         if self.numx_rng is None:
-            self.numx_rng = mdp.numx_rand.RandomState()
+            self._set_default_numx_rng()
 
         # set training type if necessary
         if self.training_type is None:
-- 
2.43.0


From ae066e1433db6f95c476fd9fa74fdf546515350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:31 +0000
Subject: [PATCH 068/102] fix: clone layers execute nodes which depend on the
 order of the rows like normal layers do

---
 mdp/hinet/layer.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 2a17b3c..53ccecc 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -289,18 +289,6 @@ class CloneLayer(Layer):
         if self.output_dim is None:
             self.output_dim = self._get_output_dim_from_nodes()
 
-    def _execute(self, x, *args, **kwargs):
-        n_samples = x.shape[0]
-        x = x.reshape(n_samples * x.shape[1] // self.node.input_dim, self.node.input_dim)
-        y = self.node.execute(x)
-        return y.reshape(n_samples, self.output_dim)
-
-    def _inverse(self, x, *args, **kwargs):
-        n_samples = x.shape[0]
-        x = x.reshape(n_samples * x.shape[1] // self.node.output_dim, self.node.output_dim)
-        y = self.node.inverse(x)
-        return y.reshape(n_samples, self.input_dim)
-
 
 class SameInputLayer(Layer):
     """SameInputLayer is a layer were all nodes receive the full input.
-- 
2.43.0


From a603ab8ab4f0dc51355273e28af365ff87902b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:35 +0000
Subject: [PATCH 069/102] fix: the training of online flow nodes with empty
 stages can be stopped

---
 mdp/hinet/flownode_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index 3207736..38b1899 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -126,7 +126,7 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
             return _stop_training
 
         def get_empty_function():
-            def _empty(x, *args, **kwargs):
+            def _empty(*args, **kwargs):
                 pass
 
             return _empty
@@ -291,7 +291,7 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
             return _stop_training
 
         def get_empty_function():
-            def _empty(x, *args, **kwargs):
+            def _empty(*args, **kwargs):
                 pass
 
             return _empty
-- 
2.43.0


From 73ce5d588abc6e5fa04cd1b30545bdff074f3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 070/102] fix: slices with a step can be deleted from circular
 online flows

---
 mdp/linear_flows_online.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index de4f805..28bf99d 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -567,22 +567,23 @@ class CircularOnlineFlow(OnlineFlow):
 
     # private container methods
 
-    def _set_flow(self, old_nodes, key=None, n_new=0):
+    def _set_flow(self, old_nodes, key, n_new=None):
         """Make the flow circular again after a container operation.
 
         The output node stays the same node, if it was replaced or deleted then
         the output node is reset to the last node.
 
         key - index or slice of the nodes that were replaced or deleted.
+        n_new - number of nodes which replaced them, None if they were deleted.
         """
         self.flow = _deque(self.flow)
         positions = list(range(old_nodes))
-        if isinstance(key, slice):
+        if n_new is None:
+            del positions[key]
+        elif isinstance(key, slice):
             positions[key] = [None] * n_new
-        elif n_new:
-            positions[key] = None
         else:
-            del positions[key]
+            positions[key] = None
         if self.output_node_idx in positions:
             self.output_node_idx = positions.index(self.output_node_idx)
         else:
-- 
2.43.0


From 08dec2d6e9dec373cffdaa1c68e991c6413657d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 071/102] fix: the nodes in copies of online flow nodes still
 share their random generator

---
 mdp/hinet/flownode_online.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index 38b1899..110e8d7 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -88,6 +88,13 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
         # the nodes keep the generators which they have
         self._numx_rng = mdp.numx_rand.RandomState()
 
+    def copy(self, protocol=None):
+        """Return a deep copy of this node.
+
+        The nodes are copied together because they may share the random generator.
+        """
+        return mdp.OnlineNode.copy(self, protocol)
+
     def _get_train_seq(self):
         """Return a training sequence containing all training phases.
 
@@ -244,6 +251,13 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
         # the nodes keep the generators which they have
         self._numx_rng = mdp.numx_rand.RandomState()
 
+    def copy(self, protocol=None):
+        """Return a deep copy of this node.
+
+        The nodes are copied together because they may share the random generator.
+        """
+        return mdp.OnlineNode.copy(self, protocol)
+
     def _get_train_seq(self):
         """Return a training sequence containing all training phases.
 
-- 
2.43.0


From b423b6c65ac2e0842f76e318c6a4f2513805fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 072/102] fix: joining the message results of a biflow does not
 modify the message values

---
 bimdp/biflow.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 57420c2..b739036 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -68,7 +68,10 @@ class MessageResultContainer(object):
                         self._msg_results[key] = msg[key]
                     else:
                         try:
-                            self._msg_results[key] += msg[key]
+                            # the values belong to the nodes or to the caller,
+                            # so they must not be modified in place
+                            self._msg_results[key] = (self._msg_results[key] +
+                                                      msg[key])
                         except:
                             err = ("Could not combine final msg results "
                                    "in BiFlow.")
-- 
2.43.0


From 2d906c5ff1205b026f071cd161ddb84a9632f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 073/102] fix: the execution of a biflow without array results
 returns None for any number of chunks

---
 bimdp/biflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index b739036..5e381bc 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -357,7 +357,7 @@ class BiFlow(mdp.Flow):
                 else:
                     y_results.append(y)
             else:
-                if y_results is None:
+                if not y_results:
                     y_results = False
                 else:
                     err = "Some but not all y return values were None."
@@ -368,6 +368,8 @@ class BiFlow(mdp.Flow):
         # consolidate results
         if y_results:
             y_results = n.concatenate(y_results)
+        else:
+            y_results = None
         result_msg = msg_results.get_message()
         return y_results, result_msg
 
-- 
2.43.0


From af2a1e7d2cc58e2e9f9cae59767a3a2619b48063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 074/102] fix: biflows can be executed with an iterable of
 messages without data

---
 bimdp/biflow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 5e381bc..80831ed 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -473,6 +473,8 @@ class BiFlow(mdp.Flow):
                 if isinstance(msg_iterable, dict):
                     msg_iterable = [msg_iterable]
                     target_iterable = [target_iterable]
+                elif target_iterable is None:
+                    target_iterable = NoneIterable()
         else:
             if msg_iterable is None:
                 msg_iterable = NoneIterable()
-- 
2.43.0


From 69c6d574092fc345da2611064acdeaa6abbfa6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 075/102] fix: relative targets outside of a biflow are refused

---
 bimdp/biflow.py           | 4 ++++
 bimdp/hinet/biflownode.py | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 80831ed..dc62bfd 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -573,6 +573,10 @@ class BiFlow(mdp.Flow):
                         return (x, msg)
                 elif i_node == -1:
                     return x, msg, -1
+                elif not 0 <= i_node < len(self.flow):
+                    err = ("Target int value references a node outside of "
+                           "the flow (target " + str(target) + ").")
+                    raise BiFlowException(err)
             else:
                 i_node = self._target_to_index(target, i_node)
                 if not isinstance(i_node, int):
diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index cab82af..e7b7d36 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -166,6 +166,10 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                             return (x, msg)
                     elif i_node == -1:
                         return x, msg, -1
+                    elif not 0 <= i_node < len(self._flow):
+                        err = ("Target int value references a node outside "
+                               "of the flow (target " + str(target) + ").")
+                        raise BiFlowException(err)
                 else:
                     i_node = self._flow._target_to_index(target, i_node)
                     if not isinstance(i_node, int):
@@ -212,6 +216,10 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                     return x, msg, 1
                 elif i_node == -1:
                     return x, msg, -1
+                elif not 0 <= i_node < len(self._flow):
+                    err = ("Target int value references a node outside of "
+                           "the flow (target " + str(target) + ").")
+                    raise BiFlowException(err)
             else:
                 i_node = self._flow._target_to_index(target, nodenr)
                 if not isinstance(i_node, int):
-- 
2.43.0


From 5e17f2119199daf0515fb274b13cb9ac63d920ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 076/102] fix: invalid results of binodes are reported as such

---
 bimdp/biflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index dc62bfd..cd2e524 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -341,7 +341,7 @@ class BiFlow(mdp.Flow):
                 raise BiFlowException(err)
             else:
                 err = ("BiNode execution returned invalid result type: " +
-                       result)
+                       str(result))
                 raise BiFlowException(err)
             self._bi_reset()
             if msg:
@@ -555,7 +555,7 @@ class BiFlow(mdp.Flow):
                     x, msg, target = result
                 else:
                     err = ("BiNode execution returned invalid result type: " +
-                           result)
+                           str(result))
                     raise BiFlowException(err)
             else:
                 # just a normal MDP node
-- 
2.43.0


From 73ff1dea18f8080f6b540a2cf809c09a8799f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 077/102] fix: the return value of a binode coroutine is used
 as it is

---
 bimdp/binode.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index e2fa7ac..f9d7b85 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -530,10 +530,7 @@ def binode_coroutine(args=None, defaults=()):
             except StopIteration as exception:
                 delattr(self, original_name)
                 del self._coroutine_instances[original_name]
-                if len(exception.args):
-                    return exception.args
-                else:
-                    return None
+                return exception.value
         # turn the signature into the one specified by the args
         interface_infodict = infodict.copy()
         interface_infodict["signature"] = ", ".join(args)
@@ -555,10 +552,7 @@ def binode_coroutine(args=None, defaults=()):
             except StopIteration as exception:
                 delattr(self, original_name)
                 del self._coroutine_instances[original_name]
-                if len(exception.args):
-                    return exception.args
-                else:
-                    return None
+                return exception.value
         coroutine_initialization = mdp.NodeMetaclass._wrap_function(
             _coroutine_initialization, infodict)
         return coroutine_initialization
-- 
2.43.0


From 1f4213aa12cc42fe04380b366fb611be3cbf6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:56 +0000
Subject: [PATCH 078/102] fix: execution continues behind a biflow node when
 its last node is trained and gives no target

---
 bimdp/hinet/biflownode.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index e7b7d36..882e251 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -156,6 +156,8 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                     # to the outer flow
                     return result
                 ## check if the target is in this flow, return otherwise
+                if target is None:
+                    target = 1
                 if isinstance(target, int):
                     i_node = i_node + target
                     # values of +1 and -1 beyond this flow are allowed
@@ -209,6 +211,9 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                 err = ("Node produced invalid return value " +
                        "for stop_training: " + str(result))
                 raise BiFlowException(err)
+            if target is None and nodenr == len(self._flow) - 1:
+                # the execution continues behind this flow
+                return x, msg
             if isinstance(target, int):
                 i_node = nodenr + target
                 # values of +1 and -1 beyond this flow are allowed
-- 
2.43.0


From 8600a34c3d0183d46f342e3ec4c7f42997e05701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:32 +0000
Subject: [PATCH 079/102] fix: forked biflow nodes keep their node_id

---
 bimdp/parallel/__init__.py        |  2 +-
 bimdp/parallel/parallelbihinet.py | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/bimdp/parallel/__init__.py b/bimdp/parallel/__init__.py
index 1091fd8..490b213 100644
--- a/bimdp/parallel/__init__.py
+++ b/bimdp/parallel/__init__.py
@@ -2,7 +2,7 @@
 from .parallelbiflow import (
     BiFlowTrainCallable, BiFlowExecuteCallable,
     ParallelBiFlowException, ParallelBiFlow, ParallelCheckpointBiFlow)
-from .parallelbihinet import ParallelCloneBiLayer
+from .parallelbihinet import ParallelBiFlowNode, ParallelCloneBiLayer
 
 del parallelbiflow
 del parallelbihinet
diff --git a/bimdp/parallel/parallelbihinet.py b/bimdp/parallel/parallelbihinet.py
index c32ad76..7a18bf8 100644
--- a/bimdp/parallel/parallelbihinet.py
+++ b/bimdp/parallel/parallelbihinet.py
@@ -4,7 +4,20 @@ Parallel version of bihinet.
 from builtins import range
 
 import mdp
-from bimdp.hinet import CloneBiLayer
+from bimdp.hinet import BiFlowNode, CloneBiLayer
+
+
+class ParallelBiFlowNode(BiFlowNode, mdp.parallel.ParallelExtensionNode):
+    """Parallel version of BiFlowNode, based on that of FlowNode."""
+
+    def _fork(self):
+        """Fork like a FlowNode, but keep the node_id.
+
+        Otherwise the messages and targets would not reach the forked node.
+        """
+        forked_node = super(BiFlowNode, self)._fork()
+        forked_node._node_id = self._node_id
+        return forked_node
 
 
 class ParallelCloneBiLayer(CloneBiLayer, mdp.parallel.ParallelExtensionNode):
-- 
2.43.0


From 98775b68a42b9db758bb6777f0810dfcfcc625b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:32 +0000
Subject: [PATCH 080/102] fix: a clone bilayer can be switched back to a single
 node instance

---
 bimdp/hinet/bilayer.py            | 4 ----
 bimdp/parallel/parallelbihinet.py | 3 ---
 2 files changed, 7 deletions(-)

diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index c8d3e28..afe0484 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -80,10 +80,6 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
                 err = ("Calling switch_to_instance during training will "
                        "probably result in lost training data.")
                 raise CloneBiLayerException(err)
-            elif self.is_bi_training():
-                err = ("Calling switch_to_instance during bi_learning will "
-                       "probably result in lost learning data.")
-                raise CloneBiLayerException(err)
             self.node = self.nodes[0]
             self.nodes = [self.node] * len(self.nodes)
 
diff --git a/bimdp/parallel/parallelbihinet.py b/bimdp/parallel/parallelbihinet.py
index 7a18bf8..2efa74b 100644
--- a/bimdp/parallel/parallelbihinet.py
+++ b/bimdp/parallel/parallelbihinet.py
@@ -48,9 +48,6 @@ class ParallelCloneBiLayer(CloneBiLayer, mdp.parallel.ParallelExtensionNode):
             if self.is_training():
                 for forked_node in self.nodes[1:]:
                     self.nodes[0].join(forked_node)
-            elif self.is_bi_training():
-                for forked_node in self.nodes[1:]:
-                    self.nodes[0].bi_join(forked_node)
             self.node = self.nodes[0]
             self.nodes = (self.node,) * len(self.nodes)
 
-- 
2.43.0


From 5c26b4d18a24aeb84ec4cec815cc8e9ffe5bd1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:32 +0000
Subject: [PATCH 081/102] fix: parallel biflows refuse an empty training
 iterable for nodes trained locally

---
 bimdp/parallel/parallelbiflow.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index d4b4359..b47109c 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -399,6 +399,19 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             task_callable((x, msg))
             if self.verbose:
                 print ("    finished nonparallel task no. %d" % i_task)
+        if i_task == 0:
+            current_node = self.flow[self._i_train_node]
+            if current_node.get_current_train_phase() == 1:
+                err_str = ("The training data iteration for node "
+                           "no. %d could not be repeated for the "
+                           "second training phase, you probably "
+                           "provided an iterator instead of an "
+                           "iterable." % (self._i_train_node+1))
+                raise mdp.FlowException(err_str)
+            else:
+                err_str = ("The training data iterator for node "
+                           "no. %d is empty." % (self._i_train_node+1))
+                raise mdp.FlowException(err_str)
         # perform stop_training with result check
         self._stop_training_hook()
         result = self._flownode.stop_training(self._get_stop_message())
-- 
2.43.0


From bf4c2080ecf8fb55f7883a60265b6b2b8cb096dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:32 +0000
Subject: [PATCH 082/102] fix: mixed None and array results are refused by
 parallel biflows

---
 bimdp/parallel/parallelbiflow.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index b47109c..0696f4a 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -610,7 +610,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             self._exec_data_iterator = None
             self._exec_msg_iterator = None
             self._exec_target_iterator = None
-            y_results = []
+            y_results = None
             msg_results = MessageResultContainer()
             # use internal flownode to join all biflownodes
             self._flownode = BiFlowNode(BiFlow(self.flow))
@@ -622,20 +622,29 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                     msg_results.add_message(msg)
                 else:
                     y = result
+                # check if all y have the same type and store it
                 if y is not None:
-                    try:
-                        y_results.append(y)
-                    except:
+                    if y_results is None:
+                        y_results = [y]
+                    elif y_results is False:
                         err = "Some but not all y return values were None."
                         raise BiFlowException(err)
+                    else:
+                        y_results.append(y)
                 else:
-                    y_results = None
+                    if not y_results:
+                        y_results = False
+                    else:
+                        err = "Some but not all y return values were None."
+                        raise BiFlowException(err)
                 # join biflownode
                 if forked_biflownode is not None:
                     self._flownode.join(forked_biflownode)
             # return results
-            if y_results is not None:
+            if y_results:
                 y_results = n.concatenate(y_results)
+            else:
+                y_results = None
             return (y_results, msg_results.get_message())
         else:
             err = "It seems that there are no results to retrieve."
-- 
2.43.0


From d63048167f460e681f5908d2024811b8c75cb7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:32 +0000
Subject: [PATCH 083/102] fix: parallel checkpoint flows drop the checkpoint
 functions after the training

---
 mdp/parallel/parallelflows.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index ec6e927..d84f339 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -800,6 +800,17 @@ class ParallelCheckpointFlow(ParallelFlow, mdp.CheckpointFlow):
                                     train_callable_class=train_callable_class,
                                     **kwargs)
 
+    def _next_train_phase(self):
+        """Drop the checkpoint functions when the training is finished."""
+        super(ParallelCheckpointFlow, self)._next_train_phase()
+        if self._i_train_node is None:
+            self._checkpoints = None
+
+    def _abort_parallel_run(self, scheduler=None):
+        """Leave the parallel state, drop the checkpoint functions as well."""
+        super(ParallelCheckpointFlow, self)._abort_parallel_run(scheduler)
+        self._checkpoints = None
+
     def _post_stop_training_hook(self):
         """Check if we reached a checkpoint."""
         super(ParallelCheckpointFlow, self)._post_stop_training_hook()
-- 
2.43.0


From 5365a19593243a8a430fae4ecbb7fca78fdde887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:24 +0000
Subject: [PATCH 084/102] fix: a parallel execution which can not be set up is
 aborted

---
 bimdp/parallel/parallelbiflow.py | 12 ++++++++----
 mdp/parallel/parallelflows.py    | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 0696f4a..3071d2a 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -551,10 +551,14 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         self._exec_data_iterator = iter(iterable)
         self._exec_msg_iterator = iter(msg_iterable)
         self._exec_target_iterator = iter(target_iterable)
-        first_task = self._create_execute_task()
-        if first_task is None:
-            err = ("The execute data iterable is empty.")
-            raise mdp.FlowException(err)
+        try:
+            first_task = self._create_execute_task()
+            if first_task is None:
+                err = ("The execute data iterable is empty.")
+                raise mdp.FlowException(err)
+        except:
+            self._abort_parallel_run()
+            raise
         task_data_chunk = first_task[0]
         if task_data_chunk is None:
             err = "Execution data iterable is empty."
diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index d84f339..41c2a04 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -647,10 +647,14 @@ class ParallelFlow(mdp.Flow):
         self._flownode = FlowNode(mdp.Flow(nodes))
         self._close_train_phases(nodenr)
         self._exec_data_iterator = iter(iterable)
-        first_task = self._create_execute_task()
-        if first_task is None:
-            errstr = ("The execute data iterator is empty.")
-            raise mdp.FlowException(errstr)
+        try:
+            first_task = self._create_execute_task()
+            if first_task is None:
+                errstr = ("The execute data iterator is empty.")
+                raise mdp.FlowException(errstr)
+        except:
+            self._abort_parallel_run()
+            raise
         task_data_chunk = first_task[0]
         # Only first task contains the new callable (enable caching).
         # A fork is not required here, since the callable is always
-- 
2.43.0


From a59f59ad62d6f2f42559bf756863b74a3d41a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:26 +0000
Subject: [PATCH 085/102] fix: training a binode without an array starts the
 training phase as well

---
 bimdp/binode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index f9d7b85..89cfb2a 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -219,6 +219,9 @@ class BiNode(mdp.Node):
                 x = self._refcast(x)
             elif method == self._inverse:
                 self._pre_inversion_checks(x)
+        if method == default_method:
+            # the checks are omitted if x is None
+            self._train_phase_started = True
         result = method(x, **arg_dict)
         if result is None:
             return None
-- 
2.43.0


From f689ecd0aebfacab4ef49291227b3baa12ef1e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:01 +0000
Subject: [PATCH 086/102] fix: an untrained layer without output_dim is trained
 as a whole by execute

---
 mdp/hinet/layer.py | 14 ++++++++------
 mdp/signal_node.py | 13 ++++++++-----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 53ccecc..f8a0ce5 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -181,10 +181,11 @@ class Layer(mdp.Node):
     def _pre_execution_checks(self, x):
         """Make sure that output_dim is set and then perform normal checks."""
         if self.output_dim is None:
-            # refuse bad data and open training phases for the whole layer
+            # refuse bad data and open training phases for the whole layer,
+            # the same goes for the training of an untrained layer
             self._check_input(x)
-            if self._train_phase_started:
-                self._if_training_stop_training()
+            self._if_untrained_train(x)
+            self._if_training_stop_training()
         if self.output_dim is None:
             # first make sure that the output_dim is set for all nodes
             in_start = 0
@@ -352,10 +353,11 @@ class SameInputLayer(Layer):
     def _pre_execution_checks(self, x):
         """Make sure that output_dim is set and then perform nromal checks."""
         if self.output_dim is None:
-            # refuse bad data and open training phases for the whole layer
+            # refuse bad data and open training phases for the whole layer,
+            # the same goes for the training of an untrained layer
             self._check_input(x)
-            if self._train_phase_started:
-                self._if_training_stop_training()
+            self._if_untrained_train(x)
+            self._if_training_stop_training()
         if self.output_dim is None:
             # first make sure that the output_dim is set for all nodes
             for node in self.nodes:
diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 7fd9710..199df4c 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -516,11 +516,7 @@ class Node(with_metaclass(NodeMetaclass, object)):
                 raise TrainingException(error_str)
             self.stop_training()
 
-    def _pre_execution_checks(self, x):
-        """This method contains all pre-execution checks.
-
-        It can be used when a subclass defines multiple execution methods.
-        """
+    def _if_untrained_train(self, x):
         # if training has not started yet, assume we want to train the node
         if (self.get_current_train_phase() == 0 and
             not self._train_phase_started):
@@ -531,6 +527,13 @@ class Node(with_metaclass(NodeMetaclass, object)):
                 else:
                     break
 
+    def _pre_execution_checks(self, x):
+        """This method contains all pre-execution checks.
+
+        It can be used when a subclass defines multiple execution methods.
+        """
+        self._if_untrained_train(x)
+
         # control the dimension x (before the training is closed)
         self._check_input(x)
 
-- 
2.43.0


From e87a2d6c116de468279c8e64a4436b278c614e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:01 +0000
Subject: [PATCH 087/102] fix: refused dimensions and dtypes of layers and flow
 nodes change nothing

---
 mdp/hinet/flownode.py | 24 ++++++++++++++++--------
 mdp/hinet/layer.py    | 38 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 6d140b9..97891b1 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -5,6 +5,7 @@ Module for the FlowNode class.
 import mdp
 import warnings as _warnings
 import copy as _copy
+from .layer import _undo_if_refused
 
 
 class FlowNode(mdp.Node):
@@ -72,14 +73,21 @@ class FlowNode(mdp.Node):
         return self._flow
 
     def _set_input_dim(self, n):
-        # try setting the input_dim of the first node
-        self._flow[0].input_dim = n
-        # let a consistency check run
-        self._flow._check_nodes_consistency()
+        with _undo_if_refused([self]):
+            # try setting the input_dim of the first node
+            self._flow[0].input_dim = n
+            # let a consistency check run
+            self._flow._check_nodes_consistency()
         # if we didn't fail here, go on
         self._input_dim = n
 
     def _set_output_dim(self, n):
+        with _undo_if_refused([self]):
+            self._set_last_output_dim(n)
+        self._output_dim = n
+
+    def _set_last_output_dim(self, n):
+        """Make sure that the last node has the given output_dim."""
         last_node = self._flow[-1]
         if len(self._flow) == 1:
             if last_node.output_dim is None:
@@ -101,8 +109,7 @@ class FlowNode(mdp.Node):
                    " because the last internal node already has " +
                    "output_dim %d." % last_node.output_dim)
             raise mdp.InconsistentDimException(err)
-        self._output_dim = n
-    
+
     def _fix_nodes_dimensions(self):
         """Try to fix the dimensions of the internal nodes."""
         if len(self._flow) > 1:
@@ -120,8 +127,9 @@ class FlowNode(mdp.Node):
         # dtype can not be set for sure in arbitrary flows
         # but here we want to be sure that FlowNode *can*
         # offer a dtype that is consistent
-        for node in self._flow:
-            node.dtype = t
+        with _undo_if_refused([self]):
+            for node in self._flow:
+                node.dtype = t
         self._dtype = t
 
     def _get_supported_dtypes(self):
diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index f8a0ce5..d1eac16 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -5,10 +5,34 @@ Note that additional args and kwargs for train or execute are currently not
 supported.
 """
 from __future__ import division
+from contextlib import contextmanager as _contextmanager
 import mdp
 from mdp import numx
 
 
+@_contextmanager
+def _undo_if_refused(nodes):
+    """Restore the dimensions and dtypes of the nodes (also of those inside of
+    containers) if assigning a value to some of them fails.
+    """
+    old_props = []
+    todo = list(nodes)
+    while todo:
+        node = todo.pop()
+        old_props.append((node, node._input_dim, node._output_dim,
+                          node._dtype))
+        if hasattr(node, '__iter__'):
+            todo.extend(node)
+    try:
+        yield
+    except Exception:
+        for node, input_dim, output_dim, dtype in old_props:
+            node._input_dim = input_dim
+            node._output_dim = output_dim
+            node._dtype = dtype
+        raise
+
+
 # TODO: maybe turn self.nodes into a read only property with self._nodes
 
 # TODO: Find a better way to deal with additional args for train/execute?
@@ -117,10 +141,20 @@ class Layer(mdp.Node):
         return dtype
 
     def _set_dtype(self, t):
-        for node in self.nodes:
-            node.dtype = t
+        with _undo_if_refused(self.nodes):
+            for node in self.nodes:
+                node.dtype = t
         self._dtype = t
 
+    def _set_output_dim(self, n):
+        # the value is determined by the nodes
+        nodes_dim = self._get_output_dim_from_nodes()
+        if n != nodes_dim:
+            err = ("Layer can't be set to output_dim %d, its nodes have %s." %
+                   (n, nodes_dim))
+            raise mdp.InconsistentDimException(err)
+        self._output_dim = n
+
     def _get_supported_dtypes(self):
         # we supported the minimal common dtype set
         types = set(mdp.utils.get_dtypes('All'))
-- 
2.43.0


From d9b9494332529572c3751728fa444b7b104ece87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:32 +0000
Subject: [PATCH 088/102] fix: flow nodes derive their output_dim from the
 dimensions of their nodes

---
 mdp/hinet/flownode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 97891b1..d8e100d 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -78,8 +78,10 @@ class FlowNode(mdp.Node):
             self._flow[0].input_dim = n
             # let a consistency check run
             self._flow._check_nodes_consistency()
-        # if we didn't fail here, go on
-        self._input_dim = n
+            # if we didn't fail here, go on
+            self._input_dim = n
+            # this might determine the other dimensions as well
+            self._fix_nodes_dimensions()
 
     def _set_output_dim(self, n):
         with _undo_if_refused([self]):
-- 
2.43.0


From d272806bfaa2aa6a6b190d176775564b72afe0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:46 +0000
Subject: [PATCH 089/102] fix: the initial clusters of k-means are drawn from
 the generator of the package

---
 mdp/nodes/classifier_nodes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 9b57ebd..ec78623 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -409,9 +409,8 @@ class KMeansClassifier(ClassifierNode):
 
         # choose initial centroids unless they are already given
         if not self._centroids:
-            import random
-            centr_idx = random.sample(range(self.tlen), self._num_clusters)
-            #numx_rand.permutation(self.tlen)[:self._num_clusters]
+            centr_idx = numx_rand.choice(self.tlen, self._num_clusters,
+                                         replace=False)
             centroids = self.data[centr_idx]
         else:
             centroids = self._centroids
-- 
2.43.0


From 6b06412ffed453175ae1ad33593fbb1cc5aad5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:27 +0000
Subject: [PATCH 090/102] fix: a failing inspection leaves no tracing code
 behind in the flow

---
 bimdp/inspection/facade.py | 3 ++-
 bimdp/inspection/tracer.py | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/bimdp/inspection/facade.py b/bimdp/inspection/facade.py
index afefa90..69eec7d 100644
--- a/bimdp/inspection/facade.py
+++ b/bimdp/inspection/facade.py
@@ -212,7 +212,8 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
             robust_pickle(flow._snapshot_path_, filename, flow)
         else:
             raise
-    remove_inspection_residues(flow)
+    finally:
+        remove_inspection_residues(flow)
     # reload data samples
     with open(os.path.join(path, "training_data_samples.pckl"), "rb") as sample_file:
         x_samples, msg_samples, stop_messages = pickle.load(sample_file)
diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 6d00df1..df9388a 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -138,6 +138,8 @@ class InspectionHTMLTracer(object):
         # Note: this also catches legacy string exceptions (which are still
         #    used in numpy, e.g. np.core.multiarray.error)
         except:
+            # restore undecorated flow
+            self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
             if debug:
                 # insert the error slide and encapsulate the exception
                 traceback.print_exc()
@@ -154,6 +156,8 @@ class InspectionHTMLTracer(object):
         try:
             biflownode.stop_training(stop_msg)
         except:
+            # restore undecorated flow
+            self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
             if debug:
                 # insert the error slide and encapsulate the exception
                 traceback.print_exc()
@@ -186,12 +190,12 @@ class InspectionHTMLTracer(object):
         self._trace_path = path
         self._trace_name = trace_name
         self._flow = flow
-        self._tracing_decorator.decorate_flow(flow)
         if (not (isinstance(flow, BiFlow) or isinstance(flow, BiNode)) and
             (msg is not None)):
             # a msg would be interpreted as nodenr by a Flow, so check this
             err = "A msg was given for a normal Flow (need BiFlow)."
             raise Exception(err)
+        self._tracing_decorator.decorate_flow(flow)
         try:
             if msg or target:
                 result = self._flow.execute(x, msg, target, **kwargs)
@@ -201,6 +205,8 @@ class InspectionHTMLTracer(object):
         # Note: this also catches legacy string exceptions (which are still
         #    used in numpy, e.g. np.core.multiarray.error)
         except:
+            # restore undecorated flow
+            self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
             if debug:
                 # insert the error slide and encapsulate the exception
                 traceback.print_exc()
-- 
2.43.0


From a50457964e3d771bde74d6caf61a00ad26b57e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:08 +0000
Subject: [PATCH 091/102] fix: an inspection reports the error which occured
 while a slide was opened

---
 bimdp/inspection/tracer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index df9388a..315ac1a 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -242,8 +242,8 @@ class InspectionHTMLTracer(object):
         args, kwargs -- The arguments of the method call.
         """
         ## write visualization to html_file
+        html_file = self._begin_HTML_frame()
         try:
-            html_file = self._begin_HTML_frame()
             section_id, node_id = self._html_converter.write_html(
                                             path=self._trace_path,
                                             html_file=html_file,
@@ -284,8 +284,10 @@ class InspectionHTMLTracer(object):
 
         The method should always be used after _begin_HTML_frame.
         """
-        html_file.write('</body>\n</html>')
-        html_file.close()
+        try:
+            html_file.write('</body>\n</html>')
+        finally:
+            html_file.close()
 
     def _write_error_frame(self):
         with self._begin_HTML_frame() as html_file:
-- 
2.43.0


From 36062b796bcdedb736933d0f1f1120a6bb94ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:08 +0000
Subject: [PATCH 092/102] fix: the debug mode of the inspection can write its
 error slide

---
 mdp/hinet/htmlvisitor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdp/hinet/htmlvisitor.py b/mdp/hinet/htmlvisitor.py
index 652a63f..c9f8b31 100644
--- a/mdp/hinet/htmlvisitor.py
+++ b/mdp/hinet/htmlvisitor.py
@@ -35,6 +35,13 @@ class NewlineWriteFile(object):
         """Write a string to the file object and append a newline character."""
         self.file_obj.write(str(str_obj+ "\n"))
 
+    # special methods are not looked up with __getattr__
+    def __enter__(self):
+        return self
+
+    def __exit__(self, exc_type, exc_value, traceback):
+        self.file_obj.close()
+
     # forward all other methods
     def __getattr__(self, attr):
         return getattr(self.file_obj, attr)
-- 
2.43.0


From b45fa9170b27140e3042299cb2068d744ee02fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 093/102] fix: flows with supervised nodes can be inspected

---
 bimdp/inspection/tracer.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 315ac1a..3da2ab4 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -131,8 +131,15 @@ class InspectionHTMLTracer(object):
         self._flow = flow
         self._tracing_decorator.decorate_flow(flow)
         biflownode = BiFlowNode(BiFlow(flow.flow))
+        # normal flows can get tuples with arguments for the training node
+        flownode = None
+        if not isinstance(flow, BiFlow) and isinstance(x, (tuple, list)):
+            flownode = hinet.FlowNode(mdp.Flow(flow.flow))
         try:
-            biflownode.train(x=x, msg=msg, **kwargs)
+            if flownode is not None:
+                flownode.train(*x, **kwargs)
+            else:
+                biflownode.train(x=x, msg=msg, **kwargs)
             # reset is important for the following stop_training
             biflownode.bi_reset()
         # Note: this also catches legacy string exceptions (which are still
@@ -154,7 +161,10 @@ class InspectionHTMLTracer(object):
         self._reset()
         self._trace_name = trace_name + "_s"
         try:
-            biflownode.stop_training(stop_msg)
+            if flownode is not None:
+                flownode.stop_training()
+            else:
+                biflownode.stop_training(stop_msg)
         except:
             # restore undecorated flow
             self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
@@ -685,7 +695,13 @@ class TraceHTMLConverter(object):
                         '</td></tr>')
         # remaining arg is message
         method_args = method_args[1:]
-        if method_args and method_args[0] is not None:
+        if method_args and not isinstance(method_args[0], dict):
+            # normal nodes can have other arguments
+            for arg in method_args:
+                if arg is not None:
+                    f.write('<tr><td><pre>argument = </pre></td><td>' +
+                            str(arg) + '</td></tr>')
+        elif method_args:
             f.write('<tr><td><pre>msg = </pre></td><td>' +
                     self._dict_pretty_html(method_args[0]) + '</td></tr>')
         # normally the kwargs should be empty
-- 
2.43.0


From 8c7f2931132ca97b99037fdfebc828a5a5a455e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 094/102] fix: show_training does not change the lists of the
 caller

---
 bimdp/inspection/facade.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bimdp/inspection/facade.py b/bimdp/inspection/facade.py
index 69eec7d..648d09f 100644
--- a/bimdp/inspection/facade.py
+++ b/bimdp/inspection/facade.py
@@ -162,6 +162,8 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
     # if data_iterables is an array, wrap it up in a list
     if isinstance(data_iterables, numx.ndarray):
         data_iterables = [[data_iterables]] * len(flow)
+    # the iterables are replaced below, but not in the lists of the caller
+    data_iterables = list(data_iterables)
     x_samples = []
     for i, data_iterable in enumerate(data_iterables):
         if data_iterable is None:
@@ -172,6 +174,7 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
         data_iterables[i] = new_data_iterable
     del x_sample
     if msg_iterables:
+        msg_iterables = list(msg_iterables)
         msg_samples = []
         for i, msg_iterable in enumerate(msg_iterables):
             if msg_iterable is None:
-- 
2.43.0


From 111345bc3e491ce1d6ddd1cbcd605d99358bfde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:28 +0000
Subject: [PATCH 095/102] fix: the size of a running coroutine is not known

---
 mdp/hinet/htmlvisitor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mdp/hinet/htmlvisitor.py b/mdp/hinet/htmlvisitor.py
index c9f8b31..4c9bb00 100644
--- a/mdp/hinet/htmlvisitor.py
+++ b/mdp/hinet/htmlvisitor.py
@@ -194,8 +194,13 @@ class HiNetHTMLVisitor(object):
         if not (type_id=="flow" or type_id=="flownode"):
             f.write('<tr><td class="dim">out-dim: %s' % str(node.output_dim))
             if self.show_size:
+                try:
+                    size_str = mdp.utils.get_node_size_str(node)
+                except Exception:
+                    # e.g. running coroutines cannot be pickled
+                    size_str = "unknown"
                 f.write('&nbsp;&nbsp;<span class="memorycolor">size: %s</span>'
-                        % mdp.utils.get_node_size_str(node))
+                        % size_str)
             f.write('</td></tr>')
         f.write('</table>')
 
-- 
2.43.0


From 0037043109b99523600e7bdf7d9e45e15e25d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:28 +0000
Subject: [PATCH 096/102] fix: snapshots of a previous training do not show up
 in an inspection

---
 bimdp/inspection/tracer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 3da2ab4..b8cc6f3 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -755,7 +755,13 @@ def prepare_training_inspection(flow, path):
     Some attributes are added to the biflow which store all information needed
     for the pickling (like filename). To enable pickling we use the
     __getstate__ slot, since some attributes cannot be pickled.
+
+    Snapshots of a previous training are removed from the path.
     """
+    if os.path.isdir(path):
+        for filename in fnmatch.filter(os.listdir(path), SNAPSHOT_FILENAME +
+                                       "_[0-9]*" + PICKLE_EXT):
+            os.remove(os.path.join(path, filename))
     # add attributes to biflow which are used in wrapper_method
     flow._snapshot_counter_ = 0
     flow._snapshot_path_ = path
-- 
2.43.0


From 22f1af027ea7d761fd0506fb31a6e075f21befe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:28 +0000
Subject: [PATCH 097/102] fix: clone layers which use copies have an HTML
 representation

---
 mdp/hinet/htmlvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/htmlvisitor.py b/mdp/hinet/htmlvisitor.py
index 4c9bb00..69676d3 100644
--- a/mdp/hinet/htmlvisitor.py
+++ b/mdp/hinet/htmlvisitor.py
@@ -134,7 +134,7 @@ class HiNetHTMLVisitor(object):
         f.write('%d repetitions' % len(layer))
         f.write('</td>')
         f.write('<td>')
-        self._visit_node(layer.node)
+        self._visit_node(layer.nodes[0])
         f.write('</td></tr>')
         self._close_node_env(layer)
 
-- 
2.43.0


From bd45dcda51b2056e01de97b714ce6ee31325c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:37 +0000
Subject: [PATCH 098/102] fix: show_training takes the same data as the
 training of the flow

---
 bimdp/inspection/facade.py | 6 ++++++
 bimdp/inspection/utils.py  | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/bimdp/inspection/facade.py b/bimdp/inspection/facade.py
index 648d09f..8dd2b10 100644
--- a/bimdp/inspection/facade.py
+++ b/bimdp/inspection/facade.py
@@ -162,6 +162,12 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
     # if data_iterables is an array, wrap it up in a list
     if isinstance(data_iterables, numx.ndarray):
         data_iterables = [[data_iterables]] * len(flow)
+        if isinstance(flow, BiFlow):
+            # the form of msg_iterables follows that of data_iterables
+            msg_iterables = [[msg_iterables]] * len(flow)
+    elif data_iterables is None:
+        # there can be messages
+        data_iterables = [None] * len(flow)
     # the iterables are replaced below, but not in the lists of the caller
     data_iterables = list(data_iterables)
     x_samples = []
diff --git a/bimdp/inspection/utils.py b/bimdp/inspection/utils.py
index 9cfd201..fff30c9 100644
--- a/bimdp/inspection/utils.py
+++ b/bimdp/inspection/utils.py
@@ -51,14 +51,18 @@ def first_iterable_elem(iterable):
     The return value is a tuple of the first element and the iterable.
     If the iterable is actually an iterator then a decorator is used to wrap
     it and extract the first element in a non-consuming way.
+    If there are no elements then the first element is None.
     """
     if iter(iterable) is iterable:
         # iterable is actually iterator, have to wrap it
         peek_iter = PeekIterator(iterable)
-        first_elem = peek_iter.peek()
+        try:
+            first_elem = peek_iter.peek()
+        except StopIteration:
+            first_elem = None
         return first_elem, peek_iter
     else:
-        first_elem = next(iter(iterable))
+        first_elem = next(iter(iterable), None)
         return first_elem, iterable
 
 
-- 
2.43.0


From c955147a9fbe1890b1f67c2c4870a09c40e3e71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:36 +0000
Subject: [PATCH 099/102] fix: the inspection of a training which failed after
 its last phase can be completed

---
 bimdp/inspection/tracer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index b8cc6f3..e12b6f8 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -880,6 +880,10 @@ def _trace_biflow_training(snapshot_path, inspection_path,
                     else:
                         i_train_node += 1
                         index_table.append([])
+                if i_train_node == len(biflow):
+                    # the training failed after the last phase was completed
+                    index_table.pop()
+                    break
                 # inspect the training
                 x = x_samples[i_train_node]
                 if msg_samples:
-- 
2.43.0


From 239c0f454ff668fba1730ea68f2995c3c365dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:59 +0000
Subject: [PATCH 100/102] fix: an inspection does not pick up snapshots from
 subdirectories

---
 bimdp/inspection/tracer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index e12b6f8..1d5a94f 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -862,9 +862,10 @@ def _trace_biflow_training(snapshot_path, inspection_path,
     slide_filenames = []
     slide_node_ids = []
     try:
-        # search for the snapshot files
+        # search for the snapshot files, other inspections can have their
+        # snapshots in the subdirectories
         for file_path, dirs, files in os.walk(os.path.abspath(snapshot_path)):
-            dirs.sort()
+            dirs[:] = []
             files = fnmatch.filter(files, SNAPSHOT_FILENAME + "*" + PICKLE_EXT)
             files.sort()
             for filename in files:
-- 
2.43.0


From 9ebdbad01d120652eb7737ae4e2398607781c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:59 +0000
Subject: [PATCH 101/102] fix: the snapshots of a training are inspected in
 their order

---
 bimdp/inspection/tracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 1d5a94f..be707bf 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -867,7 +867,8 @@ def _trace_biflow_training(snapshot_path, inspection_path,
         for file_path, dirs, files in os.walk(os.path.abspath(snapshot_path)):
             dirs[:] = []
             files = fnmatch.filter(files, SNAPSHOT_FILENAME + "*" + PICKLE_EXT)
-            files.sort()
+            # the number of a snapshot can have more than one digit
+            files.sort(key=lambda filename: (len(filename), filename))
             for filename in files:
                 filename = os.path.join(file_path, filename)
                 # load the flow snapshot
-- 
2.43.0


From 0b52fcd7b60afa4dfcd4d2423d1d46b4d608a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:00 +0000
Subject: [PATCH 102/102] fix: flows which use a node more than once can be
 inspected

---
 bimdp/inspection/tracer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index be707bf..73bcbd7 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -327,6 +327,9 @@ class InspectionHTMLTracer(object):
 
     def _standard_tracer_decorate(self, node):
         """Adds a tracer wrapper to the node via monkey patching."""
+        if hasattr(node, TRACING_WRAP_FLAG):
+            # the node is used more than once
+            return
         # add a marker to show that this node is wrapped
         setattr(node, TRACING_WRAP_FLAG, True)
         trace_method_names = list(NODE_TRACE_METHOD_NAMES)
-- 
2.43.0

