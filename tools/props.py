"""Source of /verif/properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

prop("S01", "Schedulers run every task exactly once and return results in order",
 "For any sequence of submissions to a serial, thread or process scheduler (with or without callable copying/caching, from one or several submitting threads) every submitted task is executed exactly once, on its own data, with the callable that was given with it or, if none was given, the most recent one. "
 "get_results waits until all submitted tasks are finished and then returns each result exactly once, in submission order with the default container, after which the scheduler starts from empty and can be reused. "
 "The caller's callable is never called directly: it is forked before each task (and set up once in a new environment), so state changed by a task never leaks into another task or back to the caller.",
 ["schedules", "histories", "configurations"],
 "all thread/worker interleavings, task durations and completion orders; all histories of add_task/set_task_callable/get_results; all n_threads/n_processes, copy/cache settings and result containers",
 "The tests submit a handful of equal tasks and see one real interleaving per run; lost, duplicated or mis-ordered results and stale cached callables only appear under specific interleavings.",
 ["mdp/parallel/scheduling.py", "mdp/parallel/thread_schedule.py", "mdp/parallel/process_schedule.py"],
 [("scheduler lock and open-task count", "mdp/parallel/scheduling.py:Scheduler"),
  ("ordered result container", "mdp/parallel/scheduling.py:OrderedResultContainer"),
  ("callable version tags for worker caches", "mdp/parallel/process_schedule.py:ProcessScheduler._task_thread")],
 [("_task_counter", "index of the last submitted task", "mdp/parallel/scheduling.py"),
  ("_last_callable_index", "version of the current callable", "mdp/parallel/scheduling.py")],
 ["Scheduler.add_task", "Scheduler.get_results"])

prop("S02", "A failing task, worker or thread start never hangs a scheduler or is lost",
 "If a task raises, a worker process dies or answers with garbage, or the system cannot start a thread for a while, then add_task and get_results still come back within bounded time once faults stop: every task either has its result returned or its failure is raised to the caller, never silently dropped and never a hang. "
 "Tasks unaffected by the fault still run exactly once, and temporary inability to start a thread is retried, not reported. "
 "After a failure was reported the scheduler can still be used for further tasks and shut down.",
 ["schedules", "fault_sequences", "crash_points"],
 "all points at which a task raises, a worker dies (before, while or after handling a task, or in the middle of its answer) or a thread start fails, in all interleavings and combinations",
 "No test makes a task, worker or thread start fail; a hang shows only when the failure meets a waiting get_results/add_task.",
 ["mdp/parallel/scheduling.py", "mdp/parallel/thread_schedule.py", "mdp/parallel/process_schedule.py"],
 [("open-task accounting", "mdp/parallel/scheduling.py:Scheduler._store_result"),
  ("retry when a thread cannot be started", "mdp/parallel/thread_schedule.py:ThreadScheduler._process_task"),
  ("worker failure handling", "mdp/parallel/process_schedule.py:ProcessScheduler._task_thread")],
 (), ["Scheduler.add_task", "Scheduler.get_results", "Scheduler.shutdown"])

prop("S03", "Schedulers respect their concurrency limit and shut their workers down",
 "A thread scheduler never runs more than its configured number of tasks at once and a process scheduler starts exactly its configured number of workers, gives a worker one task at a time, and both use the available parallelism (a submission is held back only while the limit is reached). "
 "add_task and get_results always make progress: no interleaving of submissions, completions and result collection deadlocks. "
 "Shutting down an idle scheduler, also via its context manager, ends every worker process.",
 ["schedules", "configurations", "histories"],
 "all interleavings and task durations, all limits and numbers of submitting threads",
 "The tests never look at how many tasks run at once, and a real run shows one interleaving only.",
 ["mdp/parallel/scheduling.py", "mdp/parallel/thread_schedule.py", "mdp/parallel/process_schedule.py"],
 [("active thread limit", "mdp/parallel/thread_schedule.py:ThreadScheduler._process_task"),
  ("free process list", "mdp/parallel/process_schedule.py:ProcessScheduler"),
  ("EXIT message", "mdp/parallel/process_schedule.py:ProcessScheduler._shutdown")],
 (), ["Scheduler.add_task", "Scheduler.shutdown"])

prop("P01", "Parallel training gives the same trained flow as serial training",
 "Training a parallel flow on any scheduler (or list of schedulers, or by handing out the tasks manually) yields the same trained nodes, up to floating point summation order, as training an ordinary flow on the same chunks, whatever the order in which tasks finish. "
 "This holds for every node class that claims to be forkable (covariance-based nodes, discriminant analysis, classifiers, histogram nodes, layers, clone layers and nested flow nodes, multi-phase and supervised training with extra arguments), and nodes that cannot be forked are trained locally on all their data. "
 "Every data chunk is used exactly once per training phase of each node.",
 ["schedules", "configurations", "inputs"],
 "all completion orders and worker interleavings, flows mixing forkable, non-forkable, untrainable and pre-trained nodes, chunkings, schedulers and callable classes",
 "The tests compare a few flows under one real completion order; order-dependent joins, forks that share state and forgotten join fields need particular orders, chunkings or classes.",
 ["mdp/parallel/parallelflows.py", "mdp/parallel/parallelnodes.py", "mdp/parallel/parallelclassifiers.py", "mdp/parallel/parallelhinet.py"],
 [("fork/join", "mdp/parallel/parallelnodes.py"), ("train result container", "mdp/parallel/parallelflows.py:TrainResultContainer"),
  ("local training fallback", "mdp/parallel/parallelflows.py:ParallelFlow._next_train_phase")],
 (), ["ParallelFlow.train", "ParallelFlow.use_results"])

prop("P02", "Parallel execution gives the same result as serial execution",
 "Executing a parallel flow on any scheduler returns exactly what the ordinary flow returns for the same chunks: rows in input order, for single arrays and iterables, for any number of executed nodes, whatever the completion order. "
 "Nodes that must be forked even during execution are joined back exactly once per task, so that their collected data is complete, and a scheduler used before for another flow or execution does not change the result. "
 "The flow's own nodes are otherwise unchanged by the execution.",
 ["schedules", "configurations", "histories"],
 "all completion orders and interleavings, chunkings, nodenr values, sequences of executions and trainings sharing a scheduler",
 "Tests execute two or three chunks with one real order and a fresh scheduler each time.",
 ["mdp/parallel/parallelflows.py", "mdp/parallel/parallelhinet.py"],
 [("ordered results", "mdp/parallel/parallelflows.py:ExecuteResultContainer"),
  ("execute fork", "mdp/parallel/parallelflows.py:FlowExecuteCallable")],
 (), ["ParallelFlow.execute"])

prop("P03", "A failed parallel run leaves flow, schedulers and extensions usable",
 "If parallel training or execution fails at any point (a raising data iterator, malformed chunk, failing node, task or scheduler), the error reaches the caller, the parallel extension is no longer active unless it was before, and the flow is neither stuck in a parallel state nor holding on to iterators: it can be saved, copied, executed and trained again. "
 "When a list or generator of schedulers is given, each scheduler taken from it is shut down exactly once, whether training succeeds, fails or has nothing to do, and a scheduler passed directly is not shut down. "
 "Nodes already fully trained when the failure happened stay trained, and retrying with good data gives a completely trained flow (unless a node failed in the middle of closing a training phase).",
 ["fault_sequences", "crash_points", "configurations", "schedules"],
 "all failure points during parallel training and execution, with pre-trained nodes, empty or one-shot iterators and lists of schedulers",
 "No test injects a failure in a parallel run, none retries afterwards.",
 ["mdp/parallel/parallelflows.py", "mdp/extension.py"],
 [("cleanup in finally", "mdp/parallel/parallelflows.py:ParallelFlow.train"), ("with_extension", "mdp/extension.py:with_extension"),
  ("scheduler disposal", "mdp/parallel/parallelflows.py:ParallelFlow.train")],
 [("_i_train_node", "flag and position of the training underway", "mdp/parallel/parallelflows.py")],
 ["ParallelFlow.train", "ParallelFlow.is_parallel_training"])

prop("C01", "Checkpoints run exactly once per trained node, in order, and allow restart",
 "A checkpoint flow (serial or parallel, unidirectional or bidirectional) calls the checkpoint function of every node exactly once, in node order, at the end of that node's training and before the next node sees data, with a single function applied to all nodes and a list applied position by position; dictionaries returned are merged into the flow (nodes that need no training are skipped in parallel training and called in their turn otherwise). "
 "The trained result is the same as without checkpoints. "
 "A node saved by a checkpoint can be loaded after a crash at any later point and put into a new flow, whose continued training ends in the same state as an uninterrupted run.",
 ["crash_points", "fault_sequences", "histories"],
 "all crash points during flow training, all checkpoint assignments, disk errors while saving, all flow classes",
 "Tests check one checkpoint list on one flow and never crash or restore in the middle of a training.",
 ["mdp/linear_flows.py", "mdp/parallel/parallelflows.py", "bimdp/biflow.py", "bimdp/parallel/parallelbiflow.py"],
 [("checkpoint loop", "mdp/linear_flows.py:CheckpointFlow.train"), ("save function", "mdp/linear_flows.py:CheckpointSaveFunction")],
 (), ["CheckpointFlow.train"])

prop("N01", "Copy, save and reload of nodes and flows are faithful and independent",
 "At any point of its life (fresh, between chunks, between training phases, trained) a node or flow can be copied, saved to a file or string and loaded again, and the copy behaves in all further training, execution and inversion exactly like the original would have. "
 "Original and copy never influence each other afterwards, and copying or saving never changes the original. "
 "If writing the file fails, the error is raised, the object in memory is unharmed and a later save succeeds.",
 ["crash_points", "histories", "fault_sequences", "configurations"],
 "all node classes, all positions in the training history at which a crash-and-reload or copy happens, all pickle protocols, all disk errors",
 "Generic tests copy or pickle untrained or fully trained nodes only, without disk faults and without continuing both objects.",
 ["mdp/signal_node.py", "mdp/linear_flows.py", "mdp/hinet/flownode.py", "mdp/hinet/layer.py", "mdp/utils/covariance.py"],
 [("copy/save", "mdp/signal_node.py:Node.copy"), ("flow copy/save", "mdp/linear_flows.py:Flow.save"), ("FlowNode.copy", "mdp/hinet/flownode.py")],
 (), ["Node.copy", "Node.save", "Flow.copy", "Flow.save"])

prop("N02", "A crash in a flow is reported with its node and leaves a faithful crash dump",
 "When a node of an ordinary, checkpoint or online flow fails in training, execution or inversion, the caller gets a flow exception that names the failing node by position and class, keeps the parent exception and its traceback text. "
 "With crash recovery on, a dump is written (to the given file or a fresh temporary file) which reloads to a flow in the state at the time of the crash; with crash recovery off nothing is written, and if the dump itself cannot be written the original failure is still what is reported. "
 "Nodes trained before the failure stay trained, and training the same flow again with good data completes.",
 ["fault_sequences", "crash_points"],
 "all failing nodes, phases and chunks, with and without crash recovery and disk errors while dumping",
 "Tests trigger one bogus node and never a failing dump or a retry.",
 ["mdp/linear_flows.py"],
 [("crash recovery", "mdp/linear_flows.py:FlowExceptionCR"), ("_propagate_exception", "mdp/linear_flows.py:Flow")],
 (), ["Flow.train", "Flow.execute"])

prop("N03", "Training does not depend on how the data stream is cut, stalls or is rejected",
 "For nodes whose training accumulates statistics, the trained node is the same (up to rounding) however the same sequence of observations is cut into chunks, as long as each chunk is long enough for the node, and executing chunk by chunk gives the same rows as executing everything at once. "
 "Chunks passed in are never modified, and a chunk rejected with an error contributes nothing: training goes on with the remaining chunks as if the rejected one had not been offered. "
 "Training one node while other nodes are trained interleaved, in the same or in other threads, has no influence on it.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "all cuts of a stream, all interleavings of several nodes' training, all positions of rejected chunks",
 "Tests use one fixed chunking per node, no rejected chunks, and one node at a time.",
 ["mdp/nodes", "mdp/utils/covariance.py", "mdp/signal_node.py"],
 [("covariance accumulation", "mdp/utils/covariance.py:CovarianceMatrix"), ("input checks", "mdp/signal_node.py:Node._check_input")],
 (), ["Node.train", "Node.execute"])

prop("N04", "Every call history follows the training phase rules",
 "In any sequence of train, stop_training, execute and inverse calls, including failing ones, a node moves through its training phases strictly in order, each closed exactly once: train after the end of training and stop_training without training data are refused with a training exception, executing or inverting a node in its last open phase closes training first, and with open phases left is refused. "
 "Untrainable nodes refuse training, input of wrong rank, dimension or length is refused, and a dimension or dtype once fixed never changes. "
 "A refused call changes neither phase nor learned state, and multi-phase nodes report their current and remaining phases consistently at all times.",
 ["histories", "fault_sequences"],
 "all call histories over all node classes, with failing training and stop-training steps injected",
 "Tests run the canonical train/stop/execute sequence; the rules quantify over all sequences including refused and failing calls.",
 ["mdp/signal_node.py", "mdp/hinet/flownode.py", "mdp/hinet/layer.py", "mdp/classifier_node.py", "bimdp/binode.py"],
 [("phase bookkeeping", "mdp/signal_node.py:Node.train/stop_training"), ("pre-execution checks", "mdp/signal_node.py:Node._pre_execution_checks")],
 (), ["Node.train", "Node.stop_training", "Node.execute", "Node.inverse"])

prop("E01", "Extensions can be switched on and off in any order without residue",
 "After any history of activating and deactivating extensions (directly, in groups, with the decorator or the context manager, nested, with setup or teardown functions or extended code that raise), the behaviour of all node classes is exactly what the set of active extensions prescribes; with none active all classes are as they originally were. "
 "An extension that is active provides its methods, and the hidden original, on the class and its subclasses; a failed or colliding activation is rolled back. "
 "The decorator and the context manager deactivate only what they themselves activated, also when the guarded code raises.",
 ["histories", "fault_sequences"],
 "all activation histories over several (overlapping, inheriting) extensions with faults injected in setup, teardown and guarded code",
 "Tests activate one or two extensions once; leftovers appear after particular orders, nestings and failures.",
 ["mdp/extension.py"],
 [("injection and restore", "mdp/extension.py:activate_extension/deactivate_extension"), ("context manager", "mdp/extension.py:extension"), ("decorator", "mdp/extension.py:with_extension")],
 [("_active_extensions", "names of active extensions", "mdp/extension.py")],
 ["get_active_extensions", "node class attributes"])

prop("K01", "Cached execution equals uncached execution, even with a failing cache disk",
 "With the caching extension active, for all nodes, selected classes or selected instances, with any cache directory and any history of executions, retrainings, copies, re-activations and directory changes, execute returns what the uncached node would return; repeated execution of the same data by the same node state is served from the cache. "
 "Nodes that are not selected are never cached (nor are classes that define their own public execute), and leaving the context or deactivating, also after an error, restores uncached behaviour and forgets selections. "
 "Cache files that are lost, truncated or unwritable cost at most time or a raised I/O error, never a wrong result.",
 ["histories", "fault_sequences", "configurations"],
 "all caching scopes and execution histories, with corrupted, deleted or unwritable cache files at any point",
 "Tests use a fresh healthy cache and at most two nodes.",
 ["mdp/caching/caching_extension.py"],
 [("cached execute", "mdp/caching/caching_extension.py:CacheExecuteExtensionNode.execute"), ("activation", "mdp/caching/caching_extension.py:activate_caching")],
 [("_cached_methods", "per-instance cached methods", "mdp/caching/caching_extension.py")],
 ["Node.execute", "mdp.caching.cache"])

prop("O01", "Online flows train every node on each chunk as soon as it arrives",
 "Training an online flow on any sequence of chunks (arrays, lists, generators, with per-node arguments) gives each trainable node exactly the output of the current state of the nodes before it, sample by sample or chunk by chunk as the node requires, in order, with every observation used exactly once; execution in between is always possible, does not end training of online nodes and returns what the current state gives. "
 "Online nodes and flows report their training iteration exactly as the number of updates done, honour their training type and numerical random generator, and online layers and flow nodes behave like their nodes used one by one. "
 "Circular flows feed the output of the whole loop back for the configured number of iterations, execution ends at the configured output node, and stopping and resuming from a copy or saved file at any chunk boundary continues identically.",
 ["histories", "crash_points", "inputs"],
 "all chunk sequences, interleaved executions, crash-and-reload points, node mixes (incremental, batch, multi-phase, pre-trained, untrainable)",
 "Tests train one or two flows from start to end without interleaved use or restarts.",
 ["mdp/linear_flows_online.py", "mdp/signal_node_online.py", "mdp/hinet/flownode_online.py", "mdp/hinet/layer_online.py"],
 [("online training loop", "mdp/linear_flows_online.py:OnlineFlow"), ("circular feedback", "mdp/linear_flows_online.py:CircularOnlineFlow"), ("training type", "mdp/signal_node_online.py:OnlineNode")],
 (), ["OnlineFlow.train", "OnlineNode.train", "CircularOnlineFlow.train"])

prop("B01", "Bidirectional flows route data and messages as specified and reset cleanly",
 "For any targets and messages returned by the nodes, a bidirectional flow visits exactly the nodes the return values prescribe: next node by default, relative or named targets when given, forwards or backwards, until the exit target or the end of the flow is reached, handing each node the data and exactly the message entries addressed to it or to all, with invalid targets refused. "
 "During training every chunk and its message reaches the trained node exactly once per phase, stop-training messages are executed before training goes on, and nodes are reset between chunks and after failures. "
 "Message results of several chunks are merged so that every entry of every chunk is present once, in order, and a node suspended in a coroutine continues exactly where it stopped.",
 ["histories", "fault_sequences", "inputs"],
 "all routing programs (targets, messages, methods) over all flow lengths and chunk sequences, with nodes failing at any step",
 "Tests follow a few hand-written routes; the router must be right for every route and clean up after every failure.",
 ["bimdp/biflow.py", "bimdp/binode.py"],
 [("router", "bimdp/biflow.py:BiFlow._execute_seq"), ("message parsing", "bimdp/biflow.py:MessageResultContainer"), ("reset", "bimdp/binode.py:BiNode.bi_reset"), ("coroutine", "bimdp/binode.py:binode_coroutine")],
 (), ["BiFlow.execute", "BiFlow.train"])

prop("B02", "Parallel bidirectional flows give the same results as serial ones",
 "Training and executing a parallel bidirectional flow with messages, message iterables, stop messages, targets, layers and clone layers on any scheduler gives the same trained nodes, outputs and merged messages as the serial bidirectional flow, whatever the completion order. "
 "Nodes that need forking in execution get all their collected data joined exactly once. "
 "After a failure at any point the flow is not stuck in a parallel state and can be used again, and each scheduler taken from a list is shut down exactly once.",
 ["schedules", "configurations", "fault_sequences"],
 "all completion orders, flows, message patterns and failure points",
 "Tests compare very few flows under one real completion order and never fail a task.",
 ["bimdp/parallel/parallelbiflow.py", "bimdp/parallel/parallelbihinet.py", "bimdp/hinet"],
 [("task creation", "bimdp/parallel/parallelbiflow.py:ParallelBiFlow"), ("result use", "bimdp/parallel/parallelbiflow.py:ParallelBiFlow.use_results")],
 (), ["ParallelBiFlow.train", "ParallelBiFlow.execute"])

prop("H01", "Layers and flow nodes behave exactly like the nodes they contain",
 "For any history of training, stopping, executing, inverting, copying and saving, a layer behaves like its nodes fed with their slices of the input, a clone layer like one node fed by every slice in turn, a same-input layer like its nodes all fed with the full input, and a flow node like its flow, including the number and order of training phases, also with pre-trained, partly trained and untrainable nodes. "
 "Dimensions and data types of the container always agree with those of its nodes, and inconsistent assignments are refused without changing anything. "
 "Copies and reloaded containers contain independent nodes (clone layers a single shared one).",
 ["histories", "crash_points", "configurations"],
 "all nestings of containers, training histories, and copy/reload points",
 "Tests train some fixed hierarchies from start to end.",
 ["mdp/hinet/layer.py", "mdp/hinet/flownode.py", "mdp/hinet/switchboard.py"],
 [("phase delegation", "mdp/hinet/flownode.py:FlowNode._get_train_seq"), ("layer slices", "mdp/hinet/layer.py:Layer")],
 (), ["Layer", "CloneLayer", "SameInputLayer", "FlowNode"])

prop("F01", "Flow training delivers every chunk to every node; rejected edits change nothing",
 "Training a flow gives each untrained node, in order, phase by phase, exactly the chunks of its own iterable executed through the already trained nodes before it, each exactly once with its extra arguments, while trained nodes stay as they are and data given for untrainable nodes is not touched; one-shot iterators needed twice, empty iterators and wrong numbers of iterables are refused with a flow error naming the problem. "
 "Executing or inverting chunk iterables equals concatenating the results of the single chunks, for any number of nodes. "
 "Container operations on a flow (indexing, slices, insertion, deletion, concatenation, extension) behave like those of a list of nodes, and one that is refused for inconsistent dimensions or types leaves the flow as it was.",
 ["histories", "fault_sequences", "inputs"],
 "all flows, chunk sequences and iterator kinds, all histories of container edits with refused ones in between",
 "Tests cover a few fixed edits and trainings; atomicity and exactly-once delivery range over all histories.",
 ["mdp/linear_flows.py"],
 [("training loop", "mdp/linear_flows.py:Flow._train_node"), ("consistency checks", "mdp/linear_flows.py:Flow._check_nodes_consistency")],
 (), ["Flow.train", "Flow.execute", "Flow.__setitem__"])

prop("R01", "Random numbers: seeded runs repeat exactly; equal state gives equal results",
 "With the package's random generator seeded, training and executing nodes that use randomness gives identical results in every repetition, whatever the time, the state of other generators, the scheduling of other threads which draw nothing from it, or unrelated nodes created before. "
 "A node whose own random state or generator is set (online nodes are seeded randomly unless one is given) gives results that depend only on it, never on draws made elsewhere from the global generator, and distinct generators do not influence each other. "
 "Nodes that are not stochastic never consume random numbers during execution.",
 ["histories", "schedules", "configurations"],
 "all interleavings of several stochastic nodes and external consumers of the global generator, all seeds",
 "Tests seed once and check statistics; repeatability must hold for every interleaving with other consumers.",
 ["mdp/signal_node_online.py", "mdp/nodes", "mdp/utils/routines.py"],
 [("numx_rng", "mdp/signal_node_online.py:OnlineNode"), ("global generator", "mdp/__init__.py:numx_rand")],
 (), ["Node.train", "Node.execute"])

prop("U01", "Temporary directories clean up everything of their own and nothing else",
 "When a temporary directory object of the package (mdp.utils.temporarydir) is cleaned up, leaves its context (also by an exception) or is garbage collected, its directory with all its contents is gone, and nothing outside it is touched, whatever links, nested or concurrently vanishing entries it contains. "
 "Cleaning up twice, or after the directory has already been removed, is harmless. "
 "Transient errors while removing single entries neither crash the clean-up nor lead to removal of anything else.",
 ["fault_sequences", "histories", "schedules"],
 "all directory trees including symbolic links, all interleavings with concurrent changes of the tree and failing system calls",
 "One test creates and removes a small tree; links, races and errors are not tried.",
 ["mdp/utils/temporarydir.py"],
 [("recursive removal", "mdp/utils/temporarydir.py:TemporaryDirectory._rmtree")],
 (), ["TemporaryDirectory.cleanup"])

prop("U02", "Progress reporting never changes the iteration it reports on",
 "Iterating through the progress indicator yields exactly the items of the underlying sequence, each once and in order, for any sequence length (also empty), sized or unsized sequence, style and options, and whatever the clock does between items (standing still, jumping forwards or backwards). "
 "An exception raised by the sequence or by the consumer passes through unchanged. "
 "The reported fraction never exceeds 100 percent for a sequence of the announced length and ends at 100 percent.",
 ["schedules", "inputs", "fault_sequences"],
 "all clock behaviours (stall, skew, jump), lengths, styles and failing sequences",
 "Tests run no clock faults: the timer style divides by elapsed times and progress differences.",
 ["mdp/utils/progress_bar.py"],
 [("progress loop", "mdp/utils/progress_bar.py:progressinfo"), ("time estimate", "mdp/utils/progress_bar.py:_progress")],
 (), ["progressinfo"])

prop("I01", "Inspecting a flow does not change its training or execution",
 "Training or executing a (bi-directional or plain) flow under the inspection tools gives the same trained nodes, results and messages as without them, and writes one snapshot and slide per traced step, which reload to the recorded state. "
 "When inspection ends, also by a failing node or a disk error while writing, the tracing is switched off and all node classes behave as before. "
 "Errors raised by the inspected flow reach the caller.",
 ["fault_sequences", "histories"],
 "all flows and chunkings, with failing nodes and failing disk writes at any point",
 "Tests run the inspection once on a healthy disk and look at nothing but that it does not crash.",
 ["bimdp/inspection/tracer.py", "bimdp/inspection/facade.py"],
 [("trace extension", "bimdp/inspection/tracer.py"), ("facade", "bimdp/inspection/facade.py")],
 (), ["bimdp.inspection.show_training", "bimdp.inspection.show_execution"])

# not applicable
prop("X01", "Numerical contracts of the algorithms (decorrelation, slowness, independence)",
 "Trained analysis nodes satisfy their mathematical definition: whitened output has unit covariance, principal components are orthonormal and ordered by variance, slow features are ordered by slowness, classifiers maximise the posterior.",
 ["inputs"], "all data sets", "Tests use a few random data sets.",
 ["mdp/nodes"], [("algorithms", "mdp/nodes")])
prop("X02", "Invertible nodes invert their own output",
 "For every invertible, trained node, applying inverse to the output of execute gives back the input (or its projection on the retained subspace).",
 ["inputs"], "all data sets and node classes", "Tests use a few random data sets.",
 ["mdp/nodes", "mdp/signal_node.py"], [("inverse", "mdp/signal_node.py:Node.inverse")])
prop("X03", "Graph operations and orderings agree with their definitions",
 "Topological sort, depth-first and breadth-first traversals, neighbourhood and connected-component queries agree with the set of nodes and edges after any sequence of insertions and removals.",
 ["inputs", "programs"], "all graphs and edit sequences", "Tests use a few small graphs.",
 ["mdp/graph/graph.py"], [("graph algorithms", "mdp/graph/graph.py:Graph")])
prop("X04", "Switchboards route exactly the configured connections",
 "A switchboard maps each output channel to the input channels its configuration describes (rectangular, overlapping, hexagonal or double fields), and inverse undoes it where it is a permutation.",
 ["inputs", "configurations"], "all switchboard geometries", "Tests check a few geometries.",
 ["mdp/hinet/switchboard.py"], [("connections", "mdp/hinet/switchboard.py:Switchboard")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
