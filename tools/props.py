"""Writes properties.jsonl (kept as a script because JSON lines are painful to edit by hand)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": state.split(":")[0], "meaning": state, "where": files[0]}]
    if observe:
        a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


EX = "hamilton/execution/executors.py"
ST = "hamilton/execution/state.py"
GF = "hamilton/execution/graph_functions.py"
DR = "hamilton/driver.py"
AD = "hamilton/async_driver.py"
LB = "hamilton/lifecycle/base.py"
CA = "hamilton/caching/adapter.py"
CF = "hamilton/caching/stores/file.py"
CS = "hamilton/caching/stores/sqlite.py"
SA = "ui/sdk/src/hamilton_sdk/adapters.py"
SC = "ui/sdk/src/hamilton_sdk/api/clients.py"

prop("P01", "Parallel execution returns the sequential result",
     "For every valid dataflow, request, inputs and overrides, executing it with dynamic/task-based execution (any grouping, any local and remote executor, any degree of parallelism, any completion order of the parallel branches) returns exactly the values a plain sequential evaluation of the functions would return, under the requested names. A collected list holds one item per expanded element, in expansion order, and empty expansions collect to an empty list.",
     ["programs", "schedules", "configurations", "inputs"],
     "every dataflow with plain nodes and Parallelizable/Collect regions, every executor and grouping configuration, every interleaving of workers with the driver loop",
     "Tests run a few fixed dataflows on whatever interleaving the machine produces; the guarantee is over every dataflow shape and every order in which branches are queued, run and finish.",
     [EX, ST, "hamilton/execution/grouping.py", GF, DR],
     [("driver loop of dynamic execution", EX + ":run_graph_to_completion"), ("task spawning, parameterisation and collection", ST + ":ExecutionState"), ("grouping into tasks", "hamilton/execution/grouping.py"), ("per-task evaluation", EX + ":base_execute_task")],
     "values returned by Driver.execute, arguments each function receives")

prop("P02", "Each needed function runs exactly once; nothing else runs",
     "During one execution every function on the path to a requested result is called exactly once (once per element inside a parallel region), with exactly the values its dependencies produced; functions not needed for the request are not called. A value supplied through overrides is used as given, its function is not called, and functions needed only by it are not called either.",
     ["programs", "schedules", "configurations", "inputs"],
     "every dataflow, request and override set; sequential, task-based and parallel executors; every interleaving",
     "A duplicated or lost task shows up only for particular graph shapes combined with particular completion orders; tests check results, rarely call counts, and never all schedules.",
     [EX, ST, GF, DR, "hamilton/graph.py"],
     [("sequential memoised evaluation", GF + ":execute_subdag"), ("task queue and dependency counting", ST + ":ExecutionState.update_task_state"), ("selection of needed nodes", "hamilton/graph.py:FunctionGraph.get_upstream_nodes")],
     "calls of the dataflow's functions with their arguments")

prop("P03", "Dynamic execution finishes, within bounds, and leaves nothing running",
     "Every dynamic execution terminates, whether the dataflow succeeds or fails, without deadlock or livelock. A multithreading executor never runs more tasks at once than its configured maximum and does use that parallelism when enough branches are ready; every executor that was initialised is finalised exactly once (also when another executor fails to start, to stop or to take a task), and no task is still running after the call has returned.",
     ["schedules", "programs", "fault_sequences", "configurations"],
     "every interleaving and completion order, every failing node, every executor configuration, with slow and stalled tasks",
     "Liveness, concurrency bounds and leaks depend on the schedule; a test sees one schedule and cannot see 'never'.",
     [EX, ST],
     [("polling loop and finalisation", EX + ":run_graph_to_completion"), ("bounded submission", EX + ":PoolExecutor"), ("multi-executor lifecycle", EX + ":ExecutionManager")],
     "virtual-time progress, number of concurrently running functions, init/finalize calls")

prop("P04", "A failing function surfaces as that failure and poisons nothing",
     "If a function raises or is interrupted (KeyboardInterrupt, SystemExit) during an execution, in any position and under any executor and schedule, the execution raises one of the exceptions the functions raised (never a partial or made-up result, never an internal error, never a hang), and no function downstream of the failed one is called with made-up values. The same driver afterwards executes correctly, as if the failed execution had not happened.",
     ["fault_sequences", "schedules", "programs"],
     "every set of failing nodes/branches and failure timing, every interleaving, repeated executions on the same driver",
     "The position of the failure among in-flight branches is schedule dependent; tests fail one fixed node and look at one call.",
     [EX, ST, GF, DR],
     [("failure propagation", EX + ":run_graph_to_completion"), ("future state and error", EX + ":TaskFutureWrappingPythonFuture"), ("error path of node execution", GF + ":execute_lifecycle_for_node")],
     "exception raised by Driver.execute; results of later executions")

prop("P05", "Lifecycle hooks observe every execution completely and in order",
     "For every execution, registered adapters see exactly one before-graph and one after-graph event, and exactly one before and one after event for every task and every node executed, each node pair nested in its task and in the graph pair, before-node preceding and after-node following the function call. The after events carry the true success flag, result or error, and the before-node event the true inputs; hooks of several adapters run in registration order; this holds for failing and interrupted executions (an interrupt is never reported as success), except that work which had not finished may lack its after events.",
     ["schedules", "programs", "fault_sequences", "configurations"],
     "every dataflow, executor, adapter combination, failing node, and interleaving",
     "Event pairing under concurrency and failure is a trace property over all schedules; tests check a fixed trace of a serial run.",
     [LB, GF, EX, DR, "hamilton/lifecycle/api.py"],
     [("hook dispatch", LB + ":LifecycleAdapterSet"), ("node hooks", GF + ":execute_lifecycle_for_node"), ("task hooks", EX + ":base_execute_task"), ("graph hooks", DR + ":Driver.execute")],
     "event trace recorded by adapters implementing the public hook classes")

prop("P06", "Concurrent executions do not interfere with each other",
     "When several threads execute requests at the same time on one driver (plain or dynamic with synchronous executors), or on different drivers that use the same modules, each execution returns what it would return alone, calls exactly the functions it needs, and its failure never affects another execution. Inputs, overrides and configuration dictionaries supplied by the caller are never modified.",
     ["schedules", "programs", "inputs", "fault_sequences"],
     "every interleaving of two to four concurrent execute/validate calls with different inputs, overrides and failures",
     "Needs interleavings inside the library; tests do not execute concurrently at all.",
     [DR, GF, EX, "hamilton/graph.py", LB],
     [("driver-level execution", DR + ":Driver.execute"), ("per-run memo tables", "hamilton/graph.py:FunctionGraph.execute"), ("per-run execution state", DR + ":TaskBasedGraphExecutor.execute")],
     "results per caller, function calls per run")

prop("P07", "The async driver computes the right values exactly once, concurrently",
     "For every dataflow of async and ordinary functions, every awaiting order and any number of concurrent execute calls on one async driver, each call returns what a sequential evaluation with its own inputs and overrides returns. Within a call every needed function runs exactly once, functions that do not depend on each other can be in flight at the same time, and a call that is cancelled, fails or times out does not disturb the others.",
     ["schedules", "programs", "inputs", "fault_sequences"],
     "every ordering of ready callbacks and timers, every dataflow mixing coroutines and plain functions, cancellations at every await",
     "Event loop ordering, cancellation points and overlapping calls span far more orders than tests sample.",
     [AD, GF],
     [("node as task", AD + ":AsyncGraphAdapter.do_node_execute"), ("awaiting of dependencies", AD + ":await_dict_of_tasks"), ("driver entry points", AD + ":AsyncDriver")],
     "values returned, function calls, overlap in virtual time")

prop("P08", "Async hooks and failures are delivered faithfully",
     "In async executions each node execution is bracketed by exactly one before and one after event, with the true inputs, result, error and success flag, delivered to every asynchronous adapter, inside one before-graph and one after-graph event delivered to synchronous and asynchronous adapters alike. If a function raises, the call raises that exception after the after-graph event reported the failure; the driver stays usable.",
     ["schedules", "programs", "fault_sequences"],
     "every ordering of callbacks and timers, every failing node, adapters with sync and async hooks that themselves yield",
     "Same trace property as for threads, over event-loop orders and hook suspension points tests do not sample.",
     [AD, LB],
     [("async node lifecycle", AD + ":AsyncGraphAdapter.do_node_execute"), ("async graph lifecycle", AD + ":AsyncDriver.raw_execute"), ("async hook dispatch", LB + ":LifecycleAdapterSet.call_all_lifecycle_hooks_sync_and_async")],
     "event trace recorded by adapters")

prop("P09", "Caching never changes a result",
     "Over any history of executions against one cache, in one or several successive processes, with inputs, overrides, configuration, function code, cache behaviors and the requested nodes changing arbitrarily in between, an execution with caching returns exactly what the same execution without caching returns. This includes parallel regions and values of all the standard data types; functions are deterministic (one that reads something outside the dataflow is set to recompute or disable), ignored dependencies do not matter for the result, and a storage format chosen for a node must be able to represent its value.",
     ["histories", "programs", "inputs", "configurations", "schedules"],
     "every history of process lives and executions with edits to code, inputs, config and behaviors between them",
     "Staleness needs a history: an edit here, a revert there, a value changing type; tests check single-step histories.",
     [CA, "hamilton/caching/fingerprinting.py", "hamilton/caching/cache_key.py", CS, CF],
     [("cache key construction", CA + ":HamiltonCacheAdapter.pre_node_execute"), ("lookup or execute", CA + ":HamiltonCacheAdapter.do_node_execute"), ("data versions", "hamilton/caching/fingerprinting.py:hash_value"), ("code versions", "hamilton/graph_types.py:hash_source_code")],
     "results of execute with and without cache", state="cache directory: metadata database and result files")

prop("P10", "Caching reuses unchanged work and honours cache behaviors",
     "When neither a function's code nor its dependencies' values changed since a successfully cached execution, an execution with default behavior retrieves the stored result and does not call the function. A function set to recompute is called on every execution and its result stored, a disabled one is called every time and nothing about it is stored, and changes in an ignored dependency do not cause dependents to be called again.",
     ["histories", "programs", "configurations"],
     "every history of executions over process lives, with behaviors set by decorator, builder or execution defaults",
     "Lost reuse is invisible in results; which function must not run again depends on the whole history of earlier runs.",
     [CA, CS, CF],
     [("behavior resolution", CA + ":HamiltonCacheAdapter.resolve_behaviors"), ("lookup or execute", CA + ":HamiltonCacheAdapter.do_node_execute"), ("recording", CA + ":HamiltonCacheAdapter.post_node_execute")],
     "function calls per execution", state="cache directory: metadata database and result files")

prop("P11", "A crash never corrupts the cache",
     "If the process is killed at any point of an execution with caching, including in the middle of writing results or metadata, later executions in a new process on the same cache start, return correct results and complete, without manual repair. Work cached before the crash, in earlier executions or in the interrupted one by a function whose result had already been handed on to the next function, is still reused.",
     ["crash_points", "histories", "schedules"],
     "kill at every scheduler step and at every byte-level write of any execution, repeatedly, followed by restarts",
     "Tests never kill the process; a torn file poisons a cache forever only when the crash hits one of a few instructions.",
     [CA, CF, CS],
     [("result file writing", CF + ":FileResultStore.set"), ("metadata transaction", CS + ":SQLiteMetadataStore.set"), ("order of result and metadata", CA + ":HamiltonCacheAdapter._execute_node")],
     "results and function calls after restart", state="cache directory: metadata database and result files")

prop("P12", "Storage faults never turn into wrong cached results",
     "When reading or writing the cache fails (full disk, I/O error, short or torn write, locked database) or stored result files have been deleted, emptied, cut short or overwritten with garbage, an execution either returns the correct result or raises an error, and never returns a wrong or empty value. Once the storage works again, executions with default behavior succeed with correct results, recomputing what cannot be retrieved.",
     ["fault_sequences", "histories"],
     "every sequence of storage faults at every file and database operation of any execution, followed by fault-free executions",
     "Fault position times history of earlier writes; tests have no failing disk.",
     [CA, CF, CS],
     [("retrieval and its failure handling", CA + ":HamiltonCacheAdapter._execute_node"), ("result store", CF + ":FileResultStore"), ("metadata store", CS + ":SQLiteMetadataStore")],
     "results and errors of execute during and after faults", state="cache directory: metadata database and result files")

prop("P13", "The cache is safe under parallel tasks and shared directories",
     "With caching enabled, parallel branches on worker threads and several processes sharing one cache directory at the same time each obtain the results they would obtain without caching, without errors caused by the sharing, under every interleaving. Afterwards the cache is consistent: executions reuse the stored work and return correct results.",
     ["schedules", "programs", "histories"],
     "every interleaving of worker threads of one execution and of file and database operations of concurrent executions",
     "Races between bookkeeping of concurrent tasks, and between exists/write/read of concurrent processes, need specific interleavings.",
     [CA, CF, CS],
     [("in-memory run bookkeeping", CA + ":HamiltonCacheAdapter._set_cache_key"), ("cross-thread connection", CS + ":SQLiteMetadataStore.connection"), ("result store", CF + ":FileResultStore")],
     "results, errors, function calls on re-execution", state="cache directory and per-run in-memory tables")

prop("P14", "Cache run records describe what really happened",
     "After each execution the cache's run records and logs agree with what happened: every run is listed once in order, each executed function has one execution record and each reused one a retrieval record under that run, and the recorded data version identifies the value the node really had, so that loading it from the store yields that value. This holds for parallel branches, for failed executions and for later processes reading the records.",
     ["histories", "schedules", "programs"],
     "every history of runs, behaviors, failures and interleavings of branches",
     "Requires comparing the records with the actual call history under all interleavings; tests check a few event names of serial runs.",
     [CA, CS, CF],
     [("event logs", CA + ":HamiltonCacheAdapter._log_event"), ("run metadata", CS + ":SQLiteMetadataStore.get_run"), ("key and version lookups", CA + ":HamiltonCacheAdapter.get_data_version")],
     "logs, run ids, key and version lookups versus call history", state="metadata database")

prop("P15", "Graceful error handling confines failures to dependents",
     "With the graceful error adapter, when functions raise the configured error, exactly those functions and everything that depends on them yield the sentinel value (or are run with the sentinel injected, where so requested), and everything else returns the same values as in a fault-free execution. In parallel regions one failing branch only affects its own branch, and the collected list is as configured; all of this independent of schedule.",
     ["fault_sequences", "schedules", "programs", "configurations"],
     "every set of failing nodes and branches, every interleaving and executor, both settings for partially failed collections",
     "The set of affected nodes depends on which branches fail in which order; tests cover fixed serial examples.",
     ["hamilton/lifecycle/default.py", GF, EX],
     [("graceful node execution", "hamilton/lifecycle/default.py:GracefulErrorAdapter.run_to_execute_node"), ("task integration", EX + ":base_execute_task")],
     "values returned per node")

prop("P16", "Tracking updates are delivered exactly once, in order, before shutdown ends",
     "Every node update handed to the synchronous tracking client is sent to the server exactly once, in submission order per node, and a normal shutdown or a call of stop waits until everything queued has been sent, under every interleaving of submitting threads, background worker and shutdown. Server or network failures in delivering updates never raise in or block the user's dataflow nor make stop raise or hang, are retried or dropped without stopping delivery of later updates, and never duplicate an acknowledged update.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of producers, worker, flush timer and stop; every sequence of server errors, timeouts and connection losses",
     "The window between the worker's timed flush, the stop signal and the interpreter exit is microscopic in real time.",
     [SC],
     [("background worker", SC + ":BasicSynchronousHamiltonClient.worker"), ("stop and drain", SC + ":BasicSynchronousHamiltonClient.stop"), ("flush", SC + ":BasicSynchronousHamiltonClient.flush")],
     "requests received by a simulated tracking server", state="in-memory queue")

prop("P17", "The tracker reports exactly what each run did",
     "For every execution with the tracker attached, the tracking server ends up with one run carrying the correct final status and timing, and for every node executed an update with its true status, error and timestamps, also when a function fails or is interrupted, in parallel regions (where one entry covers all branches of a node) and for several concurrent executions or drivers sharing one tracker. Failures in delivering node updates or in capturing data never change the dataflow's results or errors (a server that refuses to register the run is reported to the caller, by design).",
     ["schedules", "programs", "fault_sequences"],
     "every dataflow, executor, failing node, interleaving of tasks and server failure sequence",
     "Mix-ups between concurrent tasks of the same node name need an interleaving; the server state must be compared with the real call history.",
     [SA, SC, "ui/sdk/src/hamilton_sdk/tracking/runs.py"],
     [("run and task state", SA + ":HamiltonTracker"), ("status aggregation", "ui/sdk/src/hamilton_sdk/tracking/runs.py")],
     "state of a simulated tracking server versus function call history")

prop("P18", "Async tracking delivers everything and never disturbs the dataflow",
     "With the asynchronous tracker and client, every update of a run is delivered exactly once to the server within a bounded time after the run as long as the event loop runs, in order per node, and the final run status is correct; jumps of the wall clock do not hold deliveries back. Server errors, slow responses and connection failures in delivering node updates neither raise in nor delay the dataflow, nor stop delivery of later updates.",
     ["schedules", "fault_sequences", "programs"],
     "every event loop order, response delay and server failure sequence, overlapping executions",
     "Needs control of the event loop, the flush timer and the network at the same time.",
     [SC, SA],
     [("async worker", SC + ":BasicAsynchronousHamiltonClient"), ("async tracker", SA + ":AsyncHamiltonTracker")],
     "requests received by a simulated tracking server")

prop("P19", "Telemetry never interferes with execution",
     "Whatever happens to the anonymous usage telemetry (network errors, slow or hanging server, unreadable, unwritable or corrupt configuration file, several threads at once), building a driver and executing a dataflow return the same results and raise nothing new, and the dataflow does not wait for the network. With telemetry disabled by environment variable, a readable configuration file or call, nothing is ever sent; what is sent never contains names, values or custom adapters of the user's dataflow. The user's settings in the configuration file survive failing writes, crashes and concurrently starting processes.",
     ["fault_sequences", "schedules", "configurations", "histories"],
     "every fault of configuration file, network and thread start at every telemetry operation; every way of disabling",
     "Tests disable telemetry; failures of its I/O happen on users' machines only.",
     ["hamilton/telemetry.py", DR],
     [("sending", "hamilton/telemetry.py:send_event_json"), ("configuration", "hamilton/telemetry.py:_load_config"), ("driver integration", DR + ":Driver.capture_execute_telemetry")],
     "results, exceptions, virtual time waited, connections opened")

prop("P20", "Bundled observers never change results and survive concurrency",
     "Attaching any of the bundled observing adapters (print, progress bar, OpenTelemetry and Datadog tracing, Slack notification, slow-down, type checking of correctly typed dataflows) to any driver changes neither the results nor the errors of an execution under any executor and interleaving, also when delivery of a notification fails. Each reports every executed node, for plain, dynamic, repeated and concurrent executions of drivers sharing the adapters (progress bars: one execution at a time).",
     ["schedules", "programs", "configurations"],
     "every bundled observer combination, every executor, every interleaving, repeated and concurrent executions on one or several drivers",
     "Per-adapter state is shared by worker threads; tests run each adapter once, serially.",
     ["hamilton/lifecycle/default.py", "hamilton/plugins/h_tqdm.py", "hamilton/plugins/h_opentelemetry.py"],
     [("print adapter", "hamilton/lifecycle/default.py:PrintLn"), ("progress bars", "hamilton/plugins/h_tqdm.py:ProgressBar"), ("tracing", "hamilton/plugins/h_opentelemetry.py:OpenTelemetryTracer")],
     "results, exceptions, emitted output")

prop("P21", "Saving results: success means durable and complete",
     "When an execution saves values through the bundled file savers (to json, pickle, text, bytes and the like) and returns successfully, the saved file holds exactly the value, also when disks are slow, when other nodes run in parallel or when an older file existed at the path; loading it back through the matching loader yields the value (with an equal, possibly nullable, dtype for data frames). If any write fails or is short, the execution raises instead of reporting success, and no other saver's output is affected.",
     ["fault_sequences", "schedules", "inputs", "histories"],
     "every fault at every file operation of every saver, in any order of savers and executors",
     "Needs a failing disk; tests write small files to a healthy one.",
     ["hamilton/io/default_data_loaders.py", "hamilton/io/materialization.py", DR],
     [("default savers and loaders", "hamilton/io/default_data_loaders.py"), ("materialisation", DR + ":Driver.materialize")],
     "file contents versus values, exceptions")

prop("P22", "Graph construction and validation accept exactly well-formed dataflows",
     "Building a driver from modules either yields the graph defined by the functions' names, parameters and annotations or raises; cycles, missing inputs, type mismatches and duplicate definitions are rejected before anything runs.",
     ["programs", "configurations"],
     "every set of modules and configuration",
     "The space of programs is infinite; tests sample it.",
     ["hamilton/graph.py", "hamilton/node.py", "hamilton/graph_utils.py"],
     [("graph building", "hamilton/graph.py:create_function_graph")],
     "graph structure, exceptions")

prop("P23", "Function modifiers expand to the documented graph",
     "Decorators (parameterize, extract_columns, config.when, pipe, subdag, check_output and so on) always expand to the nodes their documentation describes, in any combination and order.",
     ["programs", "configurations"],
     "every combination of decorators",
     "Combinations are unbounded; tests cover each decorator alone.",
     ["hamilton/function_modifiers/"],
     [("decorator resolution", "hamilton/function_modifiers/base.py:resolve_nodes")],
     "graph structure and values")

prop("P24", "Executing on Ray or Dask returns the sequential result",
     "Executing a dataflow through the Ray graph, workflow and task adapters or the Dask graph adapter and executor returns what sequential execution returns, under the requested names and in the requested order, for every schedule of the workers, also when workers die before or after running a task, or results are lost, and the cluster runs those tasks again. Every function receives the values of its dependencies (never a reference to them) and runs once unless the cluster repeats its task; with lazy Dask results nothing runs before the result is computed. A failing function surfaces as its exception (or the cluster's wrapper of it), and the next execution on the same driver is unaffected. Node hooks run once around every run of a function on Ray and in remote tasks. Ray is started and shut down exactly as the adapter's options say, also after a failure, and a node's declared Ray options reach Ray unchanged.",
     ["schedules", "fault_sequences", "programs", "configurations"],
     "every dataflow, every worker schedule and failure sequence of the cluster, every adapter and option",
     "Tests run tiny dataflows on a healthy local cluster.",
     ["hamilton/plugins/h_ray.py", "hamilton/plugins/h_dask.py", GF, EX],
     [("Ray adapters and executor", "hamilton/plugins/h_ray.py"), ("Dask adapter and executor", "hamilton/plugins/h_dask.py"), ("execution of a node elsewhere", GF + ":execute_lifecycle_for_node"), ("futures of remote tasks", EX + ":TaskFutureWrappingPythonFuture")],
     "results, errors, function calls, hook calls, cluster starts and stops")

prop("P25", "The tracking server stores and serves runs consistently",
     "The tracking backend keeps every accepted project, dataflow version, run and task update, and serves them back unchanged to authorised users only.",
     ["histories", "schedules", "crash_points"],
     "every history of API calls",
     "Concurrent API histories and crashes are not sampled by tests.",
     ["ui/backend/server/"],
     [("tracking API", "ui/backend/server/trackingserver_run_tracking/api.py")],
     "API responses")

prop("P26", "Deleting, clearing and moving cached data is safe",
     "Deleting single cache entries or results, clearing the metadata store, the result store or both, removing expired results, persisting in-memory stores to disk and loading them back can be done at any point between executions, and deleting entries also from another thread during one. These operations raise nothing and remove what they are asked to remove, the stores stay usable in the same and in later processes, every later execution returns what it would return without caching, and entries that were not removed are still reused, also from a persisted or reloaded copy. This holds when the process is killed in the middle of such an operation.",
     ["histories", "crash_points", "schedules", "programs"],
     "every history of executions and maintenance operations, every kill point, in memory and on disk, in one directory or separate ones",
     "Tests call each operation once on a store of its own; users mix them with executions on shared directories.",
     ["hamilton/caching/stores/file.py", "hamilton/caching/stores/sqlite.py", "hamilton/caching/stores/memory.py"],
     [("result files", "hamilton/caching/stores/file.py:FileResultStore"), ("metadata", "hamilton/caching/stores/sqlite.py:SQLiteMetadataStore"), ("in-memory stores", "hamilton/caching/stores/memory.py:InMemoryResultStore")],
     "exceptions, results, functions called")

prop("P27", "Dataflows pulled from the hub are there completely or not at all",
     "Pulling a dataflow from the hub (hamilton.dataflows.pull_module and import_module) either raises or leaves the complete, unaltered content of exactly the requested version on disk; 'latest' means the version the hub publishes as latest during the call. import_module returns the module of exactly the requested version with every definition it has, also when a module of that name is already loaded. After network errors, disk errors or a kill at any point of a download or of clear_storage, a later pull or import of the same version succeeds without any clean-up by the user. A version already downloaded is imported without any request and is never damaged by a later pull, with or without overwrite, even one that fails. Processes that pull or import the same version at the same time all succeed. list, find, inspect, inspect_module, install_dependencies_string, are_py_dependencies_satisfied and copy describe exactly what was downloaded: everything that was completely pulled, and nothing that is there only in part. resolve_latest_branch_commit returns a commit the named branch pointed to at most about 60 s before, whatever the wall clock does, and asks GitHub at most once per 60 s and branch.",
     ["histories", "crash_points", "schedules", "fault_sequences"],
     "every history of pulls, imports and queries by any number of concurrent clients, every network and disk error and kill point",
     "The hub client has no tests at all; downloads fail or are killed half way in practice, and several processes share one home directory.",
     ["hamilton/dataflows/__init__.py"],
     [("download", "hamilton/dataflows/__init__.py:pull_module"), ("import", "hamilton/dataflows/__init__.py:import_module"), ("branch heads", "hamilton/dataflows/__init__.py:resolve_latest_branch_commit")],
     "return values, modules, files in the dataflow folder, requests")

prop("P28", "Run trackers record every run once and as it was, and never change it",
     "Attaching OpenLineageAdapter, MLFlowTracker or ExperimentTracker to a driver changes neither the results nor the errors of execute and materialize: functions or savers that fail or are interrupted surface as that error, an impossible materialize request as its ValueError, and the working directory is as before. Every execution that started is recorded exactly once, under its run id, with its own inputs and overrides and its true outcome; a request refused before it started is not recorded at all. OpenLineage gets START, one RUNNING event per saver or loader that succeeded, and COMPLETE or FAIL with the error's message, also for several concurrent executions sharing the adapter. MLflow has one run, FINISHED or FAILED, in the given store, with the inputs as parameters, every computed result as metric or artifact, the saved files as artifacts, no files left behind and no run left active. The ExperimentTracker's record describes the latest execution only: its success, inputs, overrides and the files saved by it.",
     ["histories", "schedules", "programs", "fault_sequences"],
     "every dataflow, executor and interleaving, every sequence of executions, materializations, failures and refused requests on one driver or on concurrent drivers",
     "Tests run the trackers over one successful execution; what counts is the record of failing, repeated and concurrent ones.",
     ["hamilton/plugins/h_openlineage.py", "hamilton/plugins/h_mlflow.py", "hamilton/plugins/h_experiments/hook.py", "hamilton/driver.py"],
     [("OpenLineage", "hamilton/plugins/h_openlineage.py:OpenLineageAdapter"), ("MLflow", "hamilton/plugins/h_mlflow.py:MLFlowTracker"), ("experiments", "hamilton/plugins/h_experiments/hook.py:ExperimentTracker"), ("materialize", "hamilton/driver.py:Driver.materialize")],
     "results, errors, events received by the lineage server, the MLflow store, the experiment record, working directory")

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
