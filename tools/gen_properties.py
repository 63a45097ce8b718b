#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = "ros_bt_py/ros_bt_py/"
EX, ED, ND = P + "tree_exec_manager.py", P + "tree_edit_manager.py", P + "node.py"
TN, DB, SM, DF, DT = (P + "tree_node.py", P + "debug_manager.py", P + "subtree_manager.py",
                      P + "data_flow_manager.py", P + "data_types.py")
PM, LM = P + "package_manager.py", P + "logging_manager.py"
SEQ, FB, PAR, DEC = (P + "nodes/sequence.py", P + "nodes/fallback.py", P + "nodes/parallel.py",
                     P + "nodes/decorators.py")
R = P + "ros_nodes/"
rows = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    rows.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))


prop("C01", "At most one operation runs in the tree at any time",
     "However execution commands and edits from several clients overlap with ticking, no two node operations "
     "(setup, tick, untick, reset, shutdown) started from the tree root ever overlap in time, and no second tick loop is ever started. "
     "In particular a tree is never shut down, reset, unticked or restarted by one request while another request or the tick loop is still inside a node.",
     ["schedules", "histories"],
     "all interleavings of the tick thread with up to three concurrently served requests, any command history, any node duration",
     "The unit tests call handlers one after another on one thread and never overlap a command with a running tick; only chosen interleavings reach the windows between a state check and its use.",
     [EX, TN], [("tick thread creation / is_alive checks / join in control_execution", EX + ":control_execution"),
                ("three-thread executor with a reentrant callback group", TN + ":main")],
     [("tree state", "EDITABLE/IDLE/TICKING/...", EX), ("tick thread", "at most one alive", EX)],
     ["begin/end of every node operation, by node and thread"])

prop("C02", "Execution commands follow the documented tree state machine",
     "For every sequence of execution commands (tick once, periodically, until result, stop, reset, shutdown, setup-and-shutdown, do-nothing, unknown) "
     "each response's success flag and resulting tree state, the state published on the tree-state topic and the effect on the nodes are those of the tree state machine. "
     "A command that is not allowed in the current state is refused, without effect on state or nodes.",
     ["histories", "inputs"], "all sequences of execution commands issued one at a time, over generated trees, tick rates and node outcomes, with requests placed at any point of a tick period",
     "Tests cover a handful of fixed command pairs; the machine has nine commands times seven states, with results depending on where in the period a command lands.",
     [EX, TN], [("control_execution and its helpers", EX + ":control_execution")],
     [("tree state", "published state", EX)], ["ControlTreeExecution responses", "~/tree_state_list"])

prop("C03", "Stop and shutdown always complete and leave nothing running",
     "Whatever the tree is doing and whoever else is issuing requests, a stop or shutdown request is answered within a bounded time once the nodes' own operations return, "
     "and after a successful answer no node is ticked again (until a new tick command) and no node is left in the running state. "
     "After a successful shutdown every node that was set up has been shut down and the tree is editable.",
     ["schedules", "histories"], "all interleavings of stop/shutdown with the tick loop, its end-of-run transitions, other commands and slow nodes",
     "Completion depends on thread joins, rate timers and executor workers interleaving; tests only stop an idle mock tree.",
     [EX, ND, TN], [("stop-request flag, join loop, untick on exit", EX + ":control_execution / tick"), ("untick / shutdown recursion", ND)],
     [("stop requested", "tick loop asked to finish", EX)], ["request/response times in simulated time", "node operations", "~/tree_state_list"])

prop("C04", "Edits happen only while the tree is editable, one at a time",
     "Every editing request (add, remove, move, morph, replace, set options, wire, unwire, load, reload, clear, rename) that arrives or takes effect while the tree is being executed is refused with an error and changes nothing. "
     "Concurrent accepted edits are equivalent to executing them one after another in some order consistent with their request/response order.",
     ["schedules", "histories"], "all interleavings of up to three concurrent edit and execution requests with the tick thread",
     "Tests never issue two requests at once; the editable check and the edit are separate steps.",
     [EX, ED], [("is_edit_service: state check plus edit lock", EX + ":is_edit_service")],
     [("edit lock", "serialises edits", EX)], ["edit responses", "~/tree_structure_list"])

prop("C05", "A failing node stops the tree in a reported, recoverable error state",
     "If any node operation reports an error or raises an exception, at any point of setup, ticking, untick, reset or shutdown, the tree neither hangs nor keeps claiming to run: the failure is visible as a failed response or as tree state ERROR on the state topic, and ticking stops. "
     "In tree state ERROR only shutdown is accepted, and after a successful shutdown the same tree can be executed again and behaves as if freshly loaded.",
     ["fault_sequences", "histories", "schedules"], "every node, operation and occurrence number at which an error or exception is injected, in generated trees",
     "Tests inject no exceptions into node code during threaded ticking; each fault position takes a different unwinding path.",
     [EX, ND], [("tick_report_exceptions", EX + ":tick_report_exceptions"), ("Result propagation / BROKEN state", ND)],
     [("ERROR state", "published", EX)], ["~/tree_state_list", "command responses"])

prop("C06", "Published state, structure and data agree with the tree",
     "Whenever the system is quiet (no request in progress, no tick in progress) the last message on the latched tree-state, tree-structure and, if enabled, tree-data topics describes the tree as it is: same nodes, links, names, wirings, node states and tree state that direct queries and the nodes themselves show. "
     "Ticking publishes after every tick, so no observer stays more than one tick behind.",
     ["histories", "schedules"], "all histories of edits, loads, execution commands and publishing toggles",
     "Tests pass publisher mocks and look at single messages; staleness only shows over histories and interleavings.",
     [EX, SM, TN], [("publish_structure / publish_state / publish_data", EX)],
     [], ["~/tree_structure_list", "~/tree_state_list", "~/tree_data_list"])

prop("C07", "Observing the tree never changes what it does",
     "Switching node diagnostics, data publishing, subtree publishing or the log level on or off at any moment, and querying subtrees, packages, folders or node lists at any moment, never changes the sequence of node operations and results of a running tree and never makes it fail. "
     "While node diagnostics are on, every published record names its node, and begin/end records nest properly.",
     ["schedules", "histories"], "all positions of observer requests relative to every step of a tick, setup, untick, reset and shutdown",
     "Tests toggle nothing while a tree is executing.",
     [DB, SM, LM, EX, TN], [("report_state / report_tick context managers", DB), ("set_publish_* services", EX)],
     [("collect flag", "read before and after each operation", DB)], ["node operation history with and without observers", "~/debug/node_diagnostics"])

prop("C08", "Tree topology stays well-formed under every edit history",
     "After any sequence of edits and loads, successful or not, the edited tree contains no cycle, no node has more than one parent or appears twice, no node has more children than it allows, every child link and every data wiring refers to existing nodes and ports, no wiring is duplicated, and node ids are unique.",
     ["histories", "inputs"], "all sequences of edit requests with arbitrary (also malformed) arguments, including faults raised inside node construction",
     "Tests check a few hand-written edits; violations need two or three cooperating edits.",
     [ED, EX, ND], [("max_children and cycle checks", ED), ("add_child / remove_child / move_child", ND)],
     [], ["~/tree_structure_list"])

prop("C09", "A refused edit leaves the tree unchanged",
     "Every edit request whose response reports failure leaves nodes, links, options, wirings and names exactly as they were before the request, whatever step of the edit failed.",
     ["fault_sequences", "histories", "inputs"], "all failing edits at every internal failure point (bad ids, full parents, incompatible wirings, node construction errors) in all reachable trees",
     "There is a rollback path per failure point; tests exercise almost none of them.",
     [ED, EX], [("roll-back code in the edit handlers", ED)], [], ["~/tree_structure_list before and after", "responses"])

prop("C10", "A successful edit has exactly the requested effect",
     "Every edit that reports success changes the tree exactly as its request says and nothing else: nodes appear, disappear or move at the requested place with their subtrees, options and wirings kept or changed as requested, and the response names the right node.",
     ["histories", "inputs"], "all sequences of successful edit requests from all reachable trees, compared with a small reference model of the tree",
     "Tests check single edits on three-node trees; index and wiring handling depends on the history.",
     [ED, EX, ND], [("edit handlers", ED)], [], ["responses", "~/tree_structure_list"])

prop("C11", "Saving and loading or reloading a tree preserves it",
     "A tree that was published by the system and then saved and loaded again, or reloaded, has the same nodes, ids, classes, names, options, child order, wirings, name and tick rate, and executes the same way. "
     "Saving never alters the tree in memory.",
     ["histories", "inputs"], "all trees reachable by edit histories, saved under any name, across restarts of the process",
     "Tests use prepared files, not trees produced by arbitrary edit histories.",
     [EX, PM, ND, DT], [("to_structure_msg / from_msg round trip", ND), ("save_tree_to_path / load_tree_from_file", PM)],
     [], ["SaveTree/LoadTree/ReloadTree responses", "~/tree_structure_list", "node behaviour"])

prop("C12", "Loading a bad or unreadable tree fails cleanly",
     "A load request whose file is missing, unreadable, empty, of another kind, or truncated or corrupted such that it no longer describes a consistent tree, or whose content is inconsistent (unknown classes, dangling or repeated children, bad wirings, unknown packages), is answered with failure and an explanation, without an unanswered request, hang or crash. "
     "The previously loaded tree stays as it was, and the system keeps serving requests.",
     ["fault_sequences", "inputs", "crash_points"], "every read fault and every truncation or corruption of stored tree files, and generated inconsistent tree messages",
     "Tests load a fixed set of broken files and look only at the return value.",
     [EX, PM, P + "migrate_tree_files.py"], [("load_tree_from_file / parse_tree_yaml / load_tree", EX)], [], ["LoadTree responses", "~/tree_structure_list", "liveness of later requests"])

prop("C13", "Saving is all-or-nothing and obeys the overwrite rules",
     "When a save reports success the file named in the response contains the complete tree and can be loaded; when it reports failure, or the process or the machine dies at any point of the save, every previously stored file still has either its old or its complete new content, and no file of the requested name ever has incomplete content. "
     "Without overwrite permission an existing file is never changed, rename never reuses an existing name, and nothing outside the configured storage directory is written.",
     ["fault_sequences", "crash_points", "schedules", "inputs"], "every failing or torn file operation and every crash point of a save, concurrent saves, all file names and flags",
     "Tests save to a healthy disk and never crash, fail or overlap a save.",
     [PM], [("save_tree_to_path", PM + ":save_tree_to_path")], [], ["simulated disk content", "SaveTree responses"])

prop("C14", "Nodes go through a legal life cycle",
     "Whatever commands, failures and flow control do, every node in a tree sees only legal operation sequences: setup once before any tick, no tick, untick or reset before setup or after shutdown or after an error until it is set up again, and never more than one tick per tick of its parent unless the parent is documented to do so. "
     "Its reported state is always one that the last operation may produce, and shutting down a node shuts down everything below it even when some of that fails.",
     ["histories", "fault_sequences"], "all command histories, trees over all flow-control and decorator nodes, node outcomes and failures",
     "Life-cycle violations arise from combinations of flow-control nodes and command sequences.",
     [ND, SEQ, FB, PAR, DEC], [("state checks in Node.setup/tick/untick/reset/shutdown", ND)], [], ["operation log of instrumented nodes", "~/tree_state_list"])

prop("C15", "Sequence and fallback nodes implement their documented semantics",
     "For every tree of sequence, fallback, memory sequence, memory fallback, name-switch and enum-switch nodes and every sequence of child outcomes, ticks, unticks, resets and restarts, the children ticked, their order, the children stopped, and the result of every tick are those of the documented node.",
     ["histories", "inputs"], "all child outcome histories over nested trees, with stop, reset and shutdown placed anywhere",
     "The memory variants carry state between ticks; tests cover a few fixed outcome tables.",
     [SEQ, FB], [("_do_tick/_do_untick/_do_reset", SEQ), ("_do_tick/_do_untick/_do_reset", FB)], [("memory index", "resume position", SEQ)], ["operation log", "~/tree_state_list"])

prop("C16", "Parallel nodes implement their documented thresholds",
     "For every number of children, thresholds, and sequence of child outcomes, ticks, unticks, resets and restarts, parallel nodes tick every unfinished child each round, keep finished children's results for the round, succeed or fail exactly when their documented success and failure thresholds are met, and stop the children still running when they finish.",
     ["histories", "inputs", "configurations"], "all thresholds, child outcome histories and stop/reset placements",
     "Result depends on counts accumulated over ticks; tests use fixed three-child tables.",
     [PAR], [("_do_tick", PAR)], [], ["operation log", "~/tree_state_list"])

prop("C17", "Decorator nodes implement their documented semantics",
     "For every decorator (inverter, success, failure, undefined, retry, repeat and its until/no-auto variants, optional, watch) and every sequence of child outcomes, ticks, unticks, resets and restarts, the number of child executions and the result of every tick are those documented, and counters start afresh for every new execution.",
     ["histories", "inputs", "configurations"], "all child outcome histories, counter options, and stop/reset placements, in nested trees",
     "Counters persist over ticks and across interruptions; tests cover uninterrupted runs.",
     [DEC], [("_do_tick", DEC)], [], ["operation log", "~/tree_state_list"])

prop("C18", "Wired data is delivered, in order, with its update notification",
     "Whenever a node sets an output during a tick that does not fail, every input wired to it holds that value before the receiving node's next tick, and is flagged as updated exactly if its value changed since the receiver last finished a tick (or the receiver has not ticked since its setup or reset); no other input changes. "
     "This holds through subtrees, restarts (which clear values) and any wiring history, for values of every type, also when the node goes on changing its own list or dictionary. "
     "(The update flag of an input fed from a descendant of its node is excepted: it is documented as lost.)",
     ["histories", "schedules", "inputs"], "all wirings, tick orders, output histories and interruptions",
     "Delivery depends on order of ticks in the tree and on values set repeatedly; tests look at one push.",
     [DF, DT, ND, R + "subtree.py"], [("push_outputs / set_value / updated flags", DF)], [("updated flag", "new value since last tick", DT)], ["inputs seen by instrumented nodes"])

prop("C19", "A subtree node behaves like the tree it loads",
     "A subtree node loaded from a stored tree gives the same results and ticks its inner nodes in the same way as that tree would on its own, exchanges data only through the tree's public inputs and outputs, and follows its parent's untick, reset and shutdown with all inner nodes. "
     "A missing or broken subtree file makes setup or construction fail cleanly and never brings the outer system down.",
     ["histories", "fault_sequences"], "all inner trees, outcome histories, interruptions, and file faults at load time",
     "Tests load one subtree file and tick it a few times.",
     [R + "subtree.py", SM, EX], [("nested exec manager", R + "subtree.py")], [], ["operation log of inner nodes", "~/tree_structure_list"])

prop("C20", "Action nodes track exactly one goal and never lose or leak it",
     "However goal responses, results, feedback, cancellations and server outages are delayed, lost, reordered or refused, an action node sends the goal its inputs describe and has at most one goal outstanding, reports success only for a goal that the server completed successfully, reports failure or error for refused, aborted, cancelled or timed-out goals, outputs only results and feedback of its current goal, and does not block the tick. "
     "After untick, reset or shutdown every goal it caused that the server accepted has been asked to cancel.",
     ["schedules", "fault_sequences", "histories"], "all delays, losses, refusals and server crashes relative to ticks, unticks, resets and input changes",
     "Protocol races need a simulated server and chosen message timing; tests mock a single happy path.",
     [R + "action.py"], [("ActionForSetType state machine", R + "action.py")], [("internal goal state", "protocol phase", R + "action.py")], ["goals seen by the simulated action server", "node results"])

prop("C21", "Service nodes deliver the matching answer or fail in time",
     "However service responses are delayed, lost or the server is absent or restarted, a service node calls at most once per execution, reports success only with the response to its own latest request, fails after its configured timeouts, never blocks the tick, and after untick, reset or shutdown ignores and abandons outstanding calls.",
     ["schedules", "fault_sequences", "histories"], "all response delays, losses and server outages relative to ticks, unticks, resets and input changes",
     "Needs message timing that unit tests with mocks do not explore.",
     [R + "service.py"], [("ServiceForSetType state machine", R + "service.py")], [], ["requests seen by the simulated server", "node results and outputs"])

prop("C22", "Topic subscriber nodes report the messages that really arrived",
     "For every arrival order and timing of messages relative to ticks, a topic subscriber node reports success exactly when it has a message to report (a new one, or for the memory variant one not older than the configured age), its output is the latest message received, and it never reports a message from before its own (re)start where its documentation says so. "
     "After shutdown no subscription is left.",
     ["schedules", "histories"], "all message timings, bursts and losses relative to ticks, resets and restarts",
     "The callback runs on another thread than the tick; tests call it directly between ticks.",
     [R + "topic.py"], [("subscription callback and lock", R + "topic.py")], [], ["node results and outputs against the delivery log"])

prop("C23", "Topic publisher nodes publish each new message exactly once",
     "A topic publisher node publishes, on the configured topic, its current message exactly once per new message given to it (a message that differs from the one before, or the first one after a restart or reset) and never otherwise, across unticks, resets and restarts.",
     ["histories"], "all sequences of message updates (including equal values), ticks, resets, topic changes and restarts",
     "Depends on the update notification of repeated values over histories.",
     [R + "topic.py", DT], [("TopicPublisher._do_tick", R + "topic.py")], [], ["messages on the simulated topic"])

prop("C24", "Time-based nodes keep their time bounds under any clock and tick jitter",
     "Wait succeeds on the first tick at or after its duration has elapsed since it started and runs until then; throttle nodes execute their child at most once per period and report the documented result in between; wait-for-service nodes end at the latest one tick after their timeout. "
     "No clock jump, long tick or restart makes them hang forever, finish before starting or fail internally.",
     ["schedules", "fault_sequences", "configurations"], "all durations, tick rates, stalls, clock jumps and interruptions",
     "Tests mock the clock at two or three instants.",
     [R + "wait.py", R + "throttle.py", R + "service.py", R + "time.py"], [("deadline computations", R + "wait.py")], [], ["node results against simulated time"])

prop("C25", "Ended execution leaves no ROS resources behind",
     "After a shutdown, reset of options, edit, load or clear, every subscription, publisher, client, timer and rate that nodes or the tree created for execution has been released, so that any number of execution and edit cycles keeps the number of live resources bounded and the node keeps serving.",
     ["histories", "fault_sequences"], "all histories of execution, failures, edits and loads",
     "Leaks only show over many cycles and on failure paths.",
     [R + "topic.py", R + "service.py", R + "action.py", EX], [("_do_shutdown / destroy_*", R)], [], ["resource table of the simulated ROS node"])

prop("C26", "The tree is ticked at the requested rate",
     "While a tree is ticking periodically at a requested rate with nodes faster than the period, it is ticked exactly once per period; after a slow tick it resumes without bursts, and the reported tick frequency and over-run warning correspond to the real tick times.",
     ["schedules", "configurations"], "all tick rates, node durations, stalls and rate changes",
     "Tests do not run the periodic loop against a clock.",
     [EX], [("rate.sleep in tick", EX + ":tick")], [], ["tick times in simulated time", "~/debug/tick_frequency"])

prop("C27", "Untick and reset stop everything below a node",
     "When any node is unticked, reset or shut down, directly or because its parent finished without it, every node below it that was running is unticked (or reset, shut down) in the same step, so that no node stays running under a parent that is not, and a reset tree behaves exactly like one that was never executed.",
     ["histories", "inputs"], "all trees over all flow-control, decorator and subtree nodes, all outcome histories, interruptions at every tick",
     "Needs combinations of nesting, partial progress and interruption.",
     [ND, SEQ, FB, PAR, DEC, R + "subtree.py", R + "throttle.py"], [("untick/reset/shutdown recursion", ND)], [], ["operation log", "~/tree_state_list"])

prop("C28", "A restarted process recovers its default tree",
     "When the process is started or restarted (also after a crash at any point, with only files surviving) with a default tree configured, it loads and starts that tree as configured if its file is intact, and otherwise comes up editable with an explanation logged; in every case all services answer.",
     ["crash_points", "fault_sequences", "configurations"], "all crash points of the previous process, default-tree commands and file faults",
     "Tests never start the node itself.",
     [TN, EX], [("load_default_tree", TN + ":load_default_tree")], [], ["~/tree_state_list", "service responses after start-up"])

prop("C29", "Log messages reach the log topic exactly when they should",
     "Every message logged by a node or the tree at or above the selected minimum level is published exactly once, in order, with its tree and node identification, and none below it, whenever the level is changed.",
     ["histories", "schedules"], "all positions of level changes relative to logging from several threads",
     "Tests log from one thread with a fixed level.",
     [LM], [("set_min_log_level and level checks", LM)], [], ["~/log_messages"])

prop("C30", "Queries about storage, packages and node classes are answered completely and consistently",
     "Every query about storage folders, packages, storages and node classes is answered, whatever its arguments and whatever happens meanwhile (other queries, saves, files appearing and disappearing, directories that cannot be read, node modules being loaded or failing to load). "
     "A listing contains every visible entry that existed all the time and nothing that never did, shows hidden entries only on request, has the right nesting, and each of its item ids is unique; the node classes listed include every class loaded before or asked for, described as declared; what cannot be found or loaded is refused with an explanation. "
     "The lists of message types and packages are complete and reach every subscriber within about a second, whenever it joins.",
     ["inputs", "schedules", "fault_sequences"], "all query arguments, all interleavings of up to three concurrent queries and saves, changes of the file system at any directory read, failing directory reads, good and broken node modules",
     "Tests ask one question at a time about an unchanging directory and import only good modules.",
     [PM, ND, TN], [("get_folder_structure/get_installed_package_structure/path_to_dict", PM), ("get_available_nodes", PM), ("load_node_module", ND), ("republish_lists", PM)],
     [], ["GetFolderStructure, GetPackageStructure, GetAvailableNodes and GetStorageFolders responses", "~/message_types", "~/packages"])

prop("C31", "Data nodes always reflect the inputs they hold",
     "Whatever the order in which inputs change, files and parameters change, children answer and nodes are ticked, stopped, reset and shut down, each data node (constants, comparisons, arithmetic, conversion, list, dictionary, attribute and message-field access, list iteration, formatting, YAML files, parameters, enum fields) answers every tick and leaves on its outputs exactly what its documentation says for the inputs it holds at that tick: results are never those of earlier inputs, an unchanged input is not processed twice where the node promises that, and a value that cannot be computed makes the node fail instead of ending the tick with an exception. "
     "Nodes with a child tick, stop and reset it exactly when documented.",
     ["histories", "fault_sequences", "schedules"], "all histories of input changes, file and parameter changes, read errors, child answers and controls over trees wiring data nodes to each other",
     "Tests tick one node with a few fixed inputs; caches and change tracking between ticks are not exercised.",
     [P + "nodes/" + f for f in ("maths.py", "compare.py", "list.py", "getters.py", "setters.py", "format.py", "file.py", "passthrough_node.py", "constant.py", "random_number.py", "ros.py") if os.path.exists(os.path.join("/repo", P, "nodes", f))]
     + [R + "message_converters.py", R + "enum.py", P + "data_flow_manager.py"],
     [("_do_tick", P + "nodes"), ("is_updated/any_updated", ND)], [("_cached_result/_result", "answer kept while inputs do not change", P + "nodes/file.py"), ("list index", "position of an iteration", P + "nodes/list.py")],
     ["operation log", "node inputs and outputs", "~/tree_state_list"])

# honest not-applicable ones
prop("C90", "Data types accept exactly compatible values and round-trip them",
     "Every value accepted by a typed input or output serialises and deserialises to an equal value, incompatible values and types are refused with an error, and compatibility of types is consistent between declaration, wiring and run time.",
     ["inputs"], "all declared types and values", "Unbounded value space; tests sample some values per type.",
     [DT], [("set_value/serialize/deserialize/is_compatible", DT)])
prop("C91", "Utility bounds combine children's bounds correctly",
     "The utility bounds a node reports are a correct interval combination of its children's bounds for every flow-control node.",
     ["inputs"], "all children bounds", "Tests use a few numbers.", [SEQ, FB, PAR], [("_do_calculate_utility", SEQ)])
prop("C92", "Legacy tree files migrate to equivalent current trees",
     "Every tree file in a supported older format is converted into a current tree with the same structure, options and wirings, or is refused with an explanation.",
     ["inputs"], "all legacy files", "Tests convert a few stored samples.", [P + "migrate_tree_files.py"], [("migrate_legacy_tree_structure", P + "migrate_tree_files.py")])
prop("C93", "Pure computation nodes compute what they document",
     "Constants, comparisons, arithmetic, conversions, list, dictionary, message-field, enum and format nodes produce the documented output or fail, for every single input value (C31 covers the histories of inputs).",
     ["inputs"], "all input values", "Tests sample some inputs.",
     [P + "nodes/maths.py", P + "nodes/compare.py", P + "nodes/list.py", P + "nodes/getters.py", P + "nodes/setters.py", P + "nodes/format.py", R + "message_converters.py", R + "enum.py"],
     [("_do_tick", P + "nodes")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
print(len(rows))
