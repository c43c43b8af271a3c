#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of semantic properties)."""
import json, os
L = "src/lib/sup/oac-tree/"
A = "src/app/oac-tree-cli/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": [f if f.startswith("src/") else L + f for f in files],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": L + w if not w.startswith("src/") else w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Execution status names and phase predicates are total and consistent",
 "Every execution status has a fixed display name that no other status has, and any other numeric value is reported as an unknown status instead of failing. 'Finished' holds for success and failure only, 'needs execution' is exactly its negation, 'ready for execution' holds for not-started and not-finished only, and 'executing' holds for not-finished and running only.",
 ["inputs"], "all 2^32 values of the status type, valid and invalid", "The one test compares five names; the four predicates that every control instruction and the runner rely on have no test.",
 ["execution_status.h", "procedure/execution_status.cpp"], [("StatusToString / IsFinishedStatus / NeedsExecute / ReadyForExecute / IsExecuting", "procedure/execution_status.cpp")], ["StatusToString", "predicates"])
prop("C02", "Job command queue: FIFO order, urgent commands first, nothing lost or repeated",
 "Commands leave the queue in the order in which they were pushed, each exactly once, and size and emptiness always match what is stored. A priority push puts its command at the very front if the queue is empty or the front command is strictly less urgent, running the given action exactly once; otherwise it is refused, the queue is unchanged and the action is not run.",
 ["histories", "inputs"], "every sequence of up to N operations with arbitrary commands, including an absent action", "Two tests push a handful of fixed commands; the order must hold for every interleaving of pushes, priority pushes and pops.",
 ["job_command_queue.h", "runner/job_command_queue.cpp", "job_commands.h", "runner/job_commands.cpp"], [("Push/PriorityPush/TryPop", "runner/job_command_queue.cpp"), ("operator<=", "runner/job_commands.cpp")], ["TryPop", "GetSize", "IsEmpty"])
prop("C03", "Job command queue: no lost command or missed wake-up between threads",
 "Whatever the thread schedule, every command accepted from any number of producer threads is delivered to exactly one consumer, in each producer's own order, and a consumer waiting for the next command returns once a command is available. The action of an accepted priority push is finished before its command can be popped, and no access to the queue races.",
 ["schedules"], "all interleavings of producers and consumers at synchronisation points within the bound", "The tests are single threaded; lost wake-ups and unlocked accesses only show in particular interleavings.",
 ["job_command_queue.h", "runner/job_command_queue.cpp"], [("m_mtx / m_cv, WaitForNextCommand", "runner/job_command_queue.cpp")], ["WaitForNextCommand", "TryPop"])
prop("C04", "Job state names, terminal states and job-state waiting",
 "Every job state has its own display name, unknown values are reported as unknown, and exactly success, failure and halted are terminal. Waiting for a state, or for the end of a job, returns once the monitored job is, and remains, in such a state, whatever the schedule: it never returns on another state and never misses a report of a lasting state.",
 ["inputs", "schedules"], "all numeric state values; all interleavings of one reporter and up to two waiters", "No test covers the state names or predicates; the monitor's waits are only exercised in test code that cannot run here.",
 ["job_states.h", "runner/job_states.cpp", "job_state_monitor.h", "base/application_utils.cpp", "application_utils.h"], [("IsFinishedJobState / ToString", "runner/job_states.cpp"), ("SimpleJobStateMonitor waits", "base/application_utils.cpp")], ["ToString", "WaitForFinished", "WaitForState"])
prop("C05", "Log severity to and from text is a bijection with a safe fallback",
 "Each of the nine severities has one text form, reading that text gives the same severity back, and no other text maps to a severity. Any other text gives the out-of-range marker and any other severity value gives 'UNKNOWN'.",
 ["inputs"], "all strings up to the stated length, all 2^32 severity values", "The tests list the nine names; the fallback and the absence of aliases quantify over all strings and values.",
 ["log_severity.h", "base/log_severity.cpp"], [("SeverityToString / LogSeverityFromString", "base/log_severity.cpp")], ["SeverityToString", "LogSeverityFromString"])
prop("C06", "A scope guard runs its action exactly once, whoever holds it last",
 "An action handed to a scope guard runs exactly once: when the guard that then holds it is destroyed or overwritten by assignment, never earlier and never twice. Moving transfers it and leaves the source without one; validity says exactly whether the guard holds an action.",
 ["histories"], "every sequence of up to N constructions, moves, assignments (self-assignment included), swaps and destructions over several guards, with or without actions", "Three tests try one move and one swap; exactly-once is a statement about every ownership history, including exceptional exit.",
 ["scope_guard.h", "base/scope_guard.cpp"], [("ScopeGuard move/assign/destroy", "base/scope_guard.cpp")], ["~ScopeGuard", "IsValid"])
prop("C07", "Named callbacks: each notification reaches exactly the registered callbacks",
 "Notifying a name calls, in registration order and once each, every generic callback with that name and the arguments, and then every callback registered for that very name with the arguments, and nothing else. Empty callbacks are refused, unregistering a listener removes all of its callbacks and no others and reports whether there were any, and a guard does the same exactly once when it goes away.",
 ["histories", "inputs"], "every sequence of up to N registrations, removals, guards and notifications over several listeners and names", "Three tests use fixed scripts of registrations; the delivery rule must hold for every history.",
 ["named_callback_manager.h"], [("NamedCallbackManager", "named_callback_manager.h")], ["ExecuteCallbacks", "UnregisterListener", "GetCallbackGuard"])
prop("C08", "Named callbacks are safe to register, remove and run concurrently",
 "For every schedule of threads that register, unregister and notify, the callback lists are never accessed without synchronisation and no callback of a listener starts after that listener's removal has returned. Each notification still calls every callback that stays registered throughout exactly once, and no schedule deadlocks.",
 ["schedules"], "all interleavings, at synchronisation points, of up to three threads doing one or two operations each", "The tests are single threaded.",
 ["named_callback_manager.h"], [("m_mtx held over callback execution", "named_callback_manager.h")], ["ExecuteCallbacks", "UnregisterListener"])
prop("C09", "Exceptions keep their message and kind; preambles keep their registrations",
 "Every library exception carries exactly the message it was created with, survives copying, and is caught as its own kind, as the library's base kind and as a standard exception, but not as a sibling kind. A procedure preamble returns type registrations and plugin paths unchanged and in the order added, with the registration mode they were created with.",
 ["inputs", "histories"], "all messages up to the stated length; all sequences of up to N additions", "Neither file has a test that can run here; both are compiled only.",
 ["exceptions.h", "base/exceptions.cpp", "procedure_preamble.h", "procedure/procedure_preamble.cpp"], [("MessageException", "base/exceptions.cpp"), ("ProcedurePreamble / TypeRegistrationInfo", "procedure/procedure_preamble.cpp")], ["what()", "GetTypeRegistrations", "GetPluginPaths"])
prop("C10", "Instruction life cycle: init once, halt respected, each change reported once",
 "A tick initialises an instruction exactly on its first execution since creation or reset, runs its logic only if initialisation succeeded, it is unfinished and no halt is requested, and then takes over the status its logic returned. The user interface is told exactly when the status changes and sees the status that was actually stored; a reset returns to not-started, clears the halt request and forgets attribute-time state so that the next run behaves as the first.",
 ["histories", "inputs"], "every sequence of up to N tick, halt and reset operations on an instruction whose hook results are arbitrary", "None of the instruction tests can be built here, and they sample a few scripted sequences.",
 ["instruction.h", "instructions/instruction.cpp"], [("ExecuteSingle / Preamble / Postamble / Halt / Reset", "instructions/instruction.cpp")], ["GetStatus", "UserInterface::UpdateInstructionStatus"])
prop("C11", "Sequence and fallback run children in order and stop as documented",
 "A sequence ticks at most one child per tick, always the first unfinished one, and fails as soon as a child fails and succeeds when all children succeeded; a fallback is its dual. Children before the current one are never ticked again, later ones not before it finishes, an unfinished child's status decides whether the parent reports running or not finished, and reset makes the whole run repeatable.",
 ["histories", "inputs"], "all child counts up to N, all child status histories up to K ticks, with resets", "Only reachable with sup-dto present, and sampled by a few procedures.",
 ["instructions/sequence.cpp", "instructions/fallback.cpp", "instructions/compound_instruction.cpp"], [("ExecuteSingleImpl / CalculateStatus", "instructions/sequence.cpp"), ("ExecuteSingleImpl / CalculateStatus", "instructions/fallback.cpp")], ["GetStatus", "child tick log"])
prop("C12", "Reactive sequence and fallback re-check earlier children while one runs",
 "A reactive sequence fails as soon as a ticked child fails, succeeds when all succeed, and when a child reports running it interrupts and resets every other child so that the next tick starts again at the first; a reactive fallback is its dual. If no child ever reports running they behave exactly as the plain versions.",
 ["histories", "inputs"], "all child counts up to N and all child status histories up to K ticks", "Sampled by a few timed procedures that cannot be built here.",
 ["instructions/reactive_sequence.cpp", "instructions/reactive_fallback.cpp"], [("ExecuteSingleImpl / ResetOtherChildren", "instructions/reactive_sequence.cpp"), ("ExecuteSingleImpl", "instructions/reactive_fallback.cpp")], ["GetStatus", "child tick/reset log"])
prop("C13", "Parallel sequence thresholds decide its outcome for every result pattern",
 "A parallel sequence succeeds exactly when the number of succeeded children reaches the success threshold and fails exactly when the number of failed children reaches the failure threshold, with the documented defaults (all, one) and with the two thresholds adjusted so that their sum never exceeds the number of children plus one, so that it always ends once all children ended. Until then it reports not finished exactly while a child that was not finished waits to be launched again, and running otherwise. When it ends or is reset it halts every child that is still going, and a finished child is not executed again.",
 ["inputs", "histories"], "all threshold attribute values, absent or present, all child counts up to N and all child result patterns", "Tests try a few threshold pairs with timed children.",
 ["instructions/parallel_sequence.cpp", "instructions/async_wrapper.cpp"], [("InitWrappers / CalculateCompoundStatus", "instructions/parallel_sequence.cpp")], ["GetStatus"])
prop("C14", "Inverter, forced success and repeat transform the child status as documented",
 "An inverter swaps success and failure and passes other statuses on; forced success turns a finished child into success and passes other statuses on. Repeat executes its child until it fails or has succeeded the requested number of times, resetting it in between, fails exactly when a run fails, succeeds immediately for a count of zero and never ends by itself for a negative count.",
 ["inputs", "histories"], "all child status histories up to K ticks and all repeat counts within 32 bits", "Tests sample fixed counts and children.",
 ["instructions/inverter.cpp", "instructions/force_success.cpp", "instructions/repeat.cpp", "instructions/decorator_instruction.cpp"], [("CalculateStatus", "instructions/inverter.cpp"), ("InitHook / ExecuteSingleImpl", "instructions/repeat.cpp")], ["GetStatus"])
prop("C15", "For visits every array element once, in order; Listen reacts to every change",
 "For copies each element of the array into the element variable, in index order and once each, executes its child once per element, fails at the first failing run and succeeds when the elements are exhausted (at once for an empty array). Listen runs its child exactly when a listened variable has changed since the last run, ends as failed when the child fails unless success is forced, and never ends by itself otherwise.",
 ["inputs", "histories"], "all array lengths up to N with arbitrary element values; all histories of up to K ticks and updates", "Tests use one or two literal arrays.",
 ["instructions/for.cpp", "instructions/listen.cpp"], [("For::ExecuteSingleImpl", "instructions/for.cpp"), ("Listen::VarNamesChanged / UpdateListenCache", "instructions/listen.cpp")], ["GetStatus", "element variable"])
prop("C16", "User-selected and listed children are executed exactly as selected",
 "Choice executes exactly the children selected by the variable, in that order and with repetitions, with sequence semantics for the result; any index outside the children, or a value that is not an index or list of indices, makes it fail without executing a wrong child. User choice executes exactly the child the user selected and reports its status, user confirmation succeeds exactly when the user confirmed, and both fail on an invalid or missing answer; a halt at any point withdraws the pending question.",
 ["inputs", "histories"], "all 32-bit (and wider) index values, all index lists up to length N, all user answers", "Tests use valid indices and one out-of-range value.",
 ["instructions/choice.cpp", "instructions/user_choice.cpp"], [("SetIndices / ExecuteSingleImpl", "instructions/choice.cpp"), ("ExecuteSingleImpl", "instructions/user_choice.cpp")], ["GetStatus", "child tick log"])
prop("C17", "Asynchronous wrapping adds no, and loses no, child execution",
 "An asynchronously wrapped child performs exactly one step per launch, reports running until that step is done and then exactly the status the step produced; it is relaunched only if unfinished. Halt reaches the child, reset returns only after the running step has ended, and no schedule accesses shared state without synchronisation or deadlocks.",
 ["schedules", "histories"], "all interleavings of the ticking thread with the child's thread, up to K ticks", "Thread timing in the tests samples few schedules.",
 ["instructions/async.cpp", "instructions/async_wrapper.h", "instructions/async_wrapper.cpp"], [("Tick / LaunchChild / UpdateStatus", "instructions/async_wrapper.cpp")], ["GetStatus"])
prop("C18", "Instruction trees list every instruction once, breadth first",
 "The tree built from an instruction has one node per instruction with the same parent-child relations and child order, its flattening lists every instruction exactly once in breadth-first order, and its leaves are exactly the nodes without children. The tree of next instructions contains exactly the instructions the next tick would execute (nothing below one that reports running), and a null instruction is refused.",
 ["inputs"], "all tree shapes up to N instructions", "The tests use a few literal trees.",
 ["instruction_tree.h", "instructions/instruction_tree.cpp", "instructions/instruction_utils.cpp", "instruction_utils.h"], [("CreateFullInstructionTree / CreateNextInstructionTree / GetLeaves", "instructions/instruction_tree.cpp"), ("FlattenBFS", "instructions/instruction_utils.cpp")], ["FlattenBFS", "GetLeaves"])
prop("C19", "Compound and decorator instructions keep exact ownership of their children",
 "Inserting at a position between 0 and the number of children places the child there and keeps the order of the others; any other position refuses and changes nothing, and taking a child removes exactly that one and hands over ownership. A decorator holds at most one child, set-up fails without the required children, and halt and reset reach every child.",
 ["histories", "inputs"], "all sequences of up to N insertions and removals with arbitrary positions", "Tests use a few valid and one invalid position.",
 ["instructions/compound_instruction.cpp", "instructions/decorator_instruction.cpp", "instructions/instruction.cpp"], [("InsertInstruction / TakeInstruction", "instructions/compound_instruction.cpp"), ("InsertInstruction / TakeInstruction", "instructions/decorator_instruction.cpp")], ["ChildInstructions"])
prop("C20", "Breakpoints stop exactly once before their instruction and are re-armed",
 "Running to completion stops before a tick that would execute an instruction with a set breakpoint, once, and resuming then executes that tick; the breakpoint stops again the next time its instruction is about to run. Setting one on an unknown instruction is refused, setting twice or removing an absent one is harmless, and the listing shows exactly what is set.",
 ["histories", "inputs"], "all histories of up to N breakpoint and execution operations on trees up to the bound", "Tests exercise one breakpoint on one fixed procedure.",
 ["runner/breakpoint.cpp", "breakpoint.h", "runner/breakpoint_manager.cpp", "runner/breakpoint_manager.h", "runner/runner.cpp", "runner.h"], [("HandleBreakpoints / ResetBreakpoints", "runner/breakpoint_manager.cpp"), ("Runner::ExecuteProcedure", "runner/runner.cpp")], ["GetCurrentBreakpointInstructions", "GetBreakpoints"])
prop("C21", "Job control follows the documented state machine for every command history",
 "For every history of start, step, pause, reset, halt and terminate commands the job goes through the documented states only: a command that is not allowed in a state changes nothing, a finished procedure always ends as succeeded, failed or halted, and reset leads back to the initial state from which it can run again. Every state change is reported once and in order.",
 ["histories"], "all command histories up to N commands against procedures with arbitrary outcomes", "The tests drive a few fixed command scripts.",
 ["async_runner.h", "runner/async_runner.cpp", "runner/runner.cpp"], [("AsyncRunner state machine", "runner/async_runner.cpp")], ["JobStateMonitor::OnStateChange", "OnBreakpointChange"])
prop("C22", "Job control commands take effect under every thread schedule",
 "Halting, pausing and terminating a job from other threads takes effect at every point of its execution: a halted job becomes halted or finished, a paused job stops executing until started again, and destroying the job always ends its thread. No schedule deadlocks, loses a command, or accesses shared state without synchronisation.",
 ["schedules"], "all interleavings at synchronisation points, within the preemption bound, of one controller and the job's threads", "Thread timing in the tests samples few schedules.",
 ["async_runner.h", "runner/async_runner.cpp", "runner/runner.cpp", "runner/job_command_queue.cpp"], [("AsyncRunner::Halt / PriorityPush", "runner/async_runner.cpp"), ("Runner m_halt", "runner/runner.cpp")], ["JobStateMonitor::OnStateChange"])
prop("C23", "A job's indexed view matches its procedure",
 "A job gives every instruction and variable of its procedure one index, translates each notification to exactly the index it belongs to, and reports breakpoints, states and values for that index. An operation with an unknown index or instruction is refused without effect.",
 ["inputs", "histories"], "all tree shapes and variable sets up to the bound, all index values", "Tests sample a few procedures and indices.",
 ["runner/job_map.cpp", "job_map.h", "runner/job_info.cpp", "runner/job_interface_adapter.cpp", "runner/local_job.cpp", "local_job.h"], [("JobMap", "runner/job_map.cpp"), ("JobInterfaceAdapter", "runner/job_interface_adapter.cpp"), ("LocalJob", "runner/local_job.cpp")], ["IJobInfoIO callbacks"])
prop("C24", "User input requests are answered once, to the requester, or cancelled",
 "Every user input request that is not cancelled gets exactly one answer, the one its own request produced, and can be read once; requests are served one at a time in order. A cancelled request never delivers an answer, does not disturb other requests, and destroying the adapter ends cleanly under every schedule.",
 ["schedules", "histories"], "all interleavings of the input thread and up to two requesters with arbitrary answers, cancellations and time-outs", "Thread timing in the tests samples few schedules.",
 ["async_input_adapter.h", "base/async_input_adapter.cpp", "i_user_input_future.h"], [("HandleInputRequests / AddUserInputRequest / Cancel", "base/async_input_adapter.cpp")], ["IsReady", "WaitFor", "GetValue"])
prop("C30", "Workspace: unique names, insertion order and values kept per variable",
 "A workspace holds each variable name at most once, lists names in insertion order, and reading a variable or an existing field returns exactly what was last written there while other variables and fields are unaffected. Access to an unknown variable or field, before set-up or after tear-down, is refused without effect. Reads, writes and resets from several threads do not race: a read gives a whole written value, and writes of different fields all take effect.",
 ["histories", "inputs", "schedules"], "all sequences of up to N additions, set-ups, reads, writes and resets with symbolic names and values; all interleavings of two threads that access one variable", "Tests sample a few scripts and no schedules.",
 ["workspace.h", "procedure/workspace.cpp", "variable.h", "variables/variable.cpp", "variables/local_variable.cpp"], [("Workspace map and name list", "procedure/workspace.cpp"), ("Variable::Get/SetValue", "variables/variable.cpp")], ["GetValue", "SetValue", "VariableNames"])
prop("C31", "Variable listeners see every successful update, and only those",
 "Each successful write of a variable notifies every registered listener of that variable and every generic listener once, with the variable's name and its new value; refused writes notify nobody. Removed listeners and destroyed guards are never called again, and waiting for a variable ends when it is available and stays so, or the time-out expires.",
 ["histories", "schedules"], "all sequences of up to N registrations, removals and writes; all interleavings of one waiter and one writer", "Tests sample a few scripts.",
 ["procedure/workspace.cpp", "variables/variable.cpp", "named_callback_manager.h"], [("Variable::Notify", "variables/variable.cpp"), ("Workspace::VariableUpdated / WaitForVariable", "procedure/workspace.cpp")], ["callbacks", "WaitForVariable"])
prop("C32", "Workspace set-up and tear-down actions run once per set-up, in pairs",
 "For each distinct action identifier the set-up action runs once when the workspace is set up, after all its variables were set up, and its tear-down action runs once at tear-down or destruction; setting up twice repeats nothing. Variables with the same identifier share one action and a failed set-up never runs a tear-down that has no set-up.",
 ["histories"], "all assignments of identifiers to up to N variables and all histories of set-up, tear-down and destruction", "Tests use one or two identifiers.",
 ["procedure/workspace.cpp", "setup_teardown_actions.h", "variables/variable.cpp"], [("Workspace::PerformSetup / Teardown", "procedure/workspace.cpp")], ["action log"])
prop("C33", "Field names split at the first field separator and recompose exactly",
 "A full field name splits into the variable name, everything before the first '.' or '[', and the field name, everything after (a '[' is kept, a '.' is not); without separator the field name is empty. Splitting loses no character and is what every field access uses.",
 ["inputs"], "all strings up to the stated length over all bytes", "Tests list a dozen literal names.",
 ["procedure/workspace.cpp", "workspace.h"], [("SplitFieldName", "procedure/workspace.cpp")], ["SplitFieldName", "GetValue"])
prop("C40", "Attribute constraints evaluate as the Boolean formula they are built from",
 "A constraint built from existence, fixed type, and, or, xor and not validates an attribute set exactly when the formula is true of it, however nested, and describes itself without failing. Copying or moving a constraint keeps its meaning.",
 ["inputs"], "all formulas up to depth D and all attribute presence/type patterns", "Tests list a few truth-table rows.",
 ["constraint.h", "concrete_constraints.h", "attributes/constraint.cpp", "attributes/concrete_constraints.cpp"], [("Constraint::Validate", "attributes/constraint.cpp"), ("And/Or/Xor/Not/Exists/FixedType", "attributes/concrete_constraints.cpp")], ["Validate"])
prop("C41", "Attribute validation accepts exactly declared, well-typed, complete attributes",
 "Set-up accepts an attribute set exactly when every mandatory attribute is present, every declared literal attribute parses as its type, and every constraint holds; every failed rule is named. Attribute names stay unique, order is kept, and replacing placeholders substitutes exactly the values that start with the placeholder sign and whose names are given.",
 ["inputs", "histories"], "all attribute sets up to N attributes with symbolic presence, category and text", "Tests sample a few definitions.",
 ["attribute_handler.h", "attributes/attribute_handler.cpp", "attributes/attribute_validator.cpp", "attributes/attribute_utils.cpp", "attributes/attribute_definition.cpp", "attributes/attribute_properties.cpp"], [("AttributeHandler", "attributes/attribute_handler.cpp"), ("AttributeValidator", "attributes/attribute_validator.cpp"), ("ParseAttributeString", "attributes/attribute_utils.cpp")], ["ValidateAttributes", "GetValue", "InitPlaceholderAttributes"])
prop("C50", "Instruction indexing and its transported description round-trip exactly",
 "Numbering the instructions of a tree is a bijection onto 0..n-1 with the root first, and looking up an index or an instruction outside it is refused. The description of a tree converted to its transport value and back is identical, with types, attributes, categories, child order and indices; malformed transport values are refused and never crash.",
 ["inputs"], "all trees up to N nodes with symbolic attributes; all malformed values one edit away", "Tests use a few literal trees.",
 ["instruction_map.h", "runner/instruction_map.cpp", "runner/instruction_info.cpp", "runner/instruction_info_utils.cpp", "runner/instruction_state.cpp", "attribute_info.h"], [("InstructionMap", "runner/instruction_map.cpp"), ("ToAnyValue / ToInstructionInfo", "runner/instruction_info_utils.cpp")], ["ToAnyValue", "ToInstructionInfo"])
prop("C51", "Variable indexing and workspace description round-trip exactly",
 "Numbering the variables of a workspace is a bijection onto 0..n-1 in the workspace's order, and unknown names or indices are refused. The description of a workspace converted to its transport value and back is identical; malformed transport values are refused and never crash.",
 ["inputs"], "all workspaces up to N variables with symbolic attributes; all malformed values one edit away", "Tests use a few literal workspaces.",
 ["variable_map.h", "runner/variable_map.cpp", "runner/variable_info.cpp", "runner/workspace_info.cpp", "runner/variable_utils.cpp"], [("VariableMap", "runner/variable_map.cpp"), ("ToAnyValue / ToWorkspaceInfo", "runner/variable_utils.cpp")], ["ToAnyValue", "ToWorkspaceInfo"])
prop("C52", "User input requests and replies survive encoding; malformed ones are refused",
 "Creating a value, choice or confirmation request and reading it back gives exactly the original description and options, and the same holds for replies with their success flag. A request or reply of another kind, or malformed in any field, is reported as not valid and never crashes or yields made-up data.",
 ["inputs"], "all kinds, symbolic strings and values up to the bound, all single-field corruptions", "Tests use literal requests.",
 ["user_input_request.h", "base/user_input_request.cpp", "user_input_reply.h", "base/user_input_reply.cpp"], [("CreateUserValueRequest / ParseUserChoiceReply / ...", "base/user_input_reply.cpp")], ["Parse*", "Create*"])
prop("C53", "Writing a procedure as tree data and parsing it back gives the same procedure",
 "Converting a procedure to tree data and parsing that again yields the same instruction types, hierarchy and order, variables, attributes and preamble. Parsing malformed tree data is refused with a library error instead of producing a partial procedure.",
 ["inputs", "programs"], "all procedures up to N instructions and variables with symbolic names and attribute texts", "Tests use a few literal files and need the XML library.",
 ["parser/procedure_parser.cpp", "parser/instruction_parser.cpp", "parser/variable_parser.cpp", "parser/procedure_to_treedata_utils.cpp", "parser/sequence_parser.cpp"], [("ParseProcedure", "parser/procedure_parser.cpp"), ("ToTreeData", "parser/procedure_to_treedata_utils.cpp")], ["ToTreeData", "ParseProcedure"])
prop("C54", "Types declared in a preamble are known to exactly their procedure, in order",
 "When a procedure is set up or loaded as an included one, the types declared in its preamble are registered with its own workspace in the order of declaration, each from its text or from its file, where a relative file name is taken from the directory of the procedure's file. A later declaration and every typed variable can use the types declared before, with exactly the declared structure, and declaring the same type again is harmless. A text or file that does not denote a type, and a name already standing for another type, make set-up fail with a library error and nothing is set up. Types of one procedure are not known in another.",
 ["inputs", "programs"], "all lists of declarations up to the bound from a pool of related, conflicting and malformed types, from text and files; all file names up to the bound", "Tests declare one or two literal types.",
 ["procedure/procedure.cpp", "procedure/procedure_store.cpp", "procedure/workspace.cpp", "parser/procedure_parser.cpp", "variables/variable.cpp"], [("SetupPreamble / ParseTypeRegistrationInfo / GetFullPathName", "procedure/procedure.cpp"), ("LoadProcedure", "procedure/procedure_store.cpp"), ("RegisterType", "procedure/workspace.cpp")], ["Setup", "GetTypeRegistry"])
prop("C60", "Time-outs convert exactly and every out-of-range value is refused",
 "Converting a time-out in seconds gives the nearest nanosecond count and refuses every negative, too large or not-a-number value, without overflow. A procedure uses its tick time-out attribute in exactly this way and a fixed default without it, and a job waits this long after each tick that leaves its procedure running.",
 ["inputs"], "all 2^64 double values (exactness within the stated range)", "Tests try a handful of literal values.",
 ["instructions/instruction_helper.cpp", "procedure/procedure.cpp", "constants.h", "base/generic_utils.cpp"], [("ConvertToTimeoutNanoseconds", "instructions/instruction_helper.cpp")], ["ConvertToTimeoutNanoseconds"])
prop("C61", "Waiting instructions end exactly on their condition, time-out or halt",
 "A wait never succeeds before its time-out, ends at the first tick at or after it, and is not executed any more once halted (a blocking wait that is halted fails at once). Waiting for variables succeeds at a tick exactly when the condition holds at that tick, reports running while it does not and time remains, and fails only once the time-out has passed; a reset starts the time anew.",
 ["histories", "inputs"], "all non-decreasing clocks, all time-outs within the stated range, all condition histories of up to K ticks", "Tests sleep for a few fixed times.",
 ["instructions/wait.cpp", "instructions/wait_for_variable.cpp", "instructions/wait_for_variables.cpp"], [("ExecuteSingleImpl", "instructions/wait.cpp"), ("ExecuteSingleImpl", "instructions/wait_for_variable.cpp")], ["GetStatus"])
prop("C70", "Path and name helpers split and join paths consistently",
 "The directory and file parts of a path, and the full path of an included file, are computed for every path text so that absolute names stay as they are and relative ones are taken from the including file's directory. Creating a directory creates exactly what is missing of the path, the directory itself with the requested permissions, and reports failure instead of looping.",
 ["inputs", "fault_sequences"], "all path strings up to the stated length; all sets of existing directories and all results of the system calls", "Tests use literal paths in a writable directory.",
 ["base/generic_utils.cpp", "generic_utils.h", "procedure/procedure.cpp"], [("CreateDir / FileExists", "base/generic_utils.cpp"), ("GetFullPathName / GetFileDirectory", "procedure/procedure.cpp")], ["CreateDir", "GetFullPathName"])
prop("C71", "Type registries create exactly what was registered and refuse everything else",
 "A registered type name creates a new object of exactly that type each time, registering a name twice or creating an unregistered name is refused without changing the registry, and the list of names is exactly what was registered. This holds for instructions and variables alike.",
 ["histories", "inputs"], "all histories of up to N registrations and creations with symbolic names", "Tests register one or two literal names.",
 ["instruction_registry.h", "instructions/instruction_registry.cpp", "variable_registry.h", "variables/variable_registry.cpp"], [("InstructionRegistry", "instructions/instruction_registry.cpp"), ("VariableRegistry", "variables/variable_registry.cpp")], ["Create", "RegisteredInstructionNames"])
prop("C72", "A procedure keeps its instructions and executes its root",
 "Pushing, inserting and taking top-level instructions keeps order and ownership, any invalid position is refused without effect, and the executed root is the only instruction or else the first one marked as root, none if there is none. Status, halt and reset of the procedure are those of its root, set-up fails when there is nothing valid to execute, and variables go away only after everything that was executing has stopped.",
 ["histories", "inputs"], "all sequences of up to N insertions and removals with arbitrary positions and root markings", "Tests use a few scripts.",
 ["procedure.h", "procedure/procedure.cpp"], [("RootInstruction / InsertInstruction / TakeInstruction", "procedure/procedure.cpp")], ["RootInstruction", "GetTopInstructions", "GetStatus"])
prop("C73", "Included procedures are loaded once per file and found by path",
 "A procedure store loads each file at most once and always returns the same object for it, relative to the including procedure's directory. Looking up an instruction by a dotted path of names finds exactly the first instruction at that path and nothing else, and an included tree is an independent copy with the given attribute substitutions.",
 ["histories", "inputs"], "all sequences of up to N loads with symbolic names; all instruction name trees up to the bound", "Tests use a few literal files.",
 ["procedure/procedure_store.h", "procedure/procedure_store.cpp", "procedure_context.h", "procedure/procedure_context.cpp", "instructions/instruction_helper.cpp", "instructions/include.cpp", "instructions/include_procedure.cpp"], [("ProcedureStore", "procedure/procedure_store.cpp"), ("FindInstruction / Clone", "instructions/instruction_helper.cpp")], ["LoadProcedure", "Include::Setup"])
prop("C74", "Comparison and arithmetic instructions agree with the values' own ordering",
 "For all pairs of values, equal, less, less-or-equal, greater and greater-or-equal succeed exactly when that relation holds between left and right (by mathematical value for numbers of different types when ordering), and fail for incomparable values or missing variables. Increment and decrement change a numeric variable by exactly one modulo its width, and refuse other types without changing them.",
 ["inputs"], "all value pairs of all scalar types", "Tests sample a few pairs.",
 ["instructions/equals.cpp", "instructions/lessthan.cpp", "instructions/lessthanorequal.cpp", "instructions/greaterthan.cpp", "instructions/greaterthanorequal.cpp", "instructions/increment.cpp", "instructions/decrement.cpp"], [("ExecuteSingleImpl", "instructions/lessthan.cpp")], ["GetStatus", "variable value"])
prop("C75", "Data actions change exactly the variable field they name",
 "Copy, reset, add-element, add-member, input, output, message, log, existence and truth tests act on exactly the variables and fields named by their attributes: on success the target has the documented new value and everything else is unchanged, on failure nothing is changed. Their result is success exactly when the action was possible (for tests, when the tested condition is true).",
 ["inputs", "histories"], "all variable presence and value patterns within the bound", "Tests sample a few procedures.",
 ["instructions/copy.cpp", "instructions/reset_variable.cpp", "instructions/add_element.cpp", "instructions/add_member.cpp", "instructions/var_exists.cpp", "instructions/condition.cpp"], [("ExecuteSingleImpl", "instructions/copy.cpp"), ("ExecuteSingleImpl", "instructions/add_member.cpp")], ["GetStatus", "variable value"])
prop("C76", "Command-line input is accepted only when it denotes a valid choice or value",
 "In the command-line interface a choice typed by the user selects exactly the option shown with that number, and any other text is refused. A value typed for a variable is accepted exactly when the whole line is a value of the variable's type, and then has that value; each request is answered from its own line.",
 ["inputs"], "all input lines up to the stated length, all option counts up to N", "There is no test of the command-line interface.",
 ["src/app/oac-tree-cli/cl_interface.cpp"], [("GetUserChoice / ParseStringToScalarAnyvalue", "src/app/oac-tree-cli/cl_interface.cpp")], ["RequestUserInput"])

prop("C77", "A procedure file run by an application is executed to its end and reported",
 "The command-line program and the daemon load the named file, set it up, execute it to its end and report exactly the state it ended in. If the file is missing, cannot be parsed or cannot be set up, the reason is reported, the exit status is an error and nothing is executed; validation and wrong usage execute nothing either, and no thread outlives the run.",
 ["inputs", "histories", "schedules"], "all combinations of file kinds and options, all results of the procedure's leaves up to the bound, all schedules within the preemption bound", "There is no test of the programs or of the helpers they are made of.",
 ["src/app/oac-tree-cli/main.cpp", "src/app/oac-tree-daemon/main.cpp", "src/app/oac-tree-daemon/daemon_interface.cpp", "application_utils.h", "base/application_utils.cpp"], [("SafeParseProcedure / CreateAsyncRunner / SimpleJobStateMonitor", "base/application_utils.cpp"), ("main", "src/app/oac-tree-cli/main.cpp")], ["exit status", "standard output", "log"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
