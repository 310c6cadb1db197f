#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that every property is edited in one place)."""
import json, os
I = "include/boost/statechart/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [I + f for f in files],
            "state": [dict(name=n, meaning=m, where=I + w) for n, m, w in state],
            "mechanism": [dict(name=n, where=I + w) for n, w in mech],
            "observe_at": list(observe), "hook_needed": None},
    })

SM, SS = "state_machine.hpp", "simple_state.hpp"

p("C01", "Run to completion; posted events are processed in posting order",
  "An event posted while the machine is entering states or reacting to another event is never dispatched before that activity has completed; it is appended to the machine's event queue. Queued events are dispatched one at a time, oldest first, each exactly once. initiate() and process_event() return normally only when the queue is empty.",
  ["histories", "programs"], "every sequence of post_event / process_event / initiate calls, from any state, action, constructor or exit handler of any chart",
  "Tests post at most a couple of events from one place; the claim is over every posting site and every interleaving of posted, deferred and processed events.",
  [SM, SS], [("post_event / post_event_impl", SM), ("process_queued_events", SM), ("simple_state::post_event", SS)],
  [("eventQueue_", "posted events, oldest first", SM)],
  ["order of react/unconsumed_event calls", "state_machine::process_event return"])

p("C02", "Reaction search visits innermost states, moves outward and stops when done",
  "For a dispatched event, reactions are searched from an active innermost state outward to its outermost state, and a further active innermost state is tried only if every reaction found so far forwarded the event or none was found. Every active innermost state is tried at most once, none is skipped, and search stops as soon as the event is consumed or deferred. The machine's unconsumed_event handler is called exactly once if no reaction consumed or deferred the event, and never otherwise.",
  ["programs", "histories"], "every chart shape, active configuration and combination of reaction results",
  "Tests cover a few fixed charts; forwarding through several orthogonal regions with a consuming region in the middle is not enumerated.",
  [SM, SS], [("send_event", SM), ("react_impl", SS), ("local_react", SS)],
  [("currentStates_ / currentStatesEnd_", "active innermost states", SM)], ["react calls", "unconsumed_event calls"])

p("C03", "A state's reactions are tried in declared order on exact event type",
  "Within one state, reactions are tried in the order in which they are declared; one runs if and only if it is declared for exactly the event's most-derived type or for event_base, and if it is not applicable the next one is tried. A selected reaction performs its documented effect exactly once - calling the custom handler, calling the in-state action on its context, transiting, terminating or deferring - and its result decides what the machine does next; a forwarded result resumes the search in the outer state, not at later reactions of the same state.",
  ["programs", "inputs"], "every reaction list and every event type, in both type-identification modes",
  "Tests instantiate a handful of reaction lists; selection is template recursion instantiated anew per chart.",
  ["simple_state.hpp", "custom_reaction.hpp", "in_state_reaction.hpp", "transition.hpp", "termination.hpp", "deferral.hpp", "detail/reaction_dispatcher.hpp", "result.hpp"],
  [("local_react_impl_*", SS), ("reaction_dispatcher::react", "detail/reaction_dispatcher.hpp"), ("custom_reaction/deferral/termination::react", "custom_reaction.hpp")],
  (), ["user react/action calls", "machine behaviour after the reaction"])

p("C04", "Deferred events are kept and re-offered first when the deferring state exits",
  "An event whose reaction is deferral is retained exactly once and not dispatched again until a state that deferred an event is exited. When such a state is exited, all retained events move, in the order in which they were deferred, to the front of the event queue ahead of every event already posted. Exiting states that never deferred anything releases nothing.",
  ["histories", "programs"], "every interleaving of deferrals, posts, forwards and exits",
  "Tests defer a few events in simple charts; the order relation between several deferred and several posted events over all histories is not sampled.",
  [SM, SS, "deferral.hpp", "detail/state_base.hpp"],
  [("process_event / process_queued_events deferral branch", SM), ("release_events", SM), ("~simple_state", SS), ("defer_event / deferred_events", "detail/state_base.hpp")],
  [("deferredEventQueue_", "retained events", SM), ("deferredEvents_", "state has deferred something", "detail/state_base.hpp")], ["order in which deferred and posted events reach reactions"])

p("C05", "States are entered outermost first, regions in ascending order, each once",
  "Entering a state constructs it after its outer state and before any of its inner states, with its context already accessible where the API promises that; all its orthogonal regions are then entered in ascending region order, depth first, each exactly once. A transition to a nested destination enters every state between the innermost common context and the destination, and enters the default (or history) states of all other regions on the way at their proper place in that order.",
  ["programs"], "every chart shape (nesting depth, number of regions, position of the destination)",
  "Tests fix three or four charts; the order is computed by metaprograms for every chart a user writes.",
  [SS, "state.hpp", "detail/constructor.hpp", SM],
  [("deep_construct / deep_construct_inner", SS), ("outer_constructor::construct", "detail/constructor.hpp"), ("make_context_list", "detail/constructor.hpp"), ("shallow_construct", "state.hpp")],
  (), ["order of state constructor calls"])

p("C06", "States are exited innermost first, highest region first, each exactly once",
  "Exiting a state exits all its active inner states first, the highest-numbered region first, each exactly once; for each state its exit() handler runs (in a regular exit) before its destructor, and both before those of its outer state. When the last active inner state of a state is terminated, that outer state is exited as well, recursively; no state outside the exited subtree and this chain is exited, and no state object is used after it is destroyed.",
  ["programs", "histories"], "every chart shape and active configuration, including regions that were terminated individually before",
  "Configurations with partly terminated regions grow exponentially; tests sample a few.",
  [SM, SS, "detail/node_state.hpp", "detail/leaf_state.hpp"],
  [("remove_from_state_list", "detail/node_state.hpp"), ("leaf_state::remove_from_state_list", "detail/leaf_state.hpp"), ("exit_impl", SS), ("terminate_impl", SM)],
  [("pInnerStates", "active inner state per region", "detail/node_state.hpp")], ["order of exit() and destructor calls"])

p("C07", "A transition exits to the common context, runs its action once, then enters",
  "A transition exits exactly the active states inside the innermost common context of source and destination, then runs the transition action (if any) exactly once on the declared context object with the triggering event, then enters the destination, and finally consumes the event. With relaxed transition contexts, the action runs as soon as all states inside the action's context have been exited (or, for an innermost source state that is itself the action's context, before it is exited) and always before any state is entered.",
  ["programs", "configurations"], "every pair of source and destination state, every action context, both transition-context configurations",
  "The tests cover a selection of source/destination pairs of a single chart.",
  [SS, SM, "transition.hpp", "detail/reaction_dispatcher.hpp"],
  [("transit_impl", SS), ("terminate_as_part_of_transit", SM), ("transition_function", SS)],
  (), ["order of exit, action and entry calls"])

p("C08", "An exception that escapes leaves the machine terminated and empty",
  "If user code throws while the machine initiates, reacts or terminates and the exception escapes to the caller, then before the caller catches it all active states have been destroyed without exit() being called, and all queued events, deferred events and history have been discarded, so that the machine can be initiated again. An exception from the unconsumed_event handler alone propagates without destroying any state.",
  ["fault_sequences", "programs"], "every user call that can throw, at every point of every reaction",
  "Only one or two throwing places are tested; the claim covers all throwing sites and translators.",
  [SM], [("terminator", SM), ("terminate_impl( bool )", SM), ("send_event / initiate / terminate", SM)],
  (), ["terminated() after the exception", "absence of exit() calls"])

p("C09", "Exception events go to the right state and must leave the machine stable",
  "When an exception translator turns an exception into an event, that event is dispatched immediately (before any queued event) to the outermost unstable state if the machine is unstable and otherwise to the innermost state that was last visited in the reaction search, moving outward only, never to other regions. States exited while it is handled are destroyed without exit() and without saving history; afterwards regular exits call exit() again. The original exception is rethrown unless a reaction consumed the event and the machine is stable again.",
  ["fault_sequences", "programs"], "every throwing site, machine configuration and reaction to the exception event",
  "Handling depends on where in an entry/exit sequence the exception is thrown; tests cover no translator at all.",
  [SM, SS, "exception_translator.hpp"], [("handle_exception_event", SM), ("add", SM), ("set_outermost_unstable_state", SS), ("exception_translator", "exception_translator.hpp")],
  [("pOutermostUnstableState_", "outermost state whose inner states are incomplete", SM), ("performFullExit_", "exit() is to be called", SM)], ["which state's reaction to exception_thrown runs", "propagation to the caller"])

p("C10", "Termination, re-initiation and destruction leave nothing behind",
  "terminate() exits every active state and discards all queued events, deferred events and history; initiate() on a running machine first does all of that and then enters the initial configuration; afterwards no event, history or flag of the earlier run influences the new one. Destroying a running machine destroys all its states, in exit order, without calling exit(). A machine is terminated exactly when it has no active state, and terminating a terminated machine has no effect on states.",
  ["histories"], "every history before terminate / initiate / destruction",
  "Tests look at a few short histories only.",
  [SM, SS, "asynchronous_state_machine.hpp"], [("terminate_impl( bool )", SM), ("initiate", SM), ("~state_machine", SM), ("terminate_as_reaction", SM)],
  (), ["terminated()", "behaviour after re-initiation"])

p("C11", "History is recorded exactly when a state is regularly exited",
  "When a state whose context has shallow history is regularly exited, that state is recorded for its region after its exit() handler succeeded; when an innermost state is regularly exited, it is recorded for the region of every enclosing context that has deep history. Nothing is recorded for other contexts or regions, nor when exit() throws, nor when states are destroyed because of a pending exception or machine destruction. A later record for the same region replaces the earlier one.",
  ["programs", "histories", "fault_sequences"], "every nesting of history-bearing and history-free contexts",
  "The cross product of history modes over nesting levels and exit kinds is not tested.",
  [SS, SM], [("exit_impl", SS), ("check_store_shallow_history / check_store_deep_history", SS), ("deep_history_storer", SS), ("store_shallow_history / store_deep_history / store_history_impl", SM)],
  [("shallowHistoryMap_ / deepHistoryMap_", "last configuration per context and region", SM)], ["state entered by a later history transition"])

p("C12", "History entry resumes the recorded configuration, else the default",
  "Entering through shallow or deep history re-enters what was last recorded for exactly that context and region and that kind of history: the recorded direct inner state with its default inner states for shallow, the recorded innermost state and all its outer states below the context for deep. If nothing was recorded, or it was cleared, the declared default state is entered. Clearing affects only the named kind of history, context and region, and histories of different contexts, regions and kinds never mix.",
  ["programs", "histories"], "every chart with history, every record/clear/enter history",
  "Tests use two charts and a few sequences; key collisions between contexts and regions are not explored.",
  [SM, "shallow_history.hpp", "deep_history.hpp"], [("construct_with_history_impl", SM), ("history_key", SM), ("clear_shallow_history / clear_deep_history", SM), ("store_deep_history", SM)],
  [("shallowHistoryMap_ / deepHistoryMap_", "last configuration per context and region", SM)], ["states entered"])

p("C13", "triggering_event() names the event being processed and nothing else",
  "While a reaction, transition action, entry, exit or unconsumed_event handler runs because of an event, triggering_event() returns that very event object - for events taken from the queue and for exception events as well; during initiate() and terminate() it returns 0. After the activity, whether it ended normally or by an exception, the value from before it is restored, so outside of any activity it is 0, and after a nested activity the outer event is reported again.",
  ["histories", "fault_sequences"], "every nesting of processing, exception handling and termination",
  "One small test looks at two events; nesting and exceptional exits are not covered.",
  [SM, SS], [("terminator", SM), ("triggering_event", SM), ("simple_state::triggering_event", SS)],
  [("pTriggeringEvent_", "current event", SM)], ["triggering_event() in user code"])

p("C14", "State queries report exactly the active states",
  "state_cast and state_downcast examine every active state - each active innermost state and all its outer states - and nothing else: they return the first match and otherwise 0 for pointer targets or throw bad_cast for reference targets; downcast matches the exact type, cast any type reachable by dynamic_cast. Iterating from state_begin() to state_end() visits each active innermost state exactly once, and the range is empty exactly when terminated() is true. outer_state_ptr() walks from a state to its direct outer state and yields 0 for an outermost state.",
  ["programs", "histories"], "every active configuration and every target type",
  "Tests query two configurations; removal of inner regions reorders the active list and is not enumerated.",
  [SM, SS, "detail/leaf_state.hpp"], [("state_cast / state_downcast", SM), ("state_iterator", SM), ("outer_state_ptr", SS), ("add_impl / set_list_position", SM), ("leaf_state::remove_from_state_list", "detail/leaf_state.hpp")],
  [("currentStates_ / currentStatesEnd_", "active innermost states", SM), ("listPosition_", "position of the state in the list", "detail/leaf_state.hpp")], ["return values of the queries"])

p("C15", "A pending event stays alive and is destroyed exactly once",
  "An event that is posted, deferred or queued for a processor remains valid, with unchanged content and type, until its processing is over, also when the caller's object is a local one: an event not managed by a reference-counting pointer is copied, a managed one is shared and not copied. Each dynamically created event is destroyed exactly once, when the last reference is gone, and copying an event object never copies or disturbs reference counts.",
  ["histories", "programs"], "every mix of stack and heap events and of posting, deferring, queueing",
  "Lifetime errors show up only in particular ownership histories and often without a visible failure.",
  ["event_base.hpp", "event.hpp", "detail/counted_base.hpp", SM, "processor_container.hpp"], [("intrusive_from_this", "event_base.hpp"), ("clone", "event.hpp"), ("intrusive_ptr_add_ref / intrusive_ptr_release", "event_base.hpp"), ("counted_base", "detail/counted_base.hpp")],
  [("count_", "number of intrusive pointers", "detail/counted_base.hpp")], ["event destructor calls", "event content seen by reactions"])

p("C16", "Type identities are exact, unique and consistently ordered",
  "For every state or event object, dynamic_type() equals static_type() of its most-derived type and of no other type, in both type-identification modes; equality, inequality and ordering of identities are mutually consistent and form a strict total order. A custom type identifier set for a type is returned by the static and dynamic accessors of exactly that type.",
  ["programs", "configurations"], "every pair of state and event types, both type-identification modes",
  "Tests check a handful of types; the ordering is used for history keys of all charts.",
  ["detail/rtti_policy.hpp", SM], [("rtti_base_type::dynamic_type", "detail/rtti_policy.hpp"), ("rtti_derived_type::static_type", "detail/rtti_policy.hpp"), ("id_type comparison", "detail/rtti_policy.hpp"), ("history_key operator<", SM)],
  (), ["dynamic_type() == T::static_type()"])

p("C17", "Reaction results cannot be forged, dropped, duplicated or reused",
  "In debug builds a reaction result can only be obtained from a reaction function; copying it transfers it (the source becomes unusable, copying an already used result is detected), and destroying a result that was never returned to the machine is detected. It is neither default-constructible nor assignable, and the value that reaches the machine is the one the reaction function produced.",
  ["programs"], "every user handler",
  "Tests check single instances of each misuse.",
  ["result.hpp"], [("safe_reaction_result", "result.hpp"), ("result_utility", "result.hpp")], (), ["assertion failures", "compile errors"])

p("C18", "The worker runs each queued work item once, in order, and counts it",
  "Work items are executed in the order in which they were queued, each exactly once, empty ones never being queued. A call to the worker runs items until the given maximum (0 meaning unlimited), a processed terminate request, or - unless it waits - an empty queue, and returns the number of items executed by this call. A terminate request takes effect only when its turn in the queue comes; after that no item is executed any more.",
  ["histories", "schedules"], "every history of queueing, running with any maximum, and terminating",
  "Tests run short fixed sequences on one thread, without a maximum item count.",
  ["fifo_worker.hpp", "fifo_scheduler.hpp"], [("queue_work_item", "fifo_worker.hpp"), ("operator()", "fifo_worker.hpp"), ("dequeue_item", "fifo_worker.hpp"), ("terminate", "fifo_worker.hpp")],
  [("workQueue_", "pending work items", "fifo_worker.hpp"), ("terminated_", "terminate request executed", "fifo_worker.hpp")], ["execution order and return values"])

p("C19", "The worker's queue is race-free, deadlock-free and loses no wake-up",
  "In multi-threaded builds every access to the work queue happens while the worker's lock is held, the lock is released on every way out, and it is never held while a work item runs or the caller's code is executed. A blocking worker waits only while the queue is empty, re-checks after waking up, and every queued item is followed or accompanied by a notification of a waiting worker; a non-blocking worker never waits.",
  ["schedules"], "every interleaving of queueing threads with the worker thread",
  "All tests are single-threaded.",
  ["fifo_worker.hpp"], [("queue_work_item", "fifo_worker.hpp"), ("dequeue_item", "fifo_worker.hpp")],
  [("workQueue_", "pending work items", "fifo_worker.hpp"), ("mutex_ / queueNotEmpty_", "lock and condition", "fifo_worker.hpp")], ["data races", "hangs"])

p("C20", "Scheduler requests reach exactly their processor, in the worker, or are dropped",
  "Creating, initiating, terminating, destroying and sending events to a processor never act on it synchronously but queue exactly one work item each, which, when executed, performs exactly the requested operation on the processor the handle denotes. If that processor does not exist any more (or could not be created), the request is silently discarded. A created processor lives until it is destroyed through its handle or the scheduler dies, is constructed exactly once with all creation arguments in order, and knows its scheduler and handle.",
  ["histories", "programs", "fault_sequences"], "every history of scheduler calls, every argument count",
  "Tests use one scheduler with one processor at a time and no failing constructors.",
  ["fifo_scheduler.hpp", "processor_container.hpp", "event_processor.hpp", "asynchronous_state_machine.hpp"], [("create_processor / *_processor / queue_event", "processor_container.hpp"), ("*_impl", "processor_container.hpp"), ("event_processor", "event_processor.hpp"), ("asynchronous_state_machine::*_impl", "asynchronous_state_machine.hpp")],
  [("processorSet_", "owned processors", "processor_container.hpp")], ["calls on processor objects"])

p("C21", "States, events and queues use the configured allocator, symmetrically",
  "Every state object, every dynamically created event and every node of the machine's internal containers is obtained from the allocator configured for its machine (or, for events, for the event type), rebound to the most-derived type, for exactly one object, and is returned to the same allocator with the same type and count. No state, event or container node is allocated from anywhere else, and the work items a scheduler creates are given its allocator.",
  ["programs", "configurations"], "every state and event type and every allocator",
  "Only one example uses a custom allocator; it checks nothing.",
  ["detail/memory.hpp", "event.hpp", SS, SM, "fifo_worker.hpp", "processor_container.hpp", "detail/state_base.hpp"], [("allocate / deallocate", "detail/memory.hpp"), ("operator new / delete", "event.hpp"), ("operator new / delete", SS), ("container typedefs", SM)], (), ["calls to the user's allocator"])

p("C22", "Inconsistent charts do not compile; consistent ones do",
  "A chart in which a state names a non-existent region of its context, sits at another place of its context's initial list than its region says, uses or clears a history its context does not have, or combines deep history with orthogonal regions below it, and a transition between different orthogonal regions, is rejected at compile time. The corresponding consistent charts compile, in every configuration.",
  ["programs", "configurations"], "every chart",
  "The existing compile-fail tests pass on any compile error, cover one position each, and do not check that the consistent sibling compiles.",
  [SS, SM, "shallow_history.hpp", "deep_history.hpp"], [("static assertions", SS), ("clear_*_history static assertions", SM), ("history static assertions", "shallow_history.hpp")], (), ["compiler acceptance"])

p("C23", "Different machines share no unsynchronised mutable library state",
  "The library keeps no mutable state outside of machine, state, event and scheduler objects other than per-type identity records, which are written only when the user sets a custom type identifier; so machines in different threads do not interfere. In multi-threaded builds the reference counts of events, which may be shared between threads, are changed only by atomic operations, and the decision to destroy an event uses the result of that very atomic operation.",
  ["schedules", "configurations"], "every program with several machines in several threads",
  "No test runs two threads.",
  ["detail/counted_base.hpp", "detail/rtti_policy.hpp", "event_base.hpp"], [("count_base", "detail/counted_base.hpp"), ("id_holder", "detail/rtti_policy.hpp")],
  [("count_", "reference count", "detail/counted_base.hpp")], ["data races"])

p("C24", "A state always reaches the right context, machine and region",
  "From any active state, context<C>() returns the one live enclosing object of type C (or the state itself, or the machine), outermost_context() the machine it belongs to, and requests made through a state (posting, querying, clearing history, transiting, terminating) act on that machine. Each state registers itself with its direct context under its own region when entered and deregisters exactly there when destroyed, and keeps its direct context alive as long as it lives.",
  ["programs", "histories"], "every chart and every pair of state and context",
  "Tests use contexts in a few fixed charts.",
  [SS, "state.hpp", SM, "detail/node_state.hpp", "detail/state_base.hpp"], [("context / context_ptr / outermost_context", SS), ("set_context", SS), ("add_inner_state / remove_inner_state", "detail/node_state.hpp")],
  [("pContext_", "owning pointer to the direct context", SS)], ["addresses returned by context<>()"])

p("C25", "Exceptions neither originate in nor get swallowed by the library",
  "The library itself throws nothing except bad_cast from reference state queries; every exception thrown by user code (constructors, reactions, exit handlers, actions, unconsumed_event, allocators, work items) reaches the caller of the public function unchanged, unless the configured exception translator handled it. Only the translator catches exceptions of arbitrary type, and null_exception_translator catches nothing.",
  ["fault_sequences", "programs"], "every exception from every user call",
  "Absence of throwing and catching sites is a statement about all code, not about runs.",
  [SM, SS, "exception_translator.hpp", "null_exception_translator.hpp", "fifo_worker.hpp", "processor_container.hpp"], [("exception_translator", "exception_translator.hpp"), ("handle_exception_event rethrow", SM), ("not_found", SM)], (), ["exceptions seen by callers"])

p("C26", "Processing one event finishes in bounded time",
  "Every call of process_event() returns after a number of steps bounded by the size of the chart and the number of events posted, deferred and queued; a blocking worker with pending work always makes progress.",
  ["histories", "schedules"], "every history and schedule",
  "Termination and progress quantify over unbounded histories.",
  [SM, "fifo_worker.hpp"], [("process_queued_events", SM), ("operator()", "fifo_worker.hpp")], (), ["return of process_event()"])

p("C27", "The active configuration after any history is the one UML prescribes",
  "After any sequence of events the set of active states, the order of all actions and the content of all queues and histories equal those prescribed by the UML state machine semantics documented for the library.",
  ["histories", "programs"], "every chart and every history",
  "Whole-history functional correctness; tests sample a few charts.",
  [SM, SS], [("all of state_machine and simple_state", SM)], (), ["active configuration after each event"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
