#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties live here because JSON lines are hard to edit)."""
import json, os
B = "src/main/java/com/webotech/statemachine/"
GSM, NS, NSE = B+"GenericStateMachine.java", B+"NamedState.java", B+"NamedStateEvent.java"
DES, DDS, TT = B+"strategy/DefaultEventStrategy.java", B+"strategy/DropDuplicateEventStrategy.java", B+"strategy/TransitionTask.java"
POOL, PAIR, FAC = B+"strategy/EventMachinePairPool.java", B+"strategy/EventMachinePair.java", B+"strategy/EventProcessingStrategyFactory.java"
DUF, MCL, LSL = B+"strategy/DefaultUnexpectedFlowListener.java", B+"MultiConsumerStateMachineListener.java", B+"LoggingStateMachineListener.java"
HEA, THR = B+"HandleExceptionAction.java", B+"util/Threads.java"
APP, CTX, LCU = B+"service/AbstractAppService.java", B+"service/AbstractAppContext.java", B+"service/LifecycleStateMachineUtil.java"

P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Fired events drive the machine exactly as its configured transition table says",
 "For every valid configuration and every sequence of fired events, a mapped event takes the machine from its current state to exactly the configured target, an event configured as not transitioning leaves the current state as it is, and an unmapped event changes nothing and is handed exactly once to the unmapped-event handler. The outcome depends only on the configuration and the order of the events: not on the names chosen, on how many states, events or actions there are, on payloads, or on how many events the machine has already processed.",
 ["programs", "inputs", "histories"],
 "all configurations (transition tables over any named states and events) and all event sequences, including events fired by actions, listeners and handlers",
 "The tests use two states and two events and at most a few fires; they cannot cover all tables, names and long histories.",
 [GSM, TT, DES], [("table lookup and branch", TT+": execute"), ("configuration of the table", GSM+": when/receives/itTransitionsTo/itDoesNotTransition/itEnds"), ("hand-off to the executor", DES+": processEvent")],
 [("states", "the transition table shared by machine and transition task", GSM), ("currentState", "where the machine is", GSM)],
 ["StateMachine.getCurrentState", "StateMachineListener", "unmapped-event handler", "StateAction"])

prop("C02", "Every transition runs listener, exit actions, entry actions, listener, in order",
 "Each transition calls the listener's begin, then every exit action of the state being left, then every entry action of the state being entered, then the listener's end: each exactly once, actions in the order they were appended, always with the event that caused the transition and with the same from and to states. Exit actions see the old state as the machine's current state and entry actions see the new one; the start of the machine is announced as a transition from _UNINITIALISED_ on _immediate_. An event configured as not transitioning gives one begin and one end call, from the current state to _NOOP_, and runs no action.",
 ["programs", "inputs", "histories"],
 "all configurations, numbers of actions, self-transitions, no-op events, ending transitions and event sequences",
 "The tests look at one or two hand-written transitions with two actions; several only use mocks of the machine, which cannot see ordering across listener, actions and state change.",
 [TT, GSM, NS], [("protocol of one transition", TT+": execute"), ("start protocol", GSM+": start"), ("listener fan-in and defaults", GSM+": notifyStateMachineListener"), ("actions in append order", NS+": onEntry/onExit")],
 [("entryActions/exitActions", "actions in append order", NS)], ["StateMachineListener", "StateAction"])

prop("C03", "Transitions are atomic: one event is fully processed before the next begins",
 "However many threads fire events at a machine backed by a single-threaded executor, the callbacks of one event (listener begin, exit actions, entry actions, listener end, or unmapped handler) never overlap or interleave with the callbacks of another event on that machine. This includes the initial transition made by starting the machine: no event, not even one fired from an initial entry action, is processed until that transition is complete. A thread that fires an event is never made to wait for the processing of events.",
 ["schedules"],
 "all interleavings of firing threads, the starting thread and the processing thread",
 "The tests start the machine before firing, let threads run as they happen to, and never check whether callbacks overlap; the only many-thread tests are excluded as flaky.",
 [DES, TT, GSM], [("single consumer loop", DES+": processEvent"), ("transition under the machine's monitor", TT+": execute"), ("start under the machine's monitor", GSM+": start")],
 [("eventQueue", "events waiting to be processed", DES)], ["StateMachineListener", "StateAction", "unmapped-event handler"])

prop("C04", "No event is lost, invented or processed twice; each has exactly one outcome",
 "Every event fired at a started machine whose queue is unbounded is processed exactly once, from however many threads and actions events are fired, unless the machine ends first. Every fire has exactly one outcome: a transition, a no-op notification, the unmapped handler, a report that it came before the start or after the end or was refused by a full queue, or, when it was still waiting as the machine ended, silent discard. Nothing is processed that was not fired.",
 ["schedules", "histories", "inputs"],
 "all interleavings of any number of firing threads with the processing thread, any burst lengths, fires from inside callbacks, any (thread-safe) queue supplied by the user",
 "The tests count transitions for one run of 500 events at best (in an excluded class) and cannot sample the windows between enqueue, hand-off and dequeue, nor other queue implementations.",
 [DES, GSM, POOL, PAIR], [("enqueue then schedule", DES+": processEvent"), ("drain loop", DES+": processEvent"), ("object pool", POOL), ("routing by lifecycle", GSM+": fire")],
 [("eventQueue", "accepted, not yet started events", DES), ("pool", "recycled event holders", POOL)],
 ["StateMachine.fire", "all callbacks"])

prop("C05", "Events are processed in the order they were received",
 "If firing one event returned before the firing of another began, the first is processed before the second, whichever threads fired them; in particular each thread's events are processed in the order that thread fired them. Events fired from an action or handler are processed after the event being processed and after everything that was already waiting.",
 ["schedules", "histories"],
 "all interleavings and bursts, through the default and user-supplied single-threaded executors",
 "Order across threads is only implied in tests where one thread fires; no test records fire intervals and compares them with processing order.",
 [DES, GSM], [("FIFO queue and single consumer", DES+": processEvent")], [("eventQueue", "FIFO of waiting events", DES)],
 ["StateMachine.fire", "StateMachineListener"])

prop("C06", "A machine that reached its end stays ended",
 "A machine ends when an event configured to end it is processed (after the exit actions of the state it leaves), or once the transition into a state configured to end, the initial state included, is complete. From then on it is ended for good in every schedule: it reports itself as started and ended and its current state as the end state, runs no further action or listener call, discards events still waiting, and reports every later fire exactly once to the unexpected-flow listener as coming after the end.",
 ["schedules", "histories", "programs"],
 "all ways of ending (by event, by state, during the start itself), all schedules of the ending against the starting thread and firing threads",
 "The tests end a machine from a quiet state on one thread; the ending that races the end of start() made an excluded test flaky and no stable test covers it.",
 [GSM, TT, DES], [("end detection", TT+": execute"), ("ended flag and state", GSM+": updateCurrentState/start"), ("after-end routing", GSM+": fire")],
 [("isEnded", "set when the end state is reached", GSM), ("currentState", "end state from then on", GSM)],
 ["StateMachine.isEnded/getCurrentState", "UnexpectedFlowListener.onEventAfterMachineEnd"])

prop("C07", "stop() ends a running machine at once and for good, from any thread",
 "When stop() is called on a running machine from any thread, or from inside an action, it returns without waiting for the event in progress, and from its return on the machine is always seen as ended and in the end state. At most the one event already in progress may still make callbacks: no other waiting event is processed and the state never changes again. Events fired afterwards are reported as coming after the end, and repeated or concurrent stops change nothing.",
 ["schedules"],
 "all interleavings of stop() with firing threads, with the event in progress at any point of its transition, and with other stops",
 "The only stable test calls stop() on a machine that was never started; none stops one in the middle of a transition.",
 [GSM, TT, DES], [("stop", GSM+": stop/updateCurrentState"), ("skip when ended", DES+": processEvent"), ("no state update after the end", GSM+": updateCurrentState")],
 [("isEnded/currentState", "must change together", GSM)], ["StateMachine.stop/isEnded/getCurrentState", "all callbacks"])

prop("C08", "A machine starts exactly once; events fired before that are only reported",
 "Of any number of start and start-in-state calls, from any threads, at most one succeeds and all others throw IllegalStateException without effect; starting runs the initial state's entry actions and announces the transition once, while starting in a given configured state runs no action and no listener call. Events fired before the start are reported exactly once each as coming before the start and are never processed. Starting is refused with IllegalStateException, leaving the machine unstarted, when there is no initial state, when some configured event has no outcome, or when the given state is not configured or is reserved.",
 ["schedules", "inputs", "histories"],
 "all interleavings of concurrent starts and fires; all configurations and starting states",
 "The tests start twice sequentially on one thread; concurrency of starts with each other and with fires is not exercised.",
 [GSM, B+"UnexpectedFlowListener.java"], [("one-shot start flag", GSM+": start/startInState"), ("before-start routing", GSM+": fire"), ("validation", GSM+": start")],
 [("isStarted", "one-shot flag", GSM)], ["StateMachine.start/startInState/isStarted/getCurrentState", "UnexpectedFlowListener.onEventBeforeMachineStart"])

prop("C09", "An exception in a callback is reported once and never stalls the machine",
 "When an action, listener or unmapped-event handler throws an Exception while an event is processed, the unexpected-flow listener gets exactly one report with that event, that machine, the processing thread and the exception itself, and the remaining steps of that event are skipped. The machine is left in the old state if the failure came before the state changed and in the new one if it came after. All other events are still processed exactly once and in order, even if an Error was thrown or the unexpected-flow listener itself throws.",
 ["fault_sequences", "programs"],
 "a throw of any exception type at any callback of any event in any history, several in a row, and throwing handlers",
 "One stable test throws from a mocked machine; throws from real actions, listeners, handlers, and what happens to later events, are not covered.",
 [DES, TT], [("catch, report, recycle", DES+": processEvent"), ("state change between exit and entry actions", TT+": execute")],
 [("currentState", "old or new state after a failure", GSM)], ["UnexpectedFlowListener.onExceptionDuringEventProcessing", "all callbacks"])

prop("C10", "Each event is processed with the payload it had when it was fired",
 "The actions, listeners and handlers called for a fired event see the payload (the very object) and the name that event had at the moment it was fired, even if the sender sets another payload on the same event instance or fires that instance again, from any thread, before the earlier fire is processed. Payloads never leak from one event to another.",
 ["schedules", "histories", "inputs"],
 "all histories of setPayload and fire on shared or separate library (named) event instances, all delays between firing and processing, any payload values",
 "One test in an excluded class reuses one event instance from one thread with a handful of payloads.",
 [DES, NSE, POOL, PAIR], [("safe copy at fire", DES+": processEvent"), ("holder recycling", POOL)],
 [("payload", "mutable on the event", NSE)], ["StateAction", "StateMachineListener", "unmapped-event handler", "UnexpectedFlowListener"])

prop("C11", "A bounded queue never holds more than its maximum and refuses only when full",
 "With a positive maximum queue size, at no time do more events wait than the maximum, however many threads fire; an event is refused only if the queue was full at some moment of that fire. Each refused event is never processed and is reported exactly once, on the firing thread, as an IllegalStateException through the unexpected-flow listener; each accepted event is processed. With a maximum that is zero or negative no event is ever refused; an event that a user-supplied queue declines to take is reported the same way rather than silently dropped.",
 ["schedules", "inputs", "configurations"],
 "all maxima, numbers of firing threads and interleavings of their size check with each other and with the consumer",
 "One test with a maximum of 1 and one firing thread, on mocks.",
 [DES, FAC], [("size check and enqueue", DES+": processEvent")], [("maxQueueSize", "bound", DES), ("eventQueue", "waiting events", DES)],
 ["UnexpectedFlowListener.onExceptionDuringEventProcessing", "StateMachine.getEventQueueSize"])

prop("C12", "The drop-duplicates strategy drops an event iff an equal one is waiting",
 "With the drop-duplicates strategy there are never two equal events (same name) waiting, however many threads fire. An event is dropped only if an equal one was waiting at some moment of that fire, and an event that is being processed does not count as waiting; every other event is processed exactly once and in order, and dropping is never reported as an error.",
 ["schedules", "histories"],
 "all interleavings of firing threads and the consumer, any number of distinct events, payloads that differ between equal events",
 "One test with a mocked inner strategy and a queue filled by hand; concurrency and the boundary between waiting and being processed are not covered.",
 [DDS, DES], [("look for an equal event, then hand over", DDS+": processEvent"), ("dequeue before processing", DES+": processEvent")],
 [("eventQueue", "waiting events", DES)], ["all callbacks"])

prop("C13", "Separately built machines do not influence each other",
 "Machines built separately (from one builder or many, with the default strategy or with strategies created separately, also from one configuration object on which no queue was set) behave as if each were alone. Events fired at one are processed only by that one, against its own table, state and context; its queue size counts only its own events; and ending, stopping, starting or failing one has no effect on the others.",
 ["configurations", "schedules", "histories"],
 "all numbers of machines, ways of building them, overlapping names and tables, and interleavings of their events",
 "The only test about independence asserts that two strategy objects are not the same object.",
 [GSM, FAC, DES], [("strategy per machine", GSM+": Builder.build"), ("queue and executor defaults", FAC+": Config")],
 [("eventQueue/executor defaults", "created per strategy or shared", FAC)], ["all callbacks", "StateMachine.getEventQueueSize/getContext"])

prop("C14", "The queue size counts exactly the events that have not completed processing",
 "The queue size that a machine reports is the number of accepted events whose processing has not completed, the one in progress included. So it is never negative, never exceeds what was accepted, and reads 0 only when every event accepted before the read has been completely processed (or discarded because the machine ended); failing events and ended machines bring it back to 0 as well.",
 ["schedules", "histories"],
 "all interleavings of reads with firing and processing, all positions of the event in progress, failing callbacks, ends",
 "The tests poll for 0 and then sleep 100 ms 'to be sure', which is the gap this property closes.",
 [DES, GSM, DDS, B+"strategy/EventProcessingStrategy.java"], [("count of pending events", DES+": getEventQueueSize/processEvent")],
 [("pending", "accepted and not completed", DES)], ["StateMachine.getEventQueueSize"])

prop("C15", "Configuration calls are accepted or rejected by the rules, never half-applied",
 "For every sequence of configuration calls, a call that breaks the rules (reserved state or event names; no initial state or a second one; configuring a state before the previous one has an outcome; an outcome without a state or event; a second outcome for the same state and event; ending at once in a state that has mappings) throws IllegalStateException and leaves the mappings made so far as they were; every other call is accepted. The machine that results behaves exactly as the accepted calls say.",
 ["programs", "inputs"],
 "all finite sequences of configuration calls over any names, including retries after a rejection",
 "One test walks a single hand-written sequence; the space of call sequences is unbounded and a second mapping of the same event is never tried.",
 [GSM], [("assertions in the fluent API", GSM+": assert*"), ("mapping updates", GSM+": receives/itTransitionsTo/itDoesNotTransition/itEnds")],
 [("markedState/markedEvent", "cursor of the fluent API", GSM), ("states", "mappings", GSM)], ["IllegalStateException", "behaviour after start"])

prop("C16", "The multi-consumer listener tells every registered listener, exactly once",
 "Every listener that is registered throughout a notification receives it exactly once with the same from state, event and to state, whatever the other listeners do: throwing, adding or removing listeners, or being slow. A listener whose removal returned before a notification began is not called; adding returns true iff it was not registered and removing returns true iff it was, consistently under concurrent use, and both take effect for notifications that begin after they return.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of add, remove and notifications from any threads; any number of listeners; any subset of them throwing",
 "The tests add one or two well-behaved listeners on one thread.",
 [MCL], [("concurrent map of consumers", MCL)], [("consumers", "registered listeners", MCL)], ["StateMachineListener", "add/remove return values"])

prop("C17", "An app starts its subsystems in order and stops them in reverse, once per cycle",
 "Whenever an app is started or restarted, each of its subsystems is started exactly once, in the given order, with the app's context, and the app becomes STARTED only after all of them have started; whenever a started app is stopped, each is stopped exactly once in the reverse order before the app becomes STOPPED. Starts and stops run one at a time on the app's named state-machine thread, and the lifecycle reported to the listener only ever follows the documented transitions, for any number of subsystems (one given several times counts each time) and of stop/restart cycles.",
 ["histories", "schedules", "configurations"],
 "all numbers of subsystems and lifecycle scripts (start, stop, restart, concurrent calls) in both exit modes",
 "The tests run one cycle (or two) with two mocked subsystems.",
 [APP, CTX, LCU], [("starting and stopping actions", APP+": configureAppStateMachine"), ("lifecycle table", LCU+": configureAppStateMachine")],
 [("lifecycle state", "state of the app's machine", APP)], ["Subsystem.start/stop", "StateMachineListener", "getLifecycleState"])

prop("C18", "App start() blocks until the app is done; calls in the wrong state are rejected",
 "The first start() of an app blocks its caller until the app has stopped (exit-on-stop mode) or has received a stop while STOPPED (restartable mode), and then returns normally in every schedule; a restart from STOPPED returns at once; interrupting the blocked caller of a STARTED app stops the app, and start() returns with the interrupt flag set. A start() or stop() that the app's state does not permit throws IllegalStateException, fires nothing and leaves the lifecycle as it was; stop() on an app that already stopped in exit-on-stop mode is a no-op until the app has ended.",
 ["schedules", "histories"],
 "all scripts of start, stop, error and interrupts from any threads in both modes, and all schedules of the exit against the blocked caller",
 "The tests start the app on a background thread and never check that start() returns, nor when.",
 [APP], [("blocking latch", APP+": start"), ("state checks", APP+": start/stop")], [("appLatch", "released when the app is done", APP)],
 ["AppService.start/stop", "getLifecycleState"])

prop("C19", "A failing subsystem or an error takes the app to STOPPED and no further",
 "If a subsystem throws an Exception while starting, no later subsystem is started, and the app goes to STOPPED without becoming STARTED; if one throws while stopping, the app still goes to STOPPED and the subsystems after it in stopping order are not called. error() on a STARTED app takes it to STOPPED, also from any other thread or while starting or stopping; in exit-on-stop mode the app then ends and start() returns, and in restartable mode it can be started again with all subsystems started anew. A call of error() never fails.",
 ["fault_sequences", "histories", "schedules"],
 "any subsystem failing in any start or stop of any cycle, error() at any moment, in both modes",
 "One test calls error() once on an app without subsystems; no test has a failing subsystem.",
 [APP, LCU, HEA], [("exception handler around lifecycle actions", APP+": configureAppStateMachine"), ("error transitions", LCU+": configureAppStateMachine")],
 [("lifecycle state", "state of the app's machine", APP)], ["Subsystem.start/stop", "StateMachineListener", "getLifecycleState"])

prop("C20", "Processed events and abandoned machines are not retained",
 "Once an event has been processed, refused, dropped or discarded and the machine is idle, the library holds no reference to that event's payload, whatever the outcome (exceptions included) and however long the backlog was. A machine that the program no longer references becomes reclaimable together with its context, and repeated bursts of events do not make the library's own memory grow beyond the largest backlog.",
 ["histories", "schedules"],
 "all histories of bursts, outcomes and reuse of event holders",
 "No test looks at reachability; the object pool's tests only check that objects are reused.",
 [POOL, PAIR, DES, FAC], [("holders are reset when recycled", POOL+": give"), ("recycle in every path", DES+": processEvent")],
 [("pool", "recycled event holders", POOL)], ["weak references to payloads, contexts and machines after garbage collection"])

prop("C21", "Library threads are daemons, carry the configured name and survive failures",
 "Every thread that the library creates is a daemon thread, so that no machine keeps the process alive, and is named with the configured (or default) name followed by a number that no two such threads share. All events of a machine with a built-in executor are processed on such a thread, never on the firing thread, and after a callback killed that thread with an Error, processing goes on on another thread with the same properties while the failure is passed to the uncaught-exception handler.",
 ["schedules", "fault_sequences", "configurations"],
 "all thread names, numbers of machines and factories used concurrently, and errors at any event",
 "The tests check the name pattern of one thread and one handler call; daemon status, uniqueness and survival are not checked.",
 [THR, FAC, APP], [("thread factory", THR+": newThread"), ("default executor", FAC+": getExecutor")], [("threadNumber", "numbering of threads", THR)],
 ["Thread.currentThread() in callbacks", "ThreadFactory"])

prop("C22", "States and events are identified by their name alone",
 "Two library states (or two library events) are equal, with equal hash codes, iff their names are equal, whatever actions or payloads they carry and however these change, and a state never equals an event. A machine configured with one instance reacts identically when fired with any other instance of the same name, with or without payload, copied or not; distinct names, however similar (case, blanks, Unicode forms, equal hash codes, empty), are never confused.",
 ["inputs", "programs"],
 "all names, payloads, actions and copies",
 "The tests compare three fixed names and never fire through a machine with similar names.",
 [NS, NSE, TT, DES], [("equals and hashCode by name", NS), ("equals and hashCode by name", NSE), ("copy constructor", NSE)], [("name", "identity", NSE)],
 ["equals/hashCode", "behaviour of a configured machine"])

prop("C23", "The logging listener writes exactly one faithful line per notification",
 "For every notification the logging listener writes exactly one INFO line: at the begin with the from state's, event's and to state's names, at the end with the to state's name, prefixed with the listener's name iff that is non-empty, with all names verbatim whatever characters they contain. It never throws for any names, and so never disturbs a transition; the built-in handlers for unmapped events, early and late events and uncaught exceptions likewise log each occurrence exactly once, naming the event.",
 ["inputs", "histories"],
 "all names (also ones that look like log patterns or formats), all notification sequences, used directly and through a machine",
 "The tests log two fixed names once.",
 [LSL, DUF, FAC], [("log templates", LSL+": logChange"), ("default handlers", DUF)], [], ["log events"])

prop("C24", "HandleExceptionAction routes exceptions to its handler and nothing else",
 "A wrapped action is executed exactly once per execution of the wrapper, with the same event and machine; if it throws any Exception, the handler is called exactly once with that event, that machine and that very exception and the wrapper returns normally, so that remaining actions and the transition go on. If it does not throw, the handler is not called; Errors, and exceptions thrown by the handler itself, propagate unchanged.",
 ["inputs", "fault_sequences", "programs"],
 "all exception types (checked ones thrown sneakily included), nestings of wrappers, positions among other actions, threads",
 "Two tests with one mocked exception, outside any machine.",
 [HEA, TT], [("try/catch around the action", HEA+": execute")], [], ["ExceptionHandler.onException", "StateAction"])

prop("C25", "A machine can be observed and re-equipped from any thread at any time",
 "Without any synchronisation by the user, any thread may read the machine's state, flags and queue size and set its listener at any time, and always sees coherent and current values: the current state is always one the machine really was in at some moment of the read, never a state older than one already announced to that thread; started and ended never go back; a machine seen as ended is seen in its end state. A listener set from another thread gets every notification that begins after the call, and the library's own state is free of data races under concurrent firing, starting, stopping and observing.",
 ["schedules"],
 "all interleavings of observers with the processing, starting and stopping threads",
 "The tests read state after sleeping; visibility and data races depend on the schedule and the memory model.",
 [GSM, DES, TT, PAIR, APP], [("published state", GSM+": currentState/isEnded/isStarted/stateMachineListener"), ("queue hand-off", DES)],
 [("currentState", "read by any thread", GSM), ("stateMachineListener", "set by any thread", GSM)], ["getCurrentState/isStarted/isEnded/getEventQueueSize", "field accesses of the library's classes"])

prop("C26", "A machine works with any event processing strategy it is given",
 "A strategy supplied by the user is handed the configured transitions before any event, and then every event that is fired while the machine runs: exactly once, on the firing thread before fire() returns, as the very instance and with the very machine. Events fired before the start or after the end are not handed over but reported to that strategy's own listener for unexpected flow, and the machine's queue size is the strategy's. A strategy in front of one of the library's own that drops, delays, reorders or adds events makes the machine behave as if just the events that were let through had been fired in that order, and one that makes the transitions itself with the machine's public operations yields the same states, callbacks, notifications and end.",
 ["programs", "histories", "schedules"],
 "all tables, strategies, numbers of firing threads and histories",
 "One integration test has a custom strategy with a fixed history; the other tests mock the strategy.",
 [GSM, DES, DDS, FAC], [("hand-over of events", GSM+": fire"), ("hand-over of the transitions", GSM+": start"), ("strategy interface", "src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategy.java")], [],
 ["EventProcessingStrategy.processEvent/setStates", "UnexpectedFlowListener", "getEventQueueSize", "callbacks"])

prop("C27", "The lifecycle utility makes exactly the documented lifecycle",
 "A machine that is configured by LifecycleStateMachineUtil makes exactly the transitions of the documented table (start, complete, stop and error among UNINITIALISED, STARTING, STARTED, STOPPING and STOPPED, and the end on stop in STOPPED) and no others, whatever history of events it receives, lifecycle events or not, from however many threads, and from whichever of its states it is started. The states made by the utility carry the documented names and run the given entry actions in the given order, and states of the user's own can take their places; machines configured this way do not affect each other.",
 ["histories", "schedules"],
 "all histories of events, numbers of entry actions and threads",
 "Tests walk a few paths of the table; all others, and what is not in the table, are untested.",
 [LCU, TT, GSM], [("lifecycle table", LCU+": configureAppStateMachine"), ("lifecycle states", LCU+": newState")], [],
 ["callbacks", "getCurrentState", "unmapped-event handler"])

prop("C28", "Machines that use each other in their callbacks never block each other",
 "Any callback of one machine (actions, listeners, handlers of unmapped events and of unexpected flow) may fire at, start, stop, observe or re-equip any other machine, its own included, while other threads and machines do the same in any other order: no set of machines, with bounded or unbounded, full or empty queues and any of the library's strategies, ever waits for each other so that threads stay blocked in the library for ever.",
 ["schedules", "configurations", "programs"],
 "all groups of machines, directions of use, queue bounds and interleavings",
 "Tests use single machines; a deadlock needs two machines, opposite directions and a particular interleaving.",
 [GSM, DDS, DES, TT], [("monitor of a machine", TT+": execute"), ("lock of the duplicate check", DDS+": processEvent"), ("lock of the bounded queue", DES+": enqueue")], [],
 ["thread states and lock owners", "callbacks"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
