#!/usr/bin/env python3
"""The properties and the checks, in one place: writes properties.jsonl and MANIFEST.json"""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "crates/rx_core_"
CM = K + "common/src/"

PROPS = []


def p(pid, title, statement, over, quant, why, files, mech, state=(), observe=()):
    PROPS.append((pid, title, statement, over, quant, why, files, mech, state, observe))


p("C01", "An error reaches the end observer, once, with its own value",
  "An error sent into any chain of operators, subjects, multicasts and flattening subscribers reaches the end observer exactly once and carries the value it was raised with (or what an error-mapping operator made of it), unless an operator that is documented to handle errors handles it. "
  "Errors are neither swallowed nor replaced by a completion or an unsubscribe, and errors of inner and input observables are forwarded the same way.",
  ["programs", "histories"], "every pipeline built from the crates, every position and moment at which an error is raised",
  "Each operator test raises an error at one or two moments of one pipeline; branches such as an error raised while something is pending, deferred or queued are not sampled.",
  ["crates/rx_core_operator_*/src", K + "subscriber_higher_order*/src", CM + "subscribers", K + "subject_*/src"],
  [("error() of every observer implementation", "crates/*/src/*subscriber*.rs"), ("deferred errors", CM + "subscribers/subscriber_shared.rs"),
   ("errors of inner observables", K + "subscriber_higher_order/src/higher_order_subscriber_inner.rs")])
p("C02", "Completion is propagated when, and only when, nothing more can come",
  "Completion travels through every operator to the end observer: immediately when nothing more can be emitted, and otherwise exactly when the last pending value, inner observable or scheduled emission is finished. "
  "It is never lost, never sent twice, and never sent ahead of values that are still due.",
  ["programs", "histories", "schedules"], "every pipeline and every order in which upstream completion and pending work can end",
  "Tests complete at one or two chosen moments; whether every path that ends the last pending thing also completes is a statement about all paths.",
  ["crates/rx_core_operator_*/src", "crates/rx_core_observable_*/src", K + "subscriber_higher_order*/src"],
  [("complete() of every observer implementation", "crates/*/src/*subscriber*.rs"), ("who may complete downstream", K + "subscriber_higher_order/src/higher_order_subscriber_state.rs"),
   ("completion of drained queues", K + "notification_store/src")])
p("C03", "Transforming operators emit exactly what their function decides, in order",
  "Operators that map, filter, fold, tap, materialize or otherwise transform values emit for every upstream value exactly what their documented function makes of it, in upstream order, calling user functions once per value and with the right argument. "
  "Errors and completions they do not own pass through unchanged.",
  ["inputs", "histories"], "every sequence of values, errors and completion fed to a transforming operator",
  "Tests feed one short sequence per operator.",
  [K + "operator_map/src", K + "operator_filter/src", K + "operator_scan/src", K + "operator_tap/src", K + "operator_materialize/src", K + "operator_lift_result/src"],
  [("next() of the operator's subscriber", "crates/rx_core_operator_*/src/*_subscriber.rs")])
p("C04", "Nothing is emitted after a terminal signal or after closing",
  "Once an observer received an error or a completion, or was unsubscribed, it receives no further next, error or complete. "
  "An operator that emits more than one signal in reaction to one stimulus looks again at whether its destination is still open before each further signal.",
  ["histories", "schedules"], "every sequence of signals, including signals sent from inside a handler of an earlier signal",
  "The contract harness sends signals after closing one operator at a time; reactions that emit twice only fail when the first emission closes the destination.",
  [CM + "subscribers/subscriber_observer.rs", CM + "subscribers/subscriber_shared.rs", K + "operator_take/src", K + "observable_combine_latest/src", K + "subject_publish/src"],
  [("closed guard of the end observer", CM + "subscribers/subscriber_observer.rs"), ("closed re-check before a second signal", "crates/*/src/*subscriber*.rs"),
   ("dropped deferred notifications", CM + "subscribers/subscriber_shared.rs")])
p("C05", "is_closed tells the truth and never goes back to open",
  "A subscriber, subscription or subject reports closed from the moment it errored, completed or was unsubscribed, or its destination closed, and never reports open again after that. "
  "It does not report closed while it can still emit.",
  ["histories"], "every history of signals after which is_closed can be asked, including asking from inside a handler",
  "Tests ask at the end of a scenario; the property is about every moment of every scenario.",
  ["crates/*/src/*subscriber*.rs", "crates/*/src/*subscription*.rs", CM + "subscriptions/subscription_closed_flag.rs", CM + "subscribers/subscriber_state.rs"],
  [("is_closed()", "crates/*/src"), ("closed flag", CM + "subscriptions/subscription_closed_flag.rs")],
  [("closed flag", "set once, never cleared", CM + "subscriptions/subscription_closed_flag.rs")])
p("C06", "Unsubscribing or dropping a subscription reaches every owned resource",
  "Unsubscribing a subscription (or dropping it, where dropping unsubscribes) unsubscribes everything it owns: upstream sources, inner subscriptions, input observables and the downstream subscriber. "
  "It does so at most once per owned thing and leaves shared things that others still use alone.",
  ["histories"], "every subscription kind, every moment of its life, every nesting",
  "Tests unsubscribe at one moment; a resource created later, or owned by only one branch, is not sampled.",
  ["crates/*/src/*subscription*.rs", "crates/*/src/*subscriber*.rs"],
  [("unsubscribe() and Drop", "crates/*/src"), ("derived delegation", K + "macro_subscriber_derive/src")])
p("C07", "A teardown runs exactly once and is never lost",
  "A teardown added to an open subscription runs exactly once, when that subscription closes by any route (unsubscribe, completion, error or drop); a teardown added after closing runs immediately. "
  "Teardowns added through a wrapper, a shared handle or an operator end up on a subscription that really closes.",
  ["histories"], "every order of adding teardowns and closing, through every wrapper",
  "Tests add one teardown before closing; late adds, drops and wrappers that forward to the wrong owner are other histories.",
  [CM + "subscriptions/subscription_data.rs", CM + "subscriptions/teardown.rs", CM + "subscriptions/subscription_shared.rs", K + "macro_subscriber_derive/src"],
  [("teardown storage", CM + "subscriptions/subscription_data.rs"), ("teardown execution", CM + "subscriptions/teardown.rs"), ("add_teardown() delegation", "crates/*/src")],
  [("teardowns", "pending finalizers of an open subscription", CM + "subscriptions/subscription_data.rs")])
p("C08", "A source stops emitting as soon as its destination is closed",
  "A synchronous source (iterator, just, replayed values, initial values, start values) looks at its destination before each emission and stops, without completing, once that is closed. "
  "Everything it had to emit to an open destination is emitted, in order.",
  ["inputs", "histories"], "every number of values and every point at which the downstream closes",
  "Tests use take(n) with one n.",
  [K + "observable_iterator/src", K + "observable_just/src", K + "subject_replay/src", K + "subject_behavior/src", K + "operator_start_with/src"],
  [("emission loop", K + "observable_iterator/src/iterator_observable.rs"), ("replay loop", K + "subject_replay/src/replay_subject.rs")])
p("C09", "Scheduled work does not outlive its subscription",
  "Whenever a subscription that scheduled work closes, by unsubscribe, drop, completion, error or an early closing downstream, its scheduled and invoked work is cancelled or ends at its next turn without emitting. "
  "Cancelling one subscription's work never touches another's.",
  ["schedules", "histories"], "every moment between scheduling and running at which the subscription can close",
  "The harness checks an empty executor after one scenario; each route and moment of closing is a separate history.",
  [K + "operator_delay/src", K + "operator_debounce_time/src", K + "operator_throttle_time/src", K + "operator_observe_on/src", K + "operator_fallback_when_silent/src", K + "observable_interval/src", K + "observable_timer/src", CM + "subscriptions/teardown.rs"],
  [("cancellation teardown", CM + "subscriptions/teardown.rs"), ("constructors that register it", "crates/rx_core_operator_*/src/*_subscriber.rs")])
p("C10", "No foreign code runs while an internal lock is held",
  "Observers, teardowns, user functions and other objects' subscribe or unsubscribe are never called while an internal lock is held that the called code could need again through the same object's public API. "
  "So a handler may use the subject, subscription or observable it was called from without a deadlock.",
  ["programs", "schedules"], "every handler, teardown or user function that calls back into the object that called it",
  "A deadlock only shows with a handler that re-enters at the right place; tests re-enter at a few.",
  [K + "subject_*/src", K + "observable_connectable/src", CM + "subscribers", CM + "subscriptions", K + "operator_throttle_time/src", K + "subscriber_higher_order_concurrent/src", K + "scheduler_ticking/src"],
  [("locks are released before calling out", "crates/*/src"), ("take out of the lock, then unsubscribe", K + "observable_connectable/src/connectable_observable.rs")])
p("C11", "Re-entrant signals are deferred, in order, and none is lost",
  "A signal sent to a shared subscriber, subscription or subject while it is busy delivering another is queued and delivered afterwards in the order it was sent; what follows a closing signal is dropped. "
  "Nothing sent while open is lost or duplicated, and a notification turned back into a call makes the call it stands for.",
  ["histories", "schedules"], "every nesting of signals sent from inside handlers",
  "Tests nest one level with one or two signals.",
  [CM + "subscribers/subscriber_shared.rs", CM + "subscriptions/subscription_shared.rs", CM + "signals", K + "notification_store/src"],
  [("deferred queue", CM + "subscribers/subscriber_shared.rs"), ("notification replay", CM + "signals/notification_subscriber.rs")],
  [("deferred notifications", "signals received while busy", CM + "subscribers/subscriber_shared.rs")])
p("C12", "A panic in user code does not poison the rest of the system",
  "After a user function panicked while something was locked, every other operation on the same objects still works as documented: shared subscribers unsubscribe the poisoned destination, and state, schedulers and subscriptions stay usable. "
  "No operation panics only because a lock is poisoned.",
  ["fault_sequences"], "every lock that can be poisoned, in every operation that takes it afterwards",
  "Tests poison two or three locks; there are over a hundred operations that take one.",
  [CM + "subscribers/lock_with_poison_behavior.rs", CM + "subscribers/subscriber_shared.rs", CM + "subscribers/subscriber_arc_mutex.rs", CM + "subscriptions/subscription_shared.rs", CM + "scheduling/scheduler_handle.rs"],
  [("poison policy", CM + "subscribers/lock_with_poison_behavior.rs")])
p("C13", "The executor runs every live work in order and no cancelled one",
  "Every tick runs each scheduled work that was not cancelled exactly once, in the order it was scheduled, keeps the ones that are pending and drops the finished ones; cancelled or finished work never runs again. "
  "Work scheduled, invoked or cancelled from inside a running work takes effect within the documented tick, and handles and identifiers are never mixed up.",
  ["schedules", "histories"], "every interleaving of scheduling, invoking, cancelling and ticking, including from inside running work",
  "Tests run a handful of orders of these operations.",
  [K + "scheduler_ticking/src/ticking_executor.rs", K + "scheduler_ticking/src/ticking_scheduler.rs", "crates/rx_bevy_common/src/scheduler", CM + "scheduling"],
  [("tick loop", K + "scheduler_ticking/src/ticking_executor.rs"), ("action queue", K + "scheduler_ticking/src/ticking_scheduler.rs")],
  [("scheduled work queue", "works that are still due", K + "scheduler_ticking/src/ticking_executor.rs")])
p("C14", "Timed work fires when its time has come, never early",
  "Delayed work runs once at the first tick at or after its delay, repeated work once per interval that passed (and once per tick when the interval is zero), continuous work on every tick, invoked work when it is invoked, immediate work at once. "
  "The clock a work sees only moves forward and is the clock of the tick that runs it.",
  ["inputs", "schedules"], "every delay, interval, tick length and maximum repeat count",
  "Tests use a few round durations.",
  [K + "scheduler_ticking/src/work", K + "scheduler_ticking/src/tick.rs"],
  [("work tick functions", K + "scheduler_ticking/src/work"), ("tick arithmetic", K + "scheduler_ticking/src/tick.rs")])
p("C15", "A publish subject delivers each signal once to each current subscriber",
  "Every subscriber present when a signal is sent gets it once, and each of them gets the signals in the order they were sent; subscribing, unsubscribing or sending from inside a handler neither skips nor duplicates deliveries to others. "
  "After an error or completion every subscriber got it, once, and nothing after it; after an unsubscribe all are closed and removed; a late subscriber gets the terminal signal or is unsubscribed. Who leaves is removed, and only they are.",
  ["histories", "schedules"], "every interleaving of subscribe, unsubscribe and signals, nested or not",
  "Tests try a few interleavings with two or three subscribers.",
  [K + "subject_publish/src/publish_subject.rs", K + "subject_publish/src/multicast.rs", K + "subject_publish/src/multicast_subscription.rs"],
  [("multicast and its deferred queue", K + "subject_publish/src/multicast.rs")],
  [("subscribers", "who gets the next signal", K + "subject_publish/src/multicast.rs")])
p("C16", "Late subscribers get exactly what the subject promises",
  "A behavior subject gives a new subscriber its latest value, a replay subject its last n values in order, an async subject its final value on completion, a provenance subject only what its filter admits; then the terminal signal, if there was one. "
  "Values sent after the subject closed are not remembered, and value accessors agree with what a subscriber would get.",
  ["histories", "inputs"], "every history of values, terminal signals and subscription moments",
  "Tests subscribe at a few moments.",
  [K + "subject_behavior/src", K + "subject_replay/src", K + "subject_async/src", K + "subject_provenance/src"],
  [("latched values", K + "subject_*/src/*_subject.rs")])
p("C17", "Flattening completes exactly when upstream and all inners are done",
  "A flattening operator completes downstream when the outer source and every inner observable, running or queued, is finished, and not before; an outer or inner error ends it at once and stops the others. "
  "A cancelled outer or inner source is not mistaken for a completed one.",
  ["histories"], "every order in which outer and inner observables emit, complete, error or are unsubscribed",
  "Tests cover a few orders with two inners.",
  [K + "subscriber_higher_order/src", K + "subscriber_higher_order_concurrent/src", K + "subscriber_higher_order_switch/src", K + "subscriber_higher_order_exhaust/src", K + "subscriber_higher_order_all/src", K + "subscriber_higher_order_map/src"],
  [("shared completion state", K + "subscriber_higher_order/src/higher_order_subscriber_state.rs"), ("inner signals", K + "subscriber_higher_order/src/higher_order_subscriber_inner.rs")],
  [("upstream and inner state", "what is still running", K + "subscriber_higher_order/src/higher_order_subscriber_state.rs")])
p("C18", "Merge, concat, switch and exhaust follow their own strategy",
  "Merge runs at most the given number of inner observables at once and queues the rest in order, concat one at a time in order, switch cancels the running one for the newest, exhaust ignores new ones while one runs. "
  "Each admitted inner observable is subscribed exactly once, and unsubscribing the result unsubscribes all running ones and drops the queued ones.",
  ["histories", "configurations"], "every concurrency limit and every order of arrivals and endings of inner observables, synchronous or not",
  "Tests use limits 1 and 2 with asynchronous inners.",
  [K + "subscriber_higher_order_concurrent/src", K + "subscriber_higher_order_switch/src", K + "subscriber_higher_order_exhaust/src", K + "operator_merge_all/src", K + "operator_concat_all/src", K + "operator_switch_all/src", K + "operator_exhaust_all/src", K + "observable_merge/src", K + "observable_concat/src"],
  [("admission and queue", K + "subscriber_higher_order_concurrent/src/concurrent_subscriber.rs"), ("switching", K + "subscriber_higher_order_switch/src/switch_subscriber.rs"), ("exhausting", K + "subscriber_higher_order_exhaust/src/exhaust_subscriber.rs")])
p("C19", "Combining observables pair the right values and end at the right time",
  "Zip pairs values by position within its queue limits, join emits the last values when all completed, combine_latest and combine_changes emit on every change once all have a value (or with the change marked), with_latest_from samples the other input. "
  "They complete as soon as no further combination is possible, and an error or unsubscribe of one input ends the others.",
  ["histories"], "every interleaving of values, completions, errors and unsubscribes of the inputs",
  "Tests cover a few interleavings of two inputs.",
  [K + "observable_zip/src", K + "observable_join/src", K + "observable_combine_latest/src", K + "observable_combine_changes/src", K + "operator_with_latest_from/src", K + "notification_variadics/src", K + "notification_store/src"],
  [("input bookkeeping", K + "notification_store/src"), ("combination on next", "crates/rx_core_observable_*/src/*_subscriber.rs")])
p("C20", "Error handling operators recover as configured and never silently",
  "Catch switches to the fallback observable with the error it caught and only once, retry resubscribes at most as often as configured and then lets the error through, materialize/dematerialize and result conversions lose nothing. "
  "While recovering, the failed attempt is torn down and a closed destination stops further attempts.",
  ["histories", "configurations"], "every number of failures, synchronous or not, every retry limit, and closing in between",
  "Tests use one or two failures.",
  [K + "operator_catch/src", K + "operator_retry/src", K + "operator_materialize/src", K + "operator_dematerialize/src", K + "operator_into_result/src", K + "operator_lift_result/src", K + "operator_map_error/src"],
  [("resubscription", K + "operator_retry/src"), ("fallback", K + "operator_catch/src")])
p("C21", "A shared connection is made once and released when it should be",
  "A connectable subscribes to its source once per connection, shares it among all subscribers, and disconnects or resets exactly when asked, or when configured to on the last unsubscribe, completion or error. "
  "Share connects with the first subscriber, and a later subscriber after a reset gets a fresh connection.",
  ["histories", "configurations"], "every interleaving of connect, disconnect, reset, subscribe, unsubscribe and source endings under every option set",
  "Tests cover one scenario per option.",
  [K + "observable_connectable/src", K + "operator_share/src"],
  [("connector state", K + "observable_connectable/src/internal/connector_state.rs"), ("reference count", K + "observable_connectable/src/internal/connection_state.rs")],
  [("subscriber count", "open subscriptions of the connectable", K + "observable_connectable/src/internal/connection_state.rs")])
p("C22", "Time operators keep order and timing and lose nothing they owe",
  "Delay, debounce, throttle, observe_on, fallback, interval, timer and the on-tick iterator emit each value they owe once, at the due tick and in order, drop only what their definition drops, and complete after their last owed value. "
  "An error overtakes pending values only where documented.",
  ["schedules", "inputs"], "every timing of values and ticks and every option combination",
  "Tests tick in a few fixed steps.",
  [K + "operator_delay/src", K + "operator_debounce_time/src", K + "operator_throttle_time/src", K + "operator_observe_on/src", K + "operator_subscribe_on/src", K + "operator_fallback_when_silent/src", K + "operator_adsr/src", K + "observable_interval/src", K + "observable_timer/src", K + "observable_iterator_on_tick/src"],
  [("work closures", "crates/rx_core_operator_*/src/*_subscriber.rs"), ("state machine", K + "operator_throttle_time/src/throttle_time_subscriber.rs")])
p("C23", "Bevy entities and subscriptions clean each other up",
  "In Bevy, despawning a subscription entity (or removing its component) unsubscribes it, and a subscription that closes despawns its entity; removing an observable or subject component releases the subscriptions made to it. "
  "Scheduled despawns and retries are bounded, keyed to the right entity, and nothing unsubscribed runs again.",
  ["histories", "schedules"], "every order of spawn, subscribe, signal, despawn and close across frames",
  "Tests run one App scenario each.",
  ["crates/rx_bevy_common/src/subscription", "crates/rx_bevy_common/src/subscription_component.rs", "crates/rx_bevy_common/src/scheduler", "crates/rx_bevy_common/src/observable"],
  [("component hooks", "crates/rx_bevy_common/src/subscription_component.rs"), ("despawn work", "crates/rx_bevy_common/src/scheduler/work"), ("subscribe command", "crates/rx_bevy_common/src/observable/command_subscribe.rs")])
p("C24", "Bevy sources and destinations pass every signal to the right place",
  "Observables over events, messages, keyboard input, resources and proxied entities emit exactly what happened on the watched target, and destinations deliver each signal to the entity, resource or event they were made for. "
  "They end with an error or completion when the target disappears, as documented, and stop observing when unsubscribed.",
  ["histories", "configurations"], "every target, every sequence of world changes and of signals",
  "Tests drive one App per source.",
  ["crates/rx_bevy_observable_event/src", "crates/rx_bevy_observable_keyboard/src", "crates/rx_bevy_observable_message/src", "crates/rx_bevy_observable_proxy/src", "crates/rx_bevy_observable_resource/src", "crates/rx_bevy_common/src/observer", "crates/rx_bevy_common/src/notification"],
  [("observer systems", "crates/rx_bevy_observable_*/src"), ("signal destinations", "crates/rx_bevy_common/src/observer")])
p("C25", "Every way of writing a pipeline means the same pipeline",
  "The pipe extension, the compose extension and the plain function of an operator or observable build the same operator with the same arguments, in the order written. "
  "No builder swaps arguments, changes a default or drops an option.",
  ["programs", "configurations"], "every operator and observable, every argument, through each of the ways to write it",
  "Tests mostly use the pipe form with one argument set.",
  ["crates/rx_core_operator_*/src/*extension*", "crates/rx_core_observable_*/src/*_fn.rs", CM + "pipe", K + "operator_composite/src"],
  [("extension methods", "crates/rx_core_operator_*/src"), ("observable functions", "crates/rx_core_observable_*/src")])
p("C26", "Each subscription of an observable or operator is independent",
  "Subscribing twice to the same observable, or reusing a composed operator, gives each subscription its own counters, buffers, identifiers and work, starting from the configured initial state. "
  "Cloning shares only what is documented as shared.",
  ["histories", "programs"], "every observable and operator, any number of subscriptions, before or after earlier ones ended",
  "Tests subscribe once.",
  ["crates/rx_core_operator_*/src", "crates/rx_core_observable_*/src", CM + "pipe"],
  [("operator_subscribe and subscribe", "crates/*/src"), ("Clone implementations", "crates/*/src")])
p("C27", "Wrappers change nothing about what they wrap",
  "Boxing, erasing, optional, shared, reference counted and composed forms of observers, subscribers, subscriptions, operators and observables forward each call to the same call of what they wrap, once, with the same arguments. "
  "Their own answers (is_closed, result values) are those of the wrapped object.",
  ["programs", "histories"], "every wrapper, every method, in every state of the wrapper",
  "Wrappers are exercised only indirectly by tests.",
  [CM + "subscribers", CM + "subscriptions", CM + "observables", CM + "operators", CM + "pipe", K + "operator_composite/src"],
  [("forwarding implementations", CM + "subscribers")])
p("C28", "Counting and positional operators are exact at every boundary",
  "Take, skip, first, element_at, find, count, is_empty, buffer_count, enumerate, pairwise, scan and reduce are exact at every position and limit, including zero, one, fewer values than asked for, and an empty source. "
  "They close at the value that decides the result and report a missing value the way they document.",
  ["inputs", "configurations"], "every limit and every length of input",
  "Tests use one limit and one length.",
  [K + "operator_take/src", K + "operator_skip/src", K + "operator_first/src", K + "operator_element_at/src", K + "operator_find/src", K + "operator_count/src", K + "operator_is_empty/src", K + "operator_buffer_count/src", K + "operator_enumerate/src", K + "operator_pairwise/src", K + "operator_reduce/src"],
  [("counters", "crates/rx_core_operator_*/src/*_subscriber.rs")])

p("C29", "Shared state is decided on and changed in one step; locks never wait in circles",
  "What an operation decides from state it shares with other handles and what it then writes there happen under one acquisition of the lock (or one atomic update), so no operation of another thread comes between and nothing is lost, counted twice or closed twice. "
  "No lock is taken again by the operation that holds it, and no two locks are taken in both orders, so handles used from several threads never wait for each other for ever.",
  ["schedules"], "every pair of operations on clones of one handle, at every point where a lock is released or waited for",
  "Tests are single threaded; a lost update or a lock cycle needs another thread between two particular statements.",
  [K + "subject_*/src", CM + "subscribers", CM + "subscriptions", K + "subscriber_higher_order*/src", K + "operator_throttle_time/src", K + "operator_with_latest_from/src", K + "operator_delay/src", K + "observable_connectable/src", "crates/rx_bevy_common/src"],
  [("test and set of the closed state", K + "subject_publish/src/publish_subject.rs"), ("state behind one lock", K + "subscriber_higher_order_switch/src/switch_subscriber.rs"),
   ("work counters", K + "operator_delay/src/delay_subscriber.rs")])

NA = [
    ("C90", "The ADSR envelope has the configured shape",
     "The value emitted by the envelope operator at any time follows its attack, decay, sustain and release settings within numeric tolerance. Phase changes happen at the configured times.",
     ["inputs"], "every envelope setting, every tick time and trigger pattern", "Tests sample a few times of one envelope.",
     [K + "operator_adsr/src"], [("envelope function", K + "operator_adsr/src")],
     "the shape of a floating point curve is a numeric fact about values at run time; no dataflow argument in reach bounds it (the operator's signals and scheduling are decided under C22)"),
    ("C91", "Concurrent use from several threads is equivalent to some sequential order",
     "When several threads signal, subscribe and unsubscribe on the same subject or shared subscriber, what each observer sees is explained by some order of those calls. No call is lost.",
     ["schedules"], "every thread interleaving", "Tests are single threaded.",
     [K + "subject_publish/src", CM + "subscribers/subscriber_shared.rs"], [("locks with deferral", K + "subject_publish/src/multicast.rs")],
     "quantifies over thread interleavings of several lock acquisitions; a static order or effect argument does not decide linearizability of the deferral protocol (the single critical sections and the lock order it rests on are decided under C29)"),
    ("C92", "Ticking terminates and its cost is proportional to the due work",
     "A tick ends for every set of works and takes time proportional to the work due in it. Re-entrant scheduling cannot make it run forever.",
     ["inputs", "schedules"], "every set of works and every clock step", "Tests tick small queues.",
     [K + "scheduler_ticking/src"], [("recursion limit", K + "scheduler_ticking/src/ticking_executor.rs")],
     "how often user supplied work asks to run again is a run time quantity; only the local progress facts behind it are decided (C13, C14)"),
]

TECH = "abstract interpretation of the type-checked MIR into per-function decision tables, compared with the confirmed tables"
RULES = {"C04": TECH + "; plus a path rule: closed re-check before every second signal",
         "C10": "lockset dataflow over the MIR: calls to foreign code under a held lock, interprocedural, against the confirmed sites",
         "C29": "critical section and lock-order analysis over the MIR paths: which cells are looked at and written under one acquisition, which locks are taken while which are held",
         "C12": TECH + ", with each lock poisoned in turn"}
NOTE = ("Decides, on every path of every instance (loops: none, one and more iterations), which calls are made on whom, with which arguments, in which order, under which conditions, and which state is written. "
        "Each table was read and confirmed for the current tree; a table that says something else is reported with the path. "
        "Trusts rustc's MIR of the lib targets and the models of std, slab and bevy calls in rxv/models.py; functions whose path count exceeds the bound are counted as undecided and not reported.")


def write():
    with open(V + "/properties.jsonl", "w") as fh:
        for row in PROPS + [n[:8] + ((), ()) for n in NA]:
            pid, title, st, over, quant, why, files, mech, state, obs = row
            assert len(title) <= 80, (pid, len(title))
            assert st.count(". ") + 1 <= 3, pid
            a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech]}
            if state:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
            fh.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": quant},
                                 "why_tests_cant": why, "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": r[0], "quick_cmd": f"python3 rxv/run.py {r[0]}",
                     "thorough_cmd": f"VERIF_TIER=thorough python3 rxv/run.py {r[0]}",
                     "technique": RULES.get(r[0], TECH), "level": "other", "level_note": NOTE} for r in PROPS],
         "not_applicable": [{"property": n[0], "reason": n[8]} for n in NA]}
    with open(V + "/MANIFEST.json", "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    write()
