"""Which functions each property quantifies over, and which disagreements break it.

A property's *instances* are selected from the confirmed tables by resolved identity (crate, type, trait,
method) or by what the function does (the calls in its table); `keep` says which facets of a disagreement
are this property's business.
"""
import re

SHORT = lambda c: c.replace("rx_core_", "")
EXT_ADTS = re.compile(r"(InternalBitFlags|Bits$|PhaseTransition$)")
SKIP_TRAITS = {
    "PartialEq", "PartialOrd", "Ord", "Eq", "Hash", "Octal", "LowerHex", "UpperHex", "Binary", "Sub", "SubAssign",
    "BitOr", "BitOrAssign", "BitAnd", "BitAndAssign", "BitXor", "BitXorAssign", "Not", "FromStr", "Serialize",
    "Deserialize", "Extend", "FromIterator", "IntoIterator", "Flags", "AsRef", "Error",
    "Bundle", "BundleFromComponents", "DynamicBundle", "RelationshipTarget", "Relationship",
}
SKIP_NAMES = {"register_required_components", "clone_behavior", "map_entities", "relationship_accessor",
              "assert_fields_are_eq", "init_access", "init_state", "validate_param", "get_param", "apply", "queue",
              "component_ids", "get_component_ids"}
SKIP_CRATES = {"rx_core_testing", "examples_common", "xtask", "mdbook_crate_links"}


class X:
    """One instance candidate"""

    def __init__(self, t):
        self.t = t
        self.crate, self.adt, self.trait, self.name = t["fn"].split("|")
        self.c = SHORT(self.crate)
        self._w = None

    @property
    def words(self):
        if self._w is None:
            self._w = set()
            self.collect(self.t, 0)
        return self._w

    def collect(self, t, d):
        for r in t["rows"]:
            for tk in r["word"]:
                self._w.add(tk[1])
                for cl in (tk[3] if len(tk) > 3 else []):
                    if d < 4:
                        self.collect(cl, d + 1)
            for ops in r["coll"].values():
                for op in ops:
                    for z in op:
                        if isinstance(z, list):
                            for cl in z:
                                if d < 4 and isinstance(cl, dict):
                                    self.collect(cl, d + 1)
            for cl in r.get("clos") or []:
                if d < 4:
                    self.collect(cl, d + 1)


def relevant(f):
    """Functions of the system itself (not of the test kit, the examples, or expanded third party derives)"""
    if f.crate in SKIP_CRATES or "macro" in f.crate:
        return False
    adt = (f.self_adt or "").split("::")[-1]
    if EXT_ADTS.search(adt):
        return False
    tr = (f.trait or f.in_trait or "").split("::")[-1].split("<")[0]
    if tr in SKIP_TRAITS:
        return False
    if f.name in SKIP_NAMES and tr in ("Component", "SystemParam", "Bundle", "Eq"):
        return False
    return True


OBS = {"next", "error", "complete"}
SUBS = {"is_closed", "unsubscribe"}
DELEG = {"SharedDestination"}


def sig(names, kinds=None):
    """facets about the named calls"""
    names = set(names)

    def k(kind, detail):
        base = kind.split(":")[-1]
        inner = kind.split(":")[1] if kind.startswith("in:") and kind.count(":") > 1 else None
        d = set(detail.split("/"))
        return bool(d & names) or (inner in names)
    return k


def anyf(kind, detail):
    return True


def in_area(*pats):
    rs = [re.compile(p) for p in pats]
    return lambda x: any(r.search(x.c) for r in rs)


# ---- areas ------------------------------------------------------------------------------------
CORE = in_area(r"^common$")
OPER = in_area(r"^operator_", r"^subscriber_", r"^observer_")
OBSV = in_area(r"^observable_", r"^operator_(share|subscribe_on|retry)$")
SUBJ = in_area(r"^subject_")
HIGHER = in_area(r"^subscriber_higher_order", r"_(all|map)$", r"^observable_(merge|concat)$")
SCHED = in_area(r"^scheduler_ticking$")
BEVY = in_area(r"^rx_bevy")
TIME = in_area(r"^operator_(delay|debounce_time|throttle_time|observe_on|subscribe_on|fallback_when_silent|adsr)$",
               r"^observable_(interval|timer|iterator_on_tick)$")
COMBINE = in_area(r"^observable_(zip|join|combine_latest|combine_changes)$", r"^operator_with_latest_from$",
                  r"^notification_(variadics|store)$")
MAPPING = in_area(r"^operator_(map|map_into|map_never|map_error|filter|filter_map|lift_option|lift_result|into_result|"
                  r"scan|reduce|tap|tap_next|on_next|on_subscribe|identity|enumerate|pairwise|start_with|end_with|"
                  r"materialize|dematerialize|composite|error_boundary|finalize)$", r"^observer_")
COUNTING = in_area(r"^operator_(take|skip|element_at|first|find|find_index|count|is_empty|buffer_count|enumerate|"
                   r"pairwise|scan|reduce)$")
RECOVER = in_area(r"^operator_(retry|catch|error_boundary|materialize|dematerialize|into_result|lift_result|map_error)$")
SHARE = in_area(r"^observable_connectable$", r"^operator_share$")
WRAP_ADTS = {"Arc", "Weak", "Box", "Option", "OptionSubscriber", "OptionSubscription", "ErasedSubscriber",
             "ErasedSubscription", "ErasedObservable", "ErasedObservables", "SharedSubscriber", "SharedSubscription",
             "Pipe", "ComposeOperator", "ObserverSubscriber", "RwLock", "Mutex"}
TEAR_ADTS = {"Teardown", "SubscriptionData", "SubscriptionClosedFlag", "Subscription"}


def signal_user(*names):
    ns = set(names)
    return lambda x: bool(x.words & ns)


class Prop:
    def __init__(self, pid, scope, rules=(), floor=1, level="other", poison=0):
        self.id, self.scope, self.rules, self.floor, self.level = pid, scope, rules, floor, level
        self.poison = poison  # number of functions confirmed for a poisoned lock, if this property is about them

    def keep(self, x):
        """facet filter for this instance, or None if it is not an instance"""
        fs = [k for p, k in self.scope if p(x)]
        if not fs:
            return None
        return lambda kind, detail: any(f(kind, detail) for f in fs)


ERRN = {"error", "try_error", "on_upstream_error", "on_downstream_error", "upstream_error", "downstream_error",
        "take_error", "get_error", "PANIC"}
COMN = {"complete", "try_complete", "upstream_completed_can_downstream", "can_downstream_complete"}
UNSN = {"unsubscribe", "try_unsubscribe", "try_unsubscribe_by_id", "unsubscribe_by_id", "can_downstream_unsubscribe",
        "disconnect", "drop"}
TEAN = {"add_teardown", "execute", "add", "add_fn", "take", "new_with_teardown", "FnOnce", "call_once", "call"}
SCHN = {"schedule_work", "schedule_delayed_work", "schedule_immediate_work", "schedule_continuous_work",
        "schedule_repeated_work", "schedule_invoked_work", "cancel", "cancel_invoked", "invoke",
        "new_work_cancellation", "new_invoked_work_cancellation", "new_work_invokation",
        "new_work_invokation_and_cancellation", "schedule_despawn_entity", "schedule_invoked_despawn_entity"}
state = lambda kind, detail: kind.split(":")[-1] in ("state", "coll", "when", "order")
ctor = lambda x: x.name in ("new", "operator_subscribe", "subscribe", "upgrade", "operate", "new_from_destination")

P = {}


def prop(pid, *scope, rules=(), floor=1, level="other", poison=0):
    P[pid] = Prop(pid, scope, rules, floor, level, poison)


# signals through everything -----------------------------------------------------------------------
prop("C01",
     (lambda x: x.name in ERRN and x.name != "PANIC", anyf),
     (signal_user("error"), sig(ERRN)), floor=100)
prop("C02",
     (lambda x: x.name in COMN, anyf),
     (signal_user("complete"), sig(COMN)),
     # what is still pending is counted and queued by these
     (lambda x: HIGHER(x) or TIME(x) or COMBINE(x), state), floor=100)
prop("C03", (lambda x: MAPPING(x) or COUNTING(x), anyf), floor=100)
prop("C04",
     (lambda x: x.trait == "RxObserver" and x.name in OBS, sig(OBS | {"PANIC"})),
     (lambda x: "Subscriber" in x.adt and x.name in OBS, anyf),
     (signal_user(*OBS), sig(OBS)),
     rules=("second_signal", "work_signal"), floor=100)
prop("C05",
     (lambda x: x.name == "is_closed", anyf),
     (lambda x: x.adt in ("SubscriptionClosedFlag", "SubscriberState"), anyf),
     (lambda x: x.name in OBS | SUBS, lambda k, d: k.endswith("state") and "clos" in d),
     (lambda x: x.name in OBS | SUBS, sig(UNSN)), floor=80)
prop("C06",
     (lambda x: x.name in UNSN, anyf),
     (signal_user("unsubscribe"), sig(UNSN)),
     (signal_user("add_teardown", "add", "add_fn"), sig(UNSN | TEAN)), floor=150)
prop("C07",
     (lambda x: x.trait == "TeardownCollection" or x.adt in TEAR_ADTS or x.trait == "TeardownCollectionExtension", anyf),
     (lambda x: x.trait == "Drop", anyf),
     (signal_user("add_teardown", "execute", "add", "add_fn"), sig(TEAN)), floor=150)
prop("C08",
     (lambda x: x.c in ("observable_iterator", "observable_iterator_on_tick", "subject_replay", "operator_start_with",
                        "observable_just", "observable_concat", "observable_create") and x.name in ("subscribe", "new", "operator_subscribe"), anyf),
     (lambda x: x.c in ("rx_bevy_observable_message", "rx_bevy_observable_keyboard", "observable_interval") and
      x.name == "new", anyf),
     (lambda x: SUBJ(x) and x.name in ("subscribe",), sig(OBS)), floor=6)
prop("C09",
     (signal_user(*SCHN), sig(SCHN | {"add_teardown", "add", "add_fn"})),
     (lambda x: TIME(x) and (ctor(x) or x.name in ("unsubscribe", "drop")), anyf),
     (lambda x: x.adt == "Teardown", anyf),
     (lambda x: SCHED(x) and x.adt in ("TickingScheduler", "TickingSchedulerExecutor"), anyf),
     (lambda x: x.adt in ("RxBevyScheduler", "WorkCancellationIdGenerator", "WorkInvokeIdGenerator"), anyf),
     floor=25)
prop("C10", rules=("no_foreign_under_lock", "lock_order"), floor=0)
prop("C11",
     (lambda x: x.adt in ("SharedSubscriber", "SharedSubscription", "NotificationQueue", "NotificationState"), anyf),
     (lambda x: x.name == "push" and x.c == "common", anyf),
     (lambda x: x.c == "subject_publish", anyf),
     (lambda x: x.adt in ("SubscriberNotification", "SubscriptionNotification", "ObserverNotification", "ObserverTerminalNotification"), anyf), floor=25)
prop("C12",
     (lambda x: "PoisonBehavior" in x.trait or x.adt == "SchedulerHandle", anyf),
     floor=10, poison=100)
RUNS = [(SCHED, anyf),
        (lambda x: x.adt in ("RxBevyScheduler", "RxBevyExecutor", "SchedulerHandle", "WorkCancellationIdGenerator",
                             "WorkInvokeIdGenerator", "WorkResult") or x.trait == "SchedulerScheduleWorkExtension", anyf)]
prop("C13", *RUNS, floor=25)
prop("C14", *RUNS, floor=25)
prop("C15", (lambda x: x.c == "subject_publish", anyf), floor=20)
prop("C16", (lambda x: x.c in ("subject_behavior", "subject_replay", "subject_async", "subject_provenance"), anyf),
     (lambda x: x.c == "subject_publish", anyf), floor=40)
prop("C17",
     (lambda x: x.c.startswith("subscriber_higher_order") or HIGHER(x), anyf), floor=40)
prop("C18",
     (lambda x: x.c.startswith("subscriber_higher_order") or HIGHER(x), anyf), floor=50)
prop("C19", (COMBINE, anyf), floor=40)
prop("C20", (RECOVER, anyf), rules=("retry_budget",), floor=40)
prop("C21", (SHARE, anyf), floor=25)
prop("C22", (TIME, anyf), rules=("window_base",), floor=50)
prop("C23",
     (lambda x: x.c == "rx_bevy_common" or x.c == "rx_bevy", anyf), floor=30)
prop("C24",
     (lambda x: x.c.startswith("rx_bevy_observable_") or x.c == "rx_bevy_common", anyf), floor=30)
prop("C25", (lambda x: "Extension" in x.trait or (x.trait == "" and x.adt == ""), anyf),
     floor=120)
prop("C26", (lambda x: x.trait in ("ComposableOperator", "Observable", "Operator", "Clone") or x.name == "new", anyf),
     floor=100)
prop("C27", (lambda x: (x.c == "common" and x.adt in WRAP_ADTS) or x.c in ("operator_composite", "operator_identity"), anyf), floor=60)
prop("C28", (COUNTING, anyf), floor=60)
prop("C29", rules=("critical_sections", "lock_order"), floor=0)
