RS=["pkg/recordsubscriber/record_subscriber.go","pkg/recordsubscriber/config.go"]
prop("C10", "Subscriptions deliver every record from the start point once and in order",
 "A subscription started from a global sequence number delivers every stored record of its kind (all, or any of the aggregate types) with at least that number, once and in ascending order, first the stored ones and then new ones, however saves interleave with the start; a live subscription delivers those committed after its start. If the history cannot be read completely, starting fails instead of leaving a gap. After the consumer fails, or after Stop, cancellation, or closing of the broadcaster, nothing more is delivered and Done is signalled.",
 ["schedules", "inputs", "histories"], "every schedule of the subscription, the broadcaster and concurrent saves within the bounds, every start number", "tests start subscriptions while nothing else runs",
 RS+ST+["pkg/broadcast/broadcaster.go"], [("catch up, subscribe, catch up again, filter", "pkg/recordsubscriber/record_subscriber.go StartFrom")],
 runs=[R("subs", "CatchUp", params=dict(backend=0, long=130), max_steps=100000000, no_map_perm=True), R("subs", "CatchUp", params=dict(backend=1, long=130), max_steps=100000000, no_map_perm=True),
       R("subs", "CatchUp", params=dict(backend=0), sched="delay", preempt=2, thorough_preempt=3),
       R("subs", "CatchUp", params=dict(backend=1), sched="delay", preempt=1, thorough_preempt=2),
       R("subs", "Live", params=dict(backend=0), sched="delay", preempt=2, thorough_preempt=4),
       R("subs", "Failing", ("consume", "read", "live-consume", "end"), sched="delay", preempt=2, thorough_preempt=4)],
 bounds="130 stored records without delays; up to 2 stored records, 2 concurrent ones, 2 later ones; any 64-bit start number; 2 scheduling delays (LevelDB 1; thorough 3/2).", assumptions=LDB)
prop("C11", "The broadcaster delivers to all, and drops the slow ones visibly",
 "Every subscriber of a broadcaster gets the records of its kind that were accepted while it was subscribed, once and in order, whatever the other subscribers do and whichever of its other kinds it unsubscribes from. One that does not take a record within the timeout is stopped and gets nothing after the record it missed, also when it subscribed to several aggregate types. Nothing arrives after unsubscribing returned, Close stops the remaining subscribers, and neither subscribers that stop nor callers after Close block for ever.",
 ["schedules", "fault_sequences"], "every schedule and timing of timeouts within the bounds", "tests send one record to one or two subscribers that keep up",
 ["pkg/broadcast/broadcaster.go"]+RS, [("start/broadcastRecord/closeAllSubscribers", "pkg/broadcast/broadcaster.go")],
 runs=[R("subs", "Kinds", params=dict(ops=3), thorough=dict(ops=4)),
       R("subs", "Broadcast", ("dropped", "complete"), params=dict(spies=1, records=3, cap=1), sched="delay", preempt=1, timers="any", thorough_preempt=2),
       R("subs", "Broadcast", ("dropped", "complete"), params=dict(spies=2, records=2, cap=1), sched="delay", preempt=1, timers="idle", thorough_preempt=2),
       R("subs", "Unsubscribe", sched="delay", preempt=2, thorough_preempt=4),
       R("subs", "SlowSubscription", ("dropped", "complete"), params=dict(records=4), sched="delay", preempt=1, timers="any", thorough_preempt=2)],
 bounds="2 subscribers with 3 (thorough 4) subscriptions and cancellations of them; 1 subscriber and 3 records with arbitrary timing, 2 subscribers and 2 records; any one-byte aggregate types; 1-2 (thorough 2-3) scheduling delays.")
