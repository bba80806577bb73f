PG=["a model of lib/pq and of the PostgreSQL server (models/pq: SQL of the store, READ COMMITTED and REPEATABLE READ row versions, advisory locks, unique constraints, sequences that a rollback does not turn back, NOTIFY on commit, loss of the listener's connection); it stops the run on SQL it does not know",
    "database/sql is executed for real, but its own locks are not scheduling points and its choice among ready channels is fixed"]
PF=["provider/postgresstore/postgres_store.go"]
PN="Stream names, types and IDs are text without NUL (PostgreSQL stores no other), start numbers are below 2^31 (the column is a 32-bit serial), events are JSON-encodable. A network failure during COMMIT, whose outcome a client cannot know, is not modelled."
prop("C31", "The PostgreSQL store stores, reads and deletes like the other stores",
 "Over any history of saves, optimistic saves, deletions and refused operations the PostgreSQL store gives events consecutive stream sequence numbers from 1 and increasing global ones, returns the last stream sequence number, stores and announces a batch completely or not at all, accepts an optimistic save or deletion exactly when the expected number is the current one (else it reports both numbers, or that the stream is absent), and reads, counts and announces exactly the events there are, with their data and metadata, from any start number. Also when the database or the context fails at any point, every operation reports the truth, leaves no trace of what failed except a gap in the global numbers, and no transaction, connection or goroutine behind.",
 ["inputs", "histories", "fault_sequences"], "every history, number, batch, and every single failure within the bounds", "the tests of this store run only where a server is configured, and with fixed events", PF,
 [("transactionalSaveEvents/saveEvents/OptimisticDeleteStream", "postgres_store.go"), ("readResultRecords", "postgres_store.go")],
 runs=[R("pg", "Defaults", ("defaults",), params=dict(backend=2)), R("pg", "Undecodable", ("end",)), R("pg", "Undecodable", ("end",), params=dict(notify=1)), R("pg", "Numbering", params=dict(backend=2, steps=3), thorough=dict(steps=4)),
       R("pg", "Optimistic", ("accepted", "refused"), params=dict(backend=2, events=1), thorough=dict(events=2)),
       R("pg", "Atomic", ("stored", "refused"), params=dict(backend=2, events=0), thorough=dict(events=1)),
       R("pg", "Reads", ("end", "stream"), params=dict(backend=2, events=2), thorough=dict(events=4)),
       R("pg", "Delete", ("deleted", "refused"), params=dict(backend=2, events=2, rounds=1), thorough=dict(rounds=2)),
       R("pg", "LongHistory", params=dict(backend=2, events=24), thorough=dict(events=120), max_steps=100000000, no_map_perm=True),
       R("pg", "Faults", ("fault", "read-fault", "clean"), params=dict(backend=2, events=1, points=16), thorough=dict(events=2, points=24)),
       R("pg", "Cancelled", params=dict(backend=2, events=1), thorough=dict(events=2)),
       R("pg", "CancelDuring", ("cancelled", "done", "end"), params=dict(backend=2, looks=30, events=1), thorough=dict(looks=60, events=2)),
       R("pg", "CancelRead", ("cancelled", "complete"), params=dict(backend=2, events=1), thorough=dict(events=2), sched="delay", preempt=1, thorough_preempt=2)],
 bounds="histories of 3 (thorough 4) operations; 1-2 events before an optimistic save, read or deletion, batches of up to 2, and one history of 24 (thorough 120) events; an error at any one of the first 16 (thorough 24) database calls; cancellation at any of the first 30 (thorough 60) looks at the context, and at any moment of a read with 1 scheduling delay.", assumptions=PG, note=PN)
prop("C33", "PostgreSQL store: concurrent clients and subscribers agree on one order",
 "Concurrent saves, optimistic saves, deletions, reads and counts on a PostgreSQL store have the outcome of some sequential order that respects the order of operations that do not overlap: no acknowledged event is lost, and a read never shows a later event without the earlier ones. Subscribers, whether notified within the process or through pg_notify and whichever process saved, get every event from their start on once and in ascending order, also when saves interleave with the start, when the connection that brings the notifications is lost for a while, and after a notification that is not one of the store's.",
 ["schedules", "histories", "fault_sequences"], "every schedule of 2 clients and a subscriber within the bounds", "the tests of this store need a server, and run one client at a time", PF+RS+["pkg/broadcast/broadcaster.go"],
 [("lockStream, the lock of the global order", "postgres_store.go saveEvents"), ("batchNotifySubscribers/listen", "postgres_store.go")],
 runs=[R("pg", "Linearizable", params=dict(backend=2, kinds=5, events=0), sched="delay", preempt=1, thorough=dict(events=1)),
       R("pg", "Linearizable", params=dict(backend=2, kinds=2, sink=1, events=0), thorough=dict(events=1), sched="delay", preempt=1, thorough_preempt=2),
       R("pg", "Linearizable", params=dict(backend=2, kinds=2, sink=1, notify=1, events=0), thorough=dict(events=1), sched="delay", preempt=1),
       R("pg", "Live", sched="delay", preempt=1, thorough_preempt=2),
       R("pg", "Live", params=dict(notify=1), sched="delay", preempt=1, thorough_preempt=2),
       R("pg", "CatchUp", params=dict(before=0, during=1), thorough=dict(before=1, during=2), sched="delay", preempt=1),
       R("pg", "CatchUp", params=dict(before=2, during=2)),
       R("pg", "CatchUp", params=dict(before=2, during=2, notify=1)),
       R("pg", "Listen"), R("pg", "Listen", params=dict(notify=1)),
       R("pg", "Listen", params=dict(notify=1), sched="delay", preempt=1, tier="thorough")],
 bounds="2 concurrent operations with 1 scheduling delay; up to 2 stored, 2 concurrent and 2 later events; up to 2 processes, 1 loss of the connection with up to 2 events saved meanwhile.", assumptions=PG, note=PN)
