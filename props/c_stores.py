prop("C06", "LevelDB store: acknowledged writes survive, and failures leave nothing half done",
 "If the process or the power fails at any point of a save or stream deletion on a LevelDB store, the reopened store holds every operation that was acknowledged, and the interrupted one completely or not at all; every read, count and later save is consistent with that. If LevelDB reports an I/O error at any point of a save, deletion, read or count, the operation reports an error (a read never looks complete or like an absent stream), a failed write leaves no trace in reads or notifications, and the store keeps working.",
 ["crash_points", "fault_sequences", "histories"], "every crash point and every single I/O error in the operations within the bounds",
 "tests never crash or fail the database below the store", [ST[1]], [("one transaction per batch, errors of iterators and Get are passed on", "leveldb_store.go")],
 runs=[R("stores", "LargeCrash", ("crash", "end"), params=dict(backend=1), thorough=dict(batch=520, points=40), max_steps=100000000, no_map_perm=True),
       R("stores", "Crash", ("crash", "end", "after", "before"), params=dict(backend=1, events=1, rounds=1, batch=2), thorough=dict(events=2, rounds=2)),
       R("stores", "Faults", ("fault", "read-fault", "clean"), params=dict(backend=1, events=2), thorough=dict(events=3, points=20)),
       R("stores", "Locked", params=dict(backend=1))],
 bounds="a save or deletion of 130 (thorough 520) events with a crash at any of its durable steps; 1 earlier event, 1 operation (thorough: 2 and 2) with a crash at any of its durable steps and any loss of unsynced data; 2 earlier events (thorough 3), one operation with an error at any one of its first 14 (thorough 20) LevelDB calls.", assumptions=LDB+["LevelDB's own guarantees (atomic, synced transaction commits) are assumed through the model"])

prop("C07", "Streams and aggregate types are isolated whatever their names",
 "Two different stream names, or two different aggregate types, never share events: saves, sequence numbers, counts, reads and deletions of one are not affected by the other, whatever bytes the names consist of, also when one name extends the other or contains the characters used to build storage keys.",
 ["inputs"], "every pair of different names within the length bound", "tests use fixed, dissimilar names", ST, [("key construction", "leveldb_store.go getStreamKeyPrefix/getAggregateTypeKeyPrefix/isNumberedKey")],
 runs=[R("stores", "Isolation", ("end", "deleted"), params=dict(backend=1, max=2, events=1, prefix=300)), R("stores", "Isolation", ("end", "deleted"), params=dict(backend=0, max=1, events=1, prefix=300)),
       R("stores", "Isolation", ("end", "deleted"), params=dict(backend=1, max=4, events=2), thorough=dict(max=12, events=3), realdb=True, budget_s=120),
       R("stores", "Isolation", ("end", "deleted"), params=dict(backend=0, max=3, events=2), thorough=dict(events=3))],
 bounds="the same after 300 equal bytes, with 1-2 bytes; one name of 1 byte and one of 1-4 bytes (thorough: up to 12), up to 2 (thorough 3) events, a deletion, and a later save.", assumptions=LDB)

prop("C08", "Cancellation has no effect beyond stopping, and is visible",
 "A save, deletion or count that is given a cancelled context reports cancellation and changes nothing; one that is cancelled while it runs does that or succeeds as a whole. A read whose context is cancelled at any moment ends; it delivered a prefix of its result, and if it delivered less than all it ends with a cancellation error. No goroutine, lock or snapshot stays behind, so that later operations, and stopping a LevelDB store, work.",
 ["schedules", "inputs"], "every moment of cancellation under every schedule within the bounds", "tests cancel before the call, or at one moment", ST+["publish_record.go"],
 [("PublishRecordOrCancel in the readers", "publish_record.go; inmemory_store.go; leveldb_store.go")],
 runs=[R("stores", "CancelDuring", ("cancelled", "done", "end"), params=dict(backend=0, looks=5), thorough=dict(looks=12, events=4)), R("stores", "CancelDuring", ("cancelled", "done", "end"), params=dict(backend=1, looks=5), thorough=dict(looks=12, events=4)),
       R("stores", "Cancelled", params=dict(backend=0, events=2)), R("stores", "Cancelled", params=dict(backend=1, events=1), thorough=dict(events=2), realdb=True),
       R("stores", "CancelRead", ("cancelled", "complete"), params=dict(backend=0, events=2), sched="pb", preempt=1, thorough_preempt=2),
       R("stores", "CancelRead", ("cancelled", "complete"), params=dict(backend=1, events=2), sched="pb", preempt=1, thorough_preempt=2)],
 bounds="stores with up to 2 events (3, thorough 4, for operations that are cancelled meanwhile, at their first 5, thorough 12, looks at the context); reads over all events, two types, or a stream, cancelled after any record or concurrently, with 1 (thorough 2) preemptions.",
 assumptions=LDB+["a consumer that wants the cancellation error asks for the next record within a second (PublishRecordOrCancel gives up after that)"])

prop("C12", "Concurrent use of a store is linearizable and never deadlocks",
 "Saves, optimistic saves, deletions, reads and counts that run concurrently have together the outcome of some sequential order of them that respects real time: no lost update, at most one of several optimistic saves on the same number wins, a read sees whole batches only, and no operation blocks for ever, also not while another goroutine consumes a read slowly or writes while reading.",
 ["schedules", "inputs"], "every schedule within the bounds for every pair of operations and every expected number", "tests run goroutines under whatever schedule happens", ST, [("locking in both stores", "inmemory_store.go; leveldb_store.go")],
 runs=[R("stores", "Linearizable", params=dict(backend=0, kinds=5, sink=1), sched="delay", preempt=2, thorough_preempt=3),
       R("stores", "Linearizable", params=dict(backend=1, kinds=5, streamquery=1), sched="delay", preempt=2, thorough_preempt=3),
       R("stores", "SlowReader", params=dict(backend=0), sched="delay", preempt=2, thorough_preempt=3),
       R("stores", "SlowReader", params=dict(backend=1), sched="delay", preempt=2, thorough_preempt=3)],
 bounds="2 concurrent operations on 2 streams with one earlier event; 2 (thorough 3) scheduling delays at any synchronisation operation.", assumptions=LDB+["unsynchronised accesses are atomic; conflicting ones are reported as data races by a happens-before detector"])
