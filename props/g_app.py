prop("C21", "Aggregate statistics match the records seen, and snapshots never lose them",
 "The aggregate statistics projection answers with the counts per aggregate type, the total, the sorted types and the latest global sequence number of exactly the records it has seen, also when it continues from a snapshot, and may be read while it is fed. A snapshot is read back as it was saved, also when several are saved at the same time. Saving one is all or nothing: if it succeeded, the snapshot survives a crash; if it fails or the machine stops, the earlier snapshot is still there. A snapshot that cannot be loaded leaves the projection as it was, and one that can leaves it able to go on.",
 ["inputs", "crash_points", "fault_sequences", "schedules"], "every sequence of records within the bounds, every crash point, failing operation and content of a snapshot", "tests save and load one snapshot on a disk that works",
 ["pkg/projection/aggregate_type_stats.go","pkg/projection/disk_snapshot_store.go"], [("Accept, SaveSnapshot, LoadFromSnapshot", "pkg/projection/aggregate_type_stats.go"), ("Save and Load", "pkg/projection/disk_snapshot_store.go")],
 runs=[R("app", "Stats", params=dict(records=2, below=1<<40), thorough=dict(records=3)), R("app", "Stats", params=dict(records=3, high=99, below=20)), R("app", "Stats", params=dict(records=1, low=32, high=127, below=20), thorough=dict(records=2), thorough_budget_s=600),
       R("app", "SnapshotContent", ("end", "refused")), R("app", "StatsShared", sched="delay", preempt=3, thorough_preempt=5),
       R("app", "Snapshots", params=dict(saves=2), thorough=dict(saves=3)), R("app", "SnapshotsShared", ("restart",), sched="delay", preempt=2, thorough_preempt=4), R("app", "SnapshotCrash", ("saved", "kept", "none", "restart"), no_native=True)],
 bounds="up to 2-3 records with any one-letter types (1 record: any printable character) and sequence numbers below 2^40; every cut and every changed byte of one snapshot; two goroutines with 3 (thorough 5) delays; two concurrent saves with 2 (thorough 4); one crash or failure at any of the file operations of a save.",
 assumptions=["files behave as in harness/mos: names change at once and in order, data survive a crash up to the last successful sync and beyond it as any prefix of what was written"])
prop("C26", "A dispatched command meets its own history, and its events are stored",
 "Dispatching a command hands the aggregate registered for its type exactly the stored history of the command's stream, in order, and then the command. The events it raises are stored in the order raised, each once in its own stream; those whose save failed are not stored, and the returned events are those that were. A command without an aggregate has no effect. Commands dispatched at the same time do not disturb each other's aggregate.",
 ["inputs", "histories", "fault_sequences", "schedules"], "every history, command and outcome of the saves within the bounds", "tests dispatch one command on one aggregate",
 ["pkg/cqrs/cqrs.go"], [("Dispatch", "pkg/cqrs/cqrs.go")],
 runs=[R("app", "Dispatch", ("handled", "unknown"), thorough=dict(rounds=2), thorough_budget_s=600), R("app", "Dispatch", ("handled", "unknown"), params=dict(stored=3, raised=1), thorough=dict(raised=3), thorough_budget_s=600), R("app", "DispatchShared", sched="delay", preempt=2, thorough_preempt=3)],
 bounds="up to 2-3 stored events and 2-3 raised ones with any one-letter aggregate types and IDs; 1 (thorough 2) commands; two concurrent commands with 2 (thorough 3) delays.",
 note="There is no optimistic locking between reading the history and storing the events, so two concurrent commands may decide on the same history. An aggregate has to reset its own state when it loads; the generator's output does not.")
prop("C28", "Identifiers are 32 hex digits and as unique as their random bits",
 "A short UUID is written as 32 lower-case hexadecimal digits, different UUIDs are written differently, and two generated ones are equal only if the 122 random bits they are made of are.",
 ["inputs"], "every UUID and every outcome of the random source", "tests look at the length of one",
 ["pkg/shortuuid/short_uuid.go"], [("String", "pkg/shortuuid/short_uuid.go")],
 runs=[R("app", "Identifiers"), R("app", "Generated", no_native=True)],
 bounds="all 128 bits; one differing byte at a time.")
prop("C32", "The chat application decides on the history of the right room and user",
 "In the chat application a user is on-boarded once, rooms are joined only when they are open and by users not banned from that room, messages are sent only to open rooms, and who uses a restricted word is warned twice and after that removed and banned, whatever happened to other rooms and users before.",
 ["histories", "schedules"], "every sequence of commands on any rooms and users within the bounds", "tests look at one command on one room and user per application",
 ["examples/chat/room_aggregate.go","examples/chat/user_aggregate.go","examples/chat/restricted_word_processor.go","examples/chat/warned_users_projection.go","examples/chat/chat.go"], [("aggregates and processor", "examples/chat/*.go")],
 runs=[R("app", "Chat", ("end", "warned", "banned"), params=dict(commands=3), no_map_perm=True, thorough=dict(commands=4, messages=3), thorough_budget_s=800),
       R("app", "ChatShared", sched="delay", preempt=1, thorough_preempt=2, no_map_perm=True)],
 bounds="3 (thorough 4) commands with any one-letter room and user, optionally after both rooms were opened and a user was warned twice; reactions settle between commands, except for two commands with 1 (thorough 2) delays.")
