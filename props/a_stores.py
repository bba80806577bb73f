ST = ["provider/inmemorystore/inmemory_store.go", "provider/leveldbstore/leveldb_store.go"]
LDB = ["LevelDB itself is replaced by a model (models/goleveldb: ordered map, snapshots, exclusive transactions, atomic commits, synced and unsynced units); sample paths are also replayed against the real goleveldb",
       "the record serializer is an injective model codec that may fail (the real ones are C25)"]
HIST = "the stores' tests run fixed histories of a few fixed streams; they do not cover arbitrary histories and arguments"

prop("C01", "Gapless sequence numbers per stream and per store",
 "Every accepted event gets the next stream sequence number (1, 2, 3, ... in its stream) and the next global sequence number of the store, with no gap, reuse or reordering, whatever accepted saves, failed saves, stream deletions and (LevelDB) reopenings came before; global numbers are never reused, also not after a deletion. A save returns the stream sequence number of the last event it stored. Stored records carry distinct non-empty event IDs and a timestamp taken from the clock.",
 ["histories", "inputs"], "every history of up to the stated number of saves, failing saves, deletions and reopenings, for every choice of stream names and expected numbers",
 HIST, ST, [("Save/OptimisticSave assign numbers from the stored state", "inmemory_store.go saveEvents; leveldb_store.go saveEvents")],
 runs=[R("stores", "LongHistory", params=dict(backend=0, only=5), max_steps=100000000, no_map_perm=True), R("stores", "LongHistory", params=dict(backend=1, only=5), max_steps=100000000, no_map_perm=True),
       R("stores", "Defaults", ("defaults",), params=dict(backend=0)), R("stores", "Defaults", ("defaults",), params=dict(backend=1)),
       R("stores", "Numbering", params=dict(backend=0, steps=3), thorough=dict(steps=4)),
       R("stores", "Numbering", params=dict(backend=1, steps=2), thorough=dict(steps=3), realdb=True)],
 bounds="two events of a store without options, for any two draws of random bytes that differ; one history of 258 events, its deletion and a save; in memory: 3 steps + final save (thorough 4); LevelDB: 2 steps + final save (thorough 3); batches of at most 2 events; stream names: any single byte.", assumptions=LDB,
 observe=["Save return value", "Events", "EventsByStream", "EventsByAggregateTypes", "TotalEventsInStream"])

prop("C02", "Optimistic saves succeed exactly on the current sequence number",
 "OptimisticSave succeeds if and only if the expected stream sequence number equals the number of events currently in that stream (0 for an absent or deleted stream). Otherwise nothing is stored and the error is an UnexpectedSequenceNumber that carries the number passed and the stream's current number.",
 ["inputs", "histories"], "every 64-bit expected number, every target stream, every content of up to the stated number of events with an optional deletion",
 HIST, ST + ["pkg/rangedberror/errors.go"], [("comparison of expected and current number before writing", "inmemory_store.go saveEvents; leveldb_store.go saveEvents")],
 runs=[R("stores", "LongHistory", params=dict(backend=0, only=4), max_steps=100000000, no_map_perm=True), R("stores", "LongHistory", params=dict(backend=1, only=4), max_steps=100000000, no_map_perm=True),
       R("stores", "Optimistic", ("accepted", "refused"), params=dict(backend=0, events=2), thorough=dict(events=3)),
       R("stores", "Optimistic", ("accepted", "refused"), params=dict(backend=1, events=1), thorough=dict(events=2), realdb=True)],
 bounds="one stream of 256 events with any 64-bit expected number; stores with up to 2 (LevelDB 1; thorough 3/2) events in arbitrary one-byte streams, optional deletion, then 2 optimistic saves of 1-2 events with any 64-bit expected number.", assumptions=LDB)

prop("C03", "A batch is stored and announced entirely or not at all",
 "When a save reports an error (empty batch, different aggregate types or IDs in a batch, empty type or ID, serializer failure, cancelled context, wrong expected number), no event of it is visible in any read, no subscriber is told about it, and the next accepted save gets the numbers it would have got without it. When it reports success, exactly its events are stored, consecutively, and every subscriber is told about each, once, in order. A failed operation does not stop the store from working.",
 ["inputs", "histories", "fault_sequences"], "every position of a mismatch, failure or cancellation in the batch; every batch content within the bounds",
 "tests sample one failing position and do not look at all reads, numbers and notifications afterwards", ST + ["pkg/broadcast/broadcaster.go"], [("rollback of a failed batch", "inmemory_store.go saveEvents/removeEvents; leveldb_store.go transaction")],
 runs=[R("stores", "LargeBatch", ("stored", "refused", "end"), params=dict(backend=0), thorough=dict(batch=2100), max_steps=1000000000, no_map_perm=True), R("stores", "LargeBatch", ("stored", "refused", "end"), params=dict(backend=1), thorough=dict(batch=2100), max_steps=1000000000, no_map_perm=True),
       R("stores", "Unread", ("end",), params=dict(backend=0)), R("stores", "Unread", ("end",), params=dict(backend=1), thorough=dict(batch=4)),
       R("stores", "Atomic", ("stored", "refused"), params=dict(backend=0, events=1), thorough=dict(events=2)),
       R("stores", "Atomic", ("stored", "refused"), params=dict(backend=1, events=1), thorough=dict(events=1, batch=3), realdb=True)],
 bounds="a batch of 1100 (thorough 2100) events with one of four failure causes at one of 25 positions; a batch of up to 3 events any of which cannot be read back; up to 1 earlier event (in memory thorough: 2), one batch of 0-2 events (LevelDB thorough 3) with one of five failure causes at any position, then one more save; one live subscriber.", assumptions=LDB)

prop("C04", "Reads return exactly the matching events, in order",
 "Events, EventsByStream and EventsByAggregateTypes return exactly the stored events that match (all; the stream; any of the types, however often a type is listed) and whose global (for a stream read: stream) sequence number is at least the given start, each once, ascending by that number, with the contents that were saved. Reading a stream that does not exist reports a stream-not-found error; the stream event count equals the number of its events.",
 ["inputs", "histories"], "every 64-bit start number, every stream and type list within the bounds, every content within the bounds",
 HIST, ST + ["merge_record_iterators.go", "record_iterator.go"], [("index and start filters", "inmemory_store.go Events*; leveldb_store.go getRecords*, MergeRecordIteratorsInOrder")],
 runs=[R("stores", "Reads", ("end", "stream"), params=dict(backend=0, events=3, symtypes=1), thorough=dict(events=4)),
       R("stores", "Reads", ("end", "stream"), params=dict(backend=1, events=2, symtypes=1), thorough=dict(events=3), realdb=True),
       R("stores", "LongHistory", params=dict(backend=0), max_steps=100000000, no_map_perm=True, thorough=dict(events=1030)),
       R("stores", "LongHistory", params=dict(backend=1), max_steps=100000000, no_map_perm=True, thorough=dict(events=520), thorough_budget_s=400, realdb=True)],
 bounds="one history of 258 (thorough 1030, LevelDB 520) events in two streams, read from a start near its end or beginning, continued by an optimistic save or deletion with any 64-bit expected number; up to 3 (LevelDB 2; thorough 4/3) events in arbitrary one-byte streams and types, optional deletion, one read with any 64-bit start number and up to 2 types.", assumptions=LDB)

prop("C05", "Deleting a stream removes exactly that stream, or nothing",
 "OptimisticDeleteStream succeeds if and only if the stream exists and the expected number equals its event count; then all events of that stream disappear from every read and count, every other event stays exactly as it was, and saving to the stream afterwards starts again at 1. Otherwise nothing changes, and the error is stream-not-found for an absent stream, or an UnexpectedSequenceNumber with the passed and the current number.",
 ["inputs", "histories"], "every stream, every 64-bit expected number, every content within the bounds",
 HIST, ST, [("delete from all indexes", "inmemory_store.go OptimisticDeleteStream; leveldb_store.go OptimisticDeleteStream")],
 runs=[R("stores", "LongHistory", params=dict(backend=0, only=5), max_steps=100000000, no_map_perm=True), R("stores", "LongHistory", params=dict(backend=1, only=5), max_steps=100000000, no_map_perm=True),
       R("stores", "Delete", ("deleted", "refused"), params=dict(backend=0, events=2), thorough=dict(events=3)),
       R("stores", "Delete", ("deleted", "refused"), params=dict(backend=1, events=2, rounds=1, symtypes=1), thorough=dict(rounds=2), realdb=True)],
 bounds="one stream of 256 events with any 64-bit expected number; up to 2 events (in memory thorough: 3), then 2 rounds (LevelDB 1; thorough 2) of one deletion and an optional save.", assumptions=LDB)
