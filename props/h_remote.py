GS=["pkg/grpc/rangedbserver/server.go","pkg/grpc/rangedbpb/translate.go","pkg/jsontools/json_tools.go"]
GRPC=["gRPC between client and server is a model (harness/mgrpc): the generated client and handlers are the real ones, messages are copied field by field, in order, with the library's status errors; protobuf's byte encoding and the transport are not encoded. Counterexamples are replayed over the real gRPC library"]
prop("C22", "The gRPC server serves what the store has and says when it cannot",
 "Through the gRPC server every read delivers the store's records, once and in order, and a read that fails at the store, at once or after some records, ends with an error instead of looking complete; so does any other operation that fails there. A request with malformed event data or metadata is refused as invalid as a whole; otherwise all its events are saved and the response says how many and where. A subscription delivers every record of its kind from its start on, however saves interleave with it, and when it can get no more its stream ends.",
 ["inputs", "fault_sequences", "schedules"], "any event data and metadata of the given size, every point of failure, every start number, every schedule of subscription and saves within the bounds", "tests use a handful of well-formed requests and never let a read fail after its start",
 GS+["pkg/grpc/rangedbpb/rangedb_grpc.pb.go"], [("Events/Save/OptimisticSave/SubscribeTo*", "pkg/grpc/rangedbserver/server.go"), ("ToPbRecord", "pkg/grpc/rangedbpb/translate.go")],
 runs=[R("remote", "Long", params=dict(events=104, starts=1), thorough=dict(events=130, starts=2), max_steps=100000000, no_map_perm=True),
       R("remote", "ReadError", no_map_perm=True),
       R("remote", "OpError", no_map_perm=True),
       R("remote", "FeedEnd", no_map_perm=True),
       R("remote", "Malformed", ("saved", "refused"), params=dict(len=2), thorough=dict(len=3), thorough_budget_s=400, no_map_perm=True),
       R("remote", "Malformed", ("saved", "refused"), params=dict(len=2, ser=1), tier="thorough", no_map_perm=True),
       R("remote", "Subscribe", no_map_perm=True),
       R("remote", "Subscribe", params=dict(concurrent=1), sched="delay", preempt=1, thorough_preempt=2, thorough_budget_s=400, no_map_perm=True)],
 bounds="104 (thorough 130) events in two batches, read and subscribed to; event data or metadata of up to 2 (thorough 3) ASCII bytes, batches of 1-2; 2 stored records, failure after 0-2; 2 new records; 1 (thorough 2) scheduling delays.", assumptions=GRPC)
prop("C29", "A remote store behaves like the store behind its server",
 "Every operation of a remote store, with any expected sequence number, start number and event content, does what the same operation does at a store used directly: the same results, the same distinguishable errors (conflict with its numbers, missing stream, cancellation), the same records with their event types, numbers and metadata, the same subscriptions. A subscription of a remote store that can get no more events, because the server stopped or the connection broke, ends visibly, and so does one that is started afterwards; and one of a new remote store misses nothing that is saved after its start. An operation that fails at the server's store, or does not reach it, reports an error. A cancelled read says so or is complete, and leaves nothing behind when it is abandoned.",
 ["histories", "inputs", "fault_sequences"], "every sequence of operations within the bounds on a direct and a remote store side by side, all 64-bit numbers and short texts in events and metadata", "the store verifier runs fixed scenarios with a few small values",
 ["provider/remotestore/remote_store.go"]+GS+["pkg/rangedberror/errors.go","event_identifier.go","store.go"], [("Save/OptimisticSave/OptimisticDeleteStream/readRecords/listenForEvents", "provider/remotestore/remote_store.go")],
 runs=[R("remote", "Long", params=dict(events=104, starts=1), thorough=dict(events=130, starts=2), max_steps=100000000, no_map_perm=True),
       R("remote", "Content", params=dict(text=2), no_map_perm=True, thorough=dict(text=3), thorough_budget_s=300),
       R("remote", "Content", params=dict(ser=1), no_map_perm=True, thorough=dict(text=2)),
       R("remote", "Differential", params=dict(ops=2), no_map_perm=True, thorough=dict(ops=3), thorough_budget_s=700),
       R("remote", "Differential", params=dict(ops=1, batch=2), no_map_perm=True, thorough=dict(ops=2, batch=2), thorough_budget_s=300),
       R("remote", "ReadError", no_map_perm=True),
       R("remote", "OpError", no_map_perm=True),
       R("remote", "CancelRead", sched="delay", preempt=1, thorough_preempt=2, thorough_budget_s=300, no_map_perm=True),
       R("remote", "LiveStart", sched="park", preempt=1, thorough_preempt=2, thorough_budget_s=300, no_map_perm=True),
       R("remote", "LiveEnd", sched="delay", preempt=1, thorough_preempt=2)],
 bounds="104 (thorough 130) events in two batches, read and subscribed to; 2 (thorough 3) operations with batches of 0-1, or 1 (thorough 2) with batches of 0-2 and conflicts, then all reads and subscriptions; any 64-bit number or any ASCII text of 2 (3) bytes in event and metadata, with the JSON and the msgpack serializer behind the server; 1 (2) scheduling delays at the start and end of subscriptions.", assumptions=GRPC)
