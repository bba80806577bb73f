prop("C30", "Web-socket connections bring every record once, in order, until they close",
 "A web-socket connection to all events or to those of given aggregate types, whatever their names, brings every such record from the asked start point on, once, in order and with all of its content, however the connection and saves interleave; an invalid start point is refused. The connection stays open as long as it can bring records and is closed when it cannot any more: the client left, is too slow, a read failed, a record cannot be sent, the API was stopped or the store's live events ended; then a prefix without gaps has arrived, the handler returns and other connections go on.",
 ["inputs", "schedules", "fault_sequences"], "any start point text, event content, schedule of connecting and saving, and way to end within the bounds", "tests connect after saving a few events and do not let a connection end",
 ["pkg/rangedbws/websocket_api.go","pkg/recordsubscriber/record_subscriber.go","pkg/recordsubscriber/config.go","pkg/broadcast/broadcaster.go"], [("SubscribeToAllEvents/SubscribeToEventsByAggregateTypes/broadcastRecord", "pkg/rangedbws/websocket_api.go"), ("StartFrom", "pkg/recordsubscriber/record_subscriber.go")],
 runs=[R("ws", "Subscribe", params=dict(long=120, digits=0), thorough=dict(digits=1), max_steps=100000000, no_map_perm=True),
       R("ws", "Content", params=dict(text=1), thorough=dict(text=2), no_map_perm=True, thorough_budget_s=300),
       R("ws", "Subscribe", ("end", "invalid"), no_map_perm=True),
       R("ws", "Subscribe", params=dict(concurrent=1), sched="delay", preempt=1, thorough_preempt=2, thorough_budget_s=500, no_map_perm=True),
       R("ws", "End", no_map_perm=True),
       R("ws", "End", sched="delay", preempt=1, thorough_preempt=1, no_map_perm=True),
       R("ws", "Slow", no_map_perm=True, no_native=True),
       R("ws", "FeedEnd", no_map_perm=True)],
 bounds="120 stored records without delays; any 64-bit number or ASCII text of 1 (thorough 2) bytes in an event; start points of up to 2 arbitrary URL-safe bytes; 0-2 stored and 2 new records, four choices of aggregate types, 1 (thorough 2) scheduling delays; five ways to end; a slow client with 26 records.",
 assumptions=["gorilla/websocket and net/http are a model (harness/mws): frames arrive in order, concurrent writers panic as the library does, a connection buffers a bounded number of frames; framing and the handshake are not encoded. Counterexamples are replayed over real web sockets (except those of slow clients, which depend on the kernel's buffers)"])
