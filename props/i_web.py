API=["pkg/rangedbapi/api.go","pkg/jsontools/json_tools.go"]
prop("C23", "The HTTP API does what the store does and says so",
 "Over HTTP, events sent as JSON are saved with all their numbers and texts, or the request is refused with an error status and nothing is saved; an expected sequence number is obeyed by saves and deletions, with distinct statuses for conflicts, missing streams and invalid numbers. All events, those of a stream and those of aggregate types are served as they are stored in every format, a history that cannot be read completely is never served as a complete one, and the list of aggregate types has every type with its number of events and a link that leads to them.",
 ["inputs", "fault_sequences"], "any short body, event content and expected number, every point at which a read fails, every format within the bounds", "tests send a few well-formed requests and let reads fail never",
 API, [("saveEvents/deleteStream/writeEvents/listAggregateTypes", "pkg/rangedbapi/api.go")],
 runs=[R("web", "Read", params=dict(records=130), max_steps=100000000, no_map_perm=True),
       R("web", "Content", params=dict(text=1), thorough=dict(text=2), no_map_perm=True, thorough_budget_s=300),
       R("web", "Malformed", ("saved", "refused"), params=dict(len=1), thorough=dict(len=2), no_map_perm=True, thorough_budget_s=600),
       R("web", "Optimistic", ("saved", "deleted", "conflict", "missing", "invalid"), no_map_perm=True),
       R("web", "Read", no_map_perm=True),
       R("web", "ReadError", no_map_perm=True),
       R("web", "List", no_map_perm=True)],
 bounds="reads of 3 or 131 records; any 64-bit number or ASCII text of 1 (thorough 2) bytes in an event; 1 (thorough 2) arbitrary ASCII bytes as a body, or as the data, metadata, end or rest of one; any 64-bit expected number or header of up to 2 ASCII bytes, 0-2 stored events; failure after 0-2 of 2 records; six shapes of aggregate type names.",
 assumptions=["net/http's server, connections and compression are not encoded: requests are given to the API's handler (with the real gorilla router) and its writes are recorded; a panic with ErrAbortHandler counts as an aborted response, as net/http makes it"])
