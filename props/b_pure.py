prop("C09", "Merging sorted reads keeps every record, the order, and failures",
 "Combining several record iterators, each ascending by global sequence number, yields every record of every input exactly once in ascending order. If an input fails, the combined iterator ends with that error and never looks like a complete read. When the combined read has been consumed, nothing stays blocked behind it.",
 ["inputs", "schedules"], "any interleaving of 64-bit sequence numbers over the inputs, any failing input, within the bounds",
 "tests merge two fixed channels", ["merge_record_iterators.go"], [("k-way merge", "MergeRecordIteratorsInOrder")],
 runs=[R("pure", "Merge", ("complete", "failed"), params=dict(inputs=2, records=2), thorough=dict(inputs=3)),
       R("pure", "Merge", ("complete", "failed"), params=dict(inputs=3, records=1), tier="quick"),
       R("pure", "Merge", ("complete", "failed"), params=dict(inputs=2, records=1, threads=1), sched="delay", preempt=2, thorough_preempt=4)],
 bounds="up to 2 inputs of up to 2 records, or 3 inputs of 1 (thorough: 3 of 2), distinct arbitrary 64-bit numbers; with concurrent producers: 2 inputs of 1 record, 2 (thorough 4) scheduling delays.")

prop("C18", "Sequence-number conflicts survive their error text",
 "Parsing the text of an unexpected-sequence-number error, also with other text around it, gives back exactly the expected and the actual number, for every pair of 64-bit numbers. Other texts never make the parser panic and give zero numbers.",
 ["inputs"], "every pair of 64-bit numbers; every prefix and other text within the length bound",
 "one pair of small numbers is tested; remote stores rely on this for every conflict", ["pkg/rangedberror/errors.go"], [("Error and NewUnexpectedSequenceNumberFromString are inverse", "pkg/rangedberror/errors.go")],
 runs=[R("pure", "Unexpected"), R("pure", "UnexpectedAny", params=dict(len=3), thorough=dict(len=5))],
 bounds="all 64-bit numbers (every digit count); prefixes of up to 3 bytes without a colon, suffixes of up to 2 bytes that do not continue the number; other texts up to 3 (thorough 5) bytes.")

prop("C19", "Page links lead to the right page and back",
 "The page size is always between 1 and 1000 (default 10). A next link exists exactly when the next index is beyond the current one, and leads to it with the current page added to the history; a previous link exists exactly when there is history, and leads to its last page with that entry removed; following next and then previous returns to the same page. Building links does not change the page, and arbitrary query texts give a valid page.",
 ["inputs"], "page sizes, indices and histories within the bounds; arbitrary query texts within the length bound",
 "tests use a few fixed pages", ["pkg/paging/paging.go"], [("Links and NewPaginationFromQuery", "pkg/paging/paging.go")],
 runs=[R("pure", "Paging", ("end", "next", "previous"), params=dict(previous=1), thorough=dict(previous=2), budget_s=120), R("pure", "PagingInput"), R("pure", "PagingWalk", params=dict(pages=40), thorough=dict(pages=100), max_steps=100000000)],
 bounds="every page size; indices of one or two digits or near the 64-bit maximum; history of up to 1 (thorough 2) pages, and a walk over 40 (thorough 100) pages and back; query texts of up to 2 bytes.")

prop("C20", "Stream names identify aggregates",
 "The stream name of an aggregate is its type, an exclamation mark, and its ID; aggregates with different type or ID have different stream names, and parsing a stream name gives back the type and the complete ID, for all types without an exclamation mark. Parsing any other text does not panic.",
 ["inputs"], "every type and ID within the length bound", "one name is tested", ["store.go"], [("GetStream, GetEventStream, ParseStream", "store.go")],
 runs=[R("pure", "StreamName", params=dict(len=3), thorough=dict(len=6)), R("pure", "ParseAny", params=dict(len=3), thorough=dict(len=6))],
 bounds="types and IDs of up to 3 (thorough 6) arbitrary bytes.", assumptions=["aggregate types contain no exclamation mark"])

prop("C27", "Record iterators report every record, the end, errors and cancellation",
 "A record iterator gives every record sent to it once and in order, ends without an error exactly when its source ended, keeps an error once it reported one, and stops with the context's error only if the context was cancelled. Publishing a record to a read reports success exactly when the record was handed over, sends at most one value, and always returns after cancellation. Reading the first n records returns exactly these, cancels the read and leaves nothing blocked.",
 ["inputs", "schedules"], "every sequence of calls and cancellations and every schedule within the bounds", "tests use single-record channels in a fixed order",
 ["record_iterator.go", "publish_record.go", "store.go"], [("recordIterator", "record_iterator.go"), ("PublishRecordOrCancel", "publish_record.go"), ("ReadNRecords", "store.go")],
 runs=[R("pure", "Iterator", ("end", "error", "cancelled"), params=dict(records=3), thorough=dict(records=4)),
       R("pure", "Publish", ("sent", "cancelled"), sched="pb", preempt=2, timers="any", thorough_preempt=4),
       R("pure", "Publish", ("sent", "cancelled"), params=dict(prompt=1), sched="pb", preempt=2, thorough_preempt=4),
       R("pure", "ReadN", params=dict(records=3), sched="pb", preempt=1, thorough_preempt=2)],
 bounds="up to 3 records and one error, up to 6 calls in any order; publishing with a concurrent cancellation and consumer under every schedule with up to 2 preemptions.")
