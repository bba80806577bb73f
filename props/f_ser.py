JS="provider/jsonrecordserializer/json_record_serializer.go"; MS="provider/msgpackrecordserializer/msgpack_record_serializer.go"
IO=["provider/jsonrecordiostream/json_record_io_stream.go","provider/ndjsonrecordiostream/ndjson_record_io_stream.go","provider/msgpackrecordiostream/msgpack_record_io_stream.go"]
JV="encoding/json is encoded in its classic implementation (GOEXPERIMENT=nojsonv2); texts are valid UTF-8, as JSON has no other"
prop("C24", "Exported record streams import as the same records, and a cut export shows",
 "Records written as a JSON, newline-delimited JSON or msgpack stream are read back in order, none missing, none added, none changed, however the bytes arrive. If the history being exported or the writer fails, the export reports an error. If a stream ends early or its reader fails, the reader gets the whole records that came before and then an error, unless the cut is at a record boundary of a format without an end mark.",
 ["inputs", "fault_sequences"], "every content, every place of a failure or cut and every number of records within the bounds",
 "tests write two fixed records to a buffer that never fails", IO+[JS,MS], [("Write and Read", "provider/*recordiostream/*.go")],
 runs=[R("ser", "StreamRoundTrip", ("end",), params=dict(n=2), thorough=dict(n=3)), R("ser", "StreamWriteFails", ("history", "writer"), params=dict(n=2), thorough=dict(n=3)),
       R("ser", "Large", max_steps=60000000),
       R("ser", "StreamCut", ("cut", "fails", "whole"), params=dict(n=2), thorough=dict(n=3), thorough_budget_s=600)],
 bounds="up to 2 (thorough 3) records with one arbitrary printable character each (none that JSON escapes), one of their fields an arbitrary number or a text of up to 2 ASCII characters, of any two-byte character or of a fixed set; the reader gives all bytes at once or one at a time; a failure or cut at every byte.",
 assumptions=[JV])
prop("C25", "Serialized records are read back unchanged, and broken ones are errors",
 "A record serialized as JSON or msgpack is read back with the same header and data: as the bound type if the event type is bound, and otherwise as generic data without loss, including 64-bit numbers, whatever its shape; the same goes for metadata. Data that cannot be read back, such as null in JSON, is refused when it is written. A truncated record is an error, and no malformed record makes reading panic.",
 ["inputs"], "every value of each field within the bounds, every cut, and every changed byte",
 "tests use a few fixed events", [JS,MS,"event_identifier.go"], [("Serialize and Deserialize", "provider/*recordserializer/*.go")],
 runs=[R("ser", "Header", ("end",), thorough=dict(more=2), thorough_budget_s=600), R("ser", "Bound", ("end",), thorough=dict(more=2), thorough_budget_s=600), R("ser", "Unbound", ("end",), thorough=dict(more=2), thorough_budget_s=600), R("ser", "Truncated", ("cut", "whole")),
       R("ser", "Shapes", ("end", "refused"), params=dict(depth=1), thorough=dict(depth=2), thorough_budget_s=200), R("ser", "Garbage", ("end",), params=dict(len=2), thorough=dict(len=3)), R("ser", "Corrupt", ("end",), params=dict(step=7), thorough=dict(step=1), thorough_budget_s=300)],
 bounds="one field at a time takes every value: all 64-bit, 32-bit, 16-bit and 8-bit numbers, flags, texts of up to 2 (thorough 4) ASCII characters, of any two-byte character, or from a fixed set with longer and special characters; up to one arbitrary raw byte; cuts at every byte; every value of one byte at every 7th (thorough every) position; arbitrary inputs of up to 2 (thorough 3) bytes; generic values nested 1 (thorough 2) deep.",
 assumptions=[JV],
 note="Metadata is always read in generic form. JSON refuses a record whose data is null, since reading it back is an error by the existing tests.")
