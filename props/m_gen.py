prop("C35", "Generated event code hides all that is marked as personal data, or is refused",
 "For every declaration of events, the code of the event generator encrypts each field that is marked as personal data, for the event's subject, restores it on decryption, removes it when the subject's key was deleted, leaves the event as it was when encryption fails otherwise, and leaves all other fields alone; a declaration for which it cannot do so is refused instead of being generated with personal data in the clear. The code of the command, aggregate and binder generators identifies commands and events by their declared names, loads an aggregate's own events in order, hands each command to its handler, returns what it raised exactly once, and binds every event of the files.",
 ["inputs"], "every content of the events of a family of declarations (marked, unmarked, grouped, nested, embedded, serialized fields, tags in any notation, all positions of the subject), every failure point", "tests compare the generated text of a few declarations; they neither run it nor try other declarations",
 ["pkg/eventparser/event_parser.go","pkg/eventparser/event_writer.go","pkg/aggregategenerator/write_aggregate.go","pkg/commandgenerator/write_command.go","pkg/structparser/struct_names.go","gen/eventgenerator/main.go","gen/eventbinder/main.go","gen/aggregategenerator/main.go","gen/commandgenerator/main.go"],
 [("GetEvents", "pkg/eventparser/event_parser.go"), ("WriteEvents, fileTemplate", "pkg/eventparser/event_writer.go"), ("Write, fileTemplate", "pkg/aggregategenerator/write_aggregate.go")],
 runs=[R("gen", "Events", ("deleted", "failed", "refused", "roundtrip")),
       R("gen", "Aggregates", params=dict(records=2, commands=1), thorough=dict(records=3)),
       R("gen", "Aggregates", params=dict(records=1, commands=2), thorough=dict(records=2), thorough_budget_s=400),
       R("gen", "Binder")],
 bounds="the code generated for 211 declarations of up to 4 parts, and for 15 aggregates with up to 3 commands and 3 events, all from the generators of the tree under test; any ASCII content of texts, numbers from -99 to 999; 2 records and 1 command, or 1 record and 2 commands (thorough 3 and 1, 2 and 2); every failure of the encryptor.",
 assumptions=["the encryptor is an ideal one (harness/h/gen)", "declarations are a generated family: the generators run as programs on them, and what they write is compiled and encoded; text/template and go/parser are not encoded themselves"],
 note="That generated code does not compile, as for fields named like Go keywords, counts as refused: it shows.")
