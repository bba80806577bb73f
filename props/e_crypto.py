CR=["pkg/crypto/crypto.go","pkg/crypto/aes/gcm.go","pkg/crypto/aes/cbc_pkcs5_padding.go","pkg/crypto/xchacha20poly1305/xchacha20poly1305.go"]
KS=["pkg/crypto/provider/inmemorykeystore/inmemory_keystore.go","pkg/crypto/provider/cachekeystore/cache_keystore.go"]
EE=["pkg/crypto/eventencryptor/event_encryptor.go","pkg/crypto/cryptotest/customer_events_gen.go"]
ES=["provider/encryptedstore/encrypted_store.go","provider/encryptedstore/decrypting_record_iterator.go","provider/encryptedstore/decrypting_record_subscriber.go"]
AEAD=["the ciphers are replaced by ideal ones (harness/mcrypto): a sealed text opens exactly under its key, nonce and additional data and reveals nothing but its length; the random source never repeats; base64 is an exact bijection on its valid texts"]
prop("C13", "An encrypted store keeps personal data from its parent and gives it back",
 "Events saved through an encrypted store reach the parent store with every personal field encrypted and all other data unchanged, and every read and subscription of the encrypted store gives the saved events back, however often a record is asked for, in the order and number of the parent; subscribers of either store do not disturb each other, and those of the parent never see personal data in clear. Saving, also when it fails or conflicts, leaves the caller's events as they were, so that saving them again stores the same.",
 ["inputs", "histories"], "every content of the personal fields and every history of saves, conflicts, retries and batches within the bounds",
 "tests save one fixed event and read it once", ES+EE, [("encrypt copies, decrypt once per record", "provider/encryptedstore/*.go")],
 runs=[R("crypt", "Store", ("batch", "end", "retry"), params=dict(deletes=0, ops=2), thorough=dict(ops=3), budget_s=100, thorough_budget_s=700),
       R("crypt", "Subscribers", ("deleted", "live"), params=dict(ops=2), thorough=dict(ops=3, subscribers=3)),
       R("crypt", "Subscribers", ("deleted", "live"), params=dict(ops=1), sched="delay", preempt=1, thorough_preempt=2)],
 bounds="histories of 2 (thorough 3) saves, retries after a conflict, or batches of 3, of 4 kinds of events and 2 subjects, over the in-memory store; up to 2 (thorough 3) subscribers and one of the parent, also with 1 (2) scheduling delays and any data race; fields of 0 to 2 arbitrary control bytes, months and years of 1 or 2 digits.",
 assumptions=AEAD+["self-encrypting events keep their personal data in their own fields (as generated code does), since the store encrypts a copy of the event"])
prop("C14", "Deleting a subject's key shreds its personal data and nothing else",
 "After the encryption key of a subject was deleted, no read or subscription of the encrypted store and no restart of the key cache gives its personal data: its events are read with the personal fields redacted, while the events of other subjects and the other fields are read as before, and no read ends early. Saving personal data for the subject is refused and stores nothing.",
 ["inputs", "histories"], "every content and every history of saves, key deletions and restarts within the bounds",
 "tests decrypt one event after deleting its key", ES+EE+KS, [("redaction on ErrKeyWasDeleted", "pkg/crypto/cryptotest/customer_events_gen.go, provider/encryptedstore/decrypting_record_iterator.go")],
 runs=[R("crypt", "Store", ("batch", "deleted", "end", "retry"), params=dict(deletes=1, ops=2), thorough=dict(ops=3), budget_s=120, thorough_budget_s=700),
       R("crypt", "Store", ("batch", "deleted", "end", "retry"), params=dict(deletes=1, ops=2, engine=1), tier="thorough", budget_s=120),
       R("crypt", "Subscribers", ("deleted", "live"), params=dict(ops=2))],
 bounds="histories of 2 (thorough 3) operations as in C13 and deletions of keys with or without a restart of the cache, for 2 subjects.", assumptions=AEAD)
prop("C15", "Encryption round-trips and refuses what was not encrypted with the key",
 "Each encryptor decrypts what it encrypted with the same valid key to the same text, never uses a nonce twice, and its cipher text does not show the plain text. With another key, with a changed cipher text (for the authenticated ciphers), with an invalid key, or with arbitrary text as cipher text, decryption returns an error and never panics. A failing random source fails the encryption.",
 ["inputs"], "every plain text, key and cipher text within the length bounds, every change of a cipher text",
 "tests use fixed texts", CR, [("Encrypt and Decrypt", "pkg/crypto/aes/*.go, pkg/crypto/xchacha20poly1305/xchacha20poly1305.go")],
 runs=[R("crypt", "RoundTrip", ("bad-key", "other-key", "roundtrip")), R("crypt", "Malformed", ("returned", "bad-padding", "valid")),
       R("crypt", "Tampered", ("returned",)), R("crypt", "Texts", ("returned",)), R("crypt", "NoRandomness", ("returned",))],
 bounds="plain texts of up to 17 bytes, keys of all lengths up to 33 bytes, cipher texts of up to 49 bytes, arbitrary texts of up to 4 bytes.", assumptions=AEAD,
 note="AES/CBC has no authentication; for it a changed cipher text only must not panic.")
prop("C16", "Key stores keep one key per subject, and a deleted one never comes back",
 "A key store gives for each subject the key that was set first; a second set for the subject fails and changes nothing, an empty key or a key already used is refused. After a deletion the subject's key is reported as deleted, for ever and by every later get and set, also through a cache that is emptied or restarted, under concurrent calls, and when one of the stores behind the cache fails.",
 ["histories", "schedules", "fault_sequences"], "every history of operations, every schedule of two concurrent operations and every single failure within the bounds",
 "tests run one fixed sequence per case", KS, [("Get, Set, Delete", "pkg/crypto/provider/*/*.go")],
 runs=[R("crypt", "KeyStore", ("deleted", "exists", "present", "restart", "used"), params=dict(ops=3), thorough=dict(ops=5)),
       R("crypt", "KeyFaults", ("deleted", "kept")), R("crypt", "KeyRace", ("delete", "get", "set"), sched="delay", preempt=3, thorough_preempt=5),
       R("crypt", "KeyRace", ("delete", "get", "set"), params=dict(n=3), sched="delay", preempt=2, thorough_preempt=3)],
 bounds="the in-memory key store and the cache over two in-memory stores: histories of 3 (thorough 5) operations over arbitrary subjects; 2 concurrent operations with 3, 3 with 2 (thorough 5, 3) scheduling delays; one failing operation.",
 note="The Vault, DynamoDB and PostgreSQL key stores are the subject of C34.")
prop("C17", "Events are encrypted under one fresh key per subject",
 "Encrypting a subject's first event creates a key of 256 random bits for it, all later events of the subject use this key and no other subject's, also when first events are encrypted concurrently; decryption never creates a key. After the key's deletion encryption and decryption report it, redact the personal fields, and never create a new key. If the key store or the random source fails, encryption fails, the event is unchanged and no key is left behind.",
 ["histories", "schedules", "fault_sequences"], "every history of encryptions, decryptions, deletions and restarts, every schedule of two first encryptions, and every failing step within the bounds",
 "tests encrypt one event at a time with working parts", EE+["pkg/crypto/crypto.go"]+KS, [("engine.Encrypt/Decrypt", "pkg/crypto/eventencryptor/event_encryptor.go")],
 runs=[R("crypt", "EventKeys", ("deleted", "no-key", "roundtrip"), params=dict(ops=4), thorough=dict(ops=5)),
       R("crypt", "FirstUse", ("encrypted",), sched="delay", preempt=3, thorough_preempt=5),
       R("crypt", "EncryptorFaults", ("recovered",))],
 bounds="histories of 4 (thorough 5) operations over 2 subjects; 2 concurrent first encryptions with 3 (thorough 5) scheduling delays; random sources failing after 0 to 31 bytes.", assumptions=AEAD)
