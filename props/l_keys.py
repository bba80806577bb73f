KP=["pkg/crypto/provider/postgreskeystore/postgres_keystore.go","pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go","pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go"]
prop("C34", "Server key stores shred for ever and never overwrite a key",
 "The PostgreSQL, Vault and DynamoDB key stores give every client of the server for each subject the one key that was set first; a later Set for the subject, also after the deletion, while the deletion runs or concurrently with the first Set, fails and changes nothing. After a Delete has succeeded the key is no longer on the server, and every Get reports that it was deleted, never an older state. Any number of subjects can be deleted. When the server or the network fails, every operation reports it, no failure passes for an absent key, no key is overwritten or brought back, and no connection stays behind.",
 ["inputs", "histories", "schedules", "fault_sequences"], "every history of two clients, every schedule of two concurrent operations, and every single failure within the bounds", "tests of these key stores need their servers, and run fixed sequences", KP,
 [("Set, Get, Delete", "pkg/crypto/provider/{postgres,vault,dynamodb}keystore")],
 runs=[R("keys", "History", ("absent", "deleted", "exists", "invalid", "present"), params=dict(kind=k, ops=4), thorough=dict(ops=5)) for k in (0, 1, 2)]
     +[R("keys", "Faults", ("delete", "fault"), params=dict(kind=k)) for k in (0, 1, 2)]
     +[R("keys", "Race", ("delete-get", "delete-set", "set"), params=dict(kind=k), sched="delay", preempt=2, thorough_preempt=3 if k == 1 else 4) for k in (0, 1, 2)]
     +[R("keys", "Used", ("used",), params=dict(kind=0))],
 bounds="histories of 4 (thorough 5) operations by 2 clients over any one-character subjects (Vault: 2 fixed ones) and keys; 2 concurrent operations with 2 (thorough 4, Vault 3) scheduling delays; one failing request, with or without effect.",
 assumptions=["models of the servers: lib/pq and PostgreSQL (models/pq, through the real database/sql), the Vault KV engine version 2 behind the real net/http client (harness/h/keys/vault.go: versions, check-and-set, deletion, destruction), the AWS SDK and DynamoDB (models/aws: conditional writes, update expressions, reads that may be stale unless consistent)",
              "a server that has dropped a key from its current state has dropped it: backups, dead row versions and logs of the servers are outside"],
 note="Deletion of a subject that never had a key is not covered: the stores differ. A key already used by another subject is refused by PostgreSQL only.")
