From 3d60369c4d9f214ba0e1747b09dbbdba5d1a5771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 01/69] fix: in-memory store rolls back a failed batch
 completely

A batch refused for a mismatched aggregate type or ID, or cancelled half
way, left its first events stored; the rollback of other failures trimmed
the stream named after the aggregate instead of the stream saved to; and a
serialization failure left a gap in the global sequence numbers.
---
 provider/inmemorystore/inmemory_store.go | 27 +++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 5f7f5fe..00a26b4 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -235,13 +235,15 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	var createdGlobalSequenceNumbers []uint64
 
 	s.mux.Lock()
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
@@ -251,6 +253,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 
 		select {
 		case <-ctx.Done():
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, context.Canceled
 
@@ -268,7 +271,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			eventRecord.Metadata,
 		)
 		if err != nil {
-			s.removeRecentEvents(createdGlobalSequenceNumbers, eventRecord.Event.AggregateType(), eventRecord.Event.AggregateID())
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, err
 		}
@@ -312,8 +315,7 @@ func (s *inMemoryStore) saveEvent(
 		}
 	}
 
-	s.globalSequenceNumber++
-	globalSequenceNumber := s.globalSequenceNumber
+	globalSequenceNumber := s.globalSequenceNumber + 1
 
 	record := &rangedb.Record{
 		StreamName:           streamName,
@@ -333,6 +335,7 @@ func (s *inMemoryStore) saveEvent(
 		return nil, nil, err
 	}
 
+	s.globalSequenceNumber = globalSequenceNumber
 	s.records = append(s.records, globalSequenceNumber)
 	s.recordData[globalSequenceNumber] = data
 	s.streams[streamName] = append(s.streams[streamName], globalSequenceNumber)
@@ -341,18 +344,22 @@ func (s *inMemoryStore) saveEvent(
 	return data, record, nil
 }
 
-func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, aggregateType, aggregateID string) {
-	stream := rangedb.GetStream(aggregateType, aggregateID)
-
+func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, streamName, aggregateType string) {
 	for _, globalSequenceNumber := range globalSequenceNumbers {
 		delete(s.recordData, globalSequenceNumber)
 	}
 
 	total := len(globalSequenceNumbers)
+	if total == 0 {
+		return
+	}
 
 	s.globalSequenceNumber -= uint64(total)
 	s.records = rTrimFromUint64Slice(s.records, total)
-	s.streams[stream] = rTrimFromUint64Slice(s.streams[stream], total)
+	s.streams[streamName] = rTrimFromUint64Slice(s.streams[streamName], total)
+	if len(s.streams[streamName]) == 0 {
+		delete(s.streams, streamName)
+	}
 	s.aggregateTypes[aggregateType] = rTrimFromUint64Slice(s.aggregateTypes[aggregateType], total)
 }
 
-- 
2.43.0


From 3233bd16bcb7b6ab91c5f77bae8469097db2ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 02/69] fix: in-memory store broadcasts records in commit order

Records were handed to the broadcaster after the lock was released, so two
concurrent saves could be announced in the wrong order, and subscribers
dropped the event with the smaller global sequence number.
---
 provider/inmemorystore/inmemory_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 00a26b4..1b42344 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -286,7 +286,6 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			*expectedStreamSequenceNumber++
 		}
 	}
-	s.mux.Unlock()
 
 	for _, data := range pendingEventsData {
 		deSerializedRecord, err := s.serializer.Deserialize(data)
@@ -296,6 +295,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			s.logger.Print(err)
 		}
 	}
+	s.mux.Unlock()
 
 	return lastStreamSequenceNumber, nil
 }
-- 
2.43.0


From dcd2f12e7f13f30bcce01c1da01ab818e01ad883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 03/69] fix: in-memory store reads several aggregate types in
 one consistent step

EventsByAggregateTypes took the read lock again for every type while its
earlier iterators still held it: a pending writer in between deadlocked the
store for good, and a save between two types gave a result that no moment
had. A type given twice returned its events twice. An iterator also kept
the store locked until it was drained, so that a consumer that saves
deadlocked.
---
 provider/inmemorystore/inmemory_store.go | 53 +++++++++++++++++-------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 1b42344..914732b 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"log"
+	"sort"
 	"sync"
 	"time"
 
@@ -99,18 +100,28 @@ func (s *inMemoryStore) Events(ctx context.Context, globalSequenceNumber uint64)
 }
 
 func (s *inMemoryStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
-	if len(aggregateTypes) == 1 {
-		s.mux.RLock()
-		return s.recordsByIDs(ctx, s.aggregateTypes[aggregateTypes[0]], compareByGlobalSequenceNumber(globalSequenceNumber))
-	}
+	s.mux.RLock()
+
+	return s.recordsByIDs(ctx, s.idsByAggregateTypes(aggregateTypes), compareByGlobalSequenceNumber(globalSequenceNumber))
+}
 
-	var recordIterators []rangedb.RecordIterator
+// idsByAggregateTypes returns the sorted global sequence numbers of all events with any of the aggregate types.
+func (s *inMemoryStore) idsByAggregateTypes(aggregateTypes []string) []uint64 {
+	var ids []uint64
+	seen := make(map[string]struct{}, len(aggregateTypes))
 	for _, aggregateType := range aggregateTypes {
-		s.mux.RLock()
-		recordIterators = append(recordIterators, s.recordsByIDs(ctx, s.aggregateTypes[aggregateType], compareByGlobalSequenceNumber(globalSequenceNumber)))
+		if _, ok := seen[aggregateType]; ok {
+			continue
+		}
+		seen[aggregateType] = struct{}{}
+		ids = append(ids, s.aggregateTypes[aggregateType]...)
 	}
 
-	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
+	sort.Slice(ids, func(i, j int) bool {
+		return ids[i] < ids[j]
+	})
+
+	return ids
 }
 
 func compareByGlobalSequenceNumber(globalSequenceNumber uint64) func(record *rangedb.Record) bool {
@@ -132,20 +143,26 @@ func (s *inMemoryStore) EventsByStream(ctx context.Context, streamSequenceNumber
 	})
 }
 
+// recordsByIDs takes over a read lock, and releases it before any record is consumed.
 func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare func(record *rangedb.Record) bool) rangedb.RecordIterator {
 	resultRecords := make(chan rangedb.ResultRecord)
 
+	var recordsData [][]byte
+	recordMissing := false
+	for _, id := range ids {
+		recordData, exists := s.recordData[id]
+		if !exists {
+			recordMissing = true
+			break
+		}
+		recordsData = append(recordsData, recordData)
+	}
+	s.mux.RUnlock()
+
 	go func() {
-		defer s.mux.RUnlock()
 		defer close(resultRecords)
 
-		for _, id := range ids {
-			recordData, exists := s.recordData[id]
-			if !exists {
-				resultRecords <- rangedb.ResultRecord{Err: fmt.Errorf("record missing")}
-				return
-			}
-
+		for _, recordData := range recordsData {
 			record, err := s.serializer.Deserialize(recordData)
 			if err != nil {
 				deserializeErr := fmt.Errorf("failed to deserialize record: %v", err)
@@ -160,6 +177,10 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 				}
 			}
 		}
+
+		if recordMissing {
+			resultRecords <- rangedb.ResultRecord{Err: fmt.Errorf("record missing")}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
-- 
2.43.0


From 29bc3689107defb07e25d8a837af459156f9c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 04/69] fix: LevelDB store always closes its transaction

A refused delete, and a failing commit, left the write transaction open:
every later save or delete blocked forever.
---
 provider/leveldbstore/leveldb_store.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 031a4bf..420674e 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -145,6 +145,7 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	if err != nil {
 		return err
 	}
+	defer transaction.Discard()
 
 	iter := s.db.NewIterator(util.BytesPrefix([]byte(getStreamKeyPrefix(streamName))), nil)
 	defer iter.Release()
@@ -215,15 +216,14 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	if err != nil {
 		return 0, err
 	}
+	defer transaction.Discard()
 
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
-			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
-			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
@@ -245,7 +245,6 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 			eventRecord.Metadata,
 		)
 		if err != nil {
-			transaction.Discard()
 			return 0, err
 		}
 
-- 
2.43.0


From 93347870429d653a54ddaa3d50027c798a68dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 05/69] fix: LevelDB store refuses a mixed batch that starts
 with an empty type or ID

---
 provider/leveldbstore/leveldb_store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 420674e..3de041e 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -218,12 +218,12 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	}
 	defer transaction.Discard()
 
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
-- 
2.43.0


From 50b907d47ba206bfd7e6cacf979f13446f9e4fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 06/69] fix: LevelDB store keeps streams and aggregate types
 apart whose names extend each other

The keys of a stream named a$!x share the key prefix of the stream a, so
that the events of one were read, numbered and deleted as the other's.
---
 provider/leveldbstore/leveldb_store.go | 29 +++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 3de041e..e7f0888 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -32,6 +32,7 @@ const (
 	streamPrefix            = "$s$"
 	aggregateTypePrefix     = "$at$"
 	globalSequenceNumberKey = "$gsn$"
+	sequenceNumberSize      = 8
 )
 
 type levelDbStore struct {
@@ -153,6 +154,10 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	cnt := uint64(0)
 	batch := new(leveldb.Batch)
 	for iter.Next() {
+		if !isNumberedKey(iter.Key(), getStreamKeyPrefix(streamName)) {
+			continue
+		}
+
 		cnt++
 		record, err := s.getRecordByValue(iter.Value())
 		if err != nil {
@@ -376,6 +381,10 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		cnt := 0
 
 		for iter.Next() {
+			if !isNumberedKey(iter.Key(), prefix) {
+				continue
+			}
+
 			cnt++
 
 			record, err := s.getRecordByValue(iter.Value())
@@ -424,6 +433,10 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 		}
 
 		for iter.Next() {
+			if !isNumberedKey(iter.Key(), key) {
+				continue
+			}
+
 			targetKey := iter.Value()
 
 			record, err := s.getRecordByLookup(targetKey, iter)
@@ -477,6 +490,12 @@ func getKeyWithNumber(inputKey string, number uint64) []byte {
 	return append([]byte(inputKey), uint64ToBytes(number)...)
 }
 
+// isNumberedKey returns true for keys made by getKeyWithNumber from the prefix. The name of another stream, or
+// aggregate type, can extend this one's with the separator; its keys share the prefix, and are longer.
+func isNumberedKey(key []byte, prefix string) bool {
+	return len(key) == len(prefix)+sequenceNumberSize && bytes.HasPrefix(key, []byte(prefix))
+}
+
 func uint64ToBytes(number uint64) []byte {
 	var buf bytes.Buffer
 	_ = binary.Write(&buf, binary.BigEndian, number)
@@ -509,12 +528,12 @@ func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream st
 
 func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
-	iter.Last()
+	defer iter.Release()
 
-	keySize := len(key)
-	if len(iter.Key()) > keySize {
-		lastSequenceNumber := bytesToUint64(iter.Key()[keySize:])
-		return lastSequenceNumber
+	for found := iter.Last(); found; found = iter.Prev() {
+		if isNumberedKey(iter.Key(), key) {
+			return bytesToUint64(iter.Key()[len(key):])
+		}
 	}
 
 	return 0
-- 
2.43.0


From ade799cc5de5efd428d036190d52f5dad34326e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 07/69] fix: LevelDB store reports I/O errors instead of
 reading them as an empty store

An error while reading the sequence numbers counted as zero, so that the
next save overwrote the first event of the stream or reused global sequence
numbers, and an error while iterating silently ended the events.
---
 provider/leveldbstore/leveldb_store.go | 51 ++++++++++++++++++--------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index e7f0888..41a92c2 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -172,6 +172,10 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		batch.Delete(allEventsKey)
 	}
 
+	if err := iter.Error(); err != nil {
+		return err
+	}
+
 	if cnt == 0 {
 		return rangedb.ErrStreamNotFound
 	}
@@ -183,8 +187,6 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		}
 	}
 
-	_ = iter.Error()
-
 	err = transaction.Write(batch, nil)
 	if err != nil {
 		return err
@@ -286,7 +288,10 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 	default:
 	}
 
-	streamSequenceNumber := s.getStreamSequenceNumber(transaction, streamName)
+	streamSequenceNumber, err := s.getStreamSequenceNumber(transaction, streamName)
+	if err != nil {
+		return nil, 0, err
+	}
 
 	if expectedStreamSequenceNumber != nil && *expectedStreamSequenceNumber != streamSequenceNumber {
 		return nil, 0, &rangedberror.UnexpectedSequenceNumber{
@@ -295,7 +300,12 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 		}
 	}
 
-	globalSequenceNumber := s.getGlobalSequenceNumber(transaction) + 1
+	lastGlobalSequenceNumber, err := s.getGlobalSequenceNumber(transaction)
+	if err != nil {
+		return nil, 0, err
+	}
+
+	globalSequenceNumber := lastGlobalSequenceNumber + 1
 
 	record := &rangedb.Record{
 		StreamName:           streamName,
@@ -364,7 +374,7 @@ func (s *levelDbStore) TotalEventsInStream(ctx context.Context, streamName strin
 	default:
 	}
 
-	return s.getStreamSequenceNumber(s.db, streamName), nil
+	return s.getStreamSequenceNumber(s.db, streamName)
 }
 
 func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, streamSequenceNumber uint64) rangedb.RecordIterator {
@@ -402,12 +412,15 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 			}
 		}
 
+		if err := iter.Error(); err != nil {
+			resultRecords <- rangedb.ResultRecord{Err: err}
+			return
+		}
+
 		if cnt == 0 {
 			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
 			return
 		}
-
-		_ = iter.Error()
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -453,6 +466,10 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 				return
 			}
 		}
+
+		if err := iter.Error(); err != nil {
+			resultRecords <- rangedb.ResultRecord{Err: err}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -512,29 +529,31 @@ type dbNewIterable interface {
 	NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator
 }
 
-func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) uint64 {
-	var globalSequenceNumber uint64
+func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) (uint64, error) {
 	globalSequenceNumberBytes, err := transaction.Get([]byte(globalSequenceNumberKey), nil)
-	if err == nil {
-		globalSequenceNumber = bytesToUint64(globalSequenceNumberBytes)
+	if err == leveldb.ErrNotFound {
+		return 0, nil
+	}
+	if err != nil {
+		return 0, err
 	}
 
-	return globalSequenceNumber
+	return bytesToUint64(globalSequenceNumberBytes), nil
 }
 
-func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream string) uint64 {
+func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream string) (uint64, error) {
 	return s.getSequenceNumber(iterable, getStreamKeyPrefix(stream))
 }
 
-func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
+func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) (uint64, error) {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
 	defer iter.Release()
 
 	for found := iter.Last(); found; found = iter.Prev() {
 		if isNumberedKey(iter.Key(), key) {
-			return bytesToUint64(iter.Key()[len(key):])
+			return bytesToUint64(iter.Key()[len(key):]), nil
 		}
 	}
 
-	return 0
+	return 0, iter.Error()
 }
-- 
2.43.0


From 63df4751cf7b998042ebcbdcd906694d694aa961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 08/69] fix: LevelDB store iterators read a snapshot instead of
 holding the lock

EventsByAggregateTypes took the read lock again for every type while its
earlier iterators still held it: a pending writer in between deadlocked the
store for good, and a save between two types gave a result that no moment
had. A type given twice returned its events twice. An iterator also kept
the store locked until it was drained, so that a consumer that saves
deadlocked.
---
 provider/leveldbstore/leveldb_store.go | 50 +++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 41a92c2..326ecca 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -44,6 +44,9 @@ type levelDbStore struct {
 	logger *log.Logger
 	mux    sync.RWMutex
 	db     *leveldb.DB
+
+	// readers counts open iterators. They read a snapshot, and do not hold the mutex while records are consumed.
+	readers sync.WaitGroup
 }
 
 // Option defines functional option parameters for levelDbStore.
@@ -103,6 +106,7 @@ func New(dbFilePath string, options ...Option) (*levelDbStore, error) {
 func (s *levelDbStore) Stop() error {
 	s.mux.Lock()
 	defer s.mux.Unlock()
+	s.readers.Wait()
 	return s.db.Close()
 }
 
@@ -111,16 +115,27 @@ func (s *levelDbStore) Bind(events ...rangedb.Event) {
 }
 
 func (s *levelDbStore) Events(ctx context.Context, globalSequenceNumber uint64) rangedb.RecordIterator {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	return s.getEventsByLookup(ctx, allEventsPrefix, globalSequenceNumber)
 }
 
 func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	if len(aggregateTypes) == 1 {
 		return s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateTypes[0]), globalSequenceNumber)
 	}
 
 	var recordIterators []rangedb.RecordIterator
+	seen := make(map[string]struct{}, len(aggregateTypes))
 	for _, aggregateType := range aggregateTypes {
+		if _, ok := seen[aggregateType]; ok {
+			continue
+		}
+		seen[aggregateType] = struct{}{}
 		recordIterators = append(recordIterators, s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateType), globalSequenceNumber))
 	}
 
@@ -128,6 +143,9 @@ func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenc
 }
 
 func (s *levelDbStore) EventsByStream(ctx context.Context, streamSequenceNumber uint64, stream string) rangedb.RecordIterator {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	return s.getEventsByPrefix(ctx, getStreamKeyPrefix(stream), streamSequenceNumber)
 }
 
@@ -377,15 +395,22 @@ func (s *levelDbStore) TotalEventsInStream(ctx context.Context, streamName strin
 	return s.getStreamSequenceNumber(s.db, streamName)
 }
 
+// getEventsByPrefix must be called with the mutex locked.
 func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, streamSequenceNumber uint64) rangedb.RecordIterator {
 	resultRecords := make(chan rangedb.ResultRecord)
-	s.mux.RLock()
+
+	snapshot, err := s.db.GetSnapshot()
+	if err != nil {
+		return rangedb.NewRecordIteratorWithError(err)
+	}
+	s.readers.Add(1)
 
 	go func() {
-		defer s.mux.RUnlock()
+		defer s.readers.Done()
+		defer snapshot.Release()
 		defer close(resultRecords)
 
-		iter := s.db.NewIterator(util.BytesPrefix([]byte(prefix)), nil)
+		iter := snapshot.NewIterator(util.BytesPrefix([]byte(prefix)), nil)
 		defer iter.Release()
 
 		cnt := 0
@@ -426,15 +451,22 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 	return rangedb.NewRecordIterator(resultRecords)
 }
 
+// getEventsByLookup must be called with the mutex locked.
 func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, globalSequenceNumber uint64) rangedb.RecordIterator {
 	resultRecords := make(chan rangedb.ResultRecord)
-	s.mux.RLock()
+
+	snapshot, err := s.db.GetSnapshot()
+	if err != nil {
+		return rangedb.NewRecordIteratorWithError(err)
+	}
+	s.readers.Add(1)
 
 	go func() {
-		defer s.mux.RUnlock()
+		defer s.readers.Done()
+		defer snapshot.Release()
 		defer close(resultRecords)
 
-		iter := s.db.NewIterator(util.BytesPrefix([]byte(key)), nil)
+		iter := snapshot.NewIterator(util.BytesPrefix([]byte(key)), nil)
 		defer iter.Release()
 
 		if globalSequenceNumber > 0 {
@@ -452,7 +484,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 
 			targetKey := iter.Value()
 
-			record, err := s.getRecordByLookup(targetKey, iter)
+			record, err := s.getRecordByLookup(snapshot, targetKey, iter)
 			if err != nil {
 				resultRecords <- rangedb.ResultRecord{Err: err}
 				return
@@ -475,8 +507,8 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 	return rangedb.NewRecordIterator(resultRecords)
 }
 
-func (s *levelDbStore) getRecordByLookup(targetKey []byte, iter iterator.Iterator) (*rangedb.Record, error) {
-	data, err := s.db.Get(targetKey, nil)
+func (s *levelDbStore) getRecordByLookup(snapshot *leveldb.Snapshot, targetKey []byte, iter iterator.Iterator) (*rangedb.Record, error) {
+	data, err := snapshot.Get(targetKey, nil)
 	if err != nil {
 		s.logger.Printf("unable to find lookup record %s for %s: %v", targetKey, iter.Key(), err)
 		return nil, err
-- 
2.43.0


From 70a97666ff1dc4122c47269d88ceb8b640da4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:12 +0000
Subject: [PATCH 09/69] fix: merging record iterators passes on the error of an
 iterator

---
 merge_record_iterators.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/merge_record_iterators.go b/merge_record_iterators.go
index 3113ebb..cac73b5 100644
--- a/merge_record_iterators.go
+++ b/merge_record_iterators.go
@@ -22,7 +22,8 @@ func (p *pipe) IsNextGlobalSequenceNumber(currentPosition uint64) bool {
 	return p.currentResultRecord.Record.GlobalSequenceNumber == currentPosition+1
 }
 
-// MergeRecordIteratorsInOrder combines record channels ordered by record.GlobalSequenceNumber.
+// MergeRecordIteratorsInOrder combines record channels ordered by record.GlobalSequenceNumber. It ends
+// with the first error of any of them.
 func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterator {
 	resultRecords := make(chan ResultRecord)
 
@@ -34,6 +35,10 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			pipe := newPipe(recordIterator)
 			if pipe.ReadNext() {
 				pipes = append(pipes, pipe)
+			} else if pipe.currentResultRecord.Err != nil {
+				resultRecords <- pipe.currentResultRecord
+				drain(recordIterators)
+				return
 			}
 		}
 
@@ -47,6 +52,11 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 			if !pipes[i].ReadNext() {
+				if pipes[i].currentResultRecord.Err != nil {
+					resultRecords <- pipes[i].currentResultRecord
+					drain(recordIterators)
+					return
+				}
 				pipes = remove(pipes, i)
 				continue
 			}
@@ -57,6 +67,11 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 				currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 				if !pipes[i].ReadNext() {
+					if pipes[i].currentResultRecord.Err != nil {
+						resultRecords <- pipes[i].currentResultRecord
+						drain(recordIterators)
+						return
+					}
 					pipes = remove(pipes, i)
 					break
 				}
@@ -67,6 +82,14 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 	return NewRecordIterator(resultRecords)
 }
 
+// drain reads every iterator to its end, so that no producer is left blocked.
+func drain(recordIterators []RecordIterator) {
+	for _, recordIterator := range recordIterators {
+		for recordIterator.Next() {
+		}
+	}
+}
+
 func remove(s []*pipe, i int) []*pipe {
 	s[i] = s[len(s)-1]
 	return s[:len(s)-1]
-- 
2.43.0


From 4a60024b07ac19a5e8a6184cf8d96792dc0bb4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:12 +0000
Subject: [PATCH 10/69] fix: ParseStream keeps separators in the aggregate ID
 and accepts names without one

---
 store.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/store.go b/store.go
index 8dbeacb..f36e363 100644
--- a/store.go
+++ b/store.go
@@ -130,9 +130,14 @@ func GetStream(aggregateType, aggregateID string) string {
 	return fmt.Sprintf("%s!%s", aggregateType, aggregateID)
 }
 
-// ParseStream returns the aggregateType and aggregateID for a stream name.
+// ParseStream returns the aggregateType and aggregateID for a stream name. The aggregateID may
+// contain the separator. A name without a separator is an aggregateType without an aggregateID.
 func ParseStream(streamName string) (aggregateType, aggregateID string) {
-	pieces := strings.Split(streamName, "!")
+	pieces := strings.SplitN(streamName, "!", 2)
+	if len(pieces) < 2 {
+		return streamName, ""
+	}
+
 	return pieces[0], pieces[1]
 }
 
-- 
2.43.0


From 7a743909b863e08814fc3f7185b0af321cae47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 11/69] fix: a merged record iterator reads on demand, so that
 abandoning it leaks no goroutine

---
 merge_record_iterators.go | 121 ++++++++++++++++++++++----------------
 1 file changed, 69 insertions(+), 52 deletions(-)

diff --git a/merge_record_iterators.go b/merge_record_iterators.go
index cac73b5..86ccb81 100644
--- a/merge_record_iterators.go
+++ b/merge_record_iterators.go
@@ -1,5 +1,9 @@
 package rangedb
 
+import (
+	"context"
+)
+
 type pipe struct {
 	recordIterator      RecordIterator
 	currentResultRecord ResultRecord
@@ -9,77 +13,90 @@ func newPipe(recordIterator RecordIterator) *pipe {
 	return &pipe{recordIterator: recordIterator}
 }
 
-func (p *pipe) ReadNext() bool {
-	p.recordIterator.Next()
+func (p *pipe) ReadNext(next nextFunc) bool {
+	next(p.recordIterator)
 	p.currentResultRecord = ResultRecord{
 		Record: p.recordIterator.Record(),
 		Err:    p.recordIterator.Err(),
 	}
-	return p.currentResultRecord.Record != nil
+	return p.currentResultRecord.Err == nil && p.currentResultRecord.Record != nil
 }
 
-func (p *pipe) IsNextGlobalSequenceNumber(currentPosition uint64) bool {
-	return p.currentResultRecord.Record.GlobalSequenceNumber == currentPosition+1
+type nextFunc func(RecordIterator) bool
+
+type mergedRecordIterator struct {
+	recordIterators []RecordIterator
+	pipes           []*pipe
+	isStarted       bool
+	current         ResultRecord
+	currentPipe     int
 }
 
-// MergeRecordIteratorsInOrder combines record channels ordered by record.GlobalSequenceNumber. It ends
-// with the first error of any of them.
+// MergeRecordIteratorsInOrder combines record iterators ordered by record.GlobalSequenceNumber. It ends
+// with the first error of any of them. Records are read on demand: abandoning it leaves nothing behind.
 func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterator {
-	resultRecords := make(chan ResultRecord)
-
-	go func() {
-		defer close(resultRecords)
+	return &mergedRecordIterator{recordIterators: recordIterators}
+}
 
-		var pipes []*pipe
-		for _, recordIterator := range recordIterators {
-			pipe := newPipe(recordIterator)
-			if pipe.ReadNext() {
-				pipes = append(pipes, pipe)
-			} else if pipe.currentResultRecord.Err != nil {
-				resultRecords <- pipe.currentResultRecord
-				drain(recordIterators)
-				return
-			}
-		}
+func (m *mergedRecordIterator) Next() bool {
+	return m.readNext(func(recordIterator RecordIterator) bool {
+		return recordIterator.Next()
+	})
+}
 
-		var currentPosition uint64
+func (m *mergedRecordIterator) NextContext(ctx context.Context) bool {
+	return m.readNext(func(recordIterator RecordIterator) bool {
+		return recordIterator.NextContext(ctx)
+	})
+}
 
-		for len(pipes) > 0 {
-			i := getIndexWithSmallestGlobalSequenceNumber(pipes)
+func (m *mergedRecordIterator) Record() *Record {
+	return m.current.Record
+}
 
-			resultRecords <- pipes[i].currentResultRecord
+func (m *mergedRecordIterator) Err() error {
+	return m.current.Err
+}
 
-			currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
+func (m *mergedRecordIterator) readNext(next nextFunc) bool {
+	if m.current.Err != nil {
+		return false
+	}
 
-			if !pipes[i].ReadNext() {
-				if pipes[i].currentResultRecord.Err != nil {
-					resultRecords <- pipes[i].currentResultRecord
-					drain(recordIterators)
-					return
-				}
-				pipes = remove(pipes, i)
-				continue
+	if !m.isStarted {
+		m.isStarted = true
+		for _, recordIterator := range m.recordIterators {
+			pipe := newPipe(recordIterator)
+			if pipe.ReadNext(next) {
+				m.pipes = append(m.pipes, pipe)
+			} else if pipe.currentResultRecord.Err != nil {
+				return m.fail(pipe.currentResultRecord.Err)
 			}
-
-			for pipes[i].IsNextGlobalSequenceNumber(currentPosition) {
-				resultRecords <- pipes[i].currentResultRecord
-
-				currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
-
-				if !pipes[i].ReadNext() {
-					if pipes[i].currentResultRecord.Err != nil {
-						resultRecords <- pipes[i].currentResultRecord
-						drain(recordIterators)
-						return
-					}
-					pipes = remove(pipes, i)
-					break
-				}
+		}
+	} else if m.current.Record != nil {
+		pipe := m.pipes[m.currentPipe]
+		if !pipe.ReadNext(next) {
+			if pipe.currentResultRecord.Err != nil {
+				return m.fail(pipe.currentResultRecord.Err)
 			}
+			m.pipes = remove(m.pipes, m.currentPipe)
 		}
-	}()
+	}
+
+	if len(m.pipes) == 0 {
+		m.current = ResultRecord{}
+		return false
+	}
+
+	m.currentPipe = getIndexWithSmallestGlobalSequenceNumber(m.pipes)
+	m.current = m.pipes[m.currentPipe].currentResultRecord
+	return true
+}
 
-	return NewRecordIterator(resultRecords)
+func (m *mergedRecordIterator) fail(err error) bool {
+	m.current = ResultRecord{Err: err}
+	go drain(m.recordIterators)
+	return false
 }
 
 // drain reads every iterator to its end, so that no producer is left blocked.
-- 
2.43.0


From ed0a58c13c2da2813150c7d859c2429cc9240a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 12/69] fix: StartFrom delivers the record with the given
 number when it is saved later

---
 pkg/recordsubscriber/record_subscriber.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index cb43a02..1bb9a35 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -55,7 +55,9 @@ func (s *recordSubscriber) Receiver() broadcast.SendRecordChan {
 }
 
 func (s *recordSubscriber) StartFrom(globalSequenceNumber uint64) error {
-	s.lastGlobalSequenceNumber = globalSequenceNumber
+	if globalSequenceNumber > 0 {
+		s.lastGlobalSequenceNumber = globalSequenceNumber - 1
+	}
 	err := s.writeRecords(globalSequenceNumber)
 	if err != nil {
 		return err
-- 
2.43.0


From de8b6efc081a5b64a8d9cde58f08c1fc9967b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 13/69] fix: StartFrom reports a failed read of the history

---
 pkg/recordsubscriber/record_subscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index 1bb9a35..8b74be3 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -137,7 +137,7 @@ func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 		}
 	}
 
-	return nil
+	return iter.Err()
 }
 
 func (s *recordSubscriber) writeRecord(record *rangedb.Record) error {
-- 
2.43.0


From 03d0548fc139ac010f778e2fd1b9f7b00e1df8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 14/69] fix: a subscription whose consumer fails is done

---
 pkg/recordsubscriber/record_subscriber.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index 8b74be3..000dce9 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -110,6 +110,7 @@ func (s *recordSubscriber) work() {
 			err := s.writeRecord(record)
 			if err != nil {
 				s.unsubscribe(s)
+				close(s.finishChan)
 				return
 			}
 		}
-- 
2.43.0


From 286c2d81fadb2a8ffce6f557f687ae4f58f389cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 15/69] fix: a subscriber dropped for one aggregate type
 receives nothing of the others

---
 pkg/broadcast/broadcaster.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 462a41f..d7d32ec 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -130,7 +130,7 @@ func (b *broadcaster) broadcastRecord(record *rangedb.Record) {
 	for subscriber := range b.allEventsSubscribers {
 		select {
 		case <-time.After(b.timeout):
-			delete(b.allEventsSubscribers, subscriber)
+			b.removeSubscriber(subscriber)
 			subscriber.Stop()
 
 		case subscriber.Receiver() <- record:
@@ -140,7 +140,7 @@ func (b *broadcaster) broadcastRecord(record *rangedb.Record) {
 	for subscriber := range b.aggregateTypeSubscribers[record.AggregateType] {
 		select {
 		case <-time.After(b.timeout):
-			delete(b.aggregateTypeSubscribers[record.AggregateType], subscriber)
+			b.removeSubscriber(subscriber)
 			subscriber.Stop()
 
 		case subscriber.Receiver() <- record:
@@ -148,6 +148,14 @@ func (b *broadcaster) broadcastRecord(record *rangedb.Record) {
 	}
 }
 
+// removeSubscriber removes every subscription, so that a subscriber receives nothing after a record it missed.
+func (b *broadcaster) removeSubscriber(subscriber RecordSubscriber) {
+	delete(b.allEventsSubscribers, subscriber)
+	for _, subscribers := range b.aggregateTypeSubscribers {
+		delete(subscribers, subscriber)
+	}
+}
+
 func (b *broadcaster) Close() {
 	close(b.stopChan)
 }
-- 
2.43.0


From bc27785d304ba5aed6656335a14a01cd848dd3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:48 +0000
Subject: [PATCH 16/69] fix: callers of a closed broadcaster do not block

---
 pkg/broadcast/broadcaster.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index d7d32ec..8433790 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -66,34 +66,51 @@ func New(bufferSize int, timeout time.Duration) *broadcaster {
 }
 
 func (b *broadcaster) Accept(record *rangedb.Record) {
-	b.bufferedRecords <- record
+	select {
+	case b.bufferedRecords <- record:
+	case <-b.stopChan:
+	}
 }
 
 func (b *broadcaster) SubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.subscribeAllEvents <- subscriber
+		select {
+		case b.subscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+			subscriber.Stop()
+		}
 	}
 }
 func (b *broadcaster) UnsubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.unsubscribeAllEvents <- subscriber
+		select {
+		case b.unsubscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+		}
 	}
 }
 
 func (b *broadcaster) SubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.subscribeAggregateTypes <- AggregateTypeSubscription{
+		select {
+		case b.subscribeAggregateTypes <- AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
+		}:
+		case <-b.stopChan:
+			subscriber.Stop()
 		}
 	}
 }
 
 func (b *broadcaster) UnsubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.unsubscribeAggregateTypes <- AggregateTypeSubscription{
+		select {
+		case b.unsubscribeAggregateTypes <- AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
+		}:
+		case <-b.stopChan:
 		}
 	}
 }
-- 
2.43.0


From 926339364aa717755515049419428de1536c4872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:33 +0000
Subject: [PATCH 17/69] fix: AES/CBC decryption refuses malformed cipher text
 instead of panicking

---
 pkg/crypto/aes/cbc_pkcs5_padding.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/aes/cbc_pkcs5_padding.go b/pkg/crypto/aes/cbc_pkcs5_padding.go
index d382268..f478ac6 100644
--- a/pkg/crypto/aes/cbc_pkcs5_padding.go
+++ b/pkg/crypto/aes/cbc_pkcs5_padding.go
@@ -85,6 +85,10 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(cipherText) < 2*aes.BlockSize || len(cipherText)%aes.BlockSize != 0 {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	buf := bytes.NewReader(cipherText)
 	initializationVector := make([]byte, aes.BlockSize)
 	if _, err := io.ReadFull(buf, initializationVector); err != nil {
@@ -95,7 +99,7 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 	decrypted := make([]byte, len(cipherText)-aes.BlockSize)
 	ecb.CryptBlocks(decrypted, cipherText[aes.BlockSize:])
 
-	return pkcs5Trimming(decrypted), nil
+	return pkcs5Trimming(decrypted)
 }
 
 func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
@@ -104,7 +108,17 @@ func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
 	return append(ciphertext, padText...)
 }
 
-func pkcs5Trimming(value []byte) []byte {
-	padding := value[len(value)-1]
-	return value[:len(value)-int(padding)]
+func pkcs5Trimming(value []byte) ([]byte, error) {
+	padding := int(value[len(value)-1])
+	if padding < 1 || padding > aes.BlockSize {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
+	for _, b := range value[len(value)-padding:] {
+		if int(b) != padding {
+			return nil, crypto.ErrInvalidCipherText
+		}
+	}
+
+	return value[:len(value)-padding], nil
 }
-- 
2.43.0


From b0e7a570297f59c4381e8aa2eb79cde8f7218bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:33 +0000
Subject: [PATCH 18/69] fix: XChaCha20-Poly1305 decryption refuses short cipher
 text instead of panicking

---
 pkg/crypto/xchacha20poly1305/xchacha20poly1305.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
index 9dfa3aa..f86e635 100644
--- a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
+++ b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
@@ -75,6 +75,10 @@ func (x *xChaCha20Poly1305) decrypt(key, sealedCipherText []byte) ([]byte, error
 	}
 
 	nonceSize := aead.NonceSize()
+	if len(sealedCipherText) < nonceSize {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	nonce, cipherText := sealedCipherText[:nonceSize], sealedCipherText[nonceSize:]
 
 	plaintext, err := aead.Open(nil, nonce, cipherText, nil)
-- 
2.43.0


From d9fe84b60049a5a3e2a0e2e11d3d55d266d29ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:03 +0000
Subject: [PATCH 19/69] fix: the caching key store tolerates concurrent reads
 of an uncached key

---
 .../provider/cachekeystore/cache_keystore.go  | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/crypto/provider/cachekeystore/cache_keystore.go b/pkg/crypto/provider/cachekeystore/cache_keystore.go
index d850f67..55b4ac6 100644
--- a/pkg/crypto/provider/cachekeystore/cache_keystore.go
+++ b/pkg/crypto/provider/cachekeystore/cache_keystore.go
@@ -1,6 +1,8 @@
 package cachekeystore
 
 import (
+	"errors"
+
 	"github.com/inklabs/rangedb/pkg/crypto"
 )
 
@@ -24,7 +26,12 @@ func (c *cacheKeyStore) Get(subjectID string) (string, error) {
 			return "", secondErr
 		}
 
-		return secondKey, c.first.Set(subjectID, secondKey)
+		err = c.setFirst(subjectID, secondKey)
+		if err != nil {
+			return "", err
+		}
+
+		return secondKey, nil
 	}
 
 	return key, nil
@@ -36,7 +43,24 @@ func (c *cacheKeyStore) Set(subjectID, key string) error {
 		return err
 	}
 
-	return c.first.Set(subjectID, key)
+	return c.setFirst(subjectID, key)
+}
+
+// setFirst saves the key to the first store, unless a concurrent call has already saved or deleted it there.
+func (c *cacheKeyStore) setFirst(subjectID, key string) error {
+	err := c.first.Set(subjectID, key)
+	if errors.Is(err, crypto.ErrKeyExistsForSubjectID) || errors.Is(err, crypto.ErrKeyAlreadyUsed) {
+		firstKey, getErr := c.first.Get(subjectID)
+		if getErr != nil {
+			return getErr
+		}
+
+		if firstKey == key {
+			return nil
+		}
+	}
+
+	return err
 }
 
 func (c *cacheKeyStore) Delete(subjectID string) error {
-- 
2.43.0


From 00c30d8a5976fe70909f9e68e9d9efd8aa08704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:03 +0000
Subject: [PATCH 20/69] fix: concurrent first encryptions for a subject share
 the key

---
 pkg/crypto/eventencryptor/event_encryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/crypto/eventencryptor/event_encryptor.go b/pkg/crypto/eventencryptor/event_encryptor.go
index 5ab1705..6b854b1 100644
--- a/pkg/crypto/eventencryptor/event_encryptor.go
+++ b/pkg/crypto/eventencryptor/event_encryptor.go
@@ -62,6 +62,10 @@ func (e *engine) Encrypt(subjectID, data string) (string, error) {
 		}
 
 		err = e.keyStore.Set(subjectID, base64Key)
+		if err == crypto.ErrKeyExistsForSubjectID {
+			// A concurrent call has saved a key for this subject first.
+			base64Key, err = e.keyStore.Get(subjectID)
+		}
 	}
 
 	if err != nil {
-- 
2.43.0


From 658ca54ef43d650e5bcedfb8bc4bd9352d1790b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 21/69] fix: the encrypted store leaves the caller's events
 unencrypted

---
 provider/encryptedstore/encrypted_store.go | 50 +++++++++++++++++-----
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/provider/encryptedstore/encrypted_store.go b/provider/encryptedstore/encrypted_store.go
index 73fc69d..1ee014a 100644
--- a/provider/encryptedstore/encrypted_store.go
+++ b/provider/encryptedstore/encrypted_store.go
@@ -2,6 +2,7 @@ package encryptedstore
 
 import (
 	"context"
+	"reflect"
 
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/crypto"
@@ -41,25 +42,52 @@ func (e *encryptedStore) OptimisticDeleteStream(ctx context.Context, expectedStr
 }
 
 func (e *encryptedStore) OptimisticSave(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-	for _, record := range eventRecords {
-		err := e.eventEncryptor.Encrypt(record.Event)
-		if err != nil {
-			return 0, err
-		}
+	encryptedRecords, err := e.encryptRecords(eventRecords)
+	if err != nil {
+		return 0, err
 	}
 
-	return e.parent.OptimisticSave(ctx, expectedStreamSequenceNumber, streamName, eventRecords...)
+	return e.parent.OptimisticSave(ctx, expectedStreamSequenceNumber, streamName, encryptedRecords...)
 }
 
 func (e *encryptedStore) Save(ctx context.Context, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-	for _, record := range eventRecords {
-		err := e.eventEncryptor.Encrypt(record.Event)
-		if err != nil {
-			return 0, err
+	encryptedRecords, err := e.encryptRecords(eventRecords)
+	if err != nil {
+		return 0, err
+	}
+
+	return e.parent.Save(ctx, streamName, encryptedRecords...)
+}
+
+// encryptRecords encrypts copies of the events. The caller's events are unchanged, and can be saved again after an error.
+func (e *encryptedStore) encryptRecords(eventRecords []*rangedb.EventRecord) ([]*rangedb.EventRecord, error) {
+	encryptedRecords := make([]*rangedb.EventRecord, len(eventRecords))
+
+	for i, record := range eventRecords {
+		event := copyEvent(record.Event)
+		if err := e.eventEncryptor.Encrypt(event); err != nil {
+			return nil, err
 		}
+
+		encryptedRecords[i] = &rangedb.EventRecord{
+			Event:    event,
+			Metadata: record.Metadata,
+		}
+	}
+
+	return encryptedRecords, nil
+}
+
+func copyEvent(event rangedb.Event) rangedb.Event {
+	value := reflect.ValueOf(event)
+	if value.Kind() != reflect.Ptr || value.IsNil() {
+		return event
 	}
 
-	return e.parent.Save(ctx, streamName, eventRecords...)
+	eventCopy := reflect.New(value.Elem().Type())
+	eventCopy.Elem().Set(value.Elem())
+
+	return eventCopy.Interface().(rangedb.Event)
 }
 
 func (e *encryptedStore) AllEventsSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber) rangedb.RecordSubscription {
-- 
2.43.0


From ddc5420b67f710af4a97b675523a78800df20609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:13 +0000
Subject: [PATCH 22/69] fix: the decrypting record iterator decrypts each
 record once

---
 provider/encryptedstore/decrypting_record_iterator.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/provider/encryptedstore/decrypting_record_iterator.go b/provider/encryptedstore/decrypting_record_iterator.go
index 0f75894..15a10ba 100644
--- a/provider/encryptedstore/decrypting_record_iterator.go
+++ b/provider/encryptedstore/decrypting_record_iterator.go
@@ -10,6 +10,7 @@ import (
 type decryptingRecordIterator struct {
 	parent         rangedb.RecordIterator
 	eventEncryptor crypto.EventEncryptor
+	current        *rangedb.Record
 	currentErr     error
 }
 
@@ -26,6 +27,8 @@ func (i *decryptingRecordIterator) Next() bool {
 		return false
 	}
 
+	i.current = nil
+
 	return i.parent.Next()
 }
 
@@ -34,10 +37,16 @@ func (i *decryptingRecordIterator) NextContext(ctx context.Context) bool {
 		return false
 	}
 
+	i.current = nil
+
 	return i.parent.NextContext(ctx)
 }
 
 func (i *decryptingRecordIterator) Record() *rangedb.Record {
+	if i.current != nil || i.currentErr != nil {
+		return i.current
+	}
+
 	record := i.parent.Record()
 
 	if record == nil {
@@ -52,6 +61,8 @@ func (i *decryptingRecordIterator) Record() *rangedb.Record {
 		}
 	}
 
+	i.current = record
+
 	return record
 }
 
-- 
2.43.0


From 9321f74d8fc6240ea0556b9932c2a3bba8ea23e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:38 +0000
Subject: [PATCH 23/69] fix: reading an encrypted store goes on after an event
 whose key was deleted

---
 provider/encryptedstore/decrypting_record_iterator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/encryptedstore/decrypting_record_iterator.go b/provider/encryptedstore/decrypting_record_iterator.go
index 15a10ba..adb5898 100644
--- a/provider/encryptedstore/decrypting_record_iterator.go
+++ b/provider/encryptedstore/decrypting_record_iterator.go
@@ -55,7 +55,7 @@ func (i *decryptingRecordIterator) Record() *rangedb.Record {
 
 	if rangedbEvent, ok := record.Data.(rangedb.Event); ok {
 		err := i.eventEncryptor.Decrypt(rangedbEvent)
-		if err != nil {
+		if err != nil && err != crypto.ErrKeyWasDeleted {
 			i.currentErr = err
 			return nil
 		}
-- 
2.43.0


From ff717daa94e8724d00a8372c97e584998d0fc752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:41 +0000
Subject: [PATCH 24/69] fix: report an iterator error at the end of a record
 stream export

---
 provider/jsonrecordiostream/json_record_io_stream.go       | 6 ++++++
 provider/msgpackrecordiostream/msgpack_record_io_stream.go | 4 ++++
 provider/ndjsonrecordiostream/ndjson_record_io_stream.go   | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index 16c0e4b..e072b18 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -50,6 +50,12 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 
 			totalSaved++
 		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+			return
+		}
+
 		_, _ = fmt.Fprint(writer, "]")
 	}()
 
diff --git a/provider/msgpackrecordiostream/msgpack_record_io_stream.go b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
index a6ccd27..f1f0d52 100644
--- a/provider/msgpackrecordiostream/msgpack_record_io_stream.go
+++ b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
@@ -45,6 +45,10 @@ func (s *msgpackRecordIoStream) Write(writer io.Writer, recordIterator rangedb.R
 
 			_, _ = writer.Write(serializedRecord)
 		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+		}
 	}()
 
 	return errors
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index 383a6b2..aec3856 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -48,6 +48,10 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 
 			totalSaved++
 		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+		}
 	}()
 
 	return errors
-- 
2.43.0


From ba365f0fc191dee9f31126dd19cd05f0553a3ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:42 +0000
Subject: [PATCH 25/69] fix: report a failing writer of a record stream export

---
 .../json_record_io_stream.go                  | 20 +++++++++++++++----
 .../msgpack_record_io_stream.go               |  7 ++++++-
 .../ndjson_record_io_stream.go                |  9 +++++++--
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index e072b18..00a44e0 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -27,7 +27,11 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 	go func() {
 		defer close(errors)
 
-		_, _ = fmt.Fprint(writer, "[")
+		_, err := fmt.Fprint(writer, "[")
+		if err != nil {
+			errors <- fmt.Errorf("failed writing record: %v", err)
+			return
+		}
 
 		totalSaved := 0
 		for recordIterator.Next() {
@@ -42,11 +46,16 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 				return
 			}
 
+			separator := ""
 			if totalSaved > 0 {
-				_, _ = fmt.Fprint(writer, ",")
+				separator = ","
 			}
 
-			_, _ = fmt.Fprintf(writer, "%s", data)
+			_, err = fmt.Fprintf(writer, "%s%s", separator, data)
+			if err != nil {
+				errors <- fmt.Errorf("failed writing record: %v", err)
+				return
+			}
 
 			totalSaved++
 		}
@@ -56,7 +65,10 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 			return
 		}
 
-		_, _ = fmt.Fprint(writer, "]")
+		_, err = fmt.Fprint(writer, "]")
+		if err != nil {
+			errors <- fmt.Errorf("failed writing record: %v", err)
+		}
 	}()
 
 	return errors
diff --git a/provider/msgpackrecordiostream/msgpack_record_io_stream.go b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
index f1f0d52..6357b70 100644
--- a/provider/msgpackrecordiostream/msgpack_record_io_stream.go
+++ b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
@@ -1,6 +1,7 @@
 package msgpackrecordiostream
 
 import (
+	"fmt"
 	"io"
 	"reflect"
 
@@ -43,7 +44,11 @@ func (s *msgpackRecordIoStream) Write(writer io.Writer, recordIterator rangedb.R
 				return
 			}
 
-			_, _ = writer.Write(serializedRecord)
+			_, err = writer.Write(serializedRecord)
+			if err != nil {
+				errors <- fmt.Errorf("failed writing record: %v", err)
+				return
+			}
 		}
 
 		if recordIterator.Err() != nil {
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index aec3856..b1b095d 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -34,8 +34,9 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 				return
 			}
 
+			separator := ""
 			if totalSaved > 0 {
-				_, _ = fmt.Fprint(writer, "\n")
+				separator = "\n"
 			}
 
 			data, err := json.Marshal(recordIterator.Record())
@@ -44,7 +45,11 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 				return
 			}
 
-			_, _ = fmt.Fprintf(writer, "%s", data)
+			_, err = fmt.Fprintf(writer, "%s%s", separator, data)
+			if err != nil {
+				errors <- fmt.Errorf("failed writing record: %v", err)
+				return
+			}
 
 			totalSaved++
 		}
-- 
2.43.0


From 343b985c592de00113b53480c6f7906bd4ef9ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:20 +0000
Subject: [PATCH 26/69] fix: report a JSON record stream that ends early or
 whose reader fails

---
 provider/jsonrecordiostream/json_record_io_stream.go  | 11 +++++++++++
 .../ndjsonrecordiostream/ndjson_record_io_stream.go   |  8 ++++++++
 2 files changed, 19 insertions(+)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index 00a44e0..cccd54b 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -111,6 +111,17 @@ func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 				Err:    nil,
 			}
 		}
+
+		_, err = decoder.Token()
+		if err != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    fmt.Errorf("failed reading end of records: %w", err),
+			}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index b1b095d..59e8510 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -87,6 +87,14 @@ func (s *ndJSONRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 				Err:    nil,
 			}
 		}
+
+		_, err := decoder.Token()
+		if err != nil && err != io.EOF {
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    fmt.Errorf("failed reading record: %w", err),
+			}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
-- 
2.43.0


From 03f3585aa2c7138946642e53bed5c7d89c279bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:51 +0000
Subject: [PATCH 27/69] fix: report a msgpack record that ends at a field
 boundary

---
 .../msgpack_record_serializer.go                  | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/provider/msgpackrecordserializer/msgpack_record_serializer.go b/provider/msgpackrecordserializer/msgpack_record_serializer.go
index 353cde1..a39ee98 100644
--- a/provider/msgpackrecordserializer/msgpack_record_serializer.go
+++ b/provider/msgpackrecordserializer/msgpack_record_serializer.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"reflect"
 
 	"github.com/vmihailenco/msgpack/v4"
@@ -74,16 +75,14 @@ func MarshalRecord(record *rangedb.Record) ([]byte, error) {
 func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (*rangedb.Record, error) {
 	record := rangedb.Record{}
 
+	_, peekErr := decoder.PeekCode()
+	if peekErr == io.EOF {
+		return nil, ErrorEOF
+	}
+
 	decodeErr := decoder.Decode(&record)
 	if decodeErr != nil {
-		var err error
-		if decodeErr.Error() == "EOF" {
-			err = ErrorEOF
-		} else {
-			err = fmt.Errorf("failed decoding record: %v", decodeErr)
-		}
-
-		return nil, err
+		return nil, fmt.Errorf("failed decoding record: %v", decodeErr)
 	}
 
 	eventType, ok := eventTypeIdentifier.EventTypeLookup(record.EventType)
-- 
2.43.0


From 1a155e40a395a3e1431ec7ffb6e9187250c96095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:19 +0000
Subject: [PATCH 28/69] fix: report malformed msgpack records instead of
 panicking

---
 .../msgpackrecordserializer/msgpack_record_serializer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/provider/msgpackrecordserializer/msgpack_record_serializer.go b/provider/msgpackrecordserializer/msgpack_record_serializer.go
index a39ee98..a1687cd 100644
--- a/provider/msgpackrecordserializer/msgpack_record_serializer.go
+++ b/provider/msgpackrecordserializer/msgpack_record_serializer.go
@@ -72,7 +72,14 @@ func MarshalRecord(record *rangedb.Record) ([]byte, error) {
 //
 // The record, excluding data, is decoded first. Then, event data is decoded.
 // Event data will be parsed into a struct if supplied by getEventType.
-func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (*rangedb.Record, error) {
+func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (_ *rangedb.Record, err error) {
+	// The msgpack decoder panics on some malformed input (e.g. a map with a nil key).
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("failed decoding record: %v", r)
+		}
+	}()
+
 	record := rangedb.Record{}
 
 	_, peekErr := decoder.PeekCode()
-- 
2.43.0


From 1257e9fd9c059bd6b0ebdd47a764b764448ea311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:12 +0000
Subject: [PATCH 29/69] fix: read the total number of events under the
 projection's lock

---
 pkg/projection/aggregate_type_stats.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/projection/aggregate_type_stats.go b/pkg/projection/aggregate_type_stats.go
index 3712e7e..ff5ee47 100644
--- a/pkg/projection/aggregate_type_stats.go
+++ b/pkg/projection/aggregate_type_stats.go
@@ -60,6 +60,8 @@ func (a *AggregateTypeStats) TotalEventsByAggregateType(aggregateType string) ui
 
 // TotalEvents returns the total number of received events.
 func (a *AggregateTypeStats) TotalEvents() uint64 {
+	a.mux.RLock()
+	defer a.mux.RUnlock()
 	return a.data.TotalEvents
 }
 
-- 
2.43.0


From a432ab0ed9102f46b45aeb229c3c47ce3f0bf0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:12 +0000
Subject: [PATCH 30/69] fix: loading a snapshot without counts leaves a usable
 projection

---
 pkg/projection/aggregate_type_stats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/projection/aggregate_type_stats.go b/pkg/projection/aggregate_type_stats.go
index ff5ee47..f8b3506 100644
--- a/pkg/projection/aggregate_type_stats.go
+++ b/pkg/projection/aggregate_type_stats.go
@@ -93,6 +93,10 @@ func (a *AggregateTypeStats) LoadFromSnapshot(r io.Reader) error {
 		return err
 	}
 
+	if data.TotalEventsByAggregateType == nil {
+		data.TotalEventsByAggregateType = make(map[string]uint64)
+	}
+
 	a.mux.Lock()
 	a.data.TotalEventsByAggregateType = data.TotalEventsByAggregateType
 	a.data.LatestGlobalSequenceNumber = data.LatestGlobalSequenceNumber
-- 
2.43.0


From a439a0a43cb72b86752a8aa0134e67e1ea9650c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:38 +0000
Subject: [PATCH 31/69] fix: a failed or interrupted save keeps the previous
 snapshot

---
 pkg/projection/disk_snapshot_store.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/projection/disk_snapshot_store.go b/pkg/projection/disk_snapshot_store.go
index c0fb327..526803c 100644
--- a/pkg/projection/disk_snapshot_store.go
+++ b/pkg/projection/disk_snapshot_store.go
@@ -34,19 +34,34 @@ func (d *diskSnapshotStore) Load(projection SnapshotProjection) error {
 
 // Save persists the projection to a file.
 func (d *diskSnapshotStore) Save(projection SnapshotProjection) error {
-	file, err := os.Create(d.SnapshotPath(projection))
+	path := d.SnapshotPath(projection)
+
+	// The previous snapshot is replaced only by a complete one.
+	tempPath := path + ".tmp"
+	file, err := os.Create(tempPath)
 	if err != nil {
+		if pathErr, ok := err.(*os.PathError); ok {
+			pathErr.Path = path
+		}
 		return fmt.Errorf("unable to create/open snapshot file: %v", err)
 	}
-	defer file.Close()
 
 	err = projection.SaveSnapshot(file)
+	if err == nil {
+		err = file.Sync()
+	}
+	closeErr := file.Close()
+	if err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tempPath, path)
+	}
 	if err != nil {
+		_ = os.Remove(tempPath)
 		return fmt.Errorf("unable to save snapshot: %v", err)
 	}
 
-	_ = file.Sync()
-
 	return nil
 }
 
-- 
2.43.0


From 2eee96a63b813975e254a5d2ff7c50e18ca0ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:08 +0000
Subject: [PATCH 32/69] fix: one command at a time uses an aggregate's state

---
 pkg/cqrs/cqrs.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/cqrs/cqrs.go b/pkg/cqrs/cqrs.go
index db0e473..a07af30 100644
--- a/pkg/cqrs/cqrs.go
+++ b/pkg/cqrs/cqrs.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"io/ioutil"
 	"log"
+	"sync"
 
 	"github.com/inklabs/rangedb"
 )
@@ -30,6 +31,9 @@ type cqrs struct {
 	store      rangedb.Store
 	aggregates map[string]Aggregate
 	logger     *log.Logger
+
+	// handleMux guards the aggregates, that keep state between Load and Handle.
+	handleMux sync.Mutex
 }
 
 // Option defines functional option parameters for App.
@@ -80,13 +84,20 @@ func (c *cqrs) Dispatch(command Command) []rangedb.Event {
 	ctx := context.Background()
 	streamName := rangedb.GetEventStream(command)
 	eventStream := c.store.EventsByStream(ctx, 0, streamName)
-	commandHandler.Load(eventStream)
-	handlerEvents := commandHandler.Handle(command)
+	handlerEvents := c.loadAndHandle(commandHandler, eventStream, command)
 
 	events := append(preHandlerEvents, handlerEvents...)
 	return c.saveEvents(ctx, events)
 }
 
+func (c *cqrs) loadAndHandle(aggregate Aggregate, eventStream rangedb.RecordIterator, command Command) []rangedb.Event {
+	c.handleMux.Lock()
+	defer c.handleMux.Unlock()
+
+	aggregate.Load(eventStream)
+	return aggregate.Handle(command)
+}
+
 func (c *cqrs) saveEvents(ctx context.Context, events []rangedb.Event) []rangedb.Event {
 	var savedEvents []rangedb.Event
 	for _, event := range events {
-- 
2.43.0


From 9bf68177adb0183422fb34bf3bf8642755d98da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:01 +0000
Subject: [PATCH 33/69] fix: the gRPC server stores 64-bit numbers of events
 and metadata exactly

---
 pkg/grpc/rangedbserver/server.go | 12 +++----
 pkg/jsontools/json_tools.go      | 57 ++++++++++++++++++++++++++++++++
 2 files changed, 62 insertions(+), 7 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index d5269bd..8c07e4b 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -2,7 +2,6 @@ package rangedbserver
 
 import (
 	"context"
-	"encoding/json"
 	"fmt"
 	"log"
 
@@ -12,6 +11,7 @@ import (
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/broadcast"
 	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
+	"github.com/inklabs/rangedb/pkg/jsontools"
 	"github.com/inklabs/rangedb/pkg/recordsubscriber"
 	"github.com/inklabs/rangedb/provider/inmemorystore"
 )
@@ -162,8 +162,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 	var eventRecords []*rangedb.EventRecord
 
 	for _, event := range req.Events {
-		var data interface{}
-		err := json.Unmarshal([]byte(event.Data), &data)
+		data, err := jsontools.UnmarshalValue([]byte(event.Data))
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -175,7 +174,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			err = json.Unmarshal([]byte(event.Metadata), &metadata)
+			metadata, err = jsontools.UnmarshalValue([]byte(event.Metadata))
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
@@ -217,8 +216,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 	var eventRecords []*rangedb.EventRecord
 
 	for _, event := range req.Events {
-		var data interface{}
-		err := json.Unmarshal([]byte(event.Data), &data)
+		data, err := jsontools.UnmarshalValue([]byte(event.Data))
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -230,7 +228,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			err = json.Unmarshal([]byte(event.Metadata), &metadata)
+			metadata, err = jsontools.UnmarshalValue([]byte(event.Metadata))
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
diff --git a/pkg/jsontools/json_tools.go b/pkg/jsontools/json_tools.go
index d5d3035..5974a41 100644
--- a/pkg/jsontools/json_tools.go
+++ b/pkg/jsontools/json_tools.go
@@ -3,6 +3,9 @@ package jsontools
 import (
 	"bytes"
 	"encoding/json"
+	"fmt"
+	"io"
+	"strconv"
 	"strings"
 )
 
@@ -17,3 +20,57 @@ func PrettyJSON(input []byte) string {
 	_ = json.Indent(&prettyJSON, input, "", "  ")
 	return strings.TrimSpace(prettyJSON.String())
 }
+
+// UnmarshalValue decodes JSON of an unknown type without losing numbers.
+//
+// Integers are decoded into int64 or uint64, other numbers into float64.
+func UnmarshalValue(data []byte) (interface{}, error) {
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+
+	var value interface{}
+	err := decoder.Decode(&value)
+	if err != nil {
+		return nil, err
+	}
+
+	if _, err := decoder.Token(); err != io.EOF {
+		return nil, fmt.Errorf("unexpected data after JSON value")
+	}
+
+	return ConvertNumbers(value)
+}
+
+// ConvertNumbers replaces each json.Number in a decoded JSON value with an int64, uint64, or float64.
+func ConvertNumbers(value interface{}) (interface{}, error) {
+	var err error
+
+	switch v := value.(type) {
+	case json.Number:
+		if i, err := strconv.ParseInt(v.String(), 10, 64); err == nil {
+			return i, nil
+		}
+		if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return u, nil
+		}
+		return v.Float64()
+
+	case []interface{}:
+		for i := range v {
+			v[i], err = ConvertNumbers(v[i])
+			if err != nil {
+				return nil, err
+			}
+		}
+
+	case map[string]interface{}:
+		for key := range v {
+			v[key], err = ConvertNumbers(v[key])
+			if err != nil {
+				return nil, err
+			}
+		}
+	}
+
+	return value, nil
+}
-- 
2.43.0


From 9a43db990b9535cc49dbf63e0f65c5960be6e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:15 +0000
Subject: [PATCH 34/69] fix: the gRPC client reads 64-bit numbers of metadata
 exactly

---
 pkg/grpc/rangedbpb/translate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/grpc/rangedbpb/translate.go b/pkg/grpc/rangedbpb/translate.go
index 03043ad..9afb6f9 100644
--- a/pkg/grpc/rangedbpb/translate.go
+++ b/pkg/grpc/rangedbpb/translate.go
@@ -48,7 +48,9 @@ func ToRecord(pbRecord *Record, eventTypeIdentifier rangedb.EventTypeIdentifier)
 
 	var metadata interface{}
 	if pbRecord.Metadata != "null" {
-		err = json.Unmarshal([]byte(pbRecord.Metadata), &metadata)
+		decoder := json.NewDecoder(strings.NewReader(pbRecord.Metadata))
+		decoder.UseNumber()
+		err = decoder.Decode(&metadata)
 		if err != nil {
 			return nil, fmt.Errorf("unable to unmarshal metadata: %v", err)
 		}
-- 
2.43.0


From 49afde12d83b675e690570a7fe7598d626354302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:45 +0000
Subject: [PATCH 35/69] fix: msgpack keeps the data of raw events

---
 store.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/store.go b/store.go
index f36e363..6b6b6c9 100644
--- a/store.go
+++ b/store.go
@@ -5,6 +5,8 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
+
+	"github.com/vmihailenco/msgpack/v4"
 )
 
 // Version for RangeDB.
@@ -199,4 +201,9 @@ func (e rawEvent) MarshalJSON() ([]byte, error) {
 	return json.Marshal(e.data)
 }
 
+// EncodeMsgpack implements msgpack.CustomEncoder.
+func (e rawEvent) EncodeMsgpack(encoder *msgpack.Encoder) error {
+	return encoder.Encode(e.data)
+}
+
 var ErrStreamNotFound = fmt.Errorf("stream not found")
-- 
2.43.0


From 9fe838d018c91eff0459d76d636eefc9085b5874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:42 +0000
Subject: [PATCH 36/69] fix: the gRPC server reports a failure to read all
 events

---
 pkg/grpc/rangedbserver/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 8c07e4b..ef4f193 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -97,7 +97,7 @@ func (s *rangeDBServer) Events(req *rangedbpb.EventsRequest, stream rangedbpb.Ra
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) EventsByStream(req *rangedbpb.EventsByStreamRequest, stream rangedbpb.RangeDB_EventsByStreamServer) error {
@@ -144,7 +144,7 @@ func (s *rangeDBServer) EventsByAggregateType(req *rangedbpb.EventsByAggregateTy
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) OptimisticDeleteStream(ctx context.Context, req *rangedbpb.OptimisticDeleteStreamRequest) (*rangedbpb.OptimisticDeleteStreamResponse, error) {
-- 
2.43.0


From 61f80b4d40e673442f5798e1ae7e1318d910349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:44 +0000
Subject: [PATCH 37/69] fix: event types can be bound while records are read

---
 event_identifier.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/event_identifier.go b/event_identifier.go
index ed94f6c..a7e8431 100644
--- a/event_identifier.go
+++ b/event_identifier.go
@@ -2,9 +2,11 @@ package rangedb
 
 import (
 	"reflect"
+	"sync"
 )
 
 type eventIdentifier struct {
+	mux        sync.RWMutex
 	eventTypes map[string]reflect.Type
 }
 
@@ -16,12 +18,18 @@ func NewEventIdentifier() *eventIdentifier {
 }
 
 func (s *eventIdentifier) Bind(events ...Event) {
+	s.mux.Lock()
+	defer s.mux.Unlock()
+
 	for _, e := range events {
 		s.eventTypes[e.EventType()] = getType(e)
 	}
 }
 
 func (s *eventIdentifier) EventTypeLookup(eventTypeName string) (r reflect.Type, b bool) {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	eventType, ok := s.eventTypes[eventTypeName]
 	return eventType, ok
 }
-- 
2.43.0


From 7c7f0809a72aee4157584d403020fec15145e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:11 +0000
Subject: [PATCH 38/69] fix: a gRPC subscription that gets no more records ends

---
 pkg/grpc/rangedbserver/server.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index ef4f193..e92dfc6 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -280,9 +280,7 @@ func (s *rangeDBServer) SubscribeToLiveEvents(_ *rangedbpb.SubscribeToLiveEvents
 		return err
 	}
 
-	<-stream.Context().Done()
-
-	return nil
+	return waitForSubscriber(stream.Context(), subscriber)
 }
 
 func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsRequest, stream rangedbpb.RangeDB_SubscribeToEventsServer) error {
@@ -301,9 +299,7 @@ func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsReques
 		return err
 	}
 
-	<-stream.Context().Done()
-
-	return nil
+	return waitForSubscriber(stream.Context(), subscriber)
 }
 
 func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.SubscribeToEventsByAggregateTypeRequest, stream rangedbpb.RangeDB_SubscribeToEventsByAggregateTypeServer) error {
@@ -323,9 +319,21 @@ func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.Subscrib
 		return err
 	}
 
-	<-stream.Context().Done()
+	return waitForSubscriber(stream.Context(), subscriber)
+}
 
-	return nil
+// waitForSubscriber blocks until the client cancels or the subscriber stops receiving records.
+func waitForSubscriber(ctx context.Context, subscriber interface{ Done() <-chan struct{} }) error {
+	select {
+	case <-ctx.Done():
+		return nil
+
+	case <-subscriber.Done():
+		if ctx.Err() != nil {
+			return nil
+		}
+		return status.Error(codes.Unavailable, "subscription stopped")
+	}
 }
 
 func (s *rangeDBServer) TotalEventsInStream(ctx context.Context, request *rangedbpb.TotalEventsInStreamRequest) (*rangedbpb.TotalEventsInStreamResponse, error) {
-- 
2.43.0


From 88caad59cdf9d7c9119cc1387034114e39a9c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:35 +0000
Subject: [PATCH 39/69] fix: subscriptions of a remote store end with its live
 events

---
 provider/remotestore/remote_store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 4292b69..1ece4cd 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -357,6 +357,9 @@ func (s *remoteStore) listenForEvents() error {
 	}
 
 	go func() {
+		// Without live events, subscribers cannot receive any more records.
+		defer s.broadcaster.Close()
+
 		recordIterator := s.readRecords(ctx, events)
 		for recordIterator.Next() {
 			if recordIterator.Err() != nil {
-- 
2.43.0


From fbf2dab4fcebd65f0be26eb2813e77cc409fc11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:57 +0000
Subject: [PATCH 40/69] fix: the HTTP API serves aggregate types with any
 characters of a path segment

---
 pkg/rangedbapi/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index d23b6e4..f11e96e 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -101,7 +101,7 @@ func (a *api) initRoutes() {
 	router.HandleFunc("/save-events/"+streamName, a.saveEvents)
 	router.HandleFunc("/all-events"+extension, a.allEvents)
 	router.HandleFunc("/events-by-stream/"+streamName+extension, a.eventsByStream)
-	router.HandleFunc("/events-by-aggregate-type/{aggregateType:[a-zA-Z-,]+}"+extension, a.eventsByAggregateType)
+	router.HandleFunc("/events-by-aggregate-type/{aggregateType}"+extension, a.eventsByAggregateType)
 	router.HandleFunc("/list-aggregate-types", a.listAggregateTypes)
 	a.handler = handlers.CompressHandler(router)
 }
-- 
2.43.0


From 9053e82608f5e128065b409a76ef3f96e0516c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:09 +0000
Subject: [PATCH 41/69] fix: the HTTP API stores 64-bit numbers of events and
 metadata exactly

---
 pkg/rangedbapi/api.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index f11e96e..51c2101 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -15,6 +15,7 @@ import (
 	"github.com/gorilla/mux"
 
 	"github.com/inklabs/rangedb"
+	"github.com/inklabs/rangedb/pkg/jsontools"
 	"github.com/inklabs/rangedb/pkg/projection"
 	"github.com/inklabs/rangedb/pkg/rangedberror"
 	"github.com/inklabs/rangedb/provider/inmemorystore"
@@ -265,16 +266,29 @@ func getEventRecords(r *http.Request) ([]*rangedb.EventRecord, error) {
 		Data          interface{} `json:"data"`
 		Metadata      interface{} `json:"metadata"`
 	}
-	err := json.NewDecoder(r.Body).Decode(&events)
+	decoder := json.NewDecoder(r.Body)
+	decoder.UseNumber()
+
+	err := decoder.Decode(&events)
 	if err != nil {
 		return nil, fmt.Errorf("invalid json request body: %v", err)
 	}
 
 	var eventRecords []*rangedb.EventRecord
 	for _, event := range events {
+		data, err := jsontools.ConvertNumbers(event.Data)
+		if err != nil {
+			return nil, fmt.Errorf("invalid event data: %v", err)
+		}
+
+		metadata, err := jsontools.ConvertNumbers(event.Metadata)
+		if err != nil {
+			return nil, fmt.Errorf("invalid event metadata: %v", err)
+		}
+
 		eventRecords = append(eventRecords, &rangedb.EventRecord{
-			Event:    rangedb.NewRawEvent(event.AggregateType, event.AggregateID, event.EventType, event.Data),
-			Metadata: event.Metadata,
+			Event:    rangedb.NewRawEvent(event.AggregateType, event.AggregateID, event.EventType, data),
+			Metadata: metadata,
 		})
 	}
 
-- 
2.43.0


From 2b9d8357fe899ce4f7dccd270c8de640638fd65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:11 +0000
Subject: [PATCH 42/69] fix: the HTTP API refuses a save with data after the
 events

---
 pkg/rangedbapi/api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index 51c2101..826680a 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -5,6 +5,7 @@ import (
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"log"
 	"net/http"
@@ -274,6 +275,10 @@ func getEventRecords(r *http.Request) ([]*rangedb.EventRecord, error) {
 		return nil, fmt.Errorf("invalid json request body: %v", err)
 	}
 
+	if _, err := decoder.Token(); err != io.EOF {
+		return nil, fmt.Errorf("invalid json request body: unexpected data after events")
+	}
+
 	var eventRecords []*rangedb.EventRecord
 	for _, event := range events {
 		data, err := jsontools.ConvertNumbers(event.Data)
-- 
2.43.0


From c97e629938cf5bc9be1731da9f6ab148cd8588b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:00 +0000
Subject: [PATCH 43/69] fix: the HTTP API does not serve a partly read history
 as a complete one

---
 pkg/rangedbapi/api.go | 72 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 7 deletions(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index 826680a..c435b15 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -335,27 +335,85 @@ func (a *api) listAggregateTypes(w http.ResponseWriter, _ *http.Request) {
 }
 
 func (a *api) writeEvents(w http.ResponseWriter, recordIterator rangedb.RecordIterator, extension string) {
+	startedIterator := newStartedIterator(recordIterator)
+	if err := startedIterator.Err(); err != nil {
+		w.Header().Set("Content-Type", "application/json")
+
+		if err == rangedb.ErrStreamNotFound {
+			writeFailedResponse(w, err.Error(), http.StatusNotFound)
+			return
+		}
+
+		a.logger.Printf("unable to read events: %v", err)
+		writeFailedResponse(w, "internal server error", http.StatusInternalServerError)
+		return
+	}
+
+	var err error
+
 	switch extension {
 	case "json":
 		w.Header().Set(`Content-Type`, `application/json`)
-		errors := a.jsonRecordIoStream.Write(w, recordIterator)
-		<-errors
+		errors := a.jsonRecordIoStream.Write(w, startedIterator)
+		err = <-errors
 
 	case "ndjson":
 		w.Header().Set(`Content-Type`, `application/json; boundary=LF`)
-		errors := a.ndJSONRecordIoStream.Write(w, recordIterator)
-		<-errors
+		errors := a.ndJSONRecordIoStream.Write(w, startedIterator)
+		err = <-errors
 
 	case "msgpack":
 		w.Header().Set(`Content-Type`, `application/msgpack`)
 		base64Writer := base64.NewEncoder(base64.RawStdEncoding, w)
-		errors := a.msgpackRecordIoStream.Write(base64Writer, recordIterator)
-		<-errors
-		_ = base64Writer.Close()
+		errors := a.msgpackRecordIoStream.Write(base64Writer, startedIterator)
+		err = <-errors
+		if err == nil {
+			err = base64Writer.Close()
+		}
+
+	}
+
+	if err != nil {
+		a.logger.Printf("unable to write events: %v", err)
 
+		// The response has already started: abort it, to not look complete.
+		panic(http.ErrAbortHandler)
 	}
 }
 
+// startedIterator is an iterator whose first record has already been read.
+type startedIterator struct {
+	rangedb.RecordIterator
+	isUnread bool
+	hasFirst bool
+}
+
+func newStartedIterator(recordIterator rangedb.RecordIterator) *startedIterator {
+	return &startedIterator{
+		RecordIterator: recordIterator,
+		isUnread:       true,
+		hasFirst:       recordIterator.Next(),
+	}
+}
+
+func (i *startedIterator) Next() bool {
+	if i.isUnread {
+		i.isUnread = false
+		return i.hasFirst
+	}
+
+	return i.RecordIterator.Next()
+}
+
+func (i *startedIterator) NextContext(ctx context.Context) bool {
+	if i.isUnread {
+		i.isUnread = false
+		return i.hasFirst
+	}
+
+	return i.RecordIterator.NextContext(ctx)
+}
+
 type invalidInput struct {
 	err error
 }
-- 
2.43.0


From c288a59d9e8bf4c5b10250f93b72688a0ebc786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:25 +0000
Subject: [PATCH 44/69] fix: the web-socket API serves aggregate types with any
 characters of a path segment

---
 pkg/rangedbws/websocket_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rangedbws/websocket_api.go b/pkg/rangedbws/websocket_api.go
index 64bca09..cade1f0 100644
--- a/pkg/rangedbws/websocket_api.go
+++ b/pkg/rangedbws/websocket_api.go
@@ -82,7 +82,7 @@ func New(options ...Option) (*websocketAPI, error) {
 func (a *websocketAPI) initRoutes() {
 	router := mux.NewRouter().StrictSlash(true)
 	router.HandleFunc("/events", a.SubscribeToAllEvents)
-	router.HandleFunc("/events/{aggregateType:[a-zA-Z-,]+}", a.SubscribeToEventsByAggregateTypes)
+	router.HandleFunc("/events/{aggregateType}", a.SubscribeToEventsByAggregateTypes)
 	a.handler = router
 }
 
-- 
2.43.0


From 55df0b1b8bb65dd9886ccb1185dde233cc55fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:25 +0000
Subject: [PATCH 45/69] fix: web-socket connections are closed when the store's
 live events end

---
 pkg/broadcast/broadcaster.go   |  6 +++++-
 pkg/rangedbws/websocket_api.go | 18 +++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 8433790..6e0e3df 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -1,6 +1,7 @@
 package broadcast
 
 import (
+	"sync"
 	"time"
 
 	"github.com/inklabs/rangedb"
@@ -41,6 +42,7 @@ type broadcaster struct {
 	unsubscribeAggregateTypes chan AggregateTypeSubscription
 	bufferedRecords           chan *rangedb.Record
 	stopChan                  chan struct{}
+	closeOnce                 sync.Once
 	allEventsSubscribers      map[RecordSubscriber]struct{}
 	aggregateTypeSubscribers  map[string]map[RecordSubscriber]struct{}
 	timeout                   time.Duration
@@ -174,7 +176,9 @@ func (b *broadcaster) removeSubscriber(subscriber RecordSubscriber) {
 }
 
 func (b *broadcaster) Close() {
-	close(b.stopChan)
+	b.closeOnce.Do(func() {
+		close(b.stopChan)
+	})
 }
 
 func (b *broadcaster) closeAllSubscribers() {
diff --git a/pkg/rangedbws/websocket_api.go b/pkg/rangedbws/websocket_api.go
index cade1f0..9a7d41b 100644
--- a/pkg/rangedbws/websocket_api.go
+++ b/pkg/rangedbws/websocket_api.go
@@ -92,7 +92,23 @@ func (a *websocketAPI) initBroadcaster() error {
 		subscriberRecordBuffSize,
 		a.broadcaster,
 	)
-	return subscription.Start()
+	err := subscription.Start()
+	if err != nil {
+		return err
+	}
+
+	// Without records from the store, subscribers cannot receive anything.
+	if source, ok := subscription.(interface{ Done() <-chan struct{} }); ok {
+		go func() {
+			select {
+			case <-source.Done():
+				a.broadcaster.Close()
+			case <-a.stopChan:
+			}
+		}()
+	}
+
+	return nil
 }
 
 func (a *websocketAPI) Stop() {
-- 
2.43.0


From 46b60b2431cee15ff892074e1e99f392ce6eb10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:25 +0000
Subject: [PATCH 46/69] fix: gRPC subscriptions end when the store's live
 events end

---
 pkg/grpc/rangedbserver/server.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index e92dfc6..78ee4f0 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -70,7 +70,23 @@ func (s *rangeDBServer) initBroadcaster() error {
 		subscriberRecordBuffSize,
 		s.broadcaster,
 	)
-	return subscription.Start()
+	err := subscription.Start()
+	if err != nil {
+		return err
+	}
+
+	// Without records from the store, subscribers cannot receive anything.
+	if source, ok := subscription.(interface{ Done() <-chan struct{} }); ok {
+		go func() {
+			select {
+			case <-source.Done():
+				s.broadcaster.Close()
+			case <-s.stopChan:
+			}
+		}()
+	}
+
+	return nil
 }
 
 func (s *rangeDBServer) Stop() error {
-- 
2.43.0


From 75a958645cc899bf7179b29d09d545ecef044774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:44 +0000
Subject: [PATCH 47/69] fix: a cancelled or failing read that is abandoned
 leaves no goroutine or snapshot behind

---
 provider/inmemorystore/inmemory_store.go |  4 ++--
 provider/leveldbstore/leveldb_store.go   | 10 +++++-----
 provider/remotestore/remote_store.go     |  8 ++++----
 publish_record.go                        | 13 +++++++++++++
 4 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 914732b..a32d66c 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -167,7 +167,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 			if err != nil {
 				deserializeErr := fmt.Errorf("failed to deserialize record: %v", err)
 				s.logger.Printf(deserializeErr.Error())
-				resultRecords <- rangedb.ResultRecord{Err: deserializeErr}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, deserializeErr, time.Second)
 				return
 			}
 
@@ -179,7 +179,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 		}
 
 		if recordMissing {
-			resultRecords <- rangedb.ResultRecord{Err: fmt.Errorf("record missing")}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("record missing"), time.Second)
 		}
 	}()
 
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 326ecca..fe6be14 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -424,7 +424,7 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 
 			record, err := s.getRecordByValue(iter.Value())
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
@@ -438,12 +438,12 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		}
 
 		if err := iter.Error(); err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return
 		}
 
 		if cnt == 0 {
-			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 			return
 		}
 	}()
@@ -486,7 +486,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 
 			record, err := s.getRecordByLookup(snapshot, targetKey, iter)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
@@ -500,7 +500,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 		}
 
 		if err := iter.Error(); err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 		}
 	}()
 
diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 1ece4cd..a3c0879 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -316,24 +316,24 @@ func (s *remoteStore) readRecords(ctx context.Context, events PbRecordReceiver)
 				}
 
 				if strings.Contains(err.Error(), rpcErrContextCanceled) {
-					resultRecords <- rangedb.ResultRecord{Err: context.Canceled}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, context.Canceled, time.Second)
 					return
 				}
 
 				if strings.Contains(err.Error(), rpcErrStreamNotFound) {
-					resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 					return
 				}
 
 				log.Printf("failed to get record: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
 			record, err := rangedbpb.ToRecord(pbRecord, s.serializer)
 			if err != nil {
 				log.Printf("failed converting to record: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
diff --git a/publish_record.go b/publish_record.go
index 140811d..530ab65 100644
--- a/publish_record.go
+++ b/publish_record.go
@@ -31,3 +31,16 @@ func PublishRecordOrCancel(ctx context.Context, resultRecords chan ResultRecord,
 
 	return true
 }
+
+// PublishErrorOrCancel publishes an error to a ResultRecord channel, or times out after being canceled.
+func PublishErrorOrCancel(ctx context.Context, resultRecords chan ResultRecord, err error, timeout time.Duration) {
+	select {
+	case <-ctx.Done():
+		select {
+		case <-time.After(timeout):
+		case resultRecords <- ResultRecord{Err: err}:
+		}
+
+	case resultRecords <- ResultRecord{Err: err}:
+	}
+}
-- 
2.43.0


From beb3832c22a6e3df1b203d28043eecaa0fa479f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:44 +0000
Subject: [PATCH 48/69] fix: a subscription's history that fails while
 decrypting is an error, not a panic

---
 pkg/recordsubscriber/record_subscriber.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index 000dce9..59e3b5c 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -128,11 +128,12 @@ func (s *recordSubscriber) Stop() {
 func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 	iter := s.getRecords(globalSequenceNumber)
 	for iter.Next() {
+		record := iter.Record()
 		if iter.Err() != nil {
 			return iter.Err()
 		}
 
-		err := s.writeRecord(iter.Record())
+		err := s.writeRecord(record)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From dd02affa8a510106909c4cda5966760ac34ced95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:44 +0000
Subject: [PATCH 49/69] fix: the gRPC server reports records that cannot be
 read, instead of crashing

---
 pkg/grpc/rangedbserver/server.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 78ee4f0..7dd5b81 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -98,11 +98,12 @@ func (s *rangeDBServer) Stop() error {
 func (s *rangeDBServer) Events(req *rangedbpb.EventsRequest, stream rangedbpb.RangeDB_EventsServer) error {
 	recordIterator := s.store.Events(stream.Context(), req.GlobalSequenceNumber)
 	for recordIterator.Next() {
+		record := recordIterator.Record()
 		if recordIterator.Err() != nil {
 			return recordIterator.Err()
 		}
 
-		pbRecord, err := rangedbpb.ToPbRecord(recordIterator.Record())
+		pbRecord, err := rangedbpb.ToPbRecord(record)
 		if err != nil {
 			return err
 		}
@@ -120,11 +121,12 @@ func (s *rangeDBServer) EventsByStream(req *rangedbpb.EventsByStreamRequest, str
 	recordIterator := s.store.EventsByStream(stream.Context(), req.StreamSequenceNumber, req.StreamName)
 
 	for recordIterator.Next() {
+		record := recordIterator.Record()
 		if recordIterator.Err() != nil {
 			return recordIterator.Err()
 		}
 
-		pbRecord, err := rangedbpb.ToPbRecord(recordIterator.Record())
+		pbRecord, err := rangedbpb.ToPbRecord(record)
 		if err != nil {
 			return err
 		}
@@ -145,11 +147,12 @@ func (s *rangeDBServer) EventsByStream(req *rangedbpb.EventsByStreamRequest, str
 func (s *rangeDBServer) EventsByAggregateType(req *rangedbpb.EventsByAggregateTypeRequest, stream rangedbpb.RangeDB_EventsByAggregateTypeServer) error {
 	recordIterator := s.store.EventsByAggregateTypes(stream.Context(), req.GlobalSequenceNumber, req.AggregateTypes...)
 	for recordIterator.Next() {
+		record := recordIterator.Record()
 		if recordIterator.Err() != nil {
 			return recordIterator.Err()
 		}
 
-		pbRecord, err := rangedbpb.ToPbRecord(recordIterator.Record())
+		pbRecord, err := rangedbpb.ToPbRecord(record)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6a2d0ab47051a3135605c860151ac3c9a1ca2754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:44 +0000
Subject: [PATCH 50/69] fix: writing a record stream fails when a record cannot
 be read, instead of crashing

---
 provider/jsonrecordiostream/json_record_io_stream.go       | 3 ++-
 provider/msgpackrecordiostream/msgpack_record_io_stream.go | 3 ++-
 provider/ndjsonrecordiostream/ndjson_record_io_stream.go   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index cccd54b..cfb2f6e 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -35,12 +35,13 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 
 		totalSaved := 0
 		for recordIterator.Next() {
+			record := recordIterator.Record()
 			if recordIterator.Err() != nil {
 				errors <- recordIterator.Err()
 				return
 			}
 
-			data, err := json.Marshal(recordIterator.Record())
+			data, err := json.Marshal(record)
 			if err != nil {
 				errors <- fmt.Errorf("failed marshalling event: %v", err)
 				return
diff --git a/provider/msgpackrecordiostream/msgpack_record_io_stream.go b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
index 6357b70..24b5197 100644
--- a/provider/msgpackrecordiostream/msgpack_record_io_stream.go
+++ b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
@@ -33,12 +33,13 @@ func (s *msgpackRecordIoStream) Write(writer io.Writer, recordIterator rangedb.R
 		defer close(errors)
 
 		for recordIterator.Next() {
+			record := recordIterator.Record()
 			if recordIterator.Err() != nil {
 				errors <- recordIterator.Err()
 				return
 			}
 
-			serializedRecord, err := msgpackrecordserializer.MarshalRecord(recordIterator.Record())
+			serializedRecord, err := msgpackrecordserializer.MarshalRecord(record)
 			if err != nil {
 				errors <- err
 				return
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index 59e8510..cb0028b 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -29,6 +29,7 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 
 		totalSaved := 0
 		for recordIterator.Next() {
+			record := recordIterator.Record()
 			if recordIterator.Err() != nil {
 				errors <- recordIterator.Err()
 				return
@@ -39,7 +40,7 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 				separator = "\n"
 			}
 
-			data, err := json.Marshal(recordIterator.Record())
+			data, err := json.Marshal(record)
 			if err != nil {
 				errors <- fmt.Errorf("failed marshalling event: %v", err)
 				return
-- 
2.43.0


From f44590fdd13dcc43b5b6273ee878e35be136866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:44 +0000
Subject: [PATCH 51/69] fix: ReadNRecords returns the error of a record that
 cannot be read, instead of crashing

---
 store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 6b6b6c9..922cd3e 100644
--- a/store.go
+++ b/store.go
@@ -150,6 +150,7 @@ func ReadNRecords(totalEvents uint64, f func() (RecordIterator, context.CancelFu
 	recordIterator, done := f()
 
 	for recordIterator.Next() {
+		record := recordIterator.Record()
 		if recordIterator.Err() != nil {
 			break
 		}
@@ -158,7 +159,7 @@ func ReadNRecords(totalEvents uint64, f func() (RecordIterator, context.CancelFu
 			break
 		}
 
-		records = append(records, recordIterator.Record())
+		records = append(records, record)
 	}
 
 	done()
-- 
2.43.0


From cd86f2d2e38233a63371405d090675efca10485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:18 +0000
Subject: [PATCH 52/69] fix: encrypted store subscriptions decrypt a copy of
 the shared record

---
 provider/encryptedstore/encrypted_store.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/provider/encryptedstore/encrypted_store.go b/provider/encryptedstore/encrypted_store.go
index 1ee014a..b7ade6c 100644
--- a/provider/encryptedstore/encrypted_store.go
+++ b/provider/encryptedstore/encrypted_store.go
@@ -90,12 +90,26 @@ func copyEvent(event rangedb.Event) rangedb.Event {
 	return eventCopy.Interface().(rangedb.Event)
 }
 
+// decryptingSubscriber decrypts a copy of each record, since records are shared with other subscribers of the parent.
+func (e *encryptedStore) decryptingSubscriber(subscriber rangedb.RecordSubscriber) rangedb.RecordSubscriber {
+	decryptingSubscriber := NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor)
+
+	return rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
+		recordCopy := *record
+		if event, ok := record.Data.(rangedb.Event); ok {
+			recordCopy.Data = copyEvent(event)
+		}
+
+		decryptingSubscriber.Accept(&recordCopy)
+	})
+}
+
 func (e *encryptedStore) AllEventsSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber) rangedb.RecordSubscription {
-	return e.parent.AllEventsSubscription(ctx, bufferSize, NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor))
+	return e.parent.AllEventsSubscription(ctx, bufferSize, e.decryptingSubscriber(subscriber))
 }
 
 func (e *encryptedStore) AggregateTypesSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber, aggregateTypes ...string) rangedb.RecordSubscription {
-	return e.parent.AggregateTypesSubscription(ctx, bufferSize, NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor), aggregateTypes...)
+	return e.parent.AggregateTypesSubscription(ctx, bufferSize, e.decryptingSubscriber(subscriber), aggregateTypes...)
 }
 
 func (e *encryptedStore) TotalEventsInStream(ctx context.Context, streamName string) (uint64, error) {
-- 
2.43.0


From a129ea737d82fa392fe1b17c28ce71c372a0fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:29 +0000
Subject: [PATCH 53/69] fix: saving an event whose JSON data is null made its
 stream unreadable

---
 .../json_record_serializer.go                     | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/provider/jsonrecordserializer/json_record_serializer.go b/provider/jsonrecordserializer/json_record_serializer.go
index 15c3b28..9c999db 100644
--- a/provider/jsonrecordserializer/json_record_serializer.go
+++ b/provider/jsonrecordserializer/json_record_serializer.go
@@ -26,7 +26,20 @@ func (s *jsonSerializer) Bind(events ...rangedb.Event) {
 }
 
 func (s *jsonSerializer) Serialize(record *rangedb.Record) ([]byte, error) {
-	data, err := json.Marshal(record)
+	eventData, err := json.Marshal(record.Data)
+	if err != nil {
+		return nil, fmt.Errorf("failed marshalling record: %v", err)
+	}
+
+	if string(eventData) == "null" {
+		// Deserialize cannot read it back.
+		return nil, fmt.Errorf("failed marshalling record: event data is null")
+	}
+
+	serializedRecord := *record
+	serializedRecord.Data = json.RawMessage(eventData)
+
+	data, err := json.Marshal(serializedRecord)
 	if err != nil {
 		return nil, fmt.Errorf("failed marshalling record: %v", err)
 	}
-- 
2.43.0


From a133182b7e34adef7273bfa3c8c5479ae2e46034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:08 +0000
Subject: [PATCH 54/69] fix: a new remote store missed events that were saved
 before the server had subscribed

---
 pkg/grpc/rangedbserver/server.go     | 9 +++++++++
 provider/remotestore/remote_store.go | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 7dd5b81..70a763e 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -285,11 +285,13 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 }
 
 func (s *rangeDBServer) SubscribeToLiveEvents(_ *rangedbpb.SubscribeToLiveEventsRequest, stream rangedbpb.RangeDB_SubscribeToLiveEventsServer) error {
+	headerSent := make(chan struct{})
 	config := recordsubscriber.AllEventsConfig(stream.Context(),
 		s.store,
 		s.broadcaster,
 		subscriberRecordBuffSize,
 		func(record *rangedb.Record) error {
+			<-headerSent
 			return s.broadcastRecord(stream, record)
 		},
 	)
@@ -299,6 +301,13 @@ func (s *rangeDBServer) SubscribeToLiveEvents(_ *rangedbpb.SubscribeToLiveEvents
 		return err
 	}
 
+	// The header tells the client that it receives all events from now on.
+	err = stream.SendHeader(nil)
+	close(headerSent)
+	if err != nil {
+		return err
+	}
+
 	return waitForSubscriber(stream.Context(), subscriber)
 }
 
diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index a3c0879..1d072d3 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -356,6 +356,14 @@ func (s *remoteStore) listenForEvents() error {
 		return err
 	}
 
+	// Wait until the server has subscribed, to not miss events that are saved from now on.
+	_, err = events.Header()
+	if err != nil {
+		err = fmt.Errorf("failed to subscribe: %v", err)
+		log.Print(err)
+		return err
+	}
+
 	go func() {
 		// Without live events, subscribers cannot receive any more records.
 		defer s.broadcaster.Close()
-- 
2.43.0


From 4944980eb547fe46fa29fa1e6b26973ffbabc594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:54 +0000
Subject: [PATCH 55/69] fix: postgresstore: decode stored metadata into a
 variable instead of nil

---
 provider/postgresstore/postgres_store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index d3139f9..3b2d9f6 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -404,7 +404,7 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
 
 		var metadata interface{}
 		if batchRecord.Metadata != "null" {
-			err = json.Unmarshal([]byte(batchRecord.Metadata), metadata)
+			err = json.Unmarshal([]byte(batchRecord.Metadata), &metadata)
 			if err != nil {
 				return fmt.Errorf("unable to unmarshal metadata: %v", err)
 			}
@@ -644,7 +644,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 
 		var metadata interface{}
 		if serializedMetadata != "null" {
-			err = json.Unmarshal([]byte(serializedMetadata), metadata)
+			err = json.Unmarshal([]byte(serializedMetadata), &metadata)
 			if err != nil {
 				unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
 				resultRecords <- rangedb.ResultRecord{Err: unmarshalErr}
@@ -752,7 +752,7 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 
 			var metadata interface{}
 			if jsonRecord.Metadata != "null" {
-				err = json.Unmarshal([]byte(jsonRecord.Metadata), metadata)
+				err = json.Unmarshal([]byte(jsonRecord.Metadata), &metadata)
 				if err != nil {
 					log.Printf("unable to unmarshal metadata: %v", err)
 					return
-- 
2.43.0


From d291775ff6e8e93a79e2c92ec2770b4ba85a061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:54 +0000
Subject: [PATCH 56/69] fix: postgresstore: end the transaction of a refused
 deletion

---
 provider/postgresstore/postgres_store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 3b2d9f6..365244d 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -228,6 +228,8 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 		return err
 	}
 
+	defer func() { _ = transaction.Rollback() }()
+
 	streamSequenceNumber, err := s.getStreamSequenceNumber(ctx, transaction, streamName)
 	if err != nil {
 		return err
@@ -246,7 +248,6 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 
 	_, err = transaction.ExecContext(ctx, `DELETE FROM record WHERE StreamName = $1`, streamName)
 	if err != nil {
-		_ = transaction.Rollback()
 		return err
 	}
 
-- 
2.43.0


From c6c1f2aec243642f47f53bbfb6fc7c1ee4dd31cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:05 +0000
Subject: [PATCH 57/69] fix: postgresstore: reading an existing stream from
 beyond its end is not an absent stream

---
 provider/postgresstore/postgres_store.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 365244d..49a4daa 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -215,7 +215,13 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 
 		recordsRead, err := s.readResultRecords(ctx, rows, resultRecords)
 		if err == nil && recordsRead == 0 {
-			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+			lastStreamSequenceNumber, err := s.getStreamSequenceNumber(ctx, s.db, streamName)
+			if err == nil && lastStreamSequenceNumber == 0 {
+				err = rangedb.ErrStreamNotFound
+			}
+			if err != nil {
+				resultRecords <- rangedb.ResultRecord{Err: err}
+			}
 		}
 	}()
 
-- 
2.43.0


From ed8a97e25254fb1abd5b45f9b7424a3edd004b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:05 +0000
Subject: [PATCH 58/69] fix: postgresstore: a cancelled read does not block for
 ever on its error

---
 provider/postgresstore/postgres_store.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 49a4daa..abb9515 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -140,7 +140,7 @@ func (s *postgresStore) Events(ctx context.Context, globalSequenceNumber uint64)
 		rows, err := s.db.QueryContext(ctx, query,
 			globalSequenceNumber)
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return
 		}
 		defer ignoreClose(rows)
@@ -176,7 +176,7 @@ func (s *postgresStore) EventsByAggregateTypes(ctx context.Context, globalSequen
 		rows, err := s.db.QueryContext(ctx, query,
 			pq.Array(aggregateTypes), globalSequenceNumber)
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return
 		}
 		defer ignoreClose(rows)
@@ -208,7 +208,7 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 		rows, err := s.db.QueryContext(ctx, query,
 			streamName, streamSequenceNumber)
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return
 		}
 		defer ignoreClose(rows)
@@ -220,7 +220,7 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 				err = rangedb.ErrStreamNotFound
 			}
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			}
 		}
 	}()
@@ -634,7 +634,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 			&serializedMetadata,
 		)
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return 0, err
 		}
 
@@ -645,7 +645,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 		)
 		if err != nil {
 			decodeErr := fmt.Errorf("unable to decode data: %v", err)
-			resultRecords <- rangedb.ResultRecord{Err: decodeErr}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, decodeErr, time.Second)
 			return 0, decodeErr
 		}
 
@@ -654,7 +654,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 			err = json.Unmarshal([]byte(serializedMetadata), &metadata)
 			if err != nil {
 				unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: unmarshalErr}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, unmarshalErr, time.Second)
 				return 0, unmarshalErr
 			}
 		}
@@ -681,7 +681,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 
 	err := rows.Err()
 	if err != nil {
-		resultRecords <- rangedb.ResultRecord{Err: err}
+		rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 		return 0, err
 	}
 
-- 
2.43.0


From b585db4460586ba8e2805e930c7e04021f563a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:47 +0000
Subject: [PATCH 59/69] fix: postgresstore: a deletion excludes concurrent
 saves to its stream

---
 provider/postgresstore/postgres_store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index abb9515..ab83d83 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -236,6 +236,11 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 
 	defer func() { _ = transaction.Rollback() }()
 
+	err = s.lockStream(ctx, transaction, streamName)
+	if err != nil {
+		return err
+	}
+
 	streamSequenceNumber, err := s.getStreamSequenceNumber(ctx, transaction, streamName)
 	if err != nil {
 		return err
-- 
2.43.0


From f8ac74918a2a5e8cac1d45da09f671c0d75a4128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:47 +0000
Subject: [PATCH 60/69] fix: postgresstore: commit and announce events in the
 order of their global sequence numbers

---
 provider/postgresstore/postgres_store.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index ab83d83..7c20dd9 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"log"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/lib/pq"
@@ -26,6 +27,9 @@ import (
 const (
 	broadcastRecordBuffSize   = 100
 	streamAdvisoryLockTimeout = 2 * time.Second
+
+	// globalAdvisoryLockKey is outside the range of the 32 bit keys of streams.
+	globalAdvisoryLockKey = int64(1) << 32
 )
 
 type batchSQLRecord struct {
@@ -54,6 +58,9 @@ type postgresStore struct {
 	serializer        JsonSerializer
 	broadcaster       broadcast.Broadcaster
 	pgNotifyIsEnabled bool
+
+	// saveMux keeps notifications in the order of the global sequence numbers.
+	saveMux sync.Mutex
 }
 
 // Option defines functional option parameters for postgresStore.
@@ -285,6 +292,11 @@ type saveResults struct {
 }
 
 func (s *postgresStore) transactionalSaveEvents(ctx context.Context, expectedStreamSequenceNumber *uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
+	if !s.pgNotifyIsEnabled {
+		s.saveMux.Lock()
+		defer s.saveMux.Unlock()
+	}
+
 	transaction, err := s.db.BeginTx(ctx, nil)
 	if err != nil {
 		return 0, err
@@ -337,6 +349,12 @@ func (s *postgresStore) saveEvents(
 		return nil, err
 	}
 
+	// Transactions become visible in the order of their global sequence numbers.
+	_, err = transaction.ExecContext(ctx, `SELECT pg_advisory_xact_lock($1)`, globalAdvisoryLockKey)
+	if err != nil {
+		return nil, fmt.Errorf("unable to obtain lock: %v", err)
+	}
+
 	globalSequenceNumbers, lastStreamSequenceNumber, err := s.batchInsert(ctx, transaction, batchRecords)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3c9ef5007e50f0589e101e2647e01c8fff9dd55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:01 +0000
Subject: [PATCH 61/69] fix: postgresstore: keep listening after a reconnection
 and after an invalid notification

---
 provider/postgresstore/postgres_store.go | 110 +++++++++++++++--------
 1 file changed, 73 insertions(+), 37 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 7c20dd9..0bdf274 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -740,11 +740,23 @@ func (s *postgresStore) startPQListener() error {
 		return err
 	}
 
-	go s.listen(listener)
+	go s.listen(listener, s.lastGlobalSequenceNumber())
 
 	return nil
 }
 
+// lastGlobalSequenceNumber returns zero before InitDB.
+func (s *postgresStore) lastGlobalSequenceNumber() uint64 {
+	var globalSequenceNumber uint64
+	query := `SELECT GlobalSequenceNumber FROM record ORDER BY GlobalSequenceNumber DESC LIMIT 1`
+	err := s.db.QueryRow(query).Scan(&globalSequenceNumber)
+	if err != nil {
+		return 0
+	}
+
+	return globalSequenceNumber
+}
+
 // PostgresJsonRecord holds a JSON record sent via pg_notify.
 type PostgresJsonRecord struct {
 	StreamName           string `json:"streamname"`
@@ -759,50 +771,36 @@ type PostgresJsonRecord struct {
 	Metadata             string `json:"metadata"`
 }
 
-func (s *postgresStore) listen(listener *pq.Listener) {
+func (s *postgresStore) listen(listener *pq.Listener, lastGlobalSequenceNumber uint64) {
+	accept := func(record *rangedb.Record) {
+		if record.GlobalSequenceNumber > lastGlobalSequenceNumber {
+			lastGlobalSequenceNumber = record.GlobalSequenceNumber
+			s.broadcaster.Accept(record)
+		}
+	}
+
 	for {
 		select {
 		case n := <-listener.Notify:
-			var jsonRecord PostgresJsonRecord
-			err := json.Unmarshal([]byte(n.Extra), &jsonRecord)
-			if err != nil {
-				log.Printf("invalid json request body: %v", err)
-				return
-			}
-
-			data, err := jsonrecordserializer.DecodeJsonData(
-				jsonRecord.EventType,
-				strings.NewReader(jsonRecord.Data),
-				s.serializer,
-			)
-			if err != nil {
-				log.Printf("unable to decode data: %v", err)
-				return
-			}
-
-			var metadata interface{}
-			if jsonRecord.Metadata != "null" {
-				err = json.Unmarshal([]byte(jsonRecord.Metadata), &metadata)
-				if err != nil {
-					log.Printf("unable to unmarshal metadata: %v", err)
-					return
+			if n == nil {
+				// The connection was re-established: notifications may have been lost.
+				recordIterator := s.Events(context.Background(), lastGlobalSequenceNumber+1)
+				for recordIterator.Next() {
+					accept(recordIterator.Record())
 				}
+				if err := recordIterator.Err(); err != nil {
+					log.Printf("unable to read missed records: %v", err)
+				}
+				continue
 			}
 
-			record := &rangedb.Record{
-				StreamName:           jsonRecord.StreamName,
-				AggregateType:        jsonRecord.AggregateType,
-				AggregateID:          jsonRecord.AggregateID,
-				GlobalSequenceNumber: jsonRecord.GlobalSequenceNumber,
-				StreamSequenceNumber: jsonRecord.StreamSequenceNumber,
-				InsertTimestamp:      jsonRecord.InsertTimestamp,
-				EventID:              jsonRecord.EventID,
-				EventType:            jsonRecord.EventType,
-				Data:                 data,
-				Metadata:             metadata,
+			record, err := s.notificationToRecord(n)
+			if err != nil {
+				log.Print(err)
+				continue
 			}
 
-			s.broadcaster.Accept(record)
+			accept(record)
 
 		case <-time.After(90 * time.Second):
 			go func() {
@@ -815,6 +813,44 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 	}
 }
 
+func (s *postgresStore) notificationToRecord(notification *pq.Notification) (*rangedb.Record, error) {
+	var jsonRecord PostgresJsonRecord
+	err := json.Unmarshal([]byte(notification.Extra), &jsonRecord)
+	if err != nil {
+		return nil, fmt.Errorf("invalid json request body: %v", err)
+	}
+
+	data, err := jsonrecordserializer.DecodeJsonData(
+		jsonRecord.EventType,
+		strings.NewReader(jsonRecord.Data),
+		s.serializer,
+	)
+	if err != nil {
+		return nil, fmt.Errorf("unable to decode data: %v", err)
+	}
+
+	var metadata interface{}
+	if jsonRecord.Metadata != "null" {
+		err = json.Unmarshal([]byte(jsonRecord.Metadata), &metadata)
+		if err != nil {
+			return nil, fmt.Errorf("unable to unmarshal metadata: %v", err)
+		}
+	}
+
+	return &rangedb.Record{
+		StreamName:           jsonRecord.StreamName,
+		AggregateType:        jsonRecord.AggregateType,
+		AggregateID:          jsonRecord.AggregateID,
+		GlobalSequenceNumber: jsonRecord.GlobalSequenceNumber,
+		StreamSequenceNumber: jsonRecord.StreamSequenceNumber,
+		InsertTimestamp:      jsonRecord.InsertTimestamp,
+		EventID:              jsonRecord.EventID,
+		EventType:            jsonRecord.EventType,
+		Data:                 data,
+		Metadata:             metadata,
+	}, nil
+}
+
 type dbQueryable interface {
 	QueryContext(ctx context.Context, query string, args ...interface{}) (*sql.Rows, error)
 }
-- 
2.43.0


From 367e7712c090dfaeb84d2847a2491a9dfc86af8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:06 +0000
Subject: [PATCH 62/69] fix: close the responses of Vault, else each request
 loses its connection

---
 pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
index 8fb9bb6..24c183d 100644
--- a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
+++ b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
@@ -45,6 +45,7 @@ func (h *hashicorpVaultKeyStore) Get(subjectID string) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	defer response.Body.Close()
 
 	var resp secretResponse
 	err = json.NewDecoder(response.Body).Decode(&resp)
@@ -97,6 +98,7 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 	if err != nil {
 		return err
 	}
+	defer response.Body.Close()
 
 	if response.StatusCode != http.StatusOK {
 		body, _ := ioutil.ReadAll(response.Body)
@@ -119,6 +121,7 @@ func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
 	if err != nil {
 		return err
 	}
+	defer response.Body.Close()
 
 	if response.StatusCode != http.StatusNoContent {
 		body, _ := ioutil.ReadAll(response.Body)
-- 
2.43.0


From 49a3e7666ce54f10a1f7780b58c8617662d5d56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:06 +0000
Subject: [PATCH 63/69] fix: let Vault refuse a key for a subject that has or
 had one (check-and-set)

---
 .../vaultkeystore/hashicorp_vault_keystore.go | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
index 24c183d..ab6d581 100644
--- a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
+++ b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
@@ -13,7 +13,10 @@ import (
 	"github.com/inklabs/rangedb/pkg/crypto"
 )
 
-const deleteAllHashiVersionsJSON = `{"versions":[1,2]}`
+const (
+	deleteAllHashiVersionsJSON = `{"versions":[1,2]}`
+	checkAndSetMismatch        = "check-and-set parameter did not match the current version"
+)
 
 type hashicorpVaultKeyStore struct {
 	config     Config
@@ -80,9 +83,13 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 		return crypto.ErrKeyExistsForSubjectID
 	}
 
-	payload := dataPayload{Data: map[string]string{
-		"key": key,
-	}}
+	payload := dataPayload{
+		Data: map[string]string{
+			"key": key,
+		},
+	}
+	// Vault must refuse to write over any version, even a destroyed one.
+	payload.Options.CheckAndSet = 0
 	jsonString, err := json.Marshal(payload)
 	if err != nil {
 		return err
@@ -102,6 +109,10 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 
 	if response.StatusCode != http.StatusOK {
 		body, _ := ioutil.ReadAll(response.Body)
+		if response.StatusCode == http.StatusBadRequest && bytes.Contains(body, []byte(checkAndSetMismatch)) {
+			return crypto.ErrKeyExistsForSubjectID
+		}
+
 		log.Printf("%d: %s", response.StatusCode, body)
 
 		return fmt.Errorf("unable to save")
@@ -134,7 +145,10 @@ func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
 }
 
 type dataPayload struct {
-	Data map[string]string `json:"data"`
+	Data    map[string]string `json:"data"`
+	Options struct {
+		CheckAndSet int `json:"cas"`
+	} `json:"options"`
 }
 
 type secretResponse struct {
-- 
2.43.0


From c2f2d5509a7db9bfc0bd2e141431f547fc1022c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:06 +0000
Subject: [PATCH 64/69] fix: PostgreSQL key store: a second subject could not
 be deleted (empty keys are not unique)

---
 pkg/crypto/provider/postgreskeystore/postgres_keystore.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
index 41b5521..a8f0a57 100644
--- a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
+++ b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
@@ -43,7 +43,7 @@ func (p *postgresKeyStore) Get(subjectID string) (string, error) {
 	row := p.db.QueryRow("SELECT EncryptionKey, DeletedAtTimestamp FROM vault WHERE SubjectID = $1",
 		subjectID)
 
-	var encryptionKey string
+	var encryptionKey sql.NullString
 	var deletedAtTimestamp *uint64
 	err := row.Scan(&encryptionKey, &deletedAtTimestamp)
 	if err != nil {
@@ -58,7 +58,7 @@ func (p *postgresKeyStore) Get(subjectID string) (string, error) {
 		return "", crypto.ErrKeyWasDeleted
 	}
 
-	return encryptionKey, nil
+	return encryptionKey.String, nil
 }
 
 func (p *postgresKeyStore) Set(subjectID, encryptionKey string) error {
@@ -87,7 +87,7 @@ func (p *postgresKeyStore) Set(subjectID, encryptionKey string) error {
 }
 
 func (p *postgresKeyStore) Delete(subjectID string) error {
-	_, err := p.db.Exec("UPDATE vault SET DeletedAtTimestamp = $1, EncryptionKey = '' WHERE SubjectID = $2",
+	_, err := p.db.Exec("UPDATE vault SET DeletedAtTimestamp = $1, EncryptionKey = NULL WHERE SubjectID = $2",
 		time.Now().Unix(),
 		subjectID)
 	if err != nil {
-- 
2.43.0


From 0e4c75221f9ee7bea312cee32b83a86173edadbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:06 +0000
Subject: [PATCH 65/69] fix: DynamoDB key store reads consistently: a deleted
 key came back, a stored one was missing

---
 pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go b/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
index 11fd14d..17a6f70 100644
--- a/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
+++ b/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
@@ -40,7 +40,8 @@ func (d *dynamoDBKeyStore) Get(subjectID string) (string, error) {
 				S: aws.String(subjectID),
 			},
 		},
-		TableName: aws.String(d.config.TableName),
+		TableName:      aws.String(d.config.TableName),
+		ConsistentRead: aws.Bool(true),
 		AttributesToGet: []*string{
 			aws.String("EncryptionKey"),
 			aws.String("DeletedAtTimestamp"),
-- 
2.43.0


From ae1c3684006e3d269d6bd8d23f9e4bbb069f0fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:06 +0000
Subject: [PATCH 66/69] fix: concurrent saves of a snapshot share no temporary
 file

---
 pkg/projection/disk_snapshot_store.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/projection/disk_snapshot_store.go b/pkg/projection/disk_snapshot_store.go
index 526803c..23b25ee 100644
--- a/pkg/projection/disk_snapshot_store.go
+++ b/pkg/projection/disk_snapshot_store.go
@@ -3,10 +3,14 @@ package projection
 import (
 	"fmt"
 	"os"
+	"sync"
 )
 
 type diskSnapshotStore struct {
 	basePath string
+
+	// saveMux keeps concurrent saves from sharing a temporary file.
+	saveMux sync.Mutex
 }
 
 // NewDiskSnapshotStore constructs a snapshot store that persists to disk.
@@ -34,6 +38,9 @@ func (d *diskSnapshotStore) Load(projection SnapshotProjection) error {
 
 // Save persists the projection to a file.
 func (d *diskSnapshotStore) Save(projection SnapshotProjection) error {
+	d.saveMux.Lock()
+	defer d.saveMux.Unlock()
+
 	path := d.SnapshotPath(projection)
 
 	// The previous snapshot is replaced only by a complete one.
-- 
2.43.0


From 4c1cb263800251992bb0b0192c6be5c41e82758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:35 +0000
Subject: [PATCH 67/69] fix: a PostgreSQL store without WithUUIDGenerator
 panicked on every save

---
 provider/postgresstore/postgres_store.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 0bdf274..4ebb280 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -90,10 +90,11 @@ func WithPgNotify() Option {
 // New constructs an postgresStore.
 func New(config *Config, options ...Option) (*postgresStore, error) {
 	s := &postgresStore{
-		config:      config,
-		clock:       systemclock.New(),
-		serializer:  jsonrecordserializer.New(),
-		broadcaster: broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
+		config:        config,
+		clock:         systemclock.New(),
+		uuidGenerator: shortuuid.NewUUIDGenerator(),
+		serializer:    jsonrecordserializer.New(),
+		broadcaster:   broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
 	}
 
 	for _, option := range options {
-- 
2.43.0


From 3127e0ee19bea6b590554951a4f1dc3b1e8d9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:50 +0000
Subject: [PATCH 68/69] fix: PostgreSQL store reported a stored batch as failed
 when an event cannot be read back

---
 provider/postgresstore/postgres_store.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 4ebb280..ac8990e 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -315,10 +315,7 @@ func (s *postgresStore) transactionalSaveEvents(ctx context.Context, expectedStr
 	}
 
 	if !s.pgNotifyIsEnabled {
-		err = s.batchNotifySubscribers(saveResult)
-		if err != nil {
-			return 0, err
-		}
+		s.batchNotifySubscribers(saveResult)
 	}
 
 	return saveResult.LastStreamSequenceNumber, nil
@@ -409,7 +406,8 @@ func (s *postgresStore) validateStreamSequenceNumber(ctx context.Context, querya
 	return streamSequenceNumber, nil
 }
 
-func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
+// batchNotifySubscribers notifies about stored records, like listen.
+func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) {
 	for i, batchRecord := range saveResult.BatchRecords {
 		record := &rangedb.Record{
 			StreamName:           batchRecord.StreamName,
@@ -430,14 +428,16 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
 			s.serializer,
 		)
 		if err != nil {
-			return fmt.Errorf("unable to decode data: %v", err)
+			log.Printf("unable to decode data: %v", err)
+			continue
 		}
 
 		var metadata interface{}
 		if batchRecord.Metadata != "null" {
 			err = json.Unmarshal([]byte(batchRecord.Metadata), &metadata)
 			if err != nil {
-				return fmt.Errorf("unable to unmarshal metadata: %v", err)
+				log.Printf("unable to unmarshal metadata: %v", err)
+				continue
 			}
 		}
 
@@ -445,8 +445,6 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
 		record.Metadata = metadata
 		s.broadcaster.Accept(record)
 	}
-
-	return nil
 }
 
 func (s *postgresStore) eventRecordsToBatchRecords(eventRecords []*rangedb.EventRecord, streamName string, streamSequenceNumber uint64) ([]*batchSQLRecord, error) {
-- 
2.43.0


From f51c357d1da67cd9841571f5393255e641f7abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:09 +0000
Subject: [PATCH 69/69] fix: encrypt every field marked as personal data, or
 refuse to generate events

---
 pkg/eventparser/event_parser.go | 102 ++++++++++++++++++++++++++------
 1 file changed, 84 insertions(+), 18 deletions(-)

diff --git a/pkg/eventparser/event_parser.go b/pkg/eventparser/event_parser.go
index 6a254ea..f959ee0 100644
--- a/pkg/eventparser/event_parser.go
+++ b/pkg/eventparser/event_parser.go
@@ -6,6 +6,7 @@ import (
 	"go/parser"
 	"go/token"
 	"io"
+	"strconv"
 	"strings"
 
 	"github.com/fatih/structtag"
@@ -51,40 +52,55 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 			var personalDataFields []string
 			var serializedFields map[string]string
 			for _, field := range value.Fields.List {
-				// log.Printf(" %v - %v", field.Names, field.Tag)
-				if field.Tag == nil || len(field.Names) == 0 {
-					continue
-				}
-
-				fieldName := field.Names[0].String()
-				tagString := strings.Replace(field.Tag.Value, "`", "", 2)
-				tags, err := structtag.Parse(tagString)
-				if err != nil {
-					continue
+				if containsPersonalData(field.Type) {
+					v.err = fmt.Errorf("unsupported nested personal data in %s", n.Name)
 				}
 
-				encryptTag, err := tags.Get("encrypt")
+				tags, err := parseTags(field)
 				if err != nil {
+					v.err = err
 					continue
 				}
 
-				switch encryptTag.Value() {
+				switch encryptTag(tags) {
 				case "subject-id":
-					subjectID = fieldName
+					if len(field.Names) == 0 {
+						continue
+					}
+
+					subjectID = field.Names[0].String()
 
 				case "personal-data":
+					if len(field.Names) == 0 {
+						v.err = fmt.Errorf("unsupported embedded personal data in %s", n.Name)
+						continue
+					}
+
 					serializedTag, err := tags.Get("serialized")
 					if err != nil {
-						personalDataFields = append(personalDataFields, fieldName)
-					} else {
-						if serializedFields == nil {
-							serializedFields = make(map[string]string)
+						for _, name := range field.Names {
+							personalDataFields = append(personalDataFields, name.String())
 						}
-						serializedFields[serializedTag.Name] = fieldName
+						continue
+					}
+
+					if serializedFields == nil {
+						serializedFields = make(map[string]string)
+					}
+
+					for _, name := range field.Names {
+						if _, ok := serializedFields[serializedTag.Name]; ok {
+							v.err = fmt.Errorf("shared target for serialized personal data")
+						}
+						serializedFields[serializedTag.Name] = name.String()
 					}
 				}
 			}
 
+			if subjectID == "" && len(personalDataFields)+len(serializedFields) > 0 {
+				v.err = fmt.Errorf("missing subject-id for personal data in %s", n.Name)
+			}
+
 			for _, field := range value.Fields.List {
 				if len(field.Names) == 0 {
 					continue
@@ -121,3 +137,53 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 
 	return v
 }
+
+// parseTags returns the tags of a field, or nil if they are not in the conventional format.
+func parseTags(field *ast.Field) (*structtag.Tags, error) {
+	if field.Tag == nil {
+		return nil, nil
+	}
+
+	tagString, err := strconv.Unquote(field.Tag.Value)
+	if err != nil {
+		return nil, err
+	}
+
+	tags, err := structtag.Parse(tagString)
+	if err != nil {
+		if strings.Contains(tagString, "encrypt:") {
+			return nil, fmt.Errorf("invalid struct tag (%s): %v", tagString, err)
+		}
+		return nil, nil
+	}
+
+	return tags, nil
+}
+
+func encryptTag(tags *structtag.Tags) string {
+	if tags == nil {
+		return ""
+	}
+
+	tag, err := tags.Get("encrypt")
+	if err != nil {
+		return ""
+	}
+
+	return tag.Value()
+}
+
+// containsPersonalData returns true if personal data is inside the type of a field.
+func containsPersonalData(fieldType ast.Expr) bool {
+	found := false
+	ast.Inspect(fieldType, func(node ast.Node) bool {
+		if field, ok := node.(*ast.Field); ok {
+			tags, err := parseTags(field)
+			if err != nil || encryptTag(tags) == "personal-data" {
+				found = true
+			}
+		}
+		return true
+	})
+	return found
+}
-- 
2.43.0

