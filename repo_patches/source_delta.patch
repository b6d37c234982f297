From 5136a8725a30c0a146b1fb5af104daf03dbf583d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 01/38] fix: store a new hash field whose value is empty

---
 structure/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure/hash.go b/structure/hash.go
index c59ea0d..16aea95 100644
--- a/structure/hash.go
+++ b/structure/hash.go
@@ -289,7 +289,7 @@ func (t *TxStructure) updateHash(key, field []byte, fn func(oldValue []byte) ([]
 	}
 
 	// Check if new value is equal to old value.
-	if bytes.Equal(oldValue, newValue) {
+	if !isNew && bytes.Equal(oldValue, newValue) {
 		return nil
 	}
 
-- 
2.43.0


From 176ce940365a41e18b354800151a5e1cc4c80b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 02/38] fix: reject a negative length in compact.DecodeBytes
 instead of panicking

---
 kv/compact/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kv/compact/bytes.go b/kv/compact/bytes.go
index 977e048..b11d57c 100644
--- a/kv/compact/bytes.go
+++ b/kv/compact/bytes.go
@@ -20,7 +20,7 @@ func DecodeBytes(b []byte) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, err
 	}
-	if int64(len(b)) < n {
+	if n < 0 || int64(len(b)) < n {
 		return nil, nil, fmt.Errorf("insufficient bytes to decode value, expected length: %v", n)
 	}
 	return b[n:], b[:n], nil
-- 
2.43.0


From caab95d1d2f41f5818f31726cac564e81302f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 03/38] fix: Badger scans with an offset outside the prefix,
 and backward scans over a prefix, missed entries

---
 provider/badger.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/provider/badger.go b/provider/badger.go
index 58863e2..2d460ae 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -1,8 +1,11 @@
 package provider
 
 import (
+	"bytes"
+
 	"github.com/dgraph-io/badger"
 	"github.com/zhiqiangxu/mondis"
+	"github.com/zhiqiangxu/mondis/kv"
 )
 
 // Badger is mondis provider for badger
@@ -104,22 +107,33 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	iterOpts := badger.DefaultIteratorOptions
 	iterOpts.Reverse = option.Reverse
 
-	if len(option.Prefix) > 0 {
+	// start inside the range of the prefix
+	seek := option.Offset
+	if option.Reverse {
+		// badger would start from the prefix itself, which is the end of a backward iteration
+		end := kv.Key(option.Prefix).PrefixNext()
+		if !bytes.HasPrefix(end, option.Prefix) && (len(seek) == 0 || bytes.Compare(seek, end) > 0) {
+			seek = end
+		}
+	} else {
 		iterOpts.Prefix = option.Prefix
+		if bytes.Compare(seek, option.Prefix) < 0 {
+			seek = option.Prefix
+		}
 	}
 
 	iter := txn.NewIterator(iterOpts)
 	defer iter.Close()
 
-	if option.Offset != nil {
-		iter.Seek(option.Offset)
-	} else {
-		iter.Rewind()
-	}
-
 	var goon bool
-	for ; iter.Valid(); iter.Next() {
+	for iter.Seek(seek); iter.Valid(); iter.Next() {
 		item := iter.Item()
+		if !bytes.HasPrefix(item.Key(), option.Prefix) {
+			if option.Reverse && bytes.Compare(item.Key(), option.Prefix) > 0 {
+				continue
+			}
+			break
+		}
 
 		err = item.Value(func(val []byte) error {
 			goon = fn(item.Key(), val, mondis.VMetaResp{ExpiresAt: item.ExpiresAt(), Tag: item.UserMeta()})
-- 
2.43.0


From 04769c664c9d5d691f9446658be0586ff29bc377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 04/38] fix: a tagged value without TTL expired immediately on
 Badger

---
 provider/badger_txn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/provider/badger_txn.go b/provider/badger_txn.go
index e307d58..0dbfb9c 100644
--- a/provider/badger_txn.go
+++ b/provider/badger_txn.go
@@ -21,7 +21,10 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 		return (*badger.Txn)(txn).Set(k, v)
 	}
 
-	entry := badger.NewEntry(k, v).WithTTL(meta.TTL).WithMeta(meta.Tag)
+	entry := badger.NewEntry(k, v).WithMeta(meta.Tag)
+	if meta.TTL != 0 {
+		entry = entry.WithTTL(meta.TTL)
+	}
 	return (*badger.Txn)(txn).SetEntry(entry)
 }
 
-- 
2.43.0


From 93c88d6464986ee9accbe85492c6364292b15945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 05/38] fix: LevelDB scans leaked their iterator and hid its
 errors

---
 provider/leveldb.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/provider/leveldb.go b/provider/leveldb.go
index 4edd664..9b52eec 100644
--- a/provider/leveldb.go
+++ b/provider/leveldb.go
@@ -97,6 +97,13 @@ func (l *LevelDB) Scan(option mondis.ProviderScanOption, fn func(key []byte, val
 		slice = util.BytesPrefix(option.Prefix)
 	}
 	iter := l.db.NewIterator(slice, nil)
+	defer func() {
+		iter.Release()
+		if err == nil {
+			err = iter.Error()
+		}
+	}()
+
 	if option.Offset != nil {
 		if !iter.Seek(option.Offset) {
 			return
-- 
2.43.0


From a976595da0812cb7e0e352c68662a8e6099fa563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 06/38] fix: a crash in the middle of a log append left a
 Badger database that refused to open

---
 provider/badger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/badger.go b/provider/badger.go
index 2d460ae..a2f8bcf 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -20,7 +20,8 @@ func NewBadger() mondis.KVDB {
 
 // Open db
 func (b *Badger) Open(option mondis.KVOption) (err error) {
-	db, err := badger.Open(badger.DefaultOptions(option.Dir))
+	// an incomplete entry at the end of the log, which a crash may leave, is dropped
+	db, err := badger.Open(badger.DefaultOptions(option.Dir).WithTruncate(true))
 	if err != nil {
 		return
 	}
-- 
2.43.0


From a743c049f2d6382fefa48567342efbac61247dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 07/38] fix: schema jobs that recorded an error could not be
 read back

---
 document/model/model.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/document/model/model.go b/document/model/model.go
index 46389ed..d19be02 100644
--- a/document/model/model.go
+++ b/document/model/model.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"encoding/json"
+	"errors"
 
 	"github.com/zhiqiangxu/util/osc"
 )
@@ -236,6 +237,13 @@ func (ii *IndexInfo) Clone() *IndexInfo {
 	return &clone
 }
 
+// jobRecord is the stored form of a Job, with its Error as text because
+// an error value does not survive json.
+type jobRecord struct {
+	*Job
+	Error *string
+}
+
 // Encode encodes job with json format.
 func (job *Job) Encode() (b []byte, err error) {
 	if len(job.RawArg) == 0 {
@@ -245,7 +253,12 @@ func (job *Job) Encode() (b []byte, err error) {
 		}
 	}
 
-	b, err = json.Marshal(job)
+	record := jobRecord{Job: job}
+	if job.Error != nil {
+		msg := job.Error.Error()
+		record.Error = &msg
+	}
+	b, err = json.Marshal(record)
 
 	return
 }
@@ -253,7 +266,15 @@ func (job *Job) Encode() (b []byte, err error) {
 // Decode decodes job from the json buffer, we must use DecodeArg later to
 // decode special arg for this job.
 func (job *Job) Decode(b []byte) (err error) {
-	err = json.Unmarshal(b, job)
+	record := jobRecord{Job: job}
+	err = json.Unmarshal(b, &record)
+	if err != nil {
+		return
+	}
+	job.Error = nil
+	if record.Error != nil {
+		job.Error = errors.New(*record.Error)
+	}
 	return
 }
 
-- 
2.43.0


From f3db0784f3fc8649ab295bae3db90c740bc7bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 08/38] fix: AddIndexInfo panicked on a collection without
 indices

---
 document/model/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document/model/model.go b/document/model/model.go
index d19be02..47657e2 100644
--- a/document/model/model.go
+++ b/document/model/model.go
@@ -207,6 +207,9 @@ func (c *CollectionInfo) AddIndexInfo(iif *IndexInfo) (ok bool) {
 		return
 	}
 
+	if c.Indices == nil {
+		c.Indices = make(map[string]*IndexInfo)
+	}
 	c.Indices[iif.Name] = iif.Clone()
 	c.IndexOrder = append(c.IndexOrder, iif.Name)
 	ok = true
-- 
2.43.0


From d88e8c86438140aacb52b1ed3f44110322bf9650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 09/38] fix: reading a schema job beyond the end of the queue
 failed instead of finding no job

---
 document/meta/meta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/meta/meta.go b/document/meta/meta.go
index e172d45..4545a8e 100644
--- a/document/meta/meta.go
+++ b/document/meta/meta.go
@@ -487,7 +487,7 @@ func (m *Meta) getDDLJob(key []byte, index int64) (job *model.Job, err error) {
 		err = nil
 		return
 	}
-	if err != nil {
+	if err != nil || value == nil {
 		return
 	}
 
-- 
2.43.0


From 909c63bfb8bac6fa9db738d6248bc5fe13c7a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 10/38] fix: NextN handed out the ids of a renewed lease a
 second time

---
 document/meta/sequence/sequence.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index 1598f7b..bf2dd97 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -193,6 +193,7 @@ func (seq *Sequence) NextN(n int64) (ranges []IDRange, err error) {
 
 	r := IDRange{Start: seq.next, End: seq.next + n - remain}
 	ranges = append(ranges, r)
+	seq.next = r.End
 
 	return
 }
-- 
2.43.0


From 18734833353fe27a91b518ef54fc963993da3fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 11/38] fix: NextN with a negative count handed out old ids
 again

---
 document/meta/sequence/sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index bf2dd97..bdd8b09 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -156,7 +156,7 @@ type IDRange struct {
 // NextN return n consecutive id in ranges
 // when succeed, len(ranges) should be either 1 or 2
 func (seq *Sequence) NextN(n int64) (ranges []IDRange, err error) {
-	if n == 0 {
+	if n <= 0 {
 		return
 	}
 
-- 
2.43.0


From 1b11379f142f819199eff0da8408e004ee1b8939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 12/38] fix: clearing a hash sequence deleted the other fields
 of its hash

---
 document/meta/sequence/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index 593113b..a2bb255 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -54,7 +54,7 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
-		err = txStruct.HClear(key)
+		err = txStruct.HDel(key, field)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From c67c3520eadc946f65b11778eafa3746362a17a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 13/38] fix: a cleared sequence still handed out ids put back
 before

---
 document/meta/sequence/sequence.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index bdd8b09..800ba0e 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -107,6 +107,9 @@ func (seq *Sequence) Clear() (err error) {
 	}
 
 	err = seq.clearFunc()
+	if err == nil {
+		seq.putbacks = nil
+	}
 	return
 }
 
-- 
2.43.0


From 4d5db4aa7fd211188e9fe01f1b582e32619c4b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 14/38] fix: releasing the rest of a lease made ids leased by
 another instance available again

---
 document/meta/sequence/hash.go   | 12 ++++++++++++
 document/meta/sequence/string.go | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index a2bb255..7763852 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -73,6 +74,17 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
+		stored, err := txStruct.HGetInt64(key, field)
+		if err != nil && err != kv.ErrKeyNotFound {
+			return
+		}
+		if err != nil || stored != s.leased {
+			// others leased after us, the remaining ids can no longer be given back
+			err = nil
+			s.leased = s.next
+			return
+		}
+
 		err = txStruct.HSetInt64(key, field, s.next)
 		if err != nil {
 			return
diff --git a/document/meta/sequence/string.go b/document/meta/sequence/string.go
index 3b9aaa5..570e19d 100644
--- a/document/meta/sequence/string.go
+++ b/document/meta/sequence/string.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -69,6 +70,17 @@ func NewString(kvdb mondis.KVDB, keyword []byte, bandwidth int64) (s *String, er
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
+		stored, err := txStruct.GetInt64(keyword)
+		if err != nil && err != kv.ErrKeyNotFound {
+			return
+		}
+		if err != nil || stored != s.leased {
+			// others leased after us, the remaining ids can no longer be given back
+			err = nil
+			s.leased = s.next
+			return
+		}
+
 		err = txStruct.SetInt64(keyword, s.next)
 		if err != nil {
 			return
-- 
2.43.0


From 8d0430b278177a33c798e17b80205820097e3e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 15/38] fix: legacy DeleteAll runs in an update transaction

It opened a read-only one, so every call on a non-empty collection failed.
---
 document/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 515dacb..7ac21e2 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -298,7 +298,7 @@ func (c *Collection) DeleteAll(txn mondis.ProviderTxn) (n int, err error) {
 		return
 	}
 
-	err = tutil.RunInNewTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
+	err = tutil.RunInNewUpdateTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
 		newN, err := c.deleteAllWithTxn(txn)
 		n += newN
 		return err
-- 
2.43.0


From 366a0b39af1096e0b0d9e19ccc63e19fca6185c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 16/38] fix: CreateIndex keeps the definition as given

EncodeCollectionColumnsIndexedKey normalized the caller's fields in place, so the
caller's slice changed and the definition in memory differed from the stored one.
---
 document/collection.go | 3 +++
 document/keys.go       | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/document/collection.go b/document/collection.go
index 7ac21e2..2a031bd 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -406,6 +406,9 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
+	// neither change nor keep the fields of the caller
+	idef = idef.Clone()
+
 	idefBytes, err := bson.Marshal(idef)
 	if err != nil {
 		return
diff --git a/document/keys.go b/document/keys.go
index 8b50a30..b44a3b2 100644
--- a/document/keys.go
+++ b/document/keys.go
@@ -85,6 +85,8 @@ func EncodeCollectionColumnsIndexedKey(buf []byte, cid int64, fields []IndexFiel
 		buf = make([]byte, 0, bufLen)
 	}
 
+	// normalize a copy, the fields belong to the caller
+	fields = append([]IndexField(nil), fields...)
 	if len(fields) == 1 {
 		fields[0].Desc = false
 	} else {
-- 
2.43.0


From 7e7303edffda355c14b8a03ef3eb283ecd4a5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 17/38] fix: CreateIndex refuses a name already in use

A second index under the same name overwrote the first one's catalogue entry and
left its column entry behind for good.
---
 document/collection.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/document/collection.go b/document/collection.go
index 2a031bd..02e5649 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -442,6 +442,17 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	if err != nil {
 		return
 	}
+
+	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
+	exists, err := txn.Exists(indexName2IDKey)
+	if err != nil {
+		return
+	}
+	if exists {
+		err = fmt.Errorf("there already exists an index named %s", idef.Name)
+		return
+	}
+
 	iid, err = c.db.nextIndexID()
 	if err != nil {
 		return
@@ -451,8 +462,10 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
-	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
-	txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
+	err = txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
+	if err != nil {
+		return
+	}
 	metaIndexKey := EncodeMetaIndexKey(nil, iid)
 	err = txn.Set(metaIndexKey, idefBytes, nil)
 	if err != nil {
-- 
2.43.0


From 5d8760895bed72743c58cd7c243c55706d21f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 18/38] fix: indexMap follows the order of the commits

CreateIndex and DropIndex updated it after their commit without ordering, so a
drop and a create could leave the open collection with another index list than
the stored one.
---
 document/collection.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/document/collection.go b/document/collection.go
index 02e5649..5497428 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -472,14 +472,14 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
+	// commits and updates of indexMap happen in the same order
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	err = txn.Commit()
 	if err != nil {
 		return
 	}
-
-	c.mu.Lock()
 	c.indexMap[idef.Name] = idef
-	c.mu.Unlock()
 	return
 }
 
@@ -605,14 +605,14 @@ func (c *Collection) DropIndex(iname string) (exists bool, err error) {
 		return
 	}
 
+	// commits and updates of indexMap happen in the same order
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	err = txn.Commit()
 	if err != nil {
 		return
 	}
-
-	c.mu.Lock()
 	delete(c.indexMap, idef.Name)
-	c.mu.Unlock()
 	return
 }
 
-- 
2.43.0


From 2d9a6b1dcf42eb655b6422c975ce39f7c26d5cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 19/38] fix: CreateSchema panicked when a collection had
 indices

---
 document/ddl/ddl_api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index 964ae50..335ec2c 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -61,6 +61,9 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 			}
 			dbInfo.CollectionOrder = append(dbInfo.CollectionOrder, cn)
 			if len(input.Indices[cn]) > 0 {
+				if collectInfo.Indices == nil {
+					collectInfo.Indices = make(map[string]*model.IndexInfo)
+				}
 				for _, indexInfo := range input.Indices[cn] {
 					iif := indexInfo.ToModel()
 					iif.ID = nextID + 1
-- 
2.43.0


From a51cd09aa157a414363a3ee97fe55cd73d59553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 20/38] fix: CreateSchema used more ids than it had allocated

It counted one id per collection with indices instead of one per index, so later
objects and jobs got ids already in use.
---
 document/ddl/ddl_api.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index 335ec2c..005c08d 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -16,7 +16,11 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 		return
 	}
 
-	n := 2 + len(input.Collections) + len(input.Indices)
+	// the database, the job, and each collection with its indices
+	n := 2
+	for _, cn := range input.Collections {
+		n += 1 + len(input.Indices[cn])
+	}
 	err = util.RunInNewUpdateTxn(d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 		m := meta.NewMeta(txn)
 		queueLength, err := m.DDLJobQueueLen()
-- 
2.43.0


From b08d436a624b9e815a8b146c83e9b4630b5f72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 21/38] fix: the recorded schema change of a new database
 lacked its states

It carried the request as it was queued, so a schema refreshed change by change
had absent databases, collections and indices where the stored ones are public.
---
 document/ddl/ddl_worker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index f44c527..fbfa3e6 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -319,6 +319,7 @@ func (w *worker) onCreateSchema(m *meta.Meta, job *model.Job) (schemaVersion int
 		}
 	}
 
+	job.RawArg = nil // will encode job.Arg, now with the public states, into job.RawArg
 	schemaVersion, err = updateSchemaVersion(m, job)
 	if err != nil {
 		return
-- 
2.43.0


From 1e594f7f33c27e4cee291585a6ae52fee497d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 22/38] fix: a failed schema job kept what it had written

handleJobQueue committed the transaction of a failed job together with its error
count, so a database could exist without its collections, reported as failed.
---
 document/ddl/ddl_worker.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index fbfa3e6..937a8f8 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -71,6 +71,7 @@ func (w *worker) handleJobQueue() (err error) {
 		job                 *model.Job
 	)
 	for {
+		runJobErr = nil
 		err = util.RunInNewUpdateTxnWithCallback(w.d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 			m := meta.NewMeta(txn)
 
@@ -98,13 +99,9 @@ func (w *worker) handleJobQueue() (err error) {
 			})
 
 			if runJobErr != nil {
-				job.ErrorCount++
-				job.Error = runJobErr
-				logger.Instance().Error("runJob", zap.Any("job", job), zap.Error(runJobErr))
-				if failNow || job.ErrorCount >= jobMaxErrorCount {
-					err = w.finishJob(m, job)
-					return
-				}
+				// discard what the failed job has written so far
+				err = runJobErr
+				return
 			}
 
 			if job.IsCancelled() {
@@ -121,6 +118,10 @@ func (w *worker) handleJobQueue() (err error) {
 		})
 		afterCommitFunc4Job = nil
 
+		if runJobErr != nil {
+			err = w.recordJobError(job, failNow, runJobErr)
+		}
+
 		if nojob {
 			return
 		}
@@ -143,6 +144,21 @@ func (w *worker) handleJobQueue() (err error) {
 	}
 }
 
+// recordJobError updates or finishes a job that failed, in a transaction of its own.
+func (w *worker) recordJobError(job *model.Job, failNow bool, runJobErr error) error {
+	job.ErrorCount++
+	job.Error = runJobErr
+	logger.Instance().Error("runJob", zap.Any("job", job), zap.Error(runJobErr))
+
+	return util.RunInNewUpdateTxn(w.d.kvdb, func(txn mondis.ProviderTxn) error {
+		m := meta.NewMeta(txn)
+		if failNow || job.ErrorCount >= jobMaxErrorCount || job.IsCancelled() {
+			return w.finishJob(m, job)
+		}
+		return w.updateJob(m, job)
+	})
+}
+
 func (w *worker) runJob(m *meta.Meta, job *model.Job) (schemaVersion int64, afterCommitFunc4Job func(), failNow bool, err error) {
 	if job.IsFinished() {
 		return
-- 
2.43.0


From 904fd865811c295a3d2d3ab006d2ae45cafdfb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 23/38] fix: a schema conflict left the schema handle locked

Handle.Check returned without releasing its read lock when it found a
conflicting change, so that no schema update got through afterwards.
---
 document/schema/handle.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/schema/handle.go b/document/schema/handle.go
index ecab688..2413a93 100644
--- a/document/schema/handle.go
+++ b/document/schema/handle.go
@@ -54,6 +54,7 @@ func (h *Handle) Check(ctx context.Context, startMetaCache *MetaCache, referredC
 
 			for _, collectionIDs := range cache.schemaDiffs[diffIdx] {
 				if _, ok := referredCollections[collectionIDs]; ok {
+					h.mu.RUnlock()
 					return
 				}
 			}
-- 
2.43.0


From 2ecb067617c321ba969a6e34779677a5347787a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 24/38] fix: a failed InsertOne reported success

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 5d56a96..1b50f13 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -55,7 +55,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 	insertFunc := func(t *txn.Txn) (ierr error) {
 		ci := t.StartMetaCache().CollectionInfo(c.dbName, c.collectionName)
 		if ci == nil {
-			err = ErrCollectionNotExists
+			ierr = ErrCollectionNotExists
 			return
 		}
 		if origT != nil {
@@ -76,7 +76,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 		docKey := EncodeCollectionDocumentKey(nil, ci.ID, did)
 
 		ierr = t.Set(docKey, data, nil)
-		if err != nil {
+		if ierr != nil {
 			return
 		}
 
-- 
2.43.0


From 243d62c3ced6c83a60147908d9a82b2357d406a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:23 +0000
Subject: [PATCH 25/38] fix: the id range of an empty collection came from its
 neighbours

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 1b50f13..ca0296f 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -310,7 +310,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 	}
 
 	collectionDocumentPrefix := AppendCollectionDocumentPrefix(nil, ci.ID)
-	scanErr := t.Scan(mondis.ProviderScanOption{Offset: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr := t.Scan(mondis.ProviderScanOption{Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, min, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
@@ -321,7 +321,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 		err = scanErr
 		return
 	}
-	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Offset: collectionDocumentPrefix.PrefixNext()}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, max, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
-- 
2.43.0


From 4234cc36052404356aa79242d74890708775e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 26/38] fix: a set inside a remote transaction decoded its
 request as a response

---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index 6ab956a..4a2712e 100644
--- a/server/common.go
+++ b/server/common.go
@@ -43,7 +43,7 @@ func handleTxnContinuedFrame(
 		switch nextFrame.Cmd {
 		case SetCmd:
 			close = false
-			err = setResp.Unmarshal(nextFrame.Payload)
+			err = setReq.Unmarshal(nextFrame.Payload)
 			if err != nil {
 				close = true
 				setResp.Code = CodeInvalidRequest
-- 
2.43.0


From d97fec7c24a16fa33b603a091c70c1e8e56b3fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 27/38] fix: requests of a remote transaction inherited fields
 of earlier ones

---
 server/common.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/server/common.go b/server/common.go
index 4a2712e..b7dbe77 100644
--- a/server/common.go
+++ b/server/common.go
@@ -15,22 +15,22 @@ func handleTxnContinuedFrame(
 	writer qrpc.FrameWriter,
 	frame *qrpc.RequestFrame,
 	txn mondis.ProviderTxn) {
-	var (
-		getReq     pb.GetRequest
-		getResp    pb.GetResponse
-		deleteReq  pb.DeleteRequest
-		deleteResp pb.DeleteResponse
-		setReq     pb.SetRequest
-		setResp    pb.SetResponse
-		existsReq  pb.ExistsRequest
-		existsResp pb.ExistsResponse
-		scanReq    pb.ScanRequest
-		scanResp   pb.ScanResponse
-		commitResp pb.CommitResponse
-		err        error
-		close      bool
-	)
 	for {
+		var (
+			getReq     pb.GetRequest
+			getResp    pb.GetResponse
+			deleteReq  pb.DeleteRequest
+			deleteResp pb.DeleteResponse
+			setReq     pb.SetRequest
+			setResp    pb.SetResponse
+			existsReq  pb.ExistsRequest
+			existsResp pb.ExistsResponse
+			scanReq    pb.ScanRequest
+			scanResp   pb.ScanResponse
+			commitResp pb.CommitResponse
+			err        error
+			close      bool
+		)
 		nextFrame := <-frame.FrameCh()
 		if nextFrame == nil {
 			txn.Discard()
-- 
2.43.0


From ef5d5f0984342c304626de942d7b594d40319c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 28/38] fix: a scan request without options crashed its handler

---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index b7dbe77..c27c238 100644
--- a/server/common.go
+++ b/server/common.go
@@ -284,7 +284,7 @@ func copyBytes(in []byte) (out []byte) {
 
 func handleScan(kvop mondis.ProviderKVOP, req *pb.ScanRequest, resp *pb.ScanResponse) {
 	pso := req.ProviderScanOption
-	option := mondis.ProviderScanOption{Reverse: pso.Reverse, Prefix: pso.Prefix, Offset: pso.Offset}
+	option := mondis.ProviderScanOption{Reverse: pso.GetReverse(), Prefix: pso.GetPrefix(), Offset: pso.GetOffset()}
 	limit := int(req.Limit)
 	if limit == 0 {
 		goto DONE
-- 
2.43.0


From f9049217fb057c31c542d2e3697508cdfd803251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 29/38] fix: a scan request with a negative limit returned an
 entry

---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index c27c238..a787ec1 100644
--- a/server/common.go
+++ b/server/common.go
@@ -286,7 +286,7 @@ func handleScan(kvop mondis.ProviderKVOP, req *pb.ScanRequest, resp *pb.ScanResp
 	pso := req.ProviderScanOption
 	option := mondis.ProviderScanOption{Reverse: pso.GetReverse(), Prefix: pso.GetPrefix(), Offset: pso.GetOffset()}
 	limit := int(req.Limit)
-	if limit == 0 {
+	if limit <= 0 {
 		goto DONE
 	}
 	if limit > mondis.MaxEntry {
-- 
2.43.0


From 78dca1d8a58898a60c92320b16947cf73c5073e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 30/38] fix: remote sets and deletes did not tell that the
 write is too big

---
 client/client.go |  6 +++++-
 server/common.go | 18 ++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/client/client.go b/client/client.go
index 2b9545b..f04da92 100644
--- a/client/client.go
+++ b/client/client.go
@@ -193,7 +193,11 @@ func parseDeleteRespFromFrame(respFrame *qrpc.Frame) (err error) {
 	}
 
 	if deleteResp.Code != 0 {
-		err = newPBError(deleteResp.Code, deleteResp.Msg)
+		if deleteResp.Code == server.CodeTxnTooBig {
+			err = kv.ErrTxnTooBig
+		} else {
+			err = newPBError(deleteResp.Code, deleteResp.Msg)
+		}
 		return
 	}
 
diff --git a/server/common.go b/server/common.go
index a787ec1..f0b8c93 100644
--- a/server/common.go
+++ b/server/common.go
@@ -202,8 +202,13 @@ func handleSet(kvdb mondis.KVDB, req *pb.SetRequest, resp *pb.SetResponse) {
 	err := kvdb.Set(req.Key, req.Value, meta)
 	if err != nil {
 
-		resp.Code = CodeInternalError
-		resp.Msg = err.Error()
+		if err == kv.ErrTxnTooBig {
+			resp.Code = CodeTxnTooBig
+			resp.Msg = err.Error()
+		} else {
+			resp.Code = CodeInternalError
+			resp.Msg = err.Error()
+		}
 
 		return
 	}
@@ -250,8 +255,13 @@ func handleGet(kvop mondis.ProviderKVOP, req *pb.GetRequest, resp *pb.GetRespons
 func handleDelete(kvdb mondis.KVDB, req *pb.DeleteRequest, resp *pb.DeleteResponse) {
 	err := kvdb.Delete(req.Key)
 	if err != nil {
-		resp.Code = CodeInternalError
-		resp.Msg = err.Error()
+		if err == kv.ErrTxnTooBig {
+			resp.Code = CodeTxnTooBig
+			resp.Msg = err.Error()
+		} else {
+			resp.Code = CodeInternalError
+			resp.Msg = err.Error()
+		}
 		return
 	}
 
-- 
2.43.0


From 479d7c4063753ad6492da5e5d162da60f3165617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 31/38] fix: a remote transaction crashed the client when the
 connection was lost

---
 client/client_txn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client_txn.go b/client/client_txn.go
index 8dce8a9..7bb105e 100644
--- a/client/client_txn.go
+++ b/client/client_txn.go
@@ -52,6 +52,9 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 func (txn *Txn) getRespFrame() (respFrame *qrpc.Frame, err error) {
 	if txn.firstFrame != nil {
 		respFrame = <-txn.firstFrame.FrameCh()
+		if respFrame == nil {
+			err = qrpc.ErrConnAlreadyClosed
+		}
 		return
 	}
 
-- 
2.43.0


From da072703fd97b37284ea01ae12457d10d403c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 32/38] fix: stopping the server closed the database under
 running requests

---
 server/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 5c82433..a6ed9f2 100644
--- a/server/server.go
+++ b/server/server.go
@@ -52,11 +52,11 @@ func (s *Server) Start() (err error) {
 // Stop server
 func (s *Server) Stop() (err error) {
 
-	err = s.kvdb.Close()
+	err = s.qserver.Shutdown()
 	if err != nil {
 		return
 	}
 
-	err = s.qserver.Shutdown()
+	err = s.kvdb.Close()
 	return
 }
-- 
2.43.0


From 9831412401bf2a8b38baf0fe44842a9e50a18098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 33/38] fix: a request with an overflowing length stopped the
 server

---
 pb/mondis.pb.go | 116 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 115 insertions(+), 1 deletion(-)

diff --git a/pb/mondis.pb.go b/pb/mondis.pb.go
index e7efd31..4b19655 100644
--- a/pb/mondis.pb.go
+++ b/pb/mondis.pb.go
@@ -1766,6 +1766,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1797,6 +1800,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1828,6 +1834,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1847,6 +1856,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1932,6 +1944,9 @@ func (m *SetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1946,6 +1961,9 @@ func (m *SetResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2011,6 +2029,9 @@ func (m *GetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2028,6 +2049,9 @@ func (m *GetRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2113,6 +2137,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2141,6 +2168,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2172,6 +2202,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2191,6 +2224,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2256,6 +2292,9 @@ func (m *ExistsRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2273,6 +2312,9 @@ func (m *ExistsRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2358,6 +2400,9 @@ func (m *ExistsResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2392,6 +2437,9 @@ func (m *ExistsResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2457,6 +2505,9 @@ func (m *DeleteRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2474,6 +2525,9 @@ func (m *DeleteRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2559,6 +2613,9 @@ func (m *DeleteResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2573,6 +2630,9 @@ func (m *DeleteResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2662,6 +2722,9 @@ func (m *VMetaReq) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2751,6 +2814,9 @@ func (m *VMetaResp) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2836,6 +2902,9 @@ func (m *CommitResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2850,6 +2919,9 @@ func (m *CommitResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2915,6 +2987,9 @@ func (m *ScanRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2953,6 +3028,9 @@ func (m *ScanRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3038,6 +3116,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3069,6 +3150,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3086,6 +3170,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3151,6 +3238,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3182,6 +3272,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3213,6 +3306,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3232,6 +3328,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3317,6 +3416,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3345,6 +3447,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3362,6 +3467,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3429,10 +3537,13 @@ func skipMondis(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthMondis
 			}
+			iNdEx += length
+			if iNdEx < 0 {
+				return 0, ErrInvalidLengthMondis
+			}
 			return iNdEx, nil
 		case 3:
 			for {
@@ -3461,6 +3572,9 @@ func skipMondis(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if iNdEx < 0 {
+					return 0, ErrInvalidLengthMondis
+				}
 			}
 			return iNdEx, nil
 		case 4:
-- 
2.43.0


From 19a91dca859e26aaac565365d090ba96b986ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 34/38] fix: a request with deeply nested groups stopped the
 server

---
 pb/mondis.pb.go | 58 ++++++++++++++-----------------------------------
 1 file changed, 16 insertions(+), 42 deletions(-)

diff --git a/pb/mondis.pb.go b/pb/mondis.pb.go
index 4b19655..77fa508 100644
--- a/pb/mondis.pb.go
+++ b/pb/mondis.pb.go
@@ -3486,6 +3486,7 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 func skipMondis(dAtA []byte) (n int, err error) {
 	l := len(dAtA)
 	iNdEx := 0
+	depth := 0
 	for iNdEx < l {
 		var wire uint64
 		for shift := uint(0); ; shift += 7 {
@@ -3517,10 +3518,8 @@ func skipMondis(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			return iNdEx, nil
 		case 1:
 			iNdEx += 8
-			return iNdEx, nil
 		case 2:
 			var length int
 			for shift := uint(0); ; shift += 7 {
@@ -3541,57 +3540,32 @@ func skipMondis(dAtA []byte) (n int, err error) {
 				return 0, ErrInvalidLengthMondis
 			}
 			iNdEx += length
-			if iNdEx < 0 {
-				return 0, ErrInvalidLengthMondis
-			}
-			return iNdEx, nil
 		case 3:
-			for {
-				var innerWire uint64
-				var start int = iNdEx
-				for shift := uint(0); ; shift += 7 {
-					if shift >= 64 {
-						return 0, ErrIntOverflowMondis
-					}
-					if iNdEx >= l {
-						return 0, io.ErrUnexpectedEOF
-					}
-					b := dAtA[iNdEx]
-					iNdEx++
-					innerWire |= (uint64(b) & 0x7F) << shift
-					if b < 0x80 {
-						break
-					}
-				}
-				innerWireType := int(innerWire & 0x7)
-				if innerWireType == 4 {
-					break
-				}
-				next, err := skipMondis(dAtA[start:])
-				if err != nil {
-					return 0, err
-				}
-				iNdEx = start + next
-				if iNdEx < 0 {
-					return 0, ErrInvalidLengthMondis
-				}
-			}
-			return iNdEx, nil
+			depth++
 		case 4:
-			return iNdEx, nil
+			if depth == 0 {
+				return 0, ErrUnexpectedEndOfGroupMondis
+			}
+			depth--
 		case 5:
 			iNdEx += 4
-			return iNdEx, nil
 		default:
 			return 0, fmt.Errorf("proto: illegal wireType %d", wireType)
 		}
+		if iNdEx < 0 {
+			return 0, ErrInvalidLengthMondis
+		}
+		if depth == 0 {
+			return iNdEx, nil
+		}
 	}
-	panic("unreachable")
+	return 0, io.ErrUnexpectedEOF
 }
 
 var (
-	ErrInvalidLengthMondis = fmt.Errorf("proto: negative length found during unmarshaling")
-	ErrIntOverflowMondis   = fmt.Errorf("proto: integer overflow")
+	ErrInvalidLengthMondis        = fmt.Errorf("proto: negative length found during unmarshaling")
+	ErrIntOverflowMondis          = fmt.Errorf("proto: integer overflow")
+	ErrUnexpectedEndOfGroupMondis = fmt.Errorf("proto: unexpected end of group")
 )
 
 func init() { proto.RegisterFile("mondis.proto", fileDescriptor_mondis_b556768874fb6b4e) }
-- 
2.43.0


From 6167145e716c4813e86bfa9a1778b53df0b3f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 35/38] fix: AddIndex queued requests without validating them

---
 document/ddl/ddl_api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index 005c08d..d7ca99b 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -101,6 +101,11 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 
 // AddIndex for add index
 func (d *DDL) AddIndex(ctx context.Context, input AddIndexInput) (job *model.Job, err error) {
+	err = input.Validate()
+	if err != nil {
+		return
+	}
+
 	err = util.RunInNewUpdateTxn(d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 		m := meta.NewMeta(txn)
 
-- 
2.43.0


From df2fae31094271b799a3a1019556a5eb3f4fea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:00 +0000
Subject: [PATCH 36/38] fix: GetAll returned documents whose binary fields were
 overwritten

---
 document/dml/collection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index ca0296f..f5244e6 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -362,7 +362,8 @@ func (c *Collection) GetAll(slicePtr interface{}, t *txn.Txn) (err error) {
 	scanErr := t.Scan(mondis.ProviderScanOption{Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		item := reflect.New(et)
 		ptr := item.Interface()
-		err = bson.Unmarshal(value, ptr)
+		// decoded documents refer to the bytes they are decoded from, value is only valid here
+		err = bson.Unmarshal(append([]byte(nil), value...), ptr)
 		if err != nil {
 			return false
 		}
-- 
2.43.0


From 2271cb55c9f10f1cf982b5f6974edd077b5dd604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:18 +0000
Subject: [PATCH 37/38] fix: document id sequences of different stores in one
 process were mixed up

---
 document/dml/collection.go |  2 +-
 document/dml/sequence.go   | 26 ++++++++++++++++----------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index f5244e6..934d553 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -62,7 +62,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 			origT.ReferredCollections(ci.ID)
 		}
 
-		seq := GetSequence(ci.ID)
+		seq := GetSequence(c.kvdb, ci.ID)
 		if seq == nil {
 			ierr = ErrSequenceNotExists
 			return
diff --git a/document/dml/sequence.go b/document/dml/sequence.go
index 96c70fa..6881374 100644
--- a/document/dml/sequence.go
+++ b/document/dml/sequence.go
@@ -10,6 +10,12 @@ import (
 	"github.com/zhiqiangxu/mondis/document/meta/sequence"
 )
 
+// collection ids are only unique within one store
+type sequenceKey struct {
+	kvdb mondis.KVDB
+	cid  int64
+}
+
 var (
 	sequenceMap sync.Map
 	// ErrSequenceNotExists when sequence not exists
@@ -19,8 +25,8 @@ var (
 )
 
 // GetSequence for collection, thread safe
-func GetSequence(cid int64) *sequence.Hash {
-	v, _ := sequenceMap.Load(cid)
+func GetSequence(kvdb mondis.KVDB, cid int64) *sequence.Hash {
+	v, _ := sequenceMap.Load(sequenceKey{kvdb, cid})
 
 	ret, _ := v.(*sequence.Hash)
 	return ret
@@ -28,7 +34,7 @@ func GetSequence(cid int64) *sequence.Hash {
 
 // CreateSequence by cid, non thread safe
 func CreateSequence(kvdb mondis.KVDB, dbID, cid, bandwidth int64) (err error) {
-	_, exists := sequenceMap.Load(cid)
+	_, exists := sequenceMap.Load(sequenceKey{kvdb, cid})
 	if exists {
 		err = ErrSequenceAlreadyExists
 		return
@@ -39,7 +45,7 @@ func CreateSequence(kvdb mondis.KVDB, dbID, cid, bandwidth int64) (err error) {
 		return
 	}
 
-	_, loaded := sequenceMap.LoadOrStore(cid, seq)
+	_, loaded := sequenceMap.LoadOrStore(sequenceKey{kvdb, cid}, seq)
 	if loaded {
 		err = ErrSequenceAlreadyExists
 		return
@@ -48,27 +54,27 @@ func CreateSequence(kvdb mondis.KVDB, dbID, cid, bandwidth int64) (err error) {
 }
 
 // DropSequence by cid, non thread safe
-func DropSequence(cid int64) (err error) {
-	v, exists := sequenceMap.Load(cid)
+func DropSequence(kvdb mondis.KVDB, cid int64) (err error) {
+	v, exists := sequenceMap.Load(sequenceKey{kvdb, cid})
 	if !exists {
 		err = ErrSequenceNotExists
 		return
 	}
 
-	sequenceMap.Delete(cid)
+	sequenceMap.Delete(sequenceKey{kvdb, cid})
 
 	err = v.(*sequence.Hash).Close(config.Load().Lease == 0)
 	return
 }
 
 // DropSequenceIfExists do nothing if sequence not exists
-func DropSequenceIfExists(cid int64) (err error) {
-	v, exists := sequenceMap.Load(cid)
+func DropSequenceIfExists(kvdb mondis.KVDB, cid int64) (err error) {
+	v, exists := sequenceMap.Load(sequenceKey{kvdb, cid})
 	if !exists {
 		return
 	}
 
-	sequenceMap.Delete(cid)
+	sequenceMap.Delete(sequenceKey{kvdb, cid})
 
 	err = v.(*sequence.Hash).Close(config.Load().Lease == 0)
 	return
-- 
2.43.0


From 97a5221fbb477f7477b3a5f7d0d7e764cdb56061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:50 +0000
Subject: [PATCH 38/38] fix: DropIndex went on after a failed read and reported
 a decoding error

---
 document/collection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document/collection.go b/document/collection.go
index 5497428..fdcac2d 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -572,6 +572,9 @@ func (c *Collection) DropIndex(iname string) (exists bool, err error) {
 		err = nil
 		return
 	}
+	if err != nil {
+		return
+	}
 
 	_, iid, err := compact.DecodeVarint(iidv)
 	if err != nil {
-- 
2.43.0

