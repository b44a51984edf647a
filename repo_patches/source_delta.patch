From 665a3c05eb26ff6fd5492f220f879ff4a3ff3970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 01/39] fix: reject a negative length in compact.DecodeBytes
 instead of panicking

---
 kv/compact/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kv/compact/bytes.go b/kv/compact/bytes.go
index 977e048..b11d57c 100644
--- a/kv/compact/bytes.go
+++ b/kv/compact/bytes.go
@@ -20,7 +20,7 @@ func DecodeBytes(b []byte) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, err
 	}
-	if int64(len(b)) < n {
+	if n < 0 || int64(len(b)) < n {
 		return nil, nil, fmt.Errorf("insufficient bytes to decode value, expected length: %v", n)
 	}
 	return b[n:], b[:n], nil
-- 
2.43.0


From 3fedd76b52af032031afce5a031a3f02a6df79b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 02/39] fix: setting a new hash field to an empty value creates
 the field

---
 structure/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure/hash.go b/structure/hash.go
index c59ea0d..16aea95 100644
--- a/structure/hash.go
+++ b/structure/hash.go
@@ -289,7 +289,7 @@ func (t *TxStructure) updateHash(key, field []byte, fn func(oldValue []byte) ([]
 	}
 
 	// Check if new value is equal to old value.
-	if bytes.Equal(oldValue, newValue) {
+	if !isNew && bytes.Equal(oldValue, newValue) {
 		return nil
 	}
 
-- 
2.43.0


From cf2138c243b78a338ba06e06672bf6c5dde8b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 03/39] fix: HClear reports a failure to read the hash's record

---
 structure/hash.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structure/hash.go b/structure/hash.go
index 16aea95..06a63f0 100644
--- a/structure/hash.go
+++ b/structure/hash.go
@@ -200,6 +200,9 @@ func (t *TxStructure) HClear(key []byte) (err error) {
 		err = nil
 		return
 	}
+	if err != nil {
+		return
+	}
 
 	itErr := t.iterateHash(key, func(field []byte, value []byte) bool {
 		k := t.encodeHashDataKey(key, field)
-- 
2.43.0


From fe97be6ac5ddac079dde93e510c75c0f2a60ab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 04/39] fix: NextN advances past the ids it takes from a
 renewed lease

---
 document/meta/sequence/sequence.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index 1598f7b..bf2dd97 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -193,6 +193,7 @@ func (seq *Sequence) NextN(n int64) (ranges []IDRange, err error) {
 
 	r := IDRange{Start: seq.next, End: seq.next + n - remain}
 	ranges = append(ranges, r)
+	seq.next = r.End
 
 	return
 }
-- 
2.43.0


From 9213ed7ee42d83a11899f1aa0d488bb30fa49ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 05/39] fix: clearing a hash sequence removes its own field,
 not the whole hash

---
 document/meta/sequence/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index 593113b..a2bb255 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -54,7 +54,7 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
-		err = txStruct.HClear(key)
+		err = txStruct.HDel(key, field)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From ffe14085673c555321260a38da5a35ac13fc3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 06/39] fix: ids put back before a sequence is cleared are not
 reused afterwards

---
 document/meta/sequence/sequence.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index bf2dd97..cde3e54 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -107,6 +107,9 @@ func (seq *Sequence) Clear() (err error) {
 	}
 
 	err = seq.clearFunc()
+	if err == nil {
+		seq.putbacks = nil
+	}
 	return
 }
 
-- 
2.43.0


From ee53f882e563ccbbb94827c498420c118f3e83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 07/39] fix: releasing a sequence leaves a lease that somebody
 else extended alone

---
 document/meta/sequence/hash.go   | 19 ++++++++++++++-----
 document/meta/sequence/string.go | 19 ++++++++++++++-----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index a2bb255..f9a1dd8 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -73,16 +74,24 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
-		err = txStruct.HSetInt64(key, field, s.next)
-		if err != nil {
+		stored, err := txStruct.HGetInt64(key, field)
+		if err != nil && err != kv.ErrKeyNotFound {
 			return
 		}
+		if err == nil && stored == s.leased {
+			err = txStruct.HSetInt64(key, field, s.next)
+			if err != nil {
+				return
+			}
 
-		err = txn.Commit()
-		if err != nil {
-			return
+			err = txn.Commit()
+			if err != nil {
+				return
+			}
 		}
 
+		// when somebody leased further, our remaining ids are given up
+		err = nil
 		s.leased = s.next
 		return
 	}
diff --git a/document/meta/sequence/string.go b/document/meta/sequence/string.go
index 3b9aaa5..c602bef 100644
--- a/document/meta/sequence/string.go
+++ b/document/meta/sequence/string.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -69,16 +70,24 @@ func NewString(kvdb mondis.KVDB, keyword []byte, bandwidth int64) (s *String, er
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
-		err = txStruct.SetInt64(keyword, s.next)
-		if err != nil {
+		stored, err := txStruct.GetInt64(keyword)
+		if err != nil && err != kv.ErrKeyNotFound {
 			return
 		}
+		if err == nil && stored == s.leased {
+			err = txStruct.SetInt64(keyword, s.next)
+			if err != nil {
+				return
+			}
 
-		err = txn.Commit()
-		if err != nil {
-			return
+			err = txn.Commit()
+			if err != nil {
+				return
+			}
 		}
 
+		// when somebody leased further, our remaining ids are given up
+		err = nil
 		s.leased = s.next
 		return
 	}
-- 
2.43.0


From a795d4b1c812accb700bf66d0ee2840f1b6ae3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 08/39] fix: releasing a document sequence is committed, and
 leaves a lease extended by somebody else alone

---
 document/sequence.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/document/sequence.go b/document/sequence.go
index 018acf1..b17198e 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -83,11 +83,26 @@ func (s *Sequence) ReleaseRemaining() (err error) {
 	txn := s.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
-	buf := numeric.Encode2Binary(s.next, nil)
-	err = txn.Set(s.key, buf, nil)
+	val, _, err := txn.Get(s.key)
 	if err != nil {
 		return
 	}
+	stored, err := numeric.DecodeFromBinary(val)
+	if err != nil {
+		return
+	}
+
+	// when somebody leased further, our remaining integers are given up
+	if stored == s.leased {
+		err = txn.Set(s.key, numeric.Encode2Binary(s.next, nil), nil)
+		if err != nil {
+			return
+		}
+		err = txn.Commit()
+		if err != nil {
+			return
+		}
+	}
 
 	s.leased = s.next
 	return
-- 
2.43.0


From c2a34e8ea9c70baee1ffb8f031d03b129282c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 09/39] fix: a failed renewal leaves a document sequence
 unchanged

---
 document/sequence.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/document/sequence.go b/document/sequence.go
index b17198e..2c682de 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -40,34 +40,33 @@ func (s *Sequence) updateLease() (err error) {
 	txn := s.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
+	var next uint64
 	val, _, err := txn.Get(s.key)
 	switch {
 	case err == kv.ErrKeyNotFound:
-		s.next = 0
 	case err != nil:
 		return
 	default:
-		var num uint64
-		num, err = numeric.DecodeFromBinary(val)
+		next, err = numeric.DecodeFromBinary(val)
 		if err != nil {
 			return
 		}
-		s.next = num
 	}
 
-	lease := s.next + s.bandwidth
+	lease := next + s.bandwidth
 	buf := numeric.Encode2Binary(lease, nil)
 	err = txn.Set(s.key, buf, nil)
 	if err != nil {
 		return
 	}
 
-	oldLease := s.leased
-	s.leased = lease
 	err = txn.Commit()
 	if err != nil {
-		s.leased = oldLease
+		return
 	}
+
+	s.next = next
+	s.leased = lease
 	return
 }
 
-- 
2.43.0


From 1acc5ca3f27d462c39cf23b380769be3c8c3e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 10/39] fix: DeleteAll without a transaction runs in an update
 transaction

---
 document/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 515dacb..7ac21e2 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -298,7 +298,7 @@ func (c *Collection) DeleteAll(txn mondis.ProviderTxn) (n int, err error) {
 		return
 	}
 
-	err = tutil.RunInNewTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
+	err = tutil.RunInNewUpdateTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
 		newN, err := c.deleteAllWithTxn(txn)
 		n += newN
 		return err
-- 
2.43.0


From 1ce922d9aaf12afd242998cf20dbcfd79ce5bc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 11/39] fix: encoding a column-set key leaves the caller's
 fields as they were

---
 document/keys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/document/keys.go b/document/keys.go
index 8b50a30..4af6dcb 100644
--- a/document/keys.go
+++ b/document/keys.go
@@ -85,6 +85,8 @@ func EncodeCollectionColumnsIndexedKey(buf []byte, cid int64, fields []IndexFiel
 		buf = make([]byte, 0, bufLen)
 	}
 
+	// fields belongs to the caller
+	fields = append([]IndexField(nil), fields...)
 	if len(fields) == 1 {
 		fields[0].Desc = false
 	} else {
-- 
2.43.0


From 727e521c7d1a9bbc7e27ea7f8d1c29130411d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 12/39] fix: CreateIndex refuses a taken name, keeps its own
 copy and reports a failed write

---
 document/collection.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/document/collection.go b/document/collection.go
index 7ac21e2..b0298a6 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -439,6 +439,17 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	if err != nil {
 		return
 	}
+
+	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
+	nameTaken, err := txn.Exists(indexName2IDKey)
+	if err != nil {
+		return
+	}
+	if nameTaken {
+		err = fmt.Errorf("there already exists index %s", idef.Name)
+		return
+	}
+
 	iid, err = c.db.nextIndexID()
 	if err != nil {
 		return
@@ -448,8 +459,10 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
-	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
-	txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
+	err = txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
+	if err != nil {
+		return
+	}
 	metaIndexKey := EncodeMetaIndexKey(nil, iid)
 	err = txn.Set(metaIndexKey, idefBytes, nil)
 	if err != nil {
@@ -462,7 +475,7 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	}
 
 	c.mu.Lock()
-	c.indexMap[idef.Name] = idef
+	c.indexMap[idef.Name] = idef.Clone()
 	c.mu.Unlock()
 	return
 }
-- 
2.43.0


From bf5dcd90bddb67bc8beceed8db603d5d65d7ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 13/39] fix: DropIndex reports a failure to look the index up

---
 document/collection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document/collection.go b/document/collection.go
index b0298a6..acf5e40 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -569,6 +569,9 @@ func (c *Collection) DropIndex(iname string) (exists bool, err error) {
 		err = nil
 		return
 	}
+	if err != nil {
+		return
+	}
 
 	_, iid, err := compact.DecodeVarint(iidv)
 	if err != nil {
-- 
2.43.0


From f1ccc333ffe5e2663d4918f762406a9edd6021da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 14/39] fix: inserting into a missing collection or a read-only
 transaction reports it

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 5d56a96..1b50f13 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -55,7 +55,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 	insertFunc := func(t *txn.Txn) (ierr error) {
 		ci := t.StartMetaCache().CollectionInfo(c.dbName, c.collectionName)
 		if ci == nil {
-			err = ErrCollectionNotExists
+			ierr = ErrCollectionNotExists
 			return
 		}
 		if origT != nil {
@@ -76,7 +76,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 		docKey := EncodeCollectionDocumentKey(nil, ci.ID, did)
 
 		ierr = t.Set(docKey, data, nil)
-		if err != nil {
+		if ierr != nil {
 			return
 		}
 
-- 
2.43.0


From c87769cc85aa7f08c2d3c3fec70cc279a841921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 15/39] fix: GetDidRange looks at the collection's own
 documents only

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 1b50f13..cde9249 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -310,7 +310,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 	}
 
 	collectionDocumentPrefix := AppendCollectionDocumentPrefix(nil, ci.ID)
-	scanErr := t.Scan(mondis.ProviderScanOption{Offset: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr := t.Scan(mondis.ProviderScanOption{Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, min, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
@@ -321,7 +321,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 		err = scanErr
 		return
 	}
-	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Offset: collectionDocumentPrefix.PrefixNext()}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Prefix: collectionDocumentPrefix, Offset: collectionDocumentPrefix.PrefixNext()}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, max, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
-- 
2.43.0


From 8a09fb8499ccd2c490627a142d4e6833e13e9275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 16/39] fix: a conflicting schema check releases the schema
 lock

---
 document/schema/handle.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/schema/handle.go b/document/schema/handle.go
index ecab688..2413a93 100644
--- a/document/schema/handle.go
+++ b/document/schema/handle.go
@@ -54,6 +54,7 @@ func (h *Handle) Check(ctx context.Context, startMetaCache *MetaCache, referredC
 
 			for _, collectionIDs := range cache.schemaDiffs[diffIdx] {
 				if _, ok := referredCollections[collectionIDs]; ok {
+					h.mu.RUnlock()
 					return
 				}
 			}
-- 
2.43.0


From c72ebc53fc67f544da7aed03481b440c7e70edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 17/39] fix: CreateSchema accepts indexes and repeated
 collections, and reserves an id for every part

---
 document/ddl/ddl_api.go | 22 +++++++++++++---------
 document/ddl/input.go   | 13 ++++++++++++-
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index 964ae50..a0fd08e 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -16,7 +16,10 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 		return
 	}
 
-	n := 2 + len(input.Collections) + len(input.Indices)
+	n := 2 + len(input.Collections)
+	for _, indices := range input.Indices {
+		n += len(indices)
+	}
 	err = util.RunInNewUpdateTxn(d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 		m := meta.NewMeta(txn)
 		queueLength, err := m.DDLJobQueueLen()
@@ -50,15 +53,16 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 			Collections: make(map[string]*model.CollectionInfo),
 		}
 		for _, cn := range input.Collections {
-			collectInfo := dbInfo.Collections[cn]
-			if collectInfo == nil {
-				collectInfo = &model.CollectionInfo{
-					ID:   nextID + 1,
-					Name: cn,
-				}
-				nextID++
-				dbInfo.Collections[cn] = collectInfo
+			if dbInfo.Collections[cn] != nil {
+				continue
+			}
+			collectInfo := &model.CollectionInfo{
+				ID:      nextID + 1,
+				Name:    cn,
+				Indices: make(map[string]*model.IndexInfo),
 			}
+			nextID++
+			dbInfo.Collections[cn] = collectInfo
 			dbInfo.CollectionOrder = append(dbInfo.CollectionOrder, cn)
 			if len(input.Indices[cn]) > 0 {
 				for _, indexInfo := range input.Indices[cn] {
diff --git a/document/ddl/input.go b/document/ddl/input.go
index a87b104..f47e86f 100644
--- a/document/ddl/input.go
+++ b/document/ddl/input.go
@@ -25,7 +25,18 @@ func (in *CreateSchemaInput) Validate() (err error) {
 			return
 		}
 	}
-	for _, indexInfos := range in.Indices {
+	for cn, indexInfos := range in.Indices {
+		found := false
+		for _, name := range in.Collections {
+			if name == cn {
+				found = true
+				break
+			}
+		}
+		if !found {
+			err = fmt.Errorf("indices for unknown collection %s", cn)
+			return
+		}
 		for _, indexInfo := range indexInfos {
 			err = indexInfo.Validate()
 			if err != nil {
-- 
2.43.0


From c73cf5b997788f63af3047acd72fa8f40b80a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 18/39] fix: a stored job's error can be read back

---
 document/model/model.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/document/model/model.go b/document/model/model.go
index 46389ed..77f14ea 100644
--- a/document/model/model.go
+++ b/document/model/model.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"encoding/json"
+	"errors"
 
 	"github.com/zhiqiangxu/util/osc"
 )
@@ -41,10 +42,12 @@ type (
 	}
 	// Job for a DDL operation
 	Job struct {
-		ID          int64
-		Type        ActionType
-		State       JobState
-		Error       error
+		ID    int64
+		Type  ActionType
+		State JobState
+		Error error `json:"-"`
+		// ErrorMsg is what gets stored of Error
+		ErrorMsg    string
 		ErrorCount  int64
 		Arg         interface{} `json:"-"`
 		RawArg      json.RawMessage
@@ -245,6 +248,11 @@ func (job *Job) Encode() (b []byte, err error) {
 		}
 	}
 
+	job.ErrorMsg = ""
+	if job.Error != nil {
+		job.ErrorMsg = job.Error.Error()
+	}
+
 	b, err = json.Marshal(job)
 
 	return
@@ -254,6 +262,12 @@ func (job *Job) Encode() (b []byte, err error) {
 // decode special arg for this job.
 func (job *Job) Decode(b []byte) (err error) {
 	err = json.Unmarshal(b, job)
+	if err != nil {
+		return
+	}
+	if job.ErrorMsg != "" {
+		job.Error = errors.New(job.ErrorMsg)
+	}
 	return
 }
 
-- 
2.43.0


From 53e3acf1e79c3f2bd1deb978bfd97511bae437a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 19/39] fix: what a failing DDL job wrote is not committed, and
 a panicking job ends

---
 document/ddl/ddl_worker.go | 69 ++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index f44c527..f0ff321 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -62,15 +62,15 @@ const (
 // handleJobQueue handles jobs in Job queue.
 func (w *worker) handleJobQueue() (err error) {
 
-	var (
-		nojob               bool
-		schemaVersion       int64
-		failNow             bool
-		runJobErr           error
-		afterCommitFunc4Job func()
-		job                 *model.Job
-	)
 	for {
+		var (
+			nojob               bool
+			schemaVersion       int64
+			failNow             bool
+			runJobErr           error
+			afterCommitFunc4Job func()
+			job                 *model.Job
+		)
 		err = util.RunInNewUpdateTxnWithCallback(w.d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 			m := meta.NewMeta(txn)
 
@@ -93,37 +93,35 @@ func (w *worker) handleJobQueue() (err error) {
 
 			util2.RunWithRecovery(func() {
 				schemaVersion, afterCommitFunc4Job, failNow, runJobErr = w.runJob(m, job)
-			}, func(interface{}) {
+			}, func(r interface{}) {
 				job.State = model.JobStateCancelling
+				runJobErr = fmt.Errorf("runJob panic: %v", r)
 			})
 
-			if runJobErr != nil {
-				job.ErrorCount++
-				job.Error = runJobErr
-				logger.Instance().Error("runJob", zap.Any("job", job), zap.Error(runJobErr))
-				if failNow || job.ErrorCount >= jobMaxErrorCount {
+			if runJobErr == nil {
+				if job.IsCancelled() {
 					err = w.finishJob(m, job)
 					return
 				}
+				runJobErr = w.updateJob(m, job)
 			}
 
-			if job.IsCancelled() {
-				err = w.finishJob(m, job)
-				return
-			}
-
-			err = w.updateJob(m, job)
+			// when the job failed, nothing it wrote may be committed
+			err = runJobErr
 			return
 		}, func() {
 			if afterCommitFunc4Job != nil {
 				afterCommitFunc4Job()
 			}
 		})
-		afterCommitFunc4Job = nil
 
 		if nojob {
 			return
 		}
+		if runJobErr != nil {
+			logger.Instance().Error("runJob", zap.Any("job", job), zap.Error(runJobErr))
+			err = w.recordJobError(job, failNow, runJobErr)
+		}
 		if w.d.options.Callback.OnChanged != nil {
 			changeErr := runJobErr
 			if changeErr == nil {
@@ -143,6 +141,35 @@ func (w *worker) handleJobQueue() (err error) {
 	}
 }
 
+// recordJobError stores a failed try of the first job, in a transaction of its own
+func (w *worker) recordJobError(failed *model.Job, failNow bool, runJobErr error) (err error) {
+	err = util.RunInNewUpdateTxn(w.d.kvdb, func(txn mondis.ProviderTxn) (err error) {
+		m := meta.NewMeta(txn)
+
+		job, err := w.getFirstJob(m)
+		if err != nil {
+			return
+		}
+		if job == nil || job.ID != failed.ID {
+			return
+		}
+
+		if failed.IsCancelled() || failed.IsCancelling() {
+			job.State = failed.State
+		}
+		job.ErrorCount++
+		job.Error = runJobErr
+		if failNow || job.ErrorCount >= jobMaxErrorCount || job.IsCancelled() {
+			err = w.finishJob(m, job)
+			return
+		}
+
+		err = w.updateJob(m, job)
+		return
+	})
+	return
+}
+
 func (w *worker) runJob(m *meta.Meta, job *model.Job) (schemaVersion int64, afterCommitFunc4Job func(), failNow bool, err error) {
 	if job.IsFinished() {
 		return
-- 
2.43.0


From 5025fffcb0dc76ed93de5f84af6f0f64e6b7dd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 20/39] fix: a schema diff describes the schema the job
 created, not the requested one

---
 document/ddl/ddl_worker.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index f0ff321..a7ec83e 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -398,8 +398,7 @@ func updateSchemaVersion(m *meta.Meta, job *model.Job) (schemaVersion int64, err
 		Version:       schemaVersion,
 		Type:          job.Type,
 		CollectionIDs: job2CollectionIDs(job),
-		Arg:           job.Arg,
-		RawArg:        job.RawArg,
+		Arg:           job.Arg, // as the job left it, not as it was requested
 	}
 
 	err = m.SetSchemaDiff(diff)
-- 
2.43.0


From 97ceb1996ddfb95f1b71df5089d476822d7be259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 21/39] fix: applying no schema diffs changes nothing

---
 document/schema/metacache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/document/schema/metacache.go b/document/schema/metacache.go
index 9611778..310e703 100644
--- a/document/schema/metacache.go
+++ b/document/schema/metacache.go
@@ -134,6 +134,10 @@ func (c *MetaCache) ApplyDiffs(diffs []*model.SchemaDiff) (err error) {
 }
 
 func (c *MetaCache) validateDiffs(diffs []*model.SchemaDiff) (err error) {
+	if len(diffs) == 0 {
+		return
+	}
+
 	// diffs should be consecutive
 	for i := 0; i < len(diffs)-1; i++ {
 		if diffs[i].Version+1 != diffs[i+1].Version {
-- 
2.43.0


From 1c0a6d537435ad64c447b463844e2c1c753ff13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 22/39] fix: a failed start of DDL can be repeated

---
 document/ddl/ddl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/document/ddl/ddl.go b/document/ddl/ddl.go
index 99faf58..96fea96 100644
--- a/document/ddl/ddl.go
+++ b/document/ddl/ddl.go
@@ -58,6 +58,7 @@ func (d *DDL) start() {
 
 // Init DDL
 func (d *DDL) Init() (err error) {
+	var created []int64
 	err = util.RunInNewUpdateTxn(d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 		m := meta.NewMeta(txn)
 		dbs, err := m.ListDatabases()
@@ -71,12 +72,17 @@ func (d *DDL) Init() (err error) {
 				if err != nil {
 					return
 				}
+				created = append(created, ci.ID)
 			}
 		}
 		return
 	})
 
 	if err != nil {
+		// so that Init can be called again
+		for _, cid := range created {
+			dml.DropSequenceIfExists(cid)
+		}
 		return
 	}
 	d.start()
-- 
2.43.0


From afa3ff16fcf40f218e84a8b07ff35024323e994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 23/39] fix: asking for a job behind the last one finds none
 instead of failing

---
 document/meta/meta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/meta/meta.go b/document/meta/meta.go
index e172d45..4545a8e 100644
--- a/document/meta/meta.go
+++ b/document/meta/meta.go
@@ -487,7 +487,7 @@ func (m *Meta) getDDLJob(key []byte, index int64) (job *model.Job, err error) {
 		err = nil
 		return
 	}
-	if err != nil {
+	if err != nil || value == nil {
 		return
 	}
 
-- 
2.43.0


From dbacdcbc48103b3c9eb1bf8050ae95a0d9a5dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:57 +0000
Subject: [PATCH 24/39] fix: a value set with a tag and no time to live does
 not expire at once

---
 provider/badger_txn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/provider/badger_txn.go b/provider/badger_txn.go
index e307d58..0dbfb9c 100644
--- a/provider/badger_txn.go
+++ b/provider/badger_txn.go
@@ -21,7 +21,10 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 		return (*badger.Txn)(txn).Set(k, v)
 	}
 
-	entry := badger.NewEntry(k, v).WithTTL(meta.TTL).WithMeta(meta.Tag)
+	entry := badger.NewEntry(k, v).WithMeta(meta.Tag)
+	if meta.TTL != 0 {
+		entry = entry.WithTTL(meta.TTL)
+	}
 	return (*badger.Txn)(txn).SetEntry(entry)
 }
 
-- 
2.43.0


From 723a8fe73223a26be6ec0810c63e0dc9b6bda4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:28 +0000
Subject: [PATCH 25/39] fix: a reversed scan with a prefix and no offset visits
 the keys of the prefix

---
 provider/badger.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/provider/badger.go b/provider/badger.go
index 58863e2..bf7dda7 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -104,21 +104,30 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	iterOpts := badger.DefaultIteratorOptions
 	iterOpts.Reverse = option.Reverse
 
-	if len(option.Prefix) > 0 {
+	// when seeking to a prefix in reverse, badger starts at the prefix itself,
+	// which sorts before all other keys that carry it
+	fromEnd := option.Reverse && len(option.Prefix) > 0 && len(option.Offset) == 0
+	if len(option.Prefix) > 0 && !fromEnd {
 		iterOpts.Prefix = option.Prefix
 	}
 
 	iter := txn.NewIterator(iterOpts)
 	defer iter.Close()
 
-	if option.Offset != nil {
+	if fromEnd {
+		iter.Seek(prefixEnd(option.Prefix))
+		if iter.Valid() && !iter.ValidForPrefix(option.Prefix) {
+			// the key right behind the prefix range
+			iter.Next()
+		}
+	} else if option.Offset != nil {
 		iter.Seek(option.Offset)
 	} else {
 		iter.Rewind()
 	}
 
 	var goon bool
-	for ; iter.Valid(); iter.Next() {
+	for ; iter.ValidForPrefix(option.Prefix); iter.Next() {
 		item := iter.Item()
 
 		err = item.Value(func(val []byte) error {
@@ -131,3 +140,15 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	}
 	return
 }
+
+// prefixEnd returns the smallest key greater than all keys that carry prefix, nil if there is none
+func prefixEnd(prefix []byte) []byte {
+	for i := len(prefix) - 1; i >= 0; i-- {
+		if prefix[i] != 0xff {
+			end := append([]byte(nil), prefix[:i+1]...)
+			end[i]++
+			return end
+		}
+	}
+	return nil
+}
-- 
2.43.0


From a0d7d6104e082c81b4daa7ce093ba892a8832a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:21 +0000
Subject: [PATCH 26/39] fix: a discarded LevelDB write batch forgets its
 operations

---
 provider/leveldb_wb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/leveldb_wb.go b/provider/leveldb_wb.go
index 33fa61c..09ed4b7 100644
--- a/provider/leveldb_wb.go
+++ b/provider/leveldb_wb.go
@@ -24,5 +24,5 @@ func (wb *leveldbWB) Commit() error {
 }
 
 func (wb *leveldbWB) Discard() {
-
+	wb.batch.Reset()
 }
-- 
2.43.0


From 5ca451ef16630304e0bb2ab18a355b4a396068ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 27/39] fix: a LevelDB scan reports a failure and releases its
 iterator

---
 provider/leveldb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/provider/leveldb.go b/provider/leveldb.go
index 4edd664..b196f22 100644
--- a/provider/leveldb.go
+++ b/provider/leveldb.go
@@ -97,6 +97,10 @@ func (l *LevelDB) Scan(option mondis.ProviderScanOption, fn func(key []byte, val
 		slice = util.BytesPrefix(option.Prefix)
 	}
 	iter := l.db.NewIterator(slice, nil)
+	defer func() {
+		iter.Release()
+		err = iter.Error()
+	}()
 	if option.Offset != nil {
 		if !iter.Seek(option.Offset) {
 			return
-- 
2.43.0


From d015c6bd85d77dd2e6d506189c71895b39ef00f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 28/39] fix: a length that overflows the input position is
 refused when decoding a message

---
 pb/mondis.pb.go | 108 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 108 insertions(+)

diff --git a/pb/mondis.pb.go b/pb/mondis.pb.go
index e7efd31..f6b152c 100644
--- a/pb/mondis.pb.go
+++ b/pb/mondis.pb.go
@@ -1766,6 +1766,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1797,6 +1800,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1828,6 +1834,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1847,6 +1856,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1932,6 +1944,9 @@ func (m *SetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1946,6 +1961,9 @@ func (m *SetResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2011,6 +2029,9 @@ func (m *GetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2028,6 +2049,9 @@ func (m *GetRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2113,6 +2137,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2141,6 +2168,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2172,6 +2202,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2191,6 +2224,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2256,6 +2292,9 @@ func (m *ExistsRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2273,6 +2312,9 @@ func (m *ExistsRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2358,6 +2400,9 @@ func (m *ExistsResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2392,6 +2437,9 @@ func (m *ExistsResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2457,6 +2505,9 @@ func (m *DeleteRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2474,6 +2525,9 @@ func (m *DeleteRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2559,6 +2613,9 @@ func (m *DeleteResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2573,6 +2630,9 @@ func (m *DeleteResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2662,6 +2722,9 @@ func (m *VMetaReq) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2751,6 +2814,9 @@ func (m *VMetaResp) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2836,6 +2902,9 @@ func (m *CommitResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2850,6 +2919,9 @@ func (m *CommitResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2915,6 +2987,9 @@ func (m *ScanRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2953,6 +3028,9 @@ func (m *ScanRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3038,6 +3116,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3069,6 +3150,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3086,6 +3170,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3151,6 +3238,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3182,6 +3272,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3213,6 +3306,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3232,6 +3328,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3317,6 +3416,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3345,6 +3447,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3362,6 +3467,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
-- 
2.43.0


From 6ebf0e12cdecce8d1360109c3ba716a88f48fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 29/39] fix: skipping deeply nested unknown groups does not
 exhaust the stack

---
 pb/mondis.pb.go | 52 ++++++++++++++++---------------------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/pb/mondis.pb.go b/pb/mondis.pb.go
index f6b152c..1cf83f2 100644
--- a/pb/mondis.pb.go
+++ b/pb/mondis.pb.go
@@ -3486,6 +3486,7 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 func skipMondis(dAtA []byte) (n int, err error) {
 	l := len(dAtA)
 	iNdEx := 0
+	depth := 0
 	for iNdEx < l {
 		var wire uint64
 		for shift := uint(0); ; shift += 7 {
@@ -3517,10 +3518,8 @@ func skipMondis(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			return iNdEx, nil
 		case 1:
 			iNdEx += 8
-			return iNdEx, nil
 		case 2:
 			var length int
 			for shift := uint(0); ; shift += 7 {
@@ -3537,55 +3536,38 @@ func skipMondis(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthMondis
 			}
-			return iNdEx, nil
+			iNdEx += length
 		case 3:
-			for {
-				var innerWire uint64
-				var start int = iNdEx
-				for shift := uint(0); ; shift += 7 {
-					if shift >= 64 {
-						return 0, ErrIntOverflowMondis
-					}
-					if iNdEx >= l {
-						return 0, io.ErrUnexpectedEOF
-					}
-					b := dAtA[iNdEx]
-					iNdEx++
-					innerWire |= (uint64(b) & 0x7F) << shift
-					if b < 0x80 {
-						break
-					}
-				}
-				innerWireType := int(innerWire & 0x7)
-				if innerWireType == 4 {
-					break
-				}
-				next, err := skipMondis(dAtA[start:])
-				if err != nil {
-					return 0, err
-				}
-				iNdEx = start + next
-			}
-			return iNdEx, nil
+			depth++
 		case 4:
-			return iNdEx, nil
+			if depth == 0 {
+				return 0, ErrUnexpectedEndOfGroupMondis
+			}
+			depth--
 		case 5:
 			iNdEx += 4
-			return iNdEx, nil
 		default:
 			return 0, fmt.Errorf("proto: illegal wireType %d", wireType)
 		}
+		if iNdEx < 0 {
+			return 0, ErrInvalidLengthMondis
+		}
+		if depth == 0 {
+			return iNdEx, nil
+		}
 	}
-	panic("unreachable")
+	return 0, io.ErrUnexpectedEOF
 }
 
 var (
 	ErrInvalidLengthMondis = fmt.Errorf("proto: negative length found during unmarshaling")
 	ErrIntOverflowMondis   = fmt.Errorf("proto: integer overflow")
+
+	// ErrUnexpectedEndOfGroupMondis when a group ends that did not begin
+	ErrUnexpectedEndOfGroupMondis = fmt.Errorf("proto: unexpected end of group")
 )
 
 func init() { proto.RegisterFile("mondis.proto", fileDescriptor_mondis_b556768874fb6b4e) }
-- 
2.43.0


From 4001be1e80d02694caf99937943ac0386054adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 30/39] fix: a scan request without options is answered instead
 of panicking

---
 server/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/common.go b/server/common.go
index 6ab956a..7e15fd3 100644
--- a/server/common.go
+++ b/server/common.go
@@ -283,8 +283,8 @@ func copyBytes(in []byte) (out []byte) {
 }
 
 func handleScan(kvop mondis.ProviderKVOP, req *pb.ScanRequest, resp *pb.ScanResponse) {
-	pso := req.ProviderScanOption
-	option := mondis.ProviderScanOption{Reverse: pso.Reverse, Prefix: pso.Prefix, Offset: pso.Offset}
+	pso := req.GetProviderScanOption()
+	option := mondis.ProviderScanOption{Reverse: pso.GetReverse(), Prefix: pso.GetPrefix(), Offset: pso.GetOffset()}
 	limit := int(req.Limit)
 	if limit == 0 {
 		goto DONE
-- 
2.43.0


From 03f003a45977a7c41704a47ac0d23b901b9bb298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 31/39] fix: a scan request with a negative limit returns
 nothing

---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index 7e15fd3..a97adea 100644
--- a/server/common.go
+++ b/server/common.go
@@ -286,7 +286,7 @@ func handleScan(kvop mondis.ProviderKVOP, req *pb.ScanRequest, resp *pb.ScanResp
 	pso := req.GetProviderScanOption()
 	option := mondis.ProviderScanOption{Reverse: pso.GetReverse(), Prefix: pso.GetPrefix(), Offset: pso.GetOffset()}
 	limit := int(req.Limit)
-	if limit == 0 {
+	if limit <= 0 {
 		goto DONE
 	}
 	if limit > mondis.MaxEntry {
-- 
2.43.0


From 8a6d658d16e15deaa9a5443a0806240136ff22f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 32/39] fix: a single remote set or delete that is too big is
 reported as too big

---
 server/common.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/server/common.go b/server/common.go
index a97adea..d48c5fd 100644
--- a/server/common.go
+++ b/server/common.go
@@ -202,8 +202,13 @@ func handleSet(kvdb mondis.KVDB, req *pb.SetRequest, resp *pb.SetResponse) {
 	err := kvdb.Set(req.Key, req.Value, meta)
 	if err != nil {
 
-		resp.Code = CodeInternalError
-		resp.Msg = err.Error()
+		if err == kv.ErrTxnTooBig {
+			resp.Code = CodeTxnTooBig
+			resp.Msg = err.Error()
+		} else {
+			resp.Code = CodeInternalError
+			resp.Msg = err.Error()
+		}
 
 		return
 	}
@@ -250,8 +255,13 @@ func handleGet(kvop mondis.ProviderKVOP, req *pb.GetRequest, resp *pb.GetRespons
 func handleDelete(kvdb mondis.KVDB, req *pb.DeleteRequest, resp *pb.DeleteResponse) {
 	err := kvdb.Delete(req.Key)
 	if err != nil {
-		resp.Code = CodeInternalError
-		resp.Msg = err.Error()
+		if err == kv.ErrTxnTooBig {
+			resp.Code = CodeTxnTooBig
+			resp.Msg = err.Error()
+		} else {
+			resp.Code = CodeInternalError
+			resp.Msg = err.Error()
+		}
 		return
 	}
 
-- 
2.43.0


From 8b4c3c612789181d1c8a86648afe6d6c0d1b0324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 33/39] fix: a remote delete reports a transaction that is too
 big as such

---
 client/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 2b9545b..c004df6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -193,7 +193,13 @@ func parseDeleteRespFromFrame(respFrame *qrpc.Frame) (err error) {
 	}
 
 	if deleteResp.Code != 0 {
-		err = newPBError(deleteResp.Code, deleteResp.Msg)
+
+		if deleteResp.Code == server.CodeTxnTooBig {
+			err = kv.ErrTxnTooBig
+		} else {
+			err = newPBError(deleteResp.Code, deleteResp.Msg)
+		}
+
 		return
 	}
 
-- 
2.43.0


From 6a16f2e7cc6da503160f2ee27cc5ec18358ce39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 34/39] fix: a set that is not the first operation of a remote
 transaction is executed

---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index d48c5fd..5db932c 100644
--- a/server/common.go
+++ b/server/common.go
@@ -43,7 +43,7 @@ func handleTxnContinuedFrame(
 		switch nextFrame.Cmd {
 		case SetCmd:
 			close = false
-			err = setResp.Unmarshal(nextFrame.Payload)
+			err = setReq.Unmarshal(nextFrame.Payload)
 			if err != nil {
 				close = true
 				setResp.Code = CodeInvalidRequest
-- 
2.43.0


From e6639885421e842adfa6ffa17fe5cf5a30e50c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 35/39] fix: an operation of a remote transaction does not
 depend on earlier requests and answers

---
 server/common.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/server/common.go b/server/common.go
index 5db932c..5ff4ed9 100644
--- a/server/common.go
+++ b/server/common.go
@@ -16,21 +16,24 @@ func handleTxnContinuedFrame(
 	frame *qrpc.RequestFrame,
 	txn mondis.ProviderTxn) {
 	var (
-		getReq     pb.GetRequest
-		getResp    pb.GetResponse
-		deleteReq  pb.DeleteRequest
-		deleteResp pb.DeleteResponse
-		setReq     pb.SetRequest
-		setResp    pb.SetResponse
-		existsReq  pb.ExistsRequest
-		existsResp pb.ExistsResponse
-		scanReq    pb.ScanRequest
-		scanResp   pb.ScanResponse
-		commitResp pb.CommitResponse
-		err        error
-		close      bool
+		err   error
+		close bool
 	)
 	for {
+		// decoding merges into a message, so each frame gets fresh ones
+		var (
+			getReq     pb.GetRequest
+			getResp    pb.GetResponse
+			deleteReq  pb.DeleteRequest
+			deleteResp pb.DeleteResponse
+			setReq     pb.SetRequest
+			setResp    pb.SetResponse
+			existsReq  pb.ExistsRequest
+			existsResp pb.ExistsResponse
+			scanReq    pb.ScanRequest
+			scanResp   pb.ScanResponse
+			commitResp pb.CommitResponse
+		)
 		nextFrame := <-frame.FrameCh()
 		if nextFrame == nil {
 			txn.Discard()
-- 
2.43.0


From b4c92f9b484986c0bd9f525041fe37f1a2c43bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 36/39] fix: an operation of a remote transaction whose
 connection is lost returns an error instead of panicking

---
 client/client_txn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client_txn.go b/client/client_txn.go
index 8dce8a9..7bb105e 100644
--- a/client/client_txn.go
+++ b/client/client_txn.go
@@ -52,6 +52,9 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 func (txn *Txn) getRespFrame() (respFrame *qrpc.Frame, err error) {
 	if txn.firstFrame != nil {
 		respFrame = <-txn.firstFrame.FrameCh()
+		if respFrame == nil {
+			err = qrpc.ErrConnAlreadyClosed
+		}
 		return
 	}
 
-- 
2.43.0


From a887f6ad291494da53e7f9c366d60ea3ab584ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 37/39] fix: nothing is written on a remote transaction that
 has ended

---
 client/client_txn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/client_txn.go b/client/client_txn.go
index 7bb105e..100f46d 100644
--- a/client/client_txn.go
+++ b/client/client_txn.go
@@ -16,6 +16,7 @@ type Txn struct {
 	sw         qrpc.StreamWriter
 	resp       qrpc.Response
 	firstFrame *qrpc.Frame
+	ended      bool
 }
 
 var _ mondis.Txn = (*Txn)(nil)
@@ -67,6 +68,11 @@ func (txn *Txn) getRespFrame() (respFrame *qrpc.Frame, err error) {
 
 func (txn *Txn) request(cmd qrpc.Cmd, bytes []byte, end bool) (noop bool, err error) {
 	if txn.sw != nil {
+		if txn.ended {
+			err = qrpc.ErrWriteAfterCloseSelf
+			return
+		}
+		txn.ended = end
 		txn.sw.StartWrite(cmd)
 		txn.sw.WriteBytes(bytes)
 		err = txn.sw.EndWrite(end)
-- 
2.43.0


From ba3809d3f9b9fc598b6dec8bd414f427ab5d048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:50 +0000
Subject: [PATCH 38/39] fix: reading all documents keeps binary fields of each
 document

bson.Unmarshal lets []byte fields refer to the buffer it decodes, and the buffer of a
scanned value is reused by the store for a later one.
---
 document/dml/collection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index cde9249..6264129 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -362,7 +362,8 @@ func (c *Collection) GetAll(slicePtr interface{}, t *txn.Txn) (err error) {
 	scanErr := t.Scan(mondis.ProviderScanOption{Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		item := reflect.New(et)
 		ptr := item.Interface()
-		err = bson.Unmarshal(value, ptr)
+		// the document may keep parts of value, which is only valid until the next one is visited
+		err = bson.Unmarshal(append([]byte(nil), value...), ptr)
 		if err != nil {
 			return false
 		}
-- 
2.43.0


From 252e1df336afa2e9dfde7c094526f9cd55c3bf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:05 +0000
Subject: [PATCH 39/39] fix: an index dropped while it is created stays out of
 the list

CreateIndex and DropIndex committed first and updated indexMap afterwards, so a
drop between the two left a dropped index in the list. Index changes of one
collection are now made one after the other.
---
 document/collection.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/document/collection.go b/document/collection.go
index acf5e40..657e516 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -24,6 +24,8 @@ type Collection struct {
 	documentSequence *Sequence
 	mu               sync.RWMutex
 	indexMap         map[string]IndexDefinition
+	// indexMu orders index changes, so that indexMap follows the store
+	indexMu sync.Mutex
 }
 
 func newCollection(db *DB, name string) (c *Collection, err error) {
@@ -423,6 +425,9 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	defer c.db.closer.Done()
 	// prologue end
 
+	c.indexMu.Lock()
+	defer c.indexMu.Unlock()
+
 	txn := c.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
@@ -560,6 +565,9 @@ func (c *Collection) DropIndex(iname string) (exists bool, err error) {
 	defer c.db.closer.Done()
 	// prologue end
 
+	c.indexMu.Lock()
+	defer c.indexMu.Unlock()
+
 	txn := c.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
-- 
2.43.0

