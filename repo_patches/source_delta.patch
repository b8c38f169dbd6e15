From a2065e943b5b3f51a6983961c8358ac46d1c23c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 01/39] fix: decode Set frames inside a transaction into the
 request message

handleTxnContinuedFrame decoded the payload into setResp, so every Set that
was not the first operation of a transaction failed or wrote the wrong key.
---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index 6ab956a..4a2712e 100644
--- a/server/common.go
+++ b/server/common.go
@@ -43,7 +43,7 @@ func handleTxnContinuedFrame(
 		switch nextFrame.Cmd {
 		case SetCmd:
 			close = false
-			err = setResp.Unmarshal(nextFrame.Payload)
+			err = setReq.Unmarshal(nextFrame.Payload)
 			if err != nil {
 				close = true
 				setResp.Code = CodeInvalidRequest
-- 
2.43.0


From 9a1114a68db6051fce3397782391e8cd50d4de55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 02/39] fix: start every frame of a transaction with fresh
 messages

The request and response messages of a transaction were reused between
frames. Unmarshal merges, so fields of an earlier request (offset, prefix,
value, meta) leaked into a later one, and the entries of an earlier scan
were returned again.
---
 server/common.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/common.go b/server/common.go
index 4a2712e..563055a 100644
--- a/server/common.go
+++ b/server/common.go
@@ -40,6 +40,17 @@ func handleTxnContinuedFrame(
 			}
 			return
 		}
+		// Unmarshal merges into the message, so start afresh for every frame
+		getReq.Reset()
+		getResp.Reset()
+		deleteReq.Reset()
+		deleteResp.Reset()
+		setReq.Reset()
+		setResp.Reset()
+		existsReq.Reset()
+		existsResp.Reset()
+		scanReq.Reset()
+		scanResp.Reset()
 		switch nextFrame.Cmd {
 		case SetCmd:
 			close = false
-- 
2.43.0


From 8d7eb2bc4a43825c242043a11e87729f8b297fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 03/39] fix: report a lost transaction instead of dereferencing
 a nil frame

When the connection is lost during a transaction FrameCh is closed and
yields nil; the client panicked while decoding the response.
---
 client/client_txn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/client_txn.go b/client/client_txn.go
index 8dce8a9..bd73fbe 100644
--- a/client/client_txn.go
+++ b/client/client_txn.go
@@ -49,9 +49,15 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 	return
 }
 
+// ErrTxnClosed when the stream of the transaction is closed before the response arrives
+var ErrTxnClosed = errors.New("txn closed")
+
 func (txn *Txn) getRespFrame() (respFrame *qrpc.Frame, err error) {
 	if txn.firstFrame != nil {
 		respFrame = <-txn.firstFrame.FrameCh()
+		if respFrame == nil {
+			err = ErrTxnClosed
+		}
 		return
 	}
 
-- 
2.43.0


From 05fd4603e268bdc818d562843e5728e55718349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 04/39] fix: scan of a prefix whose start is outside of the
 prefix

A reverse scan with a prefix and without an offset started before the
prefix and found nothing, and so did any scan whose offset lies before
(forward) or behind (reverse) all the keys of the prefix.
---
 provider/badger.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/provider/badger.go b/provider/badger.go
index 58863e2..b0ea4c0 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -1,7 +1,10 @@
 package provider
 
 import (
+	"bytes"
+
 	"github.com/dgraph-io/badger"
+	"github.com/syndtr/goleveldb/leveldb/util"
 	"github.com/zhiqiangxu/mondis"
 )
 
@@ -104,15 +107,26 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	iterOpts := badger.DefaultIteratorOptions
 	iterOpts.Reverse = option.Reverse
 
+	offset := option.Offset
 	if len(option.Prefix) > 0 {
-		iterOpts.Prefix = option.Prefix
+		if !option.Reverse {
+			iterOpts.Prefix = option.Prefix
+			if bytes.Compare(offset, option.Prefix) < 0 {
+				offset = option.Prefix
+			}
+		} else if limit := util.BytesPrefix(option.Prefix).Limit; limit != nil {
+			// start from the last key of the prefix
+			if len(offset) == 0 || bytes.Compare(offset, limit) > 0 {
+				offset = limit
+			}
+		}
 	}
 
 	iter := txn.NewIterator(iterOpts)
 	defer iter.Close()
 
-	if option.Offset != nil {
-		iter.Seek(option.Offset)
+	if len(offset) > 0 {
+		iter.Seek(offset)
 	} else {
 		iter.Rewind()
 	}
@@ -120,6 +134,12 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	var goon bool
 	for ; iter.Valid(); iter.Next() {
 		item := iter.Item()
+		if !bytes.HasPrefix(item.Key(), option.Prefix) {
+			if option.Reverse && bytes.Compare(item.Key(), option.Prefix) > 0 {
+				continue
+			}
+			break
+		}
 
 		err = item.Value(func(val []byte) error {
 			goon = fn(item.Key(), val, mondis.VMetaResp{ExpiresAt: item.ExpiresAt(), Tag: item.UserMeta()})
-- 
2.43.0


From bf61ef580719d4adc1a4fcde329f4824a522ba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 05/39] fix: discard a transaction whose connection is gone

The transaction handler only waited for the next frame. When the
connection is closed while its reader is handing over a frame, FrameCh is
never closed, and the transaction stayed open forever.
---
 server/common.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index 563055a..e3fb720 100644
--- a/server/common.go
+++ b/server/common.go
@@ -31,7 +31,12 @@ func handleTxnContinuedFrame(
 		close      bool
 	)
 	for {
-		nextFrame := <-frame.FrameCh()
+		var nextFrame *qrpc.Frame
+		select {
+		case nextFrame = <-frame.FrameCh():
+		case <-frame.Context().Done():
+			// the connection is gone, FrameCh may never be closed
+		}
 		if nextFrame == nil {
 			txn.Discard()
 			err = writeStreamRespBytes(writer, frame, DiscardRespCmd, nil, true)
-- 
2.43.0


From a3be06accae0175c570b70e5988c992441a0fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 06/39] fix: a value with a tag and without TTL does not expire

---
 provider/badger_txn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/provider/badger_txn.go b/provider/badger_txn.go
index e307d58..0dbfb9c 100644
--- a/provider/badger_txn.go
+++ b/provider/badger_txn.go
@@ -21,7 +21,10 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 		return (*badger.Txn)(txn).Set(k, v)
 	}
 
-	entry := badger.NewEntry(k, v).WithTTL(meta.TTL).WithMeta(meta.Tag)
+	entry := badger.NewEntry(k, v).WithMeta(meta.Tag)
+	if meta.TTL != 0 {
+		entry = entry.WithTTL(meta.TTL)
+	}
 	return (*badger.Txn)(txn).SetEntry(entry)
 }
 
-- 
2.43.0


From cfd901cb3bdab6738d6195a177530583757fd374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 07/39] fix: report the errors of a LevelDB scan and release
 its iterator

---
 provider/leveldb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/provider/leveldb.go b/provider/leveldb.go
index 4edd664..1de0c42 100644
--- a/provider/leveldb.go
+++ b/provider/leveldb.go
@@ -97,6 +97,10 @@ func (l *LevelDB) Scan(option mondis.ProviderScanOption, fn func(key []byte, val
 		slice = util.BytesPrefix(option.Prefix)
 	}
 	iter := l.db.NewIterator(slice, nil)
+	defer func() {
+		err = iter.Error()
+		iter.Release()
+	}()
 	if option.Offset != nil {
 		if !iter.Seek(option.Offset) {
 			return
-- 
2.43.0


From b2a029172b8c43efb76448392349b38c94575ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 08/39] fix: report ErrTxnTooBig of Delete like that of Set

---
 client/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 2b9545b..c004df6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -193,7 +193,13 @@ func parseDeleteRespFromFrame(respFrame *qrpc.Frame) (err error) {
 	}
 
 	if deleteResp.Code != 0 {
-		err = newPBError(deleteResp.Code, deleteResp.Msg)
+
+		if deleteResp.Code == server.CodeTxnTooBig {
+			err = kv.ErrTxnTooBig
+		} else {
+			err = newPBError(deleteResp.Code, deleteResp.Msg)
+		}
+
 		return
 	}
 
-- 
2.43.0


From 821edb1d9e82400f10a50b55103113e051daf92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 09/39] fix: do not take the server's discard notice for the
 response of a transaction operation

---
 client/client_txn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/client_txn.go b/client/client_txn.go
index bd73fbe..9cdf29a 100644
--- a/client/client_txn.go
+++ b/client/client_txn.go
@@ -55,7 +55,8 @@ var ErrTxnClosed = errors.New("txn closed")
 func (txn *Txn) getRespFrame() (respFrame *qrpc.Frame, err error) {
 	if txn.firstFrame != nil {
 		respFrame = <-txn.firstFrame.FrameCh()
-		if respFrame == nil {
+		if respFrame == nil || respFrame.Cmd == server.DiscardRespCmd {
+			// discarded by the server, this is not the response to our request
 			err = ErrTxnClosed
 		}
 		return
-- 
2.43.0


From 425c9deb6386031d2e9dbe0b818d0da532bca6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 10/39] fix: close the store only after the server has stopped
 serving requests

---
 server/server.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/server/server.go b/server/server.go
index 5c82433..b79eaa8 100644
--- a/server/server.go
+++ b/server/server.go
@@ -52,11 +52,12 @@ func (s *Server) Start() (err error) {
 // Stop server
 func (s *Server) Stop() (err error) {
 
-	err = s.kvdb.Close()
-	if err != nil {
-		return
-	}
-
+	// requests are served until Shutdown returns, so only then close the store
 	err = s.qserver.Shutdown()
+
+	closeErr := s.kvdb.Close()
+	if err == nil {
+		err = closeErr
+	}
 	return
 }
-- 
2.43.0


From 00e72ed8253c14dc3c91391e12bcc97afb3edf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 11/39] fix: HSet of a new hash field with an empty value must
 create the field

---
 structure/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure/hash.go b/structure/hash.go
index c59ea0d..16aea95 100644
--- a/structure/hash.go
+++ b/structure/hash.go
@@ -289,7 +289,7 @@ func (t *TxStructure) updateHash(key, field []byte, fn func(oldValue []byte) ([]
 	}
 
 	// Check if new value is equal to old value.
-	if bytes.Equal(oldValue, newValue) {
+	if !isNew && bytes.Equal(oldValue, newValue) {
 		return nil
 	}
 
-- 
2.43.0


From f6d97e62a93298b56e8dab5e610561be1f5f8e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 12/39] fix: HClear must report a storage error of its first
 read

---
 structure/hash.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structure/hash.go b/structure/hash.go
index 16aea95..06a63f0 100644
--- a/structure/hash.go
+++ b/structure/hash.go
@@ -200,6 +200,9 @@ func (t *TxStructure) HClear(key []byte) (err error) {
 		err = nil
 		return
 	}
+	if err != nil {
+		return
+	}
 
 	itErr := t.iterateHash(key, func(field []byte, value []byte) bool {
 		k := t.encodeHashDataKey(key, field)
-- 
2.43.0


From 2f9d99fcab027bb56ce21eeef9a99f5a32849643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 13/39] fix: NextN must not hand out the numbers after a lease
 renewal again

---
 document/meta/sequence/sequence.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index 1598f7b..bf2dd97 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -193,6 +193,7 @@ func (seq *Sequence) NextN(n int64) (ranges []IDRange, err error) {
 
 	r := IDRange{Start: seq.next, End: seq.next + n - remain}
 	ranges = append(ranges, r)
+	seq.next = r.End
 
 	return
 }
-- 
2.43.0


From 25352c3bf3934fcc2964b35b9792a1fd34524ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 14/39] fix: Clear of a sequence must forget the numbers put
 back before

---
 document/meta/sequence/sequence.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index bf2dd97..b4985ed 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -107,6 +107,10 @@ func (seq *Sequence) Clear() (err error) {
 	}
 
 	err = seq.clearFunc()
+	if err == nil {
+		// these will be handed out again by the cleared sequence
+		seq.putbacks = nil
+	}
 	return
 }
 
-- 
2.43.0


From 46abb58fa0c6fc875e8081ac942790ed41d0c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 15/39] fix: Clear of a hash sequence must not clear the other
 fields of the hash

---
 document/meta/sequence/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index 593113b..a2bb255 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -54,7 +54,7 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
-		err = txStruct.HClear(key)
+		err = txStruct.HDel(key, field)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 6667253e6b3c16653c4d94e738411dff01dc5d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 16/39] fix: ReleaseRemaining must commit its transaction

---
 document/sequence.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/document/sequence.go b/document/sequence.go
index 018acf1..30aaaee 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -89,6 +89,11 @@ func (s *Sequence) ReleaseRemaining() (err error) {
 		return
 	}
 
+	err = txn.Commit()
+	if err != nil {
+		return
+	}
+
 	s.leased = s.next
 	return
 }
-- 
2.43.0


From ac24d8084f2556f1cd82de03556404960cc743b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 17/39] fix: GetDidRange must not read the keys outside of the
 collection

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 5d56a96..487afe4 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -310,7 +310,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 	}
 
 	collectionDocumentPrefix := AppendCollectionDocumentPrefix(nil, ci.ID)
-	scanErr := t.Scan(mondis.ProviderScanOption{Offset: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr := t.Scan(mondis.ProviderScanOption{Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, min, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
@@ -321,7 +321,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 		err = scanErr
 		return
 	}
-	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Offset: collectionDocumentPrefix.PrefixNext()}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, max, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
-- 
2.43.0


From 599277414727a9b1ece7dba2217e13ccb266891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 18/39] fix: InsertOne must report a missing collection and a
 failed write

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 487afe4..ca0296f 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -55,7 +55,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 	insertFunc := func(t *txn.Txn) (ierr error) {
 		ci := t.StartMetaCache().CollectionInfo(c.dbName, c.collectionName)
 		if ci == nil {
-			err = ErrCollectionNotExists
+			ierr = ErrCollectionNotExists
 			return
 		}
 		if origT != nil {
@@ -76,7 +76,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 		docKey := EncodeCollectionDocumentKey(nil, ci.ID, did)
 
 		ierr = t.Set(docKey, data, nil)
-		if err != nil {
+		if ierr != nil {
 			return
 		}
 
-- 
2.43.0


From 52275ca08f96cb29bc9837518431e3bdbf8f9efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 19/39] fix: DeleteAll needs an update transaction

---
 document/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 515dacb..7ac21e2 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -298,7 +298,7 @@ func (c *Collection) DeleteAll(txn mondis.ProviderTxn) (n int, err error) {
 		return
 	}
 
-	err = tutil.RunInNewTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
+	err = tutil.RunInNewUpdateTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
 		newN, err := c.deleteAllWithTxn(txn)
 		n += newN
 		return err
-- 
2.43.0


From 3a743ec9a5250a04e116d35b28ca513e9e2e4218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 20/39] fix: CreateIndex must report a failed write of the
 index name

---
 document/collection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 7ac21e2..7e90c87 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -449,7 +449,10 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	}
 
 	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
-	txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
+	err = txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
+	if err != nil {
+		return
+	}
 	metaIndexKey := EncodeMetaIndexKey(nil, iid)
 	err = txn.Set(metaIndexKey, idefBytes, nil)
 	if err != nil {
-- 
2.43.0


From 730164ea944fc89ede3a35aa44d2bd5564a883d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 21/39] fix: CreateIndex must not overwrite an index of the
 same name

---
 document/collection.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 7e90c87..84dcbcc 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -439,6 +439,15 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	if err != nil {
 		return
 	}
+	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
+	exists, err := txn.Exists(indexName2IDKey)
+	if err != nil {
+		return
+	}
+	if exists {
+		err = fmt.Errorf("there already exists index with name %s", idef.Name)
+		return
+	}
 	iid, err = c.db.nextIndexID()
 	if err != nil {
 		return
@@ -448,7 +457,6 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
-	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
 	err = txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
 	if err != nil {
 		return
-- 
2.43.0


From 3e537d124dd6708919bce63e7556e26494a75579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 22/39] fix: DropIndex must report a storage error of its first
 read

---
 document/collection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document/collection.go b/document/collection.go
index 84dcbcc..9475f2a 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -567,6 +567,9 @@ func (c *Collection) DropIndex(iname string) (exists bool, err error) {
 		err = nil
 		return
 	}
+	if err != nil {
+		return
+	}
 
 	_, iid, err := compact.DecodeVarint(iidv)
 	if err != nil {
-- 
2.43.0


From d6fd02e24f8ff2069870f1cb418c6b2bd5462fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 23/39] fix: update the index map in the order of the commits

---
 document/collection.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/document/collection.go b/document/collection.go
index 9475f2a..316fc00 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -423,6 +423,9 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	defer c.db.closer.Done()
 	// prologue end
 
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	txn := c.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
@@ -472,9 +475,7 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
-	c.mu.Lock()
 	c.indexMap[idef.Name] = idef
-	c.mu.Unlock()
 	return
 }
 
@@ -558,6 +559,9 @@ func (c *Collection) DropIndex(iname string) (exists bool, err error) {
 	defer c.db.closer.Done()
 	// prologue end
 
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	txn := c.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
@@ -608,9 +612,7 @@ func (c *Collection) DropIndex(iname string) (exists bool, err error) {
 		return
 	}
 
-	c.mu.Lock()
 	delete(c.indexMap, idef.Name)
-	c.mu.Unlock()
 	return
 }
 
-- 
2.43.0


From 2ecf3e1a743829d154727a3531b659e6d9e7f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 24/39] fix: computing the key of an index must not reorder its
 fields

---
 document/keys.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/keys.go b/document/keys.go
index 8b50a30..c5eff56 100644
--- a/document/keys.go
+++ b/document/keys.go
@@ -85,6 +85,7 @@ func EncodeCollectionColumnsIndexedKey(buf []byte, cid int64, fields []IndexFiel
 		buf = make([]byte, 0, bufLen)
 	}
 
+	fields = append([]IndexField(nil), fields...)
 	if len(fields) == 1 {
 		fields[0].Desc = false
 	} else {
-- 
2.43.0


From be7556b9e2d8a0d9f57ca33750b6da5ca3c2939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 25/39] fix: Check must release its lock when it finds a
 conflict

---
 document/schema/handle.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/schema/handle.go b/document/schema/handle.go
index ecab688..2413a93 100644
--- a/document/schema/handle.go
+++ b/document/schema/handle.go
@@ -54,6 +54,7 @@ func (h *Handle) Check(ctx context.Context, startMetaCache *MetaCache, referredC
 
 			for _, collectionIDs := range cache.schemaDiffs[diffIdx] {
 				if _, ok := referredCollections[collectionIDs]; ok {
+					h.mu.RUnlock()
 					return
 				}
 			}
-- 
2.43.0


From c3d08f5c3000f90a9c65b40d4bc53edf84897caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 26/39] fix: keep the error of a failed DDL job decodable

---
 document/model/model.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/document/model/model.go b/document/model/model.go
index 46389ed..97a5095 100644
--- a/document/model/model.go
+++ b/document/model/model.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"encoding/json"
+	"errors"
 
 	"github.com/zhiqiangxu/util/osc"
 )
@@ -44,7 +45,8 @@ type (
 		ID          int64
 		Type        ActionType
 		State       JobState
-		Error       error
+		Error       error  `json:"-"`
+		ErrorMsg    string // Error as text, because an error does not survive json
 		ErrorCount  int64
 		Arg         interface{} `json:"-"`
 		RawArg      json.RawMessage
@@ -245,6 +247,11 @@ func (job *Job) Encode() (b []byte, err error) {
 		}
 	}
 
+	job.ErrorMsg = ""
+	if job.Error != nil {
+		job.ErrorMsg = job.Error.Error()
+	}
+
 	b, err = json.Marshal(job)
 
 	return
@@ -254,6 +261,9 @@ func (job *Job) Encode() (b []byte, err error) {
 // decode special arg for this job.
 func (job *Job) Decode(b []byte) (err error) {
 	err = json.Unmarshal(b, job)
+	if err == nil && job.ErrorMsg != "" {
+		job.Error = errors.New(job.ErrorMsg)
+	}
 	return
 }
 
-- 
2.43.0


From 245c9c573f0b6458ea6839ab1474d239ee9ab8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 27/39] fix: CreateSchema must allocate a global id for every
 index

---
 document/ddl/ddl_api.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index 964ae50..753d76e 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -16,7 +16,10 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 		return
 	}
 
-	n := 2 + len(input.Collections) + len(input.Indices)
+	n := 2
+	for _, cn := range input.Collections {
+		n += 1 + len(input.Indices[cn])
+	}
 	err = util.RunInNewUpdateTxn(d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 		m := meta.NewMeta(txn)
 		queueLength, err := m.DDLJobQueueLen()
-- 
2.43.0


From 38324beac1fadd4c71ce71646110aca88dcf5d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 28/39] fix: CreateSchema with indices must not panic

---
 document/ddl/ddl_api.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index 753d76e..c4e4efa 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -56,8 +56,9 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 			collectInfo := dbInfo.Collections[cn]
 			if collectInfo == nil {
 				collectInfo = &model.CollectionInfo{
-					ID:   nextID + 1,
-					Name: cn,
+					ID:      nextID + 1,
+					Name:    cn,
+					Indices: make(map[string]*model.IndexInfo),
 				}
 				nextID++
 				dbInfo.Collections[cn] = collectInfo
-- 
2.43.0


From 18942fccbbf27eed511fe04322080286a434e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 29/39] fix: Init must succeed when it is called again after a
 failure

---
 document/ddl/ddl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document/ddl/ddl.go b/document/ddl/ddl.go
index 99faf58..25aa7c5 100644
--- a/document/ddl/ddl.go
+++ b/document/ddl/ddl.go
@@ -68,6 +68,9 @@ func (d *DDL) Init() (err error) {
 		for _, db := range dbs {
 			for _, ci := range db.Collections {
 				err = dml.CreateSequence(d.kvdb, db.ID, ci.ID, 0)
+				if err == dml.ErrSequenceAlreadyExists {
+					err = nil
+				}
 				if err != nil {
 					return
 				}
-- 
2.43.0


From 4803d07b715a59e06982ff6ba7cb4ab72030c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 30/39] fix: the schema diff of a new database must carry its
 public state

---
 document/ddl/ddl_worker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index f44c527..a02570e 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -319,6 +319,7 @@ func (w *worker) onCreateSchema(m *meta.Meta, job *model.Job) (schemaVersion int
 		}
 	}
 
+	job.RawArg = nil // will encode job.Arg into job.RawArg
 	schemaVersion, err = updateSchemaVersion(m, job)
 	if err != nil {
 		return
-- 
2.43.0


From c320e6f03c7728616abf0804393f9294e84c4fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 31/39] fix: an attempt of a DDL job that failed must not leave
 any effect

---
 document/ddl/ddl_worker.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index a02570e..302456c 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -71,6 +71,7 @@ func (w *worker) handleJobQueue() (err error) {
 		job                 *model.Job
 	)
 	for {
+		runJobErr = nil
 		err = util.RunInNewUpdateTxnWithCallback(w.d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 			m := meta.NewMeta(txn)
 
@@ -93,18 +94,14 @@ func (w *worker) handleJobQueue() (err error) {
 
 			util2.RunWithRecovery(func() {
 				schemaVersion, afterCommitFunc4Job, failNow, runJobErr = w.runJob(m, job)
-			}, func(interface{}) {
-				job.State = model.JobStateCancelling
+			}, func(p interface{}) {
+				runJobErr = fmt.Errorf("panic: %v", p)
 			})
 
 			if runJobErr != nil {
-				job.ErrorCount++
-				job.Error = runJobErr
-				logger.Instance().Error("runJob", zap.Any("job", job), zap.Error(runJobErr))
-				if failNow || job.ErrorCount >= jobMaxErrorCount {
-					err = w.finishJob(m, job)
-					return
-				}
+				// nothing of what the job has written may be committed
+				err = runJobErr
+				return
 			}
 
 			if job.IsCancelled() {
@@ -124,6 +121,11 @@ func (w *worker) handleJobQueue() (err error) {
 		if nojob {
 			return
 		}
+		if runJobErr != nil {
+			err = util.RunInNewUpdateTxn(w.d.kvdb, func(txn mondis.ProviderTxn) error {
+				return w.failJob(meta.NewMeta(txn), job, failNow, runJobErr)
+			})
+		}
 		if w.d.options.Callback.OnChanged != nil {
 			changeErr := runJobErr
 			if changeErr == nil {
@@ -170,6 +172,19 @@ func (w *worker) updateJob(m *meta.Meta, job *model.Job) (err error) {
 	return
 }
 
+// failJob records that an attempt to run job failed.
+func (w *worker) failJob(m *meta.Meta, job *model.Job, failNow bool, runJobErr error) (err error) {
+	job.ErrorCount++
+	job.Error = runJobErr
+	logger.Instance().Error("runJob", zap.Any("job", job), zap.Error(runJobErr))
+	if failNow || job.ErrorCount >= jobMaxErrorCount || job.IsCancelled() {
+		err = w.finishJob(m, job)
+		return
+	}
+	err = w.updateJob(m, job)
+	return
+}
+
 func (w *worker) finishJob(m *meta.Meta, job *model.Job) (err error) {
 
 	_, err = m.DeQueueDDLJob()
-- 
2.43.0


From 78c4992b2768116bf5c846c4ea7eb0bcdcc1185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:18 +0000
Subject: [PATCH 32/39] fix: a DDL job at an index outside of the queue does
 not exist

---
 document/meta/meta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/meta/meta.go b/document/meta/meta.go
index e172d45..4545a8e 100644
--- a/document/meta/meta.go
+++ b/document/meta/meta.go
@@ -487,7 +487,7 @@ func (m *Meta) getDDLJob(key []byte, index int64) (job *model.Job, err error) {
 		err = nil
 		return
 	}
-	if err != nil {
+	if err != nil || value == nil {
 		return
 	}
 
-- 
2.43.0


From ce8d9a6259dc02f8452d3851ee05e55f04ec9e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 33/39] fix: a scan request without scan options killed the
 server

---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index e3fb720..ac4b4cd 100644
--- a/server/common.go
+++ b/server/common.go
@@ -300,7 +300,7 @@ func copyBytes(in []byte) (out []byte) {
 
 func handleScan(kvop mondis.ProviderKVOP, req *pb.ScanRequest, resp *pb.ScanResponse) {
 	pso := req.ProviderScanOption
-	option := mondis.ProviderScanOption{Reverse: pso.Reverse, Prefix: pso.Prefix, Offset: pso.Offset}
+	option := mondis.ProviderScanOption{Reverse: pso.GetReverse(), Prefix: pso.GetPrefix(), Offset: pso.GetOffset()}
 	limit := int(req.Limit)
 	if limit == 0 {
 		goto DONE
-- 
2.43.0


From 8043e77cb0d6a29212d0fdcc4421c17fe4074ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 34/39] fix: a schema that cannot be created as asked for is
 refused

CreateSchema accepted duplicate collections and indices, indices of collections
that are not created, and names that do not survive being stored as json.
---
 document/ddl/input.go | 45 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/document/ddl/input.go b/document/ddl/input.go
index a87b104..511dbbf 100644
--- a/document/ddl/input.go
+++ b/document/ddl/input.go
@@ -2,6 +2,7 @@ package ddl
 
 import (
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/zhiqiangxu/mondis/document/model"
 )
@@ -19,23 +20,55 @@ func (in *CreateSchemaInput) Validate() (err error) {
 		err = fmt.Errorf("db empty")
 		return
 	}
+	err = validateName(in.DB)
+	if err != nil {
+		return
+	}
+	collections := make(map[string]bool, len(in.Collections))
 	for _, cn := range in.Collections {
 		if cn == "" {
 			err = fmt.Errorf("collection empty")
 			return
 		}
+		if collections[cn] {
+			err = fmt.Errorf("duplicate collection: %q", cn)
+			return
+		}
+		err = validateName(cn)
+		if err != nil {
+			return
+		}
+		collections[cn] = true
 	}
-	for _, indexInfos := range in.Indices {
+	for cn, indexInfos := range in.Indices {
+		indices := make(map[string]bool, len(indexInfos))
 		for _, indexInfo := range indexInfos {
 			err = indexInfo.Validate()
 			if err != nil {
 				return
 			}
+			if !collections[cn] {
+				err = fmt.Errorf("index of unknown collection: %q", cn)
+				return
+			}
+			if indices[indexInfo.Name] {
+				err = fmt.Errorf("duplicate index: %q", indexInfo.Name)
+				return
+			}
+			indices[indexInfo.Name] = true
 		}
 	}
 	return
 }
 
+// validateName refuses names that do not survive being stored as json
+func validateName(name string) (err error) {
+	if !utf8.ValidString(name) {
+		err = fmt.Errorf("name is not valid utf8: %q", name)
+	}
+	return
+}
+
 // DropSchemaInput for DropSchema
 type DropSchemaInput struct {
 	DB string
@@ -159,6 +192,16 @@ func (ii *IndexInfo) Validate() (err error) {
 		err = fmt.Errorf("index columns empty")
 		return
 	}
+	err = validateName(ii.Name)
+	if err != nil {
+		return
+	}
+	for _, column := range ii.Columns {
+		err = validateName(column)
+		if err != nil {
+			return
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 5804e676a384ce590e5caa8555556de9c057931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:28 +0000
Subject: [PATCH 35/39] fix: releasing a sequence gave back numbers that others
 had leased after it

The rest of a lease can be returned only as long as nobody leased what comes
next. Otherwise the numbers of others were handed out twice.
---
 document/meta/sequence/hash.go   | 11 +++++++++++
 document/meta/sequence/string.go | 11 +++++++++++
 document/sequence.go             | 11 +++++++++++
 3 files changed, 33 insertions(+)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index a2bb255..bc77410 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -73,6 +74,16 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
+		stored, err := txStruct.HGetInt64(key, field)
+		if err != nil && err != kv.ErrKeyNotFound {
+			return
+		}
+		if err == kv.ErrKeyNotFound || stored != s.leased {
+			// somebody else leased what comes next, the rest can't be returned any more
+			err = nil
+			return
+		}
+
 		err = txStruct.HSetInt64(key, field, s.next)
 		if err != nil {
 			return
diff --git a/document/meta/sequence/string.go b/document/meta/sequence/string.go
index 3b9aaa5..b7fb1b9 100644
--- a/document/meta/sequence/string.go
+++ b/document/meta/sequence/string.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -69,6 +70,16 @@ func NewString(kvdb mondis.KVDB, keyword []byte, bandwidth int64) (s *String, er
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
+		stored, err := txStruct.GetInt64(keyword)
+		if err != nil && err != kv.ErrKeyNotFound {
+			return
+		}
+		if err == kv.ErrKeyNotFound || stored != s.leased {
+			// somebody else leased what comes next, the rest can't be returned any more
+			err = nil
+			return
+		}
+
 		err = txStruct.SetInt64(keyword, s.next)
 		if err != nil {
 			return
diff --git a/document/sequence.go b/document/sequence.go
index 30aaaee..22060c9 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -1,6 +1,7 @@
 package document
 
 import (
+	"bytes"
 	"sync"
 
 	"github.com/zhiqiangxu/mondis"
@@ -83,6 +84,16 @@ func (s *Sequence) ReleaseRemaining() (err error) {
 	txn := s.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
+	val, _, err := txn.Get(s.key)
+	if err != nil && err != kv.ErrKeyNotFound {
+		return
+	}
+	if err == kv.ErrKeyNotFound || !bytes.Equal(val, numeric.Encode2Binary(s.leased, nil)) {
+		// somebody else leased what comes next, the rest can't be returned any more
+		err = nil
+		return
+	}
+
 	buf := numeric.Encode2Binary(s.next, nil)
 	err = txn.Set(s.key, buf, nil)
 	if err != nil {
-- 
2.43.0


From 6fe558cc4fd0a7532c338b31873aa8ebba264a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 36/39] fix: an index definition was shared with the caller of
 CreateIndex

The collection kept the slice of fields it was given, so a caller that used
the slice again changed the definition of the index.
---
 document/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 316fc00..2020c7c 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -475,7 +475,7 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
-	c.indexMap[idef.Name] = idef
+	c.indexMap[idef.Name] = idef.Clone()
 	return
 }
 
-- 
2.43.0


From 056108a524c8b2aa06f9004ee70c6889a4a5dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:15 +0000
Subject: [PATCH 37/39] fix: a failed lease of a sequence moved it back below
 the end of its old one

After numbers had been given back by others, the next value read by a lease
that then failed to commit may be lower than the end of the old lease, so that
numbers of others were handed out without a lease.
---
 document/sequence.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/document/sequence.go b/document/sequence.go
index 22060c9..70f5e98 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -41,34 +41,33 @@ func (s *Sequence) updateLease() (err error) {
 	txn := s.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
+	var next uint64
 	val, _, err := txn.Get(s.key)
 	switch {
 	case err == kv.ErrKeyNotFound:
-		s.next = 0
 	case err != nil:
 		return
 	default:
-		var num uint64
-		num, err = numeric.DecodeFromBinary(val)
+		next, err = numeric.DecodeFromBinary(val)
 		if err != nil {
 			return
 		}
-		s.next = num
 	}
 
-	lease := s.next + s.bandwidth
+	lease := next + s.bandwidth
 	buf := numeric.Encode2Binary(lease, nil)
 	err = txn.Set(s.key, buf, nil)
 	if err != nil {
 		return
 	}
 
-	oldLease := s.leased
-	s.leased = lease
 	err = txn.Commit()
 	if err != nil {
-		s.leased = oldLease
+		return
 	}
+
+	s.next = next
+	s.leased = lease
 	return
 }
 
-- 
2.43.0


From 46d0a7b9fc3e3c01f4e0f97eadf714c0a12df79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:49 +0000
Subject: [PATCH 38/39] fix: a request with an overflowing field length killed
 the server

---
 pb/mondis.pb.go | 108 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 108 insertions(+)

diff --git a/pb/mondis.pb.go b/pb/mondis.pb.go
index e7efd31..f6b152c 100644
--- a/pb/mondis.pb.go
+++ b/pb/mondis.pb.go
@@ -1766,6 +1766,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1797,6 +1800,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1828,6 +1834,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1847,6 +1856,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1932,6 +1944,9 @@ func (m *SetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1946,6 +1961,9 @@ func (m *SetResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2011,6 +2029,9 @@ func (m *GetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2028,6 +2049,9 @@ func (m *GetRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2113,6 +2137,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2141,6 +2168,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2172,6 +2202,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2191,6 +2224,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2256,6 +2292,9 @@ func (m *ExistsRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2273,6 +2312,9 @@ func (m *ExistsRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2358,6 +2400,9 @@ func (m *ExistsResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2392,6 +2437,9 @@ func (m *ExistsResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2457,6 +2505,9 @@ func (m *DeleteRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2474,6 +2525,9 @@ func (m *DeleteRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2559,6 +2613,9 @@ func (m *DeleteResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2573,6 +2630,9 @@ func (m *DeleteResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2662,6 +2722,9 @@ func (m *VMetaReq) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2751,6 +2814,9 @@ func (m *VMetaResp) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2836,6 +2902,9 @@ func (m *CommitResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2850,6 +2919,9 @@ func (m *CommitResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2915,6 +2987,9 @@ func (m *ScanRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2953,6 +3028,9 @@ func (m *ScanRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3038,6 +3116,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3069,6 +3150,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3086,6 +3170,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3151,6 +3238,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3182,6 +3272,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3213,6 +3306,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3232,6 +3328,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3317,6 +3416,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3345,6 +3447,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3362,6 +3467,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
-- 
2.43.0


From 51bb53304a0dbaf4bf5b76249b127759dede9a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:49 +0000
Subject: [PATCH 39/39] fix: unknown groups in a request could kill the server

---
 pb/mondis.pb.go | 54 ++++++++++++++++---------------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/pb/mondis.pb.go b/pb/mondis.pb.go
index f6b152c..77fa508 100644
--- a/pb/mondis.pb.go
+++ b/pb/mondis.pb.go
@@ -3486,6 +3486,7 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 func skipMondis(dAtA []byte) (n int, err error) {
 	l := len(dAtA)
 	iNdEx := 0
+	depth := 0
 	for iNdEx < l {
 		var wire uint64
 		for shift := uint(0); ; shift += 7 {
@@ -3517,10 +3518,8 @@ func skipMondis(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			return iNdEx, nil
 		case 1:
 			iNdEx += 8
-			return iNdEx, nil
 		case 2:
 			var length int
 			for shift := uint(0); ; shift += 7 {
@@ -3537,55 +3536,36 @@ func skipMondis(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthMondis
 			}
-			return iNdEx, nil
+			iNdEx += length
 		case 3:
-			for {
-				var innerWire uint64
-				var start int = iNdEx
-				for shift := uint(0); ; shift += 7 {
-					if shift >= 64 {
-						return 0, ErrIntOverflowMondis
-					}
-					if iNdEx >= l {
-						return 0, io.ErrUnexpectedEOF
-					}
-					b := dAtA[iNdEx]
-					iNdEx++
-					innerWire |= (uint64(b) & 0x7F) << shift
-					if b < 0x80 {
-						break
-					}
-				}
-				innerWireType := int(innerWire & 0x7)
-				if innerWireType == 4 {
-					break
-				}
-				next, err := skipMondis(dAtA[start:])
-				if err != nil {
-					return 0, err
-				}
-				iNdEx = start + next
-			}
-			return iNdEx, nil
+			depth++
 		case 4:
-			return iNdEx, nil
+			if depth == 0 {
+				return 0, ErrUnexpectedEndOfGroupMondis
+			}
+			depth--
 		case 5:
 			iNdEx += 4
-			return iNdEx, nil
 		default:
 			return 0, fmt.Errorf("proto: illegal wireType %d", wireType)
 		}
+		if iNdEx < 0 {
+			return 0, ErrInvalidLengthMondis
+		}
+		if depth == 0 {
+			return iNdEx, nil
+		}
 	}
-	panic("unreachable")
+	return 0, io.ErrUnexpectedEOF
 }
 
 var (
-	ErrInvalidLengthMondis = fmt.Errorf("proto: negative length found during unmarshaling")
-	ErrIntOverflowMondis   = fmt.Errorf("proto: integer overflow")
+	ErrInvalidLengthMondis        = fmt.Errorf("proto: negative length found during unmarshaling")
+	ErrIntOverflowMondis          = fmt.Errorf("proto: integer overflow")
+	ErrUnexpectedEndOfGroupMondis = fmt.Errorf("proto: unexpected end of group")
 )
 
 func init() { proto.RegisterFile("mondis.proto", fileDescriptor_mondis_b556768874fb6b4e) }
-- 
2.43.0

