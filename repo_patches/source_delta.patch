From 755a17f1eaa866d41cfcdde168aff2a416f975ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:27 +0000
Subject: [PATCH 01/45] fix: elen integers encode and decode every value of the
 type

The magnitude of the smallest value of a signed type does not fit into that
type, and 8 bit integers were read back as a single character.
---
 include/utils/elen.tpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 14b977a..b6b712f 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -41,11 +41,14 @@ std::string unique(const T value, const char prefix, const char neg, const char
 template <typename T,
           typename Cond>
 std::string integers(const T value, const char neg, const char pos) {
+    // only the magnitude is written, and the magnitude
+    // of the smallest signed value does not fit into T
+    const unsigned long long bits = value;
     if (value < 0) {
-        return unique<T, Cond>(-value, neg, neg, pos);
+        return unique<unsigned long long, std::true_type>(0 - bits, neg, neg, pos);
     }
     else if (value > 0) {
-        return unique<T, Cond>(value, pos, neg, pos);
+        return unique<unsigned long long, std::true_type>(bits, pos, neg, pos);
     }
 
     return "0";
@@ -275,13 +278,19 @@ T integers(const std::string &str, std::size_t* prefix_len, const char neg, cons
         *prefix_len = position + len;
     }
 
-    // read the final value
-    T out = next<T, std::true_type>(prefix, str, position, len, neg);
-    if (prefix == neg) {
-        out = -out;
+    // read the final value (T might be a character type or too small for the magnitude)
+    const unsigned long long magnitude = next<unsigned long long, std::true_type>(prefix, str, position, len, neg);
+
+    unsigned long long max = std::numeric_limits<T>::max();
+    if ((prefix == neg) && std::is_signed<T>::value) {
+        max++;
     }
 
-    return out;
+    if (magnitude > max) {
+        throw std::invalid_argument(ERROR_PREFIX + "Decode Integer: Value does not fit: " + str);
+    }
+
+    return static_cast<T>((prefix == neg)?(0 - magnitude):magnitude);
 }
 
 // Chapter 4 Small Decimals
-- 
2.43.0


From 59b564cbcae0cca0d9ab1a18f40a4b703d817256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:15 +0000
Subject: [PATCH 02/45] fix: pack empty blobs that have no address

Copying an empty blob yields a null pointer, and packing that wrote nothing
although its size was accounted for, which shifted everything packed after it.
---
 src/utils/Blob.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/Blob.cpp b/src/utils/Blob.cpp
index 78990cb..da30d37 100644
--- a/src/utils/Blob.cpp
+++ b/src/utils/Blob.cpp
@@ -112,14 +112,17 @@ void Blob::dealloc() {
 // the blob argument is assumed to be defined and large enough to fit the data
 // (length is not known)
 char *Blob::pack(char *&dst, const bool include_type) const {
-    if (!dst || !ptr) {
+    // empty blobs might not have an address
+    if (!dst || (!ptr && len)) {
         return nullptr;
     }
 
     little_endian::encode(dst, len);
     dst += sizeof(len);
 
-    memcpy(dst, ptr, len);
+    if (len) {
+        memcpy(dst, ptr, len);
+    }
     dst += len;
 
     if (include_type) {
-- 
2.43.0


From 44caa99190af5a3cee7c008bcbbedb76641766be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:36 +0000
Subject: [PATCH 03/45] fix: GETOP LAST on an empty in-memory datastore

---
 src/datastore/InMemory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 68a31c3..182db98 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -257,9 +257,9 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_LAST) {
                 // ignore key
                 it = db.end();
-                it--;
 
-                if (it != db.end()) {
+                if (it != db.begin()) {
+                    it--;
                     for(std::size_t j = 0; j < req->num_recs[i]; j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         if (it == db.begin()) {
-- 
2.43.0


From 06634c142d6fe930b944173eb4defbcbca1a56d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:36 +0000
Subject: [PATCH 04/45] fix: GETOP EQ does not return a record without the
 requested prefix

---
 src/datastore/InMemory.cpp | 5 +++--
 src/datastore/LevelDB.cpp  | 6 ++++--
 src/datastore/RocksDB.cpp  | 6 ++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 182db98..6a5484c 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -197,9 +197,10 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it = db.lower_bound(std::string((const char *) key.data(), prefix_len));
+                const std::string prefix((const char *) key.data(), prefix_len);
+                it = db.lower_bound(prefix);
 
-                if (it != db.end()) {
+                if ((it != db.end()) && (it->first.compare(0, prefix_len, prefix) == 0)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, 0, event);
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 734c397..87ce8bf 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::leveldb::Slice((char *) key.data(), prefix_len));
+                ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                if (it->Valid()) {
+                it->Seek(prefix);
+
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index bc47284..e7984ff 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::rocksdb::Slice((char *) key.data(), prefix_len));
+                ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                if (it->Valid()) {
+                it->Seek(prefix);
+
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
-- 
2.43.0


From e72157a007431d9eeab46353e1690d62bc0831ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:03 +0000
Subject: [PATCH 05/45] fix: GETOP HIGHEST starts at the last key with the
 prefix

---
 include/datastore/datastore.hpp |  4 ++++
 src/datastore/InMemory.cpp      | 19 +++++++++++--------
 src/datastore/LevelDB.cpp       | 12 +++++++-----
 src/datastore/RocksDB.cpp       | 12 +++++++-----
 src/datastore/datastore.cpp     | 15 +++++++++++++++
 5 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index 3578d86..f3f27b4 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -157,6 +157,10 @@ class Datastore {
                                     std::size_t predicate_len,
                                     hxhim_data_t predicate_type);
 
+        /* the first key that is past all keys starting with the prefix, or an empty string if there is none */
+        static std::string BGetOp_get_prefix_end(const Blob &key,
+                                                 std::size_t prefix_len);
+
         template <typename Key_t, typename Value_t>
         static void BGetOp_copy_response(Transform::Callbacks *callbacks,
                                          const Key_t &key,
diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 6a5484c..f9e6813 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -294,28 +294,31 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string prefix((const char *) key.data(), prefix_len);
+                const std::string seek = BGetOp_get_prefix_end(key, prefix_len);
 
                 // find first key larger than the prefix
-                it = db.upper_bound(seek);
+                // an empty seek value means that there are no keys past the prefix
+                it = seek.size()?db.lower_bound(seek):db.end();
 
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it != db.end()) {
+                if (it != db.begin()) {
                     it--;
                 }
                 else {
-                    it = db.rbegin().base();
+                    it = db.end();
                 }
 
-                if (it != db.end()) {
+                if ((it != db.end()) && (it->first.compare(0, prefix_len, prefix) == 0)) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
-                        (it != db.rend().base()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, prefix) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
+                        if (it == db.begin()) {
+                            break;
+                        }
                         it--;
                     }
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 87ce8bf..c210112 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -336,21 +336,23 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string seek = BGetOp_get_prefix_end(key, prefix_len);
                 ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::leveldb::Slice(seek.data(), seek.size()));
+                // an empty seek value means that there are no keys past the prefix
+                if (seek.size()) {
+                    it->Seek(::leveldb::Slice(seek.data(), seek.size()));
+                }
 
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                if (seek.size() && it->Valid()) {
                     it->Prev();
                 }
                 else {
                     it->SeekToLast();
                 }
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index e7984ff..eeec8c4 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -336,21 +336,23 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string seek = BGetOp_get_prefix_end(key, prefix_len);
                 ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::rocksdb::Slice(seek.data(), seek.size()));
+                // an empty seek value means that there are no keys past the prefix
+                if (seek.size()) {
+                    it->Seek(::rocksdb::Slice(seek.data(), seek.size()));
+                }
 
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                if (seek.size() && it->Valid()) {
                     it->Prev();
                 }
                 else {
                     it->SeekToLast();
                 }
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 261cbbc..aaee256 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -516,6 +516,21 @@ std::string Datastore::Datastore::BGetOp_get_seek(const Blob &key,
     return seek;
 }
 
+std::string Datastore::Datastore::BGetOp_get_prefix_end(const Blob &key,
+                                                        std::size_t prefix_len) {
+    std::string end((char *) key.data(), prefix_len);
+
+    // nothing that starts with the prefix is larger than the prefix with its last byte incremented
+    while (end.size() && ((unsigned char) end.back() == 0xff)) {
+        end.pop_back();
+    }
+    if (end.size()) {
+        end.back()++;
+    }
+
+    return end;
+}
+
 void Datastore::Datastore::BGetOp_error_response(Message::Response::BGetOp *res,
                                                  const std::size_t i,
                                                  Blob &subject, Blob &predicate,
-- 
2.43.0


From 2f83cb6e2c51bcb2d236ac502674542254ab9770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:03 +0000
Subject: [PATCH 06/45] fix: GETOP LOWEST fails when no key has the prefix

---
 src/datastore/InMemory.cpp | 6 ++++--
 src/datastore/LevelDB.cpp  | 2 +-
 src/datastore/RocksDB.cpp  | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index f9e6813..7febd38 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -277,13 +277,15 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                 const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
                                                          req->predicates[i].data_type());
 
+                const std::string prefix((const char *) key.data(), prefix_len);
+
                 it = db.lower_bound(seek);
 
-                if (it != db.end()) {
+                if ((it != db.end()) && (it->first.compare(0, prefix_len, prefix) == 0)) {
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         (it != db.end()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, prefix) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         it++;
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index c210112..c467b91 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -321,7 +321,7 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
 
                 it->Seek(seek);
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         it->Valid() &&
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index eeec8c4..393f1ee 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -321,7 +321,7 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
 
                 it->Seek(seek);
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         it->Valid() &&
-- 
2.43.0


From 91de01ffd26aae9c4e7ed9675c10237f43941cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:14 +0000
Subject: [PATCH 07/45] fix: GETOP with num_recs 0 wrote through null arrays

---
 src/datastore/datastore.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index aaee256..5dd5b62 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -451,9 +451,11 @@ void Datastore::Datastore::BGetOp_loop_init(Message::Request::BGetOp *req,
     // does not modify serialized size
     // set status early so failures during copy will change the status
     // all responses for this Op share a status
-    res->add(alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
+    // there is always space for one record: EQ ignores num_recs, and failures return the subject and predicate
+    const std::size_t space = req->num_recs[i]?req->num_recs[i]:1;
+    res->add(alloc_array<Blob>(space),
+             alloc_array<Blob>(space),
+             alloc_array<Blob>(space),
              0,
              DATASTORE_UNSET);
 
-- 
2.43.0


From ec808211501932beeff7703df97eef039b679caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:21 +0000
Subject: [PATCH 08/45] fix: GETOP leaked partially decoded records

---
 include/datastore/datastore.tpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/datastore/datastore.tpp b/include/datastore/datastore.tpp
index e97c85e..8c9230a 100644
--- a/include/datastore/datastore.tpp
+++ b/include/datastore/datastore.tpp
@@ -62,6 +62,13 @@ void Datastore::Datastore::BGetOp_copy_response(Transform::Callbacks *callbacks,
             event.size += key.size() + value.size();
         }
         else {
+            // clean up values that were decoded before the failure
+            if (subject != encoded_subject.data()) {
+                dealloc(subject);
+            }
+            if (predicate != encoded_predicate.data()) {
+                dealloc(predicate);
+            }
             res->statuses[i] = DATASTORE_ERROR;
         }
     }
-- 
2.43.0


From c1de74ccd07a2dfa7088a750eaaa5eda96c9c3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:33 +0000
Subject: [PATCH 09/45] fix: PUTs that could not be encoded are not reported as
 successful

---
 src/datastore/LevelDB.cpp | 2 +-
 src/datastore/RocksDB.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index c467b91..f0de9ae 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::LevelDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:DATASTORE_ERROR); // not in the batch
     }
 
     event.time.end = ::Stats::now();
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 393f1ee..41bdfc3 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::RocksDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:DATASTORE_ERROR); // not in the batch
     }
 
     event.time.end = ::Stats::now();
-- 
2.43.0


From 013d83fb133d1e3f25260b000b31f69030b899c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:33 +0000
Subject: [PATCH 10/45] fix: DELETEs that could not be encoded are not reported
 as successful

---
 src/datastore/LevelDB.cpp | 6 +++++-
 src/datastore/RocksDB.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index f0de9ae..897525b 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -423,6 +423,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR; // successful batching will set to DATASTORE_UNSET
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -432,8 +433,11 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::leveldb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            status = DATASTORE_UNSET;
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -449,7 +453,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:DATASTORE_ERROR); // not in the batch
     }
 
     event.time.end = ::Stats::now();
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 41bdfc3..d14c9f7 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -423,6 +423,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR; // successful batching will set to DATASTORE_UNSET
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -432,8 +433,11 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::rocksdb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            status = DATASTORE_UNSET;
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -449,7 +453,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:DATASTORE_ERROR); // not in the batch
     }
 
     event.time.end = ::Stats::now();
-- 
2.43.0


From 6da050c77aeae2ad87fd611595f05baac624ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:16 +0000
Subject: [PATCH 11/45] fix: numeric values that are too short are not read
 past their end

---
 include/datastore/transform.tpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/datastore/transform.tpp b/include/datastore/transform.tpp
index e446606..d8fa5fc 100644
--- a/include/datastore/transform.tpp
+++ b/include/datastore/transform.tpp
@@ -19,10 +19,10 @@ static void *copy(const std::string &str) {
 }
 
 template <typename T, typename = enable_if_t <std::is_integral<T>::value> >
-int integers(void *src, const size_t,
+int integers(void *src, const size_t src_size,
              void **dst, size_t *dst_size,
              void *extra) {
-    if (!src || !dst || !dst_size || !extra) {
+    if (!src || (src_size < sizeof(T)) || !dst || !dst_size || !extra) {
         return DATASTORE_ERROR;
     }
 
@@ -35,10 +35,10 @@ int integers(void *src, const size_t,
 }
 
 template <typename T, typename = enable_if_t <std::is_floating_point<T>::value> >
-int floating_point(void *src, const size_t,
+int floating_point(void *src, const size_t src_size,
                    void **dst, size_t *dst_size,
                    void *extra) {
-    if (!src || !dst || !dst_size || !extra) {
+    if (!src || (src_size < sizeof(T)) || !dst || !dst_size || !extra) {
         return DATASTORE_ERROR;
     }
 
-- 
2.43.0


From a2b4402d42a7630e7700479909e9efa5e0f96674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 12/45] fix: histogram bucket generators are given the number
 of cached values, not the number of added values

---
 src/utils/Histogram.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index cca9aba..2738b18 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -212,8 +212,9 @@ int Histogram::Histogram::add(const double &value) {
     if (count_ >= first_n_) {
         if (!buckets_) {
             // generate the buckets and allocate space for the counts
-            if ((gen_(cache_, count_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
-                (gen_counts()                                    != HISTOGRAM_SUCCESS)) {
+            // (only the first first_n_ values have been cached)
+            if ((gen_(cache_, first_n_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+                (gen_counts()                                      != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
 
-- 
2.43.0


From 5002683b8cd7fd52266c2d8aa15ae194ddfafa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 13/45] fix: the upper bound of a histogram of negative values
 is the largest value

---
 src/utils/Histogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 2738b18..f7e963d 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -219,7 +219,7 @@ int Histogram::Histogram::add(const double &value) {
             }
 
             // initialize the upper bound
-            buckets_[size_] = std::numeric_limits<double>::min();
+            buckets_[size_] = std::numeric_limits<double>::lowest();
 
             // insert original data
             for(std::size_t i = 0; i < first_n_; i++) {
-- 
2.43.0


From 23409cce72b1e0522ce7bd1ae74fe2a6a1e8d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 14/45] fix: number of buckets of the Scott reference rule was
 negative or undefined

---
 src/utils/Histogram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index f7e963d..c6fe8fe 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -136,7 +136,8 @@ int histogram_scotts_normal_reference_rule(const double *first_n, const size_t n
     // width of a bin
     const double h = 3.5 * stdev / std::cbrt(n);
 
-    return generate_using_bin_count(min, max, (min - max) / h, buckets, size);
+    // identical values have no spread, and go into one bucket
+    return generate_using_bin_count(min, max, (h > 0)?std::ceil((max - min) / h):1, buckets, size);
 }
 
 int histogram_uniform_logn(const double *first_n, const size_t n, double **buckets, size_t *size, void *extra) {
-- 
2.43.0


From dcf67b5118df1b9b06bc248f56b4e6ab0161e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 15/45] fix: uniform_logn with a range of at most 1 had a
 negative or undefined number of buckets

---
 src/utils/Histogram.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index c6fe8fe..26538c8 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -149,7 +149,9 @@ int histogram_uniform_logn(const double *first_n, const size_t n, double **bucke
     double min, max;
     minmax(first_n, n, min, max);
 
-    return generate_using_bin_count(min, max, std::ceil((max - min) * std::log((std::size_t) (uintptr_t) extra) / std::log(max - min)), buckets, size);
+    // the logarithm of the range has to be positive; smaller ranges go into one bucket
+    const double range = max - min;
+    return generate_using_bin_count(min, max, (range > 1)?std::ceil(range * std::log((std::size_t) (uintptr_t) extra) / std::log(range)):1, buckets, size);
 }
 
 Histogram::Histogram::Histogram()
-- 
2.43.0


From 02979a4375661ad8d03f8c6141aa1368b00064d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:53 +0000
Subject: [PATCH 16/45] fix: stored histograms have a type like every other
 value, so that GETOP can walk over them

---
 src/datastore/InMemory.cpp | 3 ++-
 src/datastore/LevelDB.cpp  | 5 ++++-
 src/datastore/RocksDB.cpp  | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 7febd38..89b196b 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -437,7 +437,8 @@ int Datastore::InMemory::WriteHistogramsImpl() {
         hist.second->pack(&serial_hist, &serial_hist_len);
         ptrs.push_back(serial_hist);
 
-        db[key] = std::string((char *) serial_hist, serial_hist_len);
+        // all values are stored with their type
+        db[key] = append_type(serial_hist, serial_hist_len, hxhim_data_t::HXHIM_DATA_BYTE);
     }
 
     for(void *ptr : ptrs) {
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 897525b..d0fab55 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -482,8 +482,11 @@ int Datastore::LevelDB::WriteHistogramsImpl() {
         hist.second->pack(&serial_hist, &serial_hist_len);
         ptrs.push_back(serial_hist);
 
+        // all values are stored with their type
+        Blob value = append_type(serial_hist, serial_hist_len, hxhim_data_t::HXHIM_DATA_BYTE);
+
         batch.Put(::leveldb::Slice((char *) key.data(), key.size()),
-                  ::leveldb::Slice((char *) serial_hist, serial_hist_len));
+                  ::leveldb::Slice((char *) value.data(), value.size()));
     }
 
     ::leveldb::Status status = db->Write(::leveldb::WriteOptions(), &batch);
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index d14c9f7..9fed470 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -482,8 +482,11 @@ int Datastore::RocksDB::WriteHistogramsImpl() {
         hist.second->pack(&serial_hist, &serial_hist_len);
         ptrs.push_back(serial_hist);
 
+        // all values are stored with their type
+        Blob value = append_type(serial_hist, serial_hist_len, hxhim_data_t::HXHIM_DATA_BYTE);
+
         batch.Put(::rocksdb::Slice((char *) key.data(), key.size()),
-                  ::rocksdb::Slice((char *) serial_hist, serial_hist_len));
+                  ::rocksdb::Slice((char *) value.data(), value.size()));
     }
 
     ::rocksdb::Status status = db->Write(::rocksdb::WriteOptions(), &batch);
-- 
2.43.0


From 363fb761c38b5017a709e1875fc9c0e0f18f4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:01 +0000
Subject: [PATCH 17/45] fix: adding to a histogram read before its buckets
 existed called a null generator

---
 include/utils/Histogram.hpp  |  3 +++
 src/datastore/datastores.cpp |  5 +++++
 src/hxhim/hxhim.cpp          | 12 +++++++++---
 src/utils/Histogram.cpp      | 18 +++++++++++++++++-
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/include/utils/Histogram.hpp b/include/utils/Histogram.hpp
index f778ece..7a0d438 100644
--- a/include/utils/Histogram.hpp
+++ b/include/utils/Histogram.hpp
@@ -32,6 +32,9 @@ class Histogram {
         // Add a value to the histogram
         int add(const double &value);
 
+        // Set the bucket generator of a histogram that was unpacked
+        void set_generator(HistogramBucketGenerator_t generator, void *extra_args);
+
         int get_name(std::string &name) const;
         int get_name(const char **name, std::size_t *name_len) const;
 
diff --git a/src/datastore/datastores.cpp b/src/datastore/datastores.cpp
index 126d5a0..2f71ea3 100644
--- a/src/datastore/datastores.cpp
+++ b/src/datastore/datastores.cpp
@@ -124,6 +124,11 @@ Datastore::Init(hxhim_t *hx,
         const Datastore::Datastore::Histograms *existing = nullptr;
         ds->GetHistograms(&existing);
 
+        // histograms that were read do not know how to generate their buckets
+        for(Datastore::Datastore::Histograms::value_type const &hist : *existing) {
+            hist.second->set_generator(hist_config.generator, hist_config.extra_args);
+        }
+
         // construct histograms that don't exist
         for(std::string const &name : hx->p->histograms.names) {
             if (!read_histograms                          ||   // overwrite existing histogram
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index efe31c3..9d6967f 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -390,10 +390,16 @@ hxhim::Results *hxhim::ChangeDatastoreName(hxhim_t *hx, const std::string &basen
                    write_histograms,
                    read_histograms?&hx->p->histograms.names:nullptr);
 
-        if (create_missing) {
-            const ::Datastore::Datastore::Histograms *hists = nullptr;
-            ds->GetHistograms(&hists);
+        const ::Datastore::Datastore::Histograms *hists = nullptr;
+        ds->GetHistograms(&hists);
+
+        // histograms that were read do not know how to generate their buckets
+        for(::Datastore::Datastore::Histograms::value_type const &hist : *hists) {
+            hist.second->set_generator(hx->p->histograms.config.generator,
+                                       hx->p->histograms.config.extra_args);
+        }
 
+        if (create_missing) {
             for(std::string const &hist_name : hx->p->histograms.names) {
                 if (hists->find(hist_name) == hists->end()){
                     ds->AddHistogram(hist_name, hx->p->histograms.config);
diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 26538c8..9bc33cf 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -216,7 +216,9 @@ int Histogram::Histogram::add(const double &value) {
         if (!buckets_) {
             // generate the buckets and allocate space for the counts
             // (only the first first_n_ values have been cached)
-            if ((gen_(cache_, first_n_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+            // (unpacked histograms do not have a generator until they are given one)
+            if (!gen_                                                                    ||
+                (gen_(cache_, first_n_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
                 (gen_counts()                                      != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
@@ -240,6 +242,20 @@ int Histogram::Histogram::add(const double &value) {
     return HISTOGRAM_SUCCESS;
 }
 
+/**
+ * set_generator
+ * Sets the function used to generate buckets once
+ * enough values have been added. Needed by unpacked
+ * histograms whose buckets have not been generated yet.
+ *
+ * @param generator   the bucket generator
+ * @param extra_args  extra arguments for the generator
+ */
+void Histogram::Histogram::set_generator(HistogramBucketGenerator_t generator, void *extra_args) {
+    gen_ = generator;
+    extra_ = extra_args;
+}
+
 /**
  * get_name
  * Gets this histogram's name.
-- 
2.43.0


From f1df54d1bdcfe75b5cf9f5fd832c9c35141103e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:18 +0000
Subject: [PATCH 18/45] fix: histograms of datastores beyond the number of
 range servers could not be requested

---
 src/hxhim/ops/BHISTOGRAM.cpp | 2 +-
 src/hxhim/ops/HISTOGRAM.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/ops/BHISTOGRAM.cpp b/src/hxhim/ops/BHISTOGRAM.cpp
index 699f2bd..fb576ba 100644
--- a/src/hxhim/ops/BHISTOGRAM.cpp
+++ b/src/hxhim/ops/BHISTOGRAM.cpp
@@ -22,7 +22,7 @@ int hxhim::BHistogram(hxhim_t *hx,
 
     for(std::size_t i = 0; i < count; i++) {
         if ((rs_ids[i] < 0) ||
-            (rs_ids[i] >= (int) hx->p->range_server.total_range_servers)) {
+            (rs_ids[i] >= (int) hx->p->range_server.datastores.total)) {
             return HXHIM_ERROR;
         }
 
diff --git a/src/hxhim/ops/HISTOGRAM.cpp b/src/hxhim/ops/HISTOGRAM.cpp
index de1a19b..1d2141c 100644
--- a/src/hxhim/ops/HISTOGRAM.cpp
+++ b/src/hxhim/ops/HISTOGRAM.cpp
@@ -13,7 +13,7 @@ int hxhim::Histogram(hxhim_t *hx, int rs_id,
                      const char *name, const std::size_t len) {
     if (!started(hx) ||
         (rs_id < 0)  ||
-        (rs_id >= (int) hx->p->range_server.total_range_servers)) {
+        (rs_id >= (int) hx->p->range_server.datastores.total)) {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From f9bb6a1da9a587d1ae29462fa8b6b7def10e8c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:23 +0000
Subject: [PATCH 19/45] fix: packets for several datastores of one remote rank
 replaced each other and were lost

---
 include/hxhim/private/process.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index a677510..13c5fab 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -53,6 +53,12 @@ hxhim::Results *process(hxhim_t *hx,
                 continue;
             }
 
+            // only one packet is sent to each rank at a time, so packets for
+            // other datastores on the same rank have to wait for the next round
+            if (remote.find(hx->p->queues.ds_to_rank[ds]) != remote.end()) {
+                continue;
+            }
+
             Request_t *req = queues[ds].front();
             queues[ds].pop_front();
 
-- 
2.43.0


From 4b393e516ee8ca63c0350aea98868c2e68d1b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:38 +0000
Subject: [PATCH 20/45] fix: sizes of packed addresses, types and operations
 were not counted towards the maximum size per request

---
 src/hxhim/ops/impl.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index 41c9911..14f8df5 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -59,6 +59,7 @@ Request_t *setup_packet(hxhim_t *hx, hxhim::QueueTarget<Request_t> &queue, const
  * @param queue      the queue to push into
  * @param subject    the subject to hash
  * @param predicate  the predicate to hash
+ * @param extra_size the size of everything packed with the subject and predicate
  * @param insert     the insert timerstamps - only start is filled
  * @return pointer to a packet with space for a new set of data
  */
@@ -66,7 +67,8 @@ template <typename Request_t,
           typename = enable_if_t <is_child_of <Message::Request::Request, Request_t>::value> >
 Request_t *get_packet(hxhim_t *hx,
                       hxhim::Queues<Request_t> &queues,
-                      const Blob &subject, const Blob &predicate) {
+                      const Blob &subject, const Blob &predicate,
+                      const size_t extra_size) {
     ::Stats::Chronostamp hash;
     hash.start = ::Stats::now();
 
@@ -85,7 +87,8 @@ Request_t *get_packet(hxhim_t *hx,
     ::Stats::Chronopoint insert_start = ::Stats::now();
 
     // set up the packet this triple should be placed into
-    Request_t *req = setup_packet(hx, queues[rs_id], subject.pack_size(true) + predicate.pack_size(true));
+    Request_t *req = setup_packet(hx, queues[rs_id],
+                                   subject.pack_size(true) + predicate.pack_size(true) + extra_size);
     req->timestamps.reqs[req->count].hash = hash;
     req->timestamps.reqs[req->count].insert.start = insert_start;
     return req;
@@ -178,7 +181,8 @@ int hxhim::PutImpl(hxhim_t *hx,
         Message::Request::BPut *put = setup_packet(hx, puts[rs_id],
                                                    sub->pack_size(true) +
                                                    pred->pack_size(true) +
-                                                   obj->pack_size(true));
+                                                   obj->pack_size(true) +
+                                                   2 * sizeof(void *));
         put->add(*sub, *pred, *obj);
         hx->p->queues.puts.count++; // mutex is locked by caller
 
@@ -213,8 +217,10 @@ int hxhim::GetImpl(hxhim_t *hx,
                    enum hxhim_data_t object_type) {
     mlog(HXHIM_CLIENT_DBG, "GET Start");
 
+    // object type and original addresses are also packed
     Message::Request::BGet *get = get_packet(hx, gets,
-                                             subject, predicate);
+                                             subject, predicate,
+                                             sizeof(object_type) + 2 * sizeof(void *));
     if (!get) {
         return HXHIM_ERROR;
     }
@@ -252,7 +258,8 @@ int hxhim::GetOpImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "GETOP Start");
 
     Message::Request::BGetOp *getop = get_packet(hx, getops,
-                                                 subject, predicate);
+                                                 subject, predicate,
+                                                 sizeof(object_type) + sizeof(num_records) + sizeof(op));
     if (!getop) {
         return HXHIM_ERROR;
     }
@@ -284,7 +291,8 @@ int hxhim::DeleteImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "DELETE Start");
 
     Message::Request::BDelete *del = get_packet(hx, dels,
-                                                subject, predicate);
+                                                subject, predicate,
+                                                2 * sizeof(void *));
     if (!del) {
         return HXHIM_ERROR;
     }
-- 
2.43.0


From 04e36ba765f4bbb8573b1dceab53c0d3de0cdfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:24 +0000
Subject: [PATCH 21/45] fix: BGetOpSingleType refused every valid call and its
 C form was not the declared function

---
 src/hxhim/ops/single_type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 8033e4e..877628d 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -113,7 +113,7 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     if (!started(hx) ||
         !subjects    || !subject_lens   ||
         !predicates  || !predicate_lens ||
-        !num_records || ops)             {
+        !num_records || !ops)            {
         return HXHIM_ERROR;
     }
 
@@ -136,7 +136,7 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     return HXHIM_SUCCESS;
 }
 
-int hxhimBGetOPSingleType(hxhim_t *hx,
+int hxhimBGetOpSingleType(hxhim_t *hx,
                           void **subjects, size_t *subject_lens, enum hxhim_data_t *subject_types,
                           void **predicates, size_t *predicate_lens, enum hxhim_data_t *predicate_types,
                           enum hxhim_data_t object_type,
-- 
2.43.0


From 0cb607003a1de93523922e73819dbcd9ab0ba1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:38 +0000
Subject: [PATCH 22/45] fix: results of PUTs processed while queueing (no
 background thread) were never returned

---
 src/hxhim/ops/FLUSH.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 37927da..2f3fde6 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -41,14 +41,14 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
         // wait for the background thread to finish
         hxhim::wait_for_background_puts(hx, false);
 
-        // move internal results to res to give to caller
-        res->Append(hx->p->async_puts.results);
-        destruct(hx->p->async_puts.results);
-        hx->p->async_puts.results = nullptr;
-
         hx->p->queues.puts.mutex.lock();
     }
 
+    // move internal results (background or serial PUTs) to res to give to caller
+    res->Append(hx->p->async_puts.results);
+    destruct(hx->p->async_puts.results);
+    hx->p->async_puts.results = nullptr;
+
     // append new results to old results
     hxhim::Results *put_results =
         FlushImpl<Message::Request::BPut,
-- 
2.43.0


From e6cd526ed394899f06905502344469f8100b3c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:41 +0000
Subject: [PATCH 23/45] fix: GetDatastoreLocation passed its arguments to the
 wrong function

---
 src/hxhim/accessors.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hxhim/accessors.cpp b/src/hxhim/accessors.cpp
index 9bc275a..4561210 100644
--- a/src/hxhim/accessors.cpp
+++ b/src/hxhim/accessors.cpp
@@ -1,4 +1,4 @@
-#include "hxhim/RangeServer.hpp"
+#include "hxhim/Datastore.hpp"
 #include "hxhim/accessors.hpp"
 #include "hxhim/private/accessors.hpp"
 #include "hxhim/private/hxhim.hpp"
@@ -288,10 +288,11 @@ int hxhim::nocheck::GetDatastoreLocation(hxhim_t *hx, const int id, int *rank, i
     }
 
     if (rank) {
-        *rank = RangeServer::get_rank(id,
-                                      hx->p->range_server.client_ratio,
-                                      hx->p->range_server.server_ratio,
-                                      hx->p->range_server.datastores.per_server);
+        *rank = Datastore::get_rank(id,
+                                    hx->p->bootstrap.size,
+                                    hx->p->range_server.client_ratio,
+                                    hx->p->range_server.server_ratio,
+                                    hx->p->range_server.datastores.per_server);
         if (*rank < 0) {
             return HXHIM_ERROR;
         }
-- 
2.43.0


From a7dd0c65818d9581c3123f67c2f9b799f3fdccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:45 +0000
Subject: [PATCH 24/45] fix: ChangeHash opened every datastore under the same
 name without closing the previous one

---
 src/hxhim/hxhim.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index 9d6967f..13aa2a2 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -310,18 +310,33 @@ hxhim::Results *hxhim::ChangeHash(hxhim_t *hx, const std::string &name, hxhim_ha
     MPI_Barrier(hx->p->bootstrap.comm);
 
     // change hashes
+    hx->p->hash.name = name;
     hx->p->hash.func = func;
     hx->p->hash.args = args;
 
-    for(std::size_t i = 0; i < hx->p->range_server.datastores.ds.size(); i++) {
+    for(::Datastore::Datastore *ds : hx->p->range_server.datastores.ds) {
         // change datastores
         std::stringstream s;
-        s << name << "-" << Datastore::get_id(hx->p->bootstrap.rank,
-                                              hx->p->bootstrap.size,
-                                              hx->p->range_server.client_ratio,
-                                              hx->p->range_server.server_ratio,
-                                              i);
-        hx->p->range_server.datastores.ds[i]->Open(s.str());
+        s << name << "-" << ds->ID();
+        ds->Change(s.str(),
+                   hx->p->histograms.write,
+                   hx->p->histograms.read?&hx->p->histograms.names:nullptr);
+
+        const ::Datastore::Datastore::Histograms *hists = nullptr;
+        ds->GetHistograms(&hists);
+
+        // histograms that were read do not know how to generate their buckets
+        for(::Datastore::Datastore::Histograms::value_type const &hist : *hists) {
+            hist.second->set_generator(hx->p->histograms.config.generator,
+                                       hx->p->histograms.config.extra_args);
+        }
+
+        // create histograms that were not read
+        for(std::string const &hist_name : hx->p->histograms.names) {
+            if (hists->find(hist_name) == hists->end()) {
+                ds->AddHistogram(hist_name, hx->p->histograms.config);
+            }
+        }
     }
 
     MPI_Barrier(hx->p->bootstrap.comm);
-- 
2.43.0


From 01eb28145fc2b140c3784e97c21b3ff034b1cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:18 +0000
Subject: [PATCH 25/45] fix: a GETOP result without records was freed while in
 use

---
 src/hxhim/Results.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 1e6a510..52551b8 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -195,10 +195,11 @@ hxhim::Result::GetOp *hxhim::Result::init(hxhim_t *hx, Message::Response::BGetOp
     }
 
     // drop last item (empty)
+    // if there were no records, top is the only item
     if (prev) {
         prev->next = nullptr;
+        destruct(curr);
     }
-    destruct(curr);
 
     return top;
 }
-- 
2.43.0


From 714e6591be0eba7ebf13b9ffd0e8f26385cffbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:23 +0000
Subject: [PATCH 26/45] fix: results of background PUTs could be used while
 they were being moved out

---
 src/hxhim/init.cpp      |  3 ++-
 src/hxhim/ops/FLUSH.cpp | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 614f0a9..6d95072 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -262,6 +262,8 @@ static void async_put_thread(hxhim_t *hx) {
 
         // store results in hxhim instance
         {
+            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
+
             if (hx->p->async_puts.results) {
                 hx->p->async_puts.results->Append(results);
                 destruct(results);
@@ -270,7 +272,6 @@ static void async_put_thread(hxhim_t *hx) {
                 hx->p->async_puts.results = results;
             }
 
-            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
             hx->p->async_puts.done_check = true;
         }
 
diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 2f3fde6..071ed72 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -40,14 +40,20 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
     if (hx->p->async_puts.enabled) {
         // wait for the background thread to finish
         hxhim::wait_for_background_puts(hx, false);
-
-        hx->p->queues.puts.mutex.lock();
     }
 
     // move internal results (background or serial PUTs) to res to give to caller
-    res->Append(hx->p->async_puts.results);
-    destruct(hx->p->async_puts.results);
-    hx->p->async_puts.results = nullptr;
+    {
+        // the background thread might be running again
+        std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
+        res->Append(hx->p->async_puts.results);
+        destruct(hx->p->async_puts.results);
+        hx->p->async_puts.results = nullptr;
+    }
+
+    if (hx->p->async_puts.enabled) {
+        hx->p->queues.puts.mutex.lock();
+    }
 
     // append new results to old results
     hxhim::Results *put_results =
-- 
2.43.0


From 6a748f528b07a1466cd0f732739c350de2c78498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:50 +0000
Subject: [PATCH 27/45] fix: statistics were updated by two threads at once

---
 include/hxhim/private/Stats.hpp   | 5 +++++
 include/hxhim/private/process.hpp | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/private/Stats.hpp b/include/hxhim/private/Stats.hpp
index 1fea7d8..f9914e4 100644
--- a/include/hxhim/private/Stats.hpp
+++ b/include/hxhim/private/Stats.hpp
@@ -3,6 +3,7 @@
 
 #include <map>
 #include <list>
+#include <mutex>
 #include <ostream>
 
 #include "hxhim/constants.h"
@@ -19,6 +20,10 @@ struct Global {
     // how long each bulk operation called by the user took
     std::map<enum hxhim_op_t, std::list<::Stats::Chronostamp> > bulk_op;
 
+    // guards used and outgoing, which are updated by both
+    // the user's thread and the background PUT thread
+    std::mutex mutex;
+
     // how many entries of a message packet were used before sending
     // max number of entries per message should never change
     std::map<enum hxhim_op_t, std::list<std::size_t> > used;
diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index 13c5fab..cec4748 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -1,6 +1,8 @@
 #ifndef PROCESS_HPP
 #define PROCESS_HPP
 
+#include <mutex>
+
 #include "hxhim/private/Results.hpp"
 #include "hxhim/private/hxhim.hpp"
 #include "transport/backend/local/RangeServer.hpp"
@@ -77,8 +79,11 @@ hxhim::Results *process(hxhim_t *hx,
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_start = ::Stats::now();
             #endif
-            hx->p->stats.used[req->op].push_back(req->filled());
-            hx->p->stats.outgoing[req->op][req->dst]++;
+            {
+                std::lock_guard<std::mutex> stats_lock(hx->p->stats.mutex);
+                hx->p->stats.used[req->op].push_back(req->filled());
+                hx->p->stats.outgoing[req->op][req->dst]++;
+            }
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_end = ::Stats::now();
             ::Stats::print_event(hx->p->print_buffer, rank, "collect_stats",
-- 
2.43.0


From 0ba955b2a2a307ebb5a9c5a415848200b26587f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:46 +0000
Subject: [PATCH 28/45] fix: BPutSingleType queued PUTs without holding the
 lock of the background thread

---
 src/hxhim/ops/single_type.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 877628d..bc2bd72 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -23,6 +23,10 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
+    if (hx->p->async_puts.enabled) {
+        hx->p->queues.puts.mutex.lock();
+    }
+
     for(std::size_t i = 0; i < count; i++) {
         hxhim::PutImpl(hx,
                        hx->p->queues.puts.queue,
@@ -34,6 +38,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
 
     if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.start_processing.notify_all();
+        hx->p->queues.puts.mutex.unlock();
     }
     else {
         hxhim::serial_puts(hx);
-- 
2.43.0


From 162dd8904a7abce951fef77c0c5a7611749d613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:09 +0000
Subject: [PATCH 29/45] fix: after the first background PUT there were queues
 for range servers instead of datastores

---
 src/hxhim/init.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 6d95072..816867f 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -249,7 +249,7 @@ static void async_put_thread(hxhim_t *hx) {
 
             // reset PUT queues
             hx->p->queues.puts.queue.clear();
-            hx->p->queues.puts.queue.resize(hx->p->range_server.total_range_servers);
+            hx->p->queues.puts.queue.resize(hx->p->range_server.datastores.total);
             hx->p->queues.puts.count = 0;
             hx->p->queues.puts.flushed = false;
         }
-- 
2.43.0


From f3c2bd4ffc81eba17bd52df3efb85161ab280396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:17 +0000
Subject: [PATCH 30/45] fix: hxhimOpen returned HXHIM_SUCCESS when a datastore
 could not be opened

---
 include/hxhim/constants.h | 1 +
 src/hxhim/hxhim.cpp       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/hxhim/constants.h b/include/hxhim/constants.h
index 724c6bd..b476816 100644
--- a/include/hxhim/constants.h
+++ b/include/hxhim/constants.h
@@ -37,6 +37,7 @@ extern "C"
 #define HXHIM_OPEN_ERROR_PREFIX HXHIM_OPEN_ERROR
 
 enum hxhim_open_t {
+    HXHIM_OPEN_ERROR_OFFSET = HXHIM_ERROR, /* the errors start after (and are never) HXHIM_SUCCESS and HXHIM_ERROR */
     HXHIM_OPEN_ERROR_GEN(HXHIM_OPEN_ERROR_PREFIX, GENERATE_ENUM)
 };
 
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index 13aa2a2..a724843 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -8,6 +8,7 @@
 #include "utils/mlogfacs2.h"
 
 const char *HXHIM_OPEN_ERROR_STR[] = {
+    "", "", "", "HXHIM_SUCCESS", "HXHIM_ERROR", // values before the first HXHIM_OPEN_ERROR
     HXHIM_OPEN_ERROR_GEN(HXHIM_OPEN_ERROR_PREFIX, GENERATE_STR)
 };
 
-- 
2.43.0


From dcff531fb5cb15a1d3fc5f7dfade014574442fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:17 +0000
Subject: [PATCH 31/45] fix: closing a session that was never opened joined a
 background thread that does not exist

---
 src/hxhim/destroy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/destroy.cpp b/src/hxhim/destroy.cpp
index 8ee1e21..3817d6f 100644
--- a/src/hxhim/destroy.cpp
+++ b/src/hxhim/destroy.cpp
@@ -40,7 +40,10 @@ int hxhim::destroy::async_puts(hxhim_t *hx) {
     if (hx->p->async_puts.enabled) {
         wait_for_background_puts(hx, true);
 
-        hx->p->async_puts.thread.join();
+        // the thread does not exist if the session was never opened
+        if (hx->p->async_puts.thread.joinable()) {
+            hx->p->async_puts.thread.join();
+        }
     }
 
     // release unproceesed results from asynchronous PUTs
-- 
2.43.0


From 865f279ad13b08140c6722a19be3d42ff62b5360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:17 +0000
Subject: [PATCH 32/45] fix: transform functions that return HXHIM_SUCCESS were
 taken as failed

---
 include/datastore/transform.tpp | 16 ++++++++--------
 src/datastore/datastore.cpp     |  6 ++++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/datastore/transform.tpp b/include/datastore/transform.tpp
index d8fa5fc..72d0dea 100644
--- a/include/datastore/transform.tpp
+++ b/include/datastore/transform.tpp
@@ -23,7 +23,7 @@ int integers(void *src, const size_t src_size,
              void **dst, size_t *dst_size,
              void *extra) {
     if (!src || (src_size < sizeof(T)) || !dst || !dst_size || !extra) {
-        return DATASTORE_ERROR;
+        return HXHIM_ERROR;
     }
 
     NumericExtra *num_extra = (NumericExtra *) extra;
@@ -31,7 +31,7 @@ int integers(void *src, const size_t src_size,
     const std::string encoded = elen::encode::integers(* (T *) src, num_extra->neg, num_extra->pos);
     *dst = copy(encoded);
     *dst_size = encoded.size();
-    return DATASTORE_SUCCESS;
+    return HXHIM_SUCCESS;
 }
 
 template <typename T, typename = enable_if_t <std::is_floating_point<T>::value> >
@@ -39,7 +39,7 @@ int floating_point(void *src, const size_t src_size,
                    void **dst, size_t *dst_size,
                    void *extra) {
     if (!src || (src_size < sizeof(T)) || !dst || !dst_size || !extra) {
-        return DATASTORE_ERROR;
+        return HXHIM_ERROR;
     }
 
     NumericExtra *num_extra = (NumericExtra *) extra;
@@ -49,7 +49,7 @@ int floating_point(void *src, const size_t src_size,
                                                              num_extra->neg, num_extra->pos);
     *dst = copy(encoded);
     *dst_size = encoded.size();
-    return DATASTORE_SUCCESS;
+    return HXHIM_SUCCESS;
 }
 
 }
@@ -61,7 +61,7 @@ int integers(void *src, const size_t src_size,
              void **dst, size_t *dst_size,
              void *extra) {
     if (!src || !dst || !extra) {
-        return DATASTORE_ERROR;
+        return HXHIM_ERROR;
     }
 
     NumericExtra *num_extra = (NumericExtra *) extra;
@@ -74,7 +74,7 @@ int integers(void *src, const size_t src_size,
 
     * (T *) *dst = elen::decode::integers<T>(std::string((const char *) src, src_size), nullptr,
                                              num_extra->neg, num_extra->pos);
-    return DATASTORE_SUCCESS;
+    return HXHIM_SUCCESS;
 }
 
 template <typename T, typename = enable_if_t <std::is_floating_point<T>::value> >
@@ -82,7 +82,7 @@ int floating_point(void *src, const size_t src_size,
                    void **dst, size_t *dst_size,
                    void *extra) {
     if (!src || !dst || !dst_size || !extra) {
-        return DATASTORE_ERROR;
+        return HXHIM_ERROR;
     }
 
     NumericExtra *num_extra = (NumericExtra *) extra;
@@ -95,7 +95,7 @@ int floating_point(void *src, const size_t src_size,
 
     * (T *) *dst = elen::decode::floating_point<T>(std::string((const char *) src, src_size),
                                                    num_extra->neg, num_extra->pos);
-    return DATASTORE_SUCCESS;
+    return HXHIM_SUCCESS;
 }
 
 }
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 5dd5b62..ba160c9 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -390,7 +390,8 @@ int Datastore::Datastore::encode(Transform::Callbacks *callbacks,
         return DATASTORE_SUCCESS;
     }
 
-    return it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    // callbacks return HXHIM_SUCCESS or HXHIM_ERROR
+    return (it->second.first(src.data(), src.size(), dst, dst_size, it->second.second) == HXHIM_SUCCESS)?DATASTORE_SUCCESS:DATASTORE_ERROR;
 }
 
 int Datastore::Datastore::decode(Transform::Callbacks *callbacks,
@@ -409,7 +410,8 @@ int Datastore::Datastore::decode(Transform::Callbacks *callbacks,
         return DATASTORE_SUCCESS;
     }
 
-    return it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    // callbacks return HXHIM_SUCCESS or HXHIM_ERROR
+    return (it->second.first(src.data(), src.size(), dst, dst_size, it->second.second) == HXHIM_SUCCESS)?DATASTORE_SUCCESS:DATASTORE_ERROR;
 }
 
 Datastore::Datastore::Stats::Event::Event()
-- 
2.43.0


From 4dc839433ed90dfd6868095fda4b4d53153258b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:17 +0000
Subject: [PATCH 33/45] fix: the default symbols for negative and positive
 numbers were not those of elen

---
 include/hxhim/config.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/config.hpp b/include/hxhim/config.hpp
index 72885d2..577c3e0 100644
--- a/include/hxhim/config.hpp
+++ b/include/hxhim/config.hpp
@@ -201,8 +201,8 @@ const Config::Config DEFAULT_CONFIG = {
     std::make_pair(HISTOGRAM_BUCKET_GEN_NAME,     "10_BUCKETS"),
     std::make_pair(HISTOGRAM_READ_EXISTING,       "true"),
     std::make_pair(HISTOGRAM_WRITE_AT_EXIT,       "true"),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::NEG_SYMBOL, 1)),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::POS_SYMBOL, 1)),
+    std::make_pair(ELEN_NEG_SYMBOL,               std::string(1, elen::NEG_SYMBOL)),
+    std::make_pair(ELEN_POS_SYMBOL,               std::string(1, elen::POS_SYMBOL)),
     std::make_pair(ELEN_ENCODE_FLOAT_PRECISION,   std::to_string(elen::encode::FLOAT_PRECISION)),
     std::make_pair(ELEN_ENCODE_DOUBLE_PRECISION,  std::to_string(elen::encode::DOUBLE_PRECISION)),
 };
-- 
2.43.0


From 322eb783e48f4cbdaa14ee50a4d0f7dcb107fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:17 +0000
Subject: [PATCH 34/45] fix: transform functions set by the user never replaced
 the default ones

---
 src/hxhim/init.cpp    | 4 ++--
 src/hxhim/options.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 816867f..40c1e1d 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -89,10 +89,10 @@ static ::Datastore::Transform::Callbacks *transform(hxhim_t *hx) {
 
     // overwrite existing callbacks with those set in opts
     for(decltype(transform.encode)::value_type const &callback : transform.encode) {
-        callbacks->encode.emplace(callback);
+        callbacks->encode[callback.first] = callback.second;
     }
     for(decltype(transform.decode)::value_type const &callback : transform.decode) {
-        callbacks->decode.emplace(callback);
+        callbacks->decode[callback.first] = callback.second;
     }
 
     return callbacks;
diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index f178f62..3daef6f 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -320,8 +320,8 @@ int hxhim_set_transform_function(hxhim_t *hx, const enum hxhim_data_t type,
         return HXHIM_ERROR;
     }
 
-    hx->p->range_server.datastores.transform.encode.emplace(type, std::make_pair(encode, encode_extra));
-    hx->p->range_server.datastores.transform.decode.emplace(type, std::make_pair(decode, decode_extra));
+    hx->p->range_server.datastores.transform.encode[type] = std::make_pair(encode, encode_extra);
+    hx->p->range_server.datastores.transform.decode[type] = std::make_pair(decode, decode_extra);
 
     return HXHIM_SUCCESS;
 }
-- 
2.43.0


From 216c6dfedceff6532dba0e3335b2cf4aa943d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:17 +0000
Subject: [PATCH 35/45] fix: OpenOne destroyed the configuration it needs and
 made no queues

---
 src/hxhim/init.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 40c1e1d..4757202 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -182,13 +182,10 @@ int hxhim::init::datastore(hxhim_t *hx) {
  * @return HXHIM_SUCCESS on success or HXHIM_ERROR
  */
 int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
-    if (destroy::datastore(hx) != HXHIM_SUCCESS) {
-        return HXHIM_ERROR;
-    }
-
     // ignore previous values
     hx->p->range_server.client_ratio = 1;
     hx->p->range_server.server_ratio = 1;
+    hx->p->range_server.datastores.per_server = 1;
 
     // ignore configuration hash - everything goes into here
     hx->p->hash.name = "local";
@@ -210,6 +207,7 @@ int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
     hx->p->range_server.id = 0;
     hx->p->range_server.datastores.ds.push_back(ds);
     hx->p->range_server.total_range_servers = 1;
+    hx->p->range_server.datastores.total = 1;
 
     return HXHIM_SUCCESS;
 }
-- 
2.43.0


From 540fe1d6d3988df395f6a04bdba1eed5fbfda98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:17 +0000
Subject: [PATCH 36/45] fix: hxhim_set_transport_mpi used a session that is not
 there

---
 src/hxhim/options.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index 3daef6f..07f64a1 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -373,6 +373,10 @@ int hxhim_set_transport_null(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim_set_transport_mpi(hxhim_t *hx, const size_t listeners) {
+    if (!hx || !hx->p) {
+        return HXHIM_ERROR;
+    }
+
     Transport::Options *config = construct<Transport::MPI::Options>(hx->p->bootstrap.comm, listeners);
     if (hxhim_set_transport(hx, config) != HXHIM_SUCCESS) {
         destruct(config);
-- 
2.43.0


From 31a69c3ff54e5483269700c6fd3e7f51e237d483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:17 +0000
Subject: [PATCH 37/45] fix: a list of endpoints was read forever and then
 refused

---
 src/hxhim/config.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 3b5da67..266ac5d 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -235,8 +235,9 @@ static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
             return true;
         }
         else {
+            std::stringstream s(endpointgroup->second);
             int id;
-            while (std::stringstream(endpointgroup->second) >> id) {
+            while (s >> id) {
                 if (hxhim_add_endpoint_to_group(hx, id) != HXHIM_SUCCESS) {
                     // should probably write to mlog and continue instead of returning
                     return false;
@@ -244,7 +245,7 @@ static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
             }
         }
     }
-    return false;
+    return true;
 }
 
 static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
-- 
2.43.0


From 7bf462ab843afda03669905b55876791d02b3b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:17 +0000
Subject: [PATCH 38/45] fix: settings of files and the environment were lost
 unless others were given as well

---
 src/hxhim/config.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 266ac5d..3136ace 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -386,6 +386,9 @@ int process_config_and_fill_options(hxhim_t *hx, Config::Sequence &sequence) {
     Config::Config config;
     sequence.process(config);
 
+    // settings that were not given keep their default values
+    config.insert(hxhim::config::DEFAULT_CONFIG.begin(), hxhim::config::DEFAULT_CONFIG.end());
+
     // fill hx with values from configuration
     return fill_options(hx, config);
 }
-- 
2.43.0


From fe832ba34b2cbdb4d2d2e79e7ed133d1ead1290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 39/45] fix: no message was ever sent over MPI

Packing and unpacking return MESSAGE_SUCCESS, which is not TRANSPORT_SUCCESS, so every message was taken as one that could not be packed.
---
 include/transport/backend/MPI/EndpointGroup.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index b7a53c7..f2b36e0 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -40,7 +40,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
 
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
-        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == TRANSPORT_SUCCESS) {
+        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
             dsts[pack_count] = msg->dst;
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
@@ -312,7 +312,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     std::size_t valid = 0;
     *messages = alloc_array<Recv_t *>(data_req_count);
     for(std::size_t i = 0; i < data_req_count; i++) {
-        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == TRANSPORT_SUCCESS) {
+        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
             valid++;
         }
 
-- 
2.43.0


From 80922123baf8160f898d1456aa793240297abd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:03 +0000
Subject: [PATCH 40/45] fix: MPI requests went to the rank with the number of
 the datastore

The id of the datastore was looked up as if it were the id of a range server, and the ranks to receive from were looked up as ids a second time.
---
 include/transport/backend/MPI/EndpointGroup.tpp | 2 +-
 src/transport/backend/MPI/Init.cpp              | 9 ++-------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index f2b36e0..09d26dd 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -41,7 +41,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
         if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
-            dsts[pack_count] = msg->dst;
+            dsts[pack_count] = msg->dst_rank;
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
         }
diff --git a/src/transport/backend/MPI/Init.cpp b/src/transport/backend/MPI/Init.cpp
index a5a0420..4f65fe6 100644
--- a/src/transport/backend/MPI/Init.cpp
+++ b/src/transport/backend/MPI/Init.cpp
@@ -35,21 +35,16 @@ Transport::Transport *Transport::MPI::init(hxhim_t *hx,
     EndpointGroup *eg = construct<EndpointGroup>(hx->p->bootstrap.comm,
                                                  hx->p->running);
 
-    // logical
-    int rs_id = 0;
-
-    // create mapping between logical IDs and endpoint ranks
+    // messages are sent to and received from ranks
     for(int i = 0; i < hx->p->bootstrap.size; i++) {
         if (hxhim::RangeServer::is_range_server(i, hx->p->bootstrap.size, client_ratio, server_ratio)) {
             if (hx->p->bootstrap.rank != i) { // skip adding the local range server
                 // if the rank was specified as part of the endpoint
                 // group, add the rank to the endpoint group
                 if (endpointgroup.find(i) != endpointgroup.end()) {
-                    eg->AddID(rs_id, i);
+                    eg->AddID(i, i);
                 }
             }
-
-            rs_id++;
         }
     }
 
-- 
2.43.0


From 2eff91bf7f486985e2747da352c58ae5229878e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:55 +0000
Subject: [PATCH 41/45] fix: the MPI listener leaked the contents of every
 request and response

Their destructors were not called.
---
 src/transport/backend/MPI/RangeServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index 6676fc7..755fc03 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -58,7 +58,7 @@ void RangeServer::listener_thread() {
 
         // process request
         Message::Response::Response *response = local::range_server(hx, request);
-        dealloc(request);
+        destruct(request);
 
         // encode result
         void *res = nullptr;
@@ -67,7 +67,7 @@ void RangeServer::listener_thread() {
 
         // send result
         const int ret = send(response->dst, res, len);
-        dealloc(response);
+        destruct(response);
         dealloc(res);
 
         if (ret != TRANSPORT_SUCCESS) {
-- 
2.43.0


From 614e65168beb8fb807ad1266745973971c8bf427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:42 +0000
Subject: [PATCH 42/45] fix: a rank that closed early left the requests of
 other ranks unanswered

The listeners stopped before the barrier of Close, so operations of ranks that were not closing yet waited forever, and a background PUT that was being sent when its own rank closed was unpacked from a response that had not arrived.
---
 src/hxhim/hxhim.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index a724843..d956379 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -242,6 +242,14 @@ int hxhim::Close(hxhim_t *hx) {
 
     mlog(HXHIM_CLIENT_INFO, "Rank %d Starting to shutdown HXHIM", rank);
 
+    // background PUTs need the range servers of the other ranks
+    if (hx->p->async_puts.thread.joinable()) {
+        wait_for_background_puts(hx, true);
+    }
+
+    // the other ranks might still need the range server of this rank
+    MPI_Barrier(comm);
+
     mlog(HXHIM_CLIENT_DBG, "Rank %d No longer accepting user input", rank);
     destroy::running(hx);
 
@@ -249,9 +257,6 @@ int hxhim::Close(hxhim_t *hx) {
     Results::Destroy(hxhim::Sync(hx));
     mlog(HXHIM_CLIENT_DBG, "Rank %d Closing HXHIM", rank);
 
-    // make sure all ranks are ready to stop
-    MPI_Barrier(comm);
-
     destroy::async_puts(hx); // complete existing processing and prevent new processing
     destroy::hash(hx);       // prevent new work from hashing properly
     destroy::queues(hx);     // clear queued work
-- 
2.43.0


From 74977a1c699d7a421c359d52c1d9076e5e0bda65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:22 +0000
Subject: [PATCH 43/45] fix: threads of one rank mixed up their messages over
 MPI

The background PUT thread and the user share the buffers of the endpoint group and the tags of responses.
---
 include/transport/backend/MPI/EndpointGroup.hpp | 4 ++++
 include/transport/backend/MPI/EndpointGroup.tpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index 9977d02..6e40dd3 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -2,6 +2,7 @@
 #define TRANSPORT_MPI_ENDPOINT_GROUP_HPP
 
 #include <atomic>
+#include <mutex>
 #include <unordered_map>
 
 #include <mpi.h>
@@ -65,6 +66,9 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
 
         volatile std::atomic_bool &running;
 
+        /** Messages and responses of different threads must not be mixed up */
+        std::mutex mutex;
+
         /** Memory that is only allocated once during the lifetime of EndpointGroup
             and is only used by one function at a time */
         std::size_t *lens; // buffer lengths
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 09d26dd..a3c6c58 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -334,6 +334,9 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
  */
 template<typename Recv_t, typename Send_t, typename>
 Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messages) {
+    // the background PUT thread and the user can get here at the same time
+    std::lock_guard<std::mutex> lock(mutex);
+
     mlog(MPI_DBG, "Maximum number of messages: %zu", messages.size());
 
     // return value here is not useful
-- 
2.43.0


From 065d7cabc03dff00f191a5ee3eec8addd1589bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:47 +0000
Subject: [PATCH 44/45] fix: ranks that sent each other large messages over MPI
 could wait for each other forever

A listener waited until its response had been received and did not receive requests meanwhile, although the receiver of the response might be waiting for its own request to be received first.
---
 include/transport/backend/MPI/RangeServer.hpp | 13 +++-
 src/transport/backend/MPI/RangeServer.cpp     | 77 ++++++++++++++-----
 2 files changed, 68 insertions(+), 22 deletions(-)

diff --git a/include/transport/backend/MPI/RangeServer.hpp b/include/transport/backend/MPI/RangeServer.hpp
index 1d179d9..e4b382e 100644
--- a/include/transport/backend/MPI/RangeServer.hpp
+++ b/include/transport/backend/MPI/RangeServer.hpp
@@ -1,6 +1,7 @@
 #ifndef TRANSPORT_MPI_RANGE_SERVER_HPP
 #define TRANSPORT_MPI_RANGE_SERVER_HPP
 
+#include <list>
 #include <thread>
 #include <vector>
 
@@ -25,7 +26,17 @@ class RangeServer : virtual public ::Transport::RangeServer {
         void listener_thread();
 
         int recv(void **data, std::size_t *len);
-        int send(const int dst, void *data, const std::size_t len);
+
+        /** A response that is being sent; owns the data */
+        struct Sending {
+            std::size_t len;
+            void *data;
+            MPI_Request size_req;
+            MPI_Request data_req;
+        };
+
+        int send(const int dst, void *data, const std::size_t len, std::list<Sending> &sending);
+        void cleanup(std::list<Sending> &sending, const bool all);
 
         int Flush(MPI_Request &req);
         int Flush(MPI_Request &req, MPI_Status &status);
diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index 755fc03..cf9f64b 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -43,7 +43,14 @@ RangeServer::~RangeServer() {
 void RangeServer::listener_thread() {
     //Mlog statements could cause a deadlock on range_server_stop due to canceling of threads
     mlog(MPI_INFO, "MPI Range Server Thread Started");
+    // Waiting for a response to be sent would leave the requests of
+    // other ranks waiting, which might have to be received before
+    // this response can be
+    std::list<Sending> sending;
+
     while (hx->p->running){
+        cleanup(sending, false);
+
         // wait for request
         void *req = nullptr;
         std::size_t len = 0;
@@ -65,15 +72,12 @@ void RangeServer::listener_thread() {
         len = 0;
         Message::Packer::pack(response, &res, &len);
 
-        // send result
-        const int ret = send(response->dst, res, len);
+        // start sending result
+        send(response->dst, res, len, sending);
         destruct(response);
-        dealloc(res);
-
-        if (ret != TRANSPORT_SUCCESS) {
-            continue;
-        }
     }
+
+    cleanup(sending, true);
     mlog(MPI_INFO, "MPI Range Server Thread Stopped");
 }
 
@@ -121,36 +125,67 @@ int RangeServer::recv(void **data, std::size_t *len) {
 
 /**
  * send
- * Sends a length followed by the data to the
- * given destination. Although MPI_Isend is
- * used, it is blocked on immediately after.
+ * Starts sending a length followed by the data
+ * to the given destination.
  *
- * @param dst  the destination of the data
- * @param data the data to receive
- * @param len  the length of the data
+ * @param dst     the destination of the data
+ * @param data    the data to send; released when it has been sent
+ * @param len     the length of the data
+ * @param sending the responses that are being sent
  * @return TRANSPORT_SUCCESS or TRANSPORT_ERROR on error
  */
-int RangeServer::send(const int dst, void *data, const std::size_t len) {
-    MPI_Request request = {};
+int RangeServer::send(const int dst, void *data, const std::size_t len, std::list<Sending> &sending) {
+    sending.emplace_back(Sending{len, data, MPI_REQUEST_NULL, MPI_REQUEST_NULL});
+    Sending &s = sending.back();
 
     // send the size of the data
     // mlog(MPI_DBG, "MPI Range Server sending size %zu", len);
-    if ((MPI_Isend(&len, sizeof(len), MPI_CHAR, dst, TRANSPORT_MPI_SIZE_RESPONSE_TAG, hx->p->bootstrap.comm, &request) != MPI_SUCCESS) ||
-        (Flush(request) != TRANSPORT_SUCCESS)) {
+    if (MPI_Isend(&s.len, sizeof(s.len), MPI_CHAR, dst, TRANSPORT_MPI_SIZE_RESPONSE_TAG, hx->p->bootstrap.comm, &s.size_req) != MPI_SUCCESS) {
         return TRANSPORT_ERROR;
     }
 
-    // wait for the data
+    // send the data
     // mlog(MPI_DBG, "MPI Range Server sending data");
-    if ((MPI_Isend(data, len, MPI_CHAR, dst, TRANSPORT_MPI_DATA_RESPONSE_TAG, hx->p->bootstrap.comm, &request) != MPI_SUCCESS) ||
-        (Flush(request) != TRANSPORT_SUCCESS)) {
+    if (MPI_Isend(s.data, s.len, MPI_CHAR, dst, TRANSPORT_MPI_DATA_RESPONSE_TAG, hx->p->bootstrap.comm, &s.data_req) != MPI_SUCCESS) {
         return TRANSPORT_ERROR;
     }
 
-    // mlog(MPI_DBG, "MPI Range Server send done");
+    // mlog(MPI_DBG, "MPI Range Server send started");
     return TRANSPORT_SUCCESS;
 }
 
+/**
+ * cleanup
+ * Releases responses that have been sent
+ *
+ * @param sending  the responses that are being sent
+ * @param all      release responses that have not been sent as well
+ */
+void RangeServer::cleanup(std::list<Sending> &sending, const bool all) {
+    for(std::list<Sending>::iterator it = sending.begin(); it != sending.end();) {
+        int size_sent = 0;
+        int data_sent = 0;
+        MPI_Test(&it->size_req, &size_sent, MPI_STATUS_IGNORE);
+        MPI_Test(&it->data_req, &data_sent, MPI_STATUS_IGNORE);
+
+        if (!all && (!size_sent || !data_sent)) {
+            ++it;
+            continue;
+        }
+
+        if (!size_sent) {
+            MPI_Request_free(&it->size_req);
+        }
+
+        if (!data_sent) {
+            MPI_Request_free(&it->data_req);
+        }
+
+        dealloc(it->data);
+        it = sending.erase(it);
+    }
+}
+
 /**
  * Flush
  * Tests a request until it is completed.
-- 
2.43.0


From e52e3fb0cb6ead2d7ee6ce4600671fb58a00c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:42 +0000
Subject: [PATCH 45/45] fix: mkdir_p creates single character directories

---
 src/utils/mkdir_p.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/mkdir_p.cpp b/src/utils/mkdir_p.cpp
index 417c0d6..e3092b4 100644
--- a/src/utils/mkdir_p.cpp
+++ b/src/utils/mkdir_p.cpp
@@ -9,7 +9,8 @@ int mkdir_p(const std::string & path, const mode_t mode, const char sep) {
     memcpy(copy, path.c_str(), path.size());
     copy[path.size()] = '\0';
 
-    size_t i = 1;
+    // skip the root directory
+    size_t i = ((path.size() && (path[0] == sep))?1:0);
     while (i < path.size()) {
         while ((i < path.size()) &&
                (copy[i] != sep)) {
-- 
2.43.0

