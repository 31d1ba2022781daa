From b7fe3a7fb9fcb74ef1767be6503189fe27611add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 01/63] fix: keep reading older files when the newest one only
 has later values

---
 database/files/metric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 562a5dd..44fd7b8 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -360,7 +360,7 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 				return false, err
 			}
 			if meta.SmallestEnd >= end {
-				return false, nil
+				return true, nil
 			}
 
 			capacity := f.Capacity()
-- 
2.43.0


From 5c1b098281bf2c8dc0147347e8e1d0ee33bd8328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 02/63] fix: refuse a value that can never fit before rotating
 files for it

---
 database/files/metric.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 44fd7b8..625b799 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -246,11 +246,13 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		return false, Error.New("unable to compute number of records")
 	}
 	if head-nr < 0 {
-		last_rec := f.Capacity() - 1
-
-		// if this is the first write to an empty file, then we will not be
-		// able to write it.
-		if m.last == 1 && head == last_rec {
+		// if the value would not fit in a new empty file, then we will never
+		// be able to write it. check that before removing anything.
+		nr = numRecords(len(data), m.opts.fch.opts.Size)
+		if nr == 0 {
+			return false, Error.New("unable to compute number of records")
+		}
+		if nr > m.opts.fch.opts.Cap {
 			return false, Error.New("value too large for empty file")
 		}
 
-- 
2.43.0


From 9bcf2382f327115a2c0f4ff24ee696c2794755a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 03/63] fix: evict the handle of an empty data file before
 removing it

---
 database/files/metric.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 625b799..43ff6b3 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -196,8 +196,9 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 		// there exists one.
 		if head == f.Capacity()-1 && m.last > m.first {
 			// since this file is empty and there is an earlier file, we should
-			// remove it.
+			// remove it. make sure no handle to it stays in the cache.
 			m.opts.fch.releaseFile(path, f)
+			m.opts.fch.evictFile(path)
 			os.Remove(path)
 			m.last--
 
-- 
2.43.0


From dc2342be12cf32a3a37586519d21989c18f19ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 04/63] fix: do not lose the value stored before an incomplete
 one

---
 database/files/metric.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/database/files/metric.go b/database/files/metric.go
index 43ff6b3..e7c6bbb 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -448,6 +448,16 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 						continue new_record
 					}
 
+					// if the value was cut short, this record is the start of
+					// an older value, so back up to read it as one.
+					if rec.kind == recordKind_begin ||
+						rec.kind == recordKind_complete {
+
+						head--
+						external.Errorw("incomplete value")
+						continue new_record
+					}
+
 					buf = append(buf, rec.data...)
 
 					if rec.kind == recordKind_continue {
-- 
2.43.0


From 4455008afcfce2d92b31b18c2eaa3d72bbacb753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 05/63] fix: keep a metric writable when its newest record
 cannot be read

---
 database/files/metric.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index e7c6bbb..b192c94 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -229,15 +229,21 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	// point head at the first valid record (or out of bounds at the capacity)
 	head++
 
-	// if the last file has a record, ensure monotonicity with it.
-	if f.HasRecord(ctx, head) {
-		last_rec, err := f.Record(ctx, head)
+	// if the last file has a record, ensure monotonicity with it. records that
+	// cannot be read (torn writes, checksums, etc) are skipped, like in Read,
+	// because they will never become readable.
+	for n := head; n < f.Capacity(); n++ {
+		last_rec, err := f.Record(ctx, n)
 		if err != nil {
-			return false, err
+			external.Errorw("error reading record",
+				"err", err,
+			)
+			continue
 		}
 		if last_rec.end >= end {
 			return false, nil
 		}
+		break
 	}
 
 	// ensure we have capacity to write the value in the last file and create
-- 
2.43.0


From 3741bf868793e3a08921fd589615e871baee6320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 06/63] fix: initialize new data files completely before giving
 them their name

---
 database/files/file.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/database/files/file.go b/database/files/file.go
index 88f3395..4d4b631 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -32,11 +32,19 @@ type file struct {
 func createFile(ctx context.Context, path string, size, cap int) (
 	f file, err error) {
 
-	fh, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	// set the file up under a temporary name so that a failure or a crash does
+	// not leave a partially initialized data file behind.
+	tmp := path + ".tmp"
+	fh, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return file{}, Error.Wrap(err)
 	}
 	defer fh.Close()
+	defer func() {
+		if err != nil {
+			os.Remove(tmp)
+		}
+	}()
 	fd := int(fh.Fd())
 
 	// these overflow checks might be too restrictive, but i think it will
@@ -68,9 +76,15 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		Head:  cap - 1,
 	})
 	if err != nil {
+		system.Munmap(data, len)
 		return file{}, err
 	}
 
+	if err := os.Rename(tmp, path); err != nil {
+		system.Munmap(data, len)
+		return file{}, Error.Wrap(err)
+	}
+
 	return file{
 		data: data,
 		len:  len,
-- 
2.43.0


From 58aa079904b42722aa416f51a19dc9a247510c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 07/63] fix: do not create a data file when reading a metric or
 refusing a value

---
 database/files/metric.go | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index b192c94..9fd5a39 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -135,18 +135,11 @@ func newMetric(ctx context.Context, opts metricOptions) (*metric, error) {
 		}
 	}
 
-	// if we didn't set the first, create an empty file at 1. this simplifies
-	// the logic because we can from now on assume that at least one possibly
-	// empty file exists.
+	// if we didn't set the first, there are no files yet. they are numbered
+	// from 1, and the first one is created when there is a value to write, so
+	// that looking at a metric never brings it into existence.
 	if !first_set {
-		path := fb.metricFilenameAt(dir, 1)
-		f, err := opts.fch.acquireFile(ctx, path, false)
-		if err != nil {
-			return nil, err
-		}
-		opts.fch.releaseFile(path, f)
-
-		first, last = 1, 1
+		first, last = 1, 0
 	}
 
 	return &metric{
@@ -219,12 +212,17 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	ok bool, err error) {
 
-	// acquire the last file and determine where the head pointer is for it.
-	f, head, err := m.acquireLast(ctx)
-	if err != nil {
-		return false, err
+	// acquire the last file and determine where the head pointer is for it. if
+	// there is no file yet, there is no room for any record.
+	var f file
+	head := -1
+	if m.last >= m.first {
+		f, head, err = m.acquireLast(ctx)
+		if err != nil {
+			return false, err
+		}
+		defer m.opts.fch.releaseFile(m.filenameAt(m.last), f)
 	}
-	defer m.opts.fch.releaseFile(m.filenameAt(m.last), f)
 
 	// point head at the first valid record (or out of bounds at the capacity)
 	head++
@@ -249,10 +247,7 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	// ensure we have capacity to write the value in the last file and create
 	// a new file if necessary.
 	nr := numRecords(len(data), f.Size())
-	if nr == 0 {
-		return false, Error.New("unable to compute number of records")
-	}
-	if head-nr < 0 {
+	if head-nr < 0 || nr == 0 {
 		// if the value would not fit in a new empty file, then we will never
 		// be able to write it. check that before removing anything.
 		nr = numRecords(len(data), m.opts.fch.opts.Size)
-- 
2.43.0


From 70da3deb4abf75fcc2c3bab1ee8c39cb4a613f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 08/63] fix: account for values stored before a crash when
 updating file metadata

---
 database/files/metric.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/database/files/metric.go b/database/files/metric.go
index 9fd5a39..5c10f67 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -324,6 +324,13 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		meta.SmallestEnd = end
 	}
 
+	// the file may already hold an earlier value that the metadata does not
+	// account for, if we crashed after storing it. the oldest one is last.
+	oldest, err := f.Record(ctx, f.Capacity()-1)
+	if err == nil && oldest.end < meta.SmallestEnd {
+		meta.SmallestEnd = oldest.end
+	}
+
 	err = f.SetMetadata(ctx, meta)
 	if err != nil {
 		return true, err
-- 
2.43.0


From 29a6cc641361166093d13ce3d6b088cec96d9086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 09/63] fix: recover from a metadata update torn by a crash

---
 database/files/file.go         |  7 ++++++-
 database/files/file_helpers.go | 27 +++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/database/files/file.go b/database/files/file.go
index 4d4b631..37e62a0 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -124,10 +124,15 @@ func openFile(ctx context.Context, path string) (f file, err error) {
 	// file.
 	meta, err := readMetadata(slice(data, len))
 	if err != nil {
+		meta, err = recoverMetadata(slice(data, len), err)
+	}
+	if err != nil {
+		system.Munmap(data, len)
 		return f, err
 	}
 
-	if meta.Size_ < recordHeaderSize {
+	if meta.Size_ < recordHeaderSize || len < 2*meta.Size_ {
+		system.Munmap(data, len)
 		return f, Error.New("possible corruption: invalid size")
 	}
 
diff --git a/database/files/file_helpers.go b/database/files/file_helpers.go
index a5b0b0f..15d02d1 100644
--- a/database/files/file_helpers.go
+++ b/database/files/file_helpers.go
@@ -3,6 +3,7 @@
 package files
 
 import (
+	"encoding/binary"
 	"unsafe"
 
 	"github.com/vivint/rothko/database/files/internal/meta"
@@ -60,6 +61,32 @@ func readMetadata(buf []byte) (m meta.Metadata, err error) {
 	return m, nil
 }
 
+// recoverMetadata rebuilds the metadata at the start of a file when reading it
+// failed with orig because a crash interrupted an update. the size is the first
+// field and never changes, so it is intact, and everything else is a hint. an
+// update only happens after storing a value, so the last record of the file
+// has to be readable, which guards against other kinds of corruption.
+func recoverMetadata(buf []byte, orig error) (m meta.Metadata, err error) {
+	if len(buf) <= recordHeaderSize || buf[0] != recordVersion ||
+		buf[recordHeaderSize] != 1<<3 {
+
+		return m, orig
+	}
+	size, n := binary.Uvarint(buf[recordHeaderSize+1:])
+	if n <= 0 || size < recordHeaderSize || size > uint64(len(buf))/2 ||
+		uint64(len(buf))%size != 0 {
+
+		return m, orig
+	}
+	if _, err := readRecord(buf[len(buf)-int(size):]); err != nil {
+		return m, orig
+	}
+
+	m.Size_ = int(size)
+	m.Head = len(buf)/int(size) - 2
+	return m, writeMetadata(buf[:size], m)
+}
+
 // writeRecord writes a record value into the buffer, ensuring that it fits in
 // the buffer.
 func writeRecord(buf []byte, rec record) (err error) {
-- 
2.43.0


From a114ca7dbed8b9e43a0e6032d355a1c99e607a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 10/63] fix: keep the head of a truncated file inside the file

---
 database/files/file_ops.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/files/file_ops.go b/database/files/file_ops.go
index 310e880..3269ef4 100644
--- a/database/files/file_ops.go
+++ b/database/files/file_ops.go
@@ -17,6 +17,11 @@ func getHeadPointer(ctx context.Context, f file) (n int, err error) {
 		return head, nil
 	}
 
+	// the hint can be past the end of a file that was truncated.
+	if head >= f.Capacity() {
+		head = f.Capacity() - 1
+	}
+
 	// figure out if head has a record. typically, it won't.
 	orig_has := f.HasRecord(ctx, head)
 
-- 
2.43.0


From a4924e3d41361191edcdda31569f91b5d3269fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 11/63] fix: find the newest record of a file with recovered
 metadata behind damaged ones

---
 database/files/file_helpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/files/file_helpers.go b/database/files/file_helpers.go
index 15d02d1..1549a91 100644
--- a/database/files/file_helpers.go
+++ b/database/files/file_helpers.go
@@ -82,8 +82,9 @@ func recoverMetadata(buf []byte, orig error) (m meta.Metadata, err error) {
 		return m, orig
 	}
 
+	// leaving the head at the first slot makes us search forward for the newest
+	// record, so that damaged records after it do not hide it.
 	m.Size_ = int(size)
-	m.Head = len(buf)/int(size) - 2
 	return m, writeMetadata(buf[:size], m)
 }
 
-- 
2.43.0


From ceb4f0aca959116280c93ff7ba558e325735328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 12/63] fix: keep names of metrics written while the directory
 is being walked

---
 database/files/db_read.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index e0b248c..1790427 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -131,7 +131,12 @@ func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
 	}
 
 	// all stores to the names map have to be done under the names_mu mutex.
+	// the walk can miss metrics that were written while it was happening, so
+	// keep the names that are already known.
 	db.names_mu.Lock()
+	if names, ok := db.names.Load().(*sset.Set); ok {
+		dp.out.Merge(names)
+	}
 	db.names.Store(dp.out)
 	db.names_mu.Unlock()
 
-- 
2.43.0


From c13dd0c8f91a60cea8f95d2f2361be22dd9fe81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 13/63] fix: do not merge into the shared set of metric names
 in place

---
 database/files/db_read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index 1790427..11adbcc 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -86,8 +86,8 @@ func (db *DB) Metrics(ctx context.Context,
 		// we reload the names map here after we have the mutex in case
 		// some concurrent Metrics call has updated the atomic.Value
 		if !copied {
-			new_names, ok := db.names.Load().(*sset.Set)
-			if ok && new_names.Len() > 0 {
+			names = sset.New(0)
+			if new_names, ok := db.names.Load().(*sset.Set); ok {
 				names = new_names.Copy()
 			}
 			copied = true
-- 
2.43.0


From 63de030c6a5cf85059231e8425314a1fe067e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 14/63] fix: do not lose or race on metric names when listing
 concurrently

---
 database/files/db_read.go | 76 +++++++++++++++------------------------
 1 file changed, 29 insertions(+), 47 deletions(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index 11adbcc..580bc9a 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -53,51 +53,43 @@ func (db *DB) QueryLatest(ctx context.Context, metric string, buf []byte) (
 func (db *DB) Metrics(ctx context.Context,
 	cb func(name string) (bool, error)) (err error) {
 
-	// load up the readonly names value
+	names := db.loadNames()
+
+	// yay do callbacks
+	names.Iter(func(name string) (ok bool) {
+		ok, err = cb(name)
+		return ok && err == nil
+	})
+	return err
+}
+
+// loadNames returns the readonly set of metric names, including every name that
+// the workers have added so far.
+func (db *DB) loadNames() (names *sset.Set) {
+	// all merging is done under the names_mu mutex. otherwise, some concurrent
+	// call could have cleared a worker set while not having stored the names
+	// containing it yet.
+	db.names_mu.Lock()
+	defer db.names_mu.Unlock()
+
 	names, ok := db.names.Load().(*sset.Set)
 	if !ok {
 		names = sset.New(0)
 	}
 
-	// merge the worker sets in if we have a flag for it
+	// merge the worker sets in and clear them out, lazily copying the names to
+	// ensure that they are readonly.
 	copied := false
-	locked := false
-	for i, names_w := range db.names_w {
+	for i := range db.names_w {
 		db.names_w_mu[i].Lock()
-		len_names_w := names_w.Len()
-		db.names_w_mu[i].Unlock()
-
-		// skip if we don't need to merge it in
-		if len_names_w == 0 {
-			continue
-		}
-
-		// lock the populating mutex if required
-		if !locked {
-			db.names_mu.Lock()
-			locked = true
-		}
-
-		// lock the worker map again. we drop the worker mutex to avoid
-		// deadlocks while taking the db.names_mu.
-		db.names_w_mu[i].Lock()
-
-		// lazily copy the names map to ensure it is readonly
-		// we reload the names map here after we have the mutex in case
-		// some concurrent Metrics call has updated the atomic.Value
-		if !copied {
-			names = sset.New(0)
-			if new_names, ok := db.names.Load().(*sset.Set); ok {
-				names = new_names.Copy()
+		if db.names_w[i].Len() > 0 {
+			if !copied {
+				names = names.Copy()
+				copied = true
 			}
-			copied = true
+			names.Merge(db.names_w[i])
+			db.names_w[i] = sset.New(0)
 		}
-
-		// merge the worker map in
-		names.Merge(names_w)
-
-		// clear out the worker map
-		db.names_w[i] = sset.New(0)
 		db.names_w_mu[i].Unlock()
 	}
 
@@ -106,17 +98,7 @@ func (db *DB) Metrics(ctx context.Context,
 		db.names.Store(names)
 	}
 
-	// if we locked, we can unlock now as we're done populating and storing
-	if locked {
-		db.names_mu.Unlock()
-	}
-
-	// yay do callbacks
-	names.Iter(func(name string) (ok bool) {
-		ok, err = cb(name)
-		return ok && err == nil
-	})
-	return err
+	return names
 }
 
 // PopulateMetrics walks the directory tree of the metrics recreating the
-- 
2.43.0


From e01f19719b7090fd25737d116cd54da4a0b13c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 15/63] fix: an unusable distribution configuration deadlocked
 aggregation

Observe returned with the mutex held when the distribution could not be
created. Report and drop the observation instead.
---
 data/agg.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/data/agg.go b/data/agg.go
index 9a3a1a8..5bac41d 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -7,6 +7,7 @@ import (
 	"time"
 
 	"github.com/vivint/rothko/dist"
+	"github.com/vivint/rothko/external"
 )
 
 // agg aggregates observed values into a record.
@@ -40,6 +41,10 @@ func (a *agg) Observe(val float64, id []byte) {
 		if err == nil {
 			a.dist = dist
 		} else {
+			a.mu.Unlock()
+			external.Errorw("observation dropped",
+				"err", err.Error(),
+			)
 			return
 		}
 	}
-- 
2.43.0


From a1d08cef0a097410c170b6b55d1ae56d3bc0a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 16/63] fix: concurrent first observations could overwrite each
 other's extremes

The minimum and maximum were updated in a second critical section based on
an observation count read in the first, so an observation overlapping the
first one could be forgotten, or the zero value be taken for an extreme.
---
 data/agg.go | 47 ++++++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/data/agg.go b/data/agg.go
index 5bac41d..c2b4fb2 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -34,51 +34,36 @@ func newAgg(params dist.Params, now time.Time) *agg {
 // if it used.
 func (a *agg) Observe(val float64, id []byte) {
 	a.mu.Lock()
+	defer a.mu.Unlock()
 
 	// add the value into the digest, initializing it if necessary
 	if a.dist == nil {
 		dist, err := a.params.New()
-		if err == nil {
-			a.dist = dist
-		} else {
-			a.mu.Unlock()
+		if err != nil {
 			external.Errorw("observation dropped",
 				"err", err.Error(),
 			)
 			return
 		}
+		a.dist = dist
 	}
 	a.dist.Observe(val)
 
-	// keep track of min, max and obs to update them after dropping the mutex
-	// and bump observations.
-	min, max, obs := a.rec.Min, a.rec.Max, a.rec.Observations
+	// keep track of min, max and obs. this happens in the same critical
+	// section that observed the value, because whether a value is the first
+	// one is only meaningful in there.
+	first := a.rec.Observations == 0
 	a.rec.Observations++
 
-	a.mu.Unlock()
-
-	// in the common case we don't need to bump min and max, so we do a double
-	// check pattern to avoid as much critical section as possible.
-	if obs == 0 || val < min || val > max {
-
-		// we only make the copy if there's a good chance we'll be storing it.
-		// once again, we do this outside of the mutex to avoid as much
-		// critical section as possible.
-		var id_copy []byte
-		if id != nil {
-			id_copy = append(id_copy, id...)
-		}
-
-		a.mu.Lock()
-		if obs == 0 || val < a.rec.Min {
-			a.rec.Min = val
-			a.rec.MinId = id_copy
-		}
-		if obs == 0 || val > a.rec.Max {
-			a.rec.Max = val
-			a.rec.MaxId = id_copy
-		}
-		a.mu.Unlock()
+	// we only copy the id if it is stored. each gets its own copy because the
+	// slices are handed out with the record.
+	if first || val < a.rec.Min {
+		a.rec.Min = val
+		a.rec.MinId = append([]byte(nil), id...)
+	}
+	if first || val > a.rec.Max {
+		a.rec.Max = val
+		a.rec.MaxId = append([]byte(nil), id...)
 	}
 }
 
-- 
2.43.0


From a7c56350589fd61f361a8b6e004982d211068de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 17/63] fix: finishing a record raced with observations

Iterating used the distribution without the lock that observing takes, and
crashed on a metric whose first observation had not arrived yet.
---
 data/agg.go    | 17 ++++++++++++-----
 data/writer.go |  8 ++++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/data/agg.go b/data/agg.go
index c2b4fb2..096723c 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -68,15 +68,22 @@ func (a *agg) Observe(val float64, id []byte) {
 }
 
 // Finish returns the aggregated record, using the buf to marshal the data
-// and returning the buf. Mutating the returned buf invalidates the record.
+// and returning the buf. Mutating the returned buf invalidates the record. The
+// record has no observations if there have not been any yet.
 func (a *agg) Finish(buf []byte, now time.Time) ([]byte, Record) {
+	// the distribution is not safe for concurrent use, and it has to match
+	// the other fields of the record.
 	a.mu.Lock()
-	out := a.rec
-	a.mu.Unlock()
+	defer a.mu.Unlock()
 
+	out := a.rec
 	out.EndTime = now.In(time.UTC).UnixNano()
-	out.Kind = a.dist.Kind()
-	buf = a.dist.Marshal(buf[:0])
+
+	buf = buf[:0]
+	if a.dist != nil {
+		out.Kind = a.dist.Kind()
+		buf = a.dist.Marshal(buf)
+	}
 	out.Distribution = buf
 
 	return buf, out
diff --git a/data/writer.go b/data/writer.go
index 180cd4d..bfb18d3 100644
--- a/data/writer.go
+++ b/data/writer.go
@@ -115,6 +115,10 @@ func (s *Writer) Capture(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			// the first observation is still on its way, or was dropped.
+			return true
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
@@ -138,6 +142,10 @@ func (s *Writer) Iterate(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			// the first observation is still on its way, or was dropped.
+			return true
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
-- 
2.43.0


From dd3cc2e97c311fdec4f9fb20258c1cdb92ab2f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 18/63] fix: refuse a configuration without a positive dump
 duration instead of crashing

---
 run.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/run.go b/run.go
index a8fae0c..9d802c4 100644
--- a/run.go
+++ b/run.go
@@ -70,6 +70,11 @@ The run command starts up the rothko system
 // binary. The started return value is true if the services were created and
 // started before returning.
 func run(ctx context.Context, conf *config.Config) (started bool, err error) {
+	// the dumper needs a positive period to tick with
+	if conf.Main.Duration <= 0 {
+		return false, errs.New("invalid duration: %v", conf.Main.Duration)
+	}
+
 	// load the plugins
 	for _, path := range conf.Main.Plugins {
 		external.Infow("loading plugin",
-- 
2.43.0


From 44757a5562d4b7ecd5b6d04b9dae563516759221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 19/63] fix: refuse compressions that the t-digest cannot work
 with

---
 dist/tdigest/wrapper.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index 80f4c68..ca00760 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -8,6 +8,9 @@ import (
 	"github.com/zeebo/tdigest"
 )
 
+// maxCompression is the largest compression that is allowed.
+const maxCompression = 1 << 16
+
 // Params implements dist.Params for a t-digest distribution.
 type Params struct {
 	Compression float64
@@ -23,6 +26,11 @@ func (p Params) New() (dist.Dist, error) {
 	if p.Compression == 0 {
 		return nil, errs.New("New called on zero value Params")
 	}
+	// the t-digest allocates proportionally to the compression, and cannot
+	// compress at all when it is too small.
+	if !(p.Compression >= 1 && p.Compression <= maxCompression) {
+		return nil, errs.New("invalid compression: %v", p.Compression)
+	}
 	return Wrap(tdigest.New(p.Compression)), nil
 }
 
-- 
2.43.0


From 7b5607ef74efd48e6dcfb27c2374f37c264f2222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 20/63] fix: refuse to run with a distribution that cannot be
 created

---
 run.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/run.go b/run.go
index 9d802c4..9e71261 100644
--- a/run.go
+++ b/run.go
@@ -112,6 +112,11 @@ func run(ctx context.Context, conf *config.Config) (started bool, err error) {
 		return false, errs.Wrap(err)
 	}
 
+	// ensure that the params are able to make distributions
+	if _, err := params.New(); err != nil {
+		return false, errs.Wrap(err)
+	}
+
 	// create the writer
 	w := data.NewWriter(params)
 
-- 
2.43.0


From ed3aa13873c0705822c457dba277f944f6d603ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 21/63] fix: do not crash on damaged distribution data

---
 dist/tdigest/wrapper.go | 49 +++++++++++++++++++++++++++++++++++++++++
 merge/resample.go       | 15 ++++++++-----
 2 files changed, 59 insertions(+), 5 deletions(-)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index ca00760..083ab5b 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -3,6 +3,9 @@
 package tdigest
 
 import (
+	"encoding/binary"
+	"math"
+
 	"github.com/vivint/rothko/dist"
 	"github.com/zeebo/errs"
 	"github.com/zeebo/tdigest"
@@ -36,6 +39,9 @@ func (p Params) New() (dist.Dist, error) {
 
 // Unmarshal loads a dist.Dist out of some bytes.
 func (p Params) Unmarshal(data []byte) (dist.Dist, error) {
+	if err := validate(data); err != nil {
+		return nil, err
+	}
 	dist, err := tdigest.FromBytes(data)
 	if err != nil {
 		return nil, errs.Wrap(err)
@@ -43,6 +49,49 @@ func (p Params) Unmarshal(data []byte) (dist.Dist, error) {
 	return Wrap(dist), nil
 }
 
+// validate checks that the data is a complete serialized t-digest, because
+// loading one that isn't panics.
+func validate(data []byte) error {
+	const header = 4 + 8 + 4
+	if len(data) < header {
+		return errs.New("short t-digest: %d bytes", len(data))
+	}
+
+	compression := math.Float64frombits(binary.BigEndian.Uint64(data[4:]))
+	if !(compression > 0 && compression <= maxCompression) {
+		return errs.New("invalid t-digest compression: %v", compression)
+	}
+
+	// a t-digest with more centroids than this would have compressed itself.
+	centroids := int64(binary.BigEndian.Uint32(data[12:]))
+	if centroids > 1 && float64(centroids) > 20*compression {
+		return errs.New("invalid t-digest centroids: %d", centroids)
+	}
+	data = data[header:]
+
+	if int64(len(data)) < 4*centroids {
+		return errs.New("short t-digest: missing means")
+	}
+	var mean float64
+	for i := int64(0); i < centroids; i++ {
+		delta := math.Float32frombits(binary.BigEndian.Uint32(data))
+		data = data[4:]
+		mean += float64(delta)
+		if math.IsInf(mean, 0) || math.IsNaN(mean) {
+			return errs.New("invalid t-digest mean: %v", mean)
+		}
+	}
+	for i := int64(0); i < centroids; i++ {
+		count, n := binary.Uvarint(data)
+		if n <= 0 || count == 0 || count > math.MaxUint32 {
+			return errs.New("invalid t-digest count")
+		}
+		data = data[n:]
+	}
+
+	return nil
+}
+
 //
 // Wrapper
 //
diff --git a/merge/resample.go b/merge/resample.go
index 38910b2..1784ee7 100644
--- a/merge/resample.go
+++ b/merge/resample.go
@@ -6,7 +6,8 @@ import (
 	"context"
 
 	"github.com/vivint/rothko/data"
-	"github.com/zeebo/tdigest"
+	"github.com/vivint/rothko/dist/tdigest"
+	ztdigest "github.com/zeebo/tdigest"
 )
 
 //
@@ -21,10 +22,10 @@ import (
 // are going to be specific to the concrete distributions, so perhaps it's ok.
 
 type resampler struct {
-	dig *tdigest.TDigest
+	dig *ztdigest.TDigest
 }
 
-func newResampler(dig *tdigest.TDigest) *resampler {
+func newResampler(dig *ztdigest.TDigest) *resampler {
 	return &resampler{
 		dig: dig,
 	}
@@ -33,11 +34,15 @@ func newResampler(dig *tdigest.TDigest) *resampler {
 func (res *resampler) Sample(ctx context.Context, r data.Record) error {
 	switch r.Kind {
 	case "tdigest":
-		other, err := tdigest.FromBytes(r.Distribution)
+		other, err := tdigest.Params{}.Unmarshal(r.Distribution)
 		if err != nil {
 			return err
 		}
-		return res.dig.Merge(other)
+		unwrapped, ok := other.(*tdigest.Wrapper)
+		if !ok {
+			return Error.New("programmer error: did not load a t-digest")
+		}
+		return res.dig.Merge(unwrapped.Underlying())
 	}
 
 	return Error.New("unknown distribution kind: %v", r.Kind)
-- 
2.43.0


From 9670c2ccb75f3884569233659a02a1ede8ba5b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 22/63] fix: limit observed values to the range the t-digest
 can store

---
 dist/tdigest/wrapper.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index 083ab5b..ef5137e 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -117,8 +117,17 @@ func (Wrapper) Kind() string {
 	return "tdigest"
 }
 
-// Observe adds the value to the t-digest.
+// Observe adds the value to the t-digest. Values are limited to a range where
+// the distance between any two of them can be stored: larger ones would be
+// infinite when marshaled, and would keep the t-digest from compressing.
 func (w Wrapper) Observe(val float64) {
+	const limit = math.MaxFloat32 / 2
+	if val > limit {
+		val = limit
+	}
+	if val < -limit {
+		val = -limit
+	}
 	w.td.Add(val)
 }
 
-- 
2.43.0


From ce5b5e30f568d350fb96bd2ca0688c045826a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 23/63] fix: answer rank queries with all of the observations
 so far

---
 dist/tdigest/wrapper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index ef5137e..4b7938f 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -120,7 +120,7 @@ func (Wrapper) Kind() string {
 // Observe adds the value to the t-digest. Values are limited to a range where
 // the distance between any two of them can be stored: larger ones would be
 // infinite when marshaled, and would keep the t-digest from compressing.
-func (w Wrapper) Observe(val float64) {
+func (w *Wrapper) Observe(val float64) {
 	const limit = math.MaxFloat32 / 2
 	if val > limit {
 		val = limit
@@ -128,6 +128,7 @@ func (w Wrapper) Observe(val float64) {
 	if val < -limit {
 		val = -limit
 	}
+	w.cache = nil // any memoized quantiles are out of date
 	w.td.Add(val)
 }
 
-- 
2.43.0


From 2bc259ce0904aa86f55231cd79aa4e5debb03dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 24/63] fix: do not crash on lengths that overflow when
 decoding records

---
 data/record.pb.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/data/record.pb.go b/data/record.pb.go
index 4e021e9..3d70e23 100644
--- a/data/record.pb.go
+++ b/data/record.pb.go
@@ -289,6 +289,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -321,6 +324,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -371,6 +377,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -402,6 +411,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -438,6 +450,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRecord
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -536,6 +551,9 @@ func skipRecord(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if next < 0 || iNdEx < 0 {
+					return 0, ErrInvalidLengthRecord
+				}
 			}
 			return iNdEx, nil
 		case 4:
-- 
2.43.0


From 53dd7c23e9ea413d9dc5badd3d3d02c3ae55b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 25/63] fix: keep the identifiers when the first merged record
 has the extremes

---
 merge/merge.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merge/merge.go b/merge/merge.go
index 5a0e8c9..bbfc3ce 100644
--- a/merge/merge.go
+++ b/merge/merge.go
@@ -71,6 +71,7 @@ func Merge(ctx context.Context, opts MergeOptions) (
 
 	// merge the max and min values
 	out.Min, out.Max = opts.Records[0].Min, opts.Records[0].Max
+	out.MinId, out.MaxId = opts.Records[0].MinId, opts.Records[0].MaxId
 	for _, r := range opts.Records[1:] {
 		if r.Min < out.Min {
 			out.Min = r.Min
-- 
2.43.0


From 029dcc89ed1eb174e66d07b5eaa81422109e2ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 26/63] fix: only draw columns for records inside of the
 window, inside of the width

---
 merge/merger.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/merge/merger.go b/merge/merger.go
index e2d264d..9ef00e2 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -73,6 +73,9 @@ func (m *Merger) timeToPixel(time int64) int64 {
 	if px < 0 {
 		px = 0
 	}
+	if px >= int64(m.width) {
+		px = int64(m.width) - 1
+	}
 	return px
 }
 
@@ -83,6 +86,12 @@ func (m *Merger) Push(ctx context.Context, rec data.Record) error {
 		return Error.New("invalid: must call SetWidth before Push")
 	}
 
+	// skip any records that are entirely outside of the window
+	if rec.StartTime >= m.opts.Now ||
+		rec.EndTime <= m.opts.Now-m.opts.Duration.Nanoseconds() {
+		return nil
+	}
+
 	mrec := mergeRecord{
 		rec:   rec,
 		start: m.timeToPixel(rec.StartTime),
-- 
2.43.0


From e146c1df1ac4f2247db77a1ad9bb544d8865b8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 27/63] fix: keep the observation rate of columns finite

---
 merge/merger.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/merge/merger.go b/merge/merger.go
index 9ef00e2..d5ba7c5 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -210,8 +210,17 @@ func (m *Merger) emit(ctx context.Context, start, end int64,
 	recs := make([]data.Record, 0, len(mrecs))
 	for _, mrec := range mrecs {
 		recs = append(recs, mrec.rec)
-		obs_sec += float64(mrec.rec.Observations) / float64(mrec.rec.Merged) /
-			time.Duration(mrec.rec.EndTime-mrec.rec.StartTime).Seconds()
+		// back compat: there may have been records without the merged field.
+		// if merged is 0, that means it actually is 1.
+		merged := mrec.rec.Merged
+		if merged == 0 {
+			merged = 1
+		}
+		// a record that spans no time has no rate
+		dur := time.Duration(mrec.rec.EndTime - mrec.rec.StartTime).Seconds()
+		if dur > 0 {
+			obs_sec += float64(mrec.rec.Observations) / float64(merged) / dur
+		}
 	}
 	obs_sec /= float64(len(mrecs))
 
-- 
2.43.0


From 17849958eaac218db9d9bbd2a9ddbfb81478ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 28/63] fix: views of a canvas that is itself a view are
 relative to it

---
 draw/common.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/draw/common.go b/draw/common.go
index 1602cc4..fca7841 100644
--- a/draw/common.go
+++ b/draw/common.go
@@ -70,10 +70,11 @@ func (m *RGB) Raw(x, y int) []uint8 {
 	return m.Pix[i : i+4]
 }
 
-// View returns a view into the RGB.
+// View returns a view into the RGB. The coordinates are relative to the RGB,
+// which may itself be a view.
 func (m RGB) View(x, y, w, h int) *RGB {
-	m.X = x
-	m.Y = y
+	m.X += x
+	m.Y += y
 	m.Width = w
 	m.Height = h
 	return &m
-- 
2.43.0


From 47a073f29c36dc02a9126a1d112cca4aa8760e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 29/63] fix: the image of a view contains only the view, so
 text cannot bleed out of it

---
 draw/common.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/draw/common.go b/draw/common.go
index fca7841..5771d6c 100644
--- a/draw/common.go
+++ b/draw/common.go
@@ -80,12 +80,13 @@ func (m RGB) View(x, y, w, h int) *RGB {
 	return &m
 }
 
+// AsImage returns an image sharing the pixels of the RGB. If the RGB is a view,
+// only the pixels inside of the view are part of the image.
 func (m *RGB) AsImage() *image.RGBA {
-	return &image.RGBA{
+	whole := &image.RGBA{
 		Pix:    m.Pix,
 		Stride: m.Stride,
-		// TODO(jeff): i highly suspect m.Width and m.Height is wrong here.
-		// add a test around boundary conditions.
-		Rect: image.Rect(-m.X, -m.Y, m.Width, m.Height),
+		Rect:   image.Rect(-m.X, -m.Y, m.Width, m.Height),
 	}
+	return whole.SubImage(image.Rect(0, 0, m.Width, m.Height)).(*image.RGBA)
 }
-- 
2.43.0


From e2e3f1bc6b4327af7fc7d75c92afc1fb92c607f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 30/63] fix: heatmaps of one row, columns past the edges, and
 the orientation on general canvases

---
 draw/heatmap/heatmap.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/draw/heatmap/heatmap.go b/draw/heatmap/heatmap.go
index 57f597b..5d45b35 100644
--- a/draw/heatmap/heatmap.go
+++ b/draw/heatmap/heatmap.go
@@ -51,9 +51,24 @@ func New(opts Options) *Heatmap {
 func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 	last_index := -1
 	last_color := d.opts.Colors[0]
-	index_scale := float64(len(col.Data)-1) / float64(d.height-1)
+	index_scale := 0.0
+	if d.height > 1 {
+		index_scale = float64(len(col.Data)-1) / float64(d.height-1)
+	}
 	m := d.m
 
+	// only draw the part of the column that is inside of the canvas
+	x0, x1 := col.X, col.X+col.W
+	if x0 < 0 {
+		x0 = 0
+	}
+	if x1 > d.width {
+		x1 = d.width
+	}
+	if x0 >= x1 {
+		return
+	}
+
 	for y := 0; y < d.height; y++ {
 		// TODO(jeff): truncating might not work. we can also perhaps
 		// invert this computation to give us the number of pixels
@@ -69,11 +84,8 @@ func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 
 		if m != nil {
 			row := (d.height - 1 - y + m.Y) * m.Stride
-			low := row + 4*(col.X+m.X)
-			high := low + 4*col.W
-			if high > len(m.Pix) {
-				high = len(m.Pix)
-			}
+			low := row + 4*(x0+m.X)
+			high := row + 4*(x1+m.X)
 
 			// reslicing in gopherjs always allocates a slice structure. so
 			// since it doesn't elide bounds checks, we write it this way even
@@ -97,9 +109,8 @@ func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 			}
 
 		} else {
-			x1 := col.X + col.W
-			for x := col.X; x < x1 && x < d.width; x++ {
-				d.opts.Canvas.Set(x, y, last_color)
+			for x := x0; x < x1; x++ {
+				d.opts.Canvas.Set(x, d.height-1-y, last_color)
 			}
 		}
 
-- 
2.43.0


From 7a54d0b04c305668a1deedede97eb4e077f83f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 31/63] fix: keys of one row crashed

---
 draw/key/key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/draw/key/key.go b/draw/key/key.go
index fdd4191..fb25dee 100644
--- a/draw/key/key.go
+++ b/draw/key/key.go
@@ -29,7 +29,10 @@ func Draw(canvas *draw.RGB, opts Options) (out *draw.RGB) {
 		canvas = draw.NewRGB(opts.Width, opts.Height)
 	}
 
-	scale := float64(len(opts.Colors)-1) / float64(opts.Height-1)
+	scale := 0.0
+	if opts.Height > 1 {
+		scale = float64(len(opts.Colors)-1) / float64(opts.Height-1)
+	}
 	for y := 0; y < opts.Height; y++ {
 		index := int(float64(opts.Height-1-y) * scale)
 		color := opts.Colors[index]
-- 
2.43.0


From 8171ba4238cddabe9f891d23167f9cd96b97dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 32/63] fix: observation strips with no observations, columns
 past the edges, or narrower than their label

---
 draw/observations/obs.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/draw/observations/obs.go b/draw/observations/obs.go
index 0d59faa..f29e197 100644
--- a/draw/observations/obs.go
+++ b/draw/observations/obs.go
@@ -90,11 +90,17 @@ func (m Measured) Draw(ctx context.Context, cols []draw.Column,
 	label_width := (m.bounds.Max.X - m.bounds.Min.X).Ceil()
 
 	for _, col := range cols {
-		sat := 255 - byte(float64(col.ObsSec)/float64(max)*255)
+		sat := byte(255)
+		if max > 0 {
+			sat = 255 - byte(float64(col.ObsSec)/float64(max)*255)
+		}
 		c := draw.Color{sat, sat, sat}
 		for y := 0; y < m.opts.Height; y++ {
-			for x := 0; x < col.W; x++ {
-				canvas.Set(x+col.X, y+padding+label_height, c)
+			for x := col.X; x < col.X+col.W; x++ {
+				if x < 0 || x >= m.opts.Width {
+					continue
+				}
+				canvas.Set(x, y+padding+label_height, c)
 			}
 		}
 	}
@@ -103,6 +109,9 @@ func (m Measured) Draw(ctx context.Context, cols []draw.Column,
 	if end > m.opts.Width {
 		x = m.opts.Width - label_width
 	}
+	if x < 0 {
+		x = 0
+	}
 
 	(&font.Drawer{
 		Dst:  canvas.AsImage(),
-- 
2.43.0


From 477a7de9be92be4bfe54f8423425294ed27f7ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 33/63] fix: horizontal axis labels were drawn over each other

---
 draw/axis/axis.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/draw/axis/axis.go b/draw/axis/axis.go
index 30cba6c..c2ba739 100644
--- a/draw/axis/axis.go
+++ b/draw/axis/axis.go
@@ -222,9 +222,7 @@ func measureHorizontal(ctx context.Context, opts Options) Measured {
 	bounds := make([]fixed.Rectangle26_6, 0, len(opts.Labels))
 	occupied := 0
 	fits := func(x int) bool {
-		return occupied == 0 ||
-			x < horizLabelSpacing ||
-			x > occupied+horizLabelSpacing
+		return occupied == 0 || x > occupied+horizLabelSpacing
 	}
 
 	for _, label := range opts.Labels {
@@ -294,9 +292,7 @@ func (m Measured) drawHorizontal(ctx context.Context, canvas *draw.RGB) (
 	// render the ticks and labels
 	occupied := 0
 	fits := func(x int) bool {
-		return occupied == 0 ||
-			x < horizLabelSpacing ||
-			x > occupied+horizLabelSpacing
+		return occupied == 0 || x > occupied+horizLabelSpacing
 	}
 
 	for i, label := range m.opts.Labels {
@@ -330,7 +326,7 @@ func (m Measured) drawHorizontal(ctx context.Context, canvas *draw.RGB) (
 		}
 		d.DrawString(label.Text)
 
-		occupied = d.Dot.X.Ceil()
+		occupied = label_end
 	}
 
 	return canvas
-- 
2.43.0


From c82af67c0511bd15956c8abdd5a9ee3044095a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 34/63] fix: graphs too small for their parts, or narrower than
 100 pixels, crashed

---
 draw/graph/graph.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/draw/graph/graph.go b/draw/graph/graph.go
index 283f859..d2cef6a 100644
--- a/draw/graph/graph.go
+++ b/draw/graph/graph.go
@@ -93,7 +93,7 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// calculate the heatmap height and leave a gap for the bottom/obs axis
 	height := opts.Height - vert_guess
-	if height < 0 {
+	if height < 1 {
 		return Measured{}, false
 	}
 
@@ -157,6 +157,9 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 	// for the left and right axis
 	heatmapWidth := opts.Width -
 		(left.Width + keyPadding + keyWidth + right.Width)
+	if heatmapWidth < 1 {
+		return Measured{}, false
+	}
 
 	obs := observations.Measure(ctx, observations.Options{
 		Face:   iosevka.Iosevka,
@@ -169,7 +172,11 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// determine the "natural" duration unit for 100 px. this is going to
 	// be the largest "natural" unit smaller than the chunk.
-	chunk := opts.Duration / time.Duration(opts.Width/100)
+	chunks := opts.Width / 100
+	if chunks < 1 {
+		chunks = 1
+	}
+	chunk := opts.Duration / time.Duration(chunks)
 	natural := naturalUnits[0]
 	for _, unit := range naturalUnits[1:] {
 		if unit < chunk {
-- 
2.43.0


From 46571773a55b19d148b1d363079f87402bd3e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 35/63] fix: time labels at the limits of time were placed
 outside of the graph

---
 draw/graph/graph.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/draw/graph/graph.go b/draw/graph/graph.go
index d2cef6a..ad4ce6d 100644
--- a/draw/graph/graph.go
+++ b/draw/graph/graph.go
@@ -186,15 +186,21 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 		}
 	}
 
-	// create the labels from the truncated now
-	x := time.Duration(opts.Now).Truncate(natural).Nanoseconds()
-	stop_before := opts.Now - opts.Duration.Nanoseconds()
-	for x > stop_before {
+	// create the labels from the truncated now. ago is how long before now the
+	// label is, which keeps the arithmetic in range for any now and duration.
+	ago := time.Duration(opts.Now) % natural
+	if ago < 0 {
+		ago += natural
+	}
+	for ago < opts.Duration {
 		labels = append(labels, axis.Label{
-			Position: 1 - float64(opts.Now-x)/float64(opts.Duration),
-			Text:     time.Unix(0, x).Format("1/2 @ 15:04"),
+			Position: 1 - float64(ago)/float64(opts.Duration),
+			Text:     time.Unix(0, opts.Now-int64(ago)).Format("1/2 @ 15:04"),
 		})
-		x -= natural.Nanoseconds()
+		if opts.Duration-ago <= natural {
+			break
+		}
+		ago += natural
 	}
 
 	// reverse the labels so that they are in increasing order
-- 
2.43.0


From afdba6722073c5ed613bf351272e5918fff8d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:56 +0000
Subject: [PATCH 36/63] fix: merging over windows shorter than their width, or
 near the end of time

---
 merge/merger.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/merge/merger.go b/merge/merger.go
index d5ba7c5..1581ddc 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -63,13 +63,23 @@ func NewMerger(opts MergerOptions) *Merger {
 func (m *Merger) SetWidth(width int) {
 	m.width = width
 	m.pixel_size = m.opts.Duration.Nanoseconds() / int64(width)
+	if m.pixel_size < 1 {
+		m.pixel_size = 1
+	}
 	m.completed_px = int64(width)
 }
 
 // timeToPixel maps the time to a pixel.
 func (m *Merger) timeToPixel(time int64) int64 {
-	delta := m.opts.Now - time + m.pixel_size - 1
-	px := int64(m.width) - (delta / m.pixel_size)
+	// everything before the window is in the first pixel
+	if time <= m.opts.Now-m.opts.Duration.Nanoseconds() {
+		return 0
+	}
+	delta := m.opts.Now - time
+	px := int64(m.width) - delta/m.pixel_size
+	if delta%m.pixel_size > 0 {
+		px--
+	}
 	if px < 0 {
 		px = 0
 	}
-- 
2.43.0


From 1045913de4eff28190863f7911dd032e89761d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 37/63] fix: the largest value of a column was not drawn at the
 top for some heights

---
 draw/heatmap/heatmap.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/draw/heatmap/heatmap.go b/draw/heatmap/heatmap.go
index 5d45b35..0774adc 100644
--- a/draw/heatmap/heatmap.go
+++ b/draw/heatmap/heatmap.go
@@ -51,9 +51,9 @@ func New(opts Options) *Heatmap {
 func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 	last_index := -1
 	last_color := d.opts.Colors[0]
-	index_scale := 0.0
-	if d.height > 1 {
-		index_scale = float64(len(col.Data)-1) / float64(d.height-1)
+	last_data, last_y := len(col.Data)-1, d.height-1
+	if last_y < 1 {
+		last_y = 1
 	}
 	m := d.m
 
@@ -70,10 +70,9 @@ func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 	}
 
 	for y := 0; y < d.height; y++ {
-		// TODO(jeff): truncating might not work. we can also perhaps
-		// invert this computation to give us the number of pixels
-		// before we get to the next index directly.
-		index := int(float64(y) * index_scale)
+		// TODO(jeff): we can also perhaps invert this computation to give us
+		// the number of pixels before we get to the next index directly.
+		index := y * last_data / last_y
 
 		// figure out the color if it's different from the last data index
 		if index != last_index {
-- 
2.43.0


From 4fbe8641db9a24823ab65aa6b376f6594d71cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 38/63] fix: the last color was missing from the key for some
 heights

---
 draw/key/key.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/draw/key/key.go b/draw/key/key.go
index fb25dee..7463aa3 100644
--- a/draw/key/key.go
+++ b/draw/key/key.go
@@ -29,12 +29,12 @@ func Draw(canvas *draw.RGB, opts Options) (out *draw.RGB) {
 		canvas = draw.NewRGB(opts.Width, opts.Height)
 	}
 
-	scale := 0.0
-	if opts.Height > 1 {
-		scale = float64(len(opts.Colors)-1) / float64(opts.Height-1)
+	last_color, last_y := len(opts.Colors)-1, opts.Height-1
+	if last_y < 1 {
+		last_y = 1
 	}
 	for y := 0; y < opts.Height; y++ {
-		index := int(float64(opts.Height-1-y) * scale)
+		index := (opts.Height - 1 - y) * last_color / last_y
 		color := opts.Colors[index]
 		for x := 0; x < opts.Width; x++ {
 			canvas.Set(x, y, color)
-- 
2.43.0


From 0d711d1f918b1f6738bd5f8434824241168f83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 39/63] fix: a password without a user name was not asked for

---
 api/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/server.go b/api/server.go
index 29c63b1..2ab1ca3 100644
--- a/api/server.go
+++ b/api/server.go
@@ -115,7 +115,7 @@ func (s *Server) validAuth(ctx context.Context,
 func (s *Server) serveHTTP(ctx context.Context, w http.ResponseWriter,
 	req *http.Request) (err error) {
 
-	if s.opts.Username != "" {
+	if s.opts.Username != "" || s.opts.Password != "" {
 		username, password, ok := req.BasicAuth()
 		if !ok || !s.validAuth(ctx, username, password) {
 			w.Header().Set("WWW-Authenticate", `Basic realm="rothko"`)
-- 
2.43.0


From 2c13972372cda294951b5cbcb1f9c9fc364784b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 40/63] fix: render parameters could crash the handler or use
 unbounded memory, and no data was an error

---
 api/server.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/api/server.go b/api/server.go
index 2ab1ca3..eeb3def 100644
--- a/api/server.go
+++ b/api/server.go
@@ -27,6 +27,9 @@ import (
 	"github.com/zeebo/errs"
 )
 
+// maxRenderPixels bounds the number of pixels, and samples, in a render.
+const maxRenderPixels = 1 << 24
+
 // Options for the server.
 type Options struct {
 	// Origin is sent back in Access-Control-Allow-Origin. If not set, sends
@@ -164,6 +167,26 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	dur := getDuration(req.FormValue("duration"), 24*time.Hour)
 	samples := getInt(req.FormValue("samples"), 30)
 	compression := getFloat64(req.FormValue("compression"), 5)
+
+	// ensure the parameters make sense and do not use unbounded memory. the
+	// product is checked last so that it cannot overflow.
+	if width < 1 || width > maxRenderPixels ||
+		height < 1 || height > maxRenderPixels ||
+		padding < 0 || padding > maxRenderPixels ||
+		(width+2*padding)*(height+2*padding) > maxRenderPixels {
+		return errBadRequest.New("invalid size")
+	}
+	if samples < 1 || samples > maxRenderPixels/width {
+		return errBadRequest.New("invalid samples")
+	}
+	if now < 0 || dur <= 0 {
+		return errBadRequest.New("invalid time range")
+	}
+	params := tdigest.Params{Compression: compression}
+	if _, err := params.New(); err != nil {
+		return errBadRequest.Wrap(err)
+	}
+
 	stop_before := now - dur.Nanoseconds()
 
 	// set up some state for the query
@@ -181,7 +204,7 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 		Samples:  samples,
 		Now:      now,
 		Duration: dur,
-		Params:   tdigest.Params{Compression: compression},
+		Params:   params,
 	})
 	var ok bool
 
@@ -223,8 +246,14 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	if err != nil {
 		return errs.Wrap(err)
 	}
+
+	// if we never got an earliest, we need to measure without it to get the
+	// axes ready.
+	if measure_opts.Earliest == nil {
+		measured, ok = graph.Measure(ctx, measure_opts)
+	}
 	if !ok {
-		return errs.New("too small")
+		return errBadRequest.New("too small")
 	}
 
 	// grab the columns
@@ -249,15 +278,6 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 		}))
 	}
 
-	// if we never got an earliest, we need to measure without it to get the
-	// axes ready.
-	if measure_opts.Earliest == nil {
-		measured, ok = graph.Measure(ctx, measure_opts)
-		if !ok {
-			return errs.New("too small")
-		}
-	}
-
 	// draw the graph
 	out := measured.Draw(ctx, graph.DrawOptions{
 		Canvas:  nil,
-- 
2.43.0


From b4755c4f89610d6c82eb8c13eacc11b9266bfa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 41/63] fix: bound the number of samples of a render

---
 api/server.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/api/server.go b/api/server.go
index eeb3def..d69562c 100644
--- a/api/server.go
+++ b/api/server.go
@@ -27,8 +27,13 @@ import (
 	"github.com/zeebo/errs"
 )
 
-// maxRenderPixels bounds the number of pixels, and samples, in a render.
-const maxRenderPixels = 1 << 24
+const (
+	// maxRenderPixels bounds the number of pixels in a render.
+	maxRenderPixels = 1 << 24
+
+	// maxRenderSamples bounds the number of samples over all of the columns.
+	maxRenderSamples = 1 << 20
+)
 
 // Options for the server.
 type Options struct {
@@ -176,7 +181,7 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 		(width+2*padding)*(height+2*padding) > maxRenderPixels {
 		return errBadRequest.New("invalid size")
 	}
-	if samples < 1 || samples > maxRenderPixels/width {
+	if samples < 1 || samples > maxRenderSamples/width {
 		return errBadRequest.New("invalid samples")
 	}
 	if now < 0 || dur <= 0 {
-- 
2.43.0


From 15c2cd7c9220a1049a65780e2324071c0b82e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 42/63] fix: negative or huge numbers of query results crashed
 the handler

---
 api/query/search.go | 12 +++++++-----
 api/server.go       |  4 ++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/api/query/search.go b/api/query/search.go
index 8e2416d..c5c79ac 100644
--- a/api/query/search.go
+++ b/api/query/search.go
@@ -8,8 +8,9 @@ import (
 
 // Search represents a metric search.
 type Search struct {
-	specs   []spec
-	matched []string
+	specs    []spec
+	capacity int
+	matched  []string
 }
 
 // New constructs a metric searcher from the query string.
@@ -20,8 +21,9 @@ func New(query string, capacity int) *Search {
 		specs[i] = newSpec(part)
 	}
 	return &Search{
-		specs:   specs,
-		matched: make([]string, 0, capacity),
+		specs:    specs,
+		capacity: capacity,
+		matched:  make([]string, 0),
 	}
 }
 
@@ -37,7 +39,7 @@ func (s *Search) Match(metric string) bool {
 
 // Add is meant to be passed to a disk.Metrics call.
 func (s *Search) Add(name string) (bool, error) {
-	if len(s.matched) == cap(s.matched) {
+	if len(s.matched) >= s.capacity {
 		return false, nil
 	}
 	if !s.Match(name) {
diff --git a/api/server.go b/api/server.go
index d69562c..233cd98 100644
--- a/api/server.go
+++ b/api/server.go
@@ -303,6 +303,10 @@ func (s *Server) serveQuery(ctx context.Context, w http.ResponseWriter,
 	_query := req.FormValue("query")
 	results := getInt(req.FormValue("results"), 10)
 
+	if results < 0 {
+		return errBadRequest.New("invalid results")
+	}
+
 	search := query.New(_query, results)
 	if err := s.db.Metrics(ctx, search.Add); err != nil {
 		return errs.Wrap(err)
-- 
2.43.0


From 1acf932df7fdae149b0c91bc70e380635197ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 43/63] fix: wildcards did not match empty strings at the end
 of a component

---
 api/query/glob.go |  5 +++++
 api/query/spec.go | 33 +++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/api/query/glob.go b/api/query/glob.go
index 7ff235a..cfe2cf4 100644
--- a/api/query/glob.go
+++ b/api/query/glob.go
@@ -12,6 +12,11 @@ func glob(pattern, name string) bool {
 
 	for px < len(pattern) {
 		if nx >= len(name) {
+			// a wildcard matches the empty rest of the name
+			if pattern[px] == '*' {
+				px++
+				continue
+			}
 			return false
 		}
 		n := name[nx]
diff --git a/api/query/spec.go b/api/query/spec.go
index ca083c3..7680d17 100644
--- a/api/query/spec.go
+++ b/api/query/spec.go
@@ -48,31 +48,36 @@ func globify(part string) string {
 // Match returns true if the spec matches the metric.
 func (s spec) Match(metric string) bool {
 top:
-	for {
-		if len(metric) == 0 {
-			return false
-		}
-
+	for more := true; more; {
 		var part string
-		part, metric = splitMetric(metric)
+		part, metric, more = splitMetric(metric)
 
-		tail := metric
-		for _, g := range s.globs {
-			if !glob(g, part) {
+		tail, tail_more, tail_part := metric, more, part
+		for i, g := range s.globs {
+			if i > 0 {
+				// a missing component is not the same as an empty one
+				if !tail_more {
+					continue top
+				}
+				tail_part, tail, tail_more = splitMetric(tail)
+			}
+			if !glob(g, tail_part) {
 				continue top
 			}
-			part, tail = splitMetric(tail)
 		}
 
 		return true
 	}
+
+	return false
 }
 
-// splitMetric pulls off the first dot separated component of the metric.
-func splitMetric(metric string) (prefix, suffix string) {
+// splitMetric pulls off the first dot separated component of the metric. It
+// returns if there are more components in the suffix.
+func splitMetric(metric string) (prefix, suffix string, more bool) {
 	index := strings.IndexByte(metric, '.')
 	if index == -1 {
-		return metric, ""
+		return metric, "", false
 	}
-	return metric[:index], metric[index+1:]
+	return metric[:index], metric[index+1:], true
 }
-- 
2.43.0


From 2eb616f0f678546df81358455f0ec330e50d0b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:07 +0000
Subject: [PATCH 44/63] fix: directories of the static archive could not be
 listed

---
 internal/tgzfs/file.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/tgzfs/file.go b/internal/tgzfs/file.go
index e3d3be4..a707fac 100644
--- a/internal/tgzfs/file.go
+++ b/internal/tgzfs/file.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"io"
 	"os"
+	"sort"
 )
 
 // file represents a file in the tarball.
@@ -42,6 +43,9 @@ func (f *file) open() *fileHandle {
 	for _, v := range f.children {
 		h.listing = append(h.listing, v.fi)
 	}
+	sort.Slice(h.listing, func(i, j int) bool {
+		return h.listing[i].Name() < h.listing[j].Name()
+	})
 	return h
 }
 
@@ -62,17 +66,21 @@ func (h *fileHandle) Read(p []byte) (int, error) {
 	return h.data.Read(p)
 }
 
-// Readdir reads up to count entries from the listing and returns them.
+// Readdir reads up to count entries from the listing and returns them. If the
+// count is not positive, it returns all of the remaining entries.
 func (h *fileHandle) Readdir(count int) (entries []os.FileInfo, err error) {
+	if count <= 0 {
+		entries, h.listing = h.listing, nil
+		return entries, nil
+	}
 	if len(h.listing) == 0 {
 		return nil, io.EOF
 	}
 	if len(h.listing) < count {
 		count = len(h.listing)
 	}
-	listing := h.listing[:count]
-	h.listing = h.listing[:len(h.listing)-len(listing)]
-	return listing, nil
+	entries, h.listing = h.listing[:count], h.listing[count:]
+	return entries, nil
 }
 
 // Seek sets the position into the file handle.
-- 
2.43.0


From 88d255db3d7ff565d6da5aaf0742cc74e75a736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:09 +0000
Subject: [PATCH 45/63] fix: directories without an entry in the static archive
 crashed the handler

---
 internal/tgzfs/fs.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/internal/tgzfs/fs.go b/internal/tgzfs/fs.go
index b7b3267..9d5574a 100644
--- a/internal/tgzfs/fs.go
+++ b/internal/tgzfs/fs.go
@@ -20,15 +20,16 @@ import (
 // rootMtime is the mtime for the root file.
 var rootMtime = time.Now()
 
-// rootFileInfo is a fake file info for the root of the tree.
-type rootFileInfo struct{}
+// dirFileInfo is a fake file info for the root of the tree, and for any
+// directories that have no entry in the tarball.
+type dirFileInfo struct{ name string }
 
-func (r rootFileInfo) Name() string       { return "" }
-func (r rootFileInfo) Size() int64        { return 0 }
-func (r rootFileInfo) Mode() os.FileMode  { return os.ModeDir }
-func (r rootFileInfo) ModTime() time.Time { return rootMtime }
-func (r rootFileInfo) IsDir() bool        { return true }
-func (r rootFileInfo) Sys() interface{}   { return nil }
+func (d dirFileInfo) Name() string       { return d.name }
+func (d dirFileInfo) Size() int64        { return 0 }
+func (d dirFileInfo) Mode() os.FileMode  { return os.ModeDir }
+func (d dirFileInfo) ModTime() time.Time { return rootMtime }
+func (d dirFileInfo) IsDir() bool        { return true }
+func (d dirFileInfo) Sys() interface{}   { return nil }
 
 // FS is an http.FileServer for a tarball.
 type FS struct {
@@ -46,7 +47,7 @@ func New(data []byte) (*FS, error) {
 	fs := &FS{
 		root: newFile(),
 	}
-	fs.root.setFileInfo(rootFileInfo{})
+	fs.root.setFileInfo(dirFileInfo{})
 
 	tardata := tar.NewReader(gzdata)
 	for {
@@ -96,6 +97,7 @@ func (fs *FS) getFile(path string, alloc bool) *file {
 				return fs.def
 			}
 			child = newFile()
+			child.setFileInfo(dirFileInfo{name: part})
 			children[part] = child
 		}
 	}
-- 
2.43.0


From 691b3cdabf0af83441095ef52451017c2edd0836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 46/63] fix: archives with an entry for their root listed it
 inside of itself

---
 internal/tgzfs/fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tgzfs/fs.go b/internal/tgzfs/fs.go
index 9d5574a..e926eb4 100644
--- a/internal/tgzfs/fs.go
+++ b/internal/tgzfs/fs.go
@@ -87,7 +87,7 @@ func splitPath(p string) []string {
 func (fs *FS) getFile(path string, alloc bool) *file {
 	child := fs.root
 	for _, part := range splitPath(path) {
-		if len(part) == 0 {
+		if len(part) == 0 || part == "." {
 			continue
 		}
 		children := child.children
-- 
2.43.0


From 3027349a9bbef714b9f3769a97d72a263476bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 47/63] fix: the default page was served as an unexecuted
 template

---
 internal/tmplfs/fs.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/tmplfs/fs.go b/internal/tmplfs/fs.go
index da37a27..6788dee 100644
--- a/internal/tmplfs/fs.go
+++ b/internal/tmplfs/fs.go
@@ -45,10 +45,6 @@ func (w *wrapper) Open(name string) (f http.File, err error) {
 		return nil, err
 	}
 
-	if !strings.HasSuffix(name, ".html") {
-		return f, nil
-	}
-
 	// close only if we have any errors
 	defer func() {
 		if err != nil {
@@ -56,6 +52,16 @@ func (w *wrapper) Open(name string) (f http.File, err error) {
 		}
 	}()
 
+	// the file opened may have a different name than what was asked for when
+	// it is the default of the file system.
+	info, err := f.Stat()
+	if err != nil {
+		return nil, err
+	}
+	if info.IsDir() || !strings.HasSuffix(info.Name(), ".html") {
+		return f, nil
+	}
+
 	// TODO(jeff): caching of the parsed template?
 
 	data, err := ioutil.ReadAll(f)
-- 
2.43.0


From bec4405ec860ca578862c93c9d289afe3b7b5126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 48/63] fix: a page that is not a valid template crashed the
 handler

---
 internal/tmplfs/fs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tmplfs/fs.go b/internal/tmplfs/fs.go
index 6788dee..e10eb43 100644
--- a/internal/tmplfs/fs.go
+++ b/internal/tmplfs/fs.go
@@ -39,8 +39,8 @@ type wrapper struct {
 }
 
 // Open implements http.FileSystem and processes any html files as a template.
-func (w *wrapper) Open(name string) (f http.File, err error) {
-	f, err = w.fs.Open(name)
+func (w *wrapper) Open(name string) (_ http.File, err error) {
+	f, err := w.fs.Open(name)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4dbffb7730526ca4c50497b808f6d719952ac653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 49/63] fix: some malformed configurations crashed the program

---
 config/load.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/config/load.go b/config/load.go
index 8c5aacc..42d9fd4 100644
--- a/config/load.go
+++ b/config/load.go
@@ -4,8 +4,20 @@ package config
 
 import (
 	"github.com/BurntSushi/toml"
+	"github.com/zeebo/errs"
 )
 
+// unmarshal parses the data as toml into the value. The toml package panics on
+// some malformed inputs, which are errors in the input like any other.
+func unmarshal(data []byte, v interface{}) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = errs.New("malformed config: %v", r)
+		}
+	}()
+	return toml.Unmarshal(data, v)
+}
+
 // Load takes a toml file and parses it into a Config.
 func Load(data []byte) (*Config, error) {
 	// tomlConfig somewhat mirrors Config except it contains tags to marshal
@@ -33,7 +45,7 @@ func Load(data []byte) (*Config, error) {
 		} `toml:"api"`
 	}
 
-	if err := toml.Unmarshal(data, &tomlConfig); err != nil {
+	if err := unmarshal(data, &tomlConfig); err != nil {
 		return nil, ParseError.Wrap(err)
 	}
 
-- 
2.43.0


From 6878e1cf1950a03b3eb18df3584b234c3f741335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 50/63] fix: records without room for any data crashed the
 writer

---
 database/files/record.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database/files/record.go b/database/files/record.go
index f0e5537..7c7ab30 100644
--- a/database/files/record.go
+++ b/database/files/record.go
@@ -136,6 +136,9 @@ func numRecords(len, size int) int {
 	if len == 0 {
 		return 1
 	}
+	if chunk == 0 {
+		return 0
+	}
 	return (len + chunk - 1) / chunk
 }
 
-- 
2.43.0


From 028f43c44e4a9ae75957b0150590cc5beaf62a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 51/63] fix: asserting a negative index crashed

---
 internal/typeassert/asserter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/typeassert/asserter.go b/internal/typeassert/asserter.go
index 439eefe..cd3a389 100644
--- a/internal/typeassert/asserter.go
+++ b/internal/typeassert/asserter.go
@@ -83,7 +83,7 @@ func (a *Asserter) N(index int) *Asserter {
 			a.x, a.path)
 		return a
 	}
-	if index >= len(m) {
+	if index < 0 || index >= len(m) {
 		*a.err = errs.New("array out of bounds")
 		return a
 	}
-- 
2.43.0


From 8e62b3daa2676a11f0b25a6ff53c38bf218833f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 52/63] fix: unusable settings of the files database crashed
 the program or stored nothing

---
 database/files/register.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/database/files/register.go b/database/files/register.go
index 9861c25..f54dd15 100644
--- a/database/files/register.go
+++ b/database/files/register.go
@@ -30,6 +30,28 @@ func init() {
 				return nil, err
 			}
 
+			if err := checkOptions(opts); err != nil {
+				return nil, err
+			}
+
 			return New(dir, opts), nil
 		}))
 }
+
+// checkOptions returns an error if a database with the options could not run,
+// or could not store anything.
+func checkOptions(opts Options) error {
+	if numRecords(1, opts.Size) == 0 {
+		return Error.New("invalid size: %d", opts.Size)
+	}
+	if opts.Cap < 1 {
+		return Error.New("invalid cap: %d", opts.Cap)
+	}
+	if b := opts.Tuning.Buffer; b < 0 || int(int32(b)) != b {
+		return Error.New("invalid buffer: %d", b)
+	}
+	if w := opts.Tuning.Workers; w < 0 || int(int16(w)) != w {
+		return Error.New("invalid workers: %d", w)
+	}
+	return nil
+}
-- 
2.43.0


From 43fc1442566396d3306599629c96bc1ccfed3296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 53/63] fix: a maker that uses the registry itself deadlocked

---
 registry/registry.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/registry/registry.go b/registry/registry.go
index d29ef21..05fa9f9 100644
--- a/registry/registry.go
+++ b/registry/registry.go
@@ -38,9 +38,9 @@ func (r *Registry) NewListener(ctx context.Context, name string,
 	config interface{}) (listener.Listener, error) {
 
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.listeners[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
@@ -65,9 +65,9 @@ func (r *Registry) NewDatabase(ctx context.Context, name string,
 	config interface{}) (database.DB, error) {
 
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.databases[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
@@ -93,9 +93,9 @@ func (r *Registry) NewDistribution(ctx context.Context, name string,
 	config interface{}) (dist.Params, error) {
 
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.distributions[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
-- 
2.43.0


From f80c4996018bb4ae2530b295f5b6a8acecf6dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 54/63] fix: sizes that cannot hold the metadata of a file
 failed every write

---
 database/files/register.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/database/files/register.go b/database/files/register.go
index f54dd15..8d22b5d 100644
--- a/database/files/register.go
+++ b/database/files/register.go
@@ -4,6 +4,7 @@ package files
 
 import (
 	"context"
+	"encoding/binary"
 
 	"github.com/vivint/rothko/database"
 	"github.com/vivint/rothko/internal/typeassert"
@@ -41,7 +42,11 @@ func init() {
 // checkOptions returns an error if a database with the options could not run,
 // or could not store anything.
 func checkOptions(opts Options) error {
-	if numRecords(1, opts.Size) == 0 {
+	// the metadata of a file is five integers and must fit in a record.
+	const metadataSize = 5 * (1 + binary.MaxVarintLen64)
+	if numRecords(1, opts.Size) == 0 ||
+		opts.Size < recordHeaderSize+metadataSize {
+
 		return Error.New("invalid size: %d", opts.Size)
 	}
 	if opts.Cap < 1 {
-- 
2.43.0


From ccb8ddd3a47057be470f2392c4b53f2092bef4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 55/63] fix: signals stayed without effect after their context
 was canceled

---
 internal/junk/signal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/junk/signal.go b/internal/junk/signal.go
index fe769e5..fa552ef 100644
--- a/internal/junk/signal.go
+++ b/internal/junk/signal.go
@@ -19,6 +19,9 @@ func WithSignal(ctx context.Context, sigs ...os.Signal) (
 	signal.Notify(ch, sigs...)
 
 	go func() {
+		// once we're done, the signals have their usual effect again.
+		defer signal.Stop(ch)
+
 		select {
 		case <-ctx.Done():
 		case sig := <-ch:
@@ -26,7 +29,6 @@ func WithSignal(ctx context.Context, sigs ...os.Signal) (
 				"signal", sig.String(),
 			)
 			cancel()
-			signal.Stop(ch)
 		}
 	}()
 
-- 
2.43.0


From b7fa806b5b1f1d28d440151ff93befb268b0f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 56/63] fix: refuse only sizes that cannot hold the metadata of
 a file

---
 database/files/register.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/database/files/register.go b/database/files/register.go
index 8d22b5d..2212fe0 100644
--- a/database/files/register.go
+++ b/database/files/register.go
@@ -4,9 +4,10 @@ package files
 
 import (
 	"context"
-	"encoding/binary"
+	"math"
 
 	"github.com/vivint/rothko/database"
+	"github.com/vivint/rothko/database/files/internal/meta"
 	"github.com/vivint/rothko/internal/typeassert"
 	"github.com/vivint/rothko/registry"
 )
@@ -42,10 +43,16 @@ func init() {
 // checkOptions returns an error if a database with the options could not run,
 // or could not store anything.
 func checkOptions(opts Options) error {
-	// the metadata of a file is five integers and must fit in a record.
-	const metadataSize = 5 * (1 + binary.MaxVarintLen64)
+	// the metadata of a file must always fit in a record.
+	largest := meta.Metadata{
+		Size_:       opts.Size,
+		Head:        opts.Cap,
+		Start:       math.MaxInt64,
+		End:         math.MaxInt64,
+		SmallestEnd: math.MaxInt64,
+	}
 	if numRecords(1, opts.Size) == 0 ||
-		opts.Size < recordHeaderSize+metadataSize {
+		opts.Size < recordHeaderSize+largest.Size() {
 
 		return Error.New("invalid size: %d", opts.Size)
 	}
-- 
2.43.0


From 09cfd285a9b829f3ffac460f3f402c2e7d756e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:34 +0000
Subject: [PATCH 57/63] fix: demo hung on a database that drops values

---
 demo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demo.go b/demo.go
index c1ddc16..bea0da2 100644
--- a/demo.go
+++ b/demo.go
@@ -145,7 +145,8 @@ func addDemoData(ctx context.Context, params dist.Params, db database.DB) (
 		observations = 300            // number of observations per record
 	)
 
-	errors := make(chan error)
+	// buffered because the callback may be called before Queue returns
+	errors := make(chan error, 1)
 	now := time.Now()
 	start := now.Add(-duration)
 	tdelta := now.Sub(start) / records
-- 
2.43.0


From 1402cb58b2d48b62e1a19fb70d75ed533edfc523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 58/63] fix: a database without a directory listed the root of
 the file system

---
 database/files/db.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/files/db.go b/database/files/db.go
index c438587..7b82924 100644
--- a/database/files/db.go
+++ b/database/files/db.go
@@ -115,6 +115,11 @@ type queuedValue struct {
 // New constructs a database with directory rooted at dir and the provided
 // options.
 func New(dir string, opts Options) *DB {
+	// no directory means the current one, for every use of it
+	if dir == "" {
+		dir = "."
+	}
+
 	// set up the number of workers
 	if opts.Tuning.Workers == 0 {
 		opts.Tuning.Workers = runtime.GOMAXPROCS(-1) - 1
-- 
2.43.0


From 94b3aeb09b51f39acee573010f1b6509af1912ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:36 +0000
Subject: [PATCH 59/63] fix: large handle limits crashed the program or used
 memory for every handle

---
 database/files/cache.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/database/files/cache.go b/database/files/cache.go
index b5e4f9f..b436bf6 100644
--- a/database/files/cache.go
+++ b/database/files/cache.go
@@ -39,8 +39,7 @@ type cache struct {
 func newCache(cap int) *cache {
 	return &cache{
 		cap:     cap,
-		order:   make([]cacheToken, 0, cap),
-		handles: make(map[cacheToken]cacheEntry, cap),
+		handles: make(map[cacheToken]cacheEntry),
 		pcg:     pcg.New(0, 0), // we could introduce entropy here
 	}
 }
@@ -95,7 +94,7 @@ func (c *cache) Put(f file) (tok cacheToken, ev file, ok bool) {
 	}
 
 	// if we have capacity, just add it and don't evict anything.
-	if len(c.order) < cap(c.order) {
+	if len(c.order) < c.cap {
 		c.handles[entry.tok] = entry
 		c.order = append(c.order, entry.tok)
 
@@ -103,7 +102,7 @@ func (c *cache) Put(f file) (tok cacheToken, ev file, ok bool) {
 	}
 
 	// if we never have capacity, return that we evicted the file that was put.
-	if cap(c.order) == 0 {
+	if c.cap == 0 {
 		return entry.tok, f, true
 	}
 
-- 
2.43.0


From 008aea2265d6748e3190dd442cbb33e73d0669f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 60/63] fix: refuse capacities that no file can be created with

---
 database/files/file.go     | 23 ++++++++++++++---------
 database/files/register.go |  2 +-
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/database/files/file.go b/database/files/file.go
index 37e62a0..7347334 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -47,15 +47,7 @@ func createFile(ctx context.Context, path string, size, cap int) (
 	}()
 	fd := int(fh.Fd())
 
-	// these overflow checks might be too restrictive, but i think it will
-	// go up to 1GB at least, so meh that's probably good enough. we can
-	// revisit making them up to a larger size size later, though the system
-	// will probably struggle with that anyway.
-	if cap+1 < cap ||
-		int(int32(cap)) != cap ||
-		int(int32(size)) != size ||
-		int32(size)*int32(cap)/int32(cap) != int32(size) {
-
+	if capacityTooLarge(size, cap) {
 		return file{}, Error.New("capacity too large")
 	}
 
@@ -94,6 +86,19 @@ func createFile(ctx context.Context, path string, size, cap int) (
 	}, nil
 }
 
+// capacityTooLarge returns if a file for cap records of the size would be too
+// large to create.
+func capacityTooLarge(size, cap int) bool {
+	// these overflow checks might be too restrictive, but i think it will
+	// go up to 1GB at least, so meh that's probably good enough. we can
+	// revisit making them up to a larger size size later, though the system
+	// will probably struggle with that anyway.
+	return cap+1 < cap ||
+		int(int32(cap)) != cap ||
+		int(int32(size)) != size ||
+		int32(size)*int32(cap)/int32(cap) != int32(size)
+}
+
 // openFile returns a file for the given path.
 func openFile(ctx context.Context, path string) (f file, err error) {
 	fh, err := os.OpenFile(path, os.O_RDWR, 0)
diff --git a/database/files/register.go b/database/files/register.go
index 2212fe0..cb9017a 100644
--- a/database/files/register.go
+++ b/database/files/register.go
@@ -56,7 +56,7 @@ func checkOptions(opts Options) error {
 
 		return Error.New("invalid size: %d", opts.Size)
 	}
-	if opts.Cap < 1 {
+	if opts.Cap < 1 || capacityTooLarge(opts.Size, opts.Cap) {
 		return Error.New("invalid cap: %d", opts.Cap)
 	}
 	if b := opts.Tuning.Buffer; b < 0 || int(int32(b)) != b {
-- 
2.43.0


From bd4c08f4a1f6cb0fdef8c4353a54786e9b2dd2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:35 +0000
Subject: [PATCH 61/63] fix: failed requests were logged with status 0

---
 api/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/server.go b/api/server.go
index 233cd98..a489f46 100644
--- a/api/server.go
+++ b/api/server.go
@@ -86,8 +86,8 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 	tracker := &respTracker{ResponseWriter: w, wrote: false, code: 0}
 	if err := s.serveHTTP(req.Context(), tracker, req); err != nil {
 		if !tracker.wrote {
-			w.WriteHeader(getStatusCode(err))
-			fmt.Fprintf(w, "%+v\n", err)
+			tracker.WriteHeader(getStatusCode(err))
+			fmt.Fprintf(tracker, "%+v\n", err)
 		}
 	}
 
-- 
2.43.0


From 05ac9f5bd3ae11fa1633df7b9c2ed12ae99cb528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 62/63] fix: values stay in order when the newest file has
 nothing readable

A write was compared only with the records of the last file, so when none of
them could be read, a value that is not later than ones in earlier files was
stored.
---
 database/files/metric.go | 61 ++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 5c10f67..938f05a 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -205,6 +205,43 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 	return file{}, 0, Error.New("unable to acquire last file")
 }
 
+// newestEnd returns the end time of the newest record of the file that can be
+// read, given where its records start. records that cannot be read (torn
+// writes, checksums, etc) are skipped, like in Read, because they will never
+// become readable.
+func newestEnd(ctx context.Context, f file, head int) (end int64, ok bool) {
+	for n := head; n < f.Capacity(); n++ {
+		rec, err := f.Record(ctx, n)
+		if err != nil {
+			external.Errorw("error reading record",
+				"err", err,
+			)
+			continue
+		}
+		return rec.end, true
+	}
+	return 0, false
+}
+
+// newestEndAt is like newestEnd for the data file at the index. a file that
+// cannot be read has no records that can.
+func (m *metric) newestEndAt(ctx context.Context, index int) (
+	end int64, ok bool) {
+
+	path := m.filenameAt(index)
+	f, err := m.opts.fch.acquireFile(ctx, path, true)
+	if err != nil {
+		return 0, false
+	}
+	defer m.opts.fch.releaseFile(path, f)
+
+	head, err := getHeadPointer(ctx, f)
+	if err != nil {
+		return 0, false
+	}
+	return newestEnd(ctx, f, head+1)
+}
+
 // Write stores the data in the metric if there is room and the data is
 // chronologically later than the last data stored. additionally, it cleans
 // any files older than max if it had to allocate a new file. it returns if
@@ -227,21 +264,15 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	// point head at the first valid record (or out of bounds at the capacity)
 	head++
 
-	// if the last file has a record, ensure monotonicity with it. records that
-	// cannot be read (torn writes, checksums, etc) are skipped, like in Read,
-	// because they will never become readable.
-	for n := head; n < f.Capacity(); n++ {
-		last_rec, err := f.Record(ctx, n)
-		if err != nil {
-			external.Errorw("error reading record",
-				"err", err,
-			)
-			continue
-		}
-		if last_rec.end >= end {
-			return false, nil
-		}
-		break
+	// ensure monotonicity with the newest record that can be read. usually it
+	// is the first one in the last file, but if none of those can be read, it
+	// is in some earlier file.
+	newest, found := newestEnd(ctx, f, head)
+	for num := m.last - 1; !found && num >= m.first; num-- {
+		newest, found = m.newestEndAt(ctx, num)
+	}
+	if found && newest >= end {
+		return false, nil
 	}
 
 	// ensure we have capacity to write the value in the last file and create
-- 
2.43.0


From 740759d29d5dfb4001b5cd63ec186510f35dae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:14 +0000
Subject: [PATCH 63/63] fix: a shortage of descriptors ended the server without
 storing its values

---
 listener/graphite/listener.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/listener/graphite/listener.go b/listener/graphite/listener.go
index 9815bfa..c2b78c2 100644
--- a/listener/graphite/listener.go
+++ b/listener/graphite/listener.go
@@ -9,12 +9,17 @@ import (
 	"net"
 	"strconv"
 	"sync"
+	"time"
 
 	"github.com/vivint/rothko/data"
 	"github.com/vivint/rothko/external"
 	"github.com/zeebo/errs"
 )
 
+// acceptDelay is how long to wait before accepting connections again after it
+// failed for a reason that is temporary.
+const acceptDelay = 10 * time.Millisecond
+
 // Listener implements the listener.Listener for the graphite wire protocol.
 type Listener struct {
 	address string
@@ -68,7 +73,21 @@ func handleListener(ctx context.Context, w *data.Writer, lis net.Listener) (
 	for {
 		conn, err := lis.Accept()
 		if err != nil {
-			return err
+			// running out of resources like file descriptors does not last, so
+			// it is not a reason to stop listening.
+			if ne, ok := err.(net.Error); !ok || !ne.Temporary() {
+				return err
+			}
+			external.Errorw("graphite accept error",
+				"err", err.Error(),
+			)
+
+			select {
+			case <-time.After(acceptDelay):
+				continue
+			case <-ctx.Done():
+				return nil
+			}
 		}
 		wg.Add(1)
 		go func() {
-- 
2.43.0

