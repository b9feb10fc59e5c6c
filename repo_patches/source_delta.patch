From e9e6acf8c5990a72eb1de15149580bb9d123b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 01/33] fix: refuse record sizes without room for payload

A slot of exactly the header size made numRecords divide by zero and
iterateRecords loop forever.
---
 database/files/record.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/files/record.go b/database/files/record.go
index f0e5537..a7cb0a8 100644
--- a/database/files/record.go
+++ b/database/files/record.go
@@ -130,7 +130,7 @@ func parse(buf []byte) (out record, err error) {
 // size is not in a range that is valid.
 func numRecords(len, size int) int {
 	chunk := size - recordHeaderSize
-	if chunk < 0 || int(uint16(chunk)) != chunk {
+	if chunk <= 0 || int(uint16(chunk)) != chunk {
 		return 0
 	}
 	if len == 0 {
@@ -147,7 +147,7 @@ func iterateRecords(start, end int64, data []byte, size int,
 	fn func(rec record) error) error {
 
 	chunk := size - recordHeaderSize
-	if chunk < 0 || int(uint16(chunk)) != chunk {
+	if chunk <= 0 || int(uint16(chunk)) != chunk {
 		return Error.New("invalid size value")
 	}
 
-- 
2.43.0


From 0f34aff8573ed1889ae278ce742fd26cdb2ad100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 02/33] fix: keep looking in older files when a file has
 nothing before the end

Read stopped at the first file whose values all end at or after the bound
instead of skipping it, so queries for older data returned nothing.
---
 database/files/metric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 562a5dd..44fd7b8 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -360,7 +360,7 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 				return false, err
 			}
 			if meta.SmallestEnd >= end {
-				return false, nil
+				return true, nil
 			}
 
 			capacity := f.Capacity()
-- 
2.43.0


From cf2ea85f48025addc0216d4c9be6c3f4370ae753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 03/33] fix: do not cache the handle of a removed data file

An empty last file was put back in the handle cache and then removed. When
the file was needed again, the cached mapping of the removed file was used
and the values written through it were lost.
---
 database/files/metric.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 44fd7b8..b0a1c5d 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -196,8 +196,9 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 		// there exists one.
 		if head == f.Capacity()-1 && m.last > m.first {
 			// since this file is empty and there is an earlier file, we should
-			// remove it.
-			m.opts.fch.releaseFile(path, f)
+			// remove it. the handle must not go back into the cache: a later
+			// file at the same path would be written through it.
+			f.Close()
 			os.Remove(path)
 			m.last--
 
-- 
2.43.0


From 0a603a4731c8f20b7e933540f0b7d586411af466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 04/33] fix: check that a value fits in a data file before
 rotating

A value as large as a whole file was refused when the first file held
exactly one record, and a value larger than a file rotated the files,
discarding the oldest one, before it was refused.
---
 database/files/metric.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index b0a1c5d..1ea157f 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -247,11 +247,14 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		return false, Error.New("unable to compute number of records")
 	}
 	if head-nr < 0 {
-		last_rec := f.Capacity() - 1
-
-		// if this is the first write to an empty file, then we will not be
-		// able to write it.
-		if m.last == 1 && head == last_rec {
+		// a new file only helps if the value fits in an empty one. check that
+		// before any older file is removed.
+		opts := m.opts.fch.opts
+		nr := numRecords(len(data), opts.Size)
+		if nr == 0 {
+			return false, Error.New("unable to compute number of records")
+		}
+		if nr > opts.Cap {
 			return false, Error.New("value too large for empty file")
 		}
 
-- 
2.43.0


From e0237c727267758f6c35a741dbbcb95a646fa3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 05/33] fix: never record a smallest end above the oldest value
 in the file

A value that ends at zero, or one whose metadata update did not happen,
left the smallest end unset. The next write then set it to its own end and
queries bounded between the two skipped the file.
---
 database/files/metric.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/database/files/metric.go b/database/files/metric.go
index 1ea157f..f5a6142 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -322,6 +322,14 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	}
 	if meta.SmallestEnd == 0 || end < meta.SmallestEnd {
 		meta.SmallestEnd = end
+
+		// the oldest value is always in the last record. the metadata may not
+		// know about it if it ends at zero or if we were stopped before the
+		// metadata was updated.
+		oldest, err := f.Record(ctx, f.Capacity()-1)
+		if err == nil && oldest.end < end {
+			meta.SmallestEnd = oldest.end
+		}
 	}
 
 	err = f.SetMetadata(ctx, meta)
-- 
2.43.0


From d26978cba5667e40d5ef1ed99aedc97f5df02fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 06/33] fix: keep accepting writes when the newest record is
 damaged

A newest record that could not be read, like one that was only partly
written when the process was killed, made every later write to the metric
fail. Compare with the newest readable record instead.
---
 database/files/metric.go | 49 ++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index f5a6142..57ab6cb 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -212,6 +212,39 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 	return file{}, 0, Error.New("unable to acquire last file")
 }
 
+// newestEnd returns the end of the newest record that can be read, where f is
+// the last file and head points at its first record. found is false if there
+// is no such record. Like in Read, records with errors (checksums, etc) are
+// skipped, so that a damaged record does not keep the metric from being
+// written to.
+func (m *metric) newestEnd(ctx context.Context, f file, head int) (
+	end int64, found bool, err error) {
+
+	for ; head < f.Capacity(); head++ {
+		rec, err := f.Record(ctx, head)
+		if err == nil {
+			return rec.end, true, nil
+		}
+	}
+
+	for num := m.last - 1; num >= m.first && !found; num-- {
+		path := m.filenameAt(num)
+		f, err := m.opts.fch.acquireFile(ctx, path, true)
+		if err != nil {
+			return 0, false, err
+		}
+		for n := 0; n < f.Capacity() && !found; n++ {
+			if f.HasRecord(ctx, n) {
+				rec, err := f.Record(ctx, n)
+				end, found = rec.end, err == nil
+			}
+		}
+		m.opts.fch.releaseFile(path, f)
+	}
+
+	return end, found, nil
+}
+
 // Write stores the data in the metric if there is room and the data is
 // chronologically later than the last data stored. additionally, it cleans
 // any files older than max if it had to allocate a new file. it returns if
@@ -229,15 +262,13 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	// point head at the first valid record (or out of bounds at the capacity)
 	head++
 
-	// if the last file has a record, ensure monotonicity with it.
-	if f.HasRecord(ctx, head) {
-		last_rec, err := f.Record(ctx, head)
-		if err != nil {
-			return false, err
-		}
-		if last_rec.end >= end {
-			return false, nil
-		}
+	// ensure monotonicity with the newest record.
+	last_end, found, err := m.newestEnd(ctx, f, head)
+	if err != nil {
+		return false, err
+	}
+	if found && last_end >= end {
+		return false, nil
 	}
 
 	// ensure we have capacity to write the value in the last file and create
-- 
2.43.0


From e7a26739bbae0a88ceb33f2077f901b54caaf13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 07/33] fix: return the value after an incomplete one

When a value spanning several records was cut short, the first record of
the next value was consumed while looking for its end, so that value was
dropped, too.
---
 database/files/metric.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 57ab6cb..431d97e 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -497,11 +497,13 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 					// if we see anything other than an end at this point, it's
 					// definitely a problem.
 					if rec.kind != recordKind_end {
-						// drop any records we have with errors
+						// drop any records we have with errors. this record
+						// may be the start of another value, though.
 						external.Errorw("invalid record kind",
 							"kind", rec.kind,
 							"expected", recordKind_end,
 						)
+						head--
 						continue new_record
 					}
 
-- 
2.43.0


From 56aec4770c5534bdada5ac6cc180c76fee4c4300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 08/33] fix: never leave an unusable data file behind

If creating a data file failed or the process was killed meanwhile, a file
without metadata was left in place and the metric could neither be read nor
written any more. Set the file up under a temporary name and rename it.
Also release the mapping when the metadata is invalid.
---
 database/files/file.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/database/files/file.go b/database/files/file.go
index 88f3395..f341a27 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -32,11 +32,19 @@ type file struct {
 func createFile(ctx context.Context, path string, size, cap int) (
 	f file, err error) {
 
-	fh, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	// the file is set up under a temporary name, so that neither an error nor
+	// the process being killed leaves an unusable file at the path.
+	tmp := path + ".tmp"
+	fh, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return file{}, Error.Wrap(err)
 	}
 	defer fh.Close()
+	defer func() {
+		if err != nil {
+			os.Remove(tmp)
+		}
+	}()
 	fd := int(fh.Fd())
 
 	// these overflow checks might be too restrictive, but i think it will
@@ -68,9 +76,15 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		Head:  cap - 1,
 	})
 	if err != nil {
+		system.Munmap(data, len)
 		return file{}, err
 	}
 
+	if err := os.Rename(tmp, path); err != nil {
+		system.Munmap(data, len)
+		return file{}, Error.Wrap(err)
+	}
+
 	return file{
 		data: data,
 		len:  len,
@@ -110,10 +124,12 @@ func openFile(ctx context.Context, path string) (f file, err error) {
 	// file.
 	meta, err := readMetadata(slice(data, len))
 	if err != nil {
+		system.Munmap(data, len)
 		return f, err
 	}
 
 	if meta.Size_ < recordHeaderSize {
+		system.Munmap(data, len)
 		return f, Error.New("possible corruption: invalid size")
 	}
 
-- 
2.43.0


From 5678334810ca59d0ab0c728f8c3513818f25fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 09/33] fix: do not trust the sizes and positions in damaged
 metadata

A record size larger than the file made every access panic, and a head
position outside of the file made searching for the head loop forever.
---
 database/files/file.go     | 2 +-
 database/files/file_ops.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/database/files/file.go b/database/files/file.go
index f341a27..946c89f 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -128,7 +128,7 @@ func openFile(ctx context.Context, path string) (f file, err error) {
 		return f, err
 	}
 
-	if meta.Size_ < recordHeaderSize {
+	if meta.Size_ < recordHeaderSize || meta.Size_ > len {
 		system.Munmap(data, len)
 		return f, Error.New("possible corruption: invalid size")
 	}
diff --git a/database/files/file_ops.go b/database/files/file_ops.go
index 310e880..ce892ee 100644
--- a/database/files/file_ops.go
+++ b/database/files/file_ops.go
@@ -12,9 +12,13 @@ func getHeadPointer(ctx context.Context, f file) (n int, err error) {
 		return 0, err
 	}
 
+	// it is only a hint, so don't let it point outside of the file.
 	head := m.Head
 	if head < 0 {
-		return head, nil
+		return -1, nil
+	}
+	if head >= f.Capacity() {
+		head = f.Capacity() - 1
 	}
 
 	// figure out if head has a record. typically, it won't.
-- 
2.43.0


From a83bb12f3f3aea3d2fe6e097b29ae51d0f82448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 10/33] fix: let wildcards match an empty rest of a component

---
 api/query/glob.go |  7 ++++++-
 api/query/spec.go | 30 +++++++++++++++++-------------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/api/query/glob.go b/api/query/glob.go
index 7ff235a..b0520c7 100644
--- a/api/query/glob.go
+++ b/api/query/glob.go
@@ -12,7 +12,12 @@ func glob(pattern, name string) bool {
 
 	for px < len(pattern) {
 		if nx >= len(name) {
-			return false
+			// only wildcards can match the empty remainder
+			if pattern[px] != '*' {
+				return false
+			}
+			px++
+			continue
 		}
 		n := name[nx]
 		if 'A' <= n && n <= 'Z' {
diff --git a/api/query/spec.go b/api/query/spec.go
index ca083c3..0db1ded 100644
--- a/api/query/spec.go
+++ b/api/query/spec.go
@@ -48,31 +48,35 @@ func globify(part string) string {
 // Match returns true if the spec matches the metric.
 func (s spec) Match(metric string) bool {
 top:
-	for {
-		if len(metric) == 0 {
-			return false
-		}
-
+	for more := true; more; {
 		var part string
-		part, metric = splitMetric(metric)
+		part, metric, more = splitMetric(metric)
 
-		tail := metric
-		for _, g := range s.globs {
+		tail, ok := metric, more
+		for i, g := range s.globs {
+			if i > 0 {
+				if !ok {
+					continue top
+				}
+				part, tail, ok = splitMetric(tail)
+			}
 			if !glob(g, part) {
 				continue top
 			}
-			part, tail = splitMetric(tail)
 		}
 
 		return true
 	}
+
+	return false
 }
 
-// splitMetric pulls off the first dot separated component of the metric.
-func splitMetric(metric string) (prefix, suffix string) {
+// splitMetric pulls off the first dot separated component of the metric. It
+// returns false if there are no components after it.
+func splitMetric(metric string) (prefix, suffix string, more bool) {
 	index := strings.IndexByte(metric, '.')
 	if index == -1 {
-		return metric, ""
+		return metric, "", false
 	}
-	return metric[:index], metric[index+1:]
+	return metric[:index], metric[index+1:], true
 }
-- 
2.43.0


From 893f2948f7bc67cf4b2e9c95789ac46c7da47e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 11/33] fix: record a value and its extremes in one critical
 section

Observe updated the extremes in a second critical section, so concurrent
calls lost them and records with a missing value could be delivered. It also
returned with the mutex held when the distribution could not be created, and
Finish used a missing distribution, or one that was being changed.
---
 data/agg.go    | 64 ++++++++++++++++++++++++++------------------------
 data/writer.go |  6 +++++
 2 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/data/agg.go b/data/agg.go
index 9a3a1a8..853e688 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -33,58 +33,60 @@ func newAgg(params dist.Params, now time.Time) *agg {
 // if it used.
 func (a *agg) Observe(val float64, id []byte) {
 	a.mu.Lock()
+	defer a.mu.Unlock()
 
 	// add the value into the digest, initializing it if necessary
 	if a.dist == nil {
 		dist, err := a.params.New()
-		if err == nil {
-			a.dist = dist
-		} else {
+		if err != nil {
 			return
 		}
+		a.dist = dist
 	}
 	a.dist.Observe(val)
 
-	// keep track of min, max and obs to update them after dropping the mutex
-	// and bump observations.
-	min, max, obs := a.rec.Min, a.rec.Max, a.rec.Observations
+	// keep track of min and max and bump observations. this has to be in the
+	// same critical section, so that no other Observe or Finish works with a
+	// record that is missing the value.
+	first := a.rec.Observations == 0
 	a.rec.Observations++
 
-	a.mu.Unlock()
-
-	// in the common case we don't need to bump min and max, so we do a double
-	// check pattern to avoid as much critical section as possible.
-	if obs == 0 || val < min || val > max {
+	is_min := first || val < a.rec.Min
+	is_max := first || val > a.rec.Max
+	if !is_min && !is_max {
+		return
+	}
 
-		// we only make the copy if there's a good chance we'll be storing it.
-		// once again, we do this outside of the mutex to avoid as much
-		// critical section as possible.
-		var id_copy []byte
-		if id != nil {
-			id_copy = append(id_copy, id...)
-		}
+	// in the common case we don't need to bump min and max, so only make the
+	// copy when storing it.
+	var id_copy []byte
+	if id != nil {
+		id_copy = append(id_copy, id...)
+	}
 
-		a.mu.Lock()
-		if obs == 0 || val < a.rec.Min {
-			a.rec.Min = val
-			a.rec.MinId = id_copy
-		}
-		if obs == 0 || val > a.rec.Max {
-			a.rec.Max = val
-			a.rec.MaxId = id_copy
-		}
-		a.mu.Unlock()
+	if is_min {
+		a.rec.Min = val
+		a.rec.MinId = id_copy
+	}
+	if is_max {
+		a.rec.Max = val
+		a.rec.MaxId = id_copy
 	}
 }
 
 // Finish returns the aggregated record, using the buf to marshal the data
-// and returning the buf. Mutating the returned buf invalidates the record.
+// and returning the buf. Mutating the returned buf invalidates the record. If
+// nothing was observed, the record has no observations and no distribution.
 func (a *agg) Finish(buf []byte, now time.Time) ([]byte, Record) {
 	a.mu.Lock()
-	out := a.rec
-	a.mu.Unlock()
+	defer a.mu.Unlock()
 
+	out := a.rec
 	out.EndTime = now.In(time.UTC).UnixNano()
+	if a.dist == nil {
+		return buf, out
+	}
+
 	out.Kind = a.dist.Kind()
 	buf = a.dist.Marshal(buf[:0])
 	out.Distribution = buf
diff --git a/data/writer.go b/data/writer.go
index 180cd4d..f16d02f 100644
--- a/data/writer.go
+++ b/data/writer.go
@@ -115,6 +115,9 @@ func (s *Writer) Capture(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			return true
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
@@ -138,6 +141,9 @@ func (s *Writer) Iterate(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			return true
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
-- 
2.43.0


From af75c6416afd6380a880a4799e85d2d4d90263e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 12/33] fix: do not create data files when reading

---
 database/files/metric.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 431d97e..18f90a1 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -137,8 +137,12 @@ func newMetric(ctx context.Context, opts metricOptions) (*metric, error) {
 
 	// if we didn't set the first, create an empty file at 1. this simplifies
 	// the logic because we can from now on assume that at least one possibly
-	// empty file exists.
-	if !first_set {
+	// empty file exists. reading must not create files, though, because they
+	// would turn a directory that only contains other metrics into a metric,
+	// so the range of files is empty in that case.
+	if !first_set && opts.ro {
+		first, last = 1, 0
+	} else if !first_set {
 		path := fb.metricFilenameAt(dir, 1)
 		f, err := opts.fch.acquireFile(ctx, path, false)
 		if err != nil {
-- 
2.43.0


From 8b90c6fc3b9a93860bc85e6f8368471b979d26ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:57 +0000
Subject: [PATCH 13/33] fix: do not lose metric names in concurrent listings
 and rescans

Metrics merged worker names into the shared set in place, used worker sets
that had been replaced, and hid names while another call was merging them.
PopulateMetrics dropped names added while it was walking the directories.
---
 database/files/db_read.go | 68 +++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index e0b248c..7599922 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -53,48 +53,33 @@ func (db *DB) QueryLatest(ctx context.Context, metric string, buf []byte) (
 func (db *DB) Metrics(ctx context.Context,
 	cb func(name string) (bool, error)) (err error) {
 
+	// the whole merge has to be done under the names_mu mutex: otherwise, some
+	// concurrent call that has taken names out of a worker set but not stored
+	// the result yet would hide them, and stores could overwrite each other.
+	db.names_mu.Lock()
+
 	// load up the readonly names value
-	names, ok := db.names.Load().(*sset.Set)
-	if !ok {
-		names = sset.New(0)
-	}
+	names := db.loadNames()
 
-	// merge the worker sets in if we have a flag for it
+	// merge the worker sets in
 	copied := false
-	locked := false
-	for i, names_w := range db.names_w {
+	for i := range db.names_w {
 		db.names_w_mu[i].Lock()
-		len_names_w := names_w.Len()
-		db.names_w_mu[i].Unlock()
 
 		// skip if we don't need to merge it in
-		if len_names_w == 0 {
+		if db.names_w[i].Len() == 0 {
+			db.names_w_mu[i].Unlock()
 			continue
 		}
 
-		// lock the populating mutex if required
-		if !locked {
-			db.names_mu.Lock()
-			locked = true
-		}
-
-		// lock the worker map again. we drop the worker mutex to avoid
-		// deadlocks while taking the db.names_mu.
-		db.names_w_mu[i].Lock()
-
 		// lazily copy the names map to ensure it is readonly
-		// we reload the names map here after we have the mutex in case
-		// some concurrent Metrics call has updated the atomic.Value
 		if !copied {
-			new_names, ok := db.names.Load().(*sset.Set)
-			if ok && new_names.Len() > 0 {
-				names = new_names.Copy()
-			}
+			names = names.Copy()
 			copied = true
 		}
 
 		// merge the worker map in
-		names.Merge(names_w)
+		names.Merge(db.names_w[i])
 
 		// clear out the worker map
 		db.names_w[i] = sset.New(0)
@@ -106,10 +91,7 @@ func (db *DB) Metrics(ctx context.Context,
 		db.names.Store(names)
 	}
 
-	// if we locked, we can unlock now as we're done populating and storing
-	if locked {
-		db.names_mu.Unlock()
-	}
+	db.names_mu.Unlock()
 
 	// yay do callbacks
 	names.Iter(func(name string) (ok bool) {
@@ -122,6 +104,10 @@ func (db *DB) Metrics(ctx context.Context,
 // PopulateMetrics walks the directory tree of the metrics recreating the
 // in-memory cache of metric names. It should be called periodically.
 func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
+	db.names_mu.Lock()
+	before := db.loadNames()
+	db.names_mu.Unlock()
+
 	dp := newDBPopulator(db.dir)
 	switch err := dp.populate(ctx); {
 	case err == context.Canceled:
@@ -132,12 +118,30 @@ func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
 
 	// all stores to the names map have to be done under the names_mu mutex.
 	db.names_mu.Lock()
+	defer db.names_mu.Unlock()
+
+	// the walk may have missed metrics that were created during it, so keep
+	// the names that were added since it started.
+	db.loadNames().Iter(func(name string) bool {
+		if !before.Has(name) {
+			dp.out.Add(name)
+		}
+		return true
+	})
 	db.names.Store(dp.out)
-	db.names_mu.Unlock()
 
 	return nil
 }
 
+// loadNames returns the readonly set of names. it must not be modified.
+func (db *DB) loadNames() *sset.Set {
+	names, ok := db.names.Load().(*sset.Set)
+	if !ok {
+		names = sset.New(0)
+	}
+	return names
+}
+
 //
 // dbPopulator keeps track of some buffers to super efficiently walk the set
 // of metric names.
-- 
2.43.0


From c07dc94cb18bcd708b717af099f6ed47283f1f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 14/33] fix: skip foreign directories when finding metrics

---
 database/files/db_read.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index 7599922..ad3bde3 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -237,11 +237,11 @@ func (dp *dbPopulator) populate(ctx context.Context) (err error) {
 			}
 
 			// we have a metric, so add it to out reusing the dp.namebuf space
+			// unless no metric is stored in directories named like this.
 			dp.namebuf, err = dirToMetric(dp.namebuf[:0], dp.dirbuf)
-			if err != nil {
-				return err
+			if err == nil {
+				dp.out.Add(string(dp.namebuf))
 			}
-			dp.out.Add(string(dp.namebuf))
 
 			// mark it added so we skip over adding other .data files
 			added = true
-- 
2.43.0


From 43573f83b4bc3a1f65fc87cdfab85ab3958bc72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 15/33] fix: do not trust the length of directory entries

---
 database/files/internal/system/dirent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/files/internal/system/dirent.go b/database/files/internal/system/dirent.go
index 3e324a8..261e9d3 100644
--- a/database/files/internal/system/dirent.go
+++ b/database/files/internal/system/dirent.go
@@ -28,7 +28,7 @@ func NextDirent(buf []byte) (out_buf []byte, name []byte, ok bool) {
 	// if we can't determine a valid record length, we have fully consumed
 	// the buffer.
 	rec_len, ok := direntReadReclen(buf)
-	if !ok || rec_len > uint64(len(buf)) {
+	if !ok || rec_len < nameOffset || rec_len > uint64(len(buf)) {
 		return nil, nil, false
 	}
 
-- 
2.43.0


From bef1f4c84cb11a4bdc2193bca1976e141e23d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 16/33] fix: refuse a capacity without records

---
 database/files/file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/files/file.go b/database/files/file.go
index 946c89f..2c9d471 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -52,11 +52,12 @@ func createFile(ctx context.Context, path string, size, cap int) (
 	// revisit making them up to a larger size size later, though the system
 	// will probably struggle with that anyway.
 	if cap+1 < cap ||
+		cap <= 0 ||
 		int(int32(cap)) != cap ||
 		int(int32(size)) != size ||
 		int32(size)*int32(cap)/int32(cap) != int32(size) {
 
-		return file{}, Error.New("capacity too large")
+		return file{}, Error.New("invalid capacity")
 	}
 
 	len := size * (cap + 1)
-- 
2.43.0


From 68ade506fe3c6c834537d8cbfe4961700990e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 17/33] fix: report failures to unmap and sync memory

---
 database/files/internal/system/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/files/internal/system/mmap.go b/database/files/internal/system/mmap.go
index 4cf98ac..04c8984 100644
--- a/database/files/internal/system/mmap.go
+++ b/database/files/internal/system/mmap.go
@@ -24,7 +24,7 @@ func Mmap(fd int, length int, prot int, flags int) (data uintptr, err error) {
 func Munmap(data uintptr, length int) (err error) {
 	_, _, ec := syscall.Syscall(syscall.SYS_MUNMAP, data, uintptr(length), 0)
 	if ec != 0 {
-		return Error.Wrap(err)
+		return Error.Wrap(ec)
 	}
 	return nil
 }
@@ -33,7 +33,7 @@ func Msync(data uintptr, length int, flags int) (err error) {
 	_, _, ec := syscall.Syscall(syscall.SYS_MSYNC, data, uintptr(length),
 		uintptr(flags))
 	if ec != 0 {
-		return Error.Wrap(err)
+		return Error.Wrap(ec)
 	}
 	return nil
 }
-- 
2.43.0


From 023ae0738a657d88795d977e14c3252995d1bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 18/33] fix: lay a value out for the file it is written to

---
 database/files/metric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 18f90a1..dce78d6 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -285,7 +285,7 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		// a new file only helps if the value fits in an empty one. check that
 		// before any older file is removed.
 		opts := m.opts.fch.opts
-		nr := numRecords(len(data), opts.Size)
+		nr = numRecords(len(data), opts.Size)
 		if nr == 0 {
 			return false, Error.New("unable to compute number of records")
 		}
-- 
2.43.0


From e7f21cd4f4768e67acc4947371d6e1c84085785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:43 +0000
Subject: [PATCH 19/33] fix: keep values in order after an interrupted write

---
 database/files/metric.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index dce78d6..6cdd345 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -224,12 +224,7 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 func (m *metric) newestEnd(ctx context.Context, f file, head int) (
 	end int64, found bool, err error) {
 
-	for ; head < f.Capacity(); head++ {
-		rec, err := f.Record(ctx, head)
-		if err == nil {
-			return rec.end, true, nil
-		}
-	}
+	end, found = newestEndIn(ctx, f, head)
 
 	for num := m.last - 1; num >= m.first && !found; num-- {
 		path := m.filenameAt(num)
@@ -237,18 +232,36 @@ func (m *metric) newestEnd(ctx context.Context, f file, head int) (
 		if err != nil {
 			return 0, false, err
 		}
-		for n := 0; n < f.Capacity() && !found; n++ {
-			if f.HasRecord(ctx, n) {
-				rec, err := f.Record(ctx, n)
-				end, found = rec.end, err == nil
-			}
-		}
+		end, found = newestEndIn(ctx, f, 0)
 		m.opts.fch.releaseFile(path, f)
 	}
 
 	return end, found, nil
 }
 
+// newestEndIn returns the end of the newest record that can be read in the
+// file starting at head. A write that was interrupted can leave the first
+// records of its value in front of a newer value, so keep looking until the
+// last record of some value.
+func newestEndIn(ctx context.Context, f file, head int) (
+	end int64, found bool) {
+
+	for ; head < f.Capacity(); head++ {
+		rec, err := f.Record(ctx, head)
+		if err != nil {
+			continue
+		}
+		if !found || rec.end > end {
+			end, found = rec.end, true
+		}
+		if rec.kind == recordKind_complete || rec.kind == recordKind_end {
+			break
+		}
+	}
+
+	return end, found
+}
+
 // Write stores the data in the metric if there is room and the data is
 // chronologically later than the last data stored. additionally, it cleans
 // any files older than max if it had to allocate a new file. it returns if
-- 
2.43.0


From 5fad5271a2df4bb6260ed2e33d5c19f5605d5e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 20/33] fix: keep the identifiers of the first record's
 extremes when merging

The minimum and maximum of a merge start out as those of the first record,
but their identifiers did not: if the first record had the smallest minimum
or the largest maximum, its identifier was lost.
---
 merge/merge.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merge/merge.go b/merge/merge.go
index 5a0e8c9..bbfc3ce 100644
--- a/merge/merge.go
+++ b/merge/merge.go
@@ -71,6 +71,7 @@ func Merge(ctx context.Context, opts MergeOptions) (
 
 	// merge the max and min values
 	out.Min, out.Max = opts.Records[0].Min, opts.Records[0].Max
+	out.MinId, out.MaxId = opts.Records[0].MinId, opts.Records[0].MaxId
 	for _, r := range opts.Records[1:] {
 		if r.Min < out.Min {
 			out.Min = r.Min
-- 
2.43.0


From 50d3d83e2f9ad8f9b7788ccb847f1c268116bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:48 +0000
Subject: [PATCH 21/33] fix: draw only the part of records inside the window

Records that ended before the window were drawn in its first pixel, or added
to what is drawn there, and records ending after it made columns that reach
outside of the drawing.
---
 merge/merger.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/merge/merger.go b/merge/merger.go
index e2d264d..1935743 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -69,11 +69,7 @@ func (m *Merger) SetWidth(width int) {
 // timeToPixel maps the time to a pixel.
 func (m *Merger) timeToPixel(time int64) int64 {
 	delta := m.opts.Now - time + m.pixel_size - 1
-	px := int64(m.width) - (delta / m.pixel_size)
-	if px < 0 {
-		px = 0
-	}
-	return px
+	return int64(m.width) - (delta / m.pixel_size)
 }
 
 // Push adds the record to the Merger. The end time on the records passed to
@@ -89,6 +85,19 @@ func (m *Merger) Push(ctx context.Context, rec data.Record) error {
 		end:   m.timeToPixel(rec.EndTime),
 	}
 	debugPrint("adding", mrec.start, mrec.end)
+
+	// records that are entirely before or after the window have no pixels, and
+	// the others only have the ones inside of it.
+	if mrec.end < 0 || mrec.start >= int64(m.width) {
+		return nil
+	}
+	if mrec.start < 0 {
+		mrec.start = 0
+	}
+	if mrec.end >= int64(m.width) {
+		mrec.end = int64(m.width) - 1
+	}
+
 	if err := m.completed(ctx, mrec.end+1); err != nil {
 		return err
 	}
-- 
2.43.0


From c751b2d0ace5c058a339dc3ec29ffe67b187b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:50 +0000
Subject: [PATCH 22/33] fix: compute a finite rate for records without duration
 or merge count

Records from before the merge count was stored, and records whose start is
their end, made the rate of their columns infinite or not a number, which also
can not be encoded as json.
---
 merge/merger.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/merge/merger.go b/merge/merger.go
index 1935743..335329e 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -206,14 +206,28 @@ func (m *Merger) emit(ctx context.Context, start, end int64,
 
 	debugPrint("emit", start, end)
 
-	obs_sec := 0.0
+	obs_sec, rates := 0.0, 0
 	recs := make([]data.Record, 0, len(mrecs))
 	for _, mrec := range mrecs {
 		recs = append(recs, mrec.rec)
-		obs_sec += float64(mrec.rec.Observations) / float64(mrec.rec.Merged) /
-			time.Duration(mrec.rec.EndTime-mrec.rec.StartTime).Seconds()
+
+		// back compat: if merged is 0, that means it actually is 1.
+		merged := mrec.rec.Merged
+		if merged == 0 {
+			merged = 1
+		}
+
+		// records without any duration do not have a rate.
+		dur := time.Duration(mrec.rec.EndTime - mrec.rec.StartTime)
+		if dur > 0 {
+			obs_sec += float64(mrec.rec.Observations) / float64(merged) /
+				dur.Seconds()
+			rates++
+		}
+	}
+	if rates > 0 {
+		obs_sec /= float64(rates)
 	}
-	obs_sec /= float64(len(mrecs))
 
 	out, err := Merge(ctx, MergeOptions{
 		Params:  m.opts.Params,
-- 
2.43.0


From 4908ac6bc4bd4e1fec982abb4d1e8064931e832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:48 +0000
Subject: [PATCH 23/33] fix: reject record and metadata lengths that overflow
 the index

---
 data/record.pb.go                       | 22 ++++++++++++++++++++--
 database/files/internal/meta/meta.pb.go | 10 ++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/data/record.pb.go b/data/record.pb.go
index 4e021e9..fdee682 100644
--- a/data/record.pb.go
+++ b/data/record.pb.go
@@ -289,6 +289,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -321,6 +324,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -371,6 +377,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -402,6 +411,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -435,7 +447,7 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 			if err != nil {
 				return err
 			}
-			if skippy < 0 {
+			if skippy < 0 || (iNdEx+skippy) < 0 {
 				return ErrInvalidLengthRecord
 			}
 			if (iNdEx + skippy) > l {
@@ -504,10 +516,13 @@ func skipRecord(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthRecord
 			}
+			iNdEx += length
+			if iNdEx < 0 {
+				return 0, ErrInvalidLengthRecord
+			}
 			return iNdEx, nil
 		case 3:
 			for {
@@ -536,6 +551,9 @@ func skipRecord(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if iNdEx < 0 {
+					return 0, ErrInvalidLengthRecord
+				}
 			}
 			return iNdEx, nil
 		case 4:
diff --git a/database/files/internal/meta/meta.pb.go b/database/files/internal/meta/meta.pb.go
index 06a94ae..ef6af23 100644
--- a/database/files/internal/meta/meta.pb.go
+++ b/database/files/internal/meta/meta.pb.go
@@ -249,7 +249,7 @@ func (m *Metadata) Unmarshal(dAtA []byte) error {
 			if err != nil {
 				return err
 			}
-			if skippy < 0 {
+			if skippy < 0 || (iNdEx+skippy) < 0 {
 				return ErrInvalidLengthMeta
 			}
 			if (iNdEx + skippy) > l {
@@ -318,10 +318,13 @@ func skipMeta(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthMeta
 			}
+			iNdEx += length
+			if iNdEx < 0 {
+				return 0, ErrInvalidLengthMeta
+			}
 			return iNdEx, nil
 		case 3:
 			for {
@@ -350,6 +353,9 @@ func skipMeta(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if iNdEx < 0 {
+					return 0, ErrInvalidLengthMeta
+				}
 			}
 			return iNdEx, nil
 		case 4:
-- 
2.43.0


From 503acbf4e12fc57033183f6ebeeb689a353334e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:14 +0000
Subject: [PATCH 24/33] fix: call makers without holding the lock of the
 registry

---
 registry/registry.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/registry/registry.go b/registry/registry.go
index d29ef21..05fa9f9 100644
--- a/registry/registry.go
+++ b/registry/registry.go
@@ -38,9 +38,9 @@ func (r *Registry) NewListener(ctx context.Context, name string,
 	config interface{}) (listener.Listener, error) {
 
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.listeners[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
@@ -65,9 +65,9 @@ func (r *Registry) NewDatabase(ctx context.Context, name string,
 	config interface{}) (database.DB, error) {
 
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.databases[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
@@ -93,9 +93,9 @@ func (r *Registry) NewDistribution(ctx context.Context, name string,
 	config interface{}) (dist.Params, error) {
 
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.distributions[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
-- 
2.43.0


From 089448c40de8ecfb2dee55319bfd8b11ac83f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 25/33] fix: do not list directories no metric is stored in

---
 database/files/db_read.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index ad3bde3..f87f73f 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -153,6 +153,7 @@ type dbPopulator struct {
 	namebuf []byte // buffer for the metric name
 	dirbuf  []byte // buffer for the directory name
 	pathbuf []byte // buffer for the path
+	backbuf []byte // buffer for the directory the metric name belongs to
 }
 
 func newDBPopulator(dir string) *dbPopulator {
@@ -240,7 +241,10 @@ func (dp *dbPopulator) populate(ctx context.Context) (err error) {
 			// unless no metric is stored in directories named like this.
 			dp.namebuf, err = dirToMetric(dp.namebuf[:0], dp.dirbuf)
 			if err == nil {
-				dp.out.Add(string(dp.namebuf))
+				dp.backbuf = metricToDir(dp.backbuf[:0], string(dp.namebuf))
+				if bytes.Equal(dp.backbuf, dp.dirbuf) {
+					dp.out.Add(string(dp.namebuf))
+				}
 			}
 
 			// mark it added so we skip over adding other .data files
-- 
2.43.0


From 9121037023f0da010a205c9a736d7880678e92d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:21 +0000
Subject: [PATCH 26/33] fix: report negative indexes as out of bounds

---
 internal/typeassert/asserter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/typeassert/asserter.go b/internal/typeassert/asserter.go
index 439eefe..cd3a389 100644
--- a/internal/typeassert/asserter.go
+++ b/internal/typeassert/asserter.go
@@ -83,7 +83,7 @@ func (a *Asserter) N(index int) *Asserter {
 			a.x, a.path)
 		return a
 	}
-	if index >= len(m) {
+	if index < 0 || index >= len(m) {
 		*a.err = errs.New("array out of bounds")
 		return a
 	}
-- 
2.43.0


From 79e1d18f269f8e1ff9fee1cf4eb4f8774cb6176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:24 +0000
Subject: [PATCH 27/33] fix: refuse configurations without a positive duration

---
 config/load.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/load.go b/config/load.go
index 8c5aacc..d02280a 100644
--- a/config/load.go
+++ b/config/load.go
@@ -45,6 +45,10 @@ func Load(data []byte) (*Config, error) {
 		return nil, ParseError.New("exactly one dist must be specified")
 	}
 
+	if tomlConfig.Main.Duration.Duration <= 0 {
+		return nil, ParseError.New("main duration must be positive")
+	}
+
 	conf := &Config{
 		from: tomlConfig,
 
-- 
2.43.0


From 4f7008db2db1785c7fa9df67b628577688102dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:10 +0000
Subject: [PATCH 28/33] fix: refuse negative buffer and worker options

---
 database/files/register.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/database/files/register.go b/database/files/register.go
index 9861c25..519216e 100644
--- a/database/files/register.go
+++ b/database/files/register.go
@@ -29,6 +29,10 @@ func init() {
 			if err := a.Err(); err != nil {
 				return nil, err
 			}
+			if opts.Tuning.Buffer < 0 || opts.Tuning.Workers < 0 {
+				return nil, Error.New("negative tuning options: %+v",
+					opts.Tuning)
+			}
 
 			return New(dir, opts), nil
 		}))
-- 
2.43.0


From 77a8f6c0660c5c8f7df68d389cc4411a133faf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:10 +0000
Subject: [PATCH 29/33] fix: keep heat map columns and keys on the canvas and
 show the whole range

Columns wider than the canvas overwrote the next rows, canvases and keys with
a height of 1 panicked, float rounding could skip the last sample, and other
canvases than RGB were drawn upside down.
---
 draw/heatmap/heatmap.go | 35 ++++++++++++++++++++++-------------
 draw/key/key.go         |  7 +++++--
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/draw/heatmap/heatmap.go b/draw/heatmap/heatmap.go
index 57f597b..e4c6fc2 100644
--- a/draw/heatmap/heatmap.go
+++ b/draw/heatmap/heatmap.go
@@ -51,14 +51,27 @@ func New(opts Options) *Heatmap {
 func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 	last_index := -1
 	last_color := d.opts.Colors[0]
-	index_scale := float64(len(col.Data)-1) / float64(d.height-1)
 	m := d.m
 
+	// only draw the part of the column that is on the canvas
+	x0, x1 := col.X, col.X+col.W
+	if x0 < 0 {
+		x0 = 0
+	}
+	if x1 > d.width {
+		x1 = d.width
+	}
+	if x0 >= x1 {
+		return
+	}
+
 	for y := 0; y < d.height; y++ {
-		// TODO(jeff): truncating might not work. we can also perhaps
-		// invert this computation to give us the number of pixels
-		// before we get to the next index directly.
-		index := int(float64(y) * index_scale)
+		// TODO(jeff): we can perhaps invert this computation to give us the
+		// number of pixels before we get to the next index directly.
+		index := 0
+		if d.height > 1 {
+			index = y * (len(col.Data) - 1) / (d.height - 1)
+		}
 
 		// figure out the color if it's different from the last data index
 		if index != last_index {
@@ -69,11 +82,8 @@ func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 
 		if m != nil {
 			row := (d.height - 1 - y + m.Y) * m.Stride
-			low := row + 4*(col.X+m.X)
-			high := low + 4*col.W
-			if high > len(m.Pix) {
-				high = len(m.Pix)
-			}
+			low := row + 4*(x0+m.X)
+			high := row + 4*(x1+m.X)
 
 			// reslicing in gopherjs always allocates a slice structure. so
 			// since it doesn't elide bounds checks, we write it this way even
@@ -97,9 +107,8 @@ func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 			}
 
 		} else {
-			x1 := col.X + col.W
-			for x := col.X; x < x1 && x < d.width; x++ {
-				d.opts.Canvas.Set(x, y, last_color)
+			for x := x0; x < x1; x++ {
+				d.opts.Canvas.Set(x, d.height-1-y, last_color)
 			}
 		}
 
diff --git a/draw/key/key.go b/draw/key/key.go
index fdd4191..c043f22 100644
--- a/draw/key/key.go
+++ b/draw/key/key.go
@@ -29,9 +29,12 @@ func Draw(canvas *draw.RGB, opts Options) (out *draw.RGB) {
 		canvas = draw.NewRGB(opts.Width, opts.Height)
 	}
 
-	scale := float64(len(opts.Colors)-1) / float64(opts.Height-1)
 	for y := 0; y < opts.Height; y++ {
-		index := int(float64(opts.Height-1-y) * scale)
+		index := 0
+		if opts.Height > 1 {
+			index = (opts.Height - 1 - y) * (len(opts.Colors) - 1) /
+				(opts.Height - 1)
+		}
 		color := opts.Colors[index]
 		for x := 0; x < opts.Width; x++ {
 			canvas.Set(x, y, color)
-- 
2.43.0


From 8b22732bd35226f00c3e54e4309149b6d10e8b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:13 +0000
Subject: [PATCH 30/33] fix: report damaged t-digests and invalid compressions
 as errors

They panicked, allocated any amount of memory or recursed without end in the
t-digest package.
---
 dist/tdigest/wrapper.go | 54 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index 80f4c68..66acf83 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -3,6 +3,9 @@
 package tdigest
 
 import (
+	"encoding/binary"
+	"math"
+
 	"github.com/vivint/rothko/dist"
 	"github.com/zeebo/errs"
 	"github.com/zeebo/tdigest"
@@ -23,11 +26,25 @@ func (p Params) New() (dist.Dist, error) {
 	if p.Compression == 0 {
 		return nil, errs.New("New called on zero value Params")
 	}
+	if !validCompression(p.Compression) {
+		return nil, errs.New("invalid compression: %v", p.Compression)
+	}
 	return Wrap(tdigest.New(p.Compression)), nil
 }
 
 // Unmarshal loads a dist.Dist out of some bytes.
-func (p Params) Unmarshal(data []byte) (dist.Dist, error) {
+func (p Params) Unmarshal(data []byte) (_ dist.Dist, err error) {
+	if err := checkHeader(data); err != nil {
+		return nil, err
+	}
+
+	// the t-digest package panics if it runs out of data.
+	defer func() {
+		if r := recover(); r != nil {
+			err = errs.New("invalid data: %v", r)
+		}
+	}()
+
 	dist, err := tdigest.FromBytes(data)
 	if err != nil {
 		return nil, errs.Wrap(err)
@@ -35,6 +52,41 @@ func (p Params) Unmarshal(data []byte) (dist.Dist, error) {
 	return Wrap(dist), nil
 }
 
+// maxCompression bounds how much memory is allocated for a t-digest.
+const maxCompression = 1e5
+
+// validCompression returns true if a t-digest can have the compression.
+func validCompression(compression float64) bool {
+	return compression > 0 && compression <= maxCompression
+}
+
+// checkHeader checks the values that the t-digest package trusts when it loads
+// a t-digest: an invalid compression makes it allocate any amount of memory or
+// panic, and more centroids than the compression allows for may make it
+// compress the t-digest forever.
+func checkHeader(data []byte) error {
+	const (
+		compression = 4               // after the encoding version
+		centroids   = compression + 8 // after the compression
+		header      = centroids + 4
+		per         = 4 + 1 // mean and at least one byte of count
+	)
+	if len(data) < header {
+		return errs.New("invalid data: %d bytes is too short", len(data))
+	}
+
+	comp := math.Float64frombits(binary.BigEndian.Uint64(data[compression:]))
+	if !validCompression(comp) {
+		return errs.New("invalid data: compression of %v", comp)
+	}
+
+	num := binary.BigEndian.Uint32(data[centroids:])
+	if int64(num) > int64(len(data)-header)/per || float64(num) > 20*comp {
+		return errs.New("invalid data: %d centroids", num)
+	}
+	return nil
+}
+
 //
 // Wrapper
 //
-- 
2.43.0


From 3ee1703cce2a9f32c102d12ce2baddbcb652cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:53 +0000
Subject: [PATCH 31/33] fix: answer renders and searches for any parameters

Widths below 100, durations shorter than the width in nanoseconds and sizes or
samples that are not positive divided by zero or panicked, huge ones allocated
any amount of memory, times before 1970 drew labels outside of the picture,
and a metric without any data was an error instead of an empty graph.
---
 api/query/search.go | 12 +++++++-----
 api/server.go       | 39 ++++++++++++++++++++++++++++++++++++---
 draw/graph/graph.go | 37 ++++++++++++++++++++++++++++---------
 merge/merger.go     |  6 ++++++
 4 files changed, 77 insertions(+), 17 deletions(-)

diff --git a/api/query/search.go b/api/query/search.go
index 8e2416d..c5c79ac 100644
--- a/api/query/search.go
+++ b/api/query/search.go
@@ -8,8 +8,9 @@ import (
 
 // Search represents a metric search.
 type Search struct {
-	specs   []spec
-	matched []string
+	specs    []spec
+	capacity int
+	matched  []string
 }
 
 // New constructs a metric searcher from the query string.
@@ -20,8 +21,9 @@ func New(query string, capacity int) *Search {
 		specs[i] = newSpec(part)
 	}
 	return &Search{
-		specs:   specs,
-		matched: make([]string, 0, capacity),
+		specs:    specs,
+		capacity: capacity,
+		matched:  make([]string, 0),
 	}
 }
 
@@ -37,7 +39,7 @@ func (s *Search) Match(metric string) bool {
 
 // Add is meant to be passed to a disk.Metrics call.
 func (s *Search) Add(name string) (bool, error) {
-	if len(s.matched) == cap(s.matched) {
+	if len(s.matched) >= s.capacity {
 		return false, nil
 	}
 	if !s.Match(name) {
diff --git a/api/server.go b/api/server.go
index 29c63b1..88c2f86 100644
--- a/api/server.go
+++ b/api/server.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"image/png"
 	"io"
+	"math"
 	"net/http"
 	"time"
 
@@ -27,6 +28,15 @@ import (
 	"github.com/zeebo/errs"
 )
 
+// limits for the parameters of a render.
+const (
+	maxSize        = 8192
+	maxPadding     = 1024
+	maxPixels      = 1 << 24
+	maxSamples     = 10000
+	maxCompression = 1000
+)
+
 // Options for the server.
 type Options struct {
 	// Origin is sent back in Access-Control-Allow-Origin. If not set, sends
@@ -166,6 +176,29 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	compression := getFloat64(req.FormValue("compression"), 5)
 	stop_before := now - dur.Nanoseconds()
 
+	// the size of the response and the work for it depend on these
+	switch {
+	case width <= 0 || width > maxSize:
+		return errBadRequest.New("invalid width: %d", width)
+	case height <= 0 || height > maxSize:
+		return errBadRequest.New("invalid height: %d", height)
+	case padding < 0 || padding > maxPadding:
+		return errBadRequest.New("invalid padding: %d", padding)
+	case (width+2*padding)*(height+2*padding) > maxPixels:
+		return errBadRequest.New("invalid size: %d by %d", width, height)
+	case dur <= 0:
+		return errBadRequest.New("invalid duration: %v", dur)
+	case samples <= 0 || samples > maxSamples:
+		return errBadRequest.New("invalid samples: %d", samples)
+	case !(compression >= 1 && compression <= maxCompression):
+		return errBadRequest.New("invalid compression: %v", compression)
+	}
+
+	// without overflowing for times very long ago
+	if stop_before > now {
+		stop_before = math.MinInt64
+	}
+
 	// set up some state for the query
 	var measured graph.Measured
 	var earliest []byte
@@ -223,8 +256,8 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	if err != nil {
 		return errs.Wrap(err)
 	}
-	if !ok {
-		return errs.New("too small")
+	if measure_opts.Earliest != nil && !ok {
+		return errBadRequest.New("too small")
 	}
 
 	// grab the columns
@@ -254,7 +287,7 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	if measure_opts.Earliest == nil {
 		measured, ok = graph.Measure(ctx, measure_opts)
 		if !ok {
-			return errs.New("too small")
+			return errBadRequest.New("too small")
 		}
 	}
 
diff --git a/draw/graph/graph.go b/draw/graph/graph.go
index 283f859..ad39357 100644
--- a/draw/graph/graph.go
+++ b/draw/graph/graph.go
@@ -5,6 +5,7 @@ package graph
 import (
 	"context"
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/vivint/rothko/dist"
@@ -22,6 +23,7 @@ const (
 	keyWidth   = 10
 	keyPadding = 5
 	obsHeight  = 5
+	maxLabels  = 1000
 )
 
 // Measured is a measured graph ready to be drawn when given data.
@@ -93,7 +95,7 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// calculate the heatmap height and leave a gap for the bottom/obs axis
 	height := opts.Height - vert_guess
-	if height < 0 {
+	if height <= 0 {
 		return Measured{}, false
 	}
 
@@ -157,6 +159,9 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 	// for the left and right axis
 	heatmapWidth := opts.Width -
 		(left.Width + keyPadding + keyWidth + right.Width)
+	if heatmapWidth <= 0 || opts.Duration <= 0 {
+		return Measured{}, false
+	}
 
 	obs := observations.Measure(ctx, observations.Options{
 		Face:   iosevka.Iosevka,
@@ -169,7 +174,10 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// determine the "natural" duration unit for 100 px. this is going to
 	// be the largest "natural" unit smaller than the chunk.
-	chunk := opts.Duration / time.Duration(opts.Width/100)
+	chunk := opts.Duration
+	if opts.Width >= 200 {
+		chunk /= time.Duration(opts.Width / 100)
+	}
 	natural := naturalUnits[0]
 	for _, unit := range naturalUnits[1:] {
 		if unit < chunk {
@@ -179,15 +187,26 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 		}
 	}
 
-	// create the labels from the truncated now
-	x := time.Duration(opts.Now).Truncate(natural).Nanoseconds()
-	stop_before := opts.Now - opts.Duration.Nanoseconds()
-	for x > stop_before {
+	// there is only room for so many labels no matter how long the duration
+	for opts.Duration/natural >= maxLabels {
+		natural *= 2
+	}
+
+	// create the labels from the truncated now, which is before now even for
+	// negative times. only ages are compared because the times can overflow.
+	age := opts.Now % natural.Nanoseconds()
+	if age < 0 {
+		age += natural.Nanoseconds()
+	}
+	for age < opts.Duration.Nanoseconds() {
 		labels = append(labels, axis.Label{
-			Position: 1 - float64(opts.Now-x)/float64(opts.Duration),
-			Text:     time.Unix(0, x).Format("1/2 @ 15:04"),
+			Position: 1 - float64(age)/float64(opts.Duration),
+			Text:     time.Unix(0, opts.Now-age).Format("1/2 @ 15:04"),
 		})
-		x -= natural.Nanoseconds()
+		if age > math.MaxInt64-natural.Nanoseconds() {
+			break
+		}
+		age += natural.Nanoseconds()
 	}
 
 	// reverse the labels so that they are in increasing order
diff --git a/merge/merger.go b/merge/merger.go
index 335329e..365444d 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -61,8 +61,14 @@ func NewMerger(opts MergerOptions) *Merger {
 // SetWidth sets the width for all of the Push operations. Must be set before
 // any Push operations happen.
 func (m *Merger) SetWidth(width int) {
+	if width <= 0 {
+		return
+	}
 	m.width = width
 	m.pixel_size = m.opts.Duration.Nanoseconds() / int64(width)
+	if m.pixel_size <= 0 {
+		m.pixel_size = 1
+	}
 	m.completed_px = int64(width)
 }
 
-- 
2.43.0


From 1a84ca4c4682bdaafc2e8dfb4b718828195a9c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:59 +0000
Subject: [PATCH 32/33] fix: list bundled directories completely, with implied
 ones and dot components

---
 internal/tgzfs/file.go | 14 +++++++++-----
 internal/tgzfs/fs.go   | 25 ++++++++++++++-----------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/internal/tgzfs/file.go b/internal/tgzfs/file.go
index e3d3be4..8e21f8f 100644
--- a/internal/tgzfs/file.go
+++ b/internal/tgzfs/file.go
@@ -62,17 +62,21 @@ func (h *fileHandle) Read(p []byte) (int, error) {
 	return h.data.Read(p)
 }
 
-// Readdir reads up to count entries from the listing and returns them.
+// Readdir reads up to count entries from the listing and returns them, and
+// io.EOF when there are none left. If count is not positive, it returns all of
+// the entries left, and no error.
 func (h *fileHandle) Readdir(count int) (entries []os.FileInfo, err error) {
-	if len(h.listing) == 0 {
+	if count <= 0 {
+		count = len(h.listing)
+	} else if len(h.listing) == 0 {
 		return nil, io.EOF
 	}
 	if len(h.listing) < count {
 		count = len(h.listing)
 	}
-	listing := h.listing[:count]
-	h.listing = h.listing[:len(h.listing)-len(listing)]
-	return listing, nil
+	entries = h.listing[:count:count]
+	h.listing = h.listing[count:]
+	return entries, nil
 }
 
 // Seek sets the position into the file handle.
diff --git a/internal/tgzfs/fs.go b/internal/tgzfs/fs.go
index b7b3267..cc473f8 100644
--- a/internal/tgzfs/fs.go
+++ b/internal/tgzfs/fs.go
@@ -17,18 +17,20 @@ import (
 	"github.com/zeebo/errs"
 )
 
-// rootMtime is the mtime for the root file.
+// rootMtime is the mtime for the root file and for directories that have no
+// entry of their own.
 var rootMtime = time.Now()
 
-// rootFileInfo is a fake file info for the root of the tree.
-type rootFileInfo struct{}
+// dirFileInfo is a fake file info for the root of the tree and for directories
+// that have no entry of their own. The value is the name.
+type dirFileInfo string
 
-func (r rootFileInfo) Name() string       { return "" }
-func (r rootFileInfo) Size() int64        { return 0 }
-func (r rootFileInfo) Mode() os.FileMode  { return os.ModeDir }
-func (r rootFileInfo) ModTime() time.Time { return rootMtime }
-func (r rootFileInfo) IsDir() bool        { return true }
-func (r rootFileInfo) Sys() interface{}   { return nil }
+func (d dirFileInfo) Name() string       { return string(d) }
+func (d dirFileInfo) Size() int64        { return 0 }
+func (d dirFileInfo) Mode() os.FileMode  { return os.ModeDir }
+func (d dirFileInfo) ModTime() time.Time { return rootMtime }
+func (d dirFileInfo) IsDir() bool        { return true }
+func (d dirFileInfo) Sys() interface{}   { return nil }
 
 // FS is an http.FileServer for a tarball.
 type FS struct {
@@ -46,7 +48,7 @@ func New(data []byte) (*FS, error) {
 	fs := &FS{
 		root: newFile(),
 	}
-	fs.root.setFileInfo(rootFileInfo{})
+	fs.root.setFileInfo(dirFileInfo(""))
 
 	tardata := tar.NewReader(gzdata)
 	for {
@@ -86,7 +88,7 @@ func splitPath(p string) []string {
 func (fs *FS) getFile(path string, alloc bool) *file {
 	child := fs.root
 	for _, part := range splitPath(path) {
-		if len(part) == 0 {
+		if len(part) == 0 || part == "." {
 			continue
 		}
 		children := child.children
@@ -96,6 +98,7 @@ func (fs *FS) getFile(path string, alloc bool) *file {
 				return fs.def
 			}
 			child = newFile()
+			child.setFileInfo(dirFileInfo(part))
 			children[part] = child
 		}
 	}
-- 
2.43.0


From 87d23a0b58d67c4cab51926fe4641c9a48a664fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:02 +0000
Subject: [PATCH 33/33] fix: draw records whose times are far from now

---
 merge/merger.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/merge/merger.go b/merge/merger.go
index 365444d..f7e8fca 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -72,10 +72,19 @@ func (m *Merger) SetWidth(width int) {
 	m.completed_px = int64(width)
 }
 
-// timeToPixel maps the time to a pixel.
+// timeToPixel maps the time to a pixel. Times before the window are all mapped
+// to -1, and times that are not before now to the width.
 func (m *Merger) timeToPixel(time int64) int64 {
-	delta := m.opts.Now - time + m.pixel_size - 1
-	return int64(m.width) - (delta / m.pixel_size)
+	if time >= m.opts.Now {
+		return int64(m.width)
+	}
+	// the difference is positive, but may not fit in an int64.
+	delta := uint64(m.opts.Now) - uint64(time)
+	pixels := (delta-1)/uint64(m.pixel_size) + 1
+	if pixels > uint64(m.width) {
+		return -1
+	}
+	return int64(m.width) - int64(pixels)
 }
 
 // Push adds the record to the Merger. The end time on the records passed to
-- 
2.43.0

