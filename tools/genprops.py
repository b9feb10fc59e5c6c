#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
F="database/files/"
p("C01","Metric names and storage directories map one to one, inside the data directory",
 "Every metric name has exactly one storage directory: converting a name to its directory and back gives the same name, and two different names never share a directory. The directory lies at or below the data directory whatever bytes the name contains (no empty, '.' or '..' component, and no component containing a dot or slash taken from the name, so no metric's directory can be confused with another metric's data files). Directory strings that no name maps to, because of an unescaped dot or an invalid escape, are reported as errors rather than aliased onto another metric.",
 ["inputs"],"all metric names and all directory strings over arbitrary bytes, up to a bounded length",
 "The tests convert a fixed table of names; escaping bugs show only for particular byte combinations (separators, escapes at the end, empty components, control bytes).",
 [F+"convert.go",F+"db_read.go"],[("escape/unescape of path components",F+"convert.go")],["metricToDir","dirToMetric"])
p("C02","On-disk record encoding is lossless, total and self-checking",
 "A record serialized into a slot and read back yields the same kind, start, end and payload, and never touches bytes outside its own slot. Reading arbitrary bytes either yields a record or an error and never panics or reads outside the slot. If any single byte of a serialized record other than its length field is changed, reading it back fails.",
 ["inputs"],"all record field values, all payload bytes and all slot contents up to a bounded slot size; every position and value of a one-byte change",
 "The tests encode a few hand-picked records and flip one chosen byte; loss, over-reads and undetected changes depend on the concrete bytes and sizes.",
 [F+"record.go",F+"file_helpers.go",F+"file.go"],[("header layout and CRC",F+"record.go"),("slot addressing",F+"file.go")])
p("C03","Splitting a value into records and counting them agree",
 "For every payload and slot size, splitting a value produces exactly the number of records the count function announces, each fitting in one slot and carrying the value's start and end, and their payloads concatenate to the original bytes. The pieces are one complete record, or one begin, any number of continues and one end, in order. Slot sizes with no room for payload are refused instead of looping or dividing by zero.",
 ["inputs"],"all payload lengths and bytes and all slot sizes in a bounded range, incl. the degenerate slot sizes",
 "The tests split two fixed payloads; boundary lengths (exact multiples, empty, one over) and degenerate slot sizes are not covered.",
 [F+"record.go"],[("chunking",F+"record.go iterateRecords"),("counting",F+"record.go numRecords")])
p("C04","The store returns exactly the accepted writes, newest first",
 "For any history of writes to a metric, a query with any upper bound calls back exactly the retained accepted values whose end is strictly below the bound, byte for byte with their start and end, in strictly decreasing order of end, until the callback stops it; the latest-value query returns the newest one. A write is accepted exactly when its end is strictly greater than the newest stored end and it fits in one data file; a refused write changes nothing. The answers are the same after closing and reopening the store.",
 ["inputs","histories"],"all histories of a bounded number of writes with symbolic start, end and payload of several sizes, all query bounds, several file geometries, with and without reopening between operations",
 "The tests write one increasing series and read it back; rotation, multi-slot values, refused writes and query bounds inside older files combine only in specific histories.",
 [F+"metric.go",F+"file.go",F+"file_ops.go",F+"file_cache.go"],[("append and rotation",F+"metric.go Write"),("backward iteration",F+"metric.go Read"),("head search",F+"file_ops.go getHeadPointer")])
p("C05","Retention keeps the newest data and bounds disk use",
 "A metric never occupies more than the configured number of historical files plus the current one, and files that are part of it always form one contiguous run. When a new file is needed only the oldest file is discarded, so every value in the newest files stays readable and at least the configured amount of newest history remains. A write that is refused never discards stored data.",
 ["inputs","histories"],"all histories of a bounded number of writes over symbolic value sizes and times, for several configured limits including unlimited",
 "The tests never fill enough files with varied value sizes to rotate and then inspect what was discarded.",
 [F+"metric.go"],[("rotation",F+"metric.go Write"),("file discovery",F+"metric.go newMetric")])
p("C06","A crash during a write loses at most the value being written",
 "If the process is killed at any point during a write to an existing metric (between any two stores to the file or any two system calls, or part-way through a copy), then after reopening, every value accepted before that write and not due for removal is still returned intact, and the interrupted value is returned whole or not at all. After the restart the metric accepts values newer than both the stored and the interrupted one, and those and all earlier ones are then returned, also after a second crash.",
 ["crash_points","histories","inputs"],"every crash point (each store, partial copy and system call) of one write after every bounded prefix history, with symbolic times and payloads, followed by reopening and further writes and reads",
 "No test crashes the process; the torn states exist only between individual stores.",
 [F+"metric.go",F+"file.go",F+"file_helpers.go",F+"file_ops.go"],[("records written before metadata",F+"metric.go Write"),("CRC per slot",F+"record.go"),("head hint is only a hint",F+"file_ops.go")])
p("C07","Damage to one record never hides or alters other values",
 "If the bytes of one record slot of a data file are replaced by anything, queries still return every value stored in other slots, intact and in order, and never return altered data for values whose slots are untouched. Reading and writing files with damaged slots or damaged metadata never panics, hangs or touches memory outside the file. A record that fails its checksum, also the newest one, does not stop newer values from being stored and read.",
 ["inputs","histories"],"all contents of one damaged slot (symbolic bytes with any checksum outcome) at every slot position after bounded histories; for totality, all file contents of a bounded size incl. metadata",
 "Tests do not corrupt files; the harmful corruptions are specific (valid checksum with wrong kind, header byte zeroed, broken continuation).",
 [F+"metric.go",F+"file_ops.go",F+"record.go"],[("skip unreadable records",F+"metric.go Read")])
p("C08","I/O failures are reported, leak nothing and leave the store usable",
 "If any system call made on behalf of a write or query fails, the operation reports an error (or, where the failure is immaterial, completes correctly), never panics and never claims success for a value that is not stored. Every file descriptor is closed and every mapping is released or kept in the handle cache exactly once. A value whose write reported an error is stored whole or not at all. Once the failure is gone, earlier values are still returned and new values can be written and read. Slot sizes and capacities that cannot work are refused with an error.",
 ["fault_sequences","histories"],"every single failing system call (open, create, allocate, map, stat, list, remove, mkdir) in every operation of bounded histories, followed by fault-free operations",
 "The tests only run on a healthy file system.",
 [F+"file.go",F+"file_cache.go",F+"metric.go",F+"internal/system/mmap.go"],[("error returns",F+"file.go"),("acquire/release",F+"file_cache.go")])
p("C09","The handle cache never loses, duplicates or closes a file in use",
 "For any sequence of put and take operations the cache holds at most its configured number of files, hands out each file to at most one holder at a time, gives back exactly the file stored under a token, and returns every file it drops so it can be closed exactly once. A token for a file that is no longer cached is reported as absent, never as some other file. Closing the cache yields each cached file exactly once.",
 ["histories","inputs"],"all bounded sequences of put/take/take-all with symbolic choices, capacities and eviction randomness",
 "The tests run one put/take order at one capacity with one fixed random stream.",
 [F+"cache.go",F+"file_cache.go"],[("order/location bookkeeping",F+"cache.go")])
p("C10","Per-metric locking is exclusive, independent and leak free",
 "Under every interleaving at most one goroutine holds the lock of a given key, goroutines on different keys do not block each other, every waiter eventually gets the lock when holders release it, and there is no data race. After all locks are released no bookkeeping for any key remains, so memory does not grow with the number of keys used.",
 ["schedules"],"all interleavings at synchronization operations of up to 3 goroutines doing lock/unlock on up to 2 keys",
 "The only test is a benchmark; a wrong reference count or unlock order fails only under particular interleavings.",
 [F+"lock_pool.go"],[("reference counted per-key mutex",F+"lock_pool.go")])
p("C11","Metric name sets stay sorted, duplicate free and independent",
 "For any sequence of additions, merges and copies, a name set contains exactly the names added, once each, and iterates them in ascending order, stopping when asked to. Membership and size agree with iteration. Changing a copy never changes the original or the other way round, and merging never changes the source.",
 ["inputs","histories"],"all bounded sequences of add/merge/copy/has/iterate with symbolic names",
 "The tests use a handful of fixed names; aliasing and order bugs need particular orders of operations.",
 [F+"internal/sset/set.go"],[("sorted slice plus map",F+"internal/sset/set.go")])
p("C12","The metric listing shows every stored metric, under any interleaving",
 "Once a write to a metric has been reported as stored, every later listing contains that metric exactly once, whatever listings and directory rescans run concurrently with the writes. Listings contain no metric that no write was attempted for, are sorted, stop when the callback says so and report its error. Listing, rescanning and writing never race or deadlock.",
 ["schedules","histories"],"all interleavings (bounded preemptions) of concurrent writers, listings and rescans over a few metrics",
 "The test lists once after writing, with nothing concurrent; a name is lost only when a listing or rescan swaps the shared set at the wrong moment.",
 [F+"db_read.go",F+"db_write.go",F+"internal/sset/set.go"],[("per-worker sets merged on read",F+"db_read.go Metrics"),("rescan",F+"db_read.go PopulateMetrics")])
p("C13","Every queued value gets exactly one truthful completion callback",
 "For every value handed to the store its callback runs exactly once: with success only if the value was durably accepted, with failure if it was refused, dropped because the buffer was full, or abandoned because of cancellation or shutdown. A value still queued, or queued later, when a run of the store ends because of cancellation is either failed or handled by the next run. This holds for every interleaving of producers, workers, cancellation and shutdown, and producers never block after cancellation. The store keeps its own copy of the data, so the caller may reuse its buffer at once.",
 ["schedules","inputs"],"all interleavings (bounded preemptions) of up to 2 producers, 1-2 workers, cancellation and shutdown, for buffer sizes 0-1, with and without dropping",
 "The test queues values and waits; shutdown races, drops and cancellation are not exercised.",
 [F+"db.go",F+"db_write.go"],[("handled flag and deferred callback",F+"db_write.go Queue"),("queue drain at shutdown",F+"db.go Run")])
p("C14","Observations are aggregated exactly into one record per metric and period",
 "For any sequence of added values, a capture delivers exactly one record per metric that received values since the previous capture, with the exact count, the true minimum and maximum, an identifier of a value that attained each of them, the distribution given every value, and start and end times that tile the timeline without gap or overlap. Infinite and not-a-number values are ignored. A non-destructive iteration reports the same contents and leaves them for the next capture.",
 ["inputs","histories"],"all bounded sequences of add/capture/iterate over symbolic float values, ids and metrics and a symbolic clock",
 "The tests add one increasing series; the first value, negative values, ties and captures in between change the outcome.",
 ["data/writer.go","data/agg.go"],[("page swap",  "data/writer.go Capture"),("min/max/count update","data/agg.go Observe")])
p("C15","Concurrent observation is race free and loses nothing outside a capture",
 "With any interleaving of concurrent adds to the same or different metrics, once they have finished the next capture reports a count equal to the number of adds and the true minimum and maximum with matching identifiers. When captures run concurrently, no value is reported twice and nothing panics, deadlocks or races; a record is delivered to the callback only in a consistent state.",
 ["schedules"],"all interleavings (bounded preemptions) of 2-3 goroutines adding, capturing and iterating with symbolic values",
 "The tests are single threaded.",
 ["data/writer.go","data/agg.go"],[("mutex around aggregation","data/agg.go"),("atomic page pointer","data/writer.go")])
p("C16","A dump hands every captured record to the store once and waits for all of them",
 "A dump queues exactly one write per captured metric with the record's own start, end and encoded contents, and returns only after every one of those writes has been completed by the store, whatever the order, delay or outcome of the completions. Bytes handed to the store are not modified until the completion has run. Failure of one write does not affect the others.",
 ["schedules","inputs"],"all completion orders and outcomes (synchronous, asynchronous, error return) for up to 2-3 metrics with symbolic observations",
 "There is no test of the dumper.",
 ["dump/dump.go"],[("wait group and buffer pool","dump/dump.go Dump")])
p("C17","Merging records combines counts, spans and extremes exactly",
 "Merging any non-empty list of records yields the sum of the observation and merge counts (a stored merge count of zero counts as one), the earliest start, the latest end, and the true minimum and maximum together with the identifier of a record that attained them. Merging a single record preserves all of these. An empty list or an unknown distribution kind is an error.",
 ["inputs"],"all lists of up to 3-4 records with symbolic times, counts, extremes, ids and kinds",
 "No test merges records with ids; mistakes show only for particular positions of the extreme.",
 ["merge/merge.go","merge/resample.go"],[("folds over records","merge/merge.go Merge")])
p("C18","Rendering columns cover exactly the data, without overlap",
 "For any series of records pushed newest first, the resulting columns lie inside the drawing width, do not overlap, and together cover exactly the pixels that some record's time span maps to. Each column is computed from exactly the records that cover its pixels, has the requested number of samples and a finite non-negative rate for records with a positive duration. Records outside the window never cause a panic.",
 ["inputs","histories"],"all bounded series of records with symbolic start/end times, window, width and duration",
 "No test of the column builder; gaps, overlaps and records straddling the window are never sampled.",
 ["merge/merger.go"],[("timeToPixel and completed sweep","merge/merger.go")])
p("C19","Metric search matches exactly the documented patterns",
 "A query matches a metric exactly when, for every whitespace separated term, consecutive dot separated components of the metric match the term's components in order, where a component pattern matches if it occurs in the component starting anywhere, '?' stands for one character, '*' for any run including an empty one, ignoring ASCII case. A search returns the first matching metrics in listing order, at most the requested number, and stops the listing once full. Matching never panics and always terminates.",
 ["inputs"],"all patterns and metric names over arbitrary bytes up to bounded lengths, compared with a reference matcher",
 "Fourteen fixed pattern/name pairs are tested; backtracking errors depend on specific repetitions.",
 ["api/query/glob.go","api/query/spec.go","api/query/search.go"],[("backtracking matcher","api/query/glob.go")])
p("C20","The HTTP API is read only and every route is behind authentication",
 "When a username is configured, a request reaches any handler (rendering, searching, nonce, static files) only if it carries exactly the configured username and password; otherwise it gets 401 with a challenge and nothing of the data. Requests with a method other than GET never reach a handler. Without configured credentials, GET requests are served.",
 ["inputs","configurations"],"all configured and supplied credentials (bounded strings, hash modelled as injective), methods and paths",
 "There is no test of the server.",
 ["api/server.go","api/common.go"],[("serveHTTP gate","api/server.go"),("constant time compare","api/server.go validAuth")])
p("C21","Request parameters can never crash rendering or searching",
 "Whatever values are given for the parameters of the render and query endpoints (negative, zero, huge, not numbers), and whatever is stored, the request is answered with a result or an error and never panics, hangs or allocates without bound because of a huge parameter. A request without a metric is a client error, a metric without data has an empty graph, and a search returns at most the requested number of metrics, for any number.",
 ["inputs"],"all out of range integers, durations and floats, small and extreme ones in combination, arbitrary short texts, with databases holding no, one or damaged records",
 "There is no test of the server.",
 ["api/server.go","draw/graph/graph.go","draw/axis/axis.go","merge/merger.go","draw/heatmap/heatmap.go","draw/key/key.go"],[("parameter defaults","api/common.go")])
p("C22","Graphite lines become observations exactly, and bad lines are isolated",
 "Every line of up to 64 KiB of the form 'name value timestamp' (three fields separated by single spaces, the value a finite number as the standard library reads it, the timestamp not interpreted) adds exactly one observation of that value to that metric; every other line adds nothing and does not affect the lines around it. This holds however the bytes are split into reads and for any number of connections. When a connection ends or the context is cancelled the connection is closed and its handler returns; stopping closes the listener and all connections and leaves no goroutine behind.",
 ["inputs","schedules"],"all line contents of bounded length, all splits into reads, all interleavings of cancellation",
 "One well-formed stream is tested.",
 ["listener/graphite/listener.go"],[("scanner and field split","listener/graphite/listener.go")])
p("C23","The stored record message round-trips and decoding arbitrary bytes is safe",
 "Encoding any record and decoding it gives an equal record, and the announced size is exactly the number of bytes produced. Decoding arbitrary bytes returns a record or an error and never panics, loops or reads out of bounds, and unknown fields are skipped. The same holds for the data-file metadata message.",
 ["inputs"],"all field values (times, counts, extremes incl. NaN, ids, kind, distribution bytes) and all input byte strings up to a bounded length",
 "No test of the codec; overflowing lengths need crafted bytes.",
 ["data/record.pb.go",F+"internal/meta/meta.pb.go"],[("varint decoding and bounds checks","data/record.pb.go Unmarshal")])
p("C24","Configuration loading is all or nothing and redaction hides every secret",
 "A configuration loads only if it names exactly one database and exactly one distribution and a positive duration; every configured listener, plugin, address, credential and duration is carried over unchanged, and errors are reported, never panics, nothing being loaded along with an error. Redaction replaces all credentials and TLS paths and keeps the rest, without changing the original. Typed extraction of options either succeeds with the exact values (absent ones being zero) or reports the first error, for any path, including negative indexes. The built-in database, distribution and listener are made with exactly the configured options, and options of another type or negative buffer and worker counts are an error.",
 ["inputs","configurations"],"all decoded configuration trees up to a bounded size (the TOML parser is modelled; sampled trees are written as text and loaded with the real one) and all dynamic values",
 "One sample file is loaded in the test.",
 ["config/load.go","config/config.go","internal/typeassert/asserter.go"],[("count checks","config/load.go"),("asserter chain","internal/typeassert/asserter.go")])
p("C25","Task groups stop together and report the first error",
 "When any task of a launched group returns, all others are cancelled, the launch returns only after every task has returned, and it returns an error exactly if a task failed: the error of one of the tasks that failed, and never one that was only a consequence of the cancellation another failure led to. Every queued task is run exactly once. It never deadlocks or leaks a task. The single-run guard admits at most one active run at any time, refuses others, and can be restarted after it stops.",
 ["schedules"],"all interleavings of up to 3 tasks with any mix of success, failure and waiting for cancellation, and of an outer cancellation",
 "There is no test of the launcher.",
 ["internal/junk/launcher.go","internal/junk/flag.go"],[("wait group, error channel and cancel","internal/junk/launcher.go Launch")])
p("C26","Heat map drawing colors the right pixels and nothing else",
 "Drawing a column paints exactly the pixels of its own width inside the canvas. The rows go up through the column's samples in equal steps, the bottom row showing the first and the top row the last one, and each pixel has the palette color that the mapping (a value from 0 to 1) gives for its sample. Nothing outside the column or the canvas is written and nothing panics for any size, position or number of samples. Both drawing paths (raw pixel buffer and generic canvas) paint the same picture. The key shows the whole palette from bottom to top.",
 ["inputs"],"all column positions and widths, sample values and colors for small canvases and palettes",
 "One image is drawn in the test and compared with nothing.",
 ["draw/heatmap/heatmap.go","draw/common.go"],[("index computation","draw/heatmap/heatmap.go")])
p("C27","Directory scanning recovers exactly the stored metrics",
 "A rescan of the data directory finds exactly the metrics that have at least one data file (an entry whose name ends in '.data'), for any nesting of metrics below one another, and ignores other files and directories that no metric name maps to. A rescan that fails or is cancelled leaves the listing as it was. Decoding the kernel's directory entries never panics, loops or reads out of bounds for any buffer, and yields each real entry once.",
 ["inputs","histories"],"all directory trees of bounded size built from symbolic metric names; all directory-entry buffers of bounded length",
 "Only one flat layout is listed in the tests.",
 [F+"db_read.go",F+"internal/system/dirent.go"],[("recursive populate",F+"db_read.go"),("entry decoding",F+"internal/system/dirent.go")])
p("C28","Extension registration is unambiguous and thread safe",
 "A kind of listener, database or distribution is created by exactly the maker it was last registered with, called once with the given configuration, and its result or error is returned; creating an unregistered kind is an error. Registration and creation from several goroutines never race or deadlock, also when a maker takes long or uses the registry itself, and the three families do not interfere.",
 ["schedules","inputs"],"all bounded sequences and interleavings of registrations and creations with symbolic kinds",
 "There is no test of the registry.",
 ["registry/registry.go","registry/common.go"],[("mutex protected maps","registry/registry.go")])
p("C29","Serving bundled static files lists and returns exactly the archive",
 "Opening a path in the bundled file set returns exactly the archived bytes, size, kind and name of that entry (the last one with that path), whatever leading, doubled or trailing slashes or dot components the path or the entry has. A path above an entry is a directory, also without an entry of its own; a directory lists exactly its direct children once each, also when read in pages of any size. Any other path is the archive's index page if it has one, and else reported as not existing. Reads, seeks and listings on one open file never affect another. No path, count or archive layout panics, and a damaged archive is an error.",
 ["inputs","histories"],"all archives of a bounded number of entries with symbolic names and all page sizes",
 "There is no test of it.",
 ["internal/tgzfs/fs.go","internal/tgzfs/file.go"],[("path map","internal/tgzfs/fs.go")])
p("C30","Distribution queries are monotone and bounded, encoding loads back",
 "For any distribution the fraction of values reported below a point is always within 0 and 1, never decreases as the point increases, and is the same when asked again. An encoded distribution of a few values loads back with the same kind, count and encoding. Creating one with an invalid compression (zero, negative, not a number or huge) is an error, and loading bytes that are cut short or damaged is an error or gives a distribution, never a panic, an endless loop or an unbounded allocation.",
 ["inputs"],"all quantile functions and query points; all damaged bytes of bounded length",
 "No test of the wrapper; floating point extremes are not sampled.",
 ["dist/tdigest/wrapper.go","data/load/load.go"],[("bisection","dist/tdigest/wrapper.go CDF")])
with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P))
