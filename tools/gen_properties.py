#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as a script so that the
table is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

DB = "database/files/"
# ---------------------------------------------------------------- storage
p("P01", "Queries return exactly the retained history",
  "After any sequence of writes, querying a metric for values before a time returns every retained value whose end is strictly before that time, each exactly once, byte-for-byte as written with its start and end, in strictly decreasing order of end, and nothing else. Asking for the latest value returns the newest one (or nothing when the metric has no values). A caller that stops the iteration, or fails in its callback, sees a prefix of that same sequence and nothing after it; one that goes away meanwhile is never told that an answer cut short was the whole one.",
  ["histories", "inputs"],
  "all histories of writes (any payload size up to what a file holds, spanning one or many fixed-size records, across any number of data files) and all query bounds, buffers and stopping points",
  "The unit tests write a handful of same-sized values into one file and read the newest; multi-file histories with bounds older than the newest file, mixed payload sizes and early stops are not enumerated.",
  [DB+"metric.go", DB+"db_read.go", DB+"record.go", DB+"file_ops.go"],
  [("backward iteration over data files and records", DB+"metric.go"), ("payload split into begin/continue/end records", DB+"record.go"), ("head pointer search", DB+"file_ops.go")],
  ["files.DB.Query", "files.DB.QueryLatest"])
p("P02", "Writes are accepted iff later and fitting; a refused write changes nothing",
  "A write is reported as stored exactly when its end is later than the end of the newest stored value of that metric and its payload fits in one data file; then it is the newest value from that moment on. Any other write is reported as not stored (with an error when the payload can never fit), and leaves every metric's readable history exactly as it was.",
  ["histories", "inputs"],
  "all histories of accepted and refused writes: duplicate, older and equal ends, empty payloads, payloads exactly at, just below and beyond the capacity of a file, with the current file at any fill level",
  "Tests exercise one out-of-order write and no payload near capacity on a metric that already has several files; whether a refusal had side effects is never checked.",
  [DB+"metric.go", DB+"db_write.go", DB+"record.go"],
  [("monotonicity check against the newest record", DB+"metric.go"), ("record count computation", DB+"record.go"), ("reporting through the done callback", DB+"db_write.go")],
  ["files.DB.Queue callback", "files.DB.Query"])
p("P03", "Retention is bounded and drops only the oldest file",
  "With F historical files configured, a metric never occupies more than F+1 data files of the configured record size and capacity, and an accepted write only ever removes values by discarding the oldest whole data file at the moment a new file is needed. All values in the newest F files always stay readable, and files are filled before a new one is started.",
  ["histories", "configurations"],
  "all write histories long enough to rotate several times, over all record sizes, capacities and historical file counts",
  "One test rotates a metric a few times with one configuration; the exact set of survivors for mixed payload sizes and the disk bound after every step are not checked.",
  [DB+"metric.go", DB+"db.go", DB+"file.go"],
  [("removal of the first file when a new one is allocated", DB+"metric.go"), ("fixed allocation of size*(cap+1) bytes", DB+"file.go")],
  ["data directory contents", "files.DB.Query"])
p("P04", "Stored values survive restarts and reconfiguration",
  "Every value acknowledged as stored is readable after the database is shut down and opened again, any number of times, also when the record size, file capacity, number of retained files, handle limit, or number of workers is configured differently from when it was written. New writes continue the same history: ordering, retention and capacity rules keep holding over old and new files together.",
  ["histories", "configurations"],
  "all interleavings of writes, queries and restarts, with any option changed at any restart",
  "No test reopens a database with different options; the tests use a single set of options for a single life of the process.",
  [DB+"metric.go", DB+"file.go", DB+"file_cache.go", DB+"db.go"],
  [("record size is taken from each file's own metadata", DB+"file.go"), ("first and last files rediscovered from the directory", DB+"metric.go")],
  ["files.DB.Query after files.New on an existing directory"])
p("P05", "A crash loses no acknowledged value and never wedges a metric",
  "If the process dies at any point of a write (between any two stores to a data file, or between creating, sizing and initialising a new file, or between removing an old file and creating the next), then after reopening every value acknowledged before is still returned unaltered (minus at most the one oldest file that the interrupted write was rotating out), the interrupted value is either returned whole or not at all, and the metric accepts and returns later writes.",
  ["crash_points", "histories"],
  "all histories followed by an interruption at any store or system call of the next write, then reopening and continuing",
  "No test interrupts a write; reaching the intermediate states needs fault injection at specific store and syscall boundaries.",
  [DB+"metric.go", DB+"file.go", DB+"file_ops.go", DB+"file_cache.go"],
  [("head pointer in metadata is only a hint that is corrected by walking records", DB+"file_ops.go"), ("checksummed records", DB+"record.go"), ("file creation", DB+"file.go")],
  ["state of the data directory after a killed process", "files.DB.Query and Queue after reopening"])
p("P06", "Corruption of stored bytes is contained",
  "If bytes of a data file's stored records are altered or zeroed, or a data file is cut short, queries never return altered or fabricated data, never crash or hang, and still return every value none of whose records were touched. Other metrics are unaffected, and the metric with damaged record bytes keeps accepting later values.",
  ["fault_sequences", "histories"],
  "all stored histories and all single or multiple byte alterations, zeroed ranges and truncations of data files while the database is closed",
  "The tests check that one record with one flipped byte fails to parse; they never check what a whole metric returns around a damaged record.",
  [DB+"record.go", DB+"metric.go", DB+"file.go", DB+"file_helpers.go", DB+"file_ops.go"],
  [("CRC over header and payload of each record", DB+"record.go"), ("skipping unreadable records", DB+"metric.go")],
  ["files.DB.Query on a damaged directory"])
p("P07", "Every queued value is answered exactly once",
  "Each value handed to the database's queue gets its completion callback exactly once, whether it was stored, refused, dropped because the buffer was full, abandoned because the caller's context ended, or discarded at shutdown; it reports stored if and only if the value is in the database. The caller may reuse its payload buffer as soon as queueing returns. Queueing never blocks when configured to drop, and otherwise blocks no longer than its context.",
  ["schedules", "histories", "configurations"],
  "all interleavings of queueing from several goroutines with a running, stopped, stopping or full database, with blocking or dropping configured",
  "One test queues into a running database; the races with shutdown, cancelled contexts, full buffers and repeated runs need many schedules.",
  [DB+"db_write.go", DB+"db.go"],
  [("deferred callback when the value was not handed over", DB+"db_write.go"), ("draining the old queue on shutdown", DB+"db.go"), ("copy of the payload", DB+"db_write.go")],
  ["files.DB.Queue callback counts", "files.DB.Query"])
p("P08", "Metric names never collide and never escape the data directory",
  "For any metric name (dots anywhere, slashes, percent signs, control and non-UTF-8 bytes), values written under one name are returned under exactly that name and under no other, however similar. Nothing is ever created outside the configured directory, whatever the name.",
  ["inputs", "histories"],
  "all sets of metric names that the file system can hold (no NUL byte, no over-long component, not ending in the data file suffix), including names that differ only in dots, slashes, percent escapes or letter case",
  "A table of conversion examples is tested; injectivity over all pairs of names and containment are universally quantified.",
  [DB+"convert.go", DB+"metric.go", DB+"db_read.go"],
  [("escaping of '/', '%' and repeated dots in directory names", DB+"convert.go")],
  ["files.DB.Queue, Query, Metrics", "directory tree around the data directory"])
p("P09", "The metric listing is complete, duplicate-free and truthful",
  "Once the database has started up, listing metrics reports every metric that has a stored value exactly once and no other name, in sorted order, whether the values were written in this run or an earlier one, and at any point in between. Looking up metrics that were never written does not make them appear, and a caller that stops the listing sees a prefix of it.",
  ["histories", "schedules"],
  "all histories of writes, failed writes, queries for known and unknown names (including prefixes of stored names), restarts, refreshes and listings",
  "Tests list after a few writes; reads of unknown names, refreshes between writes and interaction of the per-worker and central name sets over histories are not covered.",
  [DB+"db_read.go", DB+"db_write.go", DB+"internal/sset/set.go", DB+"metric.go"],
  [("directory walk", DB+"db_read.go"), ("per-worker name sets merged on listing", DB+"db_read.go"), ("names recorded after a stored write", DB+"db_write.go")],
  ["files.DB.Metrics"])
p("P10", "Concurrent use of the database is safe and consistent",
  "Writes, queries, latest-value reads and listings issued concurrently from many goroutines never race on memory, deadlock or crash, and every read observes a consistent history: a subset of what was queued for that metric, in strictly decreasing order and unaltered, containing every value acknowledged before the read began that no rotation has discarded. Operations on different metrics do not affect each other.",
  ["schedules"],
  "all interleavings of concurrent operations on shared and distinct metrics with any number of workers and file handles",
  "The tests run operations sequentially; interleavings are only reachable under generated concurrent workloads with the race detector.",
  [DB+"db.go", DB+"db_read.go", DB+"db_write.go", DB+"lock_pool.go", DB+"file_cache.go", DB+"cache.go"],
  [("per-metric lock pool", DB+"lock_pool.go"), ("mutex around the handle cache", DB+"file_cache.go"), ("copy-on-write name set", DB+"db_read.go")],
  ["race detector", "files.DB API results"])
p("P11", "The on-disk format is what it always was",
  "Data directories written by this code are readable, value for value, by an independent decoder of the established layout (directory per metric, numbered files, one metadata record then fixed-size slots filled from the last to the first, big-endian headers with a Castagnoli checksum, protobuf metadata), and directories produced by an independent encoder of that layout are read back exactly and can be appended to.",
  ["inputs", "histories"],
  "all histories and all file contents within the format",
  "Tests only round-trip records through the same code, so an incompatible change of both sides would pass and orphan existing data.",
  [DB+"record.go", DB+"file.go", DB+"file_helpers.go", DB+"internal/meta/meta.pb.go", DB+"convert.go"],
  [("record header layout", DB+"record.go"), ("metadata protobuf", DB+"internal/meta/meta.proto")],
  ["bytes of the data files"])
p("P12", "The file handle limit only affects speed and resources",
  "Any handle limit, including none, gives the same results for the same operations, and at no time when the database is idle does it keep more data files mapped than the limit. After it shuts down no data file stays mapped or open, and no two live mappings of a removed file serve later operations.",
  ["histories", "configurations"],
  "all operation histories under every handle limit from zero up",
  "The cache's unit tests use fake handles; agreement of results under eviction and the real mapping count are not observed.",
  [DB+"file_cache.go", DB+"cache.go", DB+"db.go", DB+"metric.go"],
  [("random-eviction cache", DB+"cache.go"), ("acquire and release protocol", DB+"file_cache.go")],
  ["/proc/self/maps", "files.DB results"])
p("P13", "A failed write is reported and recoverable",
  "When the operating system refuses a write's resources (no space for a new file, unwritable directory, file limit reached), the write is reported as failed through its callback, every value stored earlier stays readable (minus at most the oldest file being rotated out), nothing is left behind of a data file that could not be made, the process neither crashes nor hangs, and once the condition clears the metric accepts writes again.",
  ["fault_sequences", "histories"],
  "all histories with resource failures injected at any write and lifted later",
  "No test injects a failure of file creation or allocation.",
  [DB+"file.go", DB+"metric.go", DB+"internal/system/alloc_linux.go", DB+"db_write.go"],
  [("error propagation to the done callback", DB+"db_write.go"), ("file creation", DB+"file.go")],
  ["files.DB.Queue callback", "files.DB.Query"])
# ---------------------------------------------------------------- ingest
p("P14", "Aggregation neither loses nor invents observations",
  "Between captures, everything added for a metric ends up in exactly one produced record: its observation count equals the number of adds, its minimum and maximum are the extreme values with the identifiers of observations that attained them, and its distribution was fed exactly those values. The records of one metric tile time: each starts where the previous ended, and metrics with no adds produce no record.",
  ["histories", "inputs"],
  "all sequences of adds, captures and iterations over any set of metrics and float values, with any distribution implementation",
  "Tests add a few values and capture once.",
  ["data/writer.go", "data/agg.go"],
  [("swap of the aggregation map on capture", "data/writer.go"), ("running count, minimum and maximum", "data/agg.go")],
  ["data.Writer.Capture", "data.Writer.Iterate"])
p("P15", "Aggregation is safe under concurrent observers",
  "Many goroutines adding to the same and different metrics while others iterate never race on memory, panic or deadlock, never call a distribution concurrently with itself, and lose nothing: every record seen meanwhile agrees with itself, and once they finish, counts, extremes and their identifiers are exactly right. An unusable distribution configuration makes adds be reported and dropped, not hang.",
  ["schedules"],
  "all interleavings of concurrent adds and iterations, including a metric's very first adds",
  "No test adds from more than one goroutine and checks the totals.",
  ["data/writer.go", "data/agg.go"],
  [("per-metric mutex around the distribution", "data/agg.go"), ("load-or-store of aggregates", "data/writer.go")],
  ["race detector", "data.Writer.Iterate"])
p("P16", "Every well-formed line on the wire becomes exactly one observation",
  "For any byte stream sent over a connection, however split into packets and over however many connections, each well-formed line (metric, decimal value, timestamp) adds exactly that value to exactly that metric once, and malformed or non-finite lines add nothing and do not stop later lines, and a line beyond the limit costs at most the rest of its own connection. The listener stops promptly, closing its port, when told to.",
  ["inputs", "schedules"],
  "all byte streams made of lines up to the documented line limit, all packet boundaries, several connections at once",
  "The listener has no tests at all.",
  ["listener/graphite/listener.go", "listener/graphite/register.go"],
  [("line scanner and field splitting", "listener/graphite/listener.go")],
  ["data.Writer contents after the client closes"])
p("P17", "A dump persists every captured record once, intact",
  "Each dump hands every metric captured at that moment to the database exactly once, under its own name, with its own time range and an encoding that decodes to precisely the captured record, even when the database holds on to callbacks or calls them late or concurrently. It returns only after the database answered for all of them, however long that takes, and starts over cleanly for the next period, including the final dump at shutdown. While it runs, observations are captured once a period, later only by as long as the dump before took.",
  ["histories", "schedules"],
  "all sets of captured records and all completion orders, delays and failures of the database",
  "One path is exercised at most; buffer reuse across late callbacks needs generated schedules.",
  ["dump/dump.go"],
  [("buffer pool returned only in the callback", "dump/dump.go"), ("waiting for all callbacks", "dump/dump.go")],
  ["database.Sink.Queue arguments"])
p("P18", "What is sent is what is stored, end to end",
  "For lines received by a running server, after dumps the stored records of each metric account for every observation sent: per metric the counts add up, the extremes match and quantiles of the merged distribution agree with the sent values within the sketch's accuracy, time ranges abut, and every metric sent and nothing else is listed.",
  ["histories", "inputs"],
  "all streams of lines interleaved with dumps and restarts of the pipeline",
  "No test connects listener, aggregation, dumper and database.",
  ["listener/graphite/listener.go", "data/writer.go", "dump/dump.go", DB+"db_write.go", "data/load/load.go", "merge/merge.go"],
  [("pipeline of listener, writer, dumper and database", "run.go")],
  ["files.DB contents decoded with data/load"])
p("P19", "The server process shuts down cleanly without losing data",
  "A server started from a configuration file that receives an interrupt exits by itself with success after dumping, and everything it had ingested by then is in its data directory and served after the next start. A configuration that cannot be used makes it exit with an error instead of running.",
  ["histories", "configurations"],
  "all ingested workloads and configurations with one or more listeners, interrupted at any quiet moment",
  "Nothing starts the real process.",
  ["run.go", "main.go", "init.go", "bin/rothko/main.go", "internal/junk/signal.go", "internal/junk/launcher.go", "dump/dump.go"],
  [("final dump after listeners stop", "run.go"), ("database kept running until the last dump", "run.go")],
  ["exit status", "data directory", "HTTP API after restart"])
p("P20", "Records survive encoding and are compatible on the wire",
  "Any record encodes to bytes that decode to an equal record, agrees with an independent implementation of the declared message format, tolerates unknown fields, and decoding arbitrary bytes yields a record or an error but never a crash. Loading the distribution of a decoded record yields one that answers as the encoded one did, or, for any other bytes, an error or a usable distribution but never a crash.",
  ["inputs"],
  "all records (any field values) and all byte strings",
  "There are no tests of the generated code against an independent codec.",
  ["data/record.pb.go", "data/record.proto", "data/load/load.go", "dist/tdigest/wrapper.go"],
  [("generated protobuf code", "data/record.pb.go"), ("distribution loading by kind", "data/load/load.go")],
  ["data.Record Marshal/Unmarshal", "load.Load"])
# ---------------------------------------------------------------- merging
p("P21", "Merging records is exact on counts, extremes and time",
  "Merging a set of records gives one whose count is the sum, whose merged-count is the sum of the inputs' (each at least one), whose minimum and maximum with their identifiers come from an input attaining them, and whose time range spans all inputs; order and grouping of the inputs do not matter for these. Records with incompatible distributions are refused with an error.",
  ["inputs"],
  "all non-empty sets of records with arbitrary counts, extremes (also negative, also first in the list), identifiers and times, in any order and grouping",
  "Tests merge two similar records in one order.",
  ["merge/merge.go", "merge/resample.go"],
  [("fold over the inputs", "merge/merge.go")],
  ["merge.Merge result"])
p("P22", "Each rendered column summarises exactly the records overlapping it",
  "Given a metric's records in decreasing order, the columns produced for a time window cover disjoint pixel ranges inside the requested width, and each column's values come from exactly those records whose time overlaps its pixels; every pixel overlapped by at least one record inside the window is covered by a column. Records outside the window contribute nothing, and no column has non-finite numbers.",
  ["histories", "inputs"],
  "all sequences of records (adjacent, gapped, overlapping the window edges, shorter or longer than a pixel) and all windows and widths",
  "Two fixed pictures are compared; record-to-pixel assignment for arbitrary time layouts is not enumerated.",
  ["merge/merger.go", "merge/resample.go", "merge/merge.go"],
  [("time to pixel mapping", "merge/merger.go"), ("collecting records per pixel", "merge/merger.go")],
  ["merge.Merger.Push/Finish columns"])
p("P23", "Merged distributions agree with pooling the raw values",
  "The distribution obtained by merging records (of equal or different lengths) answers quantile and rank queries according to all the underlying observations, within the sketch's accuracy, whatever the order and grouping of merging; encoding it again does not lose accuracy.",
  ["inputs"],
  "all partitions of a finite set of observations into records, and all merge orders",
  "Tests check two hand-made digests.",
  ["merge/merge.go", "merge/resample.go", "dist/tdigest/wrapper.go"],
  [("resampling and digest merge", "merge/merge.go")],
  ["dist.Dist Query/CDF of the merged record"])
p("P24", "A distribution answers quantile and rank queries coherently",
  "At any time in a sequence of observations, quantile answers are non-decreasing in the quantile and stay within the observed range (the sketch may extrapolate its ends by at most the width of that range), rank answers are non-decreasing in the value and within [0,1], reaching 1 at the highest quantile, each is approximately the inverse of the other, and both reflect all observations made so far, including those made after an earlier query. The number of observations is exact and the encoding restores an equally answering distribution.",
  ["histories", "inputs"],
  "all interleavings of observing, querying and encoding, over all finite values and all compression settings",
  "Queries interleaved with observations are not tested.",
  ["dist/tdigest/wrapper.go", "dist/tdigest/register.go", "dist/common.go"],
  [("wrapper around the t-digest", "dist/tdigest/wrapper.go")],
  ["dist.Dist methods"])
# ---------------------------------------------------------------- drawing
p("P25", "The heatmap puts each column's colours where they belong",
  "For any columns, colour scale and canvas, each pixel inside a column and the canvas has the colour that the column's value at that height maps to, the smallest value at the bottom and the largest at the top, later columns over earlier ones; pixels outside all columns or outside the canvas (also when it is a view of a larger picture) are untouched, and the column is not changed. The fast path and the general path draw the same picture. The palette brightens from low to high.",
  ["inputs"],
  "all column layouts (adjacent, overlapping, empty, out of range), scales, palettes and canvas sizes and strides",
  "One picture with one palette is drawn, and its pixels are not checked.",
  ["draw/heatmap/heatmap.go", "draw/common.go", "draw/colors/viridis.go"],
  [("column fill", "draw/heatmap/heatmap.go"), ("palette lookup", "draw/heatmap/heatmap.go")],
  ["pixels of the canvas"])
p("P26", "Axes, keys, observation strips and graphs stay inside their canvas",
  "For any labels, sizes and data, measuring then drawing an axis, key, observation strip or whole graph yields a canvas of at least the measured size, never writes or fails outside the canvas given (also when it is a view of a larger picture), and is deterministic. Axis labels stand at their ticks without covering each other; a key shows the whole palette from bottom to top; a strip shades each column by its rate relative to the largest. The parts of a graph fill the requested size exactly, the data area sits where the measurements say, and its axes label the right times (in the zone of the program), quantiles and values. Sizes without room for the parts are reported as too small.",
  ["inputs", "configurations"],
  "all label sets (positions within [0,1], any text), orientations, widths, heights and paddings",
  "A few fixed axes are drawn.",
  ["draw/axis/axis.go", "draw/key/key.go", "draw/observations/obs.go", "draw/graph/graph.go"],
  [("measure then draw with explicit canvases", "draw/graph/graph.go")],
  ["returned canvases"])
# ---------------------------------------------------------------- api
p("P27", "Protected servers answer only the right credentials",
  "When credentials are configured (a user name, a password, or both), every request to the API without exactly those credentials is answered with an authorization challenge without consulting or disclosing anything stored; with exactly those credentials it behaves as an unprotected server does. The allowed origin is announced as configured.",
  ["inputs", "configurations"],
  "all configured credentials, all Authorization headers (absent, malformed, near misses in length, case and content) and all paths and methods",
  "The server has no tests.",
  ["api/server.go", "run.go"],
  [("basic auth check before dispatch", "api/server.go")],
  ["HTTP responses"])
p("P28", "Any request gets one well-formed answer",
  "Whatever the path, method, headers and query parameters (missing, malformed, extreme, contradictory), the API answers with a valid status and a body matching its content type, never crashes the handler, and never allocates without bound; invalid parameters give a client or server error and not a broken success. The server keeps serving correctly afterwards.",
  ["inputs"],
  "all requests, over databases with any contents",
  "The server has no tests.",
  ["api/server.go", "api/common.go", "api/query/spec.go", "draw/graph/graph.go", "draw/axis/axis.go"],
  [("parameter parsing with defaults", "api/common.go"), ("error to status mapping", "api/server.go")],
  ["HTTP responses"])
p("P29", "Searching metrics follows the documented pattern language",
  "The query endpoint and the search return exactly the stored metrics that match the pattern: space-separated terms that must all match, with components separated by dots, wildcards within a component and the documented prefix/suffix forms, limited to the requested number. The answer depends only on the stored names and the pattern.",
  ["inputs"],
  "all patterns and sets of metric names",
  "A table of examples is tested.",
  ["api/query/glob.go", "api/query/search.go", "api/query/spec.go", "api/server.go"],
  [("glob matching", "api/query/glob.go"), ("search over terms", "api/query/search.go")],
  ["query.Search results", "HTTP /api/query"])
p("P30", "Rendered data is the stored data",
  "The render endpoint's data for a metric and time window equals what merging that metric's stored records over that window gives: same columns, the newest record before now as the latest information, independent of which other metrics exist, identical when asked twice, and in agreement between its data and image forms. A metric without data in the window is answered with an empty rendering, one never stored with an error or an empty rendering, and what cannot be read is an error.",
  ["histories", "inputs"],
  "all stored histories and render parameters",
  "The server has no tests.",
  ["api/server.go", "merge/merger.go", "draw/graph/graph.go", DB+"db_read.go"],
  [("query, merge and measure pipeline", "api/server.go")],
  ["HTTP /api/render"])
p("P31", "Static assets are served exactly as packed",
  "Every file of the packed interface archive is served byte for byte under its path, directories list exactly their entries in any page size, and paths not in the archive give its default page or, without one, are not found; nothing outside the archive is reachable. Pages rendered as templates substitute values with context-appropriate escaping (a page that is no valid template is an error, not a crash), and other files pass through unchanged.",
  ["inputs"],
  "all archives (nested paths, missing directory entries, empty files) and all request paths, ranges and seeks",
  "The packages have no tests.",
  ["internal/tgzfs/fs.go", "internal/tgzfs/file.go", "internal/tmplfs/fs.go", "api/server.go"],
  [("in-memory file system over a tar.gz", "internal/tgzfs/fs.go"), ("template rendering layer", "internal/tmplfs/fs.go")],
  ["http.FileSystem interface", "HTTP responses"])
# ---------------------------------------------------------------- config and infrastructure
p("P32", "Configuration means what it says",
  "Loading a configuration file yields exactly the settings it spells out: durations, sections and per-kind blocks in any valid layout; writing a loaded configuration and loading it again changes nothing, invalid files are refused with an error and never crash, and displaying a configuration never reveals its secrets and alters nothing else. The starter file that the program generates is itself valid.",
  ["inputs", "configurations"],
  "all valid and invalid configuration documents",
  "Two sample documents are loaded.",
  ["config/load.go", "config/config.go", "config/initial.go", "config/common.go"],
  [("typed decoding of sections by kind", "config/load.go"), ("redaction", "config/config.go")],
  ["config.Load", "config.Config.WriteTo", "config.Config.Redact"])
p("P33", "Components are built from configuration or refused with an error",
  "Looking up a component kind and building it from a configuration value succeeds exactly when the kind is registered and its settings have the right types and usable values (absent optional ones take their defaults), and then it behaves as those settings say; anything else is an error, never a crash. The last registration of a name wins, lookups are safe while others register, and makers may use the registry themselves.",
  ["inputs", "configurations", "schedules"],
  "all configuration values (any nesting and types) for all registered kinds, and concurrent registration and lookup",
  "The type assertion helper is tested on a few shapes; the makers not at all.",
  ["registry/registry.go", "registry/common.go", "internal/typeassert/asserter.go", DB+"register.go", "dist/tdigest/register.go", "listener/graphite/register.go"],
  [("checked conversions collected into one error", "internal/typeassert/asserter.go"), ("locked name tables", "registry/registry.go")],
  ["registry.New* results"])
p("P34", "Task supervision runs everything and waits for everything",
  "A group of launched tasks runs each queued task exactly once; when the first fails or the context ends the others are told to stop, and the call returns only after all have returned, with the first error. A signal context ends upon its signal (or its parent's end), and once it has ended signals have their usual effect again. A database that is already running refuses a second run and can be run again after the first ended.",
  ["schedules", "histories"],
  "all sets of tasks with any completion order and failures, and all sequences of overlapping runs",
  "One happy path is tested.",
  ["internal/junk/launcher.go", "internal/junk/flag.go", "run.go", DB+"db.go"],
  [("error channel and cancellation", "internal/junk/launcher.go"), ("atomic running flag", "internal/junk/flag.go")],
  ["junk.Launcher.Run", "files.DB.Run"])
p("P35", "Metric name sets stay sorted, exact and independent",
  "A set of metric names contains exactly the names added or merged into it, enumerates them once each in sorted order stopping when asked, and copies share no state with their original.",
  ["histories"],
  "all sequences of adds, merges, copies, lookups and enumerations over any strings",
  "The existing test adds a few keys and merges once.",
  [DB+"internal/sset/set.go"],
  [("sorted slice with a membership map", DB+"internal/sset/set.go")],
  ["sset.Set methods"])
p("P36", "The command line does what it says or exits with an error",
  "The init command writes the starter configuration exactly when there is no such file, and otherwise fails and leaves everything as it was. The demo command, given a usable configuration (any database settings, with or without existing data), ends by itself with success, having added to its six metrics decodable records that abut over the last day and agree with their own distributions, changing nothing that was stored before and adding no other metric. Unknown commands, wrong numbers of arguments, and unreadable or unusable configurations make the program tell why and exit with an error, without creating anything, crashing or hanging.",
  ["inputs", "configurations", "histories"],
  "all command lines, states of the working directory, and configurations",
  "No test runs the program.",
  ["main.go", "init.go", "demo.go", "run.go", "utils.go", "bin/rothko/main.go", "config/initial.go"],
  [("existence check before writing", "init.go"), ("argument check", "utils.go"), ("waiting for each record's callback", "demo.go")],
  ["exit status and output", "directory contents"])
p("P37", "Answers stay right while data arrives",
  "While observations are added, dumped and stored, every request is answered as it would be for the metric's records at one moment: the first k of them in the order of storing, with k at least the number acknowledged before the request was made and at most the number handed over before it was answered; a listing names every metric with a record acknowledged before it was asked for and none without one. Nothing races, fails or crashes because of the other.",
  ["schedules", "inputs", "histories"],
  "all interleavings of adds, dumps, writes, walks of the directory, renderings and listings",
  "No test runs any two of the parts at the same time.",
  ["api/server.go", "merge/merger.go", "data/writer.go", "dump/dumper.go", DB+"db.go", DB+"metric.go", "api/query/search.go"],
  [("reads while the newest file is written", DB+"metric.go"), ("locked map of distributions", "data/writer.go"), ("metrics refreshed while searched", DB+"db.go")],
  ["HTTP responses"])
p("P38", "Nothing is left behind",
  "However connections, requests, queries, queued values, signal contexts and task groups end (completed, abandoned, reset, cancelled, failed), the process returns to what it held before: no goroutine, socket, descriptor or mapping more after any number of the same uses than after one, none at all once every part has been ended (in any order the parts may be ended in, with connections open), and no memory for names that are no longer in use.",
  ["histories", "schedules"],
  "all sequences of uses of the running parts and all orders of ending them",
  "Nothing looks at what remains after an operation.",
  ["listener/graphite/listener.go", "internal/junk/signal.go", "internal/junk/launcher.go", DB+"db.go", DB+"db_read.go", DB+"file_cache.go", DB+"lock_pool.go", "data/writer.go", "api/server.go", "dump/dump.go"],
  [("connections closed with their handler", "listener/graphite/listener.go"), ("released and evicted handles", DB+"file_cache.go"), ("counted locks", DB+"lock_pool.go")],
  ["goroutines, descriptors and mappings of the process", "heap in use"])
p("P39", "What the program reports about itself is true",
  "Every request except those for the nonce is reported once, with the status it was answered with, its method and its path; a dump is measured once, with exactly the numbers of values stored, not stored and failed, and every value not stored is reported under its metric; every malformed line is reported once; damaged records and unreadable directories are reported and healthy ones are not. No report contains the password, and with no logger or monitor the program behaves the same.",
  ["inputs", "histories", "configurations"],
  "all requests, dumps, lines and histories, with any combination of logger and monitor",
  "No test has a logger or a monitor.",
  ["external/common.go", "external/resources.go", "api/server.go", "api/common.go", "dump/dump.go", "data/agg.go", "listener/graphite/listener.go", DB+"metric.go", DB+"db.go", "config/config.go", "run.go"],
  [("status tracking", "api/common.go"), ("counters of a dump", "dump/dump.go"), ("nil-safe resources", "external/resources.go"), ("redaction", "config/config.go")],
  ["external.Default.Logger", "external.Default.Monitor", "output of the program"])
p("P40", "A running server does what its configuration says",
  "Every setting decides what it names and nothing else, in every combination and whatever earlier runs used on the same data: each listener takes lines, the API is at its address, over TLS with the configured certificate exactly when there is one, for the configured credentials and origin; what arrives is stored about once per period and when interrupted, not before, in files of the configured size and capacity with the configured number kept, encoded with the configured compression; packed pages are served as packed, with the development script in development only; the configured secrets appear in no output.",
  ["configurations", "histories"],
  "all combinations of settings, changing from run to run over one data directory",
  "No test runs the program or connects its parts; swapping two arguments of the same type where they are connected compiles and passes.",
  ["run.go", "bin/rothko/main.go", "config/load.go", "config/config.go", DB+"register.go", "dist/tdigest/register.go", "listener/graphite/register.go", "api/server.go", "internal/tmplfs/fs.go", "ui/ui.go"],
  [("parts built from one configuration", "run.go"), ("registry of kinds", "registry/registry.go")],
  ["HTTP responses", "data directory", "output of the program"])
p("P41", "A shortage of descriptors is survived",
  "When more connections arrive than the process may open descriptors for, the server keeps running: every connection is eventually served or, if it is to the API, may have been given up by its client; every line sent to the listeners is counted; once the shortage is over everything works as before; and an interrupt ends the server with success and with all values stored.",
  ["fault_sequences", "schedules"],
  "all limits of descriptors, and all numbers, kinds, orders and durations of connections to the listeners and the API",
  "No test opens more than one connection, or runs out of anything.",
  ["listener/graphite/listener.go", "run.go", "api/server.go", "internal/junk/launcher.go", DB+"file_cache.go"],
  [("accepting after a temporary error", "listener/graphite/listener.go"), ("ending when a part ends", "run.go")],
  ["process status", "connections", "data directory"])
p("P42", "Days of history are drawn where they happened",
  "For every history of observations, dumps, quiet metrics, restarts and down times, over seconds or weeks: every retained record covers exactly the time from the capture before it (or the first observation of that run of the server) to its own capture and holds what was observed then; retention keeps the newest records the files have room for and no more; and the API's answer about any window, ending now or in the past, shows at each pixel values and rates of the records overlapping it, all of them, and nothing where there are none, with the latest record before the end of the window; a window without given bounds is the last day. After a restart the same holds for the same history.",
  ["histories", "inputs"],
  "all rates of observations and periods, all stretches of running and being down, all windows, widths and retention settings",
  "Tests last milliseconds, and no test connects aggregation, dumper, database, merging and API.",
  ["data/writer.go", "dump/dump.go", "merge/merger.go", "api/server.go", DB+"metric.go"],
  [("start of the next page", "data/writer.go"), ("pixel of a time", "merge/merger.go"), ("stop of the query at the start of the window", "api/server.go"), ("removal of the oldest file", DB+"metric.go")],
  ["API answers", "database queries", "data directory"])
p("P43", "Components of plugins take part like the built-in ones",
  "The plugins the configuration names are loaded in their order, before anything is made, and their databases, distributions and listeners are then known by their kinds, a later registration of a kind in place of an earlier one. Each section makes one component of its kind with exactly its settings, and nothing is made, and nothing run, of a configuration with a plugin that does not load, a kind nobody registered or settings its maker refuses: the program says why and fails. Otherwise every listener and the database run, once each, until an interrupt or until one of them ends: what ended it is the program's status and message; every part sees the end and is waited for, the database last, after one more dump; every observation any of them made is handed to the database exactly once (one made in the very moment of a dump may be lost), in distributions of the configured kind, with the right bounds; the API answers from the configured database; and what the program reports goes to the logger and monitor a plugin has put in place. The demo command adds its data to the configured database the same way.",
  ["configurations", "schedules", "fault_sequences"],
  "all lists of plugins, sections, settings, behaviours and failures of the components, and times of their ends",
  "No test loads a plugin, or runs the program with any component but the built-in ones.",
  ["run.go", "demo.go", "registry/registry.go", "external/resources.go", "config/load.go", "internal/junk/launcher.go", "dump/dump.go"],
  [("order of loading and making", "run.go"), ("last registration of a kind", "registry/registry.go"), ("end of all parts with the first", "internal/junk/launcher.go"), ("last dump before the database ends", "run.go")],
  ["calls into the plugins' components", "status and output of the program", "API answers"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
