HEAD = """
# DESIGN

What is checked here is vivint/rothko: a time series store whose unit is a *distribution* per metric and
period. Lines arrive over TCP (listener/graphite), are aggregated per metric (data), dumped periodically
(dump) into an append-only, memory mapped, rotating file database (database/files), and are merged (merge),
drawn (draw), searched and served over HTTP (api, internal/tgzfs, internal/tmplfs), from a process put
together from a TOML configuration (config, registry, internal/typeassert, internal/junk, run.go).
`properties.jsonl` states NPROP properties over all of these parts; every one is decided by property-based
testing or fuzzing and is claimed in MANIFEST.json.

(This file is written by `tools/gen_design.py` from `tools/design_text.py`, properties.jsonl,
known-findings.txt and the metadata of the planted bugs; `tools/regen.sh` rewrites everything generated.)

## How the machinery works

- **One Go module**, `/verif/harness`, is named `github.com/vivint/rothko/database/files/zzverif` and
  replaces `github.com/vivint/rothko` by `/repo`: so it may import rothko's internal packages without any
  file, hook or build tag in /repo, and every check compiles /repo's current working tree. `./check ID` builds
  `harness/checks/<id>` (with `-race` for the ids in `harness/race.txt`) into a temporary directory and runs it.
- **harness/vkit** is the driver. A check is a set of sub-checks `vkit.P(name, quick, thorough, gen, test)`:
  a rapid generator of a *case* (plain data, JSON), and a function that executes the case against the real
  code and an oracle. Cases are spread over child processes with seeds derived from VERIF_SEED. A failing
  case is shrunk by rapid and saved as JSON: `VIOLATION property=ID replay=FILE`, and `./check ID FILE` runs
  that case again (VKIT_REPEAT=n times for those that depend on scheduling).
- **Crashes, hangs, data races, runaway memory.** Children are watched: the current case is written before it
  runs, so that a fatal error (concurrent map writes, stack overflow, SIGBUS on a mapping, out of memory under
  an address space limit, a report of the race detector, no progress within the hang limit) is attributed to a
  case and reported as a violation, unless its innermost frame outside of the runtime is the harness (exit 3:
  a broken check, never a violation). A panic below the code under test is a violation of its property.
- **Evidence** is written by vkit: cases generated per sub-check, how many were non-trivial by the stated rule,
  how many of those were distinct, labels (how often each interesting situation arose), samples, assumptions.
- **harness/store** holds the reference model of the file database, the independent codec of its on-disk format
  and the shared history generator; **fakedb, fakedist, fakeapi** are recording stand-ins for a database and a
  distribution (in `dist.Dist`'s interface) with faults that can be drawn.
- **Known findings** are listed in `known-findings.txt` by property and key; a check asks `Known(key)` only
  where it has established that the failing case is of that very form, and prints the KNOWN-FINDING line.
- **Tiers.** Quick: 2-50 s a check on 8 idle cores; thorough: 15 to 50 times as many cases (2-15 minutes).
- **Coverage guidance.** In the thorough tier the sub-checks in `harness/fuzz.txt` (the parsers, formats, models and
  drawings, whose cases run in one process and in microseconds) are run again for a minute each with Go's fuzzer
  choosing the bits that the rapid generator draws from (`vkit.Fuzz`, rapid.MakeFuzz), guided by the coverage of
  /repo's code. The oracle is the same; a failure is saved as the same kind of replay file and is reported only if
  the replay fails as well. Executions and inputs with new coverage are in the evidence (`coverage_guided`).
- **Containment.** All files lie in temporary directories that vkit removes; P08's hostile names are written
  from a directory nested deeper than a name can climb, as an unprivileged user where the identity can be
  dropped; P13's limits are set on child processes; P05 and P34 kill and trace only processes they started.
- **Judging behaviour, not text.** No check looks at source. Internal packages are used through their exported
  functions only (sset, tgzfs, tmplfs, junk, typeassert), the rest through the public API, HTTP or the binary.
"""

D = {}
D["P01"] = dict(
 gen="Configurations (record size 96-4096, capacity 1-40, 1-6 historical files, handles -1 to 100, buffer, workers), 1-3 metrics, end times around 0, the epoch's other side, today and the end of time, in one case of forty values of up to 520 records, up to ~60 operations: writes (payloads from empty through exactly one record, one byte more, a full file, to too large), queries at any bound, with early stops, failing callbacks, cancellation after any number of values and reused buffers, latest reads, restarts. At the end a query at and just after every stored end.",
 oracle="`store.Model`, a list of values per file per metric with the arithmetic of slots; every answer compared byte for byte and in order.",
 bounds="24 000 histories, ~10 s; 400 000 thorough.",
 why="The number of combinations of bound, file boundary, record boundary and eviction is unbounded; the unit tests query once after writing a few values. The first defect found (a query stopping at the newest file) needs three files and an old bound.")
D["P02"] = dict(
 gen="As P01, weighted to out-of-order, equal-end, capacity-sized and oversized writes; the 'boundary' sub-check has payloads at every slot multiple +-1; 'any size' has records too small for data or metadata.",
 oracle="Acceptance predicted by the model; *all* metrics' histories re-read after every step, so a refused write that moved anything shows.",
 bounds="22 000 histories, ~10 s.",
 why="'Leaves everything as it was' quantifies over states; a refused write's side effect (an old file rotated out) only shows when the metric is at its retention limit.")
D["P03"] = dict(
 gen="Small capacities, long histories ('long': hundreds of writes, rotating dozens of times so that file numbers pass 9, 99; 'lowered': restarts with more, fewer or unlimited historical files).",
 oracle="Greedy packing into files predicts exactly which values survive; the number and bytes of data files on disk are measured after every step.",
 bounds="8 300 histories, ~8 s.",
 why="Retention is a statement over all histories; file number 10 sorting before 9 takes ten rotations.")
D["P04"] = dict(
 gen="Histories with clean restarts, most with a different record size, capacity, file count (raised only), handles, workers; *aged* - data files renumbered between restarts as if up to ten billion had come and gone before; *places* - the directory spelled differently.",
 oracle="Model that remembers the layout each existing file was created with.",
 bounds="23 000 histories, ~15 s.", why="Mixed layouts within one metric never occur in tests.")
D["P05"] = dict(
 gen="An acknowledged history and one more write, interrupted, reopened with the same or another record size and capacity: *torn* - any subset or prefix of its slots, a partial slot, old/new/no metadata, file not created or not sized, derived from the byte difference before/after; *tornmeta* - metadata cut at any byte; *stepped* - a real process whose writing thread is single-stepped with ptrace (PTRACE_SINGLESTEP by a child we start), every distinct state of the directory between two instructions is taken as a crash; *killed* - a real process killed by strace fault injection at the n-th file or memory system call.",
 oracle="Model before and after the write; the reopened database must be one or the other (minus the rotated file), consistent at every bound, and accept and retain later writes.",
 bounds="15 600 cases of which 200 stepped (9 000 states), ~45 s.",
 why="The crash point is an input no test supplies. Five defects were found here, all needing one specific point.",
 note="Process death, not power loss: stores through the mapping are in the page cache in program order. 'stepped' was added after the planted bug P05-clear-metadata, which clears the metadata before rewriting it, was missed by synthesised tears (both ends of the write looked right).")
D["P06"] = dict(
 gen="Histories over several files, then up to four alterations of the closed files: bit flips, zeroed ranges and slots, overwritten ranges, header fields, truncation at any byte, damaged metadata; one case in eight with records of several pages (up to 64 KiB).",
 oracle="From the independent layout: which values' records were touched. Untouched values must be returned, touched ones intact or not at all, nothing fabricated, the other metric unaffected, later writes accepted; hang limit.",
 bounds="16 000 cases, ~9 s.", why="Quantifies over damage.")
D["P07"] = dict(
 gen="One to three runs of one database: values queued before anything runs, up to four concurrent clients with live, cancelled and later-cancelled contexts, callbacks held up, drop mode, buffer 0-.., shutdown after a drawn number of calls.",
 oracle="Counts callbacks per value (exactly one), compares 'stored' with the database's contents, bounds the time a call may block; the payload is overwritten as soon as Queue returns.",
 bounds="20 000 cases, ~6 s.", why="Exactly-once over all schedules of shutdown and queueing.")
D["P08"] = dict(
 gen="Sets of up to eight confusable names derived from each other by edits over dots, slashes, percent escapes, control, NUL and non-UTF-8 bytes; and every name up to a length over small alphabets of special characters (grid).",
 oracle="A map from name to values; exact read-back, listing, restart; a walk of everything around the data directory.",
 bounds="12 000 sets and 26 grids, ~5 s.", why="Injectivity of an escaping is a statement over all pairs of names.")
D["P09"] = dict(
 gen="Histories of stored and refused writes, reads of unknown names, components of up to 255 bytes, up to 300 components, restarts, full, stopped and failing listings, renewed directory walks, alone or with writers; start-ups over hundreds of metrics on disk while new ones are written.",
 oracle="Set of names with stored values; sorted, once each; 'startup' repeats listings while the walk is under way.",
 bounds="6 400 cases, ~4 s.", why="Races between the walk, the workers' sets and listings.")
D["P10"] = dict(
 gen="Two to six goroutines running drawn programs of waiting and non-waiting writes, queries, latest reads, listings, walks over up to four metrics; reads and listings whose callback waits, or itself uses up to sixty other metrics.",
 oracle="Race detector; each read must be strictly decreasing, unaltered, within what was queued, and contain everything acknowledged before it began that rotation cannot have discarded.",
 bounds="8 000 workloads with -race, ~3 s.", why="Interleavings.")
D["P11"] = dict(
 gen="Histories over names needing escapes; directories produced by the independent encoder with files of differing record size and capacity, file numbers crossing digit counts.",
 oracle="`store/format.go`: an independent strict encoder and decoder of the established layout.",
 bounds="14 000 cases, ~8 s.", why="Tests read back what the same code wrote, so a symmetric change passes them.")
D["P12"] = dict(
 gen="One history (several metrics, rotations, old reads, restarts, some with another record size, capacity and handle limit) executed under several handle limits.",
 oracle="All results equal the one model; mappings of data files counted in /proc/self/maps after every operation, maps and fds after shutdown.",
 bounds="6 000 histories, ~10 s.", why="Leaks and stale handles depend on which handle random eviction hits.")
D["P13"] = dict(
 gen="Histories with refusals starting and ending at drawn points: RLIMIT_FSIZE, RLIMIT_NOFILE, a file system really out of space or of inodes (a small tmpfs in a user and mount namespace of a helper process, reached through its /proc/self/fd; where that cannot be had the file size limit stands in), unwritable directories, something else in the place of a directory.",
 oracle="The model's set of allowed states after a failed write; no file without values left behind by one; recovery and restart.",
 bounds="8 000 cases, ~5 s.", why="Tests never make a system call fail.")
D["P14"] = dict(
 gen="Sequences of adds (any float including -0, subnormal, infinities of both signs as the API permits; identifiers in reused buffers, some of thousands of bytes), captures (some adding from within), iterations and cut-short ones over up to seven metrics; 'slow': time passing between the steps.",
 oracle="A list of everything added per period against counts, extremes with identifiers, the values fed to a recording distribution (or the t-digest), and record times that tile.",
 bounds="60 000 + slow cases, ~10 s.", why="Order dependent; ties; first observations.",
 note="'slow' was added after P14-first-seen (start of a record taken from its first value) was missed: with no time passing the gap was zero.")
D["P15"] = dict(
 gen="Two to eight goroutines adding distinct values to up to three metrics of a fresh writer while others iterate or capture; creation of distributions refused at drawn points.",
 oracle="Race detector, overlap detector in the fake distribution, exact totals and extremes at the end, each record seen meanwhile consistent with itself.",
 bounds="With -race.", why="Interleavings.", note="An add overlapping a capture may be lost: the code documents this, so the check does not hold it against it.")
D["P16"] = dict(
 gen="Up to four connections, each up to 20 lines (well-formed, odd numbers, wrong field counts, names of any bytes, binary, long ones of either kind, one longer than the limit at the end) cut into drawn packets, closing, staying open or resetting, in one case of 25 with up to 300 other connections open; fractional timestamps; also bursts larger than the read buffer.",
 oracle="An independent line parser; the writer's values compared as multisets, before and after the listener is stopped; port closed. After an overlong line the other open connections and a new one still count.",
 bounds="Loopback TCP.", why="Splits into packets are the scheduler's.")
D["P17"] = dict(
 gen="Up to five periods dumped (sometimes two dumps at once) into a database answering at once, concurrently, late, in reverse, refusing, failing; the periodic dumper stopped in the middle of handing over or while answers are outstanding; and up to twelve periods of up to a day under a virtual clock (testing/synctest), with answers that take up to hours.",
 oracle="Each captured record handed over once with its name, times and an encoding that decodes to it *at the time of the answer* (buffers must not be reused before); under the virtual clock every observation is in the one record that spans its time and no dump is later than a period plus what the one before took.",
 bounds="With -race.", why="Buffer reuse shows only with late callbacks.")
D["P18"] = dict(
 gen="Up to four periods, up to three connections, seven metrics, restarts of everything in between; consecutive records of a metric within one process must abut to the nanosecond.",
 oracle="The list of values sent: counts, extremes, rank error of merged quantiles, abutting times, listing.",
 bounds="Whole pipeline in process.", why="Composition: each part is right alone.")
D["P19"] = dict(
 gen="Configurations, lines, requests and interrupts at drawn moments for one to three lives of the real binary; configurations with one unusable part; thousands of metrics whose process gets SIGSTOP for a while (0.6 to 2.5 s, up to 22 s thorough) during its last dump.",
 oracle="Exit status, data directory decoded, the API after restart against what was sent.",
 bounds="Real processes; the slowest quick check (minutes).", why="Process lifecycle is not covered by tests at all.")
D["P20"] = dict(
 gen="Records with arbitrary fields; messages as other encoders may write them (order, repetition, unknown fields of all wire types, padded varints, groups); mutilated ones; stored distributions, damaged.",
 oracle="An independent strict protobuf codec, both directions; a distribution loaded answers as the encoded one, or an error, or is usable without crashing.",
 bounds="Hundreds of thousands of messages.", why="Total function over byte strings.")
D["P21"] = dict(
 gen="One to eight records, extremes from small integers half of the time (ties), counts and merged-counts up to 2^60, merged at once in a drawn order and in drawn groups.",
 oracle="Exact sums and extremes; algebraic laws between groupings.",
 bounds="~5 s.", why="Associativity and commutativity are universally quantified.")
D["P22"] = dict(
 gen="Up to ten records (in 'crowd' cases 30 to 300 in a pixel or two) laid out backwards (adjacent, gaps, overlaps, lengths around pixel multiples, inside and outside of the window), drawn widths and pixel sizes, touching the edges of the window and of pixels, also near the ends of time.",
 oracle="For each pixel the exact set of overlapping records from integer arithmetic; a column is identified with a set through exact quantiles and rates.",
 bounds="~10 s.", why="Off-by-one pixels at drawn alignments.")
D["P23"] = dict(
 gen="One to eight records of up to 3000 values from eight shapes, repeated records, merged at once and pairwise.",
 oracle="Sorted pooled values: rank error of quantile and rank answers.",
 bounds="10 000 cases.", why="Accuracy over partitions and orders.")
D["P24"] = dict(
 gen="Compressions from 1 to the largest there is; up to twelve steps of observing, asking and encoding, going on with the restored distribution.",
 oracle="Sorted values, monotonicity, inverse relation, exact length.",
 bounds="40 000 histories, ~5 s.", why="Order of queries and observations (a stale cache was found).")
D["P25"] = dict(
 gen="Columns (adjacent, apart, overlapping, empty, over the edges), palettes of 1-256 colours, views of views, general canvases.",
 oracle="A picture computed pixel by pixel from the statement; guard pixels around the canvas.",
 bounds="200 000 pictures, ~10 s.", why="Heights, scales and rounding.")
D["P26"] = dict(
 gen="Axes, keys, strips and whole graphs of any size, time, time zone of the program and data on no canvas, exact, larger, too small ones and views.",
 oracle="A picture composed independently from the labels and the font's glyphs; drawn twice.",
 bounds="38 000 drawings, ~14 s.", why="Sizes without room; views.")
D["P27"] = dict(
 gen="Drawn credentials and origins; right ones, near misses (prefix, case, moved colon, other schemes, bad base64); with and without Origin headers of drawn sites.",
 oracle="Whether to answer is decided from the header alone by an independent parser; answers compared with an unprotected twin; the database counts uses.",
 bounds="12 000 servers, ~8 s.", why="The space of wrong credentials.")
D["P28"] = dict(
 gen="Methods, paths, headers and parameters (absent, malformed, extreme, repeated, contradictory) over drawn records, some damaged, and failing reads.",
 oracle="An independent judgement of the parameters gives the allowed statuses; JSON/PNG parsed against content type and requested size; allocation measured, also for requests of millions of samples or pixels; address space limit; a probe before and after.",
 bounds="40 000 requests.", why="Total function over requests.")
D["P29"] = dict(
 gen="Names over small alphabets; terms with wildcards anywhere, parts of stored names with bytes replaced, also over bytes that are not valid UTF-8; empty and very long names; limits.",
 oracle="Matcher by dynamic programming on the language's definition.",
 bounds="~10 s.", why="Backtracking matchers are wrong only on particular strings.")
D["P30"] = dict(
 gen="Records of several metrics in a real database, perhaps reopened; windows and sizes; data and image forms, twice each.",
 oracle="Independent composition: stored records filtered, merged (merge is P22's subject) and drawn (P25, P26).",
 bounds="4 000 databases, ~12 s.", why="End-to-end composition.")
D["P31"] = dict(
 gen="Generated archives (nested, missing directory entries, repeated files, ./ names, names that start with dots, rarely a file of 1 to 9 MiB), handles used interleaved, pages, ranges, hostile metrics in templates, damaged archives; a file system under the templates that counts open files and fails reads.",
 oracle="Map from path to bytes; each template context decoded back to the substituted value.",
 bounds="~10 s; 900 000 cases thorough.", why="Total over paths, page sizes and archives.")
D["P32"] = dict(
 gen="Documents by an independent writer in drawn layouts; with one drawn fault; edited at random; the starter file with and without its examples.",
 oracle="The settings the writer spelled out; write-load round trip; redaction differs in the secrets only.",
 bounds="~5 s; 1.7 million thorough.", why="Layouts and mutations of text.")
D["P33"] = dict(
 gen="Nested values and paths; settings for every built-in kind (right, over the range of each, missing, wrong type, unusable); registries under histories and concurrent registrations.",
 oracle="A walk of the value; a table of required settings; the component exercised to see its settings at work.",
 bounds="28 500 cases with -race, ~7 s.", why="Combinations of types and settings.")
D["P34"] = dict(
 gen="Groups of tasks, callers that give up, several runs; flags; database runs; signal contexts in child processes with one or both of their signals; errors shared between tasks and with the context.",
 oracle="A model of completions; which error may be returned; default effect of signals restored.",
 bounds="18 650 cases with -race, ~30 s.", why="Schedules.")
D["P35"] = dict(
 gen="Histories of adds, merges (also with itself), copies, lookups, stopped enumerations over up to five sets.",
 oracle="A map per set, every set compared after every step.",
 bounds="20 000 histories, ~2 s.", why="Aliasing shows only after particular growth.")

D["P36"] = dict(
 gen="*init*: up to four uses (also with arguments, help, unknown commands, edits and removals in between) in a directory with nothing, a file, an empty read-only file, a link or a directory in the place of the starter file. *demo*: one or two uses with drawn record size, capacity, files, buffer, drop, handles, workers, compression, spelling of the directory, GOMAXPROCS, on existing values (also of the future). *unusable*: run and demo with one of 24 unusable things.",
 oracle="Exit status; the directory tree before and after; every record read back through the database and decoded: abutting times over the last day, count, extremes and quantiles agreeing, old values unchanged.",
 bounds="780 uses of the binary, ~13 s.", why="No test runs the program. A hang of demo was found that needs drop = true with buffer = 0, and a listing of / that needs an empty directory.")

D["P37"] = dict(
 gen="A real files database (drawn record size, capacity, buffer, workers, handles), 1-4 metrics with 0-3 records before; then at once up to four feeders adding values which a dumper dumps (or storing records directly), up to four clients asking up to six renderings (data or image, windows with all, some or only old records, 1 or 5 samples) or listings, in process or over loopback, and walks of the directory.",
 oracle="Every record handed to the database is recorded with its acknowledgement. Each answer must equal, byte for byte, that of the same server over an in-memory database holding the first k records of the metric, for some k between those acknowledged before asking and those handed over before the answer; the race detector watches everything.",
 bounds="2 500 cases, ~30 s; 60 000 thorough.", why="A reader overtaken by a writer only sees wrong data in particular interleavings; each layer is right alone.")

D["P38"] = dict(
 gen="*lives*: one or two lives of listener, writer, dumper, files database and server in one process; a drawn list of uses (connections with lines that are closed, reset or half closed; requests that are complete, half, unread or whose body never comes; values queued with contexts ended; queries ended early, failing or cancelled; signal contexts ended by cancel, parent or signal; task groups; dumps, listings, second runs, taken addresses, impossible directories), done three times, then everything ended in a drawn order with up to four connections open. *memory*: 4000 uses of up to three kinds, each with a name never used again.",
 oracle="Goroutines and sockets after three rounds are not more than after one, and after the end of everything as before its beginning, with no descriptor or mapping below the directory; the heap after collection grows by less than 50 bytes per use.",
 bounds="1 350 cases, ~30 s.", why="A leak has no effect on any single result; it needs the abandoned, failed or repeated use, and a look at the process.")
D["P39"] = dict(
 gen="*requests*: up to eight requests (any method, path, credentials, parameters; failing database; static handlers that answer oddly), one by one or at once. *dumps*: up to four dumps of up to 12 metrics into a database that stores, skips, fails, stores with an error, refuses or answers later; distributions that cannot be made. *lines*: up to three connections with malformed and over-long lines. *stored*: histories of the files database, healthy, with one damaged byte, or on an impossible directory. *process*: the real binary with credentials, requests and lines. Each with a logger, a monitor, both or neither.",
 oracle="The reports are matched one to one with what happened (status against the answer, method, path, line, metric; measurements against the sink's counts); passwords are searched for in every report and in the binary's output.",
 bounds="32 600 cases, ~13 s.", why="Reports are looked at when something fails; errors logged with status 0 went unnoticed because no test has a logger.")

D["P40"] = dict(
 gen="One to five runs of the real binary over one data directory, with drawn settings in each: period, number of listeners, origin, credentials (both, one, none), TLS with one of two certificates, record size, capacity, files, tuning, compression, relative or absolute directory, development mode; values sent to the listeners and requests for pages, listings and renders with right, missing, swapped, partial and wrong credentials, with and without TLS; then an interrupt.",
 oracle="Status, origin header and peer certificate against the settings; pages against the packed archive; data files unchanged before the interrupt with long periods and changed with short ones, the number of records compared with the periods that passed; the newest record's count and compression; all that is retained and the sizes of the files against the reference model of P01; secrets searched for in the output.",
 bounds="240 cases of up to five runs, ~15 s.", why="The connection of the parts exists only in run.go, which no test executes.")

D["P41"] = dict(
 gen="The real binary under `ulimit -n` of 32 to 120, with one to three listeners; one to four waves of connections (from ten less than the limit to a hundred more) to a listener and the API, sending lines at once, when all are open, or half and half, held up to 300 ms, the API's closed or reset; then an interrupt, some with connections open, a few or more than it has descriptors for; and shortages of 24 or 45 s, after which a new connection must be served within a third of that.",
 oracle="The process is alive after each wave, every listener connection is read to its end, the API answers 200 afterwards, the interrupt ends it with status 0, and the number of values stored for each metric is the number sent.",
 bounds="160 cases, ~10 s.", why="The failing call (accept with no descriptor left) never fails in a test.",
 note="Found a genuine defect (fixed): the listener gave up on any accept error, which ended the whole server without its last dump.")

D["P42"] = dict(
 gen="Writer, dumper, real database and API under a virtual clock: one to six stretches of up to 200 periods of a second to seven hours, rates drawn per metric, restarts with drawn down times, retention of a few records up to all; windows of any length ending now or in the past, or with defaults, asked before and after restarts; starting in 2000, 2018, 2026 or 2200.",
 oracle="The records there must be, computed from the times of observations and dumps; all observations between two captures have the same value, so that the values of a pixel tell which records it shows; the records that must and may be in each pixel from exact integer arithmetic.",
 bounds="1 500 histories, of which a third last days and 8 % weeks, ~20 s.", why="Only a virtual clock reaches weeks; the composition is tested nowhere.")

D["P43"] = dict(
 gen="The program and two plugins (a journaling database, a distribution that keeps every value exactly, scripted listeners, a logger and monitor) are built from the tree once per run; each case draws which plugins are loaded in which order (also twice, missing, or not plugins), the components and their settings of every TOML type, how they behave (observe, refuse values, fail to be made, end early with or without a reason, linger) and when the interrupt comes; some run the demo command.",
 oracle="The journal of what was done to every component, against the configuration: the multiset of components made with exactly which settings and by which plugin, nothing after a refusal, order of starts and ends, the database ending last, the reason and status of the end, every observation handed over once within right bounds, sums of monitored values, and API answers that come from the journaling database.",
 bounds="700 runs of the program, ~20 s (plus ~25 s to build the plugins).", why="Nothing in the tests loads a plugin, and only components that journal show what the program does with them.")

CATCH = {}

TAIL = """
P32's known finding is a defect of the TOML encoder the program uses (a module dependency): it writes quoted names
without escaping them. The repair would be in another module or a new writer, which is more than small; the check
accepts only failures of documents whose names contain such characters.

## Where a stronger statement would raise alarms on right code

Some of these were alarms of ours while building and were corrected in the property or the check; none is listed
as a known finding.

- P05: a write interrupted before it was answered may be there, whole, or not.
- P06: damage of a file's metadata record may fail the metric's queries (never crash, never fabricate).
- P08: names with NUL bytes or over-long components are refused by the file system, and an error is right.
- P15, P17: an add overlapping a capture may be lost; the writer documents that. P19 therefore uses dump periods long
  enough that lines are not lost to it (with millisecond periods whole metrics were, and the check raised an alarm).
- P16: what arrived before a connection is reset may be the beginning of a malformed line with too many fields, which
  is itself well-formed (seen once in many thousand cases, under load; the check counted it as an observation from
  nowhere). It is allowed for on connections that are reset.
- P20: with a compression below 2 a single centroid may stand for nearly all values, so no accuracy in rank is asked of
  a loaded t-digest (found by coverage guidance, when such compressions were added to the generator).
- P18, P23, P24: the accuracy of the t-digest in rank for values of very different scales is as stated in the
  assumptions, not better.
- P26: vertical labels may lose rows below their base line at the edge of the canvas.
- P29: letters are compared without case in ASCII only.
- P34: signal children inherited an ignored SIGINT when the check ran in the background of a shell and then reported
  the signal as without effect; they reset it now.
- A fix of ours (f80c499) refused sizes that could just hold a file's metadata; noticed with P33 and refined (b7fa806).

- P10, P38: queries after a database's Run has ended keep files in its cache until a run ends: nothing promises otherwise.
- P19, P34: the HTTP server returns as soon as its shutdown begins, so a request in progress at an interrupt may be cut
  off; only what was received from clients and stored is promised.

## Limits

- Interleavings are sampled: P07, P10, P15, P17, P33, P34 see what the Go scheduler yields over many generated
  programs (with drawn yields and delays, under the race detector), not all.
- The ui directory's JavaScript is not checked beyond being served (P31): it runs in a browser, none is here.
"""
