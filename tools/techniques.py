NA = {}
M = "stateful model-based property testing (rapid) "
T["P01"] = (M + "of write/query histories against a reference model", "exploration", "Trusts the reference model of files and slots; single client, so no interleavings.")
T["P02"] = (M + "of accepted and refused writes against a reference model", "exploration", "Trusts the model of slot arithmetic; ends between 1 and 2^63-2.")
T["P03"] = (M + "of rotating histories with the on-disk file count and survivors predicted by a model", "exploration", "The number of retained files is never lowered across restarts in generated histories.")
T["P04"] = (M + "of histories with restarts and option changes against a reference model", "exploration", "Clean shutdowns only (crashes are P05).")
T["P05"] = ("fault injection: generated histories, then every crash point of a write (torn stores synthesised from the byte difference, killed system calls, every distinct state between two instructions of the single-stepped writer) followed by model comparison after reopening", "fault_enumeration", "Stores within a mapped page are assumed to reach the file in program order at byte granularity, as after the death of the process; power loss is out of scope.")
T["P06"] = ("property-based corruption: generated histories and generated damage, checked against which values the damage touched", "exploration", "Assumes damage does not collide under CRC-32C; metadata damage may fail the metric's queries.")
T["P12"] = (M + "differentially over handle limits, watching /proc/self/maps and fds", "exploration", "Reads the process's own map and descriptor lists; Linux only.")
T["P07"] = ("property testing of generated queueing schedules (modes, buffer states, cancellations, shutdown races) with a count of callbacks per value and comparison with the stored history", "exploration", "Schedules come from generated operation plans and goroutine timing, not exhaustive interleaving.")
T["P08"] = ("property testing with generated sets of confusable metric names against a map oracle, with the surrounding directory tree compared", "exploration", "Names with NUL bytes, over-long components or the data file suffix are outside the property.")
T["P09"] = (M + "of listings in histories of writes, refusals, reads of unknown names, restarts and refreshes, including writes during the start-up walk", "exploration", "Letter-sensitive file system assumed.")
T["P10"] = ("property testing of generated concurrent workloads under the race detector, each read checked for consistency with the acknowledged history", "exploration", "Interleavings are sampled by the scheduler over generated workloads.")
T["P11"] = ("differential property testing against an independent encoder and decoder of the on-disk layout, in both directions", "exploration", "The independent codec was written from the established layout and pins it.")
T["P13"] = ("fault injection over generated histories: resource failures (file size limits, unwritable directories, descriptor limits) at generated writes, lifted later, against a reference model", "fault_enumeration", "Faults injected through limits and permissions; no block-level errors.")
T["P14"] = (M + "of the aggregator with an exact recording distribution (and the t-digest) against the list of added values", "exploration", "Wall clock assumed not to step backwards during a case (time checks are skipped when it does).")
T["P15"] = ("property testing of generated concurrent workloads under the race detector, with a recording distribution that detects overlapping calls and refuses creation on demand", "exploration", "Interleavings are sampled by the scheduler; adds overlapping a capture may be lost, as documented.")
T["P16"] = ("property testing of generated streams (well-formed, odd and malformed lines, cut into drawn chunks, over several connections) against an independent line parser", "exploration", "Very long lines and values outside the sketch's numeric range are left out.")
T["P17"] = ("property testing of generated aggregates dumped into recording and real databases, with dumps and periods racing observers under the race detector", "exploration", "Interleavings are sampled by the scheduler; adds overlapping a capture may be lost, as documented.")
T["P18"] = (M + "of the connected pipeline (listener, writer, dumper, database, restarts) against the values sent", "exploration", "Quantiles compared by rank within 1/compression + 2% + 1.5/n; no line arrives during a dump.")
T["P19"] = (M + "of lives of the real server process (drawn configurations, lines, requests, interrupts) and generated unusable configurations", "exploration", "Runs the binary built from the tree; interrupts at drawn moments after lines were taken.")
T["P20"] = ("property-based differential testing against an independent protobuf codec, mutation fuzzing of messages and of stored distributions", "exploration", "The independent decoder follows the protobuf rules strictly; input it refuses may be accepted.")
T["P21"] = ("property testing of merge laws: drawn records merged at once and in drawn groups and orders against exact sums and extremes", "exploration", "Sums within 64 bits, finite extremes.")
T["P22"] = ("property testing of generated record layouts against an independent assignment of records to pixels, exact quantiles and rates identifying the records summarised", "exploration", "Records arrive with decreasing ends; values carry three digits.")
T["P23"] = ("metamorphic property testing: partitions of drawn values merged in drawn orders against the sorted pooled values", "exploration", "Accuracy in rank taken as 0.6/compression + 2% + 2/n for values of one scale, 1.7/compression + 3% + 2/n otherwise.")
T["P24"] = (M + "of observing, querying and encoding against the sorted values and mutual consistency of the answers", "exploration", "Accuracy in rank taken as 1.7/compression + 3% + 2/n (1/64 more for ranks).")
T["P25"] = ("property testing of generated columns, palettes and canvases against a picture computed pixel by pixel, on both drawing paths", "exploration", "Columns have at least one value; the scale maps into [0,1].")
T["P26"] = ("property testing of generated axes, keys, strips and graphs drawn onto guarded canvases against pictures composed independently, pixel by pixel", "exploration", "Label positions within [0,1]; fixed-width fonts; vertical labels may lose rows below their base line at the edge.")
T["P27"] = ("property testing of generated credentials and near-miss Authorization headers against an unprotected twin server and a database that counts its uses", "exploration", "Drives the handler in process and over loopback; timing side channels are out of scope.")
T["P28"] = ("property testing and structured fuzzing of requests (paths, methods, parameters) over fake and real databases, each answer checked for well-formedness", "exploration", "Memory bounded by an address space limit on the process; loopback clients only.")
T["P29"] = ("differential property testing of patterns and name sets against an independent matcher, in process and over HTTP", "exploration", "The independent matcher states the pattern language as documented in the search code.")
T["P30"] = ("property testing of generated histories and render parameters against an independent composition of stored records, between JSON and image forms and repeated requests", "exploration", "Clock-dependent defaults are checked within the time the request took.")
T["P31"] = (M + "of generated archives against a map model, through the file system interfaces and HTTP", "exploration", "Archives use clean paths; odd entry types are left out.")
T["P32"] = ("round-trip and differential property testing of generated configuration documents, with mutation fuzzing of their text", "exploration", "Layouts generated from the TOML grammar's common forms; one known finding for names needing escapes.")
T["P33"] = ("property testing of generated configuration values for every kind against a table of required settings, and concurrent registrations under the race detector", "exploration", "Settings whose use would exhaust the machine are left out.")
T["P34"] = ("property testing of generated task sets and schedules under the race detector against a model of completions", "exploration", "Interleavings are sampled from generated plans; real signals are sent to a child process.")
T["P35"] = (M + "of set operations against a map model with independence of copies", "exploration", "Single goroutine (concurrent use is P10).")
T["P36"] = (M + "of uses of the real binary in drawn directories and with drawn configurations, comparing exit status, directory contents and every stored record", "exploration", "Runs as root, so no refusal by permissions.")
T["P37"] = ("property testing of generated concurrent workloads (feeders, dumper, walkers and clients of the server over a real database) under the race detector, each answer compared with the answers for every admissible number of stored records", "exploration", "Interleavings are sampled by the scheduler over generated workloads.")
T["P38"] = (M + "of uses of the connected parts, repeated and ended in drawn ways and orders, comparing goroutines, descriptors, mappings and heap before and after", "exploration", "Linux only (/proc/self); leaks below 50 bytes per use are not seen.")
T["P39"] = ("property testing of generated requests, dumps, lines, histories and uses of the binary with a recording logger and monitor, comparing the reports with what happened", "exploration", "Reports are matched by the values in them and by the names of measurements.")
T["P40"] = ("property testing of the server binary with generated sequences of configurations over one data directory, each setting compared with its observable effect (answers, certificate, files, a model of what is retained, encoding, output)", "exploration", "With short periods the number of records is unknown, so retention is compared with the model only in cases without them.")
T["P41"] = ("fault injection in the server binary: generated waves of connections under a generated limit of descriptors, against conservation of values, liveness and exit status", "exploration", "Only the exhaustion of the descriptors of the process is injected; periods are long, so that no dump falls into the shortage.")
T["P42"] = ("model-based testing of generated histories of weeks under a virtual clock: writer, dumper, database and API against a model of records computed from the observations' times", "exploration", "The virtual clock is that of Go's testing/synctest: listeners (real connections) are left out, observations are added directly; observations are not made at the very instant of a dump.")
T["P43"] = ("generated configurations of two real plugins, whose components write down everything done to them, run by the real program with drawn failures and ends; the journal is compared with what the configuration says must be made, run, ended and handed over", "exploration", "Plugins are built with the same compiler and dependencies as the program. Observations made before a part of the program fails may be lost: only those of orderly ends are required. One that is made in the very moment of a dump may be lost, as documented: a loss is reported when it happens three times in a row.")
