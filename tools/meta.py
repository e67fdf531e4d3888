"""The properties: text for properties.jsonl and MANIFEST.json (genmeta.py writes both)."""
META = {}


def prop(pid, **kw):
    META[pid] = kw


prop("C01", title="BSON documents survive encoding and decoding exactly",
  statement="A document built from any values of any BSON type encodes to exactly the bytes the BSON format prescribes, and its reported size is the number of those bytes. Reading those bytes back, through any reading or writing entry point, yields the same keys, types and values in the same order. An encoding, once returned, is not changed by later calls.",
  over=["inputs", "programs"], for_all="all documents (every value type, nested to any depth, any element count), every constructor route and every read/write entry point",
  why="The tests compare a fixed set of documents; lengths, digit counts of array indexes, nesting and the combination of constructor and writer form an unbounded space.",
  files=["document.go", "element.go", "value.go", "array.go", "reader.go", "constructor.go", "x_constructor.go", "elements/elements.go"],
  mech=[("size computation followed by positional writing", "document.go: Validate, writeByteSlice, MarshalBSON; array.go: the same"), ("per-type encoders", "elements/elements.go"), ("typed accessors", "value.go")],
  level_note="TLC: all documents of at most 2 elements over a palette of 21 types with 1 (quick) or 2 (thorough) levels of wrapping, byte-exact replay; random documents up to 1002 elements and 30 levels validated against the TLA+ encoder.")

prop("C02", title="Malformed BSON is rejected without panicking; well-formed BSON is accepted",
  statement="For every byte string, each reading entry point either accepts it as a document or returns an error, and never panics, hangs or reads outside the declared document. Full validation accepts exactly the well-formed documents and reports their size, and whatever is accepted and written out again is well-formed with the same content.",
  over=["inputs"], for_all="all byte strings, in particular every truncation, length corruption, type corruption and splice of well-formed documents",
  why="The tests sample a few malformed documents per type; the space of corruptions of nested length fields is unbounded.",
  files=["reader.go", "document.go", "element.go", "value.go", "x_value.go"],
  mech=[("recursive validation", "value.go: validate; element.go: validate; reader.go: Validate, validateKey"), ("declared length checks", "reader.go: NewFromIOReader, readElements; document.go: ReadFrom")],
  level_note="TLC: every single-byte corruption, truncation and length corruption of every small document of the palette (1 or 2 levels of wrapping), replayed; random corruptions validated against the TLA+ decoder.")

prop("C03", title="A document is an ordered map whose views never disagree",
  statement="After any sequence of operations a document holds exactly the elements an ordered list with first-match key access would hold, in the same order. Every view of it (iteration, positional access, lookup by key, the map view, membership, path search, encoding) describes that same content at every moment. Adding, replacing or removing elements of a copy is never seen in the original, nor the other way round.",
  over=["histories", "inputs"], for_all="all sequences of document operations on two interacting documents with arbitrary keys and values",
  why="Unit tests call each operation on a fresh document; staleness and sharing only show after particular sequences.",
  files=["document.go", "x_document.go", "x_core.go", "element.go", "reader.go", "x_constructor.go"],
  mech=[("ordered element slice", "document.go: Append, Set, Delete, Extend"), ("lazily built map view and its invalidation", "x_document.go: Map, refresh"), ("stable sort", "x_document.go: Sorted")],
  level_note="TLC: every reachable pair of documents of at most 2 (quick) or 3 (thorough) elements over 2 keys and 2 values and every operation, each transition replayed on real documents; random histories with all value types validated step by step.")

prop("C04", title="An array is a sequence whose encoded keys are always its positions",
  statement="After any sequence of operations an array holds exactly the values a list would hold. It encodes with keys 0, 1, 2, ... in order whatever keys its values carried before, alone or nested in documents and arrays. Access outside its bounds is reported and changes nothing.",
  over=["histories", "inputs"], for_all="all sequences of array operations on two interacting arrays, any length and any indexes in or out of bounds",
  why="Tests use arrays of a few values; index keys of two and more digits, out-of-bounds access and reuse of values need specific histories.",
  files=["array.go", "x_array.go", "iterator.go", "value.go"],
  mech=[("keys generated when writing", "array.go: writeByteSlice, Validate"), ("bounds checks", "array.go: lookup, Set, Delete")],
  level_note="TLC: every reachable pair of arrays of at most 2 (quick) or 3 (thorough) values and every operation, each transition replayed; random histories with arrays of up to 102 values validated byte-exactly.")

prop("C05", title="Values answer truthfully for their type, compare by content and copy apart",
  statement="Each typed accessor of a value succeeds exactly when the value has that type and then returns exactly the stored content, whether the value was constructed, read from bytes, traversed, copied or re-keyed. Two values or elements are equal exactly when their content is the same, whatever their internal representation. Changing a copy, or anything nested in it, never changes the original, and writing or reading a value never changes any value.",
  over=["inputs", "histories"], for_all="all values in every representation, all pairs of values, and all histories of copying, in-place changes of nested containers, writing and re-reading",
  why="Tests check one representation per accessor and compare hand-picked pairs; sharing between copies only shows after specific sequences of copy, change and write.",
  files=["value.go", "x_value.go", "element.go", "x_element.go", "x_core.go"],
  mech=[("type tag checks in accessors", "value.go"), ("comparison of encoded forms", "value.go: Equal, docToBytes; x_core.go: readValue"), ("deep copy of lazily parsed parts", "value.go: Copy; element.go: Copy, convertValueToElem")],
  level_note="TLC: every history of two containers (document, array, scope, one nested level) within a small size, each transition replayed by shortest and random paths with and without intermediate observation; accessors and equality on random values in ten representations judged by TLC.")

prop("C06", title="Go values convert to BSON without changing meaning, or the failure is reported",
  statement="Converting a supported Go value to BSON keeps its meaning: integers of every width keep their number, and strings, floats, times, maps and sequences keep their content at every nesting level. What cannot be represented becomes null with the lenient constructors and an error with the strict ones, at any nesting depth, and never a different value. Exporting a BSON value or document to Go values keeps every value, the last of equal keys winning.",
  over=["inputs"], for_all="all Go values of every supported and unsupported kind, nested arbitrarily, and all BSON values",
  why="Tests convert a few sample values of each kind; boundaries of integer widths and failures inside nested containers are not sampled.",
  files=["constructor.go", "x_constructor.go", "x_document.go", "x_array.go", "x_utils.go", "value.go", "document.go"],
  mech=[("type switch of the constructors", "constructor.go: EC.Interface, ECE.Interface; x_constructor.go"), ("export", "value.go: Interface; x_document.go: ExportMap; document.go: Unmarshal")],
  level_note="TLC: all integer kinds at all width boundaries and all other kinds, nested 1 (quick) or 4 (thorough) levels, driven through every constructor; random nested Go values and random BSON exports judged by TLC.")

prop("C07", title="Documents survive extended JSON exactly",
  statement="Writing a document as JSON gives valid JSON text that denotes, under the extended JSON conventions the library reads, exactly that document. Reading the text back gives the same keys, types and values in the same order, whatever characters the keys and strings contain, and every entry point that writes or reads JSON agrees.",
  over=["inputs"], for_all="all documents with values of every type that extended JSON can denote, any keys and strings (quotes, control characters, non-ASCII), any nesting",
  why="The tests compare a few samples per type; escaping, number boundaries, dates and nested wrappers form an unbounded space.",
  files=["x_json_marshal.go", "x_json_unmarshal.go", "jsonx/marhsal.go", "jsonx/unmarshal.go", "jsonx/write.go", "types/objectid.go", "types/decimal.go"],
  mech=[("wrapping of types in $-keyed objects", "x_json_marshal.go"), ("recognition of $-keyed objects", "x_json_unmarshal.go"), ("escaping", "jsonx/write.go, jsonx/marhsal.go"), ("number tokens", "jsonx/unmarshal.go")],
  level_note="TLC: every document of the BSON palette with up to 2 (quick) or 3 (thorough) levels of wrapping is written by the real code and the text parsed and interpreted by the TLA+ grammar; random documents in addition.")

prop("C08", title="JSON input is accepted exactly when it means a document",
  statement="For every text, each JSON reading entry point either returns the value the text denotes (numbers, strings, escapes and extended JSON wrappers included) or an error. Malformed JSON and malformed extended JSON never panic, never hang and never produce a value with another meaning.",
  over=["inputs"], for_all="all texts: every valid document and every truncation, corruption or wrong-typed extended JSON wrapper",
  why="Tests give a handful of malformed inputs; the wrapper grammar (missing, extra, or wrongly typed members) combined with the token grammar is unbounded.",
  files=["x_json_unmarshal.go", "jsonx/unmarshal.go", "jsonx/internal", "types/objectid.go", "types/decimal.go"],
  mech=[("tokeniser and parser", "jsonx/unmarshal.go, jsonx/internal"), ("wrapper dispatch", "x_json_unmarshal.go")],
  level_note="TLC: every sequence of at most 4 (quick) or 5 (thorough) tokens from the JSON and wrapper alphabet, driven through the real readers and judged by the TLA+ grammar; random and mutated texts in addition.")

prop("C09", title="ObjectIDs and decimals keep their value in text form",
  statement="The text of every Decimal128 and ObjectID parses back to a value with the same meaning, and parsing any text yields exactly the number or identifier it denotes, or an error when it denotes none or cannot be represented exactly. Infinities, NaN, signs and zeros with exponents are kept.",
  over=["inputs"], for_all="all 128-bit patterns, all 12-byte identifiers and all texts",
  why="Tests check a table of decimals; coefficient and exponent boundaries combine in far more ways.",
  files=["types/decimal.go", "types/objectid.go"],
  mech=[("decimal arithmetic by repeated division", "types/decimal.go: String, ParseDecimal128"), ("hex text", "types/objectid.go")],
  level_note="TLC: every text of at most 3 (quick) or 5 (thorough) symbols of the decimal alphabet, alone and behind 33 to 40 digit prefixes, and boundary coefficients and exponents; exact arithmetic on digit sequences in TLA+ decides.")

prop("C10", title="FTDC data reads back exactly what was collected, in every view",
  statement="A series of documents with one schema that is added to a collector and resolved encodes to the FTDC format, and reading it gives back, for every sample in order, every numeric, boolean, date and timestamp metric with its exact value and its full dotted path. The flattened, structured, matrix, series and chunk views, and chunk sizes and metadata, all describe those same samples.",
  over=["inputs"], for_all="all series of documents of one schema: any nesting, any values including NaN, infinities and the extremes of int64, any number of samples, every collector kind that encodes FTDC and every reading view",
  why="Tests compare a few generated series, mostly of positive integers one or two levels deep; delta, varint and run-length coding across metric boundaries and path handling depend on the particular values and nesting.",
  files=["x/ftdc/collector_better.go", "x/ftdc/bson_extract.go", "x/ftdc/bson_metric.go", "x/ftdc/bson_restore.go", "x/ftdc/bson_matrix.go", "x/ftdc/read.go", "x/ftdc/iterator_chunk.go", "x/ftdc/iterator.go", "x/ftdc/util.go", "x/ftdc/ftdc.go"],
  mech=[("delta, run-length and varint encoding", "x/ftdc/collector_better.go: getPayload"), ("decoding", "x/ftdc/read.go: readChunks; util.go: undelta"), ("flattening and restoring", "x/ftdc/bson_metric.go, bson_restore.go, bson_matrix.go")],
  level_note="TLC: every series of at most 2 (quick) or 3 (thorough) samples over 52 shapes and boundary values, payload bytes and seven views compared; random series up to 150 samples and 6 levels. The seconds of BSON timestamps are a known finding.")

prop("C11", title="Collectors keep every accepted sample exactly once and in order",
  statement="Through any sequence of adding samples, setting metadata, resolving, flushing, resetting and failing writes, what a collector has written plus what it still holds is exactly the samples it accepted, once each and in order. Chunks hold at most the configured number of samples of one schema, schema changes start a new chunk where the collector promises that, and otherwise are errors. An operation that fails changes nothing, resolving changes nothing, and the caller may reuse a document or buffer after adding it.",
  over=["histories", "inputs"], for_all="all sequences of collector operations, for the base, batch, dynamic, streaming, sampling, synchronized, writer and uncompressed collectors, any sizes, any documents and any pattern of failing writes",
  why="Tests fill each collector once with well-behaved input; boundaries, schema changes at a chunk boundary, failing writers and reuse after a flush need particular histories.",
  files=["x/ftdc/collector_better.go", "x/ftdc/collector_batch.go", "x/ftdc/collector_dynamic.go", "x/ftdc/collector_streaming.go", "x/ftdc/collector_sample.go", "x/ftdc/collector_sync.go", "x/ftdc/collector_uncompressed.go", "x/ftdc/writer.go", "x/ftdc/bson_hash.go", "x/ftdc/util.go"],
  mech=[("chunk boundaries", "collector_batch.go: Add; collector_streaming.go: Add, FlushCollector"), ("schema change detection", "bson_hash.go; collector_dynamic.go: Add; collector_better.go: Add"), ("copying of input", "util.go: copyDocument")],
  level_note="TLC: every reachable state with up to 2 or 4 pending samples, sizes 1-2 or 1-3, all operations, each transition replayed; random histories of up to 30 operations validated with byte-exact payloads.")

prop("C12", title="Corrupt or truncated FTDC data is reported, never a panic or invented data",
  statement="Reading any stream of bytes as FTDC delivers the chunks and samples that precede the first corrupt or truncated document, exactly as they were written, and then reports an error when the iteration ends; a stream that is sound ends without an error. No input makes a reader panic, hang, reserve memory for data that is not there or deliver samples that the stream does not contain.",
  over=["inputs", "faults"], for_all="all byte streams: every truncation, byte damage, wrong count or length, odd envelope and damaged compressed data, in all five reading views",
  why="The tests read intact files; what a truncated varint, a wrong number of metrics or a cut stream does is not sampled.",
  files=["x/ftdc/read.go", "x/ftdc/iterator_chunk.go", "x/ftdc/iterator.go", "x/ftdc/iterator_sample.go", "x/ftdc/iterator_matrix.go", "x/ftdc/ftdc.go", "x/ftdc/util.go"],
  mech=[("checks of lengths and counts", "x/ftdc/read.go: readChunks, readBufMetrics"), ("errors kept until the iteration ends", "x/ftdc/iterator.go, iterator_chunk.go")],
  level_note="TLC: every single damage (thorough: pairs of damages) from a boundary palette at every byte of four payloads, and random damage at every layer; the TLA+ decoder decides what had to be delivered.")

prop("C13", title="Buffered and synchronized collectors lose nothing under concurrency",
  statement="When several goroutines use a buffered or synchronized collector, and the context of a buffered collector may be canceled at any moment, every sample whose Add succeeded reaches the underlying collector exactly once and in order, none whose Add failed does, and resolving includes every sample added before. Every call returns, errors of the underlying collector are reported when resolving, the underlying collector is never used by two callers at a time, and callers may reuse what they have added.",
  over=["schedules", "histories", "inputs"], for_all="all interleavings of any number of goroutines adding, resolving, resetting, inspecting and canceling, at any buffer size and any speed of the underlying collector",
  why="Tests add from one goroutine and resolve at the end; lost samples, deadlocks, and races need a particular interleaving of cancellation, a full buffer and a slow inner collector.",
  files=["x/ftdc/collector_buffered.go", "x/ftdc/collector_sync.go"],
  mech=[("pipe, worker and closing handshake", "x/ftdc/collector_buffered.go: NewBufferedCollector, Add, wait"), ("mutex", "x/ftdc/collector_sync.go")],
  level_note="TLC: all interleavings of 2 threads with 2 operations (thorough: all operation kinds, and 3 threads for liveness), safety, deadlock freedom and liveness under fairness; recorded histories of the real code are checked for refinement by TLC, including all scripts of 4 (5) commands, under the race detector.")

prop("C14", title="CSV export and import keep the values, and report what they cannot keep",
  statement="Writing a stream of FTDC chunks as CSV produces a header of the metric names and one record per sample, in order, whose cells are the exact values; a change of the number of metrics is an error, or starts another file with its own header where the caller asked for files. Converting CSV to FTDC gives one sample per record with every numeric cell under its column's name at its exact value, in chunks of at most the requested size; a record of another length is the header of the records after it. Malformed text and failing outputs are reported as errors.",
  over=["inputs", "faults"], for_all="all chunk streams (any names, types and values, any schema changes) and all CSV texts, valid or not, any bucket size and any point at which the output fails",
  why="The tests count lines and compare a few integer series; quoting, doubles, dates, limits of integers, several schema changes and full disks are not sampled.",
  files=["x/ftdc/csv.go", "x/ftdc/collector_streaming.go", "x/ftdc/iterator_chunk.go"],
  mech=[("records of a chunk", "x/ftdc/csv.go: getRecord, WriteCSV, DumpCSV"), ("header tracking", "x/ftdc/csv.go: ConvertFromCSV")],
  level_note="TLC: every text of at most 5 (thorough: 6) tokens over the alphabet of CSV with numbers, converted by the real code and judged; random texts and random chunk streams with all metric types. What a cell denotes as a double is taken from strconv.")

prop("C15", title="Wire protocol messages round-trip, and malformed ones are errors",
  statement="Serializing a MongoDB wire message gives exactly the bytes the protocol defines, with the right size in the header, and parsing those bytes gives back a message with the same operation, header, fields, documents, sections and checksum, the scope and model that its content calls for, and the same bytes again. A body that is not a message of its operation is an error; no body makes the parser panic, read past the end of a section or reserve memory for data that is not there.",
  over=["inputs"], for_all="all messages of the ten operations with any flags, ids, namespaces, cursors, documents and OP_MSG sections, and all byte strings as bodies",
  why="The tests round-trip one well-formed message per operation; flag bits, empty and repeated sections, checksums, command namespaces and damaged lengths are not sampled.",
  files=["x/mrpc/mongowire/message.go", "x/mrpc/mongowire/header.go", "x/mrpc/mongowire/wire_message.go", "x/mrpc/mongowire/wire_query.go", "x/mrpc/mongowire/wire_reply.go", "x/mrpc/mongowire/wire_update.go", "x/mrpc/mongowire/wire_insert.go", "x/mrpc/mongowire/wire_delete.go", "x/mrpc/mongowire/wire_get_more.go", "x/mrpc/mongowire/wire_kill_cursors.go", "x/mrpc/mongowire/wire_command.go", "x/mrpc/mongowire/wire_command_reply.go", "x/mrpc/mongowire/wireutil.go", "x/mrpc/mongowire/namespace.go"],
  mech=[("encoding and decoding per operation", "x/mrpc/mongowire/wire_*.go: Serialize, parse*"), ("models and scopes", "x/mrpc/mongowire/message.go: GetModel; wire_*.go: Scope")],
  level_note="TLC: all messages of ten kinds over small palettes (8,000 quick; more documents in thorough) and every single damage of twelve of them; random messages with arbitrary documents. Bytes after the end of a fixed-size message may be accepted or refused.")

prop("C16", title="A stream of wire messages is framed exactly, and ends cleanly",
  statement="Reading messages from a connection, however its bytes are fragmented, returns each message in turn and takes exactly that message's bytes from the connection. The end of the stream between messages is io.EOF; a stream that ends inside a message, or a size that cannot be a message's, is another error, and a size alone does not reserve memory. Sending writes exactly the message's bytes however the connection splits the writes, and reports failures. Reading and sending stop with an error when their context is canceled, even if the connection is blocked.",
  over=["inputs", "schedules", "faults"], for_all="all sequences of messages, all fragmentations, all points at which the stream ends, fails or is corrupted, and all moments of cancellation",
  why="Tests send one message over a buffer; messages that follow each other, short reads, truncation and cancellation while blocked are not sampled.",
  files=["x/mrpc/mongowire/sock.go"],
  mech=[("size prefix and exact reads", "x/mrpc/mongowire/sock.go: ReadMessage"), ("complete writes", "x/mrpc/mongowire/sock.go: SendMessage")],
  level_note="TLC: all streams of at most 2 (3) of nine parts, sound or not, every cut of the last part, three (two) fragment sizes alternating; random streams and cancellation times.")

prop("C17", title="A service dispatches every request to its handler, and survives bad ones",
  statement="An operation can be registered only with a valid scope and a handler, and only once. Every request that arrives on a connection runs exactly once the handler registered for its scope, or else the one registered for its command in any context, with the message as it was sent and a writer that answers on that connection. A request without a handler, a malformed or truncated message and a handler that panics are reported to the error handlers and affect only their own connection. When its context is canceled, the service stops accepting, closes its connections and returns.",
  over=["histories", "inputs", "schedules", "faults"], for_all="all registrations, all byte streams on any number of connections, handlers that return, panic or block, and any moment of cancellation",
  why="The tests exercise the registry alone; no test runs a service, so dispatch, isolation of connections and shutdown are not sampled at all.",
  files=["x/mrpc/service.go", "x/mrpc/registry.go", "x/mrpc/mongowire/scope.go", "x/mrpc/mongowire/sock.go"],
  mech=[("registration and lookup", "x/mrpc/registry.go: Add, Get; mongowire/scope.go: Validate"), ("connection loop", "x/mrpc/service.go: dispatchRequest"), ("accepting and stopping", "x/mrpc/service.go: Run")],
  level_note="TLC: all interleavings of two connections with bursts of one (two) messages, safety and liveness; all scripts with at most two of 13 registrations and one (two) of 12 bursts on either of two connections run for real; random scripts with up to ten registrations and six bursts.")

prop("C18", title="Shell requests and responses keep their documents, and every command is answered",
  statement="A document sent as a request or response arrives as the same document, whichever operation carries it, and a message that carries none is an error. An outcome document gives back the status and error message it was made from, counts as success exactly if its status is not zero and it has no message, and is refused if they have the wrong type. The shell service answers every command it supports exactly once, in the client's protocol, with the fields that command calls for.",
  over=["inputs", "histories"], for_all="all documents and messages, all statuses and messages, all sequences of commands in both protocols, and failing outputs",
  why="The shell package has no tests at all.",
  files=["x/mrpc/shell/util.go", "x/mrpc/shell/io.go", "x/mrpc/shell/service.go"],
  mech=[("conversions", "x/mrpc/shell/util.go: RequestToMessage, ResponseToMessage, RequestMessageToDocument, ResponseMessageToDocument"), ("outcomes", "x/mrpc/shell/io.go: ErrorResponse"), ("handlers", "x/mrpc/shell/service.go")],
  level_note="TLC: all outcome documents of at most 2 (3) elements from 14, all messages of WireModel; random documents and conversations of up to 12 commands.")

prop("C19", title="Performance events keep their numbers, and cumulative collectors sum every event",
  statement="The document of a performance event holds exactly its fields, and reading it back gives the event (times to the millisecond); fields that are missing keep their values and fields of another type are an error. Every cumulative collector sums the counters and timers of all events, takes time and gauges from the last one, numbers events without an id, and writes the sum for every event (basic), every n-th (sampling), once per interval or at the given percentage; the pass-through collector writes each event as it is. Failures below are reported and lose nothing, the caller's events are never changed or kept, and synchronized collectors serve concurrent callers one at a time. Custom points keep every value they accept, ordered by name.",
  over=["inputs", "histories", "schedules", "faults"], for_all="all events and documents, all sequences of events with failures of the collector below at any point, callers that reuse their events, all schedules of concurrent callers",
  why="The tests add two events and count samples; sums, ids, sampling periods, reuse of an event by its caller, reading events back and most types of custom points are not sampled.",
  files=["x/ftdc/events/performance.go", "x/ftdc/events/collector.go", "x/ftdc/events/custom.go"],
  mech=[("event documents", "x/ftdc/events/performance.go: MarshalDocument, UnmarshalDocument"), ("summing", "x/ftdc/events/performance.go: Add; collector.go: AddEvent"), ("custom points", "x/ftdc/events/custom.go")],
  level_note="TLC: all histories of 3 (4) steps over three events, five (nine) collectors and failures below, with the laws of summing; 1,000 documents near an event and 250 custom sequences; random histories, documents and callers. Random sampling is checked at its limits only (none, all).")

prop("C20", title="Recorders write what was recorded, once, with its time",
  statement="A recorder's points hold exactly the counters, durations, gauges and id given to it since it was last reset, with the time of their iteration: the raw recorders write one point per iteration, the grouped ones once their interval has passed, the interval ones from the background once per interval, the single ones at the end of the test; the end of a test writes whatever iterations were not written and returns exactly the errors since the last one. Nothing is lost or counted twice whatever the order of calls, whether the collector below is slow or fails, the background context is canceled, or several goroutines call an interval or synchronized recorder; every call returns.",
  over=["histories", "schedules", "faults"], for_all="all sequences of calls on the eight recorders and their wrappers, at any speed of the clock and of the collector below, with failures and cancellation at any moment, and concurrent callers",
  why="The tests call each recorder once or twice and look at the last point; later points of a test, leftovers, ticks of the background writer that meet the end of a test, and concurrent callers need sequences and timings that they do not sample.",
  files=["x/ftdc/events/recorder.go", "x/ftdc/events/recorder_performance_raw.go", "x/ftdc/events/recorder_performance_grouped.go", "x/ftdc/events/recorder_performance_interval.go", "x/ftdc/events/recorder_performance_single.go", "x/ftdc/events/recorder_histogram.go", "x/ftdc/events/recorder_histogram_grouped.go", "x/ftdc/events/recorder_histogram_interval.go", "x/ftdc/events/recorder_histogram_single.go", "x/ftdc/events/recorder_wrapper_sync.go", "x/ftdc/events/recorder_wrapper_stdlib.go", "x/ftdc/events/histogram.go"],
  mech=[("one file per recorder", "x/ftdc/events/recorder_*.go: BeginIteration, EndIteration, EndTest, Reset"), ("background writers", "x/ftdc/events/recorder_performance_interval.go, recorder_histogram_interval.go: worker"), ("wrappers", "x/ftdc/events/recorder_wrapper_*.go")],
  level_note="TLC: all uses of at most 3 (4) calls from seven (ten and more) on every plain recorder and of 2 (3) on every histogram recorder, with laws of conservation; random uses of up to 30 calls. Histograms are compared to their five digits. Left open: whether an unchanged point is written again at the end of a test, and counters of a test without any iteration.")
prop("C21", title="Collected metrics are in the files, all of them, once and in order",
  statement="CollectJSONStream writes the documents on the lines of its source (a reader that delivers them in any pieces, a file, or a file that is followed as lines are appended to it in any parts) to the FTDC files prefix.0, prefix.1, ... and CollectRuntime does so with its samples: the files, read in order, hold the metrics of each document once, in the order of the source, every file holds at least one document and none is skipped or rewritten, and a document is in a file soon after the flush interval although the source has not ended. The collection of lines returns without an error only when the source ended and all its lines are written; a malformed line, a source that fails or panics, and cancellation are errors. CollectRuntime takes samples with consecutive ids, each with the document of every custom collector under its name (serial or parallel, also when their shapes change) and the same metrics at the same place, writes them all when it is canceled, and reports a collector that panics. Both return when they are canceled and leave neither goroutines nor open files.",
  over=["inputs", "histories", "schedules", "faults"], for_all="all sources (any lines in any pieces, ending, failing, panicking or never ending), flush intervals and sample counts, custom collectors, and moments of cancellation",
  why="The tests check that a collection returns; none reads back what was collected except three lines from a reader, and no test has a source that fails, a followed file that grows twice, parallel collectors or metrics that change.",
  files=["x/ftdc/metrics/json.go", "x/ftdc/metrics/metrics.go", "x/ftdc/metrics/runtime.go", "x/ftdc/metrics/system_info.go", "x/ftdc/collector_streaming.go", "x/ftdc/collector_dynamic.go"],
  mech=[("lines", "x/ftdc/metrics/json.go: CollectJSONStream, getSource, follow"), ("samples", "x/ftdc/metrics/metrics.go: CollectRuntime, generate")],
  level_note="TLC: all scripts of at most 2 (3) items of every kind in every mode; random ones of up to 14 lines or 40 samples. A line of more than 64 KB and a blank line may be refused (with an error); what a collection that ends with an error had taken but not written may be lost. The values of the system's own metrics are not checked beyond their shape.")

prop("C22", title="The element encoders write the BSON bytes of one value at a position and touch nothing else",
  statement="Every encoder of the package elements (Byte, Double, String, Document, Array, Binary with old and new subtypes, ObjectID, Boolean, DateTime, Regex, DBPointer, JavaScript, Symbol, CodeWithScope, Int32, Timestamp, Int64, Decimal128, CString, and their Element forms with type and key) writes at the given position of the buffer the bytes that the BSON specification gives the value, returns how many it wrote, and changes no other byte. If the bytes do not fit it returns an error, without panicking and without writing past the end.",
  over=["inputs"], for_all="all values, keys, buffers and positions (of less than 2^31)",
  why="There are no tests of the encoders: they are only reached with sizes that fit and values of a few types through other packages.",
  files=["elements/elements.go"],
  mech=[("value", "elements/elements.go: (DoubleNS...Decimal128NS).Encode"), ("element", "elements/elements.go: the Element methods")],
  level_note="TLC: every encoder at every position of buffers of up to 12 (16) bytes with small values; random values of every type and random buffers. Documents given to the encoder are written as they are.")

prop("C23", title="A list document is an ordered map of its elements",
  statement="The list documents of x/blist keep their elements in order under Append, AppendOmitEmpty, Prepend, Set (replaces the first element of the key in its place, or appends), Delete (removes and returns the first element of the key, or returns nil), the operations of the list (push, pop, reset, iteration), and Len; a nil element panics without being stored, and AppendOmitEmpty leaves out nil and empty ones. Validate gives the size of the document with these elements.",
  over=["inputs", "histories"], for_all="all histories of operations on list documents",
  why="The package has no tests, and the result depends on the history (removal and replacement within a linked list).",
  files=["x/blist/blist.go"],
  mech=[("list", "x/blist/blist.go: Document")],
  level_note="TLC: all histories of up to 3 (4) operations over two keys; random ones of up to 20. The order of several elements given to one Prepend may be either (the code reverses them).")

prop("C24", title="Histograms survive their documents, bytes and JSON; malformed ones are refused",
  statement="A histogram of x/ftdc/hdrhist is written as the document {lowest, highest, figures, counts} (64-bit integers, the counts of all its buckets in order), as the bytes of this document and as JSON with the same fields; UnmarshalBSON and UnmarshalJSON give back an equal histogram (range, precision, counts and total), with or without a registered unmarshaler. An input that is no histogram (syntax, a field of another type, no counts, figures outside 1 to 5, more or fewer counts than the range has buckets, a range that overflows) is refused with an error and leaves the receiver as it was: reading neither panics nor hangs. The document of a performance histogram holds the timestamp, id, the six histograms under their names, and the gauges, and does not follow later changes.",
  over=["inputs"], for_all="all histograms and all documents, byte strings and JSON texts",
  why="There are no tests of the package, and the inputs that make reading panic or loop are unusual.",
  files=["x/ftdc/hdrhist/snapshot.go", "x/ftdc/events/histogram.go"],
  mech=[("snapshot", "x/ftdc/hdrhist/snapshot.go"), ("performance", "x/ftdc/events/histogram.go: MarshalDocument")],
  level_note="TLC: ranges up to 4096 with one or two figures and up to 1 (2) recorded values; random histograms with ranges to 60000. Values of 2^30 and more, missing ranges, numbers of other types and repeated fields may be read or refused, but must not panic.")

prop("C25", title="JSON trees built by hand are what was put into them; copies are apart",
  statement="A jsonx document or array built with any of the constructors (every width of integer and float, strings, booleans, null, objects and arrays from elements or shared) holds its members in order, under their keys; the accessor of the kind of a value gives the value and every other refuses it; an object or array held in several places is one (a change shows in all of them), and a copy (of a document, array, element or value) is equal and has nothing in common with what was copied. MarshalJSON writes the tree as JSON text that means the same, and gives an error if a number is not finite. Converting a document to BSON (DCE.JSONX) gives the document that its text means in extended JSON, or an error if it means none.",
  over=["inputs", "histories"], for_all="all histories of building, sharing, copying and changing JSON trees",
  why="The tests build a few trees from text; sharing, copies and the constructors of other widths only differ in particular histories.",
  files=["jsonx/juniper.go", "jsonx/constructor.go", "jsonx/marhsal.go", "jsonx/write.go", "x_json_unmarshal.go"],
  mech=[("tree", "jsonx/juniper.go"), ("constructors", "jsonx/constructor.go"), ("text", "jsonx/marhsal.go"), ("conversion", "x_json_unmarshal.go: DocumentConstructorError.JSONX")],
  level_note="TLC: all histories of 4 (5) operations on up to 2 (3) roots; random ones of up to 15 operations on up to 6 roots. Not covered: nil documents, arrays and values within a tree, and cycles.")

prop("C26", title="A document map is the elements of a document by key",
  statement="Document.Map gives a map of its own with the first element of every key, sharing the elements but nothing else with the document and with other maps, whatever was done to the document before. Copy gives another map of the same elements. Validate accepts a map exactly if every element is valid and stands under its own key; MarshalDocument and MarshalBSON give exactly the elements of such a map (in any order) and an error for any other. UnmarshalDocument and UnmarshalBSON put one of the elements of every key of the document into the map and leave the rest, and cut bytes are refused.",
  over=["inputs", "histories"], for_all="all histories of documents and their maps",
  why="The map is cached in the document, so what it shows depends on the history; the tests use it once or not at all.",
  files=["unmarshal.go", "document.go"],
  mech=[("map", "unmarshal.go: DocumentMap"), ("cache", "unmarshal.go: Document.Map, refreshCache")],
  level_note="TLC: all histories of 3 (4) operations on up to 2 maps; random ones of up to 20 on up to 4 maps. Bytes that are malformed only within nested documents may be accepted (they are checked when they are used).")

prop("C27", title="Metrics documents carry every number under its name, and deltas of the Go statistics add up",
  statement="MarshalDocument of the Go runtime, system and process records and of the whole runtime record of x/ftdc/metrics gives a document in which every number and string of the record stands under its own name, in a fixed order, with exactly the parts that were collected. The Go statistics collected as totals are the counters of the runtime at the time; deltas, also those collected by several goroutines at once, add up exactly to the difference of the totals; rates are the delta by the nanoseconds since the last collection, rounded down; the gauges are those of the runtime.",
  over=["inputs", "histories", "schedules"], for_all="all records, and all histories and schedules of collections",
  why="The tests look at one document of the running process, where most numbers are zero; a number under another's name or a delta that is counted twice is not noticed.",
  files=["x/ftdc/metrics/golang_info.go", "x/ftdc/metrics/process_info.go", "x/ftdc/metrics/system_info.go", "x/ftdc/metrics/birch_builders.go", "x/ftdc/metrics/runtime.go", "x/ftdc/metrics/platform_linux.go"],
  mech=[("documents", "x/ftdc/metrics/*: MarshalDocument"), ("counting", "x/ftdc/metrics/golang_info.go: goStats")],
  level_note="TLC: a counter up to 8 (16), 4 (8) collections. Random records; histories of up to 12 collections. What gopsutil reports of the machine is not checked, nor the values of CollectBasicGoStats.")

