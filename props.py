"""What each check runs: model-checking steps (mc) and trace steps (trace)."""

PROPS = {
    "C01": {
        "coverage": "TLC enumerates every document of at most two elements from a palette of all 21 BSON types plus wrapping into documents, arrays and scopes, and the expected bytes of each are compared with the implementation; random documents built through every constructor route are recorded and their bytes and decoded content validated by TLC.",
        "steps": [
            {"kind": "mc", "module": "BSONModel", "cfg_quick": "BSONModel.cfg", "cfg_thorough": "BSONModelDeep.cfg", "replay": "codec"},
            {"kind": "trace", "module": "TraceBSON", "area": "codec", "n_quick": 1200, "n_thorough": 4000, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C02": {
        "coverage": "Byte strings near the well-formed set (truncations, length corruption, type corruption, splices) are fed to every reading entry point; acceptance, reported size, decoded content and rewriting are judged by TLC with the well-formedness predicate of BSON.tla.",
        "steps": [
            {"kind": "mc", "module": "BSONMutate", "cfg_quick": "BSONMutate.cfg", "cfg_thorough": "BSONMutateDeep.cfg", "replay": "bytes"},
            {"kind": "trace", "module": "TraceBSON", "area": "bytes", "n_quick": 3000, "n_thorough": 6000, "shards_quick": 2, "shards_thorough": 16},
        ],
    },
    "C03": {
        "coverage": "TLC enumerates every reachable pair of small documents and every operation on them; each transition is replayed on real documents (content, lookups, map view) along shortest paths and long random walks; random histories with values of every type are recorded and validated step by step.",
        "steps": [
            {"kind": "mc", "module": "DocModel", "cfg_quick": "DocModel.cfg", "cfg_thorough": "DocModelDeep.cfg", "replay": "doc"},
            {"kind": "trace", "module": "TraceDoc", "area": "doc", "n_quick": 400, "n_thorough": 600, "shards_quick": 1, "shards_thorough": 10},
        ],
    },
    "C04": {
        "coverage": "TLC enumerates every reachable pair of small arrays and every operation, in and out of bounds; each transition is replayed on real arrays; random histories (including arrays past 10 and 100 values) are recorded and validated with the byte-exact encoding.",
        "steps": [
            {"kind": "mc", "module": "ArrModel", "cfg_quick": "ArrModel.cfg", "cfg_thorough": "ArrModelDeep.cfg", "replay": "arr"},
            {"kind": "trace", "module": "TraceArr", "area": "arr", "n_quick": 300, "n_thorough": 600, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C05": {
        "coverage": "TLC enumerates every history of two small containers (documents, arrays, scopes, nested) that are copied, re-read, changed in place and written, and each transition is replayed; random values in ten representations are probed with every accessor and compared pairwise, and TLC judges each answer.",
        "steps": [
            {"kind": "mc", "module": "ValueModel", "cfg_quick": "ValueModel.cfg", "cfg_thorough": "ValueModelDeep.cfg", "replay": "value"},
            {"kind": "trace", "module": "TraceValue", "area": "value", "n_quick": 600, "n_thorough": 2000, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C06": {
        "coverage": "TLC enumerates Go values of every kind at the boundaries of every integer width, nested in sequences and maps; each is converted by every entry point of the real code and TLC judges the results; random nested Go values and random BSON values are converted in both directions.",
        "steps": [
            {"kind": "mc", "module": "GoConvModel", "cfg_quick": "GoConvModel.cfg", "cfg_thorough": "GoConvModelDeep.cfg", "record": "goconv", "trace": "TraceGoConv"},
            {"kind": "trace", "module": "TraceGoConv", "area": "goconv", "n_quick": 1500, "n_thorough": 4000, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C07": {
        "coverage": "Every small document of the TLA+ model is written as JSON by the real code, in every writing entry point; TLC parses the text with the specification's own JSON grammar, interprets the extended JSON and compares it with the document, and checks that reading the text back gives the same document. Random documents add long strings, escapes, nesting and every number.",
        "steps": [
            {"kind": "mc", "module": "BSONModel", "cfg_quick": "BSONModelSmall.cfg", "cfg_thorough": "BSONModelNest.cfg", "record": "jsonout", "trace": "TraceJSON"},
            {"kind": "trace", "module": "TraceJSON", "area": "jsonout", "n_quick": 1500, "n_thorough": 4000, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C08": {
        "coverage": "TLC enumerates every short text over the alphabet of JSON and extended JSON tokens; each is given to every JSON reading entry point, and the outcome (rejected, or accepted with this content) is judged by the grammar and meaning in ExtJSON.tla; random valid texts and mutations of them add length and depth.",
        "steps": [
            {"kind": "mc", "module": "JSONModel", "cfg_quick": "JSONModel.cfg", "cfg_thorough": "JSONModelDeep.cfg", "record": "jsonin", "trace": "TraceJSON"},
            {"kind": "trace", "module": "TraceJSON", "area": "jsonin", "n_quick": 3000, "n_thorough": 6000, "shards_quick": 1, "shards_thorough": 10},
        ],
    },
    "C09": {
        "coverage": "TLC enumerates every short text over the alphabet of decimal numbers, texts at the limits of precision and exponent, and sign/coefficient/exponent combinations at every boundary; the real code parses and prints each one and TLC decides with exact arithmetic; random bit patterns and identifiers are added.",
        "steps": [
            {"kind": "mc", "module": "DecModel", "cfg_quick": "DecModel.cfg", "cfg_thorough": "DecModelDeep.cfg", "record": "text", "trace": "TraceText"},
            {"kind": "trace", "module": "TraceText", "area": "text", "n_quick": 2000, "n_thorough": 6000, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C10": {
        "coverage": "TLC enumerates every short series of samples over a palette of shapes and boundary values, checks that the payload decodes to the samples by the grammar of the format, and every series is collected by the real code: payload bytes and every reading view are judged by TLC. Random series add deep nesting, all value types, long zero runs and every collector kind.",
        "steps": [
            {"kind": "mc", "module": "FTDCModel", "cfg_quick": "FTDCModel.cfg", "cfg_thorough": "FTDCModelDeep.cfg", "record": "ftdc", "trace": "TraceFTDC"},
            {"kind": "trace", "module": "TraceFTDC", "area": "ftdc", "n_quick": 400, "n_thorough": 800, "shards_quick": 1, "shards_thorough": 8},
            {"kind": "probe"},
        ],
    },
    "C11": {
        "coverage": "TLC explores every reachable state of fifteen collector kinds with up to 2 (quick) or 4 (thorough) pending samples over documents of several schemas, and every operation (add, bad input, metadata, resolve, reset, flushing to good, broken and short writers, the stream writer breaking and recovering); the laws (nothing lost, repeated or reordered; failures change nothing) are checked and each transition is replayed on real collectors. Random histories with documents of all types are validated step by step with the byte-exact payload.",
        "steps": [
            {"kind": "mc", "module": "FTDCCollModel", "cfg_quick": "FTDCCollModel.cfg", "cfg_thorough": "FTDCCollModelDeep.cfg", "replay": "coll"},
            {"kind": "trace", "module": "TraceFTDCColl", "area": "coll", "n_quick": 600, "n_thorough": 2000, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C12": {
        "coverage": "TLC enumerates every small damage (each byte changed to boundary values, removed, truncated or appended; two damages in the thorough tier) to the payload of a chunk between two sound chunks; the real readers are run on each, and TLC decides from the bytes which chunks must be delivered and whether an error must be reported. Random damage to envelopes, sizes, compressed data and metadata, and every truncation of a stream, is added.",
        "steps": [
            {"kind": "mc", "module": "FTDCReadModel", "cfg_quick": "FTDCReadModel.cfg", "cfg_thorough": "FTDCReadModelDeep.cfg", "record": "ftdcread", "trace": "TraceFTDCRead"},
            {"kind": "trace", "module": "TraceFTDCRead", "area": "ftdcread", "n_quick": 120, "n_thorough": 300, "shards_quick": 1, "shards_thorough": 10},
        ],
    },
    "C13": {
        "coverage": "TLC explores every interleaving (locks, pipe, worker, cancellation) of small programs on the concurrent collectors and checks that nothing is lost, repeated or reordered, that every call returns and that the inner collector is never entered twice. Every short script of calls, inner progress and cancellation, and random longer ones, is run on the real collectors under the race detector with an inner collector that logs its use; TLC decides for every recorded history whether some behaviour of the specification explains it.",
        "steps": [
            {"kind": "mc", "module": "BufferedModel", "cfg_quick": "BufferedModel.cfg", "cfg_thorough": "BufferedModelDeep.cfg"},
            {"kind": "mc", "module": "BufferedModel", "cfg_quick": "BufferedModelLive.cfg", "cfg_thorough": "BufferedModelLiveDeep.cfg"},
            {"kind": "mc", "module": "BufferedModel", "cfg_quick": "BufferedModelAlone.cfg", "cfg_thorough": "BufferedModelAloneDeep.cfg"},
            {"kind": "mc", "module": "ConcScripts", "cfg_quick": "ConcScripts.cfg", "cfg_thorough": "ConcScriptsDeep.cfg", "record": "conc", "trace": "TraceConc", "trace_opts": {"accept": True}, "race": True},
            {"kind": "trace", "module": "TraceConc", "area": "conc", "accept": True, "n_quick": 1000, "n_thorough": 3000, "shards_quick": 1, "shards_thorough": 8, "race": True},
        ],
    },
    "C14": {
        "coverage": "TLC enumerates every short text over the alphabet of CSV and specifies its records, headers and numbers; the real converter runs on each and TLC decides the samples that must result. Random texts with all kinds of numbers and schema changes, and random chunk streams written to a stream, to files, to failing and full outputs, are added.",
        "steps": [
            {"kind": "mc", "module": "CSVModel", "cfg_quick": "CSVModel.cfg", "cfg_thorough": "CSVModelDeep.cfg", "record": "csv", "trace": "TraceCSV"},
            {"kind": "trace", "module": "TraceCSV", "area": "csv", "n_quick": 1500, "n_thorough": 5000, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C15": {
        "coverage": "TLC enumerates every message of all ten kinds over small parts and checks the specified encoding and decoding against each other, then damages twelve messages at every byte; the real constructors, parser, serializer, scopes and models run on each, and TLC decides from the bytes what must come out. Random messages with random documents and random damage are added.",
        "steps": [
            {"kind": "mc", "module": "WireModel", "cfg_quick": "WireModel.cfg", "cfg_thorough": "WireModelDeep.cfg", "record": "wire", "trace": "TraceWire"},
            {"kind": "trace", "module": "TraceWire", "area": "wire", "n_quick": 3000, "n_thorough": 20000, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C16": {
        "coverage": "TLC specifies a connection as a stream of messages that is cut or corrupted anywhere and a reader whose state is its position, and enumerates all streams of at most two (thorough: three) parts with all cuts and fragment sizes; the real ReadMessage runs on each, and TLC decides for every read what it must return and how many bytes it may take. Sending to partial and failing writers and canceling blocked reads and writes are added, and random streams.",
        "steps": [
            {"kind": "mc", "module": "WireStream", "cfg_quick": "WireStream.cfg", "cfg_thorough": "WireStreamDeep.cfg", "record": "wirestream", "trace": "TraceWire"},
            {"kind": "trace", "module": "TraceWire", "area": "wirestream", "n_quick": 3000, "n_thorough": 15000, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C17": {
        "coverage": "TLC explores every interleaving of two connections, their handlers (which reply, panic or wait) and cancellation, and checks that each connection is served as if it were alone and that everything ends; it then enumerates scripts of registrations and bursts of messages, sound and broken, which run against a real service over loopback connections under the race detector, and decides from the bytes sent which calls, replies, errors and closed connections must be seen.",
        "steps": [
            {"kind": "mc", "module": "ServiceModel", "cfg_quick": "ServiceModel.cfg", "cfg_thorough": "ServiceModelDeep.cfg"},
            {"kind": "mc", "module": "ServiceScripts", "cfg_quick": "ServiceScripts.cfg", "cfg_thorough": "ServiceScriptsDeep.cfg", "record": "service", "trace": "TraceService", "race": True},
            {"kind": "trace", "module": "TraceService", "area": "service", "n_quick": 1500, "n_thorough": 5000, "shards_quick": 1, "shards_thorough": 8, "race": True},
        ],
    },
    "C18": {
        "coverage": "TLC enumerates every small outcome document and every message of the ten kinds and specifies the message of a document, the document of a message, what an outcome says, and the answers of the shell service; the real helpers run on each. Random documents, failing outputs and conversations with a real shell service over loopback connections are added.",
        "steps": [
            {"kind": "mc", "module": "ShellDocs", "cfg_quick": "ShellDocs.cfg", "cfg_thorough": "ShellDocsDeep.cfg", "record": "shell", "trace": "TraceShell"},
            {"kind": "mc", "module": "ShellMsgs", "cfg_quick": "ShellMsgs.cfg", "cfg_thorough": "ShellMsgsDeep.cfg", "record": "shell", "trace": "TraceShell"},
            {"kind": "trace", "module": "TraceShell", "area": "shell", "n_quick": 2500, "n_thorough": 12000, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C19": {
        "coverage": "TLC enumerates every short history of every event collector (with failures below, missing events, foreign documents), checks the laws of summing and sampling, every small document near that of an event and small sequences of custom points; the real code runs on each and TLC decides what must be written, summed and read. Random histories over real FTDC collectors that are read back, timed interval collectors, concurrent callers under the race detector and random documents are added.",
        "steps": [
            {"kind": "mc", "module": "EventsModel", "cfg_quick": "EventsModel.cfg", "cfg_thorough": "EventsModelDeep.cfg", "record": "events", "trace": "TraceEvents"},
            {"kind": "trace", "module": "TraceEvents", "area": "events", "n_quick": 2500, "n_thorough": 12000, "shards_quick": 1, "shards_thorough": 8, "race": True},
        ],
    },
    "C20": {
        "coverage": "TLC enumerates every short use of every recorder (eight kinds, with failing and slow collectors, cancellation and the background writer) and checks that what was given is in the points written exactly once; each use runs on the real recorder, with and without its wrappers, and TLC looks for the behaviour of the specification that explains the recorded history of calls and points, with their times. Random longer histories and concurrent callers under the race detector are added.",
        "steps": [
            {"kind": "mc", "module": "RecorderModel", "cfg_quick": "RecorderModel.cfg", "cfg_thorough": "RecorderModelDeep.cfg", "record": "recorder", "trace": "TraceRecorder", "trace_opts": {"accept": True}},
            {"kind": "mc", "module": "RecorderModel", "cfg_thorough": "RecorderModelIvl.cfg", "record": "recorder", "trace": "TraceRecorder", "trace_opts": {"accept": True}, "tiers": ["thorough"]},
            {"kind": "mc", "module": "RecorderModel", "cfg_quick": "RecorderModelHdr.cfg", "cfg_thorough": "RecorderModelHdrDeep.cfg", "record": "recorder", "trace": "TraceRecorder", "trace_opts": {"accept": True}},
            {"kind": "trace", "module": "TraceRecorder", "area": "recorder", "n_quick": 350, "n_thorough": 900, "shards_quick": 1, "shards_thorough": 6, "accept": True, "race": True},
        ],
    },
    "C21": {
        "coverage": "TLC enumerates every short collection (what is given, when the caller waits for it to be written, how the source ends) with flushes at any moment and checks that what was taken is in the files once, in order, and all of it when the collection ends well; each is run on the real collectors of JSON lines (from a reader, a file, a followed file) and of samples (serial and parallel collectors), and TLC looks for the behaviour of the specification that explains the history and the files. Longer random collections under the race detector are added.",
        "steps": [
            {"kind": "mc", "module": "CollectModel", "cfg_quick": "CollectModel.cfg", "cfg_thorough": "CollectModelDeep.cfg", "record": "collect", "trace": "TraceCollect", "trace_opts": {"accept": True}},
            {"kind": "trace", "module": "TraceCollect", "area": "collect", "n_quick": 700, "n_thorough": 4000, "shards_quick": 1, "shards_thorough": 3, "accept": True, "race": True},
        ],
    },
    "C22": {
        "coverage": "TLC enumerates every encoder of the package elements, every position in every short buffer and a set of values, with the specification's every possible outcome (all of the bytes at the position, or an error and at most a part of them, nothing else touched); each is run on the real encoders and compared. Random values of every type, in random buffers, are added.",
        "steps": [
            {"kind": "mc", "module": "EncodersModel", "cfg_quick": "EncodersModel.cfg", "cfg_thorough": "EncodersModelDeep.cfg", "record": "encoders", "trace": "TraceEncoders"},
            {"kind": "trace", "module": "TraceEncoders", "area": "encoders", "n_quick": 3000, "n_thorough": 8000, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C23": {
        "coverage": "TLC enumerates every short history of the operations of a list document (also with nil elements and repeated keys), checks the laws of the ordered map on them, and each history is run on the real list: the result of every operation and the whole content after it must be one the specification allows. Random longer histories are added.",
        "steps": [
            {"kind": "mc", "module": "ListDocModel", "cfg_quick": "ListDocModel.cfg", "cfg_thorough": "ListDocModelDeep.cfg", "record": "listdoc", "trace": "TraceListDoc"},
            {"kind": "trace", "module": "TraceListDoc", "area": "listdoc", "n_quick": 600, "n_thorough": 2500, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C24": {
        "coverage": "TLC enumerates histograms (ranges and values at the borders of the buckets), checks the layout of the buckets (every value in range has one, values that share one agree to the precision, what was counted is found again) and each is filled and written by the real code: document, bytes and JSON must be those of the specification and reading them back must give the histogram. Random histograms, performance histograms, and documents and texts with damaged fields or bytes (refused with an error, receiver unchanged, or the histogram they describe) are added.",
        "steps": [
            {"kind": "mc", "module": "HistogramModel", "cfg_quick": "HistogramModel.cfg", "cfg_thorough": "HistogramModelDeep.cfg", "record": "histogram", "trace": "TraceHistogram"},
            {"kind": "trace", "module": "TraceHistogram", "area": "histogram", "n_quick": 600, "n_thorough": 2500, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C25": {
        "coverage": "TLC enumerates every short history of objects and arrays that are built, nested, copied and taken apart, checks that copies are apart, that a change shows exactly in the trees that hold what was changed and that what is written is read back, and each history is run on the real code: after every step every tree, seen by its accessors, its JSON text and (at the end) its conversion to a document must be those of the specification. Random longer histories with every constructor and with numbers, strings and keys of every kind are added.",
        "steps": [
            {"kind": "mc", "module": "JSONTreeModel", "cfg_quick": "JSONTreeModel.cfg", "cfg_thorough": "JSONTreeModelDeep.cfg", "record": "jsontree", "trace": "TraceJSONTree"},
            {"kind": "trace", "module": "TraceJSONTree", "area": "jsontree", "n_quick": 500, "n_thorough": 1500, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C26": {
        "coverage": "TLC enumerates every short history of a document and maps of it (made, copied, changed, validated, written and read, also with nil elements, other keys and cut bytes), checks that the map of a document is valid and that only the map an operation is on changes, and each history is run on the real code: after every step the document and all maps must be those of the specification. Random longer histories with damaged bytes are added.",
        "steps": [
            {"kind": "mc", "module": "DocMapModel", "cfg_quick": "DocMapModel.cfg", "cfg_thorough": "DocMapModelDeep.cfg", "record": "docmap", "trace": "TraceDocMap"},
            {"kind": "trace", "module": "TraceDocMap", "area": "docmap", "n_quick": 1000, "n_thorough": 2500, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
    "C27": {
        "coverage": "TLC checks the counting of collections (what is known of a counter at the last collection stays true, and deltas add up, for every interleaving of growth and collections) and that no two fields of a record share a name. The real records are filled with random values of their own in every field and the documents compared with those of the specification; histories of collections of the Go statistics (totals, deltas, rates, also from several goroutines at once) are recorded with the counters of the runtime before and after, and checked against the specification.",
        "steps": [
            {"kind": "mc", "module": "MetricsDocModel", "cfg_quick": "MetricsDocModel.cfg", "cfg_thorough": "MetricsDocModelDeep.cfg"},
            {"kind": "trace", "module": "TraceMetricsDoc", "area": "metricsdoc", "n_quick": 500, "n_thorough": 1500, "shards_quick": 1, "shards_thorough": 8},
        ],
    },
}
