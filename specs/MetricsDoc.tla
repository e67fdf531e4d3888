----------------------------- MODULE MetricsDoc -----------------------------
(* The documents of the runtime, system and process metrics: every number    *)
(* of the record stands under its name; and the statistics of the Go runtime *)
(* that are counted from one collection to the next.                         *)
EXTENDS BSON, Num

(***** documents ************************************************************)
\* a field is << name in the document, name in the record, kind >>; the
\* record gives the bytes of every field (8 for a number)
L(f) == << f[1], f[2], "long" >>
GoFields == <<
  <<"memory.objects.heap", "HeapObjects", "long">>, <<"memory.summary.alloc", "Alloc", "long">>,
  <<"memory.summary.system", "HeapSystem", "long">>, <<"memory.heap.idle", "HeapIdle", "long">>,
  <<"memory.heap.used", "HeapInUse", "long">>, <<"memory.counters.mallocs", "Mallocs", "long">>,
  <<"memory.counters.frees", "Frees", "long">>, <<"gc.rate", "GC", "long">>,
  <<"gc.pause.duration.last", "GCPause", "long">>, <<"gc.pause.duration.latency", "GCLatency", "long">>,
  <<"goroutines.total", "Goroutines", "long">>, <<"cgo.calls", "CgoCalls", "long">> >>
CPUFields == << L(<<"user", "User">>), L(<<"system", "System">>), L(<<"idle", "Idle">>), L(<<"nice", "Nice">>), L(<<"iowait", "Iowait">>),
  L(<<"irq", "Irq">>), L(<<"softirq", "Softirq">>), L(<<"steal", "Steal">>), L(<<"guest", "Guest">>), L(<<"guestNice", "GuestNice">>) >>
NetFields == << <<"name", "Name", "string">>, L(<<"bytesSent", "BytesSent">>), L(<<"bytesRecv", "BytesRecv">>), L(<<"packetsSent", "PacketsSent">>),
  L(<<"packetsRecv", "PacketsRecv">>), L(<<"errin", "Errin">>), L(<<"errout", "Errout">>), L(<<"dropin", "Dropin">>), L(<<"dropout", "Dropout">>),
  L(<<"fifoin", "Fifoin">>), L(<<"fifoout", "Fifoout">>) >>
VMFields == << L(<<"total", "Total">>), L(<<"available", "Available">>), L(<<"used", "Used">>), L(<<"usedPercent", "UsedPercent">>), L(<<"free", "Free">>),
  L(<<"active", "Active">>), L(<<"inactive", "Inactive">>), L(<<"wired", "Wired">>), L(<<"laundry", "Laundry">>), L(<<"buffers", "Buffers">>),
  L(<<"cached", "Cached">>), L(<<"writeback", "Writeback">>), L(<<"dirty", "Dirty">>), L(<<"writebacktmp", "WritebackTmp">>), L(<<"shared", "Shared">>),
  L(<<"slab", "Slab">>), L(<<"sreclaimable", "SReclaimable">>), L(<<"sunreclaim", "SUnreclaim">>), L(<<"pagetables", "PageTables">>),
  L(<<"swapcached", "SwapCached">>), L(<<"commitlimit", "CommitLimit">>), L(<<"commitedas", "CommittedAS">>), L(<<"hightotal", "HighTotal">>),
  L(<<"highfree", "HighFree">>), L(<<"lowtotal", "LowTotal">>), L(<<"lowfree", "LowFree">>), L(<<"swaptotal", "SwapTotal">>), L(<<"swapfree", "SwapFree">>),
  L(<<"mapped", "Mapped">>), L(<<"vmalloctotal", "VMallocTotal">>), L(<<"vmallocused", "VMallocUsed">>), L(<<"vmallocchunk", "VMallocChunk">>),
  L(<<"hugepagestotal", "HugePagesTotal">>), L(<<"hugepagesfree", "HugePagesFree">>), L(<<"hugepagessize", "HugePageSize">>) >>
UsageFields == << <<"path", "Path", "string">>, <<"fstype", "Fstype", "string">>, L(<<"total", "Total">>), L(<<"free", "Free">>), L(<<"used", "Used">>),
  <<"usedPercent", "UsedPercent", "double">>, L(<<"inodesTotal", "InodesTotal">>), L(<<"inodesFree", "InodesFree">>), <<"inodesUsedPercent", "InodesUsedPercent", "double">> >>
IOFields == << <<"name", "Name", "string">>, <<"serialNumber", "SerialNumber", "string">>, <<"label", "Label", "string">>,
  L(<<"readCount", "ReadCount">>), L(<<"mergedReadCount", "MergedReadCount">>), L(<<"writeCount", "WriteCount">>), L(<<"mergedWriteCount", "MergedWriteCount">>),
  L(<<"readBytes", "ReadBytes">>), L(<<"writeBytes", "WriteBytes">>), L(<<"readTime", "ReadTime">>), L(<<"writeTime", "WriteTime">>),
  L(<<"iopsInProgress", "IopsInProgress">>), L(<<"ioTime", "IoTime">>), L(<<"weightedIO", "WeightedIO">>) >>
PartFields == << <<"device", "Device", "string">>, <<"mountpoint", "Mountpoint", "string">>, <<"fstype", "Fstype", "string">>, <<"opts", "Opts", "string">> >>
ProcIOFields == << L(<<"readCount", "ReadCount">>), L(<<"writeCount", "WriteCount">>), L(<<"readBytes", "ReadBytes">>), L(<<"writeBytes", "WriteBytes">>) >>
MemFields == << L(<<"rss", "RSS">>), L(<<"vms", "VMS">>), L(<<"hwm", "HWM">>), L(<<"data", "Data">>), L(<<"stack", "Stack">>), L(<<"locked", "Locked">>), L(<<"swap", "Swap">>) >>
MemExFields == << L(<<"rss", "RSS">>), L(<<"vms", "VMS">>), L(<<"shared", "Shared">>), L(<<"text", "Text">>), L(<<"lib", "Lib">>), L(<<"data", "Data">>), L(<<"dirty", "Dirty">>) >>
Tables == << GoFields, CPUFields, NetFields, VMFields, UsageFields, IOFields, PartFields, ProcIOFields, MemFields, MemExFields >>

\* an int is written with 32 bits if it fits (or with 64: see Trace)
Narrow(b) == SubSeq(b, 5, 8) = IF b[4] >= 128 THEN <<255, 255, 255, 255>> ELSE <<0, 0, 0, 0>>
IntV(b) == IF Narrow(b) THEN Scalar(16, SubSeq(b, 1, 4)) ELSE Scalar(18, b)
FieldV(kind, b) == CASE kind = "long" -> Scalar(18, b) [] kind = "double" -> Scalar(1, b) [] kind = "string" -> Scalar(2, b)
Fields(table, f) == [i \in 1..Len(table) |-> Elem(A(table[i][1]), FieldV(table[i][3], f[table[i][2]]))]
Sub(k, es) == Elem(A(k), MkV(3, <<>>, <<>>, es))
ArrOf(k, ds) == Elem(A(k), MkV(4, <<>>, <<>>, IndexKeys([i \in 1..Len(ds) |-> Elem(<<>>, MkV(3, <<>>, <<>>, ds[i]))])))
Rows(table, fs) == [i \in 1..Len(fs) |-> Fields(table, fs[i])]

GoDoc(f) == Fields(GoFields, f)
SystemDoc(s) == << Elem(A("num_cpu"), IntV(s.f["NumCPU"])), Elem(A("cpu_percent"), Scalar(1, s.f["CPUPercent"])),
  Sub("cpu", Fields(CPUFields, s.cpu)), Sub("vmstat", Fields(VMFields, s.vm)), Sub("netstat", Fields(NetFields, s.net[1])),
  ArrOf("usage", Rows(UsageFields, s.usage)), ArrOf("iostat", Rows(IOFields, s.io)), ArrOf("partitions", Rows(PartFields, s.parts)) >>
ProcessDoc(s) == << Elem(A("pid"), Scalar(16, SubSeq(s.f["Pid"], 1, 4))), Elem(A("parentPid"), Scalar(16, SubSeq(s.f["Parent"], 1, 4))),
  Elem(A("threads"), IntV(s.f["Threads"])), Elem(A("command"), Scalar(2, s.f["Command"])),
  Sub("cpu", Fields(CPUFields, s.cpu)), Sub("io", Fields(ProcIOFields, s.io[1])), Sub("mem", Fields(MemFields, s.mem)),
  Sub("memExtra", Fields(MemExFields, s.ext)), ArrOf("net", Rows(NetFields, s.net)) >>
\* the parts that were collected
RuntimeDoc(r) == << Elem(A("id"), IntV(r.f["ID"])), Elem(A("ts"), Scalar(9, r.f["Timestamp"])), Elem(A("pid"), IntV(r.f["PID"])) >>
  \o (IF r.golang = <<>> THEN <<>> ELSE << Sub("golang", GoDoc(r.golang[1])) >>)
  \o (IF r.system = <<>> THEN <<>> ELSE << Sub("system", SystemDoc(r.system[1])) >>)
  \o (IF r.process = <<>> THEN <<>> ELSE << Sub("process", ProcessDoc(r.process[1])) >>)
DocOf(x) == CASE x.n = "golang" -> GoDoc(x.s) [] x.n = "system" -> SystemDoc(x.s) [] x.n = "process" -> ProcessDoc(x.s) [] x.n = "runtime" -> RuntimeDoc(x.s)

(***** counting from one collection to the next ******************************)
\* What is known of a counter as of the last collection: it lies in lo..hi.
\* A collection sees it somewhere in b..a.
MaxOf(x, y) == IF x > y THEN x ELSE y
MinOf(x, y) == IF x < y THEN x ELSE y
\* a total says what it is, a delta how much more it is
AfterTotal(p, b, a, v) == [lo |-> MaxOf(v, b), hi |-> MinOf(v, a)]
AfterDelta(p, b, a, v) == [lo |-> MaxOf(p.lo + v, b), hi |-> MinOf(p.hi + v, a)]
AfterOther(p, b, a, v) == [lo |-> MaxOf(p.lo, b), hi |-> a]
Sane(p) == p.lo <= p.hi
=============================================================================
