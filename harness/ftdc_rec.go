package main

import (
	"bytes"
	"compress/zlib"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/util"
)

func init() {
	recorders["ftdc"] = recFTDC
	recorders["probe-C10"] = probeC10
	util.RegisterGlobalMarshaler(func(in any) ([]byte, error) {
		m, ok := in.(map[string]any)
		if !ok {
			return nil, fmt.Errorf("cannot marshal %T", in)
		}
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		d := birch.DC.New()
		for _, k := range keys {
			a := birch.NewArray()
			switch vs := m[k].(type) {
			case []int64:
				for _, v := range vs {
					a.Append(birch.VC.Int64(v))
				}
			case []int32:
				for _, v := range vs {
					a.Append(birch.VC.Int32(v))
				}
			case []bool:
				for _, v := range vs {
					a.Append(birch.VC.Boolean(v))
				}
			case []float64:
				for _, v := range vs {
					a.Append(birch.VC.Double(v))
				}
			case []time.Time:
				for _, v := range vs {
					a.Append(birch.VC.DateTime(v.UnixMilli()))
				}
			default:
				return nil, fmt.Errorf("cannot marshal %T", m[k])
			}
			d.Append(birch.EC.Array(k, a))
		}
		return d.MarshalBSON()
	})
}

// nn keeps empty lists from becoming null
func nn[T any](in []T) []T {
	if in == nil {
		return []T{}
	}
	return in
}

var metricTypes = []byte{1, 8, 9, 16, 17, 18, 18, 18}
var otherTypes = []byte{2, 2, 5, 6, 7, 10, 11, 12, 13, 14, 19, 0xff, 0x7f}

// metricDoc generates the shape of a metrics document.
func (g *Gen) metricDoc(depth, n int) []ME {
	out := make([]ME, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, ME{K: g.metricKey(i), V: g.metricShape(depth)})
	}
	return out
}

// deepMetrics nests documents and arrays to the given depth; every level has
// more than one nested container and values around them.
func (g *Gen) deepMetrics(depth int) []ME {
	out := []ME{}
	n := 2 + g.pick(2)
	deepest := g.pick(n)
	for i := 0; i < n; i++ {
		if g.pick(2) == 0 {
			out = append(out, ME{K: g.metricKey(10 + i), V: g.valueOf(metricTypes[g.pick(len(metricTypes))], 0)})
		}
		d := g.pick(2)
		if i == deepest {
			d = depth - 1
		}
		if depth <= 0 || d < 0 {
			out = append(out, ME{K: g.metricKey(i), V: g.valueOf(metricTypes[g.pick(len(metricTypes))], 0)})
			continue
		}
		sub := g.deepMetrics(d)
		if g.pick(3) == 0 {
			vs := make([]MV, len(sub))
			for j := range sub {
				vs[j] = sub[j].V
			}
			out = append(out, ME{K: g.metricKey(i), V: mArray(vs)})
		} else {
			out = append(out, ME{K: g.metricKey(i), V: MV{T: 3, E: sub}})
		}
	}
	return out
}

func (g *Gen) metricKey(i int) []byte {
	switch g.pick(6) {
	case 0:
		return noNul(g.key())
	default:
		return []byte(fmt.Sprintf("%c%d", 'a'+g.pick(4), i))
	}
}

func (g *Gen) metricShape(depth int) MV {
	switch k := g.pick(10); {
	case k < 2 && depth > 0:
		return MV{T: 3, E: g.metricDoc(depth-1, g.pick(4))}
	case k == 2 && depth > 0:
		n := g.pick(4)
		if g.pick(15) == 0 {
			n = 11 + g.pick(3)
		}
		vs := make([]MV, n)
		for i := range vs {
			vs[i] = g.metricShape(depth - 1)
		}
		return mArray(vs)
	case k == 3:
		return g.valueOf(otherTypes[g.pick(len(otherTypes))], 0)
	case k == 4 && g.pick(3) == 0:
		return g.valueOf(15, 1)
	default:
		return g.valueOf(metricTypes[g.pick(len(metricTypes))], 0)
	}
}

// nextSample changes the values of a document, not its shape.
func (g *Gen) nextSample(es []ME) []ME {
	out := make([]ME, len(es))
	for i, e := range es {
		out[i] = ME{K: e.K, V: g.nextValue(e.V)}
	}
	return out
}

func (g *Gen) nextValue(v MV) MV {
	switch v.T {
	case 3, 4:
		return MV{T: v.T, E: g.nextSample(v.E)}
	case 18, 9:
		x := int64(binary.LittleEndian.Uint64(v.S))
		switch g.pick(5) {
		case 0, 1:
			return v
		case 2:
			return MV{T: v.T, S: le64(uint64(x + int64(g.pick(5)-2)))}
		case 3:
			return MV{T: v.T, S: le64(uint64(x + g.i64()))}
		}
	case 17:
		if g.pick(2) == 0 {
			return MV{T: 17, S: append(le32(binary.LittleEndian.Uint32(v.S)+uint32(g.pick(3))), v.S[4:]...)}
		}
	default:
		if g.pick(3) == 0 {
			return v
		}
	}
	return g.valueOf(v.T, 1)
}

// addForms: how a sample reaches the collector.
func (g *Gen) addForm(es []ME) (in any, scribble func()) {
	switch g.pick(4) {
	case 0:
		b := refEncode(es)
		return b, func() {
			for i := range b {
				b[i] = 0xAA
			}
		}
	case 1:
		b := refEncode(es)
		return bsonMarshaler{b}, func() {
			for i := range b {
				b[i] = 0x55
			}
		}
	case 2:
		d := buildDoc(g, es)
		return docMarshaler{d}, func() { scribbleDoc(d) }
	default:
		d := buildDoc(g, es)
		return d, func() { scribbleDoc(d) }
	}
}

func scribbleDoc(d *birch.Document) {
	try(func() {
		var keys []string
		for e := range d.Iterator() {
			keys = append(keys, e.Key())
			if sub, ok := e.Value().MutableDocumentOK(); ok {
				sub.Append(birch.EC.Int64("scribble", 12345))
			}
			if arr, ok := e.Value().MutableArrayOK(); ok {
				arr.Append(birch.VC.Int64(54321))
			}
			if e.Value().Type() != 3 && e.Value().Type() != 4 {
				e.SetValue(birch.VC.Int64(-777))
			}
		}
		d.Append(birch.EC.Int32("scribble", 1))
	})
}

type rawChunk struct {
	Size    int   `json:"size"`
	Payload []int `json:"payload"`
}

// splitRaw takes an FTDC stream apart without the code under test's reader.
func splitRaw(b []byte) (metas [][]ME, chunks []rawChunk, err error) {
	for len(b) > 0 {
		if len(b) < 5 {
			return metas, chunks, fmt.Errorf("%d stray bytes", len(b))
		}
		n := int(binary.LittleEndian.Uint32(b))
		if n < 5 || n > len(b) {
			return metas, chunks, fmt.Errorf("document of %d bytes with %d left", n, len(b))
		}
		es, err := obsReader(birch.Reader(b[:n]))
		if err != nil {
			return metas, chunks, err
		}
		b = b[n:]
		if len(es) != 3 || string(es[0].K) != "_id" || es[0].V.T != 9 || string(es[1].K) != "type" || es[1].V.T != 16 {
			return metas, chunks, fmt.Errorf("unexpected envelope")
		}
		switch typ := binary.LittleEndian.Uint32(es[1].V.S); {
		case typ == 0 && string(es[2].K) == "doc" && es[2].V.T == 3:
			metas = append(metas, nn(es[2].V.E))
		case typ == 1 && string(es[2].K) == "data" && es[2].V.T == 5 && len(es[2].V.S) > 4:
			z, err := zlib.NewReader(bytes.NewReader(es[2].V.S[4:]))
			if err != nil {
				return metas, chunks, err
			}
			p, err := io.ReadAll(z)
			if err != nil {
				return metas, chunks, err
			}
			chunks = append(chunks, rawChunk{int(binary.LittleEndian.Uint32(es[2].V.S)), ints(p)})
		default:
			return metas, chunks, fmt.Errorf("unexpected envelope of type %d", typ)
		}
	}
	return metas, chunks, nil
}

type metricObs struct {
	K []int   `json:"k"`
	V [][]int `json:"v"`
}

// dump collects a view and reports the error of the iterator.
func dumpDocs(it *ftdc.Iterator[*birch.Document]) ([][]ME, error) {
	out := [][]ME{}
	for d := range it.Iterator() {
		out = append(out, nn(obsDoc(d)))
	}
	return out, it.Close()
}

func obsChunk(c *ftdc.Chunk) []metricObs {
	ms := []metricObs{}
	for i := range c.Metrics {
		m := &c.Metrics[i]
		mo := metricObs{K: ints([]byte(m.Key())), V: [][]int{}}
		for _, v := range m.Values {
			mo.V = append(mo.V, ints(le64(uint64(v))))
		}
		ms = append(ms, mo)
	}
	return ms
}

type nopWriteCloser struct{ bytes.Buffer }

func (*nopWriteCloser) Close() error { return nil }

// collectAll runs the samples through a collector of the kind and returns the stream.
func collectAll(g *Gen, kind string, max int, meta []ME, samples [][]ME) (stream []byte, err error) {
	buf := &bytes.Buffer{}
	wc := &nopWriteCloser{}
	var coll ftdc.Collector
	var w io.WriteCloser
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	switch kind {
	case "base":
		coll = ftdc.NewBaseCollector(max)
	case "batch":
		coll = ftdc.NewBatchCollector(max)
	case "dynamic":
		coll = ftdc.NewDynamicCollector(max)
	case "streaming":
		coll = ftdc.NewStreamingCollector(max, buf)
	case "sdynamic":
		coll = ftdc.NewStreamingDynamicCollector(max, buf)
	case "sync":
		coll = ftdc.NewSynchronizedCollector(ftdc.NewBaseCollector(max))
	case "sampling":
		coll = ftdc.NewSamplingCollector(0, ftdc.NewBaseCollector(max))
	case "buffered":
		coll = ftdc.NewBufferedCollector(ctx, g.pick(3), ftdc.NewSynchronizedCollector(ftdc.NewBaseCollector(max)))
	case "writer":
		w = ftdc.NewWriterCollector(max, wc)
	}
	if w != nil {
		scratch := make([]byte, 1<<16)
		for _, s := range samples {
			n := copy(scratch, refEncode(s))
			k, err := w.Write(scratch[:n])
			if err != nil {
				return nil, err
			}
			if k != n {
				return nil, fmt.Errorf("wrote %d of %d", k, n)
			}
		}
		if err := w.Close(); err != nil {
			return nil, err
		}
		return wc.Bytes(), nil
	}
	if meta != nil {
		in, scribble := g.addForm(meta)
		if err := coll.SetMetadata(in); err != nil {
			return nil, err
		}
		scribble()
	}
	for _, s := range samples {
		in, scribble := g.sampleForm(s)
		if err := coll.Add(in); err != nil {
			return nil, err
		}
		if kind != "buffered" {
			scribble()
		}
	}
	if kind == "streaming" || kind == "sdynamic" {
		if err := ftdc.FlushCollector(coll, buf); err != nil {
			return nil, err
		}
		return buf.Bytes(), nil
	}
	return coll.Resolve()
}

func (r *Run) ftdcCase(g *Gen, kind string, max, cap int, meta []ME, samples [][]ME) {
	var metaJ any = [][]ME{}
	if meta != nil {
		metaJ = [][]ME{meta}
	}
	o := map[string]any{"kind": kind, "max": max, "cap": cap, "meta": metaJ, "samples": samples, "err": "",
		"raw": []rawChunk{}, "rawmeta": metaJ, "rmeta": metaJ, "mets": [][]metricObs{}, "sizes": []int{}, "matrix": [][]ME{}, "series": [][]ME{}, "flat": [][]ME{}, "struct": [][]ME{}, "cflat": [][][]ME{}, "cstruct": [][][]ME{}}
	r.Begin(map[string]any{"kind": kind, "max": max, "samples": samples, "meta": metaJ})
	var err error
	p := try(func() {
		var stream []byte
		if stream, err = collectAll(g, kind, max, meta, samples); err != nil {
			return
		}
		hold := append([]byte{}, stream...)
		metas, chunks, e := splitRaw(stream)
		if e != nil {
			err = e
			return
		}
		o["raw"] = nn(chunks)
		if kind != "batch" && kind != "dynamic" && len(metas) > 1 { // repeated before every chunk
			for i := range metas {
				if !bytes.Equal(refEncode(metas[i]), refEncode(metas[0])) {
					err = fmt.Errorf("metadata differs between chunks")
				}
			}
			metas = metas[:1]
		}
		o["rawmeta"] = nn(metas)
		fail := func(e error) {
			if e != nil && err == nil {
				err = e
			}
		}
		rd := func() io.Reader {
			switch g.pick(3) {
			case 0:
				return &dribble{b: append([]byte{}, stream...)}
			default:
				return bytes.NewReader(stream)
			}
		}
		imeta := [][][]ME{} // the metadata of every iterator when it is done
		seen := func(md *birch.Document) {
			if md == nil {
				imeta = append(imeta, [][]ME{})
			} else {
				imeta = append(imeta, [][]ME{metaOf(md)})
			}
		}
		dump := func(it *ftdc.Iterator[*birch.Document]) [][]ME {
			v, e := dumpDocs(it)
			fail(e)
			seen(it.Metadata())
			return v
		}
		o["flat"] = dump(ftdc.ReadMetrics(rd()))
		o["struct"] = dump(ftdc.ReadStructuredMetrics(rd()))
		o["matrix"] = dump(ftdc.ReadMatrix(rd()))
		v, e := dumpDocs(ftdc.ReadSeries(rd()))
		fail(e)
		o["series"] = v
		mets, sizes, cflat, cstruct := [][]metricObs{}, []int{}, [][][]ME{}, [][][]ME{}
		it := ftdc.ReadChunks(rd())
		var rmeta [][]ME
		for c := range it.Iterator() {
			mets = append(mets, obsChunk(c))
			if c.Len() != len(c.Metrics) {
				fail(fmt.Errorf("Chunk.Len %d with %d metrics", c.Len(), len(c.Metrics)))
			}
			sizes = append(sizes, c.Size())
			if md := c.Metadata(); md != nil {
				rmeta = [][]ME{metaOf(md)}
			}
			cflat = append(cflat, dump(c.Iterator()))
			cstruct = append(cstruct, dump(c.StructuredIterator()))
		}
		fail(it.Close())
		seen(it.Metadata())
		o["imeta"] = imeta
		o["mets"], o["sizes"], o["cflat"], o["cstruct"], o["rmeta"] = mets, sizes, cflat, cstruct, nn(rmeta)
		if !bytes.Equal(hold, stream) {
			fail(fmt.Errorf("the returned data changed later"))
		}
	})
	if p != "" {
		o["err"] = "panic: " + p
	} else if err != nil {
		o["err"] = "error: " + err.Error()
	}
	r.Emit(o)
	r.Done()
}

// metaOf: the metadata a reader reports is the envelope document
func metaOf(md *birch.Document) []ME {
	es := obsDoc(md)
	for _, e := range es {
		if string(e.K) == "doc" && e.V.T == 3 {
			return nn(e.V.E)
		}
	}
	return nn(es)
}

func recFTDC(r *Run) {
	g := newGen(r.Seed)
	g.MaxStr = 12
	if r.In != "" {
		r.each(func(line []byte) {
			var c struct {
				Kind    string
				Max     int
				Cap     int
				Meta    [][]ME
				Samples [][]ME
			}
			if err := json.Unmarshal(line, &c); err != nil {
				panic("harness: " + err.Error())
			}
			var meta []ME
			if len(c.Meta) > 0 {
				meta = nn(c.Meta[0])
			}
			for i := range c.Samples {
				c.Samples[i] = nn(c.Samples[i])
			}
			r.ftdcCase(g, c.Kind, c.Max, c.Cap, meta, c.Samples)
			r.count--
		})
		return
	}
	kinds := []string{"base", "base", "batch", "dynamic", "streaming", "sdynamic", "sync", "sampling", "buffered", "writer"}
	for i := 0; i < r.N; i++ {
		n := 1 + g.pick(6)
		if g.pick(20) == 0 {
			n = 1 + g.pick(30)
		}
		shape := g.metricDoc(2, g.pick(5))
		if g.pick(8) == 0 { // deep paths with siblings at every level
			shape = g.deepMetrics(3 + g.pick(3))
			n = 1 + g.pick(3)
		}
		if g.pick(40) == 0 { // long runs of zeros
			n = 140 + g.pick(10)
			shape = g.metricDoc(0, 1+g.pick(2))
		}
		samples := [][]ME{shape}
		still := g.pick(6) == 0
		for j := 1; j < n; j++ {
			if still {
				samples = append(samples, samples[j-1])
			} else {
				samples = append(samples, g.nextSample(samples[j-1]))
			}
		}
		kind := kinds[g.pick(len(kinds))]
		max, cap := n-1+g.pick(4), n
		switch kind {
		case "batch", "dynamic", "streaming", "sdynamic", "writer":
			max = 1 + g.pick(n+1)
			cap = max
		}
		var meta []ME
		if kind != "writer" && g.pick(2) == 0 {
			meta = nn(g.elems(1, g.pick(4)))
		}
		r.ftdcCase(g, kind, max, cap, meta, samples)
	}
}

// probeC10 shows whether finding ftdc-timestamp still fails: the seconds of a
// timestamp come back a thousand times as large.
func probeC10(r *Run) {
	fails, got := false, ""
	p := try(func() {
		coll := ftdc.NewBaseCollector(4)
		must(coll.Add(birch.DC.Elements(birch.EC.Timestamp("ts", 7, 9))))
		out, err := coll.Resolve()
		must(err)
		docs, err := dumpDocs(ftdc.ReadStructuredMetrics(bytes.NewReader(out)))
		must(err)
		want := le32(9)
		want = append(want, le32(7)...)
		got = fmt.Sprint(docs)
		fails = len(docs) != 1 || len(docs[0]) != 1 || !bytes.Equal(docs[0][0].V.S, want)
	})
	r.Emit(map[string]any{"id": "ftdc-timestamp", "fails": fails || p != "", "what": "Timestamp(7, 9) read back as " + got + p})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
