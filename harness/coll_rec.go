package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

func init() {
	replayers["coll"] = func(r *Run) {
		g := newGen(r.Seed)
		walkGraph(r, func() SUT { return &collSUT{g: g} }, 200, 40)
	}
	recorders["coll"] = recColl
}

type collOp struct {
	N string `json:"n"`
	K string `json:"k"`
	M int    `json:"m"`
	D [][]ME `json:"d"`
}

type collItem struct {
	D [][]ME  `json:"d"`
	P [][]int `json:"p"`
}

var collKinds = []string{"base", "sync", "sampling", "once", "batch", "dynamic", "streaming", "sdynamic", "writer", "ujson", "ubson", "sjson", "sbson", "sdjson", "sdbson"}

func isJSONKind(k string) bool { return k == "ujson" || k == "sjson" || k == "sdjson" }
func isPlainKind(k string) bool {
	return isJSONKind(k) || k == "ubson" || k == "sbson" || k == "sdbson"
}
func isStreamKind(k string) bool {
	return k == "streaming" || k == "sdynamic" || k == "writer" || k == "sjson" || k == "sbson" || k == "sdjson" || k == "sdbson"
}
func isDynKind(k string) bool {
	return k == "dynamic" || k == "sdynamic" || k == "writer" || k == "sdjson" || k == "sdbson"
}

// sink is the writer behind a streaming collector.
type sink struct {
	buf    bytes.Buffer
	fail   bool
	closed bool
}

func (s *sink) Write(p []byte) (int, error) {
	if s.fail {
		return 0, errors.New("sink is broken")
	}
	if s.closed {
		return 0, errors.New("sink is closed")
	}
	n, err := s.buf.Write(p)
	for i := range p { // the data belongs to the sink now
		_ = i
	}
	return n, err
}
func (s *sink) Close() error { return nil }

type shortWriter struct{}

func (shortWriter) Write(p []byte) (int, error) { return len(p) - 1, nil }

type brokenWriter struct{}

func (brokenWriter) Write(p []byte) (int, error) { return 0, errors.New("broken") }

type collSUT struct {
	g    *Gen
	kind string
	c    ftdc.Collector
	w    io.WriteCloser
	s    *sink
	held [][2][]byte
}

func (s *collSUT) open(kind string, max int) {
	*s = collSUT{g: s.g, kind: kind, s: &sink{}}
	switch kind {
	case "base":
		s.c = ftdc.NewBaseCollector(max)
	case "sync":
		s.c = ftdc.NewSynchronizedCollector(ftdc.NewBaseCollector(max))
	case "sampling":
		s.c = ftdc.NewSamplingCollector(0, ftdc.NewBaseCollector(max))
	case "once":
		s.c = ftdc.NewSamplingCollector(24*time.Hour, ftdc.NewBaseCollector(max))
	case "batch":
		s.c = ftdc.NewBatchCollector(max)
	case "dynamic":
		s.c = ftdc.NewDynamicCollector(max)
	case "streaming":
		s.c = ftdc.NewStreamingCollector(max, s.s)
	case "sdynamic":
		s.c = ftdc.NewStreamingDynamicCollector(max, s.s)
	case "writer":
		s.w = ftdc.NewWriterCollector(max, s.s)
	case "ujson":
		s.c = ftdc.NewUncompressedCollectorJSON(max)
	case "ubson":
		s.c = ftdc.NewUncompressedCollectorBSON(max)
	case "sjson":
		s.c = ftdc.NewStreamingUncompressedCollectorJSON(max, s.s)
	case "sbson":
		s.c = ftdc.NewStreamingUncompressedCollectorBSON(max, s.s)
	case "sdjson":
		s.c = ftdc.NewStreamingDynamicUncompressedCollectorJSON(max, s.s)
	case "sdbson":
		s.c = ftdc.NewStreamingDynamicUncompressedCollectorBSON(max, s.s)
	default:
		panic("harness: kind " + kind)
	}
}

func (s *collSUT) hold(b []byte) []byte {
	s.held = append(s.held, [2][]byte{b, append([]byte{}, b...)})
	return b
}

func (s *collSUT) checkHeld() {
	for _, h := range s.held {
		if !bytes.Equal(h[0], h[1]) {
			panic("data that was returned earlier has changed")
		}
	}
	if len(s.held) > 8 {
		s.held = s.held[len(s.held)-8:]
	}
}

// itemsOf takes the output of a collector of the kind apart.
func itemsOf(kind string, b []byte) []collItem {
	out := []collItem{}
	switch {
	case isJSONKind(kind):
		for len(b) > 0 {
			i := bytes.IndexByte(b, '\n')
			if i < 0 {
				panic("JSON output does not end with a newline")
			}
			d := birch.DC.New()
			if err := d.UnmarshalJSON(b[:i]); err != nil {
				panic(fmt.Sprintf("JSON output: %s: %q", err, b[:i]))
			}
			out = append(out, collItem{D: [][]ME{nn(widenDoc(obsDoc(d)))}, P: [][]int{}})
			b = b[i+1:]
		}
	case isPlainKind(kind):
		for len(b) > 0 {
			n, err := birch.Reader(b).Validate()
			if err != nil {
				panic("BSON output: " + err.Error())
			}
			es, err := obsReader(birch.Reader(b[:n]))
			if err != nil {
				panic("BSON output: " + err.Error())
			}
			out = append(out, collItem{D: [][]ME{nn(es)}, P: [][]int{}})
			b = b[n:]
		}
	default:
		for len(b) > 0 {
			n, err := birch.Reader(b).Validate()
			if err != nil {
				panic("FTDC output: " + err.Error())
			}
			metas, chunks, err := splitRaw(b[:n])
			if err != nil {
				panic("FTDC output: " + err.Error())
			}
			for _, m := range metas {
				out = append(out, collItem{D: [][]ME{m}, P: [][]int{}})
			}
			for _, c := range chunks {
				if c.Size != len(c.Payload) {
					panic("size of the payload")
				}
				out = append(out, collItem{D: [][]ME{}, P: [][]int{c.Payload}})
			}
			b = b[n:]
		}
	}
	return out
}

func widenDoc(es []ME) []ME {
	out := make([]ME, len(es))
	for i, e := range es {
		v := e.V
		switch v.T {
		case 16:
			x := int64(int32(uint32(v.S[0]) | uint32(v.S[1])<<8 | uint32(v.S[2])<<16 | uint32(v.S[3])<<24))
			v = MV{T: 18, S: le64(uint64(x))}
		case 3, 4:
			v = MV{T: v.T, S: v.S, O: v.O, E: widenDoc(v.E)}
		}
		out[i] = ME{K: e.K, V: v}
	}
	return out
}

func (s *collSUT) Apply(raw json.RawMessage) any {
	var op collOp
	mustJSON(raw, &op)
	for i := range op.D {
		op.D[i] = nn(op.D[i])
	}
	return s.do(op)
}

func (s *collSUT) do(op collOp) any {
	if op.N == "new" {
		s.open(op.K, op.M)
		return map[string]any{"ok": true, "w": []collItem{}, "r": []collItem{}}
	}
	s.s.buf.Reset()
	var err error
	ret := []collItem{}
	switch op.N {
	case "add":
		if s.w != nil {
			b := refEncode(op.D[0])
			var n int
			if n, err = s.w.Write(b); err == nil && n != len(b) {
				panic("Write reports another length")
			}
			for i := range b {
				b[i] = 0xCC
			}
			break
		}
		in, scribble := s.g.sampleForm(op.D[0])
		err = s.c.Add(in)
		scribble()
	case "addbad":
		bad := append(refEncode([]ME{{K: []byte("a"), V: MV{T: 18, S: le64(1)}}})[:9], 0xFF, 0)
		if s.w != nil {
			_, err = s.w.Write(bad)
			break
		}
		switch s.g.pick(5) {
		case 0:
			err = s.c.Add(nil)
		case 1:
			err = s.c.Add((*birch.Document)(nil))
		case 2:
			err = s.c.Add(map[string]string{"a": "1"})
		case 3:
			err = s.c.Add(make(chan int))
		default:
			err = s.c.Add(bad)
		}
	case "meta":
		if len(op.D) == 0 {
			err = s.c.SetMetadata(nil)
		} else {
			in, scribble := s.g.addForm(op.D[0])
			err = s.c.SetMetadata(in)
			scribble()
		}
	case "metabad":
		switch s.g.pick(2) {
		case 0:
			err = s.c.SetMetadata([]byte{9, 0, 0, 0, 1})
		default:
			err = s.c.SetMetadata(map[string]string{"a": "b"})
		}
	case "resolve":
		var b []byte
		if b, err = s.c.Resolve(); err == nil {
			ret = itemsOf(s.kind, s.hold(b))
		}
	case "reset":
		s.c.Reset()
	case "flush":
		o := &bytes.Buffer{}
		if err = ftdc.FlushCollector(s.c, o); err == nil {
			ret = itemsOf(s.kind, o.Bytes())
		}
	case "flushbad":
		if s.g.pick(2) == 0 {
			o := &bytes.Buffer{}
			err = ftdc.FlushCollector(brokenCollector{s.c}, o)
			ret = itemsOf(s.kind, o.Bytes())
			break
		}
		err = ftdc.FlushCollector(s.c, brokenWriter{})
	case "flushshort":
		err = ftdc.FlushCollector(s.c, shortWriter{})
	case "flushnil":
		err = ftdc.FlushCollector(s.c, nil)
	case "close":
		err = s.w.Close()
	case "writer":
		s.s.fail = op.M == 1
	default:
		panic("harness: op " + op.N)
	}
	s.checkHeld()
	return map[string]any{"ok": err == nil, "w": itemsOf(s.kind, s.s.buf.Bytes()), "r": ret}
}

// brokenCollector is a collector that cannot be resolved.
type brokenCollector struct{ ftdc.Collector }

func (brokenCollector) Resolve() ([]byte, error) { return nil, errors.New("not now") }

func (s *collSUT) view(peek bool) any {
	if s.w != nil {
		return map[string]any{"n": -1, "mc": -1, "res": [][]collItem{}}
	}
	inf := s.c.Info()
	mc := inf.MetricsCount
	if s.kind == "batch" || s.kind == "dynamic" {
		mc = -1
	}
	res := [][]collItem{}
	if peek {
		if b, err := s.c.Resolve(); err == nil {
			res = append(res, itemsOf(s.kind, s.hold(b)))
		}
	}
	return map[string]any{"n": inf.SampleCount, "mc": mc, "res": res}
}

func (s *collSUT) Observe() any { return s.view(true) }

// sampleForm adds the map forms to addForm for the documents they can denote.
func (g *Gen) sampleForm(es []ME) (any, func()) {
	if g.pick(3) == 0 && len(es) > 0 {
		keys, ok := []string{}, true
		m64, many := map[string]int64{}, map[string]any{}
		for _, e := range es {
			keys = append(keys, string(e.K))
			if e.V.T != 18 {
				ok = false
				break
			}
			x := int64(leU64(e.V.S))
			m64[string(e.K)], many[string(e.K)] = x, x
		}
		if ok && len(m64) == len(es) && sort.StringsAreSorted(keys) {
			if g.pick(2) == 0 {
				return m64, func() { clear(m64) }
			}
			return many, func() { clear(many) }
		}
	}
	return g.addForm(es)
}

func leU64(b []byte) uint64 {
	var x uint64
	for i := 7; i >= 0; i-- {
		x = x<<8 | uint64(b[i])
	}
	return x
}

// ---- random histories ---------------------------------------------------

// typesOf: what base collectors compare.
func typesOf(es []ME) string {
	out := ""
	for _, e := range es {
		switch e.V.T {
		case 3, 4:
			out += typesOf(e.V.E)
		case 17:
			out += "tt"
		case 1, 8, 9, 16, 18:
			out += fmt.Sprintf("%d,", e.V.T)
		}
	}
	return out
}

var jsonTypes = []byte{1, 2, 8, 10, 16, 18, 18}

func (g *Gen) jsonDoc(n, depth int) []ME {
	out := []ME{}
	for i := 0; i < n; i++ {
		k := []byte(fmt.Sprintf("%c%d", 'a'+g.pick(4), i))
		v := g.valueOf(jsonTypes[g.pick(len(jsonTypes))], 0)
		if v.T == 1 {
			v.S = le64(math.Float64bits(float64(g.pick(4096)) / 16))
		}
		if v.T == 2 {
			v.S = []byte(fmt.Sprintf("s%d\"\\", g.pick(1000)))
		}
		if depth > 0 && g.pick(4) == 0 {
			v = MV{T: 3, E: g.jsonDoc(g.pick(3), depth-1)}
		}
		out = append(out, ME{K: k, V: v})
	}
	return out
}

// variant changes the schema of a document.
func (g *Gen) variant(kind string, es []ME) []ME {
	out := append([]ME{}, es...)
	pick := g.pick(6)
	if len(out) == 0 {
		pick = 0
	}
	i := 0
	if len(out) > 0 {
		i = g.pick(len(out))
	}
	extra := MV{T: 18, S: le64(uint64(g.pick(50)))}
	switch pick {
	case 0: // one more metric
		return append(out, ME{K: []byte("zz"), V: extra})
	case 1: // one fewer
		return append(out[:i:i], out[i+1:]...)
	case 2: // another type
		out[i] = ME{K: out[i].K, V: g.valueOf([]byte{1, 8, 16, 18}[g.pick(4)], 0)}
		if out[i].V.T == 1 {
			out[i].V.S = le64(math.Float64bits(float64(g.pick(100))))
		}
	case 3: // another key
		if isDynKind(kind) || isPlainKind(kind) {
			out[i] = ME{K: []byte("renamed"), V: out[i].V}
		} else {
			return append(out, ME{K: []byte("zz"), V: extra})
		}
	case 4: // a container more
		return append(out, ME{K: []byte("zd"), V: MV{T: 3, E: []ME{{K: []byte("q"), V: extra}}}})
	default: // swapped
		if isDynKind(kind) && len(out) > 1 {
			j := g.pick(len(out))
			out[i], out[j] = out[j], out[i]
		} else {
			return append(out, ME{K: []byte("zz"), V: extra})
		}
	}
	return out
}

func recColl(r *Run) {
	g := newGen(r.Seed)
	g.MaxStr = 8
	for i := 0; i < r.N; i++ {
		kind := collKinds[g.pick(len(collKinds))]
		max := 1 + g.pick(4)
		if g.pick(10) == 0 {
			max = 8 + g.pick(20)
		}
		// documents of a few related schemas; base collectors compare types only
		var shapes [][]ME
		first := g.metricDoc(1, 1+g.pick(3))
		if isJSONKind(kind) {
			first = g.jsonDoc(1+g.pick(3), 1)
		}
		shapes = append(shapes, first)
		for len(shapes) < 1+g.pick(3) {
			v := g.variant(kind, shapes[g.pick(len(shapes))])
			ok := true
			for _, s := range shapes {
				if !isDynKind(kind) && !isPlainKind(kind) && typesOf(s) == typesOf(v) {
					ok = false
				}
			}
			if ok {
				shapes = append(shapes, v)
			} else if g.pick(5) == 0 {
				break
			}
		}
		cur := append([][]ME{}, shapes...)
		which := 0
		s := &collSUT{g: g}
		evs := []any{}
		pending := 0
		// step performs one operation and records it
		step := func(op collOp) {
			ev := map[string]any{"op": op}
			r.Begin(map[string]any{"kind": kind, "max": max, "events": len(evs), "op": op})
			peek := g.pick(3) == 0
			var res, view any
			msg := try(func() { res = s.do(op) })
			if msg == "" {
				msg = try(func() { view = s.view(peek) })
			}
			if msg != "" {
				res = map[string]any{"ok": "panic: " + msg, "w": []collItem{}, "r": []collItem{}}
				view = map[string]any{"n": -2, "mc": -2, "res": [][]collItem{}}
			}
			ev["r"], ev["v"], ev["peek"] = res, view, peek
			evs = append(evs, ev)
			r.Done()
		}
		step(collOp{N: "new", K: kind, M: max, D: [][]ME{}})
		n := 4 + g.pick(24)
		for j := 0; j < n; j++ {
			op := collOp{D: [][]ME{}}
			switch x := g.pick(20); {
			case x < 12:
				if g.pick(5) == 0 {
					which = g.pick(len(cur))
				}
				if g.pick(5) != 0 {
					cur[which] = g.nextSample(cur[which])
					if isJSONKind(kind) {
						cur[which] = jsonSafe(g, cur[which])
					}
				}
				op.N, op.D = "add", [][]ME{cur[which]}
				pending++
			case x == 12:
				if kind == "once" || (isStreamKind(kind) && !isDynKind(kind)) {
					continue // flushes first or not; does not count as collected or does
				}
				op.N = "addbad"
			case x == 13 && s.w == nil:
				op.N = "meta"
				if g.pick(3) != 0 {
					m := g.metricDoc(1, g.pick(3))
					if isJSONKind(kind) {
						m = g.jsonDoc(g.pick(3), 1)
					}
					op.D = [][]ME{m}
				}
			case x == 14 && s.w == nil:
				op.N = []string{"metabad", "flushbad", "flushshort", "flushnil"}[g.pick(4)]
			case x == 15 && s.w == nil:
				op.N = "resolve"
			case x == 16 && s.w == nil:
				op.N = []string{"reset", "flush"}[g.pick(2)]
			case x == 17 && s.w != nil:
				op.N = "close"
			case x >= 18 && isStreamKind(kind):
				op.N = "writer"
				if !s.s.fail && g.pick(3) == 0 {
					op.M = 1
				}
			default:
				continue
			}
			step(op)
		}
		if isStreamKind(kind) { // nothing may be left behind
			step(collOp{N: "writer", D: [][]ME{}})
			if s.w != nil {
				step(collOp{N: "close", D: [][]ME{}})
			}
		}
		if s.w == nil {
			step(collOp{N: "flush", D: [][]ME{}})
		}
		r.Emit(evs)
	}
}

// jsonSafe keeps the doubles and strings of a document to what JSON text shows exactly.
func jsonSafe(g *Gen, es []ME) []ME {
	out := make([]ME, len(es))
	for i, e := range es {
		v := e.V
		switch v.T {
		case 1:
			v.S = le64(math.Float64bits(float64(g.pick(4096)) / 16))
		case 2:
			v.S = []byte(fmt.Sprintf("s%d\"", g.pick(1000)))
		case 3, 4:
			v = MV{T: v.T, E: jsonSafe(g, v.E)}
		}
		out[i] = ME{K: e.K, V: v}
	}
	return out
}
