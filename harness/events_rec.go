package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"math"
	"reflect"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/events"
)

func init() { recorders["events"] = recEvents }

// Ev is the model's performance event.
type Ev struct {
	Ts      []int `json:"ts"`
	ID      []int `json:"id"`
	N       []int `json:"n"`
	Ops     []int `json:"ops"`
	Size    []int `json:"size"`
	Errs    []int `json:"errs"`
	Dur     []int `json:"dur"`
	Total   []int `json:"total"`
	State   []int `json:"state"`
	Workers []int `json:"workers"`
	Failed  bool  `json:"failed"`
}

func i64of(b []int) int64 { return int64(binary.LittleEndian.Uint64(unints(b))) }
func of64(v int64) []int  { return ints(le64(uint64(v))) }

func (e Ev) perf(sub time.Duration) events.Performance {
	p := events.Performance{Timestamp: time.UnixMilli(i64of(e.Ts)).Add(sub), ID: i64of(e.ID)}
	p.Counters = events.PerformanceCounters{Number: i64of(e.N), Operations: i64of(e.Ops), Size: i64of(e.Size), Errors: i64of(e.Errs)}
	p.Timers = events.PerformanceTimers{Duration: time.Duration(i64of(e.Dur)), Total: time.Duration(i64of(e.Total))}
	p.Gauges = events.PerformanceGauges{State: i64of(e.State), Workers: i64of(e.Workers), Failed: e.Failed}
	return p
}

func evOf(p *events.Performance) Ev {
	return Ev{
		Ts: of64(p.Timestamp.UnixMilli()), ID: of64(p.ID),
		N: of64(p.Counters.Number), Ops: of64(p.Counters.Operations), Size: of64(p.Counters.Size), Errs: of64(p.Counters.Errors),
		Dur: of64(int64(p.Timers.Duration)), Total: of64(int64(p.Timers.Total)),
		State: of64(p.Gauges.State), Workers: of64(p.Gauges.Workers), Failed: p.Gauges.Failed,
	}
}

func (g *Gen) num() []int {
	switch g.pick(4) {
	case 0:
		return of64(0)
	case 1:
		return of64(int64(g.pick(5)))
	}
	return of64(g.i64())
}

func (g *Gen) event() Ev {
	e := Ev{Ts: of64(int64(g.pick(2000)) * 1e9), ID: of64(0), N: g.num(), Ops: g.num(), Size: g.num(), Errs: g.num(), Dur: g.num(), Total: g.num(), State: g.num(), Workers: g.num(), Failed: g.pick(2) == 0}
	switch g.pick(6) {
	case 0:
		e.Ts = of64(-int64(g.pick(1000000)))
	case 1:
		e.Ts = of64(time.Time{}.UnixMilli())
	}
	if g.pick(3) == 0 {
		e.ID = g.num()
	}
	return e
}

// innerColl is the collector below: it keeps the documents it is given.
type innerColl struct {
	mu      sync.Mutex
	real    ftdc.Collector
	docs    [][]ME
	fail    bool
	resets  int
	meta    int
	inside  atomic.Int32
	asked   atomic.Int32 // callers of Info, which may share the collector
	overlap atomic.Bool
	slow    bool
}

func (c *innerColl) enter() func() {
	if c.inside.Add(1) > 1 || c.asked.Load() > 0 {
		c.overlap.Store(true)
	}
	c.stay()
	return func() { c.inside.Add(-1) }
}

func (c *innerColl) stay() {
	runtime.Gosched()
	if c.slow {
		time.Sleep(50 * time.Microsecond)
	}
}

func (c *innerColl) SetMetadata(in any) error {
	defer c.enter()()
	c.meta++
	return c.real.SetMetadata(in)
}

func (c *innerColl) Add(in any) error {
	defer c.enter()()
	if c.fail {
		return errors.New("the collector below failed")
	}
	m, ok := in.(birch.DocumentMarshaler)
	if !ok {
		return errors.New("no document")
	}
	d, err := m.MarshalDocument()
	if err != nil {
		return err
	}
	if err := c.real.Add(in); err != nil {
		return err
	}
	c.mu.Lock()
	c.docs = append(c.docs, nn(obsDoc(d)))
	c.mu.Unlock()
	return nil
}

func (c *innerColl) Resolve() ([]byte, error) { defer c.enter()(); return c.real.Resolve() }
func (c *innerColl) Reset()                   { defer c.enter()(); c.resets++; c.real.Reset() }
func (c *innerColl) Info() ftdc.CollectorInfo {
	c.asked.Add(1)
	defer c.asked.Add(-1)
	if c.inside.Load() > 0 {
		c.overlap.Store(true)
	}
	c.stay()
	return c.real.Info()
}

func readBack(b []byte) ([][]ME, string) {
	docs := [][]ME{}
	for d := range ftdc.ReadStructuredMetrics(bytes.NewReader(b)).Iterator() {
		docs = append(docs, nn(obsDoc(d)))
	}
	it := ftdc.ReadStructuredMetrics(bytes.NewReader(b))
	for range it.Iterator() {
	}
	return docs, errText(it.Close())
}

func realColl(kind string) ftdc.Collector {
	switch kind {
	case "base":
		return ftdc.NewBaseCollector(1000)
	case "dynamic":
		return ftdc.NewDynamicCollector(3)
	case "batch":
		return ftdc.NewBatchCollector(3)
	case "sync":
		return ftdc.NewSynchronizedCollector(ftdc.NewBaseCollector(1000))
	}
	panic("harness: " + kind)
}

func eventColl(kind string, n int, in ftdc.Collector) events.Collector {
	switch kind {
	case "basic":
		return events.NewBasicCollector(in)
	case "pass":
		return events.NewPassthroughCollector(in)
	case "sample":
		return events.NewSamplingCollector(in, n)
	case "random":
		return events.NewRandomSamplingCollector(in, true, n)
	case "interval":
		return events.NewIntervalCollector(in, time.Duration(n)*time.Microsecond)
	}
	panic("harness: " + kind)
}

type evOp struct {
	Op   string
	E    Ev
	Fail bool
	Wait int
}

func (r *Run) eventHistory(g *Gen, kind string, n int, ops []evOp) {
	r.Begin(map[string]any{"kind": kind, "n": n, "ops": ops})
	lower := []string{"base", "dynamic", "batch", "sync"}[g.pick(4)]
	in := &innerColl{real: realColl(lower)}
	synced, reuse := g.pick(2) == 0, g.pick(2) == 0
	c := eventColl(kind, n, in)
	if synced {
		c = events.NewSynchronizedCollector(c)
	}
	start := time.Now()
	var shared events.Performance
	steps := []any{}
	final := map[string]any{"docs": [][]ME{}, "err": "", "all": false}
	failed := false
	msg := try(func() {
		for _, op := range ops {
			s := map[string]any{"op": op.Op, "err": "", "outs": [][]ME{}, "t0": 0, "t1": 0, "e": op.E, "same": true, "fail": op.Fail, "count": 0}
			before := len(in.docs)
			switch op.Op {
			case "add":
				if op.Wait > 0 {
					time.Sleep(time.Duration(op.Wait) * time.Microsecond)
				}
				p := &shared
				if !reuse {
					p = &events.Performance{}
				}
				*p = op.E.perf(time.Duration(g.pick(1e6)))
				want := *p
				in.fail = op.Fail
				s["t0"] = time.Since(start).Microseconds()
				s["err"] = errText(c.AddEvent(p))
				s["t1"] = time.Since(start).Microseconds() + 1
				in.fail = false
				s["same"] = *p == want
				if g.pick(2) == 0 { // what the caller does with it afterwards is no business of the collector
					*p = g.event().perf(0)
				}
			case "nil":
				s["err"] = errText(c.AddEvent(nil))
			case "any":
				switch g.pick(3) {
				case 0:
					s["err"] = errText(c.Add(nil))
				case 1:
					s["err"] = errText(c.Add(birch.DC.Elements(birch.EC.Int64("x", 1))))
				case 2:
					p := op.E.perf(0)
					s["err"] = errText(c.Add(&p))
				}
			case "info":
				s["count"] = c.Info().SampleCount
			case "reset":
				k := in.resets
				c.Reset()
				s["same"] = in.resets == k+1
				failed = true // the samples are gone
			case "meta":
				k := in.meta
				s["err"] = errText(c.SetMetadata(birch.DC.Elements(birch.EC.Int64("m", 1))))
				s["same"] = in.meta == k+1
			}
			s["outs"] = nn(in.docs[before:])
			steps = append(steps, s)
		}
		if len(in.docs) > 0 && !failed {
			b, err := c.Resolve()
			final["all"] = true
			if err != nil {
				final["err"] = err.Error()
			} else {
				final["docs"], final["err"] = readBack(b)
			}
		}
	})
	r.Done()
	r.Emit(map[string]any{"k": "hist", "kind": kind, "n": n, "lower": lower, "steps": steps, "panic": msg, "final": final})
}

// concurrent callers of one synchronized collector.
func (r *Run) eventCallers(g *Gen) {
	kind, n := []string{"basic", "sample", "pass"}[g.pick(3)], 1
	in := &innerColl{real: ftdc.NewBaseCollector(1000)}
	c := events.NewSynchronizedCollector(eventColl(kind, n, in))
	callers := 2 + g.pick(3)
	evs := make([][]Ev, callers)
	next := int64(1)
	for i := range evs {
		for j := 0; j < 1+g.pick(4); j++ {
			e := g.event()
			e.Size = of64(next)
			next++
			evs[i] = append(evs[i], e)
		}
	}
	r.Begin(map[string]any{"callers": evs})
	var wg sync.WaitGroup
	errs := make([]string, callers)
	for i := range evs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = try(func() {
				for _, e := range evs[i] {
					p := e.perf(0)
					if err := c.AddEvent(&p); err != nil {
						errs[i] = err.Error()
					}
					c.Info()
				}
			})
		}()
	}
	if g.pick(2) == 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.SetMetadata(birch.DC.Elements(birch.EC.Int64("m", 1)))
			c.Resolve()
		}()
	}
	wg.Wait()
	outs := slices.Clone(in.docs)

	// every pair of operations must exclude each other
	in.slow = g.pick(4) == 0
	for range callers + 2 {
		op := g.pick(5)
		e := g.event().perf(0)
		wg.Add(1)
		go func() {
			defer wg.Done()
			try(func() {
				for range 2 {
					switch op {
					case 0:
						_ = c.AddEvent(&e)
					case 1:
						_ = c.SetMetadata(birch.DC.Elements(birch.EC.Int64("m", 2)))
					case 2:
						_, _ = c.Resolve()
					case 3:
						c.Reset()
					default:
						c.Info()
					}
				}
			})
		}()
	}
	wg.Wait()
	r.Done()
	msg := ""
	for _, e := range errs {
		msg += e
	}
	r.Emit(map[string]any{"k": "callers", "kind": kind, "evs": evs, "outs": nn(outs), "panic": msg, "overlap": in.overlap.Load()})
}

func (r *Run) eventCodec(g *Gen, e Ev) {
	r.Begin(e)
	p := e.perf(time.Duration(g.pick(1e6)))
	o := map[string]any{"doc": []ME{}, "bytes": []int{}, "err": "", "back": e, "berr": ""}
	o["panic"] = try(func() {
		d, err := p.MarshalDocument()
		must(err)
		o["doc"] = nn(obsDoc(d))
		b, err := p.MarshalBSON()
		o["bytes"], o["err"] = ints(b), errText(err)
		var q events.Performance
		d2, err := birch.ReadDocument(b)
		must(err)
		o["berr"] = errText(q.UnmarshalDocument(d2))
		o["back"] = evOf(&q)
	})
	r.Done()
	r.Emit(map[string]any{"k": "codec", "e": e, "o": o})
}

func (r *Run) eventRead(prior Ev, doc []ME) {
	r.Begin(map[string]any{"prior": prior, "doc": doc})
	p := prior.perf(0)
	o := map[string]any{"err": "", "e": prior}
	o["panic"] = try(func() {
		d, err := birch.ReadDocument(refEncode(doc))
		must(err)
		o["err"] = errText(p.UnmarshalDocument(d))
		o["e"] = evOf(&p)
	})
	r.Done()
	r.Emit(map[string]any{"k": "read", "prior": prior, "doc": nn(doc), "o": o})
}

// eventAdd combines two events directly.
func (r *Run) eventAdd(a, b Ev) {
	r.Begin([]Ev{a, b})
	o := map[string]any{"e": a, "same": false}
	o["panic"] = try(func() {
		p, q := a.perf(0), b.perf(0)
		p.Add(&q)
		o["e"] = evOf(&p)
		// the argument may have been given an id
		q.ID = i64of(b.ID)
		o["same"] = q == b.perf(0)
	})
	r.Done()
	r.Emit(map[string]any{"k": "sum", "a": a, "b": b, "o": o})
}

func customValue(g *Gen, v GV) any {
	if v.G != "seq" {
		return goValue(g, v)
	}
	if len(v.E) == 0 {
		return []any{[]int64{}, []bool{}, []uint64{}, []time.Time{}}[g.pick(4)]
	}
	t := reflect.TypeOf(goValue(g, v.E[0].V))
	s := reflect.MakeSlice(reflect.SliceOf(t), 0, len(v.E))
	for _, e := range v.E {
		s = reflect.Append(s, reflect.ValueOf(goValue(g, e.V)))
	}
	return s.Interface()
}

func (r *Run) customCase(g *Gen, pts []GE) {
	r.Begin(pts)
	o := map[string]any{"errs": []string{}, "lens": []int{}, "merr": "", "doc": []ME{}, "bytes": []int{}, "berr": "", "uerr": "", "names": []GE{}, "collected": "", "sorted": []GE{}}
	errs, lens := []string{}, []int{}
	o["panic"] = try(func() {
		c := events.MakeCustom(g.pick(4))
		for _, p := range pts {
			errs = append(errs, errText(c.Add(string(p.K), customValue(g, p.V))))
			lens = append(lens, len(c))
		}
		o["errs"], o["lens"] = errs, lens
		sorted := append(events.Custom{}, c...)
		sorted.Sort()
		o["sorted"] = pointsOf(sorted)
		d, err := append(events.Custom{}, c...).MarshalDocument()
		o["merr"] = errText(err)
		if err == nil {
			o["doc"] = nn(obsDoc(d))
		}
		b, err := c.MarshalBSON()
		o["bytes"], o["berr"] = ints(b), errText(err)
		if err == nil {
			var back events.Custom
			o["uerr"] = errText(back.UnmarshalBSON(b))
			o["names"] = pointsOf(back)
			fc := ftdc.NewBaseCollector(10)
			o["collected"] = errText(fc.Add(c))
		}
	})
	r.Done()
	r.Emit(map[string]any{"k": "custom", "pts": pts, "o": o})
}

func pointsOf(c events.Custom) []GE {
	out := []GE{}
	for _, p := range c {
		out = append(out, GE{K: []byte(p.Name), V: obsCustom(p.Value)})
	}
	return out
}

// obsCustom names what the points of a custom sequence hold.
func obsCustom(x any) GV {
	switch t := x.(type) {
	case time.Time:
		return GV{G: "time", S: le64(uint64(t.UnixMilli()))}
	case int:
		return GV{G: "int", S: le64(uint64(t))}
	case uint32:
		return GV{G: "uint32", S: le64(uint64(t))}
	case uint64:
		return GV{G: "uint64", S: le64(t)}
	case float32:
		return GV{G: "float32", S: le64(math.Float64bits(float64(t)))}
	}
	if v := reflect.ValueOf(x); v.IsValid() && v.Kind() == reflect.Slice {
		out := GV{G: "seq"}
		for i := 0; i < v.Len(); i++ {
			out.E = append(out.E, GE{V: obsCustom(v.Index(i).Interface())})
		}
		return out
	}
	return obsGo(x)
}

var customKinds = []string{"int64", "int32", "int", "bool", "time", "float64", "float32", "uint32", "uint64"}

func (g *Gen) customPoints() []GE {
	out := []GE{}
	for i := 0; i < 1+g.pick(6); i++ {
		p := GE{K: []byte([]string{"a", "b", "c", "aa", "", "B", "z\xff"}[g.pick(7)])}
		switch g.pick(8) {
		case 0:
			p.V = g.goLeaf([]string{"string", "uint8", "nil", "int8", "uint", "uint16"}[g.pick(6)])
		case 1:
			p.V = GV{G: "map"}
		case 2, 3, 4:
			k := customKinds[g.pick(len(customKinds))]
			if g.pick(12) == 0 {
				k = "string"
			}
			p.V = GV{G: "seq"}
			for j := 0; j < g.pick(4); j++ {
				p.V.E = append(p.V.E, GE{V: g.goLeaf(k)})
			}
		default:
			p.V = g.goLeaf(customKinds[g.pick(len(customKinds))])
		}
		out = append(out, p)
	}
	return out
}

// eventDoc is a document near that of an event.
func (g *Gen) eventDoc() []ME {
	p := g.event().perf(0)
	d, err := p.MarshalDocument()
	must(err)
	es := obsDoc(d)
	var twist func(es []ME) []ME
	twist = func(es []ME) []ME {
		out := append([]ME{}, es...)
		for i := range out {
			if out[i].V.T == 3 && g.pick(2) == 0 {
				out[i].V.E = twist(out[i].V.E)
			}
		}
		switch g.pick(7) {
		case 0:
			if len(out) > 0 {
				i := g.pick(len(out))
				out = append(out[:i], out[i+1:]...)
			}
		case 1:
			g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		case 2:
			if len(out) > 0 {
				out[g.pick(len(out))].V = g.value(1)
			}
		case 3:
			if len(out) > 0 {
				out[g.pick(len(out))].K = g.key()
			}
		case 4:
			if len(out) > 0 {
				e := out[g.pick(len(out))]
				if e.V.T == 18 {
					e.V = mInt64(g.i64())
				}
				out = append(out, e)
			}
		case 5:
			out = append(out, ME{K: g.key(), V: g.value(1)})
		}
		return out
	}
	return twist(es)
}

func (g *Gen) eventOps(kind string) []evOp {
	ops := []evOp{}
	for i := 0; i < 1+g.pick(12); i++ {
		op := evOp{Op: "add", E: g.event()}
		switch g.pick(12) {
		case 0:
			op.Op = "nil"
		case 1:
			op.Op = "any"
		case 2:
			op.Op = "info"
		case 3:
			op.Fail = true
		case 4:
			op.Op = []string{"reset", "meta"}[g.pick(2)]
		}
		if kind == "interval" && op.Op == "add" && g.pick(2) == 0 {
			op.Wait = 300 + g.pick(2500)
		}
		ops = append(ops, op)
	}
	return ops
}

// countColl only counts.
type countColl struct {
	ftdc.Collector
	n int
}

func (c *countColl) Add(any) error { c.n++; return nil }

// eventRate measures how many events a random sampling collector lets through.
func (r *Run) eventRate(percent int) {
	const n = 4000
	r.Begin(percent)
	in := &countColl{}
	msg := try(func() {
		c := events.NewRandomSamplingCollector(in, true, percent)
		for i := 0; i < n; i++ {
			must(c.AddEvent(&events.Performance{ID: int64(i)}))
		}
	})
	r.Done()
	r.Emit(map[string]any{"k": "rate", "percent": percent, "n": n, "count": in.n, "panic": msg})
}

func recEvents(r *Run) {
	g := newGen(r.Seed)
	g.MaxStr = 6
	if r.In != "" {
		r.each(func(line []byte) {
			var c struct {
				K    string
				Kind string
				N    int
				Ops  []evOp
				E    Ev
				Doc  []ME
				Pts  []GE
			}
			if err := json.Unmarshal(line, &c); err != nil {
				panic("harness: " + err.Error())
			}
			switch c.K {
			case "hist":
				r.eventHistory(g, c.Kind, c.N, c.Ops)
			case "read":
				r.eventRead(c.E, c.Doc)
			case "codec":
				r.eventCodec(g, c.E)
			case "custom":
				r.customCase(g, c.Pts)
			}
			r.count--
		})
		return
	}
	for i := 0; i < r.N; i++ {
		switch i % 6 {
		case 0, 1:
			kind := []string{"basic", "pass", "sample", "random", "interval"}[g.pick(5)]
			n := 0
			switch kind {
			case "sample":
				n = 1 + g.pick(4)
			case "random":
				n = []int{-3, 0, 50, 99, 101, 1000}[g.pick(6)]
			case "interval":
				n = []int{0, 1500, 1500, 3600000000 / 4}[g.pick(4)]
			}
			r.eventHistory(g, kind, n, g.eventOps(kind))
		case 2:
			r.customCase(g, g.customPoints())
		case 3:
			r.eventRead(g.event(), g.eventDoc())
		case 4:
			r.eventCodec(g, g.event())
			r.eventAdd(g.event(), g.event())
		case 5:
			r.eventCallers(g)
			if i < 60 {
				r.eventRate(1 + g.pick(99))
			}
		}
	}
}
