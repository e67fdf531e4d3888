package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"slices"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/events"
	"github.com/tychoish/fun/dt/hdrhist"
)

func init() { recorders["recorder"] = recRecorder }

// recOp is a step of a script for a recorder.
type recOp struct {
	Op string `json:"op"`
	V  int    `json:"v"`
}

type recScript struct {
	Kind   string
	Ivl    int
	Synced bool
	Shim   bool
	Ops    []recOp
}

type recEvent struct {
	E     string   `json:"e"`
	Op    string   `json:"op"`
	V     int      `json:"v"`
	T0    int      `json:"t0"`
	T1    int      `json:"t1"`
	T     int      `json:"t"`
	P     any      `json:"p"`
	Fail  bool     `json:"fail"`
	Err   string   `json:"err"`
	Panic string   `json:"panic"`
	Tm    []string `json:"tm"`
}

type recPoint struct {
	ID      int  `json:"id"`
	N       any  `json:"n"`
	Ops     any  `json:"ops"`
	Size    any  `json:"size"`
	Errs    any  `json:"errs"`
	Dur     any  `json:"dur"`
	Total   any  `json:"total"`
	Ts      int  `json:"ts"`
	State   int  `json:"state"`
	Workers int  `json:"workers"`
	Failed  bool `json:"failed"`
}

// sampleLog is the collector below a recorder: it notes the points as they
// are when they are written.
type sampleLog struct {
	mu      sync.Mutex
	base    time.Time
	ev      []*recEvent
	adds    int
	fail    bool
	slow    time.Duration
	bad     string
	inside  atomic.Int32
	overlap atomic.Bool
}

const recFar = 2000000000

func (c *sampleLog) us(t time.Time) int {
	return int(max(-recFar, min(recFar, t.Sub(c.base).Microseconds())))
}

// hdrValues lists what was recorded in the histogram.
func hdrValues(h *hdrhist.Histogram, unit int64) []int {
	out := []int{}
	for _, b := range h.Distribution() {
		for n := b.Count; n > 0 && len(out) < 4000; n-- {
			out = append(out, int(b.From/unit))
		}
	}
	slices.Sort(out)
	return out
}

func (c *sampleLog) point(in any) (recPoint, bool) {
	switch p := in.(type) {
	case *events.Performance:
		return recPoint{
			ID: int(p.ID), Ts: c.us(p.Timestamp), State: int(p.Gauges.State), Workers: int(p.Gauges.Workers), Failed: p.Gauges.Failed,
			N: p.Counters.Number, Ops: p.Counters.Operations, Size: p.Counters.Size, Errs: p.Counters.Errors,
			Dur: p.Timers.Duration.Microseconds(), Total: p.Timers.Total.Microseconds(),
		}, true
	case *events.PerformanceHDR:
		return recPoint{
			ID: int(p.ID), Ts: c.us(p.Timestamp), State: int(p.Gauges.State), Workers: int(p.Gauges.Workers), Failed: p.Gauges.Failed,
			N: hdrValues(p.Counters.Number, 1), Ops: hdrValues(p.Counters.Operations, 1), Size: hdrValues(p.Counters.Size, 1), Errs: hdrValues(p.Counters.Errors, 1),
			Dur: hdrValues(p.Timers.Duration, 1000), Total: hdrValues(p.Timers.Total, 1000),
		}, true
	}
	return recPoint{}, false
}

func (c *sampleLog) Add(in any) error {
	if c.inside.Add(1) > 1 {
		c.overlap.Store(true)
	}
	defer c.inside.Add(-1)
	now := time.Now()
	p, ok := c.point(in)
	c.mu.Lock()
	if !ok {
		c.bad = fmt.Sprintf("%T", in)
	}
	fail, slow := c.fail, c.slow
	c.ev = append(c.ev, &recEvent{E: "add", P: p, Fail: fail, T: c.us(now)})
	c.adds++
	c.mu.Unlock()
	time.Sleep(slow)
	if fail {
		return errors.New("the collector failed")
	}
	return nil
}

func (c *sampleLog) SetMetadata(any) error    { return nil }
func (c *sampleLog) Resolve() ([]byte, error) { return nil, nil }
func (c *sampleLog) Reset()                   {}
func (c *sampleLog) Info() ftdc.CollectorInfo { return ftdc.CollectorInfo{} }
func (c *sampleLog) added() int               { c.mu.Lock(); defer c.mu.Unlock(); return c.adds }
func (c *sampleLog) note(e *recEvent) *recEvent {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.ev = append(c.ev, e)
	return e
}

type timerLog struct{ calls []string }

func (t *timerLog) ResetTimer() { t.calls = append(t.calls, "reset") }
func (t *timerLog) StartTimer() { t.calls = append(t.calls, "start") }
func (t *timerLog) StopTimer()  { t.calls = append(t.calls, "stop") }

func newRec(ctx context.Context, kind string, c ftdc.Collector, ivl time.Duration) events.Recorder {
	switch kind {
	case "raw":
		return events.NewRawRecorder(c)
	case "group":
		return events.NewGroupedRecorder(c, ivl)
	case "interval":
		return events.NewIntervalRecorder(ctx, c, ivl)
	case "single":
		return events.NewSingleRecorder(c)
	case "hraw":
		return events.NewHistogramRecorder(c)
	case "hgroup":
		return events.NewHistogramGroupedRecorder(c, ivl)
	case "hinterval":
		return events.NewIntervalHistogramRecorder(ctx, c, ivl)
	case "hsingle":
		return events.NewSingleHistogramRecorder(c)
	}
	panic("harness: kind " + kind)
}

func (r *Run) recHistory(s recScript) {
	r.Begin(s)
	defer r.Done()
	lg := &sampleLog{base: time.Now()}
	tm := &timerLog{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	t0 := lg.us(time.Now())
	rec := newRec(ctx, s.Kind, lg, time.Duration(s.Ivl)*time.Microsecond)
	t1 := lg.us(time.Now()) + 1
	if s.Synced {
		rec = events.NewSynchronizedRecorder(rec)
	}
	if s.Shim {
		rec = events.NewShimRecorder(rec, tm)
	}
	for _, o := range s.Ops {
		tm.calls = nil
		us := time.Duration(o.V) * time.Microsecond
		call := lg.note(&recEvent{E: "call", Op: o.Op, V: o.V})
		ret := &recEvent{E: "ret"}
		had := lg.added()
		begin := lg.us(time.Now())
		lg.mu.Lock()
		call.T0 = begin
		lg.mu.Unlock()
		done := make(chan struct{})
		go func() {
			defer close(done)
			ret.Panic = try(func() {
				switch o.Op {
				case "begin":
					rec.BeginIteration()
				case "end":
					rec.EndIteration(us)
				case "test":
					if err := rec.EndTest(); err != nil {
						ret.Err = err.Error()
					}
				case "reset":
					rec.Reset()
				case "iter":
					rec.IncIterations(int64(o.V))
				case "ops":
					rec.IncOperations(int64(o.V))
				case "size":
					rec.IncSize(int64(o.V))
				case "error":
					rec.IncError(int64(o.V))
				case "state":
					rec.SetState(int64(o.V))
				case "workers":
					rec.SetWorkers(int64(o.V))
				case "failed":
					rec.SetFailed(o.V == 1)
				case "id":
					rec.SetID(int64(o.V))
				case "time":
					rec.SetTime(lg.base.Add(us))
				case "dur":
					rec.SetDuration(us)
				case "total":
					rec.SetTotalDuration(us)
				case "cancel":
					cancel()
				case "sleep":
					time.Sleep(us)
				case "slow":
					lg.mu.Lock()
					lg.slow = us
					lg.mu.Unlock()
				case "fail":
					lg.mu.Lock()
					lg.fail = o.V == 1
					lg.mu.Unlock()
				case "await":
					for end := time.Now().Add(us); lg.added() == had; time.Sleep(100 * time.Microsecond) {
						if time.Now().After(end) {
							ret.Err = "nothing was written"
							break
						}
					}
				default:
					panic("harness: op " + o.Op)
				}
			})
		}()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			ret = nil
		}
		end := lg.us(time.Now()) + 1
		lg.mu.Lock()
		call.T1 = end
		if ret != nil {
			ret.Tm = nn(tm.calls)
			lg.ev = append(lg.ev, ret)
		}
		lg.mu.Unlock()
		if ret == nil {
			break
		}
	}
	lg.mu.Lock()
	defer lg.mu.Unlock()
	for _, e := range lg.ev {
		e.Tm = nn(e.Tm)
		if e.P == nil {
			e.P = struct{}{}
		}
	}
	ev := slices.Clone(lg.ev)
	// what a background writer does from here on is not part of the history
	r.Emit(map[string]any{"k": "hist", "kind": s.Kind, "ivl": s.Ivl, "t0": t0, "t1": t1, "shim": s.Shim, "bad": lg.bad, "synced": s.Synced, "ev": ev})
	lg.ev = nil
}

// sumUp adds the values of a counter, of either sort.
func sumUp(v any) int {
	switch x := v.(type) {
	case int64:
		return int(x)
	case []int:
		n := 0
		for _, y := range x {
			n += y
		}
		return n
	}
	panic("harness: sum")
}

// loneRecorder notes when it is used by two callers at once.
type loneRecorder struct {
	inside  atomic.Int32
	overlap atomic.Bool
	slow    bool
}

func (l *loneRecorder) use() {
	if l.inside.Add(1) > 1 {
		l.overlap.Store(true)
	}
	runtime.Gosched()
	if l.slow {
		time.Sleep(20 * time.Microsecond)
	}
	l.inside.Add(-1)
}
func (l *loneRecorder) SetID(int64)                    { l.use() }
func (l *loneRecorder) SetTime(time.Time)              { l.use() }
func (l *loneRecorder) SetTotalDuration(time.Duration) { l.use() }
func (l *loneRecorder) SetDuration(time.Duration)      { l.use() }
func (l *loneRecorder) IncOperations(int64)            { l.use() }
func (l *loneRecorder) IncIterations(int64)            { l.use() }
func (l *loneRecorder) IncSize(int64)                  { l.use() }
func (l *loneRecorder) IncError(int64)                 { l.use() }
func (l *loneRecorder) SetState(int64)                 { l.use() }
func (l *loneRecorder) SetWorkers(int64)               { l.use() }
func (l *loneRecorder) SetFailed(bool)                 { l.use() }
func (l *loneRecorder) BeginIteration()                { l.use() }
func (l *loneRecorder) EndIteration(time.Duration)     { l.use() }
func (l *loneRecorder) EndTest() error                 { l.use(); return nil }
func (l *loneRecorder) Reset()                         { l.use() }

// overlapping has several goroutines make any calls on a synchronized recorder.
func overlapping(g *Gen) bool {
	l := &loneRecorder{slow: g.pick(2) == 0}
	rec := events.NewSynchronizedRecorder(l)
	var wg sync.WaitGroup
	for range 4 {
		var calls []int
		for range 12 {
			calls = append(calls, g.pick(15))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, k := range calls {
				switch k {
				case 0:
					rec.SetID(1)
				case 1:
					rec.SetTime(time.Now())
				case 2:
					rec.SetTotalDuration(1)
				case 3:
					rec.SetDuration(1)
				case 4:
					rec.IncOperations(1)
				case 5:
					rec.IncIterations(1)
				case 6:
					rec.IncSize(1)
				case 7:
					rec.IncError(1)
				case 8:
					rec.SetState(1)
				case 9:
					rec.SetWorkers(1)
				case 10:
					rec.SetFailed(true)
				case 11:
					rec.BeginIteration()
				case 12:
					rec.EndIteration(1)
				case 13:
					_ = rec.EndTest()
				case 14:
					rec.Reset()
				}
			}
		}()
	}
	wg.Wait()
	return l.overlap.Load()
}

// recCallers has several goroutines use one recorder.
func (r *Run) recCallers(g *Gen, kind string) {
	r.Begin(kind)
	defer r.Done()
	hdr := kind[0] == 'h'
	lg := &sampleLog{base: time.Now()}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ivl := time.Duration(g.pick(3)) * time.Millisecond
	rec := newRec(ctx, kind, lg, max(ivl, time.Duration(map[bool]int{true: 60000, false: 500}[hdr])*time.Microsecond))
	if kind != "interval" && kind != "hinterval" {
		rec = events.NewSynchronizedRecorder(rec)
	}
	threads, each := 2+g.pick(4), 3+g.pick(20)
	if hdr {
		threads, each = 2+g.pick(3), 1+g.pick(3)
	}
	if g.pick(3) == 0 {
		lg.slow = time.Duration(g.pick(300)) * time.Microsecond
	}
	seeds := make([]int64, threads)
	for i := range seeds {
		seeds[i] = g.Int63()
	}
	var n, ops, size, errs, dur atomic.Int64
	var panicked atomic.Value
	panicked.Store("")
	var wg sync.WaitGroup
	for i := range threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := newGen(seeds[i])
			if p := try(func() {
				for range each {
					rec.BeginIteration()
					for range g.pick(4) {
						v := g.pick(20)
						switch g.pick(8) {
						case 0:
							rec.IncOperations(int64(v))
							ops.Add(int64(v))
						case 1:
							rec.IncSize(int64(v))
							size.Add(int64(v))
						case 2:
							rec.IncError(int64(v))
							errs.Add(int64(v))
						case 3:
							rec.IncIterations(int64(v))
							n.Add(int64(v))
						case 4:
							rec.SetState(int64(v))
						case 5:
							rec.SetWorkers(int64(v))
							rec.SetFailed(v%2 == 0)
						case 6:
							rec.SetID(int64(v))
						case 7:
							if !hdr && kind != "raw" {
								rec.SetDuration(time.Duration(v) * time.Microsecond)
								dur.Add(int64(v))
							} else {
								rec.SetTotalDuration(time.Millisecond)
							}
						}
					}
					d := 0
					if !hdr {
						d = g.pick(100)
					}
					dur.Add(int64(d))
					n.Add(1)
					rec.EndIteration(time.Duration(d) * time.Microsecond)
				}
			}); p != "" {
				panicked.Store(p)
			}
		}()
	}
	done := make(chan struct{})
	errText := ""
	go func() {
		defer close(done)
		wg.Wait()
		if err := rec.EndTest(); err != nil {
			errText = err.Error()
		}
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		r.Emit(map[string]any{"k": "callers", "kind": kind, "points": []any{}, "sums": map[string]int{"n": 0, "ops": 0, "size": 0, "errs": 0, "dur": 0}, "ends": 0, "panic": "", "err": "the callers do not return", "overlap": false})
		return
	}
	points := []map[string]int{}
	lg.mu.Lock()
	defer lg.mu.Unlock()
	for _, e := range lg.ev {
		p := e.P.(recPoint)
		points = append(points, map[string]int{"n": sumUp(p.N), "ops": sumUp(p.Ops), "size": sumUp(p.Size), "errs": sumUp(p.Errs), "dur": sumUp(p.Dur)})
	}
	r.Emit(map[string]any{
		"k": "callers", "kind": kind, "points": points, "ends": threads * each, "panic": panicked.Load(), "err": errText, "overlap": lg.overlap.Load() || overlapping(g),
		"sums": map[string]int{"n": int(n.Load()), "ops": int(ops.Load()), "size": int(size.Load()), "errs": int(errs.Load()), "dur": int(dur.Load())},
	})
	lg.ev = nil
}

func (g *Gen) recScript(kind string) recScript {
	s := recScript{Kind: kind, Synced: g.pick(3) == 0, Shim: g.pick(4) == 0}
	hdr := kind[0] == 'h'
	interval := kind == "interval" || kind == "hinterval"
	switch {
	case interval && hdr:
		s.Ivl = 60000
	case interval:
		s.Ivl = []int{2000, 5000, 60000000}[g.pick(3)]
	case kind == "group" || kind == "hgroup":
		s.Ivl = []int{0, 3000, 20000, 60000000}[g.pick(4)]
	}
	n := 3 + g.pick(22)
	if hdr {
		n = 3 + g.pick(12)
	}
	counters := []string{"iter", "ops", "size", "error"}
	started := false
	for len(s.Ops) < n {
		o := recOp{}
		switch k := g.pick(20); {
		case k < 4:
			o = recOp{"begin", 0}
			started = true
		case k < 8:
			o = recOp{"end", g.pick(3) * g.pick(20000000)}
		case k < 11:
			o = recOp{counters[g.pick(4)], g.pick(2) * g.pick(10001)}
			if !hdr && g.pick(5) == 0 {
				o.V = g.pick(2000001) - 1000000
			}
			if hdr && g.pick(12) == 0 {
				o.V = 1000001 + g.pick(1000000)
			}
		case k == 11:
			o = recOp{[]string{"state", "workers"}[g.pick(2)], g.pick(1000) - 10}
		case k == 12:
			o = recOp{"failed", g.pick(2)}
		case k == 13:
			o = recOp{[]string{"id", "time"}[g.pick(2)], 1 + g.pick(1000)}
			if o.Op == "time" {
				o.V *= -1000000
			}
		case k == 14:
			o = recOp{[]string{"dur", "total"}[g.pick(2)], g.pick(3) * g.pick(20000000)}
		case k == 15:
			o = recOp{"test", 0}
			if g.pick(2) == 0 {
				o.Op = "reset"
			}
			started = false
		case k == 16:
			o = recOp{"sleep", g.pick(8000)}
		case k == 17:
			o = recOp{"slow", []int{0, 500, 8000}[g.pick(3)]}
			if hdr && interval {
				o.V *= 12
			}
		case k == 18:
			o = recOp{"fail", g.pick(3) / 2}
		case k == 19 && interval:
			if g.pick(6) == 0 {
				o = recOp{"cancel", 0}
				started = false
			} else if started && s.Ivl < 1000000 {
				o = recOp{"await", 3000000}
			} else {
				continue
			}
		default:
			continue
		}
		s.Ops = append(s.Ops, o)
	}
	s.Ops = append(s.Ops, recOp{"test", 0})
	if g.pick(2) == 0 {
		s.Ops = append(s.Ops, recOp{"state", 3}, recOp{"begin", 0}, recOp{"end", 5}, recOp{"test", 0})
	}
	return s
}

var recKinds = []string{"raw", "group", "interval", "single", "hraw", "hgroup", "hinterval", "hsingle"}

func recRecorder(r *Run) {
	g := newGen(r.Seed)
	if r.In != "" {
		r.each(func(line []byte) {
			var s recScript
			if err := json.Unmarshal(line, &s); err != nil {
				panic("harness: " + err.Error())
			}
			s.Synced, s.Shim = g.pick(3) == 0, g.pick(4) == 0
			r.recHistory(s)
			r.count--
		})
		return
	}
	for i := range r.N {
		kind := recKinds[g.pick(4)]
		if i%8 == 7 {
			kind = recKinds[4+g.pick(4)]
		}
		if i%5 == 4 {
			if kind[0] == 'h' && i%3 != 0 {
				kind = kind[1:]
			}
			r.recCallers(g, kind)
		} else {
			r.recHistory(g.recScript(kind))
		}
	}
}
