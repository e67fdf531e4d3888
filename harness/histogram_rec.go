package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync/atomic"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc/events"
	"github.com/tychoish/birch/x/ftdc/hdrhist"
	"github.com/tychoish/birch/x/ftdc/util"
	dthist "github.com/tychoish/fun/dt/hdrhist"
)

func init() { recorders["histogram"] = recHistogram }

type histRec struct {
	V  int64 `json:"v"`
	N  int64 `json:"n"`
	Ok bool  `json:"ok"`
}

type histShape struct {
	Lo     int64   `json:"lo"`
	Hi     int64   `json:"hi"`
	Fig    int64   `json:"fig"`
	Counts []int64 `json:"counts"`
}

type histBack struct {
	Err   string    `json:"err"`
	Panic string    `json:"panic"`
	H     histShape `json:"h"`
	Total int64     `json:"total"`
	Kept  bool      `json:"kept"`
}

type histCase struct {
	Op    string    `json:"op"`
	Lo    int64     `json:"lo"`
	Hi    int64     `json:"hi"`
	Fig   int64     `json:"fig"`
	Rec   []histRec `json:"rec"`
	Panic string    `json:"panic"`
	Doc   []ME      `json:"doc"`
	Bson  []int     `json:"bson"`
	JSON  []int     `json:"json"`
	Bback histBack  `json:"bback"`
	Jback histBack  `json:"jback"`
}

// readHist reads into a histogram that held something else.
func readHist(f func(*hdrhist.Histogram) error) (b histBack) {
	b.H.Counts = []int64{}
	old := dthist.New(1, 100, 1)
	old.RecordValues(3, 5)
	h := &hdrhist.Histogram{Histogram: old}
	if b.Panic = try(func() { b.Err = errText(f(h)) }); b.Panic != "" {
		return b
	}
	b.Kept = h.Histogram == old && old.TotalCount() == 5
	if b.Err != "" {
		return b
	}
	b.Panic = try(func() {
		s := h.Export()
		b.H = histShape{s.LowestTrackableValue, s.HighestTrackableValue, s.SignificantFigures, s.Counts}
		b.Total = h.TotalCount()
		h.RecordValue(1) // it can be used
		h.ValueAtQuantile(50)
	})
	return b
}

var withUnmarshaler bool

// fromBSON reads every other document with an unmarshaler that the caller has
// registered, as the driver's: it fills the fields it finds.
func fromBSON(h *hdrhist.Histogram, b []byte) error {
	if withUnmarshaler = !withUnmarshaler; withUnmarshaler {
		util.RegisterGlobalUnmarshaler(func(in []byte, out any) error {
			to := map[string]reflect.Value{}
			if p := reflect.ValueOf(out); p.Kind() == reflect.Pointer && p.Elem().Kind() == reflect.Struct {
				for i := range p.Elem().NumField() {
					f := p.Elem().Type().Field(i)
					name, _, _ := strings.Cut(f.Tag.Get("bson"), ",")
					if name == "" {
						name = strings.ToLower(f.Name)
					}
					to[name] = p.Elem().Field(i)
				}
			}
			if _, err := birch.Reader(in).Validate(); err != nil {
				return err
			}
			d, err := birch.ReadDocument(in)
			if err != nil {
				return err
			}
			for name, f := range to {
				v := d.Lookup(name)
				switch {
				case !f.CanSet():
				case v == nil:
					return errors.New(name + " is missing")
				case f.Kind() == reflect.Int64:
					n, ok := v.Int64OK()
					if !ok {
						return errors.New(name + " is no number")
					}
					f.SetInt(n)
				case f.Type() == reflect.TypeFor[[]int64]():
					a, ok := v.MutableArrayOK()
					if !ok {
						return errors.New(name + " is no array")
					}
					f.SetLen(0)
					for v := range a.Iterator() {
						n, ok := v.Int64OK()
						if !ok {
							return errors.New(name + " has no numbers")
						}
						f.Set(reflect.Append(f, reflect.ValueOf(n)))
					}
				}
			}
			return nil
		})
		defer util.RegisterGlobalUnmarshaler(nil)
	}
	return h.UnmarshalBSON(b)
}

func (r *Run) recHist(c *histCase) *hdrhist.Histogram {
	c.Op, c.Doc, c.Bson, c.JSON = "hist", []ME{}, []int{}, []int{}
	c.Bback.H.Counts, c.Jback.H.Counts = []int64{}, []int64{}
	if c.Rec == nil {
		c.Rec = []histRec{}
	}
	h := &hdrhist.Histogram{Histogram: dthist.New(c.Lo, c.Hi, int(c.Fig))}
	for i := range c.Rec {
		c.Rec[i].Ok = h.RecordValues(c.Rec[i].V, c.Rec[i].N) == nil
	}
	return h
}

func (r *Run) recHistForms(c *histCase) {
	r.Begin(c)
	h := r.recHist(c)
	c.Panic = try(func() {
		d, err := h.MarshalDocument()
		if err != nil {
			panic(err)
		}
		c.Doc = obsDoc(d)
		b, err := h.MarshalBSON()
		if err != nil {
			panic(err)
		}
		j, err := h.MarshalJSON()
		if err != nil {
			panic(err)
		}
		c.Bson, c.JSON = ints(b), ints(j)
		c.Bback = readHist(func(h *hdrhist.Histogram) error { return fromBSON(h, bytes.Clone(b)) })
		c.Jback = readHist(func(h *hdrhist.Histogram) error { return json.Unmarshal(j, h) })
	})
	r.Emit(c)
	r.Done()
}

// damage changes the fields of a histogram.
func (g *Gen) damage(h *hdrhist.Histogram) (es []ME, text string) {
	s := h.Export()
	type field struct {
		k string
		v MV
		t string
	}
	num := func(i int64) (MV, string) { return mInt64(i), fmt.Sprint(i) }
	nums := func(in []int64) (MV, string) {
		vs, ts := []MV{}, []string{}
		for _, i := range in {
			v, t := num(i)
			vs, ts = append(vs, v), append(ts, t)
		}
		return mArray(vs), "[" + strings.Join(ts, ",") + "]"
	}
	mk := func(k string, v MV, t string) field { return field{k, v, t} }
	lov, lot := num(s.LowestTrackableValue)
	hiv, hit := num(s.HighestTrackableValue)
	fv, ft := num(s.SignificantFigures)
	cv, ct := nums(s.Counts)
	fs := []field{mk("lowest", lov, lot), mk("highest", hiv, hit), mk("figures", fv, ft), mk("counts", cv, ct)}
	odd := func() (MV, string) {
		switch g.pick(8) {
		case 0:
			return mString("x"), `"x"`
		case 1:
			return mBool(true), "true"
		case 2:
			return mDouble(2), "2.0"
		case 3:
			return mInt32(2), "2"
		case 4:
			return mNull(), "null"
		case 5:
			return MV{T: 3, E: []ME{}}, "{}"
		case 6:
			return mArray(nil), "[]"
		default:
			return num([]int64{-1, 0, 6, 1 << 62, 1<<62 + 1, 1<<63 - 1, -1 << 63, 1 << 40, 1 << 31, 1 << 32}[g.pick(10)])
		}
	}
	for range 1 + g.pick(2) {
		i := g.pick(len(fs))
		f := &fs[i]
		switch g.pick(8) {
		case 0:
			fs = append(fs[:i], fs[i+1:]...)
			if len(fs) == 0 {
				fs = append(fs, mk("other", mInt64(1), "1"))
			}
		case 1:
			fs = append(fs, mk("extra", mString("y"), `"y"`))
		case 2:
			g.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
		case 3:
			f.v, f.t = odd()
		case 4:
			f.k = []string{"Lowest", "counts", "highest", "", "count"}[g.pick(5)]
		case 5: // the counts do not fit
			in := append([]int64{}, s.Counts...)
			switch g.pick(5) {
			case 0:
				in = in[:len(in)-1]
			case 1:
				in = append(in, 0)
			case 2:
				in = in[:g.pick(len(in))]
			case 3:
				in[g.pick(len(in))] = -3
			case 4:
				in = append(in, in...)
			}
			for j := range fs {
				if fs[j].k == "counts" {
					fs[j].v, fs[j].t = nums(in)
				}
			}
		case 6: // one count is something else
			for j := range fs {
				if fs[j].k == "counts" && fs[j].v.T == 4 && len(fs[j].v.E) > 0 {
					v, t := odd()
					k := g.pick(len(fs[j].v.E))
					fs[j].v.E[k].V = v
					parts := strings.Split(strings.Trim(fs[j].t, "[]"), ",")
					if k < len(parts) {
						parts[k] = t
					}
					fs[j].t = "[" + strings.Join(parts, ",") + "]"
				}
			}
		case 7:
			i := []int64{0, 1, 2, 3, 4, 5, 6, -1, 33, 64, 1000, s.HighestTrackableValue + 1}[g.pick(12)]
			f.v, f.t = num(i)
		}
	}
	parts := []string{}
	for _, f := range fs {
		es = append(es, ME{K: []byte(f.k), V: f.v})
		parts = append(parts, fmt.Sprintf("%q:%s", f.k, f.t))
	}
	return es, "{" + strings.Join(parts, ",") + "}"
}

func (r *Run) recHistRead(form string, es []ME, text []byte) {
	r.Begin(map[string]any{"form": form, "text": string(text), "es": es})
	var back histBack
	if es == nil {
		es = []ME{}
	}
	if form == "json" {
		back = readHist(func(h *hdrhist.Histogram) error { return h.UnmarshalJSON(text) })
	} else {
		back = readHist(func(h *hdrhist.Histogram) error { return fromBSON(h, text) })
	}
	if back.H.Counts == nil {
		back.H.Counts = []int64{}
	}
	// what does not fit TLC's integers is not compared
	if back.Err == "" && back.Panic == "" && (back.H.Lo>>30 != 0 || back.H.Hi>>30 != 0 || len(back.H.Counts) > 5000) {
		back.H = histShape{Counts: []int64{}}
	}
	for i := range back.H.Counts {
		if back.H.Counts[i]>>30 != 0 {
			back.H = histShape{Counts: []int64{}}
			break
		}
	}
	if back.Total>>30 != 0 {
		back.Total = -1
	}
	r.Emit(map[string]any{"op": "read", "form": form, "text": ints(text), "es": es, "back": back})
	r.Done()
}

func (g *Gen) hist(small bool) *histCase {
	c := &histCase{Lo: []int64{0, 1, 1, 2, 3, 10, 1000}[g.pick(7)], Hi: []int64{1, 31, 32, 33, 100, 255, 1000, 4096, 60000}[g.pick(9)], Fig: 1}
	if !small && g.pick(5) == 0 {
		c.Hi, c.Fig = []int64{100, 257, 1000}[g.pick(3)], 2
	}
	if g.pick(3) == 0 {
		c.Hi += int64(g.pick(100))
	}
	for range g.pick(12) {
		v := []int64{0, 1, c.Lo, c.Hi, c.Hi - 1, c.Hi + 1, 2 * c.Hi, int64(g.pick(70)), int64(g.pick(int(c.Hi) + 1))}[g.pick(9)]
		c.Rec = append(c.Rec, histRec{V: v, N: int64(1 + g.pick(3)*g.pick(1000))})
	}
	return c
}

func (r *Run) recPerf(g *Gen) {
	hs := make([]*histCase, 6)
	in := make([]*hdrhist.Histogram, 6)
	for i := range hs {
		hs[i] = g.hist(true)
		hs[i].Hi = int64(1 + g.pick(80))
		in[i] = r.recHist(hs[i])
	}
	state, workers, id, ms := g.i64(), g.i64(), g.i64(), int64(g.pick(1<<30))*int64(g.pick(4000))
	p := &events.PerformanceHDR{Timestamp: time.UnixMilli(ms), ID: id, Gauges: events.PerformanceGauges{State: state, Workers: workers, Failed: g.pick(2) == 0}}
	p.Counters = events.PerformanceCountersHDR{Number: in[0].Histogram, Operations: in[1].Histogram, Size: in[2].Histogram, Errors: in[3].Histogram}
	p.Timers = events.PerformanceTimersHDR{Duration: in[4].Histogram, Total: in[5].Histogram}
	doc := []ME{}
	msg := try(func() {
		if fresh.Swap(false) {
			emptyPerf(events.NewHistogramSecond(p.Gauges), p.Gauges)
			emptyPerf(events.NewHistogramMillisecond(p.Gauges), p.Gauges)
		}
		d, err := p.MarshalDocument()
		if err != nil {
			panic(err)
		}
		doc = obsDoc(d)
		for i := range in { // the document does not follow the histograms
			in[i].RecordValue(1)
		}
		if !reflect.DeepEqual(doc, obsDoc(d)) {
			panic("the document changes with the histogram")
		}
	})
	r.Emit(map[string]any{"op": "perf", "panic": msg, "doc": doc, "hs": hs, "ts": ints(le64(uint64(ms))), "id": ints(le64(uint64(id))),
		"state": ints(le64(uint64(state))), "workers": ints(le64(uint64(workers))), "failed": p.Gauges.Failed})
}

var fresh atomic.Bool

func init() { fresh.Store(true) }

// emptyPerf: a new performance histogram has six empty histograms of its own.
func emptyPerf(p *events.PerformanceHDR, g events.PerformanceGauges) {
	if p.Gauges != g {
		panic("the gauges of a new performance histogram are others")
	}
	hs := []*dthist.Histogram{p.Counters.Number, p.Counters.Operations, p.Counters.Size, p.Counters.Errors, p.Timers.Duration, p.Timers.Total}
	for i, h := range hs {
		if h.TotalCount() != 0 {
			panic("a new performance histogram is not empty")
		}
		if err := h.RecordValue(1000); err != nil {
			panic(err)
		}
		for _, o := range hs[i+1:] {
			if o.TotalCount() != 0 {
				panic("the histograms of a new performance histogram are shared")
			}
		}
	}
}

func recHistogram(r *Run) {
	g := newGen(r.Seed)
	if r.In != "" {
		r.each(func(line []byte) {
			var s struct {
				Lo, Hi, Fig int64
				Rec         [][]int64
			}
			mustJSON(line, &s)
			c := &histCase{Lo: s.Lo, Hi: s.Hi, Fig: s.Fig}
			for _, x := range s.Rec {
				c.Rec = append(c.Rec, histRec{V: x[0], N: x[1]})
			}
			r.recHistForms(c)
			r.count-- // each counts the line as well
		})
		return
	}
	for range r.N {
		switch k := g.pick(10); {
		case k == 0:
			r.recPerf(g)
		case k < 4:
			r.recHistForms(g.hist(false))
		default:
			h := r.recHist(g.hist(true))
			es, text := g.damage(h)
			if k < 7 {
				b := []byte(text)
				if g.pick(6) == 0 {
					b = b[:g.pick(len(b))]
				}
				r.recHistRead("json", nil, b)
				continue
			}
			b := refEncode(es)
			if g.pick(6) == 0 { // and its bytes as well
				i := g.pick(len(b))
				switch g.pick(3) {
				case 0:
					b = b[:i]
				case 1:
					b[i] ^= byte(1 + g.pick(255))
				case 2:
					b = b[:len(b)-1]
					binary.LittleEndian.PutUint32(b, uint32(len(b)))
				}
				r.recHistRead("bytes", nil, b)
				continue
			}
			r.recHistRead("bson", es, b)
		}
	}
}

var _ = birch.DC
