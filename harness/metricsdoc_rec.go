package main

import (
	"fmt"
	"math"
	"os/user"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc/metrics"
)

func init() { recorders["metricsdoc"] = recMetricsDoc }

type fields map[string][]int

// fillFields gives every number and string of a record a value of its own.
func fillFields(g *Gen, v reflect.Value) fields {
	out := fields{}
	for i := range v.NumField() {
		f, name := v.Field(i), v.Type().Field(i).Name
		if !f.CanSet() {
			continue
		}
		n := g.i64()
		if g.pick(3) == 0 {
			n = int64(g.pick(1 << 20))
		}
		switch f.Kind() {
		case reflect.Uint64, reflect.Uint32, reflect.Uint:
			f.SetUint(uint64(n))
			n = int64(f.Uint())
		case reflect.Int64, reflect.Int32, reflect.Int:
			f.SetInt(n)
			n = f.Int()
		case reflect.Float64:
			x := g.f64()
			if v.Type().Name() == "VirtualMemoryStat" {
				n = int64(g.pick(101))
				x = float64(n)
			} else {
				n = int64(math.Float64bits(x))
			}
			f.SetFloat(x)
		case reflect.String:
			s := strings.ToValidUTF8(string(g.str()), "é")
			f.SetString(s)
			out[name] = ints([]byte(s))
			continue
		case reflect.Struct:
			if f.Type() == reflect.TypeOf(time.Time{}) {
				ms := g.goodDate()
				f.Set(reflect.ValueOf(time.UnixMilli(ms).UTC()))
				out[name] = ints(le64(uint64(ms)))
			}
			continue
		default:
			continue
		}
		out[name] = ints(le64(uint64(n)))
	}
	return out
}

// fillRows makes a slice of a few records.
func fillRows(g *Gen, ptr any, n int) []fields {
	v := reflect.ValueOf(ptr).Elem()
	out := []fields{}
	v.Set(reflect.MakeSlice(v.Type(), n, n))
	for i := range n {
		out = append(out, fillFields(g, v.Index(i)))
	}
	return out
}

func fillOf(g *Gen, ptr any) fields { return fillFields(g, reflect.ValueOf(ptr).Elem()) }

func fillSystem(g *Gen) (*metrics.SystemInfo, map[string]any) {
	s := &metrics.SystemInfo{}
	return s, map[string]any{"f": fillOf(g, s), "cpu": fillOf(g, &s.CPU), "vm": fillOf(g, &s.VMStat), "net": []fields{fillOf(g, &s.NetStat)},
		"usage": fillRows(g, &s.Usage, g.pick(3)), "io": fillRows(g, &s.IOStat, g.pick(3)), "parts": fillRows(g, &s.Partitions, g.pick(3))}
}

func fillProcess(g *Gen) (*metrics.ProcessInfo, map[string]any) {
	s := &metrics.ProcessInfo{}
	return s, map[string]any{"f": fillOf(g, s), "cpu": fillOf(g, &s.CPU), "io": []fields{fillOf(g, &s.IoStat)}, "mem": fillOf(g, &s.Memory),
		"ext": fillOf(g, &s.MemoryPlatform), "net": fillRows(g, &s.NetStat, g.pick(3))}
}

type docStep struct {
	N     string `json:"n"`
	S     any    `json:"s"`
	Panic string `json:"panic"`
	Err   string `json:"err"`
	D     []ME   `json:"d"`
}

func recMetricsDocument(r *Run, g *Gen) {
	s := docStep{N: []string{"golang", "system", "process", "runtime"}[g.pick(4)], D: []ME{}}
	var m birch.DocumentMarshaler
	switch s.N {
	case "golang":
		x := &metrics.GoRuntimeInfo{}
		s.S, m = fillOf(g, x), x
	case "system":
		x, f := fillSystem(g)
		s.S, m = f, x
	case "process":
		x, f := fillProcess(g)
		s.S, m = f, x
	default:
		x := &metrics.Runtime{}
		f := map[string]any{"f": fillOf(g, x), "golang": []any{}, "system": []any{}, "process": []any{}}
		if g.pick(2) == 0 {
			x.Golang = &metrics.GoRuntimeInfo{}
			f["golang"] = []any{fillOf(g, x.Golang)}
		}
		if g.pick(2) == 0 {
			n, e := fillSystem(g)
			x.System, f["system"] = n, []any{e}
		}
		if g.pick(2) == 0 {
			n, e := fillProcess(g)
			x.Process, f["process"] = n, []any{e}
		}
		s.S, m = f, x
	}
	r.Begin(s)
	s.Panic = try(func() {
		d, err := m.MarshalDocument()
		s.Err = errText(err)
		if err == nil {
			s.D = append(s.D, obsDoc(d)...)
		}
	})
	r.Emit(map[string]any{"steps": []docStep{s}})
	r.Done()
}

type counters map[string]int64

func (c counters) less(base counters) counters {
	out := counters{}
	for k, v := range c {
		out[k] = v - base[k]
	}
	return out
}

type collStep struct {
	N     string           `json:"n"`
	Panic string           `json:"panic"`
	B     counters         `json:"b"`
	A     counters         `json:"a"`
	V     counters         `json:"v"`
	Vs    []counters       `json:"vs"`
	G     map[string]int64 `json:"g"`
	NS    int64            `json:"ns"`
	Names bool             `json:"names"`
	Pos   counters         `json:"pos"`
}

func readCounters() (counters, *runtime.MemStats) {
	m := &runtime.MemStats{}
	runtime.ReadMemStats(m)
	return counters{"mallocs": int64(m.Mallocs), "frees": int64(m.Frees), "gc": int64(m.NumGC), "cgo": runtime.NumCgoCall()}, m
}

func infoCounters(i *metrics.GoRuntimeInfo) counters {
	return counters{"mallocs": i.Mallocs, "frees": i.Frees, "gc": i.GC, "cgo": i.CgoCalls}
}

var basicNames = []string{"cgo.calls", "gc.pause.duration.span", "gc.pause.duration.string", "gc.pause.last.span", "gc.pause.last.string", "gc.rate", "goroutines.total",
	"memory.counters.frees", "memory.counters.mallocs", "memory.heap.Idle", "memory.heap.InUse", "memory.objects.heap", "memory.summary.alloc", "memory.summary.system"}

var allocated [][]byte

func recCollections(r *Run, g *Gen) {
	steps := []*collStep{}
	base, _ := readCounters()
	last := time.Now()
	hold := make(chan struct{})
	defer close(hold)
	for i := range 3 + g.pick(10) {
		s := &collStep{N: []string{"total", "delta", "delta", "rate", "basic", "par"}[g.pick(6)], V: counters{}, Vs: []counters{}, Pos: counters{"mallocs": 0, "frees": 0, "gc": 0, "cgo": 0}, G: map[string]int64{}, NS: 1}
		if i == 0 {
			s.N = "total"
		}
		r.Begin(map[string]any{"steps": steps, "next": s.N})
		for range g.pick(500) {
			allocated = append(allocated, make([]byte, 1+g.pick(100)))
		}
		if g.pick(3) == 0 {
			allocated = nil
			runtime.GC()
		}
		if g.pick(3) == 0 {
			go func() { <-hold }()
			runtime.Gosched()
		}
		for range g.pick(3) {
			user.LookupId("0") // calls C where the package is built with it
		}
		b, _ := readCounters()
		begun := time.Now()
		gob := int64(runtime.NumGoroutine())
		if ns := int64(time.Since(last)); ns > 0 && ns < 1<<30 {
			s.NS = ns
		}
		var info *metrics.GoRuntimeInfo
		s.Panic = try(func() {
			switch s.N {
			case "total":
				if info = metrics.CollectGoStatsTotals(); g.pick(2) == 0 {
					info = metrics.CollectGoStatsCurrent("")
				}
			case "delta":
				info = metrics.CollectGoStatsDeltas()
			case "rate":
				info = metrics.CollectGoStatsRates()
			case "basic":
				names := []string{}
				all := metrics.CollectBasicGoStats()
				for k := range all {
					names = append(names, k)
				}
				for k, name := range map[string]string{"mallocs": "memory.counters.mallocs", "frees": "memory.counters.frees", "gc": "gc.rate", "cgo": "cgo.calls"} {
					rate, ok := all[name].(float64)
					if !ok || rate < 0 || rate*float64(s.NS) > 1<<30 {
						panic(fmt.Sprint(name, " is ", all[name]))
					}
					s.V[k] = int64(rate * float64(s.NS) * 0.999) // for the rounding of the quotient
					if s.Pos[k] = 0; rate > 0 {
						s.Pos[k] = 1
					}
				}
				sort.Strings(names)
				s.Names = sameJSON(names, basicNames)
			case "par":
				var wg sync.WaitGroup
				var mtx sync.Mutex
				for range 2 + g.pick(4) {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for range 3 {
							v := infoCounters(metrics.CollectGoStatsDeltas())
							mtx.Lock()
							s.Vs = append(s.Vs, v)
							mtx.Unlock()
						}
					}()
				}
				wg.Wait()
			}
		})
		last = time.Now()
		goa := int64(runtime.NumGoroutine())
		a, m := readCounters()
		s.B, s.A = b.less(base), a.less(base)
		if info != nil {
			s.V = infoCounters(info)
			s.G = map[string]int64{"objects": int64(info.HeapObjects) - base["mallocs"] + base["frees"], "sys": int64(info.HeapSystem) / 4096, "idle": int64(info.HeapIdle) / 4096,
				"used": int64(info.HeapInUse) / 4096, "goroutines": info.Goroutines, "gob": gob, "goa": goa, "pause": min(int64(info.GCPause), 1<<30), "lastpause": min(int64(m.PauseNs[(m.NumGC+255)%256]), 1<<30)}
			// the time since the last collection of garbage, in milliseconds
			s.G["latency"], s.G["latlo"], s.G["lathi"] = 0, 0, 0
			if since := begun.Sub(time.Unix(0, int64(m.LastGC))).Milliseconds(); m.LastGC > 0 && since >= 0 && since < 1<<30 {
				took := time.Since(begun).Milliseconds()
				s.G["latency"], s.G["latlo"], s.G["lathi"] = min(max(info.GCLatency.Milliseconds(), -1<<30), 1<<30), since-100, since+took+100
			}
			if s.N == "total" {
				s.V = s.V.less(base)
			}
		}
		steps = append(steps, s)
	}
	r.Emit(map[string]any{"steps": steps})
	r.Done()
}

func recMetricsDoc(r *Run) {
	g := newGen(r.Seed)
	for i := range r.N {
		if i%2 == 0 {
			recMetricsDocument(r, g)
		} else {
			recCollections(r, g)
		}
	}
}
