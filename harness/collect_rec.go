package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime/pprof"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/metrics"
)

func init() { recorders["collect"] = recCollect }

type gatherOp struct {
	Op string `json:"op"`
	V  string `json:"v"`
}

type gatherScript struct {
	Mode string     `json:"mode"`
	Ops  []gatherOp `json:"ops"`
}

// gatherEvent is a step of the history of a collection.
type gatherEvent struct {
	E    string `json:"e"`
	ID   int    `json:"id"`
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Same bool   `json:"same"`
	Done bool   `json:"done"`
	Err  bool   `json:"err"`
}

type gatherCase struct {
	K        string         `json:"k"`
	Mode     string         `json:"mode"`
	Ev       []gatherEvent  `json:"ev"`
	Files    [][]int        `json:"files"`
	Bad      string         `json:"bad"`
	Returned bool           `json:"returned"`
	Panic    string         `json:"panic"`
	Leak     int            `json:"leak"`
	Fds      int            `json:"fds"`
	Late     bool           `json:"late"` // nothing was in a file long after the flush interval
	Calls    map[string]int `json:"calls"`
	Msg      string         `json:"msg"`
	label    string
	open     int
	stuck    bool
}

// lineOf is the JSON text of item i.
func lineOf(i int, kind string, g *Gen) string {
	switch kind {
	case "a":
		return fmt.Sprintf(`{"id":%d,"x":%d}`, i, i*3)
	case "b":
		return fmt.Sprintf(`{"id":%d,"y":{"z":[%d,7],"w":true},"s":"str"}`, i, 1000-i)
	case "c":
		return fmt.Sprintf(`{ "id" : %d }`, i)
	case "d":
		return fmt.Sprintf(`{"id":%d,"x":%d,"name":"d","big":%d}`, i, -i, int64(i)<<33)
	case "long":
		return fmt.Sprintf(`{"id":%d,"pad":"%s"}`, i, strings.Repeat("x", 66000+g.pick(70000)))
	case "blank":
		return ""
	case "bad":
		return []string{`{"id":`, `nope`, `{"id":1}}`, `{"id":1 "x":2}`, `{id:1}`, `{"id":1`}[g.pick(6)]
	}
	panic("harness: line " + kind)
}

// plain turns a document into what encoding/json makes of its JSON text.
func plain(d *birch.Document) any {
	b, err := d.MarshalJSON()
	if err != nil {
		return err.Error()
	}
	var v any
	if err := json.Unmarshal(b, &v); err != nil {
		return err.Error()
	}
	return v
}

// metricsOf leaves out what is not a metric.
func metricsOf(v any) any {
	switch v := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, e := range v {
			if _, ok := e.(string); !ok {
				out[k] = metricsOf(e)
			}
		}
		return out
	case []any:
		out := []any{}
		for _, e := range v {
			if _, ok := e.(string); !ok {
				out = append(out, metricsOf(e))
			}
		}
		return out
	}
	return v
}

// feed is a source whose lines come when the script says so.
type feed struct {
	ch  chan []byte
	buf []byte
	end error
}

func (f *feed) Read(p []byte) (int, error) {
	for len(f.buf) == 0 {
		b, ok := <-f.ch
		if !ok {
			if f.end == nil {
				panic("the source panics")
			}
			return 0, f.end
		}
		f.buf = b
	}
	n := copy(p, f.buf)
	f.buf = f.buf[n:]
	return n, nil
}

// readFiles reads prefix.0, prefix.1, ...: the items they hold.
func readFiles(dir, prefix string, item func(*birch.Document) int) (files [][]int, bad string) {
	names, err := os.ReadDir(dir)
	if err != nil {
		return nil, err.Error()
	}
	count := 0
	for _, n := range names {
		if strings.HasPrefix(n.Name(), prefix+".") {
			count++
		}
	}
	files = [][]int{}
	for i := range count {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("%s.%d", prefix, i)))
		if err != nil {
			return files, "a file is missing: " + err.Error()
		}
		ids := []int{}
		it := ftdc.ReadStructuredMetrics(bytes.NewReader(b))
		for doc := range it.Iterator() {
			ids = append(ids, item(doc))
		}
		if err := it.Close(); err != nil {
			return files, err.Error()
		}
		files = append(files, ids)
	}
	return files, ""
}

// stale puts a file of an earlier collection where the first file will be.
func stale(dir string) []byte {
	c := ftdc.NewDynamicCollector(100)
	for i := range 200 {
		if err := c.Add(birch.DC.Elements(birch.EC.Int("id", -1-i), birch.EC.Int(fmt.Sprint("k", i/3), i))); err != nil {
			panic("harness: " + err.Error())
		}
	}
	b, err := c.Resolve()
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := os.WriteFile(filepath.Join(dir, "out.0"), b, 0o600); err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

// unstale removes the file of the earlier collection if it was not replaced.
func unstale(dir string, old []byte) {
	name := filepath.Join(dir, "out.0")
	if b, err := os.ReadFile(name); err == nil && bytes.Equal(b, old) {
		os.Remove(name)
	}
}

func openFiles(dir string) int {
	fds, _ := os.ReadDir("/proc/self/fd")
	n := 0
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(to, dir+"/") {
			n++
		}
	}
	return n
}

// running counts the goroutines that a collection started and that still run.
func running(label string) int {
	buf := &bytes.Buffer{}
	pprof.Lookup("goroutine").WriteTo(buf, 1)
	n := 0
	for _, part := range strings.Split(buf.String(), "\n\n") {
		if strings.Contains(part, `"case":"`+label+`"`) {
			k := 0
			fmt.Sscanf(part, "%d", &k)
			if k == 0 {
				k = 1
			}
			n += k
		}
	}
	return n
}

func flatLen(files [][]int) int {
	n := 0
	for _, f := range files {
		n += len(f)
	}
	return n
}

func prefixOf(a, b [][]int) bool {
	return len(a) <= len(b) && reflect.DeepEqual(a, b[:len(a)])
}

// gatherLines runs one collection of JSON lines.
func gatherLines(s gatherScript, g *Gen, dir, label string) *gatherCase {
	c := &gatherCase{K: "run", Mode: s.Mode, label: label, Ev: []gatherEvent{}, Calls: map[string]int{}}
	want := map[int]any{}
	item := func(d *birch.Document) int {
		got := plain(d)
		m, ok := got.(map[string]any)
		if !ok {
			return -1
		}
		id, ok := m["id"].(float64)
		if !ok || !reflect.DeepEqual(want[int(id)], metricsOf(got)) {
			return -1
		}
		return int(id)
	}
	settles := false
	for _, o := range s.Ops {
		settles = settles || o.Op == "settle"
	}
	opts := metrics.CollectJSONOptions{
		OutputFilePrefix: filepath.Join(dir, "out"),
		SampleCount:      []int{1, 2, 3, 1000}[g.pick(4)],
		FlushInterval:    []time.Duration{4 * time.Millisecond, 15 * time.Millisecond, time.Hour}[g.pick(3)],
	}
	if settles {
		opts.FlushInterval = time.Duration(3+g.pick(10)) * time.Millisecond
	}
	src := &feed{ch: make(chan []byte, 10000), end: io.EOF}
	file := filepath.Join(dir, "src")
	var out *os.File
	nl := "\n"
	if g.pick(4) == 0 {
		nl = "\r\n"
	}
	write := func(b []byte) {
		if out != nil {
			if _, err := out.Write(b); err != nil {
				panic("harness: " + err.Error())
			}
		} else {
			src.ch <- b
		}
	}
	if s.Mode == "reader" {
		opts.InputSource = src
	} else {
		opts.FileName, opts.Follow = file, s.Mode == "follow"
		var err error
		if out, err = os.Create(file); err != nil {
			panic("harness: " + err.Error())
		}
	}
	var old []byte
	if !settles && g.pick(4) == 0 {
		old = stale(dir)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := make(chan struct{})
	var err error
	start := func() {
		go pprof.Do(ctx, pprof.Labels("case", label), func(ctx context.Context) {
			defer close(done)
			c.Panic = try(func() { err = metrics.CollectJSONStream(ctx, opts) })
		})
	}
	ended := func() bool {
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
	started := false
	begin := func() {
		if !started {
			started = true
			start()
		}
	}
	// some lines may be in a followed file before it is followed, but the
	// last of them is seen only when the file is written to
	before := 0
	if s.Mode == "follow" && g.pick(2) == 0 {
		before = g.pick(3)
	}
	if s.Mode == "reader" || before == 0 && s.Mode == "follow" {
		begin()
		if s.Mode == "follow" {
			time.Sleep(25 * time.Millisecond) // the file is being watched
		}
	}
	given := 0
	for i, o := range s.Ops {
		switch o.Op {
		case "give":
			given++
			if s.Mode == "follow" && !started && given > before {
				begin()
				time.Sleep(25 * time.Millisecond)
			}
			text := lineOf(given, o.V, g)
			if o.V != "bad" && o.V != "blank" {
				var v any
				mustJSON([]byte(text), &v)
				want[given] = metricsOf(v)
			}
			c.Ev = append(c.Ev, gatherEvent{E: "give", ID: given, Kind: o.V})
			text += nl
			if s.Mode != "follow" && o.V != "blank" && o.V != "bad" && i == len(s.Ops)-2 && s.Ops[i+1].V == "eof" && g.pick(3) == 0 {
				text = strings.TrimRight(text, "\r\n") // the last line need not end
			}
			if g.pick(3) == 0 && len(text) > 1 && len(text) < 1000 {
				k := 1 + g.pick(len(text)-1)
				write([]byte(text[:k]))
				if s.Mode != "file" {
					time.Sleep(time.Duration(g.pick(4)) * time.Millisecond)
				}
				write([]byte(text[k:]))
			} else {
				write([]byte(text))
			}
		case "settle":
			if s.Mode == "follow" && !started {
				begin()
				time.Sleep(25 * time.Millisecond)
			}
			deadline := time.Now().Add(8 * time.Second)
			n := 0
			for _, k := range c.Ev {
				if k.E == "give" && k.Kind != "blank" {
					n++
				}
			}
			var files [][]int
			for time.Now().Before(deadline) && !ended() {
				files, _ = readFiles(dir, "out", item)
				if flatLen(files) >= n || (s.Mode == "follow" && given <= before) {
					break
				}
				time.Sleep(2 * time.Millisecond)
			}
			if !ended() && !time.Now().Before(deadline) {
				c.stuck = true
			}
			// what follows a document is looked at only when the next comes
			if kind := c.Ev[len(c.Ev)-1].Kind; !ended() && kind != "blank" && kind != "bad" && kind != "long" {
				c.Ev = append(c.Ev, gatherEvent{E: "settle", N: len(files), Done: given > before})
			}
		case "end":
			if s.Mode == "reader" {
				if o.V == "fail" {
					src.end = errors.New("the source failed")
					if g.pick(3) == 0 {
						src.end = nil
					} else if g.pick(3) == 0 {
						src.ch <- []byte(`{"id":99999,"par`)
					}
				}
				close(src.ch)
			} else {
				out.Close()
			}
			begin()
			c.Ev = append(c.Ev, gatherEvent{E: "end", Kind: o.V})
		case "cancel":
			begin()
			if g.pick(2) == 0 {
				time.Sleep(time.Duration(g.pick(12)) * time.Millisecond)
			}
			c.Ev = append(c.Ev, gatherEvent{E: "cancel"})
			cancel()
		}
	}
	select {
	case <-done:
		c.Returned = true
	case <-time.After(10 * time.Second):
	}
	c.Ev = append(c.Ev, gatherEvent{E: "ret", Err: err != nil})
	if err != nil {
		c.Msg = err.Error()
	}
	// a source that goes on after the collection has ended is left alone
	if s.Mode == "reader" && s.Ops[len(s.Ops)-1].Op == "cancel" {
		src.ch <- []byte("{\"id\":1}\n{\"id\":2}\n")
		src.ch <- []byte("{\"id\":3}\n")
		close(src.ch)
	}
	if out != nil {
		out.Close()
	}
	cancel()
	if old != nil {
		unstale(dir, old)
	}
	c.Files, c.Bad = readFiles(dir, "out", item)
	return c
}

// gatherSamples runs one collection of samples.
func gatherSamples(s gatherScript, g *Gen, dir, label string) *gatherCase {
	c := &gatherCase{K: "run", Mode: s.Mode, label: label, Ev: []gatherEvent{}, Calls: map[string]int{}}
	kinds := []string{}
	for _, o := range s.Ops {
		if o.Op == "give" {
			kinds = append(kinds, o.V)
		}
	}
	opts := metrics.CollectOptions{
		OutputFilePrefix:   filepath.Join(dir, "out"),
		SampleCount:        []int{10, 30, 50, 50000}[g.pick(4)],
		CollectionInterval: time.Millisecond,
		FlushInterval:      []time.Duration{2 * time.Millisecond, 10 * time.Millisecond, time.Hour}[g.pick(3)],
		SkipSystem:         true, SkipProcess: true,
		RunParallelCollectors: g.pick(2) == 0,
	}
	opts.SkipSystem = g.pick(4) != 0
	disks := 0
	var seen sync.Once
	var order []any
	if !opts.SkipSystem {
		disks = fakeDisks
	}
	names := []string{"beta", "alpha", "zeta", "sys", "mu", "nu", "xi", "pi", "rho", "tau", "phi"}[:1+g.pick(3)]
	if g.pick(4) == 0 {
		names = []string{"beta", "alpha", "zeta", "sys", "mu", "nu", "xi", "pi", "rho", "tau", "phi"}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var mu sync.Mutex
	odd := names[g.pick(len(names))]
	sampled := 0
	// the collection goes on until something is in the files
	wait := opts.FlushInterval < time.Hour && len(kinds) > 0 && g.pick(4) == 0 && !slices.Contains(kinds, "nil") && !slices.Contains(kinds, "panic")
	if wait && g.pick(2) == 0 { // few samples in an interval
		opts.CollectionInterval, opts.FlushInterval, opts.SampleCount = 20*time.Millisecond, 50*time.Millisecond, 50000
	}
	ready := make(chan struct{})
	var once sync.Once
	for _, name := range names {
		opts.Collectors = append(opts.Collectors, metrics.CustomCollector{Name: name, Operation: func(context.Context) *birch.Document {
			mu.Lock()
			c.Calls[name]++
			k := c.Calls[name]
			kind := "a"
			if k <= len(kinds) {
				kind = kinds[k-1]
			}
			if k >= len(kinds) && name == odd {
				if wait {
					once.Do(func() { close(ready) })
				} else {
					cancel()
				}
			}
			if k > sampled {
				sampled = k
			}
			mu.Unlock()
			if name == odd {
				switch kind {
				case "b":
					return birch.DC.Elements(birch.EC.Int("n", k), birch.EC.Int("other", 2*k))
				case "nil":
					return nil
				case "panic":
					panic("the collector panics")
				}
			}
			return birch.DC.Elements(birch.EC.Int("n", k))
		}})
	}
	item := func(d *birch.Document) int {
		m, ok := plain(d).(map[string]any)
		if !ok || len(m) != len(names)+1 {
			return -1
		}
		rt, ok := m["runtime"].(map[string]any)
		if !ok {
			return -1
		}
		id, ok := rt["id"].(float64)
		if !ok || rt["pid"] != float64(os.Getpid()) || rt["golang"] == nil || rt["ts"] == nil {
			return -1
		}
		if disks > 0 { // the disks keep their places
			sys, _ := rt["system"].(map[string]any)
			io, _ := sys["iostat"].([]any)
			if len(io) != disks {
				return -1
			}
			seen.Do(func() { order = io })
			if !reflect.DeepEqual(order, io) {
				return -1
			}
		} else if len(rt) != 4 {
			return -1
		}
		k := int(id) + 1
		for _, name := range names {
			want := map[string]any{"n": float64(k)}
			if name == odd && k <= len(kinds) {
				switch kinds[k-1] {
				case "b":
					want["other"] = float64(2 * k)
				case "nil":
					want = map[string]any{}
				}
			}
			if got, _ := m[name].(map[string]any); !reflect.DeepEqual(got, want) && !(len(want) == 0 && len(got) == 0) {
				return -1
			}
		}
		return k
	}
	if g.pick(4) == 0 {
		stale(dir)
	}
	done := make(chan struct{})
	var err error
	go pprof.Do(ctx, pprof.Labels("case", label), func(ctx context.Context) {
		defer close(done)
		c.Panic = try(func() { err = metrics.CollectRuntime(ctx, opts) })
	})
	if len(kinds) == 0 {
		time.Sleep(time.Duration(g.pick(4)) * time.Millisecond)
		cancel()
	}
	if wait {
		select {
		case <-done:
		case <-ready:
			c.Late = true
			for deadline := time.Now().Add(8 * time.Second); c.Late && time.Now().Before(deadline); time.Sleep(2 * time.Millisecond) {
				_, more := os.Stat(filepath.Join(dir, "out.1"))
				if more == nil {
					if files, _ := readFiles(dir, "out", func(*birch.Document) int { return 0 }); len(files) > 1 && len(files[0]) > 0 {
						c.Late = false
					}
				}
				select {
				case <-done:
					c.Late = false
				default:
				}
			}
			cancel()
		case <-time.After(8 * time.Second):
			cancel()
		}
	}
	select {
	case <-done:
		c.Returned = true
	case <-time.After(8 * time.Second):
		cancel()
	}
	c.open = openFiles(dir)
	c.Files, c.Bad = readFiles(dir, "out", item)
	if k := len(c.Files); k > 0 && len(c.Files[k-1]) == 0 {
		c.Files = c.Files[:k-1] // the file that was ready for the next samples
	}
	mu.Lock()
	defer mu.Unlock()
	for i := range max(sampled, 0) {
		kind := "a"
		if i < len(kinds) {
			kind = kinds[i]
		}
		c.Ev = append(c.Ev, gatherEvent{E: "give", ID: i + 1, Kind: kind})
	}
	if len(kinds) == 0 { // how many samples were taken is not known
		for _, f := range c.Files {
			for range f {
				if len(c.Ev) < flatLen(c.Files) {
					c.Ev = append(c.Ev, gatherEvent{E: "give", ID: len(c.Ev) + 1, Kind: "a"})
				}
			}
		}
	}
	c.Ev = append(c.Ev, gatherEvent{E: "cancel"})
	if err != nil {
		c.Msg = err.Error()
	}
	c.Ev = append(c.Ev, gatherEvent{E: "ret", Err: err != nil || c.Panic != ""})
	if c.Panic != "" && (!opts.RunParallelCollectors || slices.Contains(kinds, "nil")) {
		c.Panic = "" // the caller's own panic
	}
	calls := map[string]int{}
	for k, v := range c.Calls {
		calls[k] = v
	}
	c.Calls = calls
	return c
}

const fakeDisks = 6

// fakeProc is what the system says of itself in these runs.
func fakeProc(dir string) {
	disk := ""
	for i := range fakeDisks {
		disk += fmt.Sprintf("   8      %d sd%c %d 2 3 4 5 6 7 8 9 10 11\n", i, 'f'-i, 100*(i+1))
	}
	for name, text := range map[string]string{
		"diskstats":   disk,
		"stat":        "cpu  10 20 30 40 50 60 70 80 90 100\ncpu0 10 20 30 40 50 60 70 80 90 100\nbtime 1700000000\n",
		"meminfo":     "MemTotal:       32000000 kB\nMemFree:        10000000 kB\nMemAvailable:   20000000 kB\nBuffers:          100 kB\nCached:           200 kB\n",
		"net/dev":     "Inter-|   Receive                                                |  Transmit\n face |bytes    packets errs drop fifo frame compressed multicast|bytes    packets errs drop fifo colls carrier compressed\n    lo:     100       2    0    0    0     0          0         0      300       4    0    0    0     0       0          0\n",
		"filesystems": "nodev\tproc\n\text4\n",
		"1/mountinfo": "",
		"1/mounts":    "",
	} {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic("harness: " + err.Error())
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
	}
	os.Setenv("HOST_PROC", dir)
}

func (g *Gen) gatherScript() gatherScript {
	s := gatherScript{Mode: []string{"reader", "reader", "file", "follow", "samples"}[g.pick(5)]}
	n := g.pick(14)
	kinds := []string{"a", "a", "a", "b", "b", "c", "d"}
	if s.Mode == "samples" {
		n = 1 + g.pick(40)
		kinds = []string{"a", "a", "a", "a", "b"}
	}
	odd := g.pick(3) == 0
	k := kinds[g.pick(len(kinds))]
	for range n {
		if g.pick(3) == 0 {
			k = kinds[g.pick(len(kinds))]
		}
		kind := k
		if odd && g.pick(8) == 0 {
			if s.Mode == "samples" {
				kind = []string{"nil", "panic"}[g.pick(2)]
			} else {
				kind = []string{"bad", "long", "blank"}[g.pick(3)]
			}
		}
		s.Ops = append(s.Ops, gatherOp{"give", kind})
		if (s.Mode == "reader" || s.Mode == "follow") && g.pick(6) == 0 {
			s.Ops = append(s.Ops, gatherOp{"settle", ""})
		}
	}
	switch {
	case s.Mode == "reader" && g.pick(5) == 0:
		s.Ops = append(s.Ops, gatherOp{"end", "fail"})
	case s.Mode == "reader" && g.pick(4) != 0 || s.Mode == "file":
		s.Ops = append(s.Ops, gatherOp{"end", "eof"})
	default:
		if s.Mode == "follow" && len(s.Ops) > 0 && s.Ops[len(s.Ops)-1].Op != "settle" {
			s.Ops = append(s.Ops, gatherOp{"settle", ""})
		}
		s.Ops = append(s.Ops, gatherOp{"cancel", ""})
	}
	return s
}

func recCollect(r *Run) {
	g := newGen(r.Seed)
	root, err := os.MkdirTemp("", "verif-collect-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(root)
	fakeProc(filepath.Join(root, "proc"))
	var scripts []gatherScript
	if r.In != "" {
		r.each(func(line []byte) {
			var s gatherScript
			mustJSON(line, &s)
			scripts = append(scripts, s)
		})
		r.count = 0
	} else {
		for range r.N {
			scripts = append(scripts, g.gatherScript())
		}
	}
	const batch = 64
	for lo := 0; lo < len(scripts); lo += batch {
		hi := min(lo+batch, len(scripts))
		cases := make([]*gatherCase, hi-lo)
		r.Begin(map[string]any{"k": "collect", "scripts": scripts[lo:hi]})
		var wg sync.WaitGroup
		next := make(chan int, batch)
		for i := lo; i < hi; i++ {
			next <- i
		}
		close(next)
		seeds := make([]int64, hi-lo)
		for i := range seeds {
			seeds[i] = int64(g.pick(1 << 30))
		}
		for range 10 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range next {
					dir := filepath.Join(root, fmt.Sprint(i))
					if err := os.Mkdir(dir, 0o755); err != nil {
						panic("harness: " + err.Error())
					}
					gg := newGen(seeds[i-lo])
					if scripts[i].Mode == "samples" {
						cases[i-lo] = gatherSamples(scripts[i], gg, dir, fmt.Sprint("c", i))
					} else {
						cases[i-lo] = gatherLines(scripts[i], gg, dir, fmt.Sprint("c", i))
					}
				}
			}()
		}
		wg.Wait()
		stuck := 0
		for i, c := range cases {
			dir := filepath.Join(root, fmt.Sprint(lo+i))
			for deadline := time.Now().Add(2 * time.Second); ; time.Sleep(5 * time.Millisecond) {
				c.Leak, c.Fds = running(c.label), openFiles(dir)+c.open
				if c.Leak == 0 && c.Fds == c.open || time.Now().After(deadline) {
					break
				}
			}
			if c.stuck || c.Late || !c.Returned || c.Leak != 0 || c.Fds != c.open {
				stuck++
			}
			r.Emit(c)
			os.RemoveAll(dir)
		}
		r.Done()
		if stuck >= 6 {
			break // what is recorded says enough, and every further case takes seconds
		}
	}
}
