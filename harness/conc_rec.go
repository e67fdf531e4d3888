package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

func init() { recorders["conc"] = recConc }

// concEvent is one observable moment of a history.
type concEvent struct {
	E   string `json:"e"`
	T   int    `json:"t"`
	K   string `json:"k"`
	ID  int    `json:"id"`
	OK  bool   `json:"ok"`
	IDs []int  `json:"ids"`
	N   int    `json:"n"`
	M   int    `json:"m"`
}

type concLog struct {
	mu sync.Mutex
	ev []concEvent
}

func (l *concLog) add(e concEvent) {
	if e.IDs == nil {
		e.IDs = []int{}
	}
	l.mu.Lock()
	l.ev = append(l.ev, e)
	l.mu.Unlock()
}

// loggedCollector is the inner collector: it notes when it is used, waits at
// the gate inside Add, and refuses samples with a negative id.
type loggedCollector struct {
	ftdc.Collector
	log  *concLog
	gate chan struct{}
}

func sampleID(in any) int {
	switch x := in.(type) {
	case *birch.Document:
		return int(x.Lookup("id").Int64())
	case []byte:
		d, err := birch.ReadDocument(x)
		if err != nil {
			panic(err)
		}
		return int(d.Lookup("id").Int64())
	case map[string]any:
		return int(x["id"].(int64))
	}
	panic("harness: unexpected sample")
}

func (c *loggedCollector) Add(in any) error {
	id := sampleID(in)
	k := "add"
	if id < 0 {
		k, id = "bad", -id
	}
	c.log.add(concEvent{E: "ib", K: k, ID: id})
	<-c.gate
	var err error
	if k == "bad" {
		err = errors.New("refused")
	} else {
		err = c.Collector.Add(in)
	}
	if id2 := sampleID(in); id2 != id && id2 != -id {
		id = id2 // changed while it was being added
	}
	c.log.add(concEvent{E: "ie", K: k, ID: id})
	return err
}

func (c *loggedCollector) SetMetadata(in any) error {
	id := int(in.(*birch.Document).Lookup("m").Int64())
	c.log.add(concEvent{E: "ib", K: "meta", ID: id})
	defer c.log.add(concEvent{E: "ie", K: "meta", ID: id})
	return c.Collector.SetMetadata(in)
}

func (c *loggedCollector) Info() ftdc.CollectorInfo {
	c.log.add(concEvent{E: "ib", K: "info"})
	defer c.log.add(concEvent{E: "ie", K: "info"})
	return c.Collector.Info()
}

func (c *loggedCollector) Reset() {
	c.log.add(concEvent{E: "ib", K: "reset"})
	defer c.log.add(concEvent{E: "ie", K: "reset"})
	c.Collector.Reset()
}

func (c *loggedCollector) Resolve() ([]byte, error) {
	c.log.add(concEvent{E: "ib", K: "resolve"})
	defer c.log.add(concEvent{E: "ie", K: "resolve"})
	return c.Collector.Resolve()
}

type concCase struct {
	Kind  string   `json:"kind"`
	Size  int      `json:"size"`
	Alone bool     `json:"alone"`
	Cmds  []string `json:"cmds"`
	Pause []int    `json:"-"` // microseconds before each command
}

var hangs atomic.Int32

const concThreads = 4

func resolvedIDs(data []byte) (ids []int, m int, ok bool) {
	it := ftdc.ReadChunks(bytes.NewReader(data))
	for c := range it.Iterator() {
		if md := c.Metadata(); md != nil {
			m = int(md.Lookup("doc").MutableDocument().Lookup("m").Int64())
		}
		for _, mt := range c.Metrics {
			if mt.Key() == "id" {
				for _, v := range mt.Values {
					ids = append(ids, int(v))
				}
			}
		}
	}
	return ids, m, it.Close() == nil
}

// concRun drives one script and returns the history.
func concRun(c concCase, inner func() ftdc.Collector, form int) []concEvent {
	log := &concLog{}
	gate := make(chan struct{}, 1000)
	lc := &loggedCollector{Collector: inner(), log: log, gate: gate}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var coll ftdc.Collector
	switch {
	case c.Kind == "B" && c.Alone:
		coll = ftdc.NewBufferedCollector(ctx, c.Size, lc)
	case c.Kind == "B":
		coll = ftdc.NewBufferedCollector(ctx, c.Size, ftdc.NewSynchronizedCollector(lc))
	case c.Kind == "SB":
		coll = ftdc.NewSynchronizedCollector(ftdc.NewBufferedCollector(ctx, c.Size, lc))
	case c.Kind == "S":
		coll = ftdc.NewSynchronizedCollector(lc)
	}
	type call struct {
		k  string
		id int
	}
	work := make([]chan call, concThreads)
	free := make(chan int, concThreads)
	do := func(t int, x call) {
		log.add(concEvent{E: "inv", T: t + 1, K: x.k, ID: x.id})
		res := concEvent{E: "res", T: t + 1, K: x.k, OK: true, N: -1}
		switch x.k {
		case "add", "bad":
			id := int64(x.id)
			if x.k == "bad" {
				id = -id
			}
			d := birch.DC.Elements(birch.EC.Int64("id", id))
			switch (form + x.id) % 3 {
			case 0:
				res.OK = coll.Add(d) == nil
				d.Set(birch.EC.Int64("id", 999)) // the caller goes on using its document
			case 1:
				b, _ := d.MarshalBSON()
				res.OK = coll.Add(b) == nil
				b[8] ^= 64
			case 2:
				m := map[string]any{"id": id}
				res.OK = coll.Add(m) == nil
				m["id"] = int64(999)
			}
		case "meta":
			res.OK = coll.SetMetadata(birch.DC.Elements(birch.EC.Int64("m", int64(x.id)))) == nil
		case "resolve":
			data, err := coll.Resolve()
			res.OK = err == nil
			if err == nil {
				res.IDs, res.M, res.OK = resolvedIDs(data)
			}
		case "info":
			res.N = coll.Info().SampleCount
		case "reset":
			coll.Reset()
		}
		log.add(res)
		free <- t
	}
	for t := range work {
		work[t] = make(chan call, 1)
		free <- t
		go func() {
			for x := range work[t] {
				if p := try(func() { do(t, x) }); p != "" {
					log.add(concEvent{E: "panic " + p, T: t + 1})
					free <- t
				}
			}
		}()
		defer close(work[t])
	}
	opened := false
	next, outstandingOther := 0, false
	wait := func(n int) bool { // until n threads are free
		var got []int
		defer func() {
			for _, t := range got {
				free <- t
			}
		}()
		limit := time.After(10 * time.Second)
		for len(got) < n {
			select {
			case t := <-free:
				got = append(got, t)
			case <-limit:
				log.add(concEvent{E: "hang"})
				hangs.Add(1)
				return false
			}
		}
		return true
	}
	start := func(k string) {
		isAdd := k == "add" || k == "bad"
		if c.Alone && (!isAdd || outstandingOther) {
			// one caller at a time: the gate has to be open for the call to end
			if !isAdd && !opened {
				for i := 0; i < 20; i++ {
					select {
					case gate <- struct{}{}:
					default:
					}
				}
			}
			if !wait(concThreads) {
				return
			}
			outstandingOther = false
		}
		select {
		case t := <-free:
			next++
			id := next
			if k != "add" && k != "bad" && k != "meta" {
				id = 0
			}
			work[t] <- call{k, id}
			outstandingOther = !isAdd
		default:
		}
	}
	for i, k := range c.Cmds {
		if c.Pause[i] >= 0 {
			time.Sleep(time.Duration(c.Pause[i]) * time.Microsecond)
			runtime.Gosched()
		}
		switch k {
		case "gate":
			select {
			case gate <- struct{}{}:
			default:
			}
		case "cancel":
			log.add(concEvent{E: "cancel"})
			cancel()
		default:
			start(k)
		}
	}
	close(gate)
	opened = true
	if wait(concThreads) {
		for _, k := range []string{"resolve", "cancel", "add", "resolve", "info"} {
			if k == "cancel" {
				log.add(concEvent{E: "cancel"})
				cancel()
				continue
			}
			start(k)
			if !wait(concThreads) {
				break
			}
		}
	}
	log.mu.Lock()
	defer log.mu.Unlock()
	return append([]concEvent{}, log.ev...)
}

func recConc(r *Run) {
	g := newGen(r.Seed)
	inners := []func() ftdc.Collector{
		func() ftdc.Collector { return ftdc.NewBaseCollector(1000) },
		func() ftdc.Collector { return ftdc.NewDynamicCollector(3) },
		func() ftdc.Collector { return ftdc.NewBatchCollector(2) },
	}
	// several scripts at a time: they mostly wait
	type job struct {
		c     concCase
		inner int
		form  int
		ev    []concEvent
	}
	var jobs []job
	flush := func() {
		if hangs.Load() >= 3 { // enough to report
			jobs = jobs[:0]
			return
		}
		scripts := []concCase{}
		for _, j := range jobs {
			scripts = append(scripts, j.c)
		}
		r.Begin(map[string]any{"scripts": scripts})
		var wg sync.WaitGroup
		for i := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				jobs[i].ev = concRun(jobs[i].c, inners[jobs[i].inner], jobs[i].form)
			}()
		}
		wg.Wait()
		r.Done()
		for _, j := range jobs {
			r.Emit(map[string]any{"kind": j.c.Kind, "size": j.c.Size, "cmds": j.c.Cmds, "ev": j.ev})
		}
		jobs = jobs[:0]
	}
	add := func(c concCase, inner int) {
		jobs = append(jobs, job{c: c, inner: inner, form: g.pick(3)})
		if len(jobs) == 8 {
			flush()
		}
	}
	if r.In != "" {
		r.each(func(line []byte) {
			var c concCase
			if err := json.Unmarshal(line, &c); err != nil {
				panic("harness: " + err.Error())
			}
			for range c.Cmds {
				c.Pause = append(c.Pause, 100)
			}
			add(c, 0)
			r.count--
		})
		flush()
		return
	}
	kinds := []concCase{{Kind: "B"}, {Kind: "B", Alone: true}, {Kind: "SB"}, {Kind: "S"}}
	for i := 0; i < r.N; i++ {
		c := kinds[g.pick(len(kinds))]
		if c.Kind != "S" {
			c.Size = g.pick(4)
		}
		n := 3 + g.pick(8)
		canceled := c.Kind == "S" || g.pick(3) == 0
		for len(c.Cmds) < n {
			k := []string{"add", "add", "add", "add", "gate", "gate", "bad", "meta", "resolve", "info", "reset", "cancel"}[g.pick(12)]
			if k == "bad" && g.pick(3) > 0 {
				k = "add"
			}
			if k == "cancel" {
				if canceled {
					continue
				}
				canceled = true
			}
			c.Cmds = append(c.Cmds, k)
			c.Pause = append(c.Pause, []int{-1, -1, 0, 20, 100}[g.pick(5)])
		}
		inner := g.pick(len(inners))
		if slices.Contains(c.Cmds, "meta") && slices.Contains(c.Cmds, "reset") {
			inner = 0 // the others forget the metadata when they are reset
		}
		add(c, inner)
	}
	flush()
}
