package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tychoish/birch/x/mrpc"
	"github.com/tychoish/birch/x/mrpc/mongowire"
)

func init() { recorders["service"] = recService }

type svcStep struct {
	N    string `json:"n"`
	T    int    `json:"t"`
	Ctx  []int  `json:"ctx"`
	Cmd  []int  `json:"cmd"`
	H    int    `json:"h"`
	Do   string `json:"do"`
	C    int    `json:"c"`
	B    []int  `json:"b"`
	Want int    `json:"want"` // how many calls to wait for; decides nothing
	End  string `json:"end"`
	Cid  int    `json:"cid"`
	O    any    `json:"o"`
}

// svcConn is the client's end of a connection.
type svcConn struct {
	id   int
	conn net.Conn
	shut atomic.Bool
}

type svcRun struct {
	svc      mrpc.Service
	mu       sync.Mutex
	calls    []map[string]any
	ncalls   int
	npanics  int
	nwaits   int
	wrote    map[int]int // replies to come on a connection, and read from it
	read     map[int]int
	errs     int
	replies  []any
	released int
	conns    map[int]*svcConn
	all      []*svcConn
	addrs    map[string]int // local address of a client: its connection
	cancel   context.CancelFunc
	done     chan struct{}
	slow     *int32
}

// until waits for a condition, but not for ever.
func (s *svcRun) until(f func() bool) bool {
	limit := 5 * time.Second
	if atomic.LoadInt32(s.slow) > 10 {
		limit = 20 * time.Millisecond
	}
	for start := time.Now(); time.Since(start) < limit; time.Sleep(30 * time.Microsecond) {
		s.mu.Lock()
		ok := f()
		s.mu.Unlock()
		if ok {
			return true
		}
	}
	atomic.AddInt32(s.slow, 1)
	if os.Getenv("VH_DEBUG") != "" {
		debug.PrintStack()
	}
	return false
}

var nextPort int32

// freePort gives every script its own port, at a loopback address of this
// process, so that nothing else answers there.
func freePort() (string, int) {
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+pid>>16, pid>>8&255, pid&255), 10000 + int(atomic.AddInt32(&nextPort, 1))%20000
}

func (s *svcRun) handler(h int, do string) mrpc.HandlerFunc {
	if h == 0 {
		return nil
	}
	return func(ctx context.Context, w io.Writer, msg mongowire.Message) {
		call := map[string]any{"h": h, "c": 0, "rid": i4(msg.Header().RequestID), "op": int(msg.Header().OpCode),
			"scope": map[string]any{"t": 0, "ctx": []int{}, "cmd": []int{}}}
		if sc := msg.Scope(); sc != nil {
			call["scope"] = map[string]any{"t": int(sc.Type), "ctx": istr(sc.Context), "cmd": istr(sc.Command)}
		}
		try(func() { call["ser"] = ints(msg.Serialize()) })
		s.mu.Lock()
		if c, ok := w.(net.Conn); ok {
			call["c"] = s.addrs[c.RemoteAddr().String()]
		}
		s.calls = append(s.calls, call)
		s.ncalls++
		if do == "reply" {
			s.wrote[call["c"].(int)]++
		}
		if do == "panic" {
			s.npanics++
		}
		if do == "wait" {
			s.nwaits++
		}
		s.mu.Unlock()
		switch do {
		case "panic":
			panic(fmt.Sprintf("handler %d", h))
		case "wait":
			<-ctx.Done()
			s.mu.Lock()
			s.released++
			s.mu.Unlock()
		default:
			mongowire.SendMessage(ctx, mongowire.NewReply(int64(h), 0, msg.Header().RequestID, 0, nil), w)
		}
	}
}

func (s *svcRun) dial() *svcConn {
	conn, err := net.Dial("tcp", s.svc.Address())
	if err != nil {
		return nil
	}
	c := &svcConn{id: len(s.all) + 1, conn: conn}
	s.mu.Lock()
	s.all = append(s.all, c)
	s.addrs[conn.LocalAddr().String()] = c.id
	s.mu.Unlock()
	go func() {
		for {
			msg, err := mongowire.ReadMessage(context.Background(), conn)
			if err != nil {
				c.shut.Store(true)
				return
			}
			if r, ok := msg.(*mongowire.ReplyMessage); ok {
				s.mu.Lock()
				s.read[c.id]++
				s.replies = append(s.replies, []any{c.id, int(r.CursorId), i4(r.StartingFrom)})
				s.mu.Unlock()
			}
		}
	}()
	return c
}

// start runs the service; if its port was taken in the meantime it says so.
func (s *svcRun) start() (o map[string]any, taken bool) {
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel, s.done = cancel, make(chan struct{})
	failed := make(chan error, 1)
	go func() {
		err := s.svc.Run(ctx)
		failed <- err
		close(s.done)
	}()
	for start := time.Now(); time.Since(start) < 5*time.Second; time.Sleep(50 * time.Microsecond) {
		select {
		case err := <-failed:
			return map[string]any{"ok": false, "err": errText(err)}, err != nil
		default:
		}
		if c := s.dial(); c != nil {
			s.conns[1] = c
			s.conns[2] = s.dial()
			return map[string]any{"ok": s.conns[2] != nil, "err": ""}, false
		}
	}
	return map[string]any{"ok": false, "err": "no connection"}, false
}

func (s *svcRun) send(st *svcStep) map[string]any {
	c := s.conns[st.C]
	if c == nil || c.shut.Load() {
		if c = s.dial(); c == nil {
			return map[string]any{"errs": 0, "shut": true, "others": len(s.all)}
		}
		s.conns[st.C] = c
	}
	st.Cid = c.id
	before := map[*svcConn]bool{}
	for _, d := range s.all {
		before[d] = d.shut.Load()
	}
	s.mu.Lock()
	errs0, calls0, panics0 := s.errs, s.ncalls, s.npanics
	s.mu.Unlock()
	c.conn.Write(unints(st.B))
	if st.End == "cut" {
		s.until(func() bool { return s.ncalls-calls0 >= st.Want })
		c.conn.(*net.TCPConn).CloseWrite()
	}
	s.until(func() bool { return s.ncalls-calls0 >= st.Want })
	s.until(func() bool { return s.errs-errs0 >= s.npanics-panics0 })
	if st.End == "open" {
		s.until(func() bool { return c.shut.Load() || s.read[c.id] >= s.wrote[c.id] })
	}
	if st.End == "shut" || st.End == "cut" {
		s.until(func() bool { return c.shut.Load() && s.errs > errs0 })
	}
	time.Sleep(200 * time.Microsecond)
	others := 0
	for d, was := range before {
		if d != c && !was && d.shut.Load() {
			others++
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return map[string]any{"errs": s.errs - errs0, "shut": c.shut.Load(), "others": others}
}

// bye closes the client's side of a connection after whole messages.
func (s *svcRun) bye(st *svcStep) map[string]any {
	c := s.conns[st.C]
	if c == nil || c.shut.Load() {
		if c = s.dial(); c == nil {
			return map[string]any{"errs": 0, "shut": true, "others": 0}
		}
	}
	delete(s.conns, st.C)
	st.Cid = c.id
	s.until(func() bool { return s.errs >= s.npanics })
	before := map[*svcConn]bool{}
	for _, d := range s.all {
		before[d] = d.shut.Load()
	}
	s.mu.Lock()
	errs0 := s.errs
	s.mu.Unlock()
	c.conn.(*net.TCPConn).CloseWrite()
	s.until(func() bool { return c.shut.Load() })
	time.Sleep(300 * time.Microsecond)
	others := 0
	for d, was := range before {
		if d != c && !was && d.shut.Load() {
			others++
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return map[string]any{"errs": s.errs - errs0, "shut": c.shut.Load(), "others": others}
}

func (s *svcRun) finish() map[string]any {
	time.Sleep(time.Millisecond)
	s.cancel()
	o := map[string]any{"done": false, "refused": false, "open": 0}
	limit := 5 * time.Second
	if atomic.LoadInt32(s.slow) > 10 {
		limit = 50 * time.Millisecond
	}
	select {
	case <-s.done:
		o["done"] = true
	case <-time.After(limit):
		atomic.AddInt32(s.slow, 1)
	}
	s.until(func() bool {
		for _, c := range s.all {
			if !c.shut.Load() {
				return false
			}
		}
		return true
	})
	s.until(func() bool { return s.released >= s.nwaits })
	// the system may take a moment to close the socket
	s.until(func() bool {
		c, err := net.Dial("tcp", s.svc.Address())
		if err == nil {
			c.Close()
		}
		o["refused"] = err != nil
		return err != nil
	})
	open := 0
	for _, c := range s.all {
		if !c.shut.Load() {
			open++
		}
		c.conn.Close()
	}
	o["open"] = open
	s.mu.Lock()
	defer s.mu.Unlock()
	calls := append([]map[string]any{}, s.calls...)
	replies := append([]any{}, s.replies...)
	o["calls"], o["replies"], o["released"] = calls, replies, s.released
	return o
}

// runService carries out a script.  It is nil when the port was taken.
func runService(steps []svcStep, slow *int32) []svcStep {
	host, port := freePort()
	s := &svcRun{svc: mrpc.NewBasicService(host, port), conns: map[int]*svcConn{}, addrs: map[string]int{}, wrote: map[int]int{}, read: map[int]int{}, replies: []any{}, slow: slow}
	s.svc.RegisterErrorHandler(func(error) {
		s.mu.Lock()
		s.errs++
		s.mu.Unlock()
	})
	out := append([]svcStep{}, steps...)
	for i := range out {
		st := &out[i]
		if st.Ctx == nil {
			st.Ctx = []int{}
		}
		if st.Cmd == nil {
			st.Cmd = []int{}
		}
		if st.B == nil {
			st.B = []int{}
		}
		switch st.N {
		case "reg":
			err := s.svc.RegisterOperation(&mongowire.OpScope{Type: mongowire.OpType(st.T), Context: string(unints(st.Ctx)), Command: string(unints(st.Cmd))}, s.handler(st.H, st.Do))
			st.O = map[string]any{"ok": err == nil}
		case "start":
			o, taken := s.start()
			if taken {
				return nil
			}
			st.O = o
			if o["ok"] == false {
				s.cancel()
				return out[:i+1]
			}
		case "clash":
			ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
			ch := make(chan error, 1)
			go func() { ch <- mrpc.NewBasicService(host, port).Run(ctx) }()
			select {
			case err := <-ch:
				st.O = map[string]any{"err": errText(err)}
			case <-time.After(4 * time.Second):
				st.O = map[string]any{"err": ""}
			}
			cancel()
		case "send":
			st.O = s.send(st)
		case "bye":
			st.O = s.bye(st)
		case "cancel":
			st.O = s.finish()
		}
	}
	return out
}

func (r *Run) serviceCases(scripts [][]svcStep) {
	var slow int32
	results := make([][]svcStep, len(scripts))
	r.Begin("services")
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				for try := 0; results[i] == nil && try < 20; try++ {
					results[i] = runService(scripts[i], &slow)
				}
				if results[i] == nil {
					results[i] = []svcStep{{N: "start", Ctx: []int{}, Cmd: []int{}, B: []int{}, O: map[string]any{"ok": false, "err": "no port"}}}
				}
			}
		}()
	}
	for i := range scripts {
		r.mu.Lock()
		r.start = time.Now()
		r.mu.Unlock()
		if b, err := json.Marshal(scripts[i]); err == nil && curFile != nil {
			curFile.Truncate(0)
			curFile.WriteAt(b, 0)
		}
		ch <- i
	}
	close(ch)
	wg.Wait()
	r.Done()
	for _, o := range results {
		r.Emit(o)
	}
}

// serviceScript makes a random script; it predicts calls only to know how
// long to wait.
func (g *Gen) serviceScript() []svcStep {
	type key struct {
		t        mongowire.OpType
		ctx, cmd string
	}
	reg := map[key]string{}
	steps := []svcStep{}
	h := 0
	var pool []mongowire.Message
	var bytes_ [][]byte
	for i := 0; i < 6; i++ {
		b := append([]byte{}, buildWire(g.wireMsg()).Serialize()...)
		binary.LittleEndian.PutUint32(b[4:], uint32(g.i32()))
		hd := mongowire.MessageHeader{Size: int32(len(b)), RequestID: int32(binary.LittleEndian.Uint32(b[4:])), OpCode: mongowire.OpType(binary.LittleEndian.Uint32(b[12:]))}
		m, err := hd.Parse(append([]byte{}, b[16:]...))
		if err != nil {
			m = nil
		}
		pool, bytes_ = append(pool, m), append(bytes_, b)
	}
	register := func() {
		sc := &mongowire.OpScope{Type: mongowire.OP_INSERT, Context: "a", Command: ""}
		if m := pool[g.pick(len(pool))]; m != nil && m.Scope() != nil {
			sc = m.Scope()
		}
		if g.pick(3) == 0 {
			sc.Context = ""
		}
		switch g.pick(12) {
		case 0:
			sc.Command = "x"
		case 1:
			sc.Context = "y"
		case 2:
			sc.Type = mongowire.OpType(g.pick(3))
		}
		h++
		do := []string{"reply", "reply", "reply", "panic", "wait"}[g.pick(5)]
		id := h
		if g.pick(15) == 0 {
			id = 0
		}
		k := key{sc.Type, sc.Context, sc.Command}
		if _, ok := reg[k]; !ok && id != 0 && sc.Validate() == nil {
			reg[k] = do
		}
		steps = append(steps, svcStep{N: "reg", T: int(sc.Type), Ctx: istr(sc.Context), Cmd: istr(sc.Command), H: id, Do: do})
	}
	for i := 0; i < 2+g.pick(8); i++ {
		register()
	}
	steps = append(steps, svcStep{N: "start"})
	for i := 0; i < 1+g.pick(6); i++ {
		if g.pick(5) == 0 {
			register()
		}
		st := svcStep{N: "send", C: 1 + g.pick(2), End: "open"}
		b := []byte{}
		for j := 0; j < 1+g.pick(5); j++ {
			x := g.pick(len(pool))
			b = append(b, bytes_[x]...)
			if st.End != "open" {
				continue
			}
			var sc *mongowire.OpScope
			if pool[x] != nil {
				sc = pool[x].Scope()
			}
			if sc == nil {
				st.End = "shut"
				continue
			}
			if _, ok := reg[key{sc.Type, sc.Context, sc.Command}]; !ok {
				if _, ok = reg[key{sc.Type, "", sc.Command}]; !ok {
					st.End = "shut"
					continue
				}
			}
			st.Want++
		}
		if st.End == "open" {
			switch g.pick(8) {
			case 0:
				b, st.End = append(b, le32(uint32(g.pick(16)))...), "shut"
			case 1:
				b, st.End = append(b, bytes_[0][:1+g.pick(len(bytes_[0])-1)]...), "cut"
			}
		}
		st.B = ints(b)
		steps = append(steps, st)
		if st.End == "open" && g.pick(3) == 0 {
			steps = append(steps, svcStep{N: "bye", C: st.C})
		}
	}
	return append(steps, svcStep{N: "cancel"})
}

func recService(r *Run) {
	g := newGen(r.Seed)
	g.MaxStr = 6
	var scripts [][]svcStep
	if r.In != "" {
		r.each(func(line []byte) {
			var c struct{ Steps []svcStep }
			if err := json.Unmarshal(line, &c); err != nil {
				panic("harness: " + err.Error())
			}
			scripts = append(scripts, c.Steps)
			r.count--
		})
		r.serviceCases(scripts)
		return
	}
	for i := 0; i < r.N; i++ {
		scripts = append(scripts, g.serviceScript())
	}
	r.serviceCases(scripts)
}
