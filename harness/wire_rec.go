package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"io"
	"runtime/metrics"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc/model"
	"github.com/tychoish/birch/x/mrpc/mongowire"
)

func init() { recorders["wire"] = recWire; recorders["wirestream"] = recWireStream }

// WSec and WMsg are the messages of specs/Wire.tla.
type WSec struct {
	K    int     `json:"k"`
	ID   []int   `json:"id"`
	Docs [][]int `json:"docs"`
}

type WMsg struct {
	Op   int     `json:"op"`
	Rid  []int   `json:"rid"`
	Rto  []int   `json:"rto"`
	F    []int   `json:"f"`
	A    []int   `json:"a"`
	N    []int   `json:"n"`
	NS   []int   `json:"ns"`
	Cmd  []int   `json:"cmd"`
	Cur  []int   `json:"cur"`
	Curs [][]int `json:"curs"`
	Docs [][]int `json:"docs"`
	Secs []WSec  `json:"secs"`
	Sum  []int   `json:"sum"`
	Up   bool    `json:"up"`
}

func i4(n int32) []int    { return ints(le32(uint32(n))) }
func i8(n int64) []int    { return ints(le64(uint64(n))) }
func of4(b []int) int32   { return int32(binary.LittleEndian.Uint32(unints(b))) }
func of8(b []int) int64   { return int64(binary.LittleEndian.Uint64(unints(b))) }
func istr(s string) []int { return ints([]byte(s)) }

func noWMsg() WMsg {
	z := i4(0)
	return WMsg{Rid: z, Rto: z, F: z, A: z, N: z, NS: []int{}, Cmd: []int{}, Cur: i8(0), Curs: [][]int{}, Docs: [][]int{}, Secs: []WSec{}, Sum: z}
}

// asDoc makes a document of its bytes.
func asDoc(b []int) *birch.Document {
	d, err := birch.ReadDocument(unints(b))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return d
}

func asDocs(bs [][]int) []birch.Document {
	var out []birch.Document
	for _, b := range bs {
		out = append(out, *asDoc(b))
	}
	return out
}

func docBytes(d *birch.Document) []int {
	b, err := d.MarshalBSON()
	if err != nil {
		return istr("error: " + err.Error())
	}
	return ints(b)
}

func docsBytes(ds []birch.Document) [][]int {
	out := [][]int{}
	for i := range ds {
		out = append(out, docBytes(&ds[i]))
	}
	return out
}

func buildWire(m WMsg) mongowire.Message {
	docs := asDocs(m.Docs)
	at := func(i int) *birch.Document {
		if i < len(docs) {
			return &docs[i]
		}
		return nil
	}
	ns := string(unints(m.NS))
	switch m.Op {
	case 1: // OP_REPLY
		return mongowire.NewReply(of8(m.Cur), of4(m.F), of4(m.A), of4(m.N), docs)
	case 2001: // OP_UPDATE
		return mongowire.NewUpdate(ns, of4(m.F), at(0), at(1))
	case 2006: // OP_DELETE
		return mongowire.NewDelete(ns, of4(m.F), at(0))
	case 2002: // OP_INSERT
		ptrs := []*birch.Document{}
		for i := range docs {
			ptrs = append(ptrs, &docs[i])
		}
		return mongowire.NewInsert(ns, ptrs...)
	case 2004: // OP_QUERY
		return mongowire.NewQuery(ns, of4(m.F), of4(m.A), of4(m.N), at(0), at(1))
	case 2005: // OP_GET_MORE
		return mongowire.NewGetMore(ns, of4(m.N), of8(m.Cur))
	case 2007: // OP_KILL_CURSORS
		ids := []int64{}
		for _, c := range m.Curs {
			ids = append(ids, of8(c))
		}
		return mongowire.NewKillCursors(ids...)
	case 2010: // OP_COMMAND
		return mongowire.NewCommand(ns, string(unints(m.Cmd)), at(0), at(1), docs[2:])
	case 2011: // OP_COMMAND_REPLY
		return mongowire.NewCommandReply(at(0), at(1), docs[2:])
	case 2013: // OP_MSG
		bodies := []birch.Document{}
		items := []model.SequenceItem{}
		for _, s := range m.Secs {
			if s.K == 0 {
				bodies = append(bodies, *asDoc(s.Docs[0]))
			} else {
				items = append(items, model.SequenceItem{Identifier: string(unints(s.ID)), Documents: asDocs(s.Docs)})
			}
		}
		msg := mongowire.NewOpMessage(m.F[0]&2 != 0, bodies, items...)
		if of4(m.F) > 3 || of4(m.F) < 0 || of4(m.F)&1 != 0 {
			op := msg.(*mongowire.OpMessage)
			op.Flags, op.Checksum = uint32(of4(m.F)), of4(m.Sum)
		}
		return msg
	}
	panic("harness: no message")
}

type wmodel struct {
	T     int     `json:"t"`
	NS    []int   `json:"ns"`
	Cmd   []int   `json:"cmd"`
	A     []int   `json:"a"`
	N     []int   `json:"n"`
	Cur   []int   `json:"cur"`
	Docs  [][]int `json:"docs"`
	Items []any   `json:"items"`
	X     bool    `json:"x"`
	Y     bool    `json:"y"`
}

func wmodelOf(msg mongowire.Message) wmodel {
	got, t := mongowire.GetModel(msg)
	o := wmodel{int(t), []int{}, []int{}, i4(0), i4(0), i8(0), [][]int{}, []any{}, false, false}
	add := func(ds ...*birch.Document) {
		for _, d := range ds {
			if d != nil {
				o.Docs = append(o.Docs, docBytes(d))
			}
		}
	}
	switch m := got.(type) {
	case *model.Command:
		o.NS, o.Cmd, o.X = istr(m.DB), istr(m.Command), m.ConvertedFromQuery
		add(m.Arguments, m.Metadata)
		o.Docs = append(o.Docs, docsBytes(m.Inputs)...)
	case *model.Delete:
		o.NS = istr(m.Namespace)
		add(m.Filter)
	case *model.Insert:
		o.NS, o.Docs = istr(m.Namespace), docsBytes(m.Documents)
	case *model.Query:
		o.NS, o.A, o.N = istr(m.Namespace), i4(m.Skip), i4(m.NReturn)
		add(m.Query, m.Project)
	case *model.GetMore:
		o.NS, o.N, o.Cur = istr(m.Namespace), i4(m.NReturn), i8(m.CursorID)
	case *model.Update:
		o.NS, o.X, o.Y = istr(m.Namespace), m.Upsert, m.Multi
		add(m.Filter, m.Update)
	case *model.Reply:
		o.A, o.Cur, o.Docs, o.X, o.Y = i4(m.StartingFrom), i8(m.CursorID), docsBytes(m.Contents), m.CursorNotFound, m.QueryFailure
	case *model.Message:
		o.X, o.Y = m.Checksum, m.MoreToCome
		for _, it := range m.Items {
			o.Items = append(o.Items, map[string]any{"id": istr(it.Identifier), "docs": docsBytes(it.Documents)})
		}
	}
	return o
}

// observeWire says everything there is to know about a message.
func observeWire(msg mongowire.Message) map[string]any {
	o := map[string]any{"scope": map[string]any{"t": 0, "ctx": []int{}, "cmd": []int{}}}
	o["op"] = int(msg.Header().OpCode)
	o["rid"], o["rto"] = i4(msg.Header().RequestID), i4(msg.Header().ResponseTo)
	o["size0"] = int(msg.Header().Size)
	if s := msg.Scope(); s != nil {
		o["scope"] = map[string]any{"t": int(s.Type), "ctx": istr(s.Context), "cmd": istr(s.Command)}
	}
	o["resp"] = msg.HasResponse()
	o["model"] = wmodelOf(msg)
	ser := msg.Serialize()
	o["ser"] = ints(ser)
	o["again"] = bytes.Equal(msg.Serialize(), ser)
	o["size"] = int(msg.Header().Size)
	o["f"], o["sum"] = i4(0), i4(0)
	if m, ok := msg.(*mongowire.OpMessage); ok {
		o["f"], o["sum"] = i4(int32(m.Flags)), i4(m.Checksum)
	}
	return o
}

// parseWire parses a whole message with its header.
func parseWire(b []byte) (o map[string]any) {
	o = map[string]any{"err": "", "obs": map[string]any{"op": 0}}
	o["panic"] = try(func() {
		h := mongowire.MessageHeader{Size: int32(len(b)), RequestID: int32(binary.LittleEndian.Uint32(b[4:])), ResponseTo: int32(binary.LittleEndian.Uint32(b[8:])),
			OpCode: mongowire.OpType(int32(binary.LittleEndian.Uint32(b[12:])))}
		body := append([]byte{}, b[16:]...)
		msg, err := h.Parse(body)
		o["err"] = errText(err)
		if err == nil {
			o["obs"] = observeWire(msg)
		}
	})
	return o
}

func (r *Run) wireCase(op string, b []byte, m WMsg) {
	r.Begin(map[string]any{"op": op, "b": ints(b), "m": m})
	c := map[string]any{"k": op, "b": ints(b), "m": m, "parse": parseWire(b)}
	if op == "build" {
		built := map[string]any{"obs": map[string]any{"op": 0}}
		built["panic"] = try(func() { built["obs"] = observeWire(buildWire(m)) })
		c["built"] = built
	}
	r.Done()
	r.Emit(c)
}

// fragments is a reader that gives its bytes in pieces.
type fragments struct {
	b     []byte
	sizes []int
	pos   int
	i     int
	eof   bool // give the end together with the last bytes
	zero  bool // sometimes give nothing
}

func (f *fragments) Read(p []byte) (int, error) {
	if f.pos == len(f.b) {
		return 0, io.EOF
	}
	n := f.sizes[f.i%len(f.sizes)]
	f.i++
	if f.zero && f.i%5 == 4 {
		return 0, nil
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(f.b)-f.pos {
		n = len(f.b) - f.pos
	}
	copy(p, f.b[f.pos:f.pos+n])
	f.pos += n
	if f.eof && f.pos == len(f.b) {
		return n, io.EOF
	}
	return n, nil
}

// heapAllocs says how many bytes have been allocated so far.
func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func (r *Run) streamRandom(g *Gen, b []byte) {
	sizes := []int{}
	for i := 0; i < 1+g.pick(6); i++ {
		sizes = append(sizes, []int{1, 2, 3, 4, 5, 15, 16, 17, 1 + g.pick(40), 1 << 20}[g.pick(10)])
	}
	r.streamCase(b, sizes, g.pick(2) == 0, g.pick(4) == 0)
}

func (r *Run) streamCase(b []byte, sizes []int, eof, zero bool) {
	f := &fragments{b: b, sizes: sizes, eof: eof, zero: zero}
	r.Begin(map[string]any{"stream": ints(b), "sizes": sizes, "eof": f.eof, "zero": f.zero})
	reads := []map[string]any{}
	for i := 0; i < 12; i++ {
		o := map[string]any{"err": "", "eof": false, "obs": map[string]any{"op": 0}}
		before := heapAllocs()
		o["panic"] = try(func() {
			msg, err := mongowire.ReadMessage(context.Background(), f)
			o["err"], o["eof"] = errText(err), errors.Is(err, io.EOF)
			if err == nil {
				o["obs"] = observeWire(msg)
			}
		})
		o["pos"] = f.pos
		o["mem"] = (heapAllocs()-before)>>20 > 2
		reads = append(reads, o)
		if f.pos == len(b) && o["err"] != "" || o["panic"] != "" {
			break
		}
	}
	r.Done()
	r.Emit(map[string]any{"k": "stream", "b": ints(b), "reads": reads})
}

// pieces is a writer that takes some bytes at a time, and may fail.
type pieces struct {
	buf   bytes.Buffer
	sizes []int
	i     int
	fail  int // fails after so many bytes, if not negative
}

func (w *pieces) Write(p []byte) (int, error) {
	n := w.sizes[w.i%len(w.sizes)]
	w.i++
	if n > len(p) {
		n = len(p)
	}
	if w.fail >= 0 && w.buf.Len()+n > w.fail {
		n = w.fail - w.buf.Len()
		w.buf.Write(p[:n])
		return n, errors.New("broken pipe")
	}
	w.buf.Write(p[:n])
	return n, nil
}

func (r *Run) sendRandom(g *Gen, m WMsg) {
	sizes, fail := []int{}, -1
	for i := 0; i < 1+g.pick(4); i++ {
		sizes = append(sizes, []int{1, 7, 16, 1 << 20}[g.pick(4)])
	}
	if g.pick(2) == 0 {
		fail = g.pick(len(buildWire(m).Serialize()) + 3)
	}
	r.sendCase(m, sizes, fail)
}

func (r *Run) sendCase(m WMsg, sizes []int, fail int) {
	w := &pieces{sizes: sizes, fail: fail}
	r.Begin(map[string]any{"send": m, "fail": w.fail})
	o := map[string]any{"err": "", "canceled": ""}
	o["panic"] = try(func() {
		o["err"] = errText(mongowire.SendMessage(context.Background(), buildWire(m), w))
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		o["canceled"] = errText(mongowire.SendMessage(ctx, buildWire(m), io.Discard))
	})
	o["out"] = ints(w.buf.Bytes())
	r.Done()
	r.Emit(map[string]any{"k": "send", "m": m, "fail": w.fail, "o": o})
}

// stuck gives some bytes and then nothing until it is closed.
type stuck struct {
	b    []byte
	done chan struct{}
}

func (s *stuck) Read(p []byte) (int, error) {
	if len(s.b) > 0 {
		n := copy(p, s.b)
		s.b = s.b[n:]
		return n, nil
	}
	<-s.done
	return 0, io.ErrClosedPipe
}

func (s *stuck) Write(p []byte) (int, error) { <-s.done; return 0, io.ErrClosedPipe }

func (r *Run) cancelCase(g *Gen, b []byte, m WMsg) {
	n := g.pick(len(b)) // never the whole message
	r.Begin(map[string]any{"cancel": ints(b[:n])})
	o := map[string]any{"err": "", "late": true, "serr": "", "slate": true}
	o["panic"] = try(func() {
		s := &stuck{append([]byte{}, b[:n]...), make(chan struct{})}
		defer close(s.done)
		run := func(f func(context.Context) error) (string, bool) {
			ctx, cancel := context.WithCancel(context.Background())
			if g.pick(3) == 0 {
				cancel()
			} else {
				time.AfterFunc(time.Duration(g.pick(3000))*time.Microsecond, cancel)
			}
			ch := make(chan error, 1)
			go func() { ch <- f(ctx) }()
			select {
			case err := <-ch:
				return errText(err), false
			case <-time.After(5 * time.Second):
				return "", true
			}
		}
		o["err"], o["late"] = run(func(ctx context.Context) error {
			_, err := mongowire.ReadMessage(ctx, s)
			return err
		})
		o["serr"], o["slate"] = run(func(ctx context.Context) error { return mongowire.SendMessage(ctx, buildWire(m), s) })
	})
	r.Done()
	r.Emit(map[string]any{"k": "cancel", "o": o})
}

func (g *Gen) wireDoc() []int {
	for {
		es := g.elems(g.pick(3), g.pick(4))
		if g.pick(3) == 0 {
			es = append(es, ME{K: []byte("$db"), V: mString("db")})
		}
		b := refEncode(es)
		if d, err := birch.ReadDocument(b); err == nil {
			if out, err := d.MarshalBSON(); err == nil && bytes.Equal(out, b) {
				return ints(b)
			}
		}
	}
}

func (g *Gen) wireMsg() WMsg {
	m := noWMsg()
	m.Rid, m.Rto = i4(19), i4(0)
	docs := func(lo, n int) {
		for i := 0; i < lo+g.pick(n); i++ {
			m.Docs = append(m.Docs, g.wireDoc())
		}
	}
	m.Op = []int{1, 2001, 2002, 2004, 2005, 2006, 2007, 2010, 2011, 2013, 2013}[g.pick(11)]
	ns := ints(noNul([]byte([]string{"db.coll", "db", "", "db.a.b", string(g.str())}[g.pick(5)])))
	switch m.Op {
	case 1:
		m.F, m.Cur, m.A, m.N = i4(g.i32()), i8(g.i64()), i4(g.i32()), i4(g.i32())
		docs(0, 4)
	case 2001:
		m.NS, m.F = ns, i4(g.i32())
		docs(2, 1)
	case 2002:
		m.NS = ns
		docs(0, 4)
	case 2004:
		m.NS, m.F, m.A, m.N = ns, i4(g.i32()), i4(g.i32()), i4(g.i32())
		if g.pick(3) == 0 {
			m.NS = istr([]string{"db.$cmd", "admin.$cmd.x", ".$", "db.$"}[g.pick(4)])
		}
		docs(1, 2)
	case 2005:
		m.NS, m.N, m.Cur = ns, i4(g.i32()), i8(g.i64())
	case 2006:
		m.NS, m.F = ns, i4(g.i32())
		docs(1, 1)
	case 2007:
		for i := 0; i < g.pick(5); i++ {
			m.Curs = append(m.Curs, i8(g.i64()))
		}
	case 2010:
		m.NS, m.Cmd = ns, ints(noNul(g.str()))
		docs(2, 3)
	case 2011:
		docs(2, 3)
	case 2013:
		for i := 0; i < g.pick(3); i++ {
			m.Secs = append(m.Secs, WSec{0, []int{}, [][]int{g.wireDoc()}})
		}
		for i := 0; i < g.pick(3); i++ {
			s := WSec{1, ints(noNul(g.str())), [][]int{}}
			for j := 0; j < g.pick(4); j++ {
				s.Docs = append(s.Docs, g.wireDoc())
			}
			m.Secs = append(m.Secs, s)
		}
		m.F = i4([]int32{0, 1, 2, 3, 1 << 16, g.i32()}[g.pick(6)])
		if m.F[0]&1 == 1 {
			m.Sum = i4(g.i32())
		}
	}
	return m
}

func (r *Run) wireRandom(g *Gen, i int) {
	m := g.wireMsg()
	b := append([]byte{}, buildWire(m).Serialize()...)
	binary.LittleEndian.PutUint32(b[4:], uint32(g.i32()))
	binary.LittleEndian.PutUint32(b[8:], uint32(g.i32()))
	switch i % 3 {
	case 0, 1:
		r.wireCase("build", b, m)
	case 2:
		bad := append(append([]byte{}, b[:16]...), g.mutateBytes(b[16:])...)
		r.wireCase("parse", bad, noWMsg())
	}
}

func (r *Run) wireStreamRandom(g *Gen, i int) {
	m := g.wireMsg()
	b := append([]byte{}, buildWire(m).Serialize()...)
	switch i % 3 {
	case 0, 1:
		for j := 0; j < g.pick(4); j++ {
			b = append(b, buildWire(g.wireMsg()).Serialize()...)
		}
		switch g.pick(6) {
		case 0:
			b = b[:g.pick(len(b)+1)]
		case 1:
			b = append(b, le32([]uint32{0, 1, 15, 16, 17, 1 << 31, 200<<20 + 1, 200 << 20, 542393671, 1<<32 - 1, 150 << 20}[g.pick(11)])...)
			b = append(b, g.bytes(g.pick(30))...)
		case 2:
			b = g.mutateBytes(b)
		}
		r.streamRandom(g, b)
	default:
		if g.pick(4) == 0 {
			r.cancelCase(g, b, m)
		} else {
			r.sendRandom(g, m)
		}
	}
}

func recWireStream(r *Run) {
	g := newGen(r.Seed)
	g.MaxStr = 12
	if r.In != "" {
		r.each(func(line []byte) {
			var c struct {
				Op        string
				B         []int
				M         WMsg
				Sizes     []int
				Eof, Zero bool
				Fail      int
			}
			if err := json.Unmarshal(line, &c); err != nil {
				panic("harness: " + err.Error())
			}
			if c.Op == "send" {
				r.sendCase(c.M, c.Sizes, c.Fail)
			} else {
				r.streamCase(unints(c.B), c.Sizes, c.Eof, c.Zero)
			}
			r.count--
		})
		return
	}
	for i := 0; i < r.N; i++ {
		r.wireStreamRandom(g, i)
	}
}

func recWire(r *Run) {
	g := newGen(r.Seed)
	g.MaxStr = 12
	if r.In != "" {
		r.each(func(line []byte) {
			var c struct {
				Op string
				B  []int
				M  WMsg
			}
			if err := json.Unmarshal(line, &c); err != nil {
				panic("harness: " + err.Error())
			}
			r.wireCase(c.Op, unints(c.B), c.M)
			r.count--
		})
		return
	}
	for i := 0; i < r.N; i++ {
		r.wireRandom(g, i)
	}
}
