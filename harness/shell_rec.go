package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"io"
	"net"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"
)

func init() { recorders["shell"] = recShell }

func (r *Run) shellConv(req bool, t int, doc []int) {
	r.Begin(map[string]any{"conv": doc, "req": req, "t": t})
	o := map[string]any{"err": "", "b": []int{}}
	o["panic"] = try(func() {
		f := shell.ResponseToMessage
		if req {
			f = shell.RequestToMessage
		}
		msg, err := f(mongowire.OpType(t), asDoc(doc))
		o["err"] = errText(err)
		if err == nil {
			o["b"] = ints(msg.Serialize())
		}
	})
	r.Done()
	r.Emit(map[string]any{"k": "conv", "req": req, "t": t, "doc": doc, "o": o})
}

func (r *Run) shellExtract(b []byte) {
	r.Begin(map[string]any{"extract": ints(b)})
	o := map[string]any{"req": [][]int{}, "resp": [][]int{}, "parsed": false}
	o["panic"] = try(func() {
		msg, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(b))
		if err != nil {
			return
		}
		o["parsed"] = true
		if d, err := shell.RequestMessageToDocument(msg); err == nil {
			o["req"] = [][]int{docBytes(d)}
		}
		if d, err := shell.ResponseMessageToDocument(msg); err == nil {
			o["resp"] = [][]int{docBytes(d)}
		}
	})
	r.Done()
	r.Emit(map[string]any{"k": "extract", "b": ints(b), "o": o})
}

func (r *Run) shellOutcome(doc []int) {
	r.Begin(map[string]any{"outcome": doc})
	o := map[string]any{"err": "", "ok": i8(0), "msg": []int{}, "failure": [][]int{}}
	o["panic"] = try(func() {
		var resp shell.ErrorResponse
		o["err"] = errText(resp.UnmarshalDocument(asDoc(doc)))
		o["ok"], o["msg"] = i8(int64(resp.OK)), istr(resp.ErrorMessage)
		if err := resp.SuccessOrError(); err != nil {
			o["failure"] = [][]int{istr(err.Error())}
		}
	})
	r.Done()
	r.Emit(map[string]any{"k": "outcome", "doc": doc, "o": o})
}

func (r *Run) shellMake(g *Gen, doc []int) {
	fn := []string{"make", "ok", "notok", "error", "raw"}[g.pick(5)]
	ok, fails, msg := g.pick(2) == 0, g.pick(2) == 0, g.str()
	t := []int{2013, 2010, 2004}[g.pick(3)]
	w := &pieces{fail: -1, sizes: []int{[]int{1, 7, 16, 1 << 20}[g.pick(4)]}}
	if g.pick(3) == 0 {
		w.fail = g.pick(90)
	}
	r.Begin(map[string]any{"make": fn, "ok": ok, "msg": istr(string(msg)), "fail": w.fail})
	o := map[string]any{"err": "", "doc": []int{}}
	o["panic"] = try(func() {
		ctx := context.Background()
		var cause error
		if fails {
			cause = errors.New(string(msg))
		}
		switch fn {
		case "make":
			resp := shell.MakeErrorResponse(ok, cause)
			if ok && !fails && g.pick(2) == 0 {
				resp = shell.MakeSuccessResponse()
			}
			d, err := resp.MarshalDocument()
			o["err"] = errText(err)
			if err == nil {
				o["doc"] = docBytes(d)
			}
		case "ok":
			o["err"] = errText(shell.WriteOKResponse(ctx, w, mongowire.OpType(t), "op"))
		case "notok":
			o["err"] = errText(shell.WriteNotOKResponse(ctx, w, mongowire.OpType(t), "op"))
		case "error":
			o["err"] = errText(shell.WriteErrorResponse(ctx, w, mongowire.OpType(t), errors.New(string(msg)), "op"))
		case "raw":
			m, err := shell.ResponseToMessage(mongowire.OpType(t), asDoc(doc))
			if err == nil {
				err = shell.WriteResponse(ctx, w, m, "op")
			}
			o["err"] = errText(err)
		}
	})
	o["out"] = ints(w.buf.Bytes())
	r.Done()
	r.Emit(map[string]any{"k": "make", "fn": fn, "ok": ok, "fails": fails, "msg": istr(string(msg)), "t": t, "fail": w.fail, "doc": doc, "o": o})
}

var shellCommands = []string{"isMaster", "whatsmyuri", "buildInfo", "buildinfo", "endSessions", "getCmdLineOpts", "getLog", "getFreeMonitoringStatus", "replSetGetStatus", "listCollections"}

// shellRequest makes a command in one of the ways clients send them.
func (g *Gen) shellRequest(name string) []byte {
	es := []*birch.Element{birch.EC.Int32(name, 1)}
	if g.pick(2) == 0 {
		es = append(es, birch.EC.String("$db", []string{"admin", "test", ""}[g.pick(3)]))
	}
	d := birch.DC.Elements(es...)
	var msg mongowire.Message
	switch g.pick(4) {
	case 0:
		msg = mongowire.NewQuery("admin.$cmd", 0, 0, 1, d, nil)
	case 1:
		msg = mongowire.NewCommand("admin", name, d, birch.DC.New(), nil)
	default:
		msg = mongowire.NewOpMessage(false, []birch.Document{*d})
	}
	b := append([]byte{}, msg.Serialize()...)
	binary.LittleEndian.PutUint32(b[4:], uint32(g.i32()))
	return b
}

func (r *Run) shellTalk(g *Gen) {
	var svc mrpc.Service
	var done chan error
	var conn net.Conn
	reqs := [][]int{}
	o := map[string]any{"shut": false, "addr": []int{}}
	answers := [][]int{}
	r.Begin("talk")
	o["panic"] = try(func() {
		ctx, cancel := context.WithCancel(context.Background())
		for try := 0; try < 20 && conn == nil; try++ {
			host, port := freePort()
			var err error
			if g.pick(2) == 0 {
				svc, err = shell.NewShellService(host, port)
			} else {
				svc, err = shell.MakeShellService(mrpc.NewBasicService(host, port))
			}
			if err != nil {
				panic(err)
			}
			done = make(chan error, 1)
			go func() { done <- svc.Run(ctx) }()
			for start := time.Now(); conn == nil && time.Since(start) < 3*time.Second && len(done) == 0; time.Sleep(50 * time.Microsecond) {
				conn, _ = net.Dial("tcp", svc.Address())
			}
		}
		if conn == nil {
			panic("no service")
		}
		defer conn.Close()
		defer cancel()
		o["addr"] = istr(svc.Address())
		for i := 0; i < 1+g.pick(12); i++ {
			name := shellCommands[g.pick(len(shellCommands))]
			if g.pick(30) == 0 {
				name = "ping"
			}
			b := g.shellRequest(name)
			reqs = append(reqs, ints(b))
			conn.Write(b)
			var raw bytes.Buffer
			conn.SetReadDeadline(time.Now().Add(3 * time.Second))
			_, err := mongowire.ReadMessage(context.Background(), io.TeeReader(conn, &raw))
			if err != nil {
				o["shut"] = errors.Is(err, io.EOF)
				return
			}
			answers = append(answers, ints(raw.Bytes()))
		}
		// there must be nothing else
		conn.SetReadDeadline(time.Now().Add(300 * time.Microsecond))
		var rest [4096]byte
		if n, err := conn.Read(rest[:]); n > 0 {
			answers = append(answers, ints(rest[:n]))
		} else if errors.Is(err, io.EOF) {
			o["shut"] = true
		}
	})
	o["answers"] = answers
	r.Done()
	r.Emit(map[string]any{"k": "talk", "reqs": reqs, "o": o})
}

func recShell(r *Run) {
	g := newGen(r.Seed)
	g.MaxStr = 12
	if r.In != "" {
		r.each(func(line []byte) {
			var c struct {
				K      string
				B, Doc []int
				T      int
				Req    bool
			}
			if err := json.Unmarshal(line, &c); err != nil {
				panic("harness: " + err.Error())
			}
			switch c.K {
			case "conv":
				r.shellConv(c.Req, c.T, c.Doc)
			case "extract":
				r.shellExtract(unints(c.B))
			case "outcome":
				r.shellOutcome(c.Doc)
			}
			r.count--
		})
		return
	}
	for i := 0; i < r.N; i++ {
		switch i % 6 {
		case 0:
			r.shellConv(g.pick(2) == 0, []int{2013, 2010, 2004, 1}[g.pick(4)], g.wireDoc())
		case 1:
			r.shellExtract(buildWire(g.wireMsg()).Serialize())
		case 2:
			es := g.elems(g.pick(2), g.pick(3))
			for j := 0; j < g.pick(4); j++ {
				e := ME{K: []byte([]string{"ok", "errmsg"}[g.pick(2)]), V: g.elems(1, 1)[0].V}
				if g.pick(2) == 0 {
					e.V = mString(string(g.str()))
				}
				es = append(es, e)
			}
			r.shellOutcome(ints(refEncode(es)))
		case 3, 4:
			r.shellMake(g, g.wireDoc())
		case 5:
			r.shellTalk(g)
		}
	}
}
