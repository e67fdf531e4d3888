package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"time"

	"github.com/tychoish/birch"
)

func init() {
	recorders["value"] = recValue
	replayers["value"] = func(r *Run) {
		walks := 200
		if r.Tier == "thorough" {
			walks = 3000
		}
		walkGraph(r, func() SUT { return &valSUT{g: newGen(r.Seed + int64(r.count))} }, walks, 30)
	}
}

// ---- accessors ---------------------------------------------------------------

type accessor struct {
	name string
	ok   func(v *birch.Value) (MV, bool)
	pan  func(v *birch.Value) MV
}

func timeMS(t time.Time) MV {
	if t.Nanosecond()%1e6 != 0 {
		panic(fmt.Sprintf("time %v is not a whole number of milliseconds", t))
	}
	return mDate(t.Unix()*1000 + int64(t.Nanosecond())/1e6)
}

func readerMV(t byte, r birch.Reader) MV {
	es, err := obsReader(r)
	if err != nil {
		panic(err)
	}
	return MV{T: t, E: es}
}

func mOID(b [12]byte) MV { return MV{T: 7, S: b[:]} }

var accessors = []accessor{
	{"Double", func(v *birch.Value) (MV, bool) { x, ok := v.DoubleOK(); return mDouble(x), ok }, func(v *birch.Value) MV { return mDouble(v.Double()) }},
	{"StringValue", func(v *birch.Value) (MV, bool) { x, ok := v.StringValueOK(); return mString(x), ok }, func(v *birch.Value) MV { return mString(v.StringValue()) }},
	{"ReaderDocument", func(v *birch.Value) (MV, bool) {
		x, ok := v.ReaderDocumentOK()
		if !ok {
			return MV{}, false
		}
		return readerMV(3, x), ok
	}, func(v *birch.Value) MV { return readerMV(3, v.ReaderDocument()) }},
	{"MutableDocument", func(v *birch.Value) (MV, bool) {
		x, ok := v.MutableDocumentOK()
		return MV{T: 3, E: obsDoc(x)}, ok
	}, func(v *birch.Value) MV { return MV{T: 3, E: obsDoc(v.MutableDocument())} }},
	{"ReaderArray", func(v *birch.Value) (MV, bool) {
		x, ok := v.ReaderArrayOK()
		if !ok {
			return MV{}, false
		}
		return readerMV(4, x), ok
	}, func(v *birch.Value) MV { return readerMV(4, v.ReaderArray()) }},
	{"MutableArray", func(v *birch.Value) (MV, bool) {
		x, ok := v.MutableArrayOK()
		if !ok {
			return MV{}, false
		}
		return obsArray(x), ok
	}, func(v *birch.Value) MV { return obsArray(v.MutableArray()) }},
	{"Binary", func(v *birch.Value) (MV, bool) {
		st, b, ok := v.BinaryOK()
		return MV{T: 5, S: b, O: []byte{st}}, ok
	}, func(v *birch.Value) MV { st, b := v.Binary(); return MV{T: 5, S: b, O: []byte{st}} }},
	{"ObjectID", func(v *birch.Value) (MV, bool) { x, ok := v.ObjectIDOK(); return mOID(x), ok }, func(v *birch.Value) MV { return mOID(v.ObjectID()) }},
	{"Boolean", func(v *birch.Value) (MV, bool) { x, ok := v.BooleanOK(); return mBool(x), ok }, func(v *birch.Value) MV { return mBool(v.Boolean()) }},
	{"DateTime", func(v *birch.Value) (MV, bool) { x, ok := v.DateTimeOK(); return mDate(x), ok }, func(v *birch.Value) MV { return mDate(v.DateTime()) }},
	{"Time", func(v *birch.Value) (MV, bool) {
		x, ok := v.TimeOK()
		if !ok {
			return MV{}, false
		}
		return timeMS(x), ok
	}, func(v *birch.Value) MV { return timeMS(v.Time()) }},
	{"Regex", nil, func(v *birch.Value) MV { p, o := v.Regex(); return MV{T: 11, S: []byte(p), O: []byte(o)} }},
	{"DBPointer", func(v *birch.Value) (MV, bool) {
		s, o, ok := v.DBPointerOK()
		return MV{T: 12, S: []byte(s), O: o[:]}, ok
	}, func(v *birch.Value) MV { s, o := v.DBPointer(); return MV{T: 12, S: []byte(s), O: o[:]} }},
	{"JavaScript", func(v *birch.Value) (MV, bool) { x, ok := v.JavaScriptOK(); return MV{T: 13, S: []byte(x)}, ok }, func(v *birch.Value) MV { return MV{T: 13, S: []byte(v.JavaScript())} }},
	{"Symbol", nil, func(v *birch.Value) MV { return MV{T: 14, S: []byte(v.Symbol())} }},
	{"ReaderJavaScriptWithScope", func(v *birch.Value) (MV, bool) {
		s, x, ok := v.ReaderJavaScriptWithScopeOK()
		if !ok {
			return MV{}, false
		}
		m := readerMV(15, x)
		m.S = []byte(s)
		return m, ok
	}, func(v *birch.Value) MV {
		s, x := v.ReaderJavaScriptWithScope()
		m := readerMV(15, x)
		m.S = []byte(s)
		return m
	}},
	{"MutableJavaScriptWithScope", func(v *birch.Value) (MV, bool) {
		s, x, ok := v.MutableJavaScriptWithScopeOK()
		return MV{T: 15, S: []byte(s), E: obsDoc(x)}, ok
	}, func(v *birch.Value) MV {
		s, x := v.MutableJavaScriptWithScope()
		return MV{T: 15, S: []byte(s), E: obsDoc(x)}
	}},
	{"Int32", func(v *birch.Value) (MV, bool) { x, ok := v.Int32OK(); return mInt32(x), ok }, func(v *birch.Value) MV { return mInt32(v.Int32()) }},
	{"Timestamp", func(v *birch.Value) (MV, bool) {
		t, i, ok := v.TimestampOK()
		return MV{T: 17, S: append(le32(i), le32(t)...)}, ok
	}, func(v *birch.Value) MV { t, i := v.Timestamp(); return MV{T: 17, S: append(le32(i), le32(t)...)} }},
	{"Int64", func(v *birch.Value) (MV, bool) { x, ok := v.Int64OK(); return mInt64(x), ok }, func(v *birch.Value) MV { return mInt64(v.Int64()) }},
	{"Int", func(v *birch.Value) (MV, bool) { x, ok := v.IntOK(); return mInt64(int64(x)), ok }, func(v *birch.Value) MV { return mInt64(int64(v.Int())) }},
	{"Decimal128", func(v *birch.Value) (MV, bool) {
		x, ok := v.Decimal128OK()
		h, l := x.GetBytes()
		return MV{T: 19, S: append(le64(l), le64(h)...)}, ok
	}, func(v *birch.Value) MV {
		h, l := v.Decimal128().GetBytes()
		return MV{T: 19, S: append(le64(l), le64(h)...)}
	}},
}

// representations of one element: built, read from bytes, read and traversed,
// copied, converted, taken out of a larger document.
func representations(g *Gen, e ME) map[string]func() *birch.Element {
	read := func() *birch.Element {
		// surrounded by other elements, so that offsets are not trivial
		raw := refEncode([]ME{{[]byte("before"), mString("xyz")}, e, {[]byte("after"), mInt32(-1)}})
		d, err := birch.ReadDocument(raw)
		if err != nil {
			panic(err)
		}
		return d.ElementAt(1)
	}
	return map[string]func() *birch.Element{
		"built":        func() *birch.Element { return buildElem(g, e) },
		"value":        func() *birch.Element { return birch.EC.Value(string(e.K), buildValue(g, e.V)) },
		"read":         read,
		"traversed":    func() *birch.Element { x := read(); obsElem(x); return x },
		"copied":       func() *birch.Element { return buildElem(g, e).Copy() },
		"copied read":  func() *birch.Element { return read().Copy() },
		"value copied": func() *birch.Element { return birch.EC.Value(string(e.K), read().Value().Copy()) },
		"copied traversed": func() *birch.Element {
			x := read()
			obsElem(x)
			return x.Copy()
		},
		"rekeyed": func() *birch.Element {
			x := buildElem(g, ME{append([]byte("other"), e.K...), e.V})
			return birch.EC.Value(string(e.K), x.Value())
		},
		"set value": func() *birch.Element {
			x := birch.EC.String(string(e.K), "old")
			x.SetValue(read().Value())
			return x
		},
	}
}

var repNames = []string{"built", "value", "read", "traversed", "copied", "copied read", "value copied", "copied traversed", "rekeyed", "set value"}

// mutate changes one leaf (or the shape) of a value slightly.
func (g *Gen) mutate(v MV) MV {
	b, _ := json.Marshal(v)
	var out MV
	mustJSON(b, &out)
	switch {
	case len(out.E) > 0 && g.pick(3) > 0:
		i := g.pick(len(out.E))
		switch {
		case out.T != 4 && g.pick(4) == 0:
			out.E[i].K = append(append([]byte{}, out.E[i].K...), 'x')
		case g.pick(5) == 0:
			out.E = append(out.E[:i:i], out.E[i+1:]...)
		case g.pick(6) == 0 && len(out.E) > 1:
			j := g.pick(len(out.E))
			out.E[i], out.E[j] = out.E[j], out.E[i]
		default:
			out.E[i].V = g.mutate(out.E[i].V)
		}
		if out.T == 4 {
			vals := make([]MV, len(out.E))
			for k := range vals {
				vals[k] = out.E[k].V
			}
			out = mArray(vals)
		}
	case out.T == 3 || out.T == 4 || out.T == 15 && g.pick(2) == 0:
		out.E = append(out.E, ME{[]byte(fmt.Sprint(len(out.E))), mInt32(0)})
	case out.T == 5 && g.pick(2) == 0:
		out.O = []byte{0x80 ^ out.O[0]&0x80 | 1}
	case (out.T == 11 || out.T == 12) && len(out.O) > 0 && g.pick(2) == 0:
		out.O[len(out.O)-1] ^= 1
		if out.T == 11 && out.O[len(out.O)-1] == 0 {
			out.O[len(out.O)-1] = 'i'
		}
	case out.T == 8:
		out.S = []byte{1 - out.S[0]}
	case len(out.S) > 0:
		i := g.pick(len(out.S))
		out.S[i] ^= byte(1 << g.pick(7))
		if out.T == 11 && out.S[i] == 0 {
			out.S[i] = 'z'
		}
	case out.T == 2 || out.T == 13 || out.T == 14 || out.T == 5 || out.T == 12 || out.T == 11:
		out.S = []byte("q")
	default:
		out = mInt32(1)
	}
	return out
}

func recValue(r *Run) {
	g := newGen(r.Seed)
	for i := 0; i < r.N; i++ {
		var v MV
		if i < 3*len(allTypes) {
			v = g.valueOf(allTypes[i%len(allTypes)], 2)
		} else {
			v = g.value(3)
		}
		e := ME{g.key(), v}
		switch i % 5 {
		case 0, 1:
			r.Begin(map[string]any{"area": "value accessors", "element": e})
			out := map[string]any{"op": "acc", "k": ints(e.K), "v": v}
			rep := []any{}
			for _, name := range repNames {
				o := map[string]any{"name": name, "err": "", "type": 0, "bytes": []int{}, "key": []int{}, "acc": []any{}}
				msg := try(func() {
					mk := representations(g, e)[name]
					x := mk()
					b, err := x.MarshalBSON()
					if err != nil {
						panic(err)
					}
					o["bytes"], o["key"], o["type"] = ints(b), ints([]byte(x.Key())), int(x.Value().Type())
					acc := []any{}
					for _, a := range accessors {
						var mv, pv MV
						var ok bool
						p := try(func() { pv = a.pan(mk().Value()) }) != ""
						if a.ok == nil {
							mv, ok = pv, !p
						} else {
							mv, ok = a.ok(mk().Value())
						}
						if !ok {
							mv = MV{}
						}
						if p {
							pv = MV{}
						}
						acc = append(acc, map[string]any{"a": a.name, "ok": ok, "p": p, "v": mv, "pv": pv})
					}
					o["acc"] = acc
				})
				if msg != "" {
					o["err"] = msg
				}
				rep = append(rep, o)
			}
			out["reps"] = rep
			r.Done()
			r.Emit(out)
		case 2, 3:
			w := v
			f := ME{e.K, w}
			if g.pick(2) == 0 {
				w = g.mutate(v)
				f.V = w
			}
			if g.pick(4) == 0 {
				f.K = g.key()
			}
			r.Begin(map[string]any{"area": "value equality", "a": e, "b": f})
			out := map[string]any{"op": "eq", "v": v, "w": w, "kv": ints(e.K), "kw": ints(f.K), "err": ""}
			eqs := []any{}
			msg := try(func() {
				ra, rb := representations(g, e), representations(g, f)
				for j := 0; j < 6; j++ {
					na, nb := repNames[g.pick(len(repNames))], repNames[g.pick(len(repNames))]
					a, b := ra[na](), rb[nb]()
					eqs = append(eqs, map[string]any{"name": na + "/" + nb, "keys": false, "r": a.Value().Equal(b.Value())})
					eqs = append(eqs, map[string]any{"name": nb + "/" + na, "keys": false, "r": b.Value().Equal(a.Value())})
					eqs = append(eqs, map[string]any{"name": "element " + na + "/" + nb, "keys": true, "r": a.Equal(b)})
				}
			})
			if msg != "" {
				out["err"] = msg
			}
			out["eqs"] = eqs
			r.Done()
			r.Emit(out)
		default:
			if v.T != 3 && v.T != 4 && v.T != 15 {
				v = g.valueOf([]byte{3, 4, 15}[g.pick(3)], 3)
			}
			s := &valSUT{g: g}
			var ops []valOp
			out := map[string]any{"op": "hist", "v": v, "err": "", "a": MV{}, "b": MV{}, "ea": []int{}, "eb": []int{}, "eq": false}
			msg := try(func() {
				s.start(v)
				for j := 0; j < 2+g.pick(8); j++ {
					op := valOp{N: valOpNames[g.pick(len(valOpNames))], W: 1 + g.pick(2), E: ME{g.key(), g.value(1)}}
					ops = append(ops, op)
					r.Begin(map[string]any{"area": "value copies", "v": v, "ops": ops})
					s.do(op)
				}
				o := s.Observe().(map[string]any)
				for k, x := range o {
					out[k] = x
				}
			})
			if ops == nil {
				ops = []valOp{}
			}
			out["ops"] = ops
			if msg != "" {
				out["err"] = msg
			}
			r.Done()
			r.Emit(out)
		}
	}
}

// ---- two containers that are copied, changed and written ---------------------

type valOp struct {
	N string `json:"n"`
	W int    `json:"w"`
	E ME     `json:"e"`
}

var valOpNames = []string{"Copy", "Copy", "ElemCopy", "Reread", "DocReread", "Append", "Append", "AppendNested", "AppendNested", "DeleteFirst", "Marshal", "Read"}

type valSUT struct {
	g *Gen
	e [3]*birch.Element // elements with key "a"
}

// indexed gives array elements their index keys.
func indexed(v MV) MV {
	out := v
	out.E = nil
	for i, e := range v.E {
		k := e.K
		if v.T == 4 {
			k = []byte(fmt.Sprint(i))
		}
		out.E = append(out.E, ME{k, indexed(e.V)})
	}
	return out
}

func (s *valSUT) start(v MV) {
	v = indexed(v)
	// first read from bytes, second built
	raw := refEncode([]ME{{[]byte("before"), mString("xyz")}, {[]byte("a"), v}, {[]byte("after"), mInt32(-1)}})
	d, err := birch.ReadDocument(raw)
	if err != nil {
		panic(err)
	}
	s.e[1], s.e[2] = d.ElementAt(1), buildElem(s.g, ME{[]byte("a"), v})
}

func innerAppend(v *birch.Value, e *birch.Element) bool {
	switch byte(v.Type()) {
	case 3:
		v.MutableDocument().Append(e)
	case 4:
		v.MutableArray().Append(e.Value())
	case 15:
		_, d := v.MutableJavaScriptWithScope()
		d.Append(e)
	default:
		return false
	}
	return true
}

func firstOf(v *birch.Value) *birch.Value {
	switch byte(v.Type()) {
	case 3:
		if e, ok := v.MutableDocument().ElementAtOK(0); ok {
			return e.Value()
		}
	case 4:
		x, err := v.MutableArray().Lookup(0)
		if err == nil {
			return x
		}
	case 15:
		_, d := v.MutableJavaScriptWithScope()
		if e, ok := d.ElementAtOK(0); ok {
			return e.Value()
		}
	}
	return nil
}

func (s *valSUT) do(op valOp) {
	x := s.e[op.W]
	switch op.N {
	case "Copy":
		s.e[3-op.W] = birch.EC.Value("a", x.Value().Copy())
	case "ElemCopy":
		s.e[3-op.W] = x.Copy()
	case "Reread":
		b, err := x.MarshalBSON()
		if err != nil {
			panic(err)
		}
		d, err := birch.ReadDocument(append(append(le32(uint32(len(b)+5)), b...), 0))
		if err != nil {
			panic(err)
		}
		s.e[3-op.W] = d.ElementAt(0)
	case "DocReread":
		b, err := birch.DC.Elements(birch.EC.Int32("z", 1), x, birch.EC.Null("y")).MarshalBSON()
		if err != nil {
			panic(err)
		}
		d, err := birch.ReadDocument(b)
		if err != nil {
			panic(err)
		}
		s.e[3-op.W] = d.LookupElement("a")
	case "Append":
		innerAppend(x.Value(), buildElem(s.g, op.E))
	case "AppendNested":
		if f := firstOf(x.Value()); f != nil {
			innerAppend(f, buildElem(s.g, op.E))
		}
	case "DeleteFirst":
		switch byte(x.Value().Type()) {
		case 3:
			deleteFirst(x.Value().MutableDocument())
		case 4:
			x.Value().MutableArray().Delete(0)
		case 15:
			_, d := x.Value().MutableJavaScriptWithScope()
			deleteFirst(d)
		}
	case "Marshal":
		if _, err := x.MarshalBSON(); err != nil {
			panic(err)
		}
		if _, err := birch.DC.Elements(x).MarshalBSON(); err != nil {
			panic(err)
		}
	case "Read":
		obsElem(x)
		x.Value().Interface()
		_ = x.String()
	case "Start":
		s.start(op.E.V)
	default:
		panic("harness: op " + op.N)
	}
}

func deleteFirst(d *birch.Document) {
	if e, ok := d.ElementAtOK(0); ok {
		d.Delete(e.Key())
	}
}

func (s *valSUT) Apply(raw json.RawMessage) any {
	var op valOp
	mustJSON(raw, &op)
	if s.e[1] == nil && op.N != "Start" {
		s.start(MV{T: 3})
	}
	s.do(op)
	return 0
}

func (s *valSUT) Observe() any {
	m := func(e *birch.Element) []int {
		b, err := e.MarshalBSON()
		if err != nil {
			panic(err)
		}
		return ints(b)
	}
	eq := s.e[1].Equal(s.e[2])
	ea, eb := m(s.e[1]), m(s.e[2])
	return map[string]any{"a": obsValue(s.e[1].Value()), "b": obsValue(s.e[2].Value()), "ea": ea, "eb": eb, "eq": eq}
}

var _ = bytes.Equal
var _ = binary.LittleEndian
var _ = math.Inf
