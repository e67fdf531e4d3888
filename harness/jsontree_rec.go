package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/jsonx"
)

func init() { recorders["jsontree"] = recJSONTree }

type treeMember struct {
	K []int  `json:"k"`
	V jtJSON `json:"v"`
}

// jtJSON is a scalar tree as it is in emitted cases.
type jtJSON struct {
	J string   `json:"j"`
	S []int    `json:"s"`
	E []string `json:"e"`
}

type treeOp struct {
	N   string       `json:"n"`
	R   int          `json:"r"`
	X   int          `json:"x"`
	I   int          `json:"i"`
	K   []int        `json:"k"`
	V   jtJSON       `json:"v"`
	M   []treeMember `json:"m"`
	via int
}

type treeText struct {
	R   string `json:"r"`
	Msg string `json:"msg"`
	B   []int  `json:"b"`
	M   MV     `json:"m"`
}

type treeObs struct {
	T    JT       `json:"t"`
	Acc  []string `json:"acc"`
	Text treeText `json:"text"`
	Conv treeText `json:"conv"`
}

type treeStep struct {
	Op    treeOp    `json:"op"`
	Panic string    `json:"panic"`
	Roots []treeObs `json:"roots"`
}

func scalarJT(j string, s []byte) jtJSON { return jtJSON{J: j, S: ints(s), E: []string{}} }

// scalar makes a value; via chooses among the constructors that can.
func (v jtJSON) scalar(via int) *jsonx.Value {
	s := string(unints(v.S))
	switch v.J {
	case "str":
		return jsonx.VC.String(s)
	case "true", "false":
		return jsonx.VC.Boolean(v.J == "true")
	case "null":
		return jsonx.VC.Nil()
	case "inf":
		var bits uint64
		for i, b := range v.S {
			bits |= uint64(b) << (8 * i)
		}
		f := math.Float64frombits(bits)
		if via%2 == 1 {
			return jsonx.VC.Float32(float32(f))
		}
		return jsonx.VC.Float64(f)
	}
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		switch via % 3 {
		case 1:
			if n == int64(int32(n)) {
				return jsonx.VC.Int32(int32(n))
			}
			return jsonx.VC.Int64(n)
		case 2:
			return jsonx.VC.Int64(n)
		}
		return jsonx.VC.Int(int(n))
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic("harness: " + s)
	}
	if g := strconv.FormatFloat(f, 'e', -1, 32); via%2 == 1 && g == s && float64(float32(f)) == f {
		return jsonx.VC.Float32(float32(f))
	}
	return jsonx.VC.Float64(f)
}

// elem makes an element of a scalar, by the constructor of elements where via says so.
func (v jtJSON) elem(k string, via int) *jsonx.Element {
	val := v.scalar(via / 2)
	if via%2 == 0 {
		return jsonx.EC.Value(k, val)
	}
	switch x := val.Interface().(type) {
	case string:
		return jsonx.EC.String(k, x)
	case bool:
		return jsonx.EC.Boolean(k, x)
	case int:
		return jsonx.EC.Int(k, x)
	case int32:
		return jsonx.EC.Int32(k, x)
	case int64:
		return jsonx.EC.Int64(k, x)
	case float64:
		return jsonx.EC.Float64(k, x)
	case float32:
		return jsonx.EC.Float32(k, x)
	case nil:
		return jsonx.EC.Nil(k)
	}
	panic("harness: scalar")
}

func treeAccessors(v *jsonx.Value, out *[]string) {
	add := func(n string, ok bool) {
		if ok {
			*out = append(*out, n)
		}
	}
	_, ok := v.StringValueOK()
	add("string", ok)
	_, ok = v.BooleanOK()
	add("boolean", ok)
	_, ok = v.IntOK()
	add("int", ok)
	_, ok = v.Float64OK()
	add("float", ok)
	d, ok := v.DocumentOK()
	add("document", ok)
	if ok {
		for e := range d.Iterator() {
			w, ok := e.ValueOK()
			if !ok {
				panic("an element has no value")
			}
			treeAccessors(w, out)
		}
	}
	a, ok := v.ArrayOK()
	add("array", ok)
	if ok {
		for w := range a.Iterator() {
			treeAccessors(w, out)
		}
	}
}

// obsTree sees a tree by its accessors.
func obsTree(v *jsonx.Value) JT { return obsTreeAt(v, 0) }

func obsTreeAt(v *jsonx.Value, depth int) JT {
	if depth > 500 {
		panic("the tree does not end")
	}
	switch v.Type() {
	case jsonx.NumberDouble:
		f, ok := v.Float64OK()
		if !ok {
			panic(fmt.Sprintf("a double of type %T is no float", v.Interface()))
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			if g := v.Float64(); math.Float64bits(g) != math.Float64bits(f) {
				panic("accessors disagree")
			}
			return JT{J: "inf", S: mDouble(f).S}
		}
		if v.Float64() != f {
			panic("accessors disagree")
		}
	case jsonx.NumberInteger:
		n, ok := v.IntOK()
		if !ok {
			panic(fmt.Sprintf("an integer of type %T is no int", v.Interface()))
		}
		if v.Int() != n {
			panic("accessors disagree")
		}
	case jsonx.ObjectValue:
		t := JT{J: "obj"}
		d := v.Document()
		for i := range d.Len() {
			e := d.ElementAtIndex(i)
			if d.KeyAtIndex(i) != e.Key() {
				panic("keys disagree")
			}
			t.E = append(t.E, JM{K: []byte(e.Key()), V: obsTreeAt(e.Value(), depth+1)})
		}
		if d.ElementAtIndex(d.Len()) != nil || d.KeyAtIndex(d.Len()) != "" {
			panic("there is something after the end")
		}
		return t
	case jsonx.ArrayValue:
		t := JT{J: "arr"}
		for w := range v.Array().Iterator() {
			t.E = append(t.E, JM{V: obsTreeAt(w, depth+1)})
		}
		if v.Array().Len() != len(t.E) {
			panic("length disagrees")
		}
		return t
	}
	return obsX(v)
}

// holdTree makes a value of a container.
func holdTree(c any) *jsonx.Value {
	if d, ok := c.(*jsonx.Document); ok {
		return jsonx.VC.Object(d)
	}
	return jsonx.VC.Array(c.(*jsonx.Array))
}

func held(v *jsonx.Value) any {
	if d, ok := v.DocumentOK(); ok {
		return d
	}
	if a, ok := v.ArrayOK(); ok {
		return a
	}
	return nil
}

func members(c any) (out []*jsonx.Value) {
	if d, ok := c.(*jsonx.Document); ok {
		for e := range d.Iterator() {
			out = append(out, e.Value())
		}
		return
	}
	for v := range c.(*jsonx.Array).Iterator() {
		out = append(out, v)
	}
	return
}

func within(c, in any) bool {
	if c == in {
		return true
	}
	for _, v := range members(in) {
		if h := held(v); h != nil && within(c, h) {
			return true
		}
	}
	return false
}

func treeSize(c any) int {
	n := 1
	for _, v := range members(c) {
		if h := held(v); h != nil {
			n += treeSize(h)
		} else {
			n++
		}
	}
	return n
}

func doTree(roots []any, op treeOp) []any {
	at := func(i int) any { return roots[i-1] }
	put := func(c any, e func(k string) *jsonx.Element, v func() *jsonx.Value) {
		if d, ok := c.(*jsonx.Document); ok {
			if d.Append(e(string(unints(op.K)))) != d {
				panic("Append gives another document")
			}
		} else if a := c.(*jsonx.Array); a.Append(v()) != a {
			panic("Append gives another array")
		}
	}
	// the slices stay the caller's
	es, vs := []*jsonx.Element{}, []*jsonx.Value{}
	defer func() {
		for i := range es {
			es[i] = jsonx.EC.String("intruder", "x")
		}
		for i := range vs {
			vs[i] = jsonx.VC.String("intruder")
		}
	}()
	elems := func() []*jsonx.Element {
		for i, m := range op.M {
			es = append(es, m.V.elem(string(unints(m.K)), op.via+i))
		}
		return es
	}
	vals := func() []*jsonx.Value {
		for i, m := range op.M {
			vs = append(vs, m.V.scalar(op.via+i))
		}
		return vs
	}
	switch op.N {
	case "obj":
		return append(roots, []any{jsonx.DC.New(), jsonx.DC.Make(4), jsonx.DC.Elements()}[op.via%3])
	case "arr":
		return append(roots, []any{jsonx.AC.New(), jsonx.AC.Make(4), jsonx.AC.Elements()}[op.via%3])
	case "add":
		put(at(op.R), func(k string) *jsonx.Element { return op.V.elem(k, op.via) }, func() *jsonx.Value { return op.V.scalar(op.via) })
	case "addobj":
		put(at(op.R), func(k string) *jsonx.Element {
			if op.via%2 == 0 {
				return jsonx.EC.Object(k, jsonx.DC.Elements(elems()...))
			}
			return jsonx.EC.ObjectFromElements(k, elems()...)
		}, func() *jsonx.Value { return jsonx.VC.ObjectFromElements(elems()...) })
	case "addarr":
		put(at(op.R), func(k string) *jsonx.Element {
			if op.via%2 == 0 {
				return jsonx.EC.Array(k, jsonx.AC.Elements(vals()...))
			}
			return jsonx.EC.ArrayFromElements(k, vals()...)
		}, func() *jsonx.Value { return jsonx.VC.ArrayFromElements(vals()...) })
	case "nest":
		x := at(op.X)
		put(at(op.R), func(k string) *jsonx.Element {
			if d, ok := x.(*jsonx.Document); ok && op.via%2 == 0 {
				return jsonx.EC.Object(k, d)
			} else if a, ok := x.(*jsonx.Array); ok && op.via%2 == 0 {
				return jsonx.EC.Array(k, a)
			}
			return jsonx.EC.Value(k, holdTree(x))
		}, func() *jsonx.Value { return holdTree(x) })
	case "copy":
		if d, ok := at(op.R).(*jsonx.Document); ok {
			if op.via%2 == 0 {
				return append(roots, d.Copy())
			}
			return append(roots, jsonx.EC.Object("", d).Copy().Value().Document())
		}
		a := at(op.R).(*jsonx.Array)
		if op.via%2 == 0 {
			return append(roots, a.Copy())
		}
		return append(roots, jsonx.VC.Array(a).Copy().Array())
	case "take":
		return append(roots, held(members(at(op.R))[op.I-1]))
	case "copymember":
		v := members(at(op.X))[op.I-1]
		put(at(op.R), func(k string) *jsonx.Element {
			if d, ok := at(op.X).(*jsonx.Document); ok && op.via%2 == 0 {
				e := d.ElementAtIndex(op.I - 1).Copy()
				if e.Key() != d.KeyAtIndex(op.I-1) {
					panic("a copied element has another key")
				}
				return jsonx.EC.Value(k, e.Value())
			}
			return jsonx.EC.Value(k, v.Copy())
		}, func() *jsonx.Value { return v.Copy() })
	default:
		panic("harness: operation " + op.N)
	}
	return roots
}

func runJSONTree(r *Run, next func(i int, roots []any) (treeOp, bool), convAll bool) {
	ops := []treeOp{}
	steps := []treeStep{}
	roots := []any{}
	toks := &bytes.Buffer{}
	texts := [][]byte{}
	for i := 0; ; i++ {
		op, more := next(i, roots)
		if op.N == "" {
			break
		}
		if op.K == nil {
			op.K = []int{}
		}
		if op.V.J == "" {
			op.V = scalarJT("null", nil)
		}
		if op.M == nil {
			op.M = []treeMember{}
		}
		ops = append(ops, op)
		r.Begin(map[string]any{"ops": ops})
		s := treeStep{Op: op, Roots: []treeObs{}}
		for _, t := range append([]treeMember{{V: op.V}}, op.M...) {
			toks.WriteString(string(unints(t.V.S)) + " ")
		}
		s.Panic = try(func() { roots = doTree(roots, op) })
		if s.Panic == "" {
			s.Panic = try(func() {
				for _, c := range roots {
					o := treeObs{Acc: []string{}, Conv: treeText{R: "none", B: []int{}, M: mNull()}}
					o.T = obsTree(holdTree(c))
					o.T.tokens(toks)
					treeAccessors(holdTree(c), &o.Acc)
					write := func() ([]byte, error) { return holdTree(c).MarshalJSON() }
					if op.via%2 == 1 {
						if d, ok := c.(*jsonx.Document); ok {
							write = d.MarshalJSON
						} else {
							write = c.(*jsonx.Array).MarshalJSON
						}
					}
					x := jcall("MarshalJSON", "", func(o *jobs) error {
						b, err := write()
						o.raw = b
						return err
					})
					o.Text = treeText{R: x.R, Msg: x.Msg, B: []int{}, M: mNull()}
					if x.R == "ok" {
						o.Text.B = ints(x.raw)
						texts = append(texts, x.raw)
					}
					if d, ok := c.(*jsonx.Document); ok && (convAll || !more) {
						m := mNull()
						x = jcall("JSONX", "", func(*jobs) error {
							n, err := birch.DCE.JSONX(d)
							if err == nil {
								m = MV{T: 3, E: obsDoc(n)}
							}
							return err
						})
						o.Conv = treeText{R: x.R, Msg: x.Msg, B: []int{}, M: m}
					}
					s.Roots = append(s.Roots, o)
				}
			})
		}
		steps = append(steps, s)
		if s.Panic != "" || !more {
			break
		}
	}
	r.Emit(map[string]any{"steps": steps, "tab": numTable(append(texts, toks.Bytes())...)})
	r.Done()
}

func (g *Gen) treeScalar() jtJSON {
	switch g.pick(8) {
	case 0, 1:
		return scalarJT("str", []byte(strings.ToValidUTF8(string(g.str()), "é")))
	case 2:
		return scalarJT([]string{"true", "false", "null"}[g.pick(3)], nil)
	case 3:
		f := g.f64()
		if g.pick(4) == 0 {
			f = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[g.pick(3)]
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			if math.IsNaN(f) {
				f = math.Float64frombits(0x7ff8 << 48) // the payload is not kept by float32
			}
			if g.pick(3) != 0 {
				f = 1
			} else {
				return scalarJT("inf", unints(ints(mDouble(f).S)))
			}
		}
		return scalarJT("num", []byte(strconv.FormatFloat(f, 'e', -1, 64)))
	case 4:
		f := float64(g.pick(4096)-2048) / float64(int(1)<<g.pick(8)) * math.Ldexp(1, g.pick(60)-30)
		return scalarJT("num", []byte(strconv.FormatFloat(f, 'e', -1, 64)))
	case 5:
		return scalarJT("num", []byte(strconv.Itoa(g.pick(9))))
	}
	return scalarJT("num", []byte(strconv.FormatInt(g.i64(), 10)))
}

func (g *Gen) treeKey() []int {
	k := string(g.key())
	if g.pick(6) == 0 {
		k = []string{"$oid", "$date", "$minKey", "$binary", "$code", "$numberDouble", "$symbol", "", "a\"b", "\\", "\n", "é"}[g.pick(12)]
	}
	return ints([]byte(strings.ToValidUTF8(k, "ü")))
}

func recJSONTree(r *Run) {
	g := newGen(r.Seed)
	if r.In != "" {
		r.each(func(line []byte) {
			var s struct{ Ops []treeOp }
			mustJSON(line, &s)
			runJSONTree(r, func(i int, _ []any) (treeOp, bool) {
				op := s.Ops[i]
				op.via = g.pick(12)
				return op, i+1 < len(s.Ops)
			}, false)
			r.count-- // each counts the line as well
		})
		return
	}
	names := []string{"obj", "arr", "add", "add", "add", "addobj", "addarr", "nest", "copy", "copy", "take", "copymember"}
	for range r.N {
		n := 2 + g.pick(14)
		runJSONTree(r, func(i int, roots []any) (treeOp, bool) {
			op := treeOp{N: names[g.pick(len(names))], R: 1, X: 1, I: 1, K: g.treeKey(), V: g.treeScalar(), via: g.pick(12)}
			for m := g.pick(4); m > 0; m-- {
				op.M = append(op.M, treeMember{K: g.treeKey(), V: g.treeScalar()})
			}
			if i == 0 || len(roots) == 0 {
				op.N = names[g.pick(2)]
			}
			size := 0
			for _, c := range roots {
				size += treeSize(c)
			}
			if op.N == "obj" || op.N == "arr" {
				if len(roots) > 5 {
					op.N = "add"
				} else {
					return op, i+1 < n
				}
			}
			op.R, op.X = 1+g.pick(len(roots)), 1+g.pick(len(roots))
			ok := size < 60 || op.N == "add"
			switch op.N {
			case "nest":
				ok = ok && !within(roots[op.R-1], roots[op.X-1])
			case "copy":
				ok = ok && len(roots) < 6
			case "take":
				ms := members(roots[op.R-1])
				if ok = ok && len(ms) > 0 && len(roots) < 6; ok {
					op.I = 1 + g.pick(len(ms))
					ok = held(ms[op.I-1]) != nil
				}
			case "copymember":
				ms := members(roots[op.X-1])
				if ok = ok && len(ms) > 0; ok {
					op.I = 1 + g.pick(len(ms))
				}
			}
			if !ok {
				op.N = "add"
			}
			return op, i+1 < n
		}, r.N < 200)
	}
}
