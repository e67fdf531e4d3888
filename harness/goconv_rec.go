package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/types"
)

func init() { recorders["goconv"] = recGoConv }

// GV is the model's Go value.
type GV struct {
	G string
	S []byte
	O []byte
	E []GE // members of maps and sequences
	B []ME // wrapped BSON elements (doc, reader, value, ...)
}

type GE struct {
	K []byte
	V GV
}

func wrapsBSON(k string) bool {
	switch k {
	case "elements", "doc", "reader", "marshaler", "values", "value":
		return true
	}
	return false
}

func (v GV) MarshalJSON() ([]byte, error) {
	var e any
	if wrapsBSON(v.G) {
		if v.B == nil {
			v.B = []ME{}
		}
		e = v.B
	} else {
		if v.E == nil {
			v.E = []GE{}
		}
		e = v.E
	}
	return json.Marshal(map[string]any{"g": v.G, "s": ints(v.S), "o": ints(v.O), "e": e})
}

func (e GE) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]any{"k": ints(e.K), "v": e.V})
}

func (v *GV) UnmarshalJSON(b []byte) error {
	var x struct {
		G    string
		S, O []int
		E    json.RawMessage
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	v.G, v.S, v.O = x.G, unints(x.S), unints(x.O)
	if wrapsBSON(v.G) {
		return json.Unmarshal(x.E, &v.B)
	}
	return json.Unmarshal(x.E, &v.E)
}

func (e *GE) UnmarshalJSON(b []byte) error {
	var x struct {
		K []int
		V GV
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	e.K, e.V = unints(x.K), x.V
	return nil
}

type docMarshaler struct{ d *birch.Document }

func (m docMarshaler) MarshalDocument() (*birch.Document, error) { return m.d, nil }

type bsonMarshaler struct{ b []byte }

func (m bsonMarshaler) MarshalBSON() ([]byte, error) { return m.b, nil }

type failingDocMarshaler struct{}

func (failingDocMarshaler) MarshalDocument() (*birch.Document, error) {
	return nil, errors.New("no document")
}

type failingMarshaler struct{}

func (failingMarshaler) MarshalBSON() ([]byte, error) { return nil, errors.New("no bytes") }

type named string
type weird struct{ A int }

var seqKinds = []string{"string", "int64", "int32", "float64", "float32", "int", "time", "duration"}

// goValue makes the real Go value.
func goValue(g *Gen, v GV) any {
	var u uint64
	if len(v.S) == 8 {
		u = binary.LittleEndian.Uint64(v.S)
	}
	switch v.G {
	case "nil":
		return nil
	case "bool":
		return v.S[0] == 1
	case "int8":
		return int8(u)
	case "int16":
		return int16(u)
	case "int32":
		return int32(u)
	case "int64":
		return int64(u)
	case "int":
		return int(u)
	case "uint8":
		return uint8(u)
	case "uint16":
		return uint16(u)
	case "uint32":
		return uint32(u)
	case "uint":
		return uint(u)
	case "uint64":
		return u
	case "float32":
		return float32(math.Float64frombits(u))
	case "float64":
		return math.Float64frombits(u)
	case "string":
		return string(v.S)
	case "time":
		t := time.UnixMilli(int64(u))
		switch g.pick(3) {
		case 0:
			return t.UTC()
		case 1:
			return t.Add(time.Duration(g.pick(1000000))) // sub-millisecond part is dropped
		}
		return t
	case "timestamp":
		return types.Timestamp{I: binary.LittleEndian.Uint32(v.S), T: binary.LittleEndian.Uint32(v.S[4:])}
	case "seq":
		return goSeq(g, v)
	case "map":
		m := map[string]any{}
		for _, e := range v.E {
			m[string(e.K)] = goValue(g, e.V)
		}
		return m
	case "mapii":
		m := map[any]any{}
		for _, e := range v.E {
			if n, err := parseSmall(e.K); err == nil && g.pick(2) == 0 {
				m[n] = goValue(g, e.V)
			} else {
				m[string(e.K)] = goValue(g, e.V)
			}
		}
		return m
	case "mapss":
		m := map[string]string{}
		for _, e := range v.E {
			m[string(e.K)] = string(e.V.S)
		}
		return m
	case "doc":
		return buildDoc(g, v.B)
	case "reader":
		return birch.Reader(refEncode(v.B))
	case "elements":
		es := []*birch.Element{}
		for _, e := range v.B {
			es = append(es, buildElem(g, e))
		}
		return es
	case "marshaler":
		if g.pick(2) == 0 {
			return docMarshaler{buildDoc(g, v.B)}
		}
		return bsonMarshaler{refEncode(v.B)}
	case "values":
		return buildValues(g, v.B)
	case "value":
		return buildValue(g, v.B[0].V)
	case "nildoc":
		return (*birch.Document)(nil)
	case "nilvalue":
		return (*birch.Value)(nil)
	case "badreader":
		return birch.Reader{5, 0, 0, 0}
	case "failing":
		if g.pick(2) == 0 {
			return failingDocMarshaler{}
		}
		return failingMarshaler{}
	case "unsupported":
		return []any{weird{1}, &weird{2}, named("x"), make(chan int), func() {}, complex(1, 2), []bool{true}, [2]int{1, 2}, struct{}{}, []uint16{4}, errors.New("e")}[g.pick(11)]
	}
	panic("harness: go kind " + v.G)
}

func parseSmall(k []byte) (int, error) {
	n := 0
	if len(k) == 0 || len(k) > 6 || k[0] == '0' {
		return 0, errors.New("no")
	}
	for _, c := range k {
		if c < '0' || c > '9' {
			return 0, errors.New("no")
		}
		n = n*10 + int(c-'0')
	}
	return n, nil
}

func goSeq(g *Gen, v GV) any {
	kind := ""
	for i, e := range v.E {
		if i == 0 {
			kind = e.V.G
		} else if kind != e.V.G {
			kind = "mixed"
		}
	}
	if len(v.E) == 0 {
		kind = seqKinds[g.pick(len(seqKinds))]
	}
	if kind != "duration" && g.pick(3) == 0 {
		kind = "any"
	}
	n := len(v.E)
	switch kind {
	case "string":
		return typedSeq[string](g, v, n)
	case "int64":
		return typedSeq[int64](g, v, n)
	case "int32":
		return typedSeq[int32](g, v, n)
	case "float64":
		return typedSeq[float64](g, v, n)
	case "float32":
		return typedSeq[float32](g, v, n)
	case "int":
		return typedSeq[int](g, v, n)
	case "time":
		return typedSeq[time.Time](g, v, n)
	case "duration":
		out := make([]time.Duration, n)
		for i, e := range v.E {
			out[i] = time.Duration(binary.LittleEndian.Uint64(e.V.S))
		}
		return out
	}
	out := make([]any, n)
	for i, e := range v.E {
		out[i] = goValue(g, e.V)
	}
	return out
}

func typedSeq[T any](g *Gen, v GV, n int) []T {
	out := make([]T, n)
	for i, e := range v.E {
		out[i] = goValue(g, e.V).(T)
	}
	return out
}

var leafKinds = []string{"nil", "bool", "int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint", "uint64", "float32", "float64", "string", "time", "timestamp", "doc", "reader", "elements", "marshaler", "values", "value"}
var badKinds = []string{"nildoc", "nilvalue", "badreader", "failing", "unsupported"}

func (g *Gen) goLeaf(k string) GV {
	v := GV{G: k}
	i := g.i64()
	switch k {
	case "bool":
		v.S = []byte{byte(g.pick(2))}
	case "int8":
		v.S = le64(uint64(int64(int8(i))))
	case "int16":
		v.S = le64(uint64(int64(int16(i))))
	case "int32":
		v.S = le64(uint64(int64(int32(i))))
	case "int64", "int", "uint", "uint64", "duration":
		v.S = le64(uint64(i))
	case "uint8":
		v.S = le64(uint64(uint8(i)))
	case "uint16":
		v.S = le64(uint64(uint16(i)))
	case "uint32":
		v.S = le64(uint64(uint32(i)))
	case "float32":
		f := float64(float32(g.f64()))
		if math.IsNaN(f) {
			f = 1.5
		}
		v.S = le64(math.Float64bits(f))
	case "float64":
		v.S = le64(math.Float64bits(g.f64()))
	case "string":
		v.S = g.str()
	case "time":
		v.S = le64(uint64(i % 253402300800000))
	case "timestamp":
		v.S = append(le32(uint32(g.i32())), le32(uint32(g.i32()))...)
	case "doc", "reader", "elements", "marshaler":
		v.B = g.elems(2, g.pick(4))
	case "values":
		v.B = mArray(g.values(2, g.pick(4))).E
	case "value":
		v.B = []ME{{[]byte("0"), g.value(2)}}
	}
	return v
}

func (g *Gen) goVal(depth int) GV {
	switch k := g.pick(10); {
	case depth > 0 && k < 2:
		v := GV{G: "seq"}
		n := g.pick(5)
		if g.pick(2) == 0 { // homogeneous
			kind := seqKinds[g.pick(len(seqKinds))]
			for i := 0; i < n; i++ {
				v.E = append(v.E, GE{nil, g.goLeaf(kind)})
			}
			return v
		}
		for i := 0; i < n; i++ {
			v.E = append(v.E, GE{nil, g.goVal(depth - 1)})
		}
		return v
	case depth > 0 && k < 5:
		v := GV{G: []string{"map", "mapii", "mapss"}[g.pick(3)]}
		seen := map[string]bool{}
		for i := g.pick(5); i > 0; i-- {
			key := g.key()
			if seen[string(key)] {
				continue
			}
			seen[string(key)] = true
			m := g.goVal(depth - 1)
			if v.G == "mapss" {
				m = g.goLeaf("string")
			}
			v.E = append(v.E, GE{key, m})
		}
		return v
	case k == 9 && g.pick(3) == 0:
		return GV{G: badKinds[g.pick(len(badKinds))]}
	}
	return g.goLeaf(leafKinds[g.pick(len(leafKinds))])
}

func convCase(r *Run, g *Gen, v GV) {
	r.Begin(map[string]any{"area": "goconv", "value": v})
	obs := []any{}
	call := func(f, kind string, fn func() (*birch.Value, error)) {
		o := map[string]any{"f": f, "kind": kind, "r": "ok", "v": MV{}, "msg": ""}
		msg := try(func() {
			x, err := fn()
			if err != nil {
				o["r"], o["msg"] = "error", err.Error()
				return
			}
			// through bytes as well, so that the element is known to be writable
			mv := obsValue(x)
			b, err := birch.DC.Elements(birch.EC.Value("k", x)).MarshalBSON()
			if err != nil {
				panic("unwritable: " + err.Error())
			}
			d, err := birch.ReadDocument(b)
			if err != nil {
				panic("unreadable: " + err.Error())
			}
			if mv2 := obsValue(d.Lookup("k")); !sameJSON(mv, mv2) {
				panic("differs after writing")
			}
			o["v"] = mv
		})
		if msg != "" {
			o["r"], o["msg"] = "panic", msg
		}
		obs = append(obs, o)
	}
	key := string(g.key())
	withKey := func(e *birch.Element, err error) (*birch.Value, error) {
		if err != nil {
			return nil, err
		}
		if e.Key() != key {
			panic("key changed to " + e.Key())
		}
		return e.Value(), nil
	}
	call("EC.Interface", "lenient", func() (*birch.Value, error) { return withKey(birch.EC.Interface(key, goValue(g, v)), nil) })
	call("VC.Interface", "lenient", func() (*birch.Value, error) { return birch.VC.Interface(goValue(g, v)), nil })
	call("ECE.Interface", "strict", func() (*birch.Value, error) { return withKey(birch.ECE.Interface(key, goValue(g, v))) })
	call("VCE.Interface", "strict", func() (*birch.Value, error) { return birch.VCE.Interface(goValue(g, v)) })
	docVal := func(d *birch.Document) *birch.Value { return birch.VC.Document(d) }
	switch v.G {
	case "map":
		call("DC.MapInterface", "lenient", func() (*birch.Value, error) {
			return docVal(birch.DC.MapInterface(goValue(g, v).(map[string]any))), nil
		})
		call("DCE.MapInterface", "strict", func() (*birch.Value, error) {
			d, err := birch.DCE.MapInterface(goValue(g, v).(map[string]any))
			return docVal(d), err
		})
		call("VC.MapInterface", "lenient", func() (*birch.Value, error) {
			return birch.VC.MapInterface(goValue(g, v).(map[string]any)), nil
		})
		call("VCE.MapInterface", "strict", func() (*birch.Value, error) {
			return birch.VCE.MapInterface(goValue(g, v).(map[string]any))
		})
	case "mapii":
		call("DC.MapInterfaceInterface", "lenient", func() (*birch.Value, error) {
			return docVal(birch.DC.MapInterfaceInterface(goValue(g, v).(map[any]any))), nil
		})
		call("DCE.MapInterfaceInterface", "strict", func() (*birch.Value, error) {
			d, err := birch.DCE.MapInterfaceInterface(goValue(g, v).(map[any]any))
			return docVal(d), err
		})
		call("VC.MapInterfaceInterface", "lenient", func() (*birch.Value, error) {
			return birch.VC.MapInterfaceInterface(goValue(g, v).(map[any]any)), nil
		})
	case "mapss":
		call("VC.MapString", "lenient", func() (*birch.Value, error) {
			return birch.VC.MapString(goValue(g, v).(map[string]string)), nil
		})
	case "int":
		call("EC.Int", "lenient", func() (*birch.Value, error) {
			return withKey(birch.EC.Int(key, goValue(g, v).(int)), nil)
		})
		call("VC.Int", "lenient", func() (*birch.Value, error) { return birch.VC.Int(goValue(g, v).(int)), nil })
	case "time":
		call("VC.Time", "lenient", func() (*birch.Value, error) { return birch.VC.Time(goValue(g, v).(time.Time)), nil })
		call("EC.Time", "lenient", func() (*birch.Value, error) {
			return withKey(birch.EC.Time(key, goValue(g, v).(time.Time)), nil)
		})
	case "int64":
		call("VC.Duration", "lenient", func() (*birch.Value, error) {
			return birch.VC.Duration(time.Duration(goValue(g, v).(int64))), nil
		})
		call("EC.Duration", "lenient", func() (*birch.Value, error) {
			return withKey(birch.EC.Duration(key, time.Duration(goValue(g, v).(int64))), nil)
		})
	case "seq":
		call("slice constructors", "lenient", func() (*birch.Value, error) {
			switch t := goSeq(g, v).(type) {
			case []any:
				return birch.VC.SliceInterface(t), nil
			case []string:
				return birch.VC.SliceString(t), nil
			case []int64:
				return birch.VC.SliceInt64(t), nil
			case []int32:
				return birch.VC.SliceInt32(t), nil
			case []float64:
				return birch.VC.SliceFloat64(t), nil
			case []float32:
				return birch.VC.SliceFloat32(t), nil
			case []int:
				return birch.VC.SliceInt(t), nil
			case []time.Time:
				return birch.VC.SliceTime(t), nil
			case []time.Duration:
				return birch.VC.SliceDuration(t), nil
			}
			panic("harness: slice")
		})
		call("strict slice constructor", "strict", func() (*birch.Value, error) {
			t := goSeq(g, v)
			if s, ok := t.([]any); ok {
				if g.pick(2) == 0 {
					return withKey(birch.ECE.SliceInterface(key, s))
				}
				return birch.VCE.SliceInterface(s)
			}
			return birch.VCE.Interface(t)
		})
	}
	if v.G == "marshaler" || v.G == "failing" {
		switch t := goValue(g, v).(type) {
		case birch.DocumentMarshaler:
			call("ECE.DocumentMarshaler", "strict", func() (*birch.Value, error) { return withKey(birch.ECE.DocumentMarshaler(key, t)) })
			call("VCE.DocumentMarshaler", "strict", func() (*birch.Value, error) { return birch.VCE.DocumentMarshaler(t) })
			if v.G == "marshaler" {
				call("EC.DocumentMarshaler", "lenient", func() (*birch.Value, error) { return withKey(birch.EC.DocumentMarshaler(key, t), nil) })
				call("VC.DocumentMarshaler", "lenient", func() (*birch.Value, error) { return birch.VC.DocumentMarshaler(t), nil })
			}
		case birch.Marshaler:
			call("ECE.Marshaler", "strict", func() (*birch.Value, error) { return withKey(birch.ECE.Marshaler(key, t)) })
			call("VCE.Marshaler", "strict", func() (*birch.Value, error) { return birch.VCE.Marshaler(t) })
			call("DCE.Marshaler", "strict", func() (*birch.Value, error) {
				d, err := birch.DCE.Marshaler(t)
				if err != nil {
					return nil, err
				}
				return docVal(d), nil
			})
			if v.G == "marshaler" {
				call("EC.Marshaler", "lenient", func() (*birch.Value, error) { return withKey(birch.EC.Marshaler(key, t), nil) })
				call("VC.Marshaler", "lenient", func() (*birch.Value, error) { return birch.VC.Marshaler(t), nil })
				call("DC.Marshaler", "lenient", func() (*birch.Value, error) { return docVal(birch.DC.Marshaler(t)), nil })
			}
		}
	}
	switch v.G {
	case "map", "mapii", "mapss", "doc", "reader", "elements", "marshaler":
		call("DC.Interface", "lenient", func() (*birch.Value, error) { return docVal(birch.DC.Interface(goValue(g, v))), nil })
		call("DCE.Interface", "strict", func() (*birch.Value, error) {
			d, err := birch.DCE.Interface(goValue(g, v))
			return docVal(d), err
		})
	}
	r.Done()
	r.Emit(map[string]any{"op": "conv", "g": v, "obs": obs})
}

// obsGo projects a Go value produced by the library.
func obsGo(x any) GV {
	switch t := x.(type) {
	case nil:
		return GV{G: "nil"}
	case bool:
		return GV{G: "bool", S: mBool(t).S}
	case int32:
		return GV{G: "int32", S: le64(uint64(int64(t)))}
	case int64:
		return GV{G: "int64", S: le64(uint64(t))}
	case float64:
		return GV{G: "float64", S: le64(math.Float64bits(t))}
	case string:
		return GV{G: "string", S: []byte(t)}
	case []byte:
		return GV{G: "bytes", S: t}
	case time.Time:
		return GV{G: "time", S: timeMS(t).S}
	case types.Timestamp:
		return GV{G: "timestamp", S: append(le32(t.I), le32(t.T)...)}
	case types.ObjectID:
		return GV{G: "oid", S: t[:]}
	case types.Regex:
		return GV{G: "regex", S: []byte(t.Pattern), O: []byte(t.Options)}
	case types.DBPointer:
		return GV{G: "dbpointer", S: []byte(t.DB), O: t.Pointer[:]}
	case types.CodeWithScope:
		return GV{G: "codewithscope", S: []byte(t.Code), O: t.Scope}
	case types.Decimal128:
		h, l := t.GetBytes()
		return GV{G: "decimal", S: append(le64(l), le64(h)...)}
	case map[string]any:
		v := GV{G: "map"}
		for k, e := range t {
			v.E = append(v.E, GE{[]byte(k), obsGo(e)})
		}
		return v
	case map[any]any:
		v := GV{G: "map"}
		for k, e := range t {
			v.E = append(v.E, GE{[]byte(k.(string)), obsGo(e)})
		}
		return v
	case map[string]string:
		v := GV{G: "map"}
		for k, e := range t {
			v.E = append(v.E, GE{[]byte(k), obsGo(e)})
		}
		return v
	case []any:
		v := GV{G: "seq"}
		for _, e := range t {
			v.E = append(v.E, GE{nil, obsGo(e)})
		}
		return v
	}
	panic(fmt.Sprintf("unexpected Go type %T", x))
}

func recGoConv(r *Run) {
	g := newGen(r.Seed)
	if r.In != "" {
		r.each(func(line []byte) {
			var c struct{ G GV }
			mustJSON(line, &c)
			r.count--
			convCase(r, g, c.G)
		})
		return
	}
	for i := 0; i < r.N; i++ {
		if i%3 != 0 {
			convCase(r, g, g.goVal(3))
			continue
		}
		v := g.value(3)
		es := g.elems(2, g.pick(6))
		r.Begin(map[string]any{"area": "export", "v": v, "doc": es})
		out := map[string]any{"op": "export", "v": v, "doc": es, "got": GV{}, "maps": []any{}, "ss": GV{}, "err": ""}
		msg := try(func() {
			out["got"] = obsGo(buildValue(g, v).Interface())
			maps := []any{}
			add := func(f string, m any) { maps = append(maps, map[string]any{"f": f, "m": obsGo(m)}) }
			add("ExportMap", buildDoc(g, es).ExportMap())
			d, err := birch.ReadDocument(refEncode(es))
			if err != nil {
				panic(err)
			}
			m1, m2, m3 := map[string]any{}, map[any]any{}, map[string]string{}
			for _, m := range []any{m1, m2, m3} {
				if err := d.Unmarshal(m); err != nil {
					panic(err)
				}
			}
			add("Unmarshal map[string]any", m1)
			add("Unmarshal map[any]any", m2)
			out["ss"] = obsGo(m3)
			d2 := birch.DC.New()
			if err := d.Unmarshal(d2); err != nil {
				panic(err)
			}
			add("Unmarshal *Document", d2.ExportMap())
			if d.Unmarshal(&weird{}) == nil {
				panic("Unmarshal into an unsupported type succeeded")
			}
			out["maps"] = maps
		})
		if msg != "" {
			out["err"] = msg
		}
		r.Done()
		r.Emit(out)
	}
}
