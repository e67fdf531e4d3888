package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/types"
)

// MV is the model's BSON value: a type byte plus the abstract payload.
//
//	t  BSON type byte
//	s  principal payload bytes (fixed-width little endian, string bytes, ...)
//	o  secondary payload (binary subtype, regex options, dbpointer oid)
//	e  elements of a document / array / scope
type MV struct {
	T byte
	S []byte
	O []byte
	E []ME
}

// ME is a model element.
type ME struct {
	K []byte
	V MV
}

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i := range b {
		out[i] = int(b[i])
	}
	return out
}

func (v MV) MarshalJSON() ([]byte, error) {
	e := v.E
	if e == nil {
		e = []ME{}
	}
	return json.Marshal(map[string]any{"t": int(v.T), "s": ints(v.S), "o": ints(v.O), "e": e})
}

func (e ME) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]any{"k": ints(e.K), "v": e.V})
}

func unints(in []int) []byte {
	out := make([]byte, len(in))
	for i := range in {
		out[i] = byte(in[i])
	}
	return out
}

func (v *MV) UnmarshalJSON(b []byte) error {
	var x struct {
		T int
		S []int
		O []int
		E []ME
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	v.T, v.S, v.O, v.E = byte(x.T), unints(x.S), unints(x.O), x.E
	return nil
}

func (e *ME) UnmarshalJSON(b []byte) error {
	var x struct {
		K []int
		V MV
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	e.K, e.V = unints(x.K), x.V
	return nil
}

func le64(u uint64) []byte { return binary.LittleEndian.AppendUint64(nil, u) }
func le32(u uint32) []byte { return binary.LittleEndian.AppendUint32(nil, u) }

func mInt32(i int32) MV    { return MV{T: 0x10, S: le32(uint32(i))} }
func mInt64(i int64) MV    { return MV{T: 0x12, S: le64(uint64(i))} }
func mDouble(f float64) MV { return MV{T: 1, S: le64(math.Float64bits(f))} }
func mString(s string) MV  { return MV{T: 2, S: []byte(s)} }
func mDate(i int64) MV     { return MV{T: 9, S: le64(uint64(i))} }
func mBool(b bool) MV {
	if b {
		return MV{T: 8, S: []byte{1}}
	}
	return MV{T: 8, S: []byte{0}}
}
func mNull() MV { return MV{T: 10} }

// Gen is a seeded generator with boundary bias.
type Gen struct {
	*rand.Rand
	MaxStr  int
	KeyPool []string
}

func newGen(seed int64) *Gen { return &Gen{Rand: rand.New(rand.NewSource(seed)), MaxStr: 40} }

func (g *Gen) pick(n int) int        { return g.Intn(n) }
func (g *Gen) chance(p float64) bool { return g.Float64() < p }

var int64Bounds = []int64{0, 1, -1, 2, -2, 127, 128, -128, -129, 255, 256, 32767, 32768, 65535, 65536, math.MaxInt32, math.MaxInt32 - 1, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 + 1, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 40, -(1 << 40), 1 << 52, 1 << 53, 1<<53 + 1, -(1 << 53), math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 62, -(1 << 62), 1000, 999, -1000, 1700000000, 1700000000123, 253402300799999, 253402300800000, -62135596800000}

func (g *Gen) i64() int64 {
	switch g.pick(4) {
	case 0:
		return int64Bounds[g.pick(len(int64Bounds))]
	case 1:
		return int64(g.pick(21) - 10)
	case 2:
		return int64(g.Uint64() >> uint(g.pick(64)))
	default:
		return int64(g.Uint64())
	}
}

func (g *Gen) i32() int32 {
	switch g.pick(3) {
	case 0:
		return int32(int64Bounds[g.pick(len(int64Bounds))])
	case 1:
		return int32(g.pick(21) - 10)
	default:
		return int32(g.Uint32())
	}
}

var f64Bounds = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.5, 1.5, 3.14159, 1e-7, 1e21, 1e300, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 53, 1<<53 + 2, 123456789.123456789, 2.5e-310}

func (g *Gen) f64() float64 {
	switch g.pick(3) {
	case 0:
		return f64Bounds[g.pick(len(f64Bounds))]
	case 1:
		return float64(g.i32()) / float64(1+g.pick(1000))
	default:
		return math.Float64frombits(g.Uint64())
	}
}

var lenBounds = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300}

func (g *Gen) blen() int {
	switch g.pick(6) {
	case 0:
		n := lenBounds[g.pick(len(lenBounds))]
		if n > g.MaxStr {
			n = g.MaxStr
		}
		return n
	default:
		return g.pick(12)
	}
}

var strPool = []string{"", "a", "abc", "foo", "ünïcödé", "\u2028", "日本", "\x00", "a\x00b", "\x00\x00", "\xff\xfe", "quote\"d", "back\\slash", "new\nline", "tab\t", "$oid", "{}", "null", "0", "1", "-1", "\x01\x02", "\x7f", "😀", "</script>"}

func (g *Gen) str() []byte {
	if g.pick(3) == 0 {
		return []byte(strPool[g.pick(len(strPool))])
	}
	n := g.blen()
	b := make([]byte, n)
	mode := g.pick(3)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte('a' + g.pick(26))
		case 1:
			b[i] = byte(g.pick(256))
		default:
			b[i] = byte(32 + g.pick(95))
		}
	}
	return b
}

func noNul(b []byte) []byte {
	out := make([]byte, 0, len(b))
	for _, c := range b {
		if c != 0 {
			out = append(out, c)
		}
	}
	return out
}

var keyPool = []string{"a", "b", "c", "aa", "ab", "key", "", "0", "1", "2", "10", "_id", "a.b", "ü", "$x", "A", "id"}

func (g *Gen) key() []byte {
	if g.KeyPool != nil {
		return []byte(g.KeyPool[g.pick(len(g.KeyPool))])
	}
	if g.pick(4) != 0 {
		return []byte(keyPool[g.pick(len(keyPool))])
	}
	return noNul(g.str())
}

var allTypes = []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 0xff, 0x7f}

func (g *Gen) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.pick(256))
		if g.pick(4) == 0 {
			b[i] = []byte{0, 1, 0x7f, 0x80, 0xff}[g.pick(5)]
		}
	}
	return b
}

// value generates a random model value; depth bounds nesting.
func (g *Gen) value(depth int) MV {
	t := allTypes[g.pick(len(allTypes))]
	if depth <= 0 && (t == 3 || t == 4 || t == 15) {
		t = []byte{2, 16, 18, 1, 8}[g.pick(5)]
	}
	return g.valueOf(t, depth)
}

func (g *Gen) valueOf(t byte, depth int) MV {
	v := MV{T: t}
	switch t {
	case 1:
		v.S = le64(math.Float64bits(g.f64()))
	case 2, 13, 14:
		v.S = g.str()
	case 3:
		v.E = g.elems(depth-1, g.pick(5))
	case 4:
		v = mArray(g.values(depth-1, g.pick(5)))
	case 5:
		v.O = []byte{[]byte{0, 0, 1, 2, 2, 3, 4, 5, 0x80, 0x81, 0xff}[g.pick(11)]}
		v.S = g.bytes(g.blen())
	case 7:
		v.S = g.bytes(12)
	case 8:
		v.S = []byte{byte(g.pick(2))}
	case 9:
		v.S = le64(uint64(g.i64()))
	case 11:
		v.S, v.O = noNul(g.str()), noNul(g.str())
	case 12:
		v.S, v.O = g.str(), g.bytes(12)
	case 15:
		v.S, v.E = g.str(), g.elems(depth-1, g.pick(4))
	case 16:
		v.S = le32(uint32(g.i32()))
	case 17:
		v.S = append(le32(uint32(g.i32())), le32(uint32(g.i32()))...)
	case 18:
		v.S = le64(uint64(g.i64()))
	case 19:
		v.S = g.bytes(16)
	}
	return v
}

func mArray(vals []MV) MV {
	v := MV{T: 4}
	for i, x := range vals {
		v.E = append(v.E, ME{K: []byte(strconv.Itoa(i)), V: x})
	}
	return v
}

func (g *Gen) values(depth, n int) []MV {
	out := make([]MV, n)
	for i := range out {
		out[i] = g.value(depth)
	}
	return out
}

func (g *Gen) elems(depth, n int) []ME {
	out := make([]ME, n)
	for i := range out {
		out[i] = ME{K: g.key(), V: g.value(depth)}
	}
	return out
}

// ---- building real values -------------------------------------------------

func oid(b []byte) (o types.ObjectID) { copy(o[:], b); return }

// buildElem constructs a real element through one of the public constructor
// routes, chosen by g (g == nil: the plain element constructor).
func buildElem(g *Gen, e ME) *birch.Element {
	k := string(e.K)
	if g != nil && g.pick(3) == 0 {
		return birch.EC.Value(k, buildValue(g, e.V))
	}
	v := e.V
	switch v.T {
	case 1:
		return birch.EC.Double(k, math.Float64frombits(binary.LittleEndian.Uint64(v.S)))
	case 2:
		return birch.EC.String(k, string(v.S))
	case 3:
		if g != nil {
			switch g.pick(4) {
			case 0:
				es := make([]*birch.Element, len(v.E))
				for i := range v.E {
					es[i] = buildElem(g, v.E[i])
				}
				return birch.EC.SubDocumentFromElements(k, es...)
			case 1:
				b, err := buildDoc(g, v.E).MarshalBSON()
				if err != nil {
					panic(err)
				}
				return birch.EC.SubDocumentFromReader(k, birch.Reader(b))
			}
		}
		return birch.EC.SubDocument(k, buildDoc(g, v.E))
	case 4:
		return birch.EC.Array(k, buildArray(g, v.E))
	case 5:
		if v.O[0] == 0 && g != nil && g.pick(2) == 0 {
			return birch.EC.Binary(k, v.S)
		}
		return birch.EC.BinaryWithSubtype(k, v.S, v.O[0])
	case 6:
		return birch.EC.Undefined(k)
	case 7:
		return birch.EC.ObjectID(k, oid(v.S))
	case 8:
		return birch.EC.Boolean(k, v.S[0] == 1)
	case 9:
		return birch.EC.DateTime(k, int64(binary.LittleEndian.Uint64(v.S)))
	case 10:
		return birch.EC.Null(k)
	case 11:
		return birch.EC.Regex(k, string(v.S), string(v.O))
	case 12:
		return birch.EC.DBPointer(k, string(v.S), oid(v.O))
	case 13:
		return birch.EC.JavaScript(k, string(v.S))
	case 14:
		return birch.EC.Symbol(k, string(v.S))
	case 15:
		return birch.EC.CodeWithScope(k, string(v.S), buildDoc(g, v.E))
	case 16:
		return birch.EC.Int32(k, int32(binary.LittleEndian.Uint32(v.S)))
	case 17:
		return birch.EC.Timestamp(k, binary.LittleEndian.Uint32(v.S[4:]), binary.LittleEndian.Uint32(v.S))
	case 18:
		return birch.EC.Int64(k, int64(binary.LittleEndian.Uint64(v.S)))
	case 19:
		return birch.EC.Decimal128(k, types.NewDecimal128(binary.LittleEndian.Uint64(v.S[8:]), binary.LittleEndian.Uint64(v.S)))
	case 0xff:
		return birch.EC.MinKey(k)
	case 0x7f:
		return birch.EC.MaxKey(k)
	}
	panic(fmt.Sprintf("harness: bad model type %d", v.T))
}

func buildValue(g *Gen, v MV) *birch.Value {
	switch v.T {
	case 1:
		return birch.VC.Double(math.Float64frombits(binary.LittleEndian.Uint64(v.S)))
	case 2:
		return birch.VC.String(string(v.S))
	case 3:
		if g != nil {
			switch g.pick(4) {
			case 0:
				es := make([]*birch.Element, len(v.E))
				for i := range v.E {
					es[i] = buildElem(g, v.E[i])
				}
				return birch.VC.DocumentFromElements(es...)
			case 1:
				b, err := buildDoc(g, v.E).MarshalBSON()
				if err != nil {
					panic(err)
				}
				return birch.VC.DocumentFromReader(birch.Reader(b))
			}
		}
		return birch.VC.Document(buildDoc(g, v.E))
	case 4:
		if g != nil && g.pick(2) == 0 {
			return birch.VC.ArrayFromValues(buildValues(g, v.E)...)
		}
		return birch.VC.Array(buildArray(g, v.E))
	case 5:
		if v.O[0] == 0 && g != nil && g.pick(2) == 0 {
			return birch.VC.Binary(v.S)
		}
		return birch.VC.BinaryWithSubtype(v.S, v.O[0])
	case 6:
		return birch.VC.Undefined()
	case 7:
		return birch.VC.ObjectID(oid(v.S))
	case 8:
		return birch.VC.Boolean(v.S[0] == 1)
	case 9:
		return birch.VC.DateTime(int64(binary.LittleEndian.Uint64(v.S)))
	case 10:
		return birch.VC.Null()
	case 11:
		return birch.VC.Regex(string(v.S), string(v.O))
	case 12:
		return birch.VC.DBPointer(string(v.S), oid(v.O))
	case 13:
		return birch.VC.JavaScript(string(v.S))
	case 14:
		return birch.VC.Symbol(string(v.S))
	case 15:
		return birch.VC.CodeWithScope(string(v.S), buildDoc(g, v.E))
	case 16:
		return birch.VC.Int32(int32(binary.LittleEndian.Uint32(v.S)))
	case 17:
		return birch.VC.Timestamp(binary.LittleEndian.Uint32(v.S[4:]), binary.LittleEndian.Uint32(v.S))
	case 18:
		return birch.VC.Int64(int64(binary.LittleEndian.Uint64(v.S)))
	case 19:
		return birch.VC.Decimal128(types.NewDecimal128(binary.LittleEndian.Uint64(v.S[8:]), binary.LittleEndian.Uint64(v.S)))
	case 0xff:
		return birch.VC.MinKey()
	case 0x7f:
		return birch.VC.MaxKey()
	}
	panic(fmt.Sprintf("harness: bad model type %d", v.T))
}

func buildValues(g *Gen, es []ME) []*birch.Value {
	out := make([]*birch.Value, len(es))
	for i := range es {
		out[i] = buildValue(g, es[i].V)
	}
	return out
}

func buildArray(g *Gen, es []ME) *birch.Array {
	if g == nil {
		return birch.NewArray(buildValues(g, es)...)
	}
	switch g.pick(4) {
	case 0:
		a := birch.MakeArray(len(es))
		for i := range es {
			a.Append(buildValue(g, es[i].V))
		}
		return a
	case 1:
		// values that carry (irrelevant) keys of a source document
		d := birch.DC.New()
		for i := range es {
			d.Append(buildElem(g, ME{K: []byte(fmt.Sprintf("src%d", len(es)-i)), V: es[i].V}))
		}
		return birch.MakeArray(0).ExtendFromDocument(d)
	case 2:
		h := len(es) / 2
		return birch.NewArray(buildValues(g, es[:h])...).Extend(birch.NewArray(buildValues(g, es[h:])...))
	default:
		return birch.NewArray(buildValues(g, es)...)
	}
}

func buildDoc(g *Gen, es []ME) *birch.Document {
	if g == nil {
		d := birch.DC.New()
		for i := range es {
			d.Append(buildElem(nil, es[i]))
		}
		return d
	}
	els := make([]*birch.Element, len(es))
	for i := range es {
		els[i] = buildElem(g, es[i])
	}
	// the slice stays the caller's
	defer func() {
		for i := range els {
			els[i] = birch.EC.String("intruder", "x")
		}
	}()
	switch g.pick(3) {
	case 0:
		return birch.DC.Elements(els...)
	case 1:
		d := birch.DC.Make(len(els))
		for _, e := range els {
			d.Append(e)
		}
		return d
	default:
		h := len(els) / 2
		return birch.DC.Elements(els[:h]...).Extend(birch.DC.Elements(els[h:]...))
	}
}

// ---- observing real values --------------------------------------------------

// obsValue projects a real value through its typed accessors.
func obsValue(v *birch.Value) MV {
	t := byte(v.Type())
	out := MV{T: t}
	switch bsontype.Type(t) {
	case bsontype.Double:
		out.S = le64(math.Float64bits(v.Double()))
	case bsontype.String:
		out.S = []byte(v.StringValue())
	case bsontype.EmbeddedDocument:
		out.E = obsDoc(v.MutableDocument())
	case bsontype.Array:
		return obsArray(v.MutableArray())
	case bsontype.Binary:
		st, b := v.Binary()
		out.S, out.O = b, []byte{st}
	case bsontype.ObjectID:
		o := v.ObjectID()
		out.S = o[:]
	case bsontype.Boolean:
		return mBool(v.Boolean())
	case bsontype.DateTime:
		out.S = le64(uint64(v.DateTime()))
	case bsontype.Regex:
		p, o := v.Regex()
		out.S, out.O = []byte(p), []byte(o)
	case bsontype.DBPointer:
		p, o := v.DBPointer()
		out.S, out.O = []byte(p), o[:]
	case bsontype.JavaScript:
		out.S = []byte(v.JavaScript())
	case bsontype.Symbol:
		out.S = []byte(v.Symbol())
	case bsontype.CodeWithScope:
		c, d := v.MutableJavaScriptWithScope()
		out.S, out.E = []byte(c), obsDoc(d)
	case bsontype.Int32:
		out.S = le32(uint32(v.Int32()))
	case bsontype.Timestamp:
		tt, i := v.Timestamp()
		out.S = append(le32(i), le32(tt)...)
	case bsontype.Int64:
		out.S = le64(uint64(v.Int64()))
	case bsontype.Decimal128:
		h, l := v.Decimal128().GetBytes()
		out.S = append(le64(l), le64(h)...)
	}
	return out
}

func obsElem(e *birch.Element) ME { return ME{K: []byte(e.Key()), V: obsValue(e.Value())} }

func obsDoc(d *birch.Document) []ME {
	out := []ME{}
	if d == nil {
		return out
	}
	for e := range d.Iterator() {
		out = append(out, obsElem(e))
	}
	return out
}

func obsArray(a *birch.Array) MV {
	vals := []MV{}
	for v := range a.Iterator() {
		vals = append(vals, obsValue(v))
	}
	return mArray(vals)
}

// obsReader projects raw bytes through the read-only reader API.
func obsReader(r birch.Reader) ([]ME, error) {
	out := []ME{}
	for e, err := range r.Iterator() {
		if err != nil {
			return nil, err
		}
		k := []byte(e.Key())
		v := e.Value()
		switch v.Type() {
		case bsontype.EmbeddedDocument:
			es, err := obsReader(v.ReaderDocument())
			if err != nil {
				return nil, err
			}
			out = append(out, ME{k, MV{T: 3, E: es}})
		case bsontype.Array:
			es, err := obsReader(v.ReaderArray())
			if err != nil {
				return nil, err
			}
			out = append(out, ME{k, MV{T: 4, E: es}})
		case bsontype.CodeWithScope:
			c, sc := v.ReaderJavaScriptWithScope()
			es, err := obsReader(sc)
			if err != nil {
				return nil, err
			}
			out = append(out, ME{k, MV{T: 15, S: []byte(c), E: es}})
		default:
			out = append(out, ME{k, obsValue(v)})
		}
	}
	return out, nil
}

// refEncode is the harness's own encoder, used only to *produce inputs*
// (never to judge outputs; the specification does that).
func refEncode(es []ME) []byte {
	var body []byte
	for _, e := range es {
		body = append(body, e.V.T)
		body = append(body, e.K...)
		body = append(body, 0)
		body = append(body, refEncodeValue(e.V)...)
	}
	out := le32(uint32(len(body) + 5))
	out = append(out, body...)
	return append(out, 0)
}

func refStr(s []byte) []byte {
	out := le32(uint32(len(s) + 1))
	out = append(out, s...)
	return append(out, 0)
}

func refEncodeValue(v MV) []byte {
	switch v.T {
	case 2, 13, 14:
		return refStr(v.S)
	case 3, 4:
		return refEncode(v.E)
	case 5:
		if v.O[0] == 2 {
			out := le32(uint32(len(v.S) + 4))
			out = append(out, 2)
			out = append(out, le32(uint32(len(v.S)))...)
			return append(out, v.S...)
		}
		out := le32(uint32(len(v.S)))
		out = append(out, v.O[0])
		return append(out, v.S...)
	case 11:
		out := append([]byte{}, v.S...)
		out = append(out, 0)
		out = append(out, v.O...)
		return append(out, 0)
	case 12:
		return append(refStr(v.S), v.O...)
	case 15:
		body := append(refStr(v.S), refEncode(v.E)...)
		return append(le32(uint32(len(body)+4)), body...)
	default:
		return append([]byte{}, v.S...)
	}
}
