package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing/iotest"
	"time"
	"unicode/utf8"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/jsonx"
)

func init() {
	recorders["jsonout"] = recJSONOut
	recorders["jsonin"] = recJSONIn
}

// JT is a JSON tree of the model.
type JT struct {
	J string
	S []byte
	E []JM
}
type JM struct {
	K []byte
	V JT
}

func (t JT) MarshalJSON() ([]byte, error) {
	if t.E == nil {
		t.E = []JM{}
	}
	return json.Marshal(map[string]any{"j": t.J, "s": ints(t.S), "e": t.E})
}
func (m JM) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]any{"k": ints(m.K), "v": m.V})
}

type jtok struct {
	S  []int `json:"s"`
	OK bool  `json:"ok"`
	B  []int `json:"b"`
}

var numRe = regexp.MustCompile(`^-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?`)

// numTable gives the binary64 of every number token in the texts that is not
// an integer of 64 bits.
func numTable(texts ...[]byte) []jtok {
	out := []jtok{}
	seen := map[string]bool{}
	for _, b := range texts {
		for i := range b {
			if b[i] != '-' && (b[i] < '0' || b[i] > '9') {
				continue
			}
			m := numRe.Find(b[i:])
			if m == nil || seen[string(m)] {
				continue
			}
			if _, err := strconv.ParseInt(string(m), 10, 64); err == nil {
				continue
			}
			seen[string(m)] = true
			f, err := strconv.ParseFloat(string(m), 64)
			out = append(out, jtok{S: ints(m), OK: err == nil, B: ints(mDouble(f).S)})
		}
	}
	return out
}

type jobs struct {
	F    string `json:"f"`
	Kind string `json:"kind"`
	R    string `json:"r"`
	Msg  string `json:"msg"`
	B    []int  `json:"b"`
	M    any    `json:"m"`
	T    any    `json:"t"`
	raw  []byte
}

func jcall(f, kind string, fn func(o *jobs) error) jobs {
	o := jobs{F: f, Kind: kind, R: "ok", B: []int{}, M: mNull(), T: JT{J: "null"}}
	var err error
	if msg := try(func() { err = fn(&o) }); msg != "" {
		o.R, o.Msg = "panic", msg
	} else if err != nil {
		o.R, o.Msg = "error", err.Error()
	}
	return o
}

// ---- generating -----------------------------------------------------------

func (g *Gen) decimalBytes() []byte {
	if g.pick(12) == 0 {
		b := make([]byte, 16)
		b[15] = []byte{0x78, 0xf8, 0x7c}[g.pick(3)]
		return b
	}
	n := []int{0, 1, 1, 2, 3, 5, 9, 10, 17, 18, 19, 33, 34, 34}[g.pick(14)]
	coef := new(big.Int)
	for i := 0; i < n; i++ {
		d := g.pick(10)
		if g.pick(4) == 0 {
			d = 0
		}
		if g.pick(8) == 0 {
			d = 9
		}
		if i == 0 && d == 0 {
			d = 1
		}
		coef.Mul(coef, big.NewInt(10)).Add(coef, big.NewInt(int64(d)))
	}
	e := []int{0, 0, 0, 1, -1, 2, -2, -3, -5, -6, -7, -8, 3, 10, -10, -33, -34, -35, -36, 33, 34, 35, 6111, 6110, -6176, -6175, -6143, 100, -100, 5000}[g.pick(30)]
	if g.pick(4) == 0 {
		e = g.pick(12288) - 6176
	}
	return decBits(g.pick(2) == 0, coef, e)
}

func decBits(neg bool, coef *big.Int, e int) []byte {
	x := new(big.Int).SetInt64(int64(e + 6176))
	x.Lsh(x, 113)
	x.Or(x, coef)
	if neg {
		x.SetBit(x, 127, 1)
	}
	be := x.FillBytes(make([]byte, 16))
	for i := 0; i < 8; i++ {
		be[i], be[15-i] = be[15-i], be[i]
	}
	return be
}

func (g *Gen) goodDate() int64 {
	switch g.pick(4) {
	case 0:
		return g.i64()
	case 1:
		return []int64{-62135596800000, -62167219200000, -62167219200001, 253402300799999, 253402300800000, -1, -999, -1000, -1001, 999, 1, 951782400000, 951868799999, -2208988800000}[g.pick(14)]
	default:
		lo, hi := int64(-62167219200000), int64(253402300799999)
		v := lo + g.Int63n(hi-lo)
		if g.pick(2) == 0 {
			v -= v % 1000
		}
		return v
	}
}

// expressible makes most values ones that extended JSON can carry.
func (g *Gen) expressible(v MV) MV {
	fix := func(b []byte) []byte { return []byte(strings.ToValidUTF8(string(b), "é")) }
	switch v.T {
	case 2, 13, 14, 12:
		v.S = fix(v.S)
	case 11:
		v.S, v.O = fix(v.S), fix(v.O)
	case 15, 3:
		v.S = fix(v.S)
		v.E = g.exprElems(v.E)
	case 4:
		for i := range v.E {
			v.E[i].V = g.expressible(v.E[i].V)
		}
	case 19:
		v.S = g.decimalBytes()
	case 9:
		v.S = le64(uint64(g.goodDate()))
	}
	return v
}

func (g *Gen) exprElems(es []ME) []ME {
	for i := range es {
		es[i].K = []byte(strings.ToValidUTF8(string(es[i].K), "ü"))
		if i == 0 && len(es[i].K) > 0 && es[i].K[0] == '$' {
			es[i].K = append([]byte("x"), es[i].K...)
		}
		es[i].V = g.expressible(es[i].V)
	}
	return es
}

// ---- writing --------------------------------------------------------------

func recJSONOut(r *Run) {
	g := newGen(r.Seed)
	if r.In != "" {
		r.each(func(line []byte) {
			var c struct{ Doc []ME }
			mustJSON(line, &c)
			r.jsonOut(g, "doc", MV{T: 3, E: c.Doc})
			if len(c.Doc) > 0 {
				r.jsonOut(g, "val", c.Doc[0].V)
			}
			r.count -= 1 // each counts the line as well
		})
		return
	}
	for i := 0; i < r.N; i++ {
		var v MV
		kind := []string{"doc", "doc", "arr", "val"}[g.pick(4)]
		switch kind {
		case "doc":
			v = MV{T: 3, E: g.elems(3, g.pick(6))}
		case "arr":
			v = mArray(g.values(2, g.pick(6)))
		default:
			v = g.value(2)
		}
		if g.pick(10) != 0 {
			v = g.expressible(v)
		}
		r.jsonOut(g, kind, v)
	}
}

func (r *Run) jsonOut(g *Gen, kind string, v MV) {
	r.Begin(map[string]any{"op": "marshal", "kind": kind, "v": v})
	var obs []jobs
	text := func(f string, fn func() ([]byte, error)) {
		obs = append(obs, jcall(f, "text", func(o *jobs) error {
			b, err := fn()
			if err != nil {
				return err
			}
			o.B, o.raw = ints(b), append([]byte{}, b...)
			return nil
		}))
	}
	back := func(f string, fn func(b []byte) (MV, error)) {
		if len(obs) == 0 || obs[0].raw == nil {
			return
		}
		obs = append(obs, jcall(f, "back", func(o *jobs) error {
			m, err := fn(append([]byte{}, obs[0].raw...))
			if err != nil {
				return err
			}
			o.M = m
			return nil
		}))
	}
	switch kind {
	case "doc":
		d := buildDoc(g, v.E)
		text("Document.MarshalJSON", d.MarshalJSON)
		text("json.Marshal(Document)", func() ([]byte, error) { return json.Marshal(d) })
		text("Document.MarshalJSON again", d.MarshalJSON)
		back("Document.UnmarshalJSON", func(b []byte) (MV, error) {
			n := birch.DC.New()
			err := n.UnmarshalJSON(b)
			return MV{T: 3, E: obsDoc(n)}, err
		})
		back("json.Unmarshal(Document)", func(b []byte) (MV, error) {
			n := birch.DC.New()
			err := json.Unmarshal(b, n)
			return MV{T: 3, E: obsDoc(n)}, err
		})
		back("DCE.JSONX", func(b []byte) (MV, error) {
			jd, err := jsonx.DCE.Reader(bytes.NewReader(b))
			if err != nil {
				return MV{}, err
			}
			n, err := birch.DCE.JSONX(jd)
			if err != nil {
				return MV{}, err
			}
			return MV{T: 3, E: obsDoc(n)}, nil
		})
	case "arr":
		a := buildArray(g, v.E)
		text("Array.MarshalJSON", a.MarshalJSON)
		text("json.Marshal(Array)", func() ([]byte, error) { return json.Marshal(a) })
		back("Array.UnmarshalJSON", func(b []byte) (MV, error) {
			n := birch.NewArray()
			err := n.UnmarshalJSON(b)
			return obsArray(n), err
		})
	default:
		x := buildValue(g, v)
		text("Value.MarshalJSON", x.MarshalJSON)
		text("json.Marshal(Value)", func() ([]byte, error) { return json.Marshal(x) })
		back("Value.UnmarshalJSON", func(b []byte) (MV, error) {
			n := &birch.Value{}
			if err := n.UnmarshalJSON(b); err != nil {
				return MV{}, err
			}
			return obsValue(n), nil
		})
	}
	var texts [][]byte
	for _, o := range obs {
		texts = append(texts, o.raw)
	}
	r.Emit(map[string]any{"op": "marshal", "kind": kind, "v": v, "obs": obs, "tab": numTable(texts...)})
	r.Done()
}

// ---- reading --------------------------------------------------------------

func obsX(v *jsonx.Value) JT {
	switch v.Type() {
	case jsonx.String:
		return JT{J: "str", S: []byte(v.StringValue())}
	case jsonx.Bool:
		if v.Boolean() {
			return JT{J: "true"}
		}
		return JT{J: "false"}
	case jsonx.Null:
		return JT{J: "null"}
	case jsonx.NumberInteger:
		return JT{J: "num", S: []byte(strconv.Itoa(v.Int()))}
	case jsonx.NumberDouble:
		b := strconv.FormatFloat(v.Float64(), 'e', -1, 64)
		return JT{J: "num", S: []byte(b)}
	case jsonx.ObjectValue:
		return obsXDoc(v.Document())
	case jsonx.ArrayValue:
		return obsXArr(v.Array())
	}
	panic(fmt.Sprint("unexpected type ", v.Type()))
}

func obsXDoc(d *jsonx.Document) JT {
	t := JT{J: "obj"}
	i := 0
	for e := range d.Iterator() {
		if d.KeyAtIndex(i) != e.Key() || d.ElementAtIndex(i) != e {
			panic("positions and iteration of a jsonx document disagree")
		}
		t.E = append(t.E, JM{K: []byte(e.Key()), V: obsX(e.Value())})
		i++
	}
	if d.Len() != i {
		panic("length and iteration of a jsonx document disagree")
	}
	return t
}

func obsXArr(a *jsonx.Array) JT {
	t := JT{J: "arr"}
	for v := range a.Iterator() {
		t.E = append(t.E, JM{V: obsX(v)})
	}
	if a.Len() != len(t.E) {
		panic("length and iteration of a jsonx array disagree")
	}
	return t
}

func (t JT) tokens(out *bytes.Buffer) {
	if t.J == "num" {
		out.Write(t.S)
		out.WriteByte(' ')
	}
	for _, m := range t.E {
		m.V.tokens(out)
	}
}

func (r *Run) jsonIn(text []byte) {
	r.Begin(map[string]any{"op": "text", "text": string(text), "b": ints(text)})
	var obs []jobs
	extra := &bytes.Buffer{}
	in := func() []byte { return append([]byte{}, text...) }
	add := func(f, kind string, fn func() (MV, error)) {
		obs = append(obs, jcall(f, kind, func(o *jobs) error {
			m, err := fn()
			if err != nil {
				return err
			}
			o.M = m
			return nil
		}))
	}
	add("Document.UnmarshalJSON", "doc", func() (MV, error) {
		n := birch.DC.New()
		if err := n.UnmarshalJSON(in()); err != nil {
			return MV{}, err
		}
		return MV{T: 3, E: obsDoc(n)}, nil
	})
	add("Array.UnmarshalJSON", "arr", func() (MV, error) {
		n := birch.NewArray()
		if err := n.UnmarshalJSON(in()); err != nil {
			return MV{}, err
		}
		return obsArray(n), nil
	})
	add("Value.UnmarshalJSON", "val", func() (MV, error) {
		n := &birch.Value{}
		if err := n.UnmarshalJSON(in()); err != nil {
			return MV{}, err
		}
		return obsValue(n), nil
	})
	tree := func(f, kind string, fn func() (JT, json.Marshaler, error)) {
		var m json.Marshaler
		o := jcall(f, kind, func(o *jobs) error {
			t, mm, err := fn()
			if err != nil {
				return err
			}
			o.T, m = t, mm
			t.tokens(extra)
			return nil
		})
		obs = append(obs, o)
		if m != nil {
			w := jcall(f+", written again", "xtext", func(o *jobs) error {
				b, err := m.MarshalJSON()
				if err != nil {
					panic("writing failed: " + err.Error())
				}
				o.B, o.raw = ints(b), b
				return nil
			})
			obs = append(obs, w)
			extra.Write(w.raw)
			extra.WriteByte(' ')
		}
	}
	tree("jsonx.DCE.Bytes", "xdoc", func() (JT, json.Marshaler, error) {
		d, err := jsonx.DCE.Bytes(in())
		if err != nil {
			return JT{}, nil, err
		}
		return obsXDoc(d), d, nil
	})
	tree("jsonx.DCE.Reader", "xdoc", func() (JT, json.Marshaler, error) {
		d, err := jsonx.DCE.Reader(bytes.NewReader(in()))
		if err != nil {
			return JT{}, nil, err
		}
		return obsXDoc(d), d.Copy(), nil
	})
	tree("jsonx.ACE.Bytes", "xarr", func() (JT, json.Marshaler, error) {
		d, err := jsonx.ACE.Bytes(in())
		if err != nil {
			return JT{}, nil, err
		}
		return obsXArr(d), d.Copy(), nil
	})
	tree("jsonx.VCE.Bytes", "xval", func() (JT, json.Marshaler, error) {
		d, err := jsonx.VCE.Bytes(in())
		if err != nil {
			return JT{}, nil, err
		}
		return obsX(d), d.Copy(), nil
	})
	tree("jsonx.ACE.Reader", "xarr", func() (JT, json.Marshaler, error) {
		d, err := jsonx.ACE.Reader(iotest.DataErrReader(bytes.NewReader(in())))
		if err != nil {
			return JT{}, nil, err
		}
		return obsXArr(d), d, nil
	})
	tree("jsonx.VCE.Reader", "xval", func() (JT, json.Marshaler, error) {
		d, err := jsonx.VCE.Reader(iotest.HalfReader(bytes.NewReader(in())))
		if err != nil {
			return JT{}, nil, err
		}
		return obsX(d), d, nil
	})
	// the text comes, and then the reader fails
	fails := func() io.Reader {
		return io.MultiReader(bytes.NewReader(in()), iotest.ErrReader(errors.New("the reader fails")))
	}
	broken := func(f string, fn func() error) {
		obs = append(obs, jcall(f, "broken", func(*jobs) error { return fn() }))
	}
	broken("jsonx.DCE.Reader", func() error { _, err := jsonx.DCE.Reader(fails()); return err })
	broken("jsonx.ACE.Reader", func() error { _, err := jsonx.ACE.Reader(fails()); return err })
	broken("jsonx.VCE.Reader", func() error { _, err := jsonx.VCE.Reader(fails()); return err })
	r.Emit(map[string]any{"op": "text", "b": ints(text), "obs": obs, "tab": numTable(text, extra.Bytes())})
	r.Done()
}

func (g *Gen) ws() string {
	if g.pick(3) != 0 {
		return ""
	}
	return []string{" ", "\n", "\t", "\r\n", "  "}[g.pick(5)]
}

func (g *Gen) jstr(b []byte) string {
	var o strings.Builder
	o.WriteByte('"')
	for _, c := range string(b) {
		switch {
		case g.pick(12) == 0 && c < 0x10000 && c != utf8.RuneError:
			fmt.Fprintf(&o, []string{`\u%04x`, `\u%04X`}[g.pick(2)], c)
		case c >= 0x10000 && g.pick(2) == 0:
			c -= 0x10000
			fmt.Fprintf(&o, `\u%04x\u%04x`, 0xd800+c>>10, 0xdc00+c&0x3ff)
		case c == '"' || c == '\\':
			o.WriteByte('\\')
			o.WriteRune(c)
		case c == '/' && g.pick(2) == 0:
			o.WriteString(`\/`)
		case c == '\n':
			o.WriteString(`\n`)
		case c == 8:
			o.WriteString(`\b`)
		case c == 12:
			o.WriteString(`\f`)
		case c == '\r':
			o.WriteString(`\r`)
		case c == '\t':
			o.WriteString(`\t`)
		case c < 32:
			fmt.Fprintf(&o, `\u%04x`, c)
		default:
			o.WriteRune(c)
		}
	}
	o.WriteByte('"')
	return o.String()
}

var numPool = []string{"0", "-0", "1", "-1", "10", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "0.0", "1.0", "-0.0", "1e3", "1E3", "1e+3", "1e-3", "1.5e300", "1e308", "1e309", "-1e400", "1e-400", "0.1", "123456789012345678901234567890", "3.141592653589793238", "4294967295", "4294967296", "0e0", "5e-324", "1.7976931348623157e308"}
var badNums = []string{"01", "-", "+1", ".5", "1.", "1.e3", "1e", "1e+", "-.5", "-e5", "0x10", "NaN", "Infinity", "--1", "1-", "1+1", "00", "-01", "1e1.5", "1_0"}

func (g *Gen) jnum() string {
	switch g.pick(3) {
	case 0:
		return numPool[g.pick(len(numPool))]
	case 1:
		return strconv.FormatInt(g.i64(), 10)
	default:
		b, err := json.Marshal(g.f64())
		if err != nil {
			return "7"
		}
		return string(b)
	}
}

var decPool = []string{"", "0", "-0", "1", "-1", "1.5", "1E+6111", "1E+6112", "1E+6144", "1E+6145", "1E-6176", "1E-6177", "10E-6177", "9999999999999999999999999999999999", "99999999999999999999999999999999999", "10000000000000000000000000000000000", "1E6145", "0E+7000", "NaN", "Infinity", "-Infinity", "inf", "nan", "abc", "1..2", "1E", "E5", ".", "+1", "1.", ".5", "1 ", " 1", "1e5", "0.000001", "0.0000001", "1,5", "0x1", "1.0000000000000000000000000000000000", "1.00000000000000000000000000000000000", "--1", "+-1"}

func (g *Gen) jext(depth int) string {
	bad := g.pick(4) == 0
	other := func() string {
		return []string{"1", "null", "true", "[]", "{}", `"x"`, `""`, `{"a":1}`, "1.5"}[g.pick(9)]
	}
	obj := func(kv ...string) string {
		var p []string
		for i := 0; i < len(kv); i += 2 {
			if bad && g.pick(6) == 0 {
				continue
			}
			v := kv[i+1]
			if bad && g.pick(3) == 0 {
				v = other()
			}
			p = append(p, g.jstr([]byte(kv[i]))+g.ws()+":"+g.ws()+v)
		}
		if len(p) == 2 && g.pick(3) == 0 {
			p[0], p[1] = p[1], p[0]
		}
		if bad && g.pick(5) == 0 {
			p = append(p, `"extra":1`)
		}
		return "{" + g.ws() + strings.Join(p, g.ws()+","+g.ws()) + "}"
	}
	wrap := func(k, v string) string {
		if bad && g.pick(3) == 0 {
			v = other()
		}
		s := "{" + g.jstr([]byte(k)) + ":" + g.ws() + v
		if bad && g.pick(6) == 0 {
			s += `,"more":2`
		}
		return s + "}"
	}
	hexs := func(n int) string {
		s := hex.EncodeToString(g.bytes(n))
		if g.pick(6) == 0 {
			s = strings.ToUpper(s)
		}
		if bad && g.pick(2) == 0 {
			s = s[1:] + "g"
		}
		if bad && g.pick(3) == 0 {
			s = s[2:]
		}
		return `"` + s + `"`
	}
	str := func() string { return g.jstr([]byte(strings.ToValidUTF8(string(g.str()), "é"))) }
	switch g.pick(14) {
	case 0:
		return wrap("$oid", hexs(12))
	case 1:
		s := time.UnixMilli(g.goodDate()).UTC().Format([]string{time.RFC3339, "2006-01-02T15:04:05.000Z07:00", "2006-01-02T15:04:05.999Z07:00", "2006-01-02T15:04:05.000000000Z07:00"}[g.pick(4)])
		if g.pick(3) == 0 && strings.HasSuffix(s, "Z") {
			s = s[:len(s)-1] + []string{"+00:00", "-00:00", "+05:30", "-08:00", "+23:59", "-23:59"}[g.pick(6)]
		}
		if bad {
			s = []string{"yesterday", "", "2020-02-30T00:00:00Z", "2021-02-29T00:00:00Z", "2020-13-01T00:00:00Z", "2020-01-01T25:00:00Z", "2020-01-01", "2020-01-01T00:00:00", s[1:]}[g.pick(9)]
		}
		return wrap("$date", `"`+s+`"`)
	case 2:
		return wrap("$date", wrap("$numberLong", `"`+strconv.FormatInt(g.i64(), 10)+`"`))
	case 3:
		n := func() string {
			if bad {
				return []string{"-1", "4294967296", "1.5", "1e3", "9999999999999"}[g.pick(5)]
			}
			return strconv.FormatUint(uint64(uint32(g.i64())), 10)
		}
		return wrap("$timestamp", obj("t", n(), "i", n()))
	case 4:
		return wrap("$symbol", str())
	case 5:
		return wrap("$code", str())
	case 6:
		sc := "{}"
		if depth > 0 {
			sc = g.jobj(depth - 1)
		}
		s := str()
		if bad {
			if g.pick(2) == 0 {
				s = other()
			} else {
				sc = other()
			}
		}
		return `{"$code":` + s + `,"` + []string{"$scope", "$scope", "$scope", "scope"}[g.pick(4)] + `":` + sc + "}"
	case 7:
		return wrap("$dbPointer", obj("$ref", str(), "$id", hexs(12)))
	case 8:
		return wrap("$regularExpression", obj("pattern", str(), "options", str()))
	case 9:
		b := base64.StdEncoding.EncodeToString(g.bytes(g.pick(8)))
		if bad {
			b = []string{"a", "ab", "abc", "a===", "!!!!", "ab=c", b + "="}[g.pick(7)]
		}
		return wrap("$binary", obj("base64", `"`+b+`"`, "subType", `"`+[]string{"00", "02", "80", "ff", "05", "FF", "zz", "100", "1"}[g.pick(9)]+`"`))
	case 10:
		return wrap([]string{"$minKey", "$maxKey"}[g.pick(2)], "1")
	case 11:
		return wrap("$undefined", "true")
	case 12:
		return wrap("$numberDouble", []string{`"NaN"`, `"Infinity"`, `"-Infinity"`, `"1.5"`, `""`, `"x"`}[g.pick(6)])
	default:
		return wrap("$numberDecimal", `"`+g.decText()+`"`)
	}
}

func (g *Gen) decText() string {
	switch g.pick(3) {
	case 0:
		return decPool[g.pick(len(decPool))]
	case 1:
		s := ""
		for i := g.pick(38); i >= 0; i-- {
			s += strconv.Itoa(g.pick(10) * g.pick(2))
		}
		if g.pick(2) == 0 {
			i := g.pick(len(s))
			s = s[:i] + "." + s[i:]
		}
		if g.pick(2) == 0 {
			s = []string{"-", "+"}[g.pick(2)] + s
		}
		if g.pick(2) == 0 {
			s += []string{"e", "E", "E+", "e-", "E-"}[g.pick(5)] + strconv.Itoa([]int{0, 1, 7, 33, 34, 100, 6111, 6112, 6144, 6145, 6143, 6175, 6176, 6177, 6200, 6210, 9999, 12345}[g.pick(18)])
		}
		return s
	default:
		d := new(big.Int).Rand(g.Rand, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(1+g.pick(35))), nil))
		return d.String() + []string{"", "", "E+3", "E-3", "E+6111", "E-6176"}[g.pick(6)]
	}
}

func (g *Gen) jobj(depth int) string {
	var p []string
	for i := g.pick(4); i > 0; i-- {
		k := []byte(strings.ToValidUTF8(string(g.key()), "ü"))
		if g.pick(30) == 0 {
			k = []byte(strPool[g.pick(len(strPool))])
		}
		p = append(p, g.ws()+g.jstr(k)+g.ws()+":"+g.ws()+g.jval(depth-1)+g.ws())
	}
	return "{" + strings.Join(p, ",") + g.ws() + "}"
}

func (g *Gen) jarr(depth int) string {
	var p []string
	for i := g.pick(4); i > 0; i-- {
		p = append(p, g.ws()+g.jval(depth-1)+g.ws())
	}
	return "[" + strings.Join(p, ",") + g.ws() + "]"
}

func (g *Gen) jval(depth int) string {
	n := 9
	if depth <= 0 {
		n = 6
	}
	switch g.pick(n) {
	case 0:
		return g.jnum()
	case 1:
		return g.jstr([]byte(strings.ToValidUTF8(string(g.str()), "é")))
	case 2:
		return []string{"true", "false", "null"}[g.pick(3)]
	case 3:
		if g.pick(20) == 0 {
			return badNums[g.pick(len(badNums))]
		}
		return strconv.Itoa(g.pick(100))
	case 4, 5:
		return g.jext(depth)
	case 6, 7:
		return g.jobj(depth)
	default:
		return g.jarr(depth)
	}
}

const jalpha = "{}[]\":,\\/ \t\n0123456789-+.eEtrufalsn$abcx\x00\x1f\x7f"

func (g *Gen) mutateText(s string) string {
	b := []byte(s)
	for k := 1 + g.pick(2); k > 0; k-- {
		i := g.pick(len(b) + 1)
		c := jalpha[g.pick(len(jalpha))]
		switch g.pick(5) {
		case 0:
			b = append(b[:i:i], append([]byte{c}, b[i:]...)...)
		case 1:
			if i < len(b) {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 2:
			if i < len(b) {
				b = append([]byte{}, b...)
				b[i] = c
			}
		case 3:
			b = b[:i:i]
		default:
			j := g.pick(len(b) + 1)
			if i > j {
				i, j = j, i
			}
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		}
	}
	return string(b)
}

func (g *Gen) jsonText() string {
	var s string
	switch g.pick(6) {
	case 0:
		s = g.jval(2)
	case 1:
		s = g.jarr(2)
	default:
		s = g.jobj(3)
	}
	if g.pick(8) == 0 {
		s = `{"a":` + badNums[g.pick(len(badNums))] + "}"
	}
	if g.pick(3) == 0 {
		s = g.mutateText(s)
	}
	if g.pick(6) == 0 {
		s = g.ws() + s + g.ws()
	}
	if g.pick(40) == 0 { // deep nesting
		n := 1 + g.pick(25)
		s = strings.Repeat(`[{"a":`, n) + "1" + strings.Repeat("}]", n)
		if g.pick(2) == 0 {
			s = s[:g.pick(len(s))]
		}
	}
	return s
}

func recJSONIn(r *Run) {
	g := newGen(r.Seed)
	if r.In != "" {
		r.each(func(line []byte) {
			var c struct{ B []int }
			mustJSON(line, &c)
			r.jsonIn(unints(c.B))
			r.count--
		})
		return
	}
	for i := 0; i < r.N; i++ {
		r.jsonIn([]byte(g.jsonText()))
	}
}
