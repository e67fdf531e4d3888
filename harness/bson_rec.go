package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"strconv"

	"github.com/tychoish/birch"
)

func init() {
	recorders["codec"] = recCodec
	recorders["bytes"] = recBytes
}

// structured documents that hit size boundaries (many elements, long arrays,
// deep nesting), rotated through by case number.
func (g *Gen) bigElems(i int) []ME {
	switch i % 12 {
	case 0:
		return g.elems(1, []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130}[g.pick(13)])
	case 1: // long arrays: index keys of 1, 2, 3 (and 4) digits
		n := []int{9, 10, 11, 12, 99, 100, 101, 102}[g.pick(8)]
		return []ME{{K: g.key(), V: mArray(g.values(0, n))}, {K: []byte("tail"), V: mInt32(7)}}
	case 2:
		vals := make([]MV, []int{999, 1000, 1001, 1002}[g.pick(4)])
		for j := range vals {
			vals[j] = mInt32(int32(j))
			if j%97 == 0 {
				vals[j] = mNull()
			}
		}
		return []ME{{K: []byte("arr"), V: mArray(vals)}, {K: []byte("tail"), V: mInt32(7)}}
	case 3, 4: // deep nesting
		v := g.value(1)
		for d := 0; d < 5+g.pick(25); d++ {
			switch g.pick(3) {
			case 0:
				v = mArray(append(g.values(0, g.pick(3)), v))
			case 1:
				v = MV{T: 15, S: g.str(), E: append(g.elems(0, g.pick(2)), ME{g.key(), v})}
			default:
				v = MV{T: 3, E: append([]ME{{g.key(), v}}, g.elems(0, g.pick(3))...)}
			}
		}
		return []ME{{g.key(), v}, {[]byte("tail"), mInt64(9)}}
	case 5, 6: // one element of each type with a shared long key
		g2 := *g
		g2.MaxStr = 300
		k := bytes.Repeat([]byte("k"), lenBounds[g.pick(len(lenBounds))])
		var es []ME
		for _, t := range allTypes {
			es = append(es, ME{append(append([]byte{}, k...), strconv.Itoa(int(t))...), g2.valueOf(t, 2)})
		}
		return es
	case 7: // long payloads
		n := []int{1000, 1023, 1024, 1025, 2047, 2048}[g.pick(6)]
		t := []byte{2, 13, 14, 5, 12, 11, 15}[g.pick(7)]
		v := g.valueOf(t, 1)
		v.S = bytes.Repeat([]byte{byte('a' + g.pick(26))}, n)
		return []ME{{g.key(), v}, {[]byte("t"), mBool(true)}}
	case 8: // arrays of arrays / documents / scopes
		n := 1 + g.pick(12)
		vals := make([]MV, n)
		for j := range vals {
			vals[j] = g.valueOf([]byte{3, 4, 15}[g.pick(3)], 3)
		}
		return []ME{{g.key(), mArray(vals)}}
	default:
		return g.elems(3, g.pick(20))
	}
}

// heldBytes remembers results and notices when later calls change them.
type heldBytes struct {
	name       string
	live, copy []byte
}

func hold(name string, b []byte) heldBytes {
	return heldBytes{name, b, append([]byte{}, b...)}
}

func recCodec(r *Run) {
	g := newGen(r.Seed)
	var held []heldBytes
	for i := 0; i < r.N; i++ {
		var es []ME
		switch {
		case i < len(allTypes)*2:
			es = []ME{{g.key(), g.valueOf(allTypes[i%len(allTypes)], 2)}}
		case i%6 == 0:
			es = g.bigElems(i / 6)
		default:
			g.MaxStr = 40
			es = g.elems(g.pick(4), g.pick(8))
		}
		if es == nil {
			es = []ME{}
		}
		r.Begin(map[string]any{"area": "codec", "doc": es})
		out := map[string]any{"op": "codec", "doc": es, "bytes": []int{}, "dec": []ME{}, "rdec": []ME{}, "size": 0, "err": "", "diff": []string{}}
		var b []byte
		msg := try(func() {
			d := buildDoc(g, es)
			sz, err := d.Validate()
			if err != nil {
				out["err"] = "validate: " + err.Error()
				return
			}
			out["size"] = int(sz)
			b, err = d.MarshalBSON()
			if err != nil {
				out["err"] = "marshal: " + err.Error()
				return
			}
			out["bytes"] = ints(b)
			diff := []string{}
			same := func(name string, got []byte, err error) {
				if err != nil {
					diff = append(diff, name+": "+err.Error())
				} else if !bytes.Equal(got, b) {
					diff = append(diff, name+": different bytes")
				}
			}
			// every other way of writing the same document
			b2, err := d.MarshalBSON()
			same("second marshal", b2, err)
			// a result belongs to the caller
			for j := range b2 {
				b2[j] ^= 0xaa
			}
			b2, err = d.MarshalBSON()
			same("marshal after writing into a result", b2, err)
			var buf bytes.Buffer
			n, err := d.WriteTo(&buf)
			same("WriteTo", buf.Bytes(), err)
			if n != int64(len(b)) {
				diff = append(diff, "WriteTo count")
			}
			buf.Reset()
			var parts []byte
			for e := range d.Iterator() {
				eb, err := e.MarshalBSON()
				if err != nil {
					diff = append(diff, "element marshal: "+err.Error())
				}
				nn, err := e.WriteTo(&buf)
				if err != nil || int(nn) != len(eb) {
					diff = append(diff, "element WriteTo")
				}
				es, err := e.Validate()
				if err != nil || int(es) != len(eb) {
					diff = append(diff, "element size")
				}
				parts = append(parts, eb...)
			}
			wrap := func(p []byte) []byte { return append(append(le32(uint32(len(p)+5)), p...), 0) }
			same("elements", wrap(parts), nil)
			same("elements WriteTo", wrap(buf.Bytes()), nil)
			// as an array element value, and as a nested document
			outer := birch.DC.Elements(birch.EC.SubDocument("x", d), birch.EC.Int32("y", 1))
			ob, err := outer.MarshalBSON()
			if err != nil {
				diff = append(diff, "nested marshal: "+err.Error())
			} else {
				same("nested", ob[7:len(ob)-8], nil)
				od, err := birch.ReadDocument(ob)
				if err != nil {
					diff = append(diff, "nested read: "+err.Error())
				} else {
					same("nested reader", []byte(od.Lookup("x").ReaderDocument()), nil)
					sb, err := od.Lookup("x").MutableDocument().MarshalBSON()
					same("nested mutable", sb, err)
					ob2, err := od.MarshalBSON()
					if err != nil || !bytes.Equal(ob, ob2) {
						diff = append(diff, "nested rewrite after traversal")
					}
				}
			}
			arr := birch.NewArray(birch.VC.Int32(1), birch.VC.Document(d))
			ab, err := arr.MarshalBSON()
			if err != nil {
				diff = append(diff, "array marshal: "+err.Error())
			} else if len(ab) < 15 {
				diff = append(diff, "array marshal short")
			} else {
				same("inside array", ab[14:len(ab)-1], nil)
				held = append(held, hold("array bytes", ab))
			}
			held = append(held, hold("document bytes", b))
			rb, err := birch.Reader(b).MarshalBSON()
			same("reader marshal", rb, err)
			// every way of reading it back
			dec, err := birch.ReadDocument(b)
			if err != nil {
				out["err"] = "read: " + err.Error()
				return
			}
			b3, err := dec.MarshalBSON()
			same("rewrite before access", b3, err)
			out["dec"] = obsDoc(dec)
			b3, err = dec.MarshalBSON()
			same("rewrite after access", b3, err)
			rdec, err := obsReader(birch.Reader(b))
			if err != nil {
				out["err"] = "reader: " + err.Error()
				return
			}
			out["rdec"] = rdec
			d2 := birch.DC.New()
			cnt, err := d2.ReadFrom(bytes.NewReader(append(append([]byte{}, b...), 1, 2, 3)))
			if err != nil || cnt != int64(len(b)) {
				diff = append(diff, fmt.Sprint("ReadFrom ", cnt, err))
			} else {
				b4, err := d2.MarshalBSON()
				same("ReadFrom", b4, err)
			}
			nr, err := birch.NewFromIOReader(&dribble{b: append(append([]byte{}, b...), 9)})
			same("NewFromIOReader", []byte(nr), err)
			held = append(held, hold("reader bytes", nr))
			dd, err := birch.DCE.ReadFrom(&dribble{b: b})
			if err != nil {
				diff = append(diff, "DCE.ReadFrom: "+err.Error())
			} else {
				b5, err := dd.MarshalBSON()
				same("DCE.ReadFrom", b5, err)
			}
			dd, err = birch.DCE.Reader(birch.Reader(b))
			if err != nil {
				diff = append(diff, "DCE.Reader: "+err.Error())
			} else {
				b5, err := dd.MarshalBSON()
				same("DCE.Reader", b5, err)
			}
			dd, err = birch.DCE.Marshaler(d)
			if err != nil {
				diff = append(diff, "DCE.Marshaler: "+err.Error())
			} else {
				b5, err := dd.MarshalBSON()
				same("DCE.Marshaler", b5, err)
			}
			for _, h := range held {
				if !bytes.Equal(h.live, h.copy) {
					diff = append(diff, "earlier result changed: "+h.name)
				}
			}
			if len(held) > 40 {
				held = held[len(held)-30:]
			}
			out["diff"] = diff
		})
		if msg != "" {
			out["err"] = "panic: " + msg
		}
		r.Done()
		r.Emit(out)
	}
}

// dribble hands out one to three bytes per Read.
type dribble struct {
	b []byte
	n int
}

func (d *dribble) Read(p []byte) (int, error) {
	if len(d.b) == 0 {
		return 0, io.EOF
	}
	d.n++
	n := 1 + d.n%3
	if n > len(p) {
		n = len(p)
	}
	if n > len(d.b) {
		n = len(d.b)
	}
	copy(p, d.b[:n])
	d.b = d.b[n:]
	return n, nil
}

var lenMut = []int64{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 255, 256, math.MaxInt32, math.MaxInt32 - 3, math.MaxInt32 - 4, math.MaxInt32 - 16, math.MinInt32, math.MinInt32 + 1, -4, -5, -12, -13, 65535, 1 << 24, -100}

// mutateBytes damages an encoded document.
func (g *Gen) mutateBytes(b []byte) []byte {
	b = append([]byte{}, b...)
	n := 1 + g.pick(2)
	for i := 0; i < n; i++ {
		if len(b) == 0 {
			return b
		}
		switch g.pick(9) {
		case 0: // truncate
			b = b[:g.pick(len(b)+1)]
		case 1: // truncate and fix up the length
			b = b[:g.pick(len(b)+1)]
			if len(b) >= 4 {
				binary.LittleEndian.PutUint32(b, uint32(len(b)))
			}
		case 2: // flip a byte
			b[g.pick(len(b))] = byte(g.pick(256))
		case 3: // interesting byte
			b[g.pick(len(b))] = []byte{0, 1, 2, 3, 4, 5, 6, 8, 0x0b, 0x0c, 0x0f, 0x13, 0x14, 0x7f, 0x80, 0xff}[g.pick(16)]
		case 4, 5: // damage something that looks like a length
			var cand []int
			for p := 0; p+4 <= len(b); p++ {
				if b[p+2] == 0 && b[p+3] == 0 && b[p+1] == 0 && b[p] > 0 {
					cand = append(cand, p)
				}
			}
			if len(cand) == 0 {
				continue
			}
			p := cand[g.pick(len(cand))]
			v := lenMut[g.pick(len(lenMut))]
			switch g.pick(3) {
			case 0:
				v = int64(binary.LittleEndian.Uint32(b[p:])) + int64(g.pick(5)-2)
			case 1:
				v = int64(len(b)-p) + int64(g.pick(13)-6)
			}
			binary.LittleEndian.PutUint32(b[p:], uint32(int32(v)))
		case 6: // delete a byte
			p := g.pick(len(b))
			b = append(b[:p], b[p+1:]...)
			if g.pick(2) == 0 && len(b) >= 4 {
				binary.LittleEndian.PutUint32(b, uint32(len(b)))
			}
		case 7: // insert a byte
			p := g.pick(len(b) + 1)
			b = append(b[:p], append([]byte{byte(g.pick(4))}, b[p:]...)...)
			if g.pick(2) == 0 && len(b) >= 4 {
				binary.LittleEndian.PutUint32(b, uint32(len(b)))
			}
		case 8: // trailing garbage
			b = append(b, g.bytes(1+g.pick(6))...)
		}
	}
	return b
}

// genBytes produces a byte string near the set of well-formed documents.
func (g *Gen) genBytes(i int) []byte {
	switch {
	case i%10 == 0:
		b := g.bytes(g.pick(24))
		if len(b) >= 4 && g.pick(2) == 0 {
			binary.LittleEndian.PutUint32(b, uint32(len(b)))
		}
		return b
	case i%10 == 1:
		return refEncode(g.elems(3, g.pick(5)))
	}
	var es []ME
	g.MaxStr = 20
	if i%10 < 6 { // a single element of a chosen type, so damage hits it
		es = []ME{{[]byte("k"), g.valueOf(allTypes[g.pick(len(allTypes))], 1+g.pick(2))}}
		if g.pick(2) == 0 {
			es = append(es, ME{[]byte("z"), g.value(0)})
		}
	} else {
		es = g.elems(2, 1+g.pick(4))
	}
	b := refEncode(es)
	return g.mutateBytes(b)
}

type bobs map[string]any

func recBytes(r *Run) {
	g := newGen(r.Seed)
	for i := 0; i < r.N; i++ {
		b := g.genBytes(i)
		r.Begin(map[string]any{"area": "bytes", "bytes": ints(b)})
		out := map[string]any{"op": "bytes", "bytes": ints(b), "obs": observeBytes(b)}
		r.Done()
		r.Emit(out)
	}
}

func observeBytes(in []byte) []bobs {
	obs := []bobs{}
	add := func(f, kind string, fn func(o bobs) error) {
		o := bobs{"f": f, "kind": kind, "r": "", "n": -1, "msg": "", "e": []ME{}, "b": []int{}}
		var err error
		msg := try(func() { err = fn(o) })
		switch {
		case msg != "":
			o["r"], o["msg"] = "panic", msg
		case err != nil:
			o["r"], o["msg"] = "err", err.Error()
		default:
			o["r"] = "ok"
		}
		obs = append(obs, o)
	}
	cp := func() []byte { return append([]byte{}, in...) }
	deepOK := false
	add("Reader.Validate", "deep", func(o bobs) error {
		n, err := birch.Reader(cp()).Validate()
		if err == nil {
			o["n"] = int(n)
			deepOK = true
		}
		return err
	})
	add("Reader.MarshalBSON", "deep", func(o bobs) error {
		_, err := birch.Reader(cp()).MarshalBSON()
		return err
	})
	add("ReadDocument", "shallow", func(o bobs) (err error) {
		_, err = birch.ReadDocument(cp())
		return err
	})
	add("ReadDocument+Validate", "deep", func(o bobs) error {
		d, err := birch.ReadDocument(cp())
		if err != nil {
			return err
		}
		n, err := d.Validate()
		o["n"] = int(n)
		return err
	})
	add("ReadDocument+MarshalBSON", "rewrite", func(o bobs) error {
		d, err := birch.ReadDocument(cp())
		if err != nil {
			return err
		}
		out, err := d.MarshalBSON()
		o["b"] = ints(out)
		return err
	})
	// the stream readers allocate what the length prefix asks for; gigabyte
	// prefixes are tried only now and then
	huge := len(in) >= 4 && binary.LittleEndian.Uint32(in) > 1<<22 && in[3] < 0x80
	if huge && in[len(in)-1]%32 != 7 {
		observeBytesInMemory(in, obs, add, deepOK)
		return obs
	}
	add("ReadFrom+MarshalBSON", "rewrite", func(o bobs) error {
		d := birch.DC.New()
		if _, err := d.ReadFrom(bytes.NewReader(cp())); err != nil {
			return err
		}
		out, err := d.MarshalBSON()
		o["b"] = ints(out)
		return err
	})
	add("NewFromIOReader", "shallow", func(o bobs) error {
		_, err := birch.NewFromIOReader(bytes.NewReader(cp()))
		return err
	})
	add("NewFromIOReader+MarshalBSON", "rewrite", func(o bobs) error {
		rd, err := birch.NewFromIOReader(bytes.NewReader(cp()))
		if err != nil {
			return err
		}
		out, err := rd.MarshalBSON()
		o["b"] = ints(out)
		return err
	})
	add("DCE.ReadFrom", "shallow", func(o bobs) error {
		_, err := birch.DCE.ReadFrom(bytes.NewReader(cp()))
		return err
	})
	observeBytesInMemory(in, obs, add, deepOK)
	return obs
}

func observeBytesInMemory(in []byte, _ []bobs, add func(string, string, func(bobs) error), deepOK bool) {
	cp := func() []byte { return append([]byte{}, in...) }
	add("DCE.Reader", "shallow", func(o bobs) error {
		_, err := birch.DCE.Reader(birch.Reader(cp()))
		return err
	})
	add("DocumentMap.UnmarshalBSON", "shallow", func(o bobs) error {
		return birch.DocumentMap{}.UnmarshalBSON(cp())
	})
	add("ECE.Interface(Reader)", "shallow", func(o bobs) error {
		_, err := birch.ECE.Interface("x", birch.Reader(cp()))
		return err
	})
	add("Reader.Iterator", "shallow", func(o bobs) error {
		for _, err := range birch.Reader(cp()).Iterator() {
			if err != nil {
				return err
			}
		}
		return nil
	})
	add("Reader.Iterator break", "any", func(o bobs) error {
		for range birch.Reader(cp()).Iterator() {
			break
		}
		return nil
	})
	add("Reader.ElementAt", "any", func(o bobs) error {
		for i := uint(0); i < 4; i++ {
			if _, err := birch.Reader(cp()).ElementAt(i); err != nil {
				return err
			}
		}
		return nil
	})
	add("Reader.RecursiveLookup", "any", func(o bobs) error {
		for _, ks := range [][]string{{"k"}, {"a"}, {"k", "a"}, {"k", "0"}, {"zz"}, {"k", "0", "0"}, {"k", "a", "b"}} {
			birch.Reader(cp()).RecursiveLookup(ks...)
		}
		return nil
	})
	if deepOK {
		add("document content", "content", func(o bobs) error {
			d, err := birch.ReadDocument(cp())
			if err != nil {
				return err
			}
			o["e"] = obsDoc(d)
			return nil
		})
		add("reader content", "content", func(o bobs) error {
			es, err := obsReader(birch.Reader(cp()))
			o["e"] = es
			if es == nil {
				o["e"] = []ME{}
			}
			return err
		})
		add("traverse+MarshalBSON", "rewrite", func(o bobs) error {
			d, err := birch.ReadDocument(cp())
			if err != nil {
				return err
			}
			obsDoc(d)
			out, err := d.MarshalBSON()
			o["b"] = ints(out)
			return err
		})
	}
}

func init() { replayers["codec"] = replayCodec }

func replayCodec(r *Run) {
	g := newGen(r.Seed)
	r.each(func(line []byte) {
		var c struct {
			Doc   []ME
			Bytes []int
		}
		mustJSON(line, &c)
		want := unints(c.Bytes)
		for pass := 0; pass < 2; pass++ {
			gg := g
			if pass == 0 {
				gg = nil
			}
			var b []byte
			var err error
			msg := try(func() { b, err = buildDoc(gg, c.Doc).MarshalBSON() })
			if msg != "" || err != nil || !bytes.Equal(b, want) {
				r.mismatch("bytes of a constructed document", c.Doc, c.Bytes, map[string]any{"bytes": ints(b), "panic": msg, "err": fmt.Sprint(err)})
			}
		}
		var dec []ME
		msg := try(func() {
			d, err := birch.ReadDocument(want)
			if err != nil {
				panic(err)
			}
			dec = obsDoc(d)
		})
		if msg != "" || !sameJSON(dec, c.Doc) {
			r.mismatch("document read from bytes", c.Bytes, c.Doc, map[string]any{"doc": dec, "panic": msg})
		}
	})
}

func init() { replayers["bytes"] = replayBytes }

func replayBytes(r *Run) {
	bad := 0
	r.each(func(line []byte) {
		var c struct {
			Bytes []int
			Ok    bool
			N     int
			Doc   []ME
		}
		mustJSON(line, &c)
		for _, o := range observeBytes(unints(c.Bytes)) {
			why := ""
			res := o["r"].(string)
			switch kind := o["kind"].(string); {
			case res == "panic":
				why = "panic"
			case kind == "deep" && (res == "ok") != c.Ok:
				why = "acceptance"
			case kind == "deep" && c.Ok && o["n"].(int) >= 0 && o["n"].(int) != c.N:
				why = "size"
			case c.Ok && res != "ok" && kind != "any":
				why = "rejection of well-formed bytes"
			case !c.Ok && kind == "rewrite" && res == "ok":
				why = "malformed bytes written again"
			case kind == "content" && c.Ok && !sameJSON(normArrays(o["e"].([]ME)), normArrays(c.Doc)):
				why = "content"
			}
			if why != "" && bad < 30 {
				bad++
				r.mismatch(why+" in "+o["f"].(string), c.Bytes, map[string]any{"ok": c.Ok, "n": c.N, "doc": c.Doc}, o)
			}
		}
	})
}

// normArrays numbers array elements by position (array keys carry no meaning).
func normArrays(es []ME) []ME {
	out := make([]ME, len(es))
	for i, e := range es {
		v := e.V
		v.E = normArrays(v.E)
		if v.T == 4 {
			for j := range v.E {
				v.E[j].K = []byte(strconv.Itoa(j))
			}
		}
		out[i] = ME{e.K, v}
	}
	return out
}
