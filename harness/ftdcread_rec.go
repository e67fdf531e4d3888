package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"encoding/json"
	"io"
	"runtime"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

func init() { recorders["ftdcread"] = recFTDCRead }

type zres struct {
	OK bool  `json:"ok"`
	P  []int `json:"p"`
}

// zTable decompresses the data of every document of a stream, as far as it
// can be taken apart, with the standard library.
func zTable(b []byte) []zres {
	out := []zres{}
	for len(b) >= 5 {
		n := int(int32(binary.LittleEndian.Uint32(b)))
		if n < 5 || n > len(b) {
			break
		}
		r := zres{P: []int{}}
		if d := dataOf(b[4:n]); len(d) >= 4 {
			if z, err := zlib.NewReader(bytes.NewReader(d[4:])); err == nil {
				if p, err := io.ReadAll(z); err == nil {
					r = zres{OK: true, P: ints(p)}
				}
			}
		}
		out = append(out, r)
		b = b[n:]
	}
	return out
}

// dataOf finds the bytes of the first element with the key "data" when it is
// a binary value; b is the inside of a document. What it makes of malformed
// documents does not matter.
func dataOf(b []byte) (d []byte) {
	defer func() { recover() }()
	le := func(b []byte) int { return int(int32(binary.LittleEndian.Uint32(b))) }
	for len(b) > 1 {
		t := b[0]
		z := bytes.IndexByte(b[1:], 0)
		key := string(b[1 : 1+z])
		b = b[2+z:]
		n := 0
		switch t {
		case 1, 9, 17, 18:
			n = 8
		case 2, 13, 14:
			n = 4 + le(b)
		case 3, 4, 15:
			n = le(b)
		case 5:
			n = 5 + le(b)
			if key == "data" {
				if b[4] == 2 {
					return b[9:n]
				}
				return b[5:n]
			}
		case 7:
			n = 12
		case 8:
			n = 1
		case 11:
			n = bytes.IndexByte(b, 0) + 1
			n += bytes.IndexByte(b[n:], 0) + 1
		case 12:
			n = 16 + le(b)
		case 16:
			n = 4
		case 19:
			n = 16
		}
		if key == "data" {
			return nil
		}
		b = b[n:]
	}
	return nil
}

// longRun tells whether the payload has a run of zeros for very many samples:
// a legal way to ask for gigabytes.
func longRun(p []byte) bool {
	if len(p) < 4 {
		return false
	}
	d := int(int32(binary.LittleEndian.Uint32(p)))
	if d < 5 || d+8 > len(p) || binary.LittleEndian.Uint32(p[d+4:]) < 5000 {
		return false
	}
	for r := p[d+8:]; len(r) > 0; {
		v, n := binary.Uvarint(r)
		if n <= 0 {
			return false
		}
		r = r[n:]
		if v == 0 {
			if v, n = binary.Uvarint(r); n <= 0 {
				return false
			}
			if v > 5000 {
				return true
			}
			r = r[n:]
		}
	}
	return false
}

func deflate(p []byte) []byte {
	var buf bytes.Buffer
	buf.Write(le32(uint32(len(p))))
	z := zlib.NewWriter(&buf)
	z.Write(p)
	z.Close()
	return buf.Bytes()
}

func envelope(typ uint32, last ME) []ME {
	return []ME{{K: []byte("_id"), V: MV{T: 9, S: le64(1234)}}, {K: []byte("type"), V: MV{T: 16, S: le32(typ)}}, last}
}

func chunkEnvelope(p []byte) []byte {
	return refEncode(envelope(1, ME{K: []byte("data"), V: MV{T: 5, O: []byte{0}, S: deflate(p)}}))
}

type readObs struct {
	N     int    `json:"n"`
	Err   string `json:"err"`
	Panic string `json:"panic"`
}

const readLimit = 200000 // samples; more are never expected

func readDocs(it *ftdc.Iterator[*birch.Document], keep *[][]ME) (o readObs) {
	o.Panic = try(func() {
		for d := range it.Iterator() {
			if o.N++; o.N > readLimit {
				break
			}
			if keep != nil {
				*keep = append(*keep, nn(obsDoc(d)))
			}
		}
		if err := it.Close(); err != nil {
			o.Err = "error: " + err.Error()
		}
	})
	return o
}

func (r *Run) ftdcReadCase(g *Gen, b []byte) {
	z := zTable(b)
	for _, x := range z {
		if x.OK && longRun(unints(x.P)) {
			return
		}
	}
	r.Begin(map[string]any{"b": b})
	in := append([]byte{}, b...)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	rd := func() io.Reader {
		if g.pick(4) == 0 {
			return &dribble{b: b}
		}
		return bytes.NewReader(b)
	}
	docs := [][]ME{}
	flat := readDocs(ftdc.ReadMetrics(rd()), &docs)
	structured := readDocs(ftdc.ReadStructuredMetrics(rd()), nil)
	matrix := readDocs(ftdc.ReadMatrix(rd()), nil)
	series := readDocs(ftdc.ReadSeries(rd()), nil)
	var ch readObs
	mets, sizes, metas := [][]metricObs{}, []int{}, [][][]ME{}
	ch.Panic = try(func() {
		it := ftdc.ReadChunks(rd())
		for c := range it.Iterator() {
			ch.N++
			mets, sizes = append(mets, obsChunk(c)), append(sizes, c.Size())
			md := [][]ME{}
			if c.Metadata() != nil {
				// documents are only checked at the top: what is inside a
				// malformed one is found when it is looked at
				if try(func() { md = append(md, nn(obsDoc(c.Metadata()))) }) != "" {
					md = append(md, []ME{{K: []byte("unreadable"), V: MV{T: 10}}})
				}
			}
			metas = append(metas, md)
		}
		if err := it.Close(); err != nil {
			ch.Err = "error: " + err.Error()
		}
	})
	if g.pick(10) == 0 { // leaving early is not an error and does not block
		try(func() {
			it := ftdc.ReadMetrics(rd())
			for range it.Iterator() {
				break
			}
		})
	}
	if !bytes.Equal(in, b) {
		ch.Panic = "the input was modified"
	}
	r.Done()
	runtime.ReadMemStats(&m1)
	r.Emit(map[string]any{"b": ints(b), "z": z, "mb": int((m1.TotalAlloc - m0.TotalAlloc) >> 20), "o": map[string]any{"flat": flat, "struct": structured, "matrix": matrix, "series": series, "chunks": ch,
		"docs": docs, "mets": mets, "sizes": sizes, "metas": metas}})
}

// soundParts is a stream of metadata and chunks, document by document.
func (g *Gen) soundParts() (parts [][]byte, pays [][]byte) {
	for i := 0; i < 1+g.pick(3); i++ {
		if g.pick(3) == 0 {
			parts = append(parts, refEncode(envelope(0, ME{K: []byte("doc"), V: MV{T: 3, E: g.elems(1, g.pick(3))}})))
			pays = append(pays, nil)
		}
		samples := [][]ME{g.metricDoc(1, 1+g.pick(3))}
		for j := 0; j < g.pick(4); j++ {
			samples = append(samples, g.nextSample(samples[j]))
		}
		p := refPayload(samples)
		parts = append(parts, chunkEnvelope(p))
		pays = append(pays, p)
	}
	return
}

// refPayload writes the payload of a chunk without the code under test.
func refPayload(samples [][]ME) []byte {
	out := refEncode(samples[0])
	var cols [][]uint64
	for i, s := range samples {
		fl := flatten(s)
		if i == 0 {
			cols = make([][]uint64, len(fl))
		}
		for j, x := range fl {
			cols[j] = append(cols[j], x)
		}
	}
	out = append(out, le32(uint32(len(cols)))...)
	out = append(out, le32(uint32(len(samples)-1))...)
	zeros := uint64(0)
	for _, col := range cols {
		for j := 1; j < len(col); j++ {
			d := col[j] - col[j-1]
			if d == 0 {
				zeros++
				continue
			}
			if zeros > 0 {
				out = binary.AppendUvarint(append(out, 0), zeros-1)
				zeros = 0
			}
			out = binary.AppendUvarint(out, d)
		}
	}
	if zeros > 0 {
		out = binary.AppendUvarint(append(out, 0), zeros-1)
	}
	return out
}

func flatten(es []ME) []uint64 {
	out := []uint64{}
	for _, e := range es {
		switch e.V.T {
		case 3, 4:
			out = append(out, flatten(e.V.E)...)
		case 1, 9, 18:
			out = append(out, leU64(e.V.S))
		case 8:
			out = append(out, uint64(e.V.S[0]))
		case 16:
			out = append(out, uint64(int64(int32(binary.LittleEndian.Uint32(e.V.S)))))
		case 17:
			out = append(out, uint64(binary.LittleEndian.Uint32(e.V.S[4:])), uint64(binary.LittleEndian.Uint32(e.V.S)))
		}
	}
	return out
}

func (g *Gen) damagePayload(p []byte) []byte {
	q := append([]byte{}, p...)
	d := int(binary.LittleEndian.Uint32(q)) // length of the reference document
	nm := binary.LittleEndian.Uint32(q[d:])
	for k := 0; k < 1+g.pick(2); k++ {
		if len(q) < d+9 || nm == 0 {
			return q
		}
		switch g.pick(8) {
		case 0:
			q = q[:g.pick(len(q))]
		case 1:
			q[g.pick(len(q))] ^= byte(1 << g.pick(8))
		case 2:
			q[d] = byte(g.pick(256)) // number of metrics
		case 3:
			q[d+4] = byte(g.pick(256)) // number of deltas
		case 4:
			copy(q[d+4:], [][]byte{{255, 255, 255, 255}, {0, 0, 0, 128}, {0, 0, 0, 1}, {0, 0, 1, 0}, {255, 255, 255, 127}}[g.pick(5)])
		case 5:
			i := d + 8 + g.pick(len(q)-d-8)
			q = append(q[:i:i], append(bytes.Repeat([]byte{255}, 1+g.pick(12)), q[i:]...)...)
		case 6:
			i := d + 8 + g.pick(len(q)-d-8)
			q[i] = byte(g.pick(256))
		case 7:
			q = append(q, byte(g.pick(256)))
		}
	}
	return q
}

func (g *Gen) oddEnvelope(p []byte) []byte {
	es := envelope(1, ME{K: []byte("data"), V: MV{T: 5, O: []byte{0}, S: deflate(p)}})
	switch g.pick(10) {
	case 0:
		es = es[:2]
	case 1:
		es[2].V = MV{T: 2, S: []byte("text")}
	case 2:
		es[2].V.S = es[2].V.S[:g.pick(5)]
	case 3:
		es[1].V = MV{T: 18, S: le64(1)}
	case 4:
		es[1].V = MV{T: 1, S: []byte{0, 0, 0, 0, 0, 0, 240, 63}}
	case 5:
		es[1].V.S = le32(uint32(g.pick(4)))
	case 6:
		es[1].V = MV{T: 2, S: []byte("1")}
	case 7:
		es[2].V.O = []byte{byte([]int{2, 4, 128}[g.pick(3)])}
	case 8:
		es = append([]ME{{K: []byte("type"), V: MV{T: 16, S: le32(uint32(g.pick(3)))}}}, es...)
	case 9:
		es[2].V.S = es[2].V.S[:4+g.pick(len(es[2].V.S)-4)]
	}
	return refEncode(es)
}

func recFTDCRead(r *Run) {
	g := newGen(r.Seed)
	g.MaxStr = 6
	if r.In != "" {
		r.each(func(line []byte) {
			var c struct{ Pays [][]int }
			if err := json.Unmarshal(line, &c); err != nil {
				panic("harness: " + err.Error())
			}
			var b []byte
			for _, p := range c.Pays {
				raw := make([]byte, len(p))
				for i := range p {
					raw[i] = byte(p[i])
				}
				b = append(b, chunkEnvelope(raw)...)
			}
			r.ftdcReadCase(g, b)
			r.count--
		})
		return
	}
	for i := 0; i < r.N; i++ {
		parts, pays := g.soundParts()
		if i%40 == 0 { // every truncation of a stream
			b := bytes.Join(parts, nil)
			if len(b) > 400 {
				b = b[:400]
			}
			for k := range b {
				r.ftdcReadCase(g, b[:k:k])
			}
		}
		at := g.pick(len(parts))
		kind := g.pick(10)
		switch {
		case kind < 4 && pays[at] != nil:
			parts[at] = chunkEnvelope(g.damagePayload(pays[at]))
		case kind == 4 && pays[at] != nil:
			parts[at] = g.oddEnvelope(pays[at])
		case kind == 5:
			parts[at] = append(parts[at][:0:0], g.sizeDamage(parts[at])...)
		}
		b := bytes.Join(parts, nil)
		switch kind {
		case 6:
			b = b[:g.pick(len(b)+1)]
		case 7:
			b = append([]byte{}, b...)
			b[g.pick(len(b))] ^= byte(1 << g.pick(8))
		case 8:
			k := g.pick(len(b) + 1)
			b = append(b[:k:k], append(make([]byte, 1+g.pick(6)), b[k:]...)...)
		}
		r.ftdcReadCase(g, b)
	}
}

func (g *Gen) sizeDamage(doc []byte) []byte {
	out := append([]byte{}, doc...)
	n := binary.LittleEndian.Uint32(out)
	copy(out, le32([]uint32{0, 4, 5, n - 1, n + 1, n + 100, 0xFFFFFFFF, n / 2, 0x7FFFFFFF, 0x10000000}[g.pick(10)]))
	return out
}
