package main

import (
	"bytes"
	"encoding/binary"
	"math"

	"github.com/tychoish/birch/elements"
)

func init() { recorders["encoders"] = recEncoders }

type encCase struct {
	F     string `json:"f"`
	K     []int  `json:"k"`
	V     MV     `json:"v"`
	Start int    `json:"start"`
	Size  int    `json:"size"`
	Buf   []int  `json:"buf"`
	N     int    `json:"n"`
	Err   string `json:"err"`
	Out   []int  `json:"out"`
	Rest  bool   `json:"rest"`
	Kept  bool   `json:"kept"`
	Panic string `json:"panic"`
}

// encodeAt calls the encoder of the value.
func encodeAt(c *encCase, start uint, w []byte) (int, error) {
	v, key, elem := c.V, string(unints(c.K)), c.F == "elem"
	u64 := func() uint64 { return binary.LittleEndian.Uint64(v.S) }
	switch c.F {
	case "cstring":
		return elements.CString.Encode(start, w, key)
	case "byte":
		return elements.Byte.Encode(start, w, v.T)
	}
	switch v.T {
	case 1:
		if elem {
			return elements.Double.Element(start, w, key, math.Float64frombits(u64()))
		}
		return elements.Double.Encode(start, w, math.Float64frombits(u64()))
	case 2:
		if elem {
			return elements.String.Element(start, w, key, string(v.S))
		}
		return elements.String.Encode(start, w, string(v.S))
	case 3, 4:
		doc := refEncode(v.E)
		before := bytes.Clone(doc)
		defer func() { c.Kept = bytes.Equal(doc, before) }()
		switch {
		case v.T == 3 && elem:
			return elements.Document.Element(start, w, key, doc)
		case v.T == 3:
			return elements.Document.Encode(start, w, doc)
		case elem:
			return elements.Array.Element(start, w, key, doc)
		}
		return elements.Array.Encode(start, w, doc)
	case 5:
		b := bytes.Clone(v.S)
		defer func() { c.Kept = bytes.Equal(b, v.S) }()
		if elem {
			return elements.Binary.Element(start, w, key, b, v.O[0])
		}
		return elements.Binary.Encode(start, w, b, v.O[0])
	case 7:
		if elem {
			return elements.ObjectID.Element(start, w, key, oid(v.S))
		}
		return elements.ObjectID.Encode(start, w, oid(v.S))
	case 8:
		if elem {
			return elements.Boolean.Element(start, w, key, v.S[0] == 1)
		}
		return elements.Boolean.Encode(start, w, v.S[0] == 1)
	case 9:
		if elem {
			return elements.DateTime.Element(start, w, key, int64(u64()))
		}
		return elements.DateTime.Encode(start, w, int64(u64()))
	case 11:
		if elem {
			return elements.Regex.Element(start, w, key, string(v.S), string(v.O))
		}
		return elements.Regex.Encode(start, w, string(v.S), string(v.O))
	case 12:
		if elem {
			return elements.DBPointer.Element(start, w, key, string(v.S), oid(v.O))
		}
		return elements.DBPointer.Encode(start, w, string(v.S), oid(v.O))
	case 13:
		if elem {
			return elements.JavaScript.Element(start, w, key, string(v.S))
		}
		return elements.JavaScript.Encode(start, w, string(v.S))
	case 14:
		if elem {
			return elements.Symbol.Element(start, w, key, string(v.S))
		}
		return elements.Symbol.Encode(start, w, string(v.S))
	case 15:
		doc := refEncode(v.E)
		before := bytes.Clone(doc)
		defer func() { c.Kept = bytes.Equal(doc, before) }()
		if elem {
			return elements.CodeWithScope.Element(start, w, key, string(v.S), doc)
		}
		return elements.CodeWithScope.Encode(start, w, string(v.S), doc)
	case 16:
		i := int32(binary.LittleEndian.Uint32(v.S))
		if elem {
			return elements.Int32.Element(start, w, key, i)
		}
		return elements.Int32.Encode(start, w, i)
	case 17:
		i, t := binary.LittleEndian.Uint32(v.S), binary.LittleEndian.Uint32(v.S[4:])
		if elem {
			return elements.Timestamp.Element(start, w, key, t, i)
		}
		return elements.Timestamp.Encode(start, w, t, i)
	case 18:
		if elem {
			return elements.Int64.Element(start, w, key, int64(u64()))
		}
		return elements.Int64.Encode(start, w, int64(u64()))
	case 19:
		if elem {
			return elements.Decimal128.Element(start, w, key, decOf(v.S))
		}
		return elements.Decimal128.Encode(start, w, decOf(v.S))
	}
	panic("harness: no encoder")
}

func (r *Run) recEncode(c *encCase) {
	c.Buf, c.Out = []int{}, []int{}
	r.Begin(c)
	whole := make([]byte, c.Size+24)
	for i := range whole {
		whole[i] = byte(200 + i*7)
	}
	before := bytes.Clone(whole)
	w := whole[:c.Size]
	c.Buf, c.Kept = ints(w), true
	c.Panic = try(func() {
		var err error
		c.N, err = encodeAt(c, uint(c.Start), w)
		c.Err = errText(err)
	})
	c.Out = ints(w)
	c.Rest = bytes.Equal(whole[c.Size:], before[c.Size:])
	r.Emit(c)
	r.Done()
}

func recEncoders(r *Run) {
	g := newGen(r.Seed)
	if r.In != "" {
		r.each(func(line []byte) {
			c := &encCase{}
			mustJSON(line, c)
			r.recEncode(c)
			r.count-- // each counts the line as well
		})
		return
	}
	for range r.N {
		c := &encCase{F: []string{"elem", "elem", "value", "value", "cstring", "byte"}[g.pick(6)], K: ints(noNul(g.key()))}
		for {
			if c.V = g.value(2); c.V.T != 6 && c.V.T != 10 && c.V.T != 127 && c.V.T != 255 {
				break
			}
		}
		c.Start = g.pick(40)
		need := len(c.K) + 2 + len(refEncodeValue(c.V))
		switch g.pick(5) {
		case 0:
			c.Size = g.pick(c.Start + need + 10)
		case 1:
			c.Size = g.pick(c.Start + 1)
		default:
			c.Size = max(0, c.Start+need-3+g.pick(8))
			if c.F == "value" {
				c.Size = max(0, c.Start+need-len(c.K)-2-3+g.pick(8))
			}
		}
		r.recEncode(c)
	}
}
