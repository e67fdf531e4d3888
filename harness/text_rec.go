package main

import (
	"encoding/json"
	"math/big"
	"strings"
	"sync"
	"time"

	"encoding/binary"

	"github.com/tychoish/birch/types"
)

func init() { recorders["text"] = recText }

func decOf(b []byte) types.Decimal128 {
	return types.NewDecimal128(binary.LittleEndian.Uint64(b[8:]), binary.LittleEndian.Uint64(b))
}

func decBytes(d types.Decimal128) []byte {
	h, l := d.GetBytes()
	return append(le64(l), le64(h)...)
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	if s := err.Error(); s != "" {
		return s
	}
	return "error"
}

func (r *Run) recDec(b []byte) {
	r.Begin(map[string]any{"op": "dec", "b": ints(b)})
	o := map[string]any{"op": "dec", "b": ints(b), "s": []int{}, "perr": "", "p": ints(make([]byte, 16)), "panic": ""}
	o["panic"] = try(func() {
		s := decOf(b).String()
		o["s"] = ints([]byte(s))
		p, err := types.ParseDecimal128(s)
		o["perr"], o["p"] = errText(err), ints(decBytes(p))
	})
	r.Emit(o)
	r.Done()
}

func (r *Run) recParse(s []byte) {
	r.Begin(map[string]any{"op": "parse", "s": string(s)})
	o := map[string]any{"op": "parse", "s": ints(s), "perr": "", "p": ints(make([]byte, 16)), "panic": ""}
	o["panic"] = try(func() {
		p, err := types.ParseDecimal128(string(s))
		o["perr"], o["p"] = errText(err), ints(decBytes(p))
	})
	r.Emit(o)
	r.Done()
}

func (r *Run) recOid(b []byte) {
	r.Begin(map[string]any{"op": "oid", "b": ints(b)})
	id := oid(b)
	j, err := json.Marshal(id)
	if err != nil {
		panic(err)
	}
	back, err := types.ObjectIDFromHex(id.Hex())
	if err != nil {
		back = types.ObjectID{1}
	}
	var jb types.ObjectID
	if err := json.Unmarshal(j, &jb); err != nil {
		jb = types.ObjectID{2}
	}
	r.Emit(map[string]any{"op": "oid", "b": ints(b), "hex": ints([]byte(id.Hex())), "str": ints([]byte(id.String())), "json": ints(j), "zero": id.IsZero(), "back": ints(back[:]), "jback": ints(jb[:])})
	r.Done()
}

func (r *Run) recOidHex(s []byte) {
	r.Begin(map[string]any{"op": "oidhex", "s": string(s)})
	var id types.ObjectID
	var err error
	p := try(func() { id, err = types.ObjectIDFromHex(string(s)) })
	var m types.ObjectID
	must := try(func() { m = types.MustObjectIDFromHex(string(s)) }) == ""
	if must && m != id {
		p = "MustObjectIDFromHex gives another value"
	}
	r.Emit(map[string]any{"op": "oidhex", "s": ints(s), "p": ints(id[:]), "err": errText(err), "panic": p, "must": must})
	r.Done()
}

func (r *Run) recOidJSON(s []byte) {
	r.Begin(map[string]any{"op": "oidjson", "s": string(s)})
	var id types.ObjectID
	var err error
	in := append([]byte{}, s...)
	p := try(func() { err = id.UnmarshalJSON(in) })
	for i := range in { // the caller's buffer may be reused
		in[i] = 'x'
	}
	r.Emit(map[string]any{"op": "oidjson", "s": ints(s), "p": ints(id[:]), "err": errText(err), "panic": p})
	r.Done()
}

func (r *Run) recFresh(g *Gen) {
	n, k := 1+g.pick(8), 1+g.pick(40)
	t0 := time.Now().Unix()
	out := make([][]types.ObjectID, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for j := 0; j < k; j++ {
				out[i] = append(out[i], types.NewObjectID())
			}
		}(i)
	}
	close(start)
	wg.Wait()
	t1 := time.Now().Unix()
	ids := [][]int{}
	ok := true
	for _, s := range out {
		for _, id := range s {
			ids = append(ids, ints(id[:]))
			t := int64(binary.BigEndian.Uint32(id[:4]))
			ok = ok && t >= t0 && t <= t1
		}
	}
	r.Emit(map[string]any{"op": "fresh", "ids": ids, "timeok": ok, "t0": t0, "t1": t1})
}

func recText(r *Run) {
	g := newGen(r.Seed)
	if r.In != "" {
		r.each(func(line []byte) {
			var c struct {
				Kind string
				S    []int
				Coef string
				E    int
				Neg  bool
			}
			mustJSON(line, &c)
			if c.Kind == "bits" {
				x, ok := new(big.Int).SetString(c.Coef, 10)
				if !ok {
					panic("harness: bad coefficient")
				}
				r.recDec(decBits(c.Neg, x, c.E))
			} else {
				r.recParse(unints(c.S))
			}
			r.count--
		})
		return
	}
	for i := 0; i < r.N; i++ {
		switch g.pick(8) {
		case 0:
			if g.pick(3) == 0 {
				r.recDec(g.bytes(16))
			} else {
				r.recDec(g.decimalBytes())
			}
		case 1:
			r.recDec(g.decimalBytes())
		case 2:
			s := g.decText()
			if g.pick(4) == 0 {
				s = g.mutateText(s)
			}
			if g.pick(60) == 0 {
				s = "0." + strings.Repeat("0", 6140+g.pick(60)) + s
			}
			r.recParse([]byte(s))
		case 3:
			r.recParse([]byte(g.decText()))
		case 4:
			b := g.bytes(12)
			if g.pick(8) == 0 {
				b = make([]byte, 12)
			}
			if g.pick(8) == 0 {
				b = make([]byte, 12)
				b[g.pick(12)] = 1
			}
			r.recOid(b)
		case 5:
			id := oid(g.bytes(12))
			s := id.Hex()
			switch g.pick(4) {
			case 0:
				s = strings.ToUpper(s)
			case 1:
				s = g.mutateText(s)
			case 2:
				s = s[:g.pick(25)]
			}
			r.recOidHex([]byte(s))
		case 6:
			if g.pick(6) == 0 {
				r.recOidJSON(g.bytes(12))
				continue
			}
			id := oid(g.bytes(12))
			s := `"` + id.Hex() + `"`
			if g.pick(2) == 0 {
				s = `{"` + []string{"$oid", "$oid", "$oid", "oid", "$oi", "$OID"}[g.pick(6)] + `":` + s + []string{"", `,"a":1`}[g.pick(2)] + "}"
			}
			if g.pick(3) == 0 {
				s = g.mutateText(s)
			}
			if g.pick(8) == 0 {
				s = g.jval(1)
			}
			r.recOidJSON([]byte(s))
		default:
			if g.pick(10) == 0 {
				r.recFresh(g)
			} else {
				r.recParse([]byte(g.decText()))
			}
		}
	}
}
