package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsonerr"
)

func init() {
	replayers["arr"] = func(r *Run) { walkGraph(r, func() SUT { return newArrSUT(nil) }, 200, 60) }
	recorders["arr"] = recArr
}

type arrOp struct {
	N string `json:"n"`
	W int    `json:"w"`
	V []MV   `json:"v"`
	I int    `json:"i"`
}

type arrSUT struct {
	a [3]*birch.Array
	g *Gen
}

func newArrSUT(g *Gen) *arrSUT {
	return &arrSUT{a: [3]*birch.Array{nil, birch.NewArray(), birch.MakeArray(2)}, g: g}
}

func (s *arrSUT) Apply(raw json.RawMessage) any {
	var op arrOp
	mustJSON(raw, &op)
	return s.do(op)
}

func someVal(v *birch.Value) any {
	if v == nil {
		return map[string]any{"ok": false, "v": []MV{}}
	}
	return map[string]any{"ok": true, "v": []MV{obsValue(v)}}
}

func (s *arrSUT) do(op arrOp) any {
	a, o := s.a[op.W], s.a[3-op.W]
	vals := make([]*birch.Value, len(op.V))
	for i := range op.V {
		vals[i] = buildValue(s.g, op.V[i])
	}
	done := map[string]any{"ok": true, "v": []MV{}}
	switch op.N {
	case "Append":
		if a.Append(vals...) != a {
			panic("views: Append returns another array")
		}
	case "Set":
		var res any = done
		if msg := try(func() { a.Set(uint(op.I), vals[0]) }); msg != "" {
			if msg != bsonerr.OutOfBounds.Error() {
				panic("views: Set: " + msg)
			}
			res = map[string]any{"ok": false, "v": []MV{}, "panic": true}
		}
		return res
	case "Delete":
		return someVal(a.Delete(uint(op.I)))
	case "Lookup":
		v, err := a.Lookup(uint(op.I))
		if (err == nil) != (v != nil) || (err != nil && err != bsonerr.OutOfBounds) {
			panic("views: Lookup")
		}
		e, err2 := a.LookupElemdent(uint(op.I))
		if (err2 == nil) != (err == nil) || (e != nil && e.Value() != v) {
			panic("views: LookupElement")
		}
		return someVal(v)
	case "Reset":
		a.Reset()
	case "Extend":
		a.Extend(o)
	case "ExtendFromDocument":
		d := birch.DC.New()
		i := 0
		for v := range o.Iterator() {
			d.Append(birch.EC.Value(fmt.Sprintf("k%d", 100-i), v))
			i++
		}
		a.ExtendFromDocument(d)
	case "Reread": // through bytes, as the value of an element
		b, err := birch.DC.Elements(birch.EC.Array("x", o)).MarshalBSON()
		if err != nil {
			panic(err)
		}
		d, err := birch.ReadDocument(b)
		if err != nil {
			panic(err)
		}
		s.a[op.W] = d.Lookup("x").MutableArray()
	default:
		panic("harness: op " + op.N)
	}
	return done
}

func arrVals(a *birch.Array) []MV {
	out := []MV{}
	for v := range a.Iterator() {
		out = append(out, obsValue(v))
	}
	return out
}

func arrDiff(a *birch.Array, b []byte) []string {
	diff := []string{}
	want := arrVals(a)
	if a.Len() != len(want) || len(a.Interface()) != len(want) {
		diff = append(diff, "Len")
	}
	if n, err := a.Validate(); err != nil || int(n) != len(b) {
		diff = append(diff, "Validate")
	}
	for i := range want {
		v, err := a.Lookup(uint(i))
		if err != nil || !reflect.DeepEqual(norm(obsValue(v)), norm(want[i])) {
			diff = append(diff, "Lookup")
			break
		}
	}
	if _, err := a.Lookup(uint(len(want))); err == nil {
		diff = append(diff, "Lookup past the end")
	}
	b2, err := a.MarshalBSON()
	if err != nil || !bytes.Equal(b, b2) {
		diff = append(diff, "second marshal")
	}
	val := birch.VC.Array(a)
	ra := val.ReaderArray()
	if !bytes.Equal([]byte(ra), b) {
		diff = append(diff, "ReaderArray")
	}
	d := birch.DC.Elements(birch.EC.Value("x", val), birch.EC.Int32("y", 3))
	db, err := d.MarshalBSON()
	if err != nil {
		diff = append(diff, "EC.Value")
	} else {
		if !bytes.Equal(db[7:len(db)-8], b) {
			diff = append(diff, "EC.Value bytes")
		}
		for i := range want {
			e, err := d.Search("x", strconv.Itoa(i))
			if err != nil || !reflect.DeepEqual(norm(obsValue(e.Value())), norm(want[i])) || e.Key() != strconv.Itoa(i) {
				diff = append(diff, "Search")
				break
			}
			e, err = birch.Reader(db).RecursiveLookup("x", strconv.Itoa(i))
			if err != nil || !reflect.DeepEqual(norm(obsValue(e.Value())), norm(want[i])) {
				diff = append(diff, "RecursiveLookup")
				break
			}
		}
		if _, err := d.Search("x", strconv.Itoa(len(want))); err == nil {
			diff = append(diff, "Search past the end")
		}
		if _, err := d.Search("x", "-1"); err == nil {
			diff = append(diff, "Search negative")
		}
	}
	// nested array
	nb, err := birch.NewArray(birch.VC.Null(), val).MarshalBSON()
	if err != nil || len(nb) < len(b)+11 || !bytes.Equal(nb[10:len(nb)-1], b) {
		diff = append(diff, "nested in an array")
	}
	return diff
}

func (s *arrSUT) Observe() any {
	b1, err := s.a[1].MarshalBSON()
	if err != nil {
		panic(err)
	}
	b2, err := s.a[2].MarshalBSON()
	if err != nil {
		panic(err)
	}
	if d := append(arrDiff(s.a[1], b1), arrDiff(s.a[2], b2)...); len(d) > 0 {
		panic("views: " + d[0])
	}
	return map[string]any{"a1": arrVals(s.a[1]), "a2": arrVals(s.a[2]), "b1": ints(b1), "b2": ints(b2)}
}

func (s *arrSUT) obs(w int) map[string]any {
	a := s.a[w]
	out := map[string]any{"err": "", "a": []MV{}, "bytes": []int{}, "emb": []int{}, "len": 0, "diff": []string{}}
	msg := try(func() {
		b, err := a.MarshalBSON()
		if err != nil {
			panic(err)
		}
		out["bytes"] = ints(b)
		out["len"] = a.Len()
		out["a"] = arrVals(a)
		e, err := birch.DC.Elements(birch.EC.Array("x", a)).MarshalBSON()
		if err != nil {
			panic(err)
		}
		out["emb"] = ints(e)
		out["diff"] = arrDiff(a, b)
	})
	if msg != "" {
		out["err"] = msg
	}
	return out
}

func recArr(r *Run) {
	g := newGen(r.Seed)
	names := []string{"Append", "Append", "Append", "Set", "Set", "Delete", "Delete", "Lookup", "Reset", "Extend", "ExtendFromDocument", "Reread"}
	for i := 0; i < r.N; i++ {
		s := newArrSUT(g)
		evs := []any{}
		var ops []arrOp
		big := i%8 == 0
		steps := 3 + g.pick(15)
		for j := 0; j < steps; j++ {
			op := arrOp{N: names[g.pick(len(names))], W: 1 + g.pick(2), V: []MV{}}
			if big && j == 0 {
				op.N = "Append"
			}
			n := s.a[op.W].Len()
			if n+s.a[3-op.W].Len() > 150 && (op.N == "Extend" || op.N == "ExtendFromDocument") {
				op.N = "Delete"
			}
			switch op.N {
			case "Append":
				k := 1 + g.pick(3)
				if big && j == 0 {
					k = []int{8, 9, 10, 11, 98, 99, 100, 101, 102}[g.pick(9)]
				}
				for x := 0; x < k; x++ {
					if k > 20 {
						op.V = append(op.V, mInt32(int32(x)))
					} else {
						op.V = append(op.V, g.value(2))
					}
				}
			case "Set":
				op.V = []MV{g.value(2)}
				op.I = g.pick(n + 2)
			case "Delete", "Lookup":
				op.I = g.pick(n + 2)
			}
			ops = append(ops, op)
			r.Begin(map[string]any{"area": "arr", "ops": ops})
			var res any
			msg := try(func() { res = s.do(op) })
			if msg != "" {
				res = map[string]any{"ok": false, "v": []MV{}, "msg": msg}
			}
			r.Done()
			evs = append(evs, map[string]any{"op": op, "r": res, "obs": []any{s.obs(1), s.obs(2)}})
			if msg != "" {
				break
			}
		}
		r.Emit(map[string]any{"ev": evs})
	}
}
