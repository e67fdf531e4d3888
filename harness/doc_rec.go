package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsonerr"
	"github.com/tychoish/birch/x/blist"
)

func init() {
	replayers["doc"] = func(r *Run) { walkGraph(r, func() SUT { return newDocSUT(nil) }, 200, 60) }
	recorders["doc"] = recDoc
}

type docOp struct {
	N  string   `json:"n"`
	W  int      `json:"w"`
	E  []ME     `json:"e"`
	K  []byte   `json:"-"`
	I  int      `json:"i"`
	Ks [][]byte `json:"-"`
}

func (o docOp) MarshalJSON() ([]byte, error) {
	ks := [][]int{}
	for _, k := range o.Ks {
		ks = append(ks, ints(k))
	}
	e := o.E
	if e == nil {
		e = []ME{}
	}
	return json.Marshal(map[string]any{"n": o.N, "w": o.W, "e": e, "k": ints(o.K), "i": o.I, "ks": ks})
}

func (o *docOp) UnmarshalJSON(b []byte) error {
	var x struct {
		N  string
		W  int
		E  []ME
		K  []int
		I  int
		Ks [][]int
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*o = docOp{N: x.N, W: x.W, E: x.E, K: unints(x.K), I: x.I}
	for _, k := range x.Ks {
		o.Ks = append(o.Ks, unints(k))
	}
	return nil
}

type docSUT struct {
	d  [3]*birch.Document
	g  *Gen
	ku [][]byte
}

func newDocSUT(g *Gen) *docSUT {
	return &docSUT{d: [3]*birch.Document{nil, birch.DC.New(), birch.DC.New()}, g: g, ku: [][]byte{[]byte("a"), []byte("b"), []byte("c")}}
}

func foundElem(e *birch.Element) any {
	if e == nil {
		return map[string]any{"ok": false, "e": []ME{}}
	}
	return map[string]any{"ok": true, "e": []ME{obsElem(e)}}
}

var noRes = map[string]any{"ok": true, "e": []ME{}}

func (s *docSUT) Apply(raw json.RawMessage) any {
	var op docOp
	mustJSON(raw, &op)
	return s.do(op)
}

// do performs the operation; a failed redundant check panics with "views:".
func (s *docSUT) do(op docOp) any {
	d, o := s.d[op.W], s.d[3-op.W]
	els := func() []*birch.Element {
		out := make([]*birch.Element, len(op.E))
		for i := range op.E {
			out[i] = buildElem(s.g, op.E[i])
		}
		return out
	}
	switch op.N {
	case "Append":
		if d.Append(els()...) != d {
			panic("views: Append returns another document")
		}
	case "AppendOmitEmpty":
		d.AppendOmitEmpty(els()...)
	case "Set":
		if d.Set(els()[0]) != d {
			panic("views: Set returns another document")
		}
	case "Delete":
		return foundElem(d.Delete(string(op.K)))
	case "SetValue":
		if orig := d.LookupElement(string(op.K)); orig != nil {
			before := obsElem(orig)
			e := orig.Copy()
			e.SetValue(buildValue(s.g, op.E[0].V))
			if !reflect.DeepEqual(norm(before), norm(obsElem(orig))) {
				panic("views: changing a copied element changed the original")
			}
			d.Set(e)
		}
	case "Reset":
		d.Reset()
	case "Extend":
		d.Extend(o)
	case "UnmarshalDocument":
		if err := d.UnmarshalDocument(o); err != nil {
			panic(err)
		}
	case "CopyTo":
		s.d[3-op.W] = d.Copy()
	case "SortedTo":
		s.d[3-op.W] = d.Sorted()
	case "UnmarshalBSON":
		b, err := o.MarshalBSON()
		if err != nil {
			panic(err)
		}
		if err := d.UnmarshalBSON(b); err != nil {
			panic(err)
		}
	case "ReadFrom":
		b, err := o.MarshalBSON()
		if err != nil {
			panic(err)
		}
		if n, err := d.ReadFrom(&dribble{b: append(b, 7, 7)}); err != nil || int(n) != len(b) {
			panic(fmt.Sprint("views: ReadFrom ", n, err))
		}
	case "Lookup":
		e := d.LookupElement(string(op.K))
		e2, err := d.LookupElementErr(string(op.K))
		v := d.Lookup(string(op.K))
		v2, err2 := d.LookupErr(string(op.K))
		if (e == nil) != (err != nil) || (v == nil) != (e == nil) || (err2 == nil) != (err == nil) {
			panic("views: lookups disagree about presence")
		}
		if e != nil && (e2 != e || v != e.Value() || v2 != v) {
			panic("views: lookups disagree about the element")
		}
		if e == nil && err != bsonerr.ElementNotFound {
			panic("views: unexpected error for a missing element")
		}
		return foundElem(e)
	case "ElementAt":
		e, ok := d.ElementAtOK(uint(op.I))
		if ok != (e != nil) {
			panic("views: ElementAtOK")
		}
		if ok && d.ElementAt(uint(op.I)) != e {
			panic("views: ElementAt")
		}
		return foundElem(e)
	case "Search":
		var ks []string
		for _, k := range op.Ks {
			ks = append(ks, string(k))
		}
		// the read-only form of the same question (before it is unpacked)
		var re *birch.Element
		b, err := d.MarshalBSON()
		if err != nil {
			panic(err)
		}
		if len(ks) > 0 {
			re, err = birch.Reader(b).RecursiveLookup(ks...)
			if err != nil {
				re = nil
			}
		}
		e, err := d.Search(ks...)
		if (err == nil) != (e != nil) {
			panic("views: Search error and element")
		}
		if len(ks) > 0 {
			if (re == nil) != (e == nil) || (re != nil && !reflect.DeepEqual(norm(obsElem(re)), norm(obsElem(e)))) {
				panic("views: Search and RecursiveLookup disagree")
			}
		}
		return foundElem(e)
	default:
		panic("harness: unknown op " + op.N)
	}
	return noRes
}

func (s *docSUT) keyView(look func(k string) *birch.Value) []any {
	out := []any{}
	for _, k := range s.ku {
		if v := look(string(k)); v != nil {
			out = append(out, []MV{obsValue(v)})
		} else {
			out = append(out, []MV{})
		}
	}
	return out
}

func (s *docSUT) mapView(d *birch.Document) []any {
	m := d.Map()
	return s.keyView(func(k string) *birch.Value {
		if e, ok := m[k]; ok {
			return e.Value()
		}
		return nil
	})
}

func (s *docSUT) Observe() any {
	v1, v2 := s.mapView(s.d[1]), s.mapView(s.d[2])
	if !reflect.DeepEqual(norm(v1), norm(s.keyView(s.d[1].Lookup))) || !reflect.DeepEqual(norm(v2), norm(s.keyView(s.d[2].Lookup))) {
		panic("views: Map and Lookup disagree")
	}
	for _, d := range s.d[1:] {
		if diff := docDiff(d); len(diff) > 0 {
			panic("views: " + diff[0])
		}
	}
	return map[string]any{"d1": obsDoc(s.d[1]), "d2": obsDoc(s.d[2]), "v1": v1, "v2": v2, "ku": kuJSON(s.ku)}
}

func kuJSON(ku [][]byte) [][]int {
	out := [][]int{}
	for _, k := range ku {
		out = append(out, ints(k))
	}
	return out
}

// docDiff compares the redundant ways of reading one document.
func docDiff(d *birch.Document) []string {
	diff := []string{}
	want := obsDoc(d)
	if d.Len() != len(want) {
		diff = append(diff, "Len")
	}
	els := d.Elements()
	if len(els) != len(want) {
		diff = append(diff, "Elements")
	}
	i := 0
	for e := range d.Iterator() {
		if i >= len(els) || els[i] != e {
			diff = append(diff, "Iterator and Elements")
			break
		}
		if x, ok := d.ElementAtOK(uint(i)); !ok || x != e {
			diff = append(diff, "ElementAt")
			break
		}
		i++
	}
	if _, ok := d.ElementAtOK(uint(len(want))); ok {
		diff = append(diff, "ElementAtOK past the end")
	}
	m := d.Map()
	distinct := map[string]int{}
	for _, e := range want {
		distinct[string(e.K)]++
	}
	if len(m) != len(distinct) {
		diff = append(diff, "Map size")
	}
	for k, e := range m {
		if e.Key() != k {
			diff = append(diff, "Map key")
		}
		if d.LookupElement(k) != e {
			diff = append(diff, "Map element")
		}
	}
	// the returned map is the caller's
	for k := range m {
		delete(m, k)
	}
	m["intruder"] = birch.EC.Null("intruder")
	if _, ok := d.Map()["intruder"]; ok && distinct["intruder"] == 0 || len(d.Map()) != len(distinct) {
		diff = append(diff, "Map is shared")
	}
	bad := false
	n := 0
	for range d.Iterator() { // early exit
		n++
		if n == 2 {
			break
		}
	}
	if bad {
		diff = append(diff, "Iterator break")
	}
	// a second representation of documents, as a linked list
	bl := &blist.Document{}
	bl.Append(els...)
	if bl.Len() != len(want) {
		diff = append(diff, "linked-list length")
	}
	if n1, err1 := d.Validate(); err1 == nil {
		if n2, err2 := bl.Validate(); err2 != nil || n1 != n2 {
			diff = append(diff, "linked-list size")
		}
	}
	if len(want) > 0 {
		k := string(want[len(want)/2].K)
		first := d.LookupElement(k)
		if bl.Delete(k) != first || bl.Len() != len(want)-1 {
			diff = append(diff, "linked-list delete")
		}
		nv := birch.EC.Int32(k, 12345)
		bl.Set(nv)
		found := false
		for e := bl.Front(); e.Ok(); e = e.Next() {
			if e.Value().Key() == k {
				found = e.Value() == nv
				break
			}
		}
		if !found {
			diff = append(diff, "linked-list set")
		}
	}
	exp := d.ExportMap()
	if len(exp) != len(distinct) {
		diff = append(diff, "ExportMap size")
	}
	return diff
}

func (s *docSUT) obs(w int) map[string]any {
	d := s.d[w]
	out := map[string]any{"err": "", "d": []ME{}, "look": []any{}, "map": []any{}, "bytes": []int{}, "len": 0, "diff": []string{}}
	msg := try(func() {
		b, err := d.MarshalBSON()
		if err != nil {
			panic(err)
		}
		out["bytes"] = ints(b)
		out["map"] = s.mapView(d)
		out["look"] = s.keyView(d.Lookup)
		out["len"] = d.Len()
		out["d"] = obsDoc(d)
		out["diff"] = docDiff(d)
		var buf bytes.Buffer
		if _, err := d.WriteTo(&buf); err != nil || !bytes.Equal(buf.Bytes(), b) {
			out["diff"] = []string{"WriteTo"}
		}
	})
	if msg != "" {
		out["err"] = msg
	}
	return out
}

func (g *Gen) sortableValue(depth int) MV {
	for {
		v := g.value(depth)
		switch v.T {
		case 1: // no NaN: unordered
			v = mDouble(float64(g.pick(9)-4) / 2)
		case 9:
			v = mDate(int64(g.pick(2000001) - 1000000))
		case 6:
			continue
		}
		return v
	}
}

func (g *Gen) docElem(depth int) ME { return ME{g.key(), g.sortableValue(depth)} }

// pathInto picks a path that mostly exists in es.
func (g *Gen) pathInto(es []ME) [][]byte {
	var p [][]byte
	for len(es) > 0 {
		e := es[g.pick(len(es))]
		k := e.K
		p = append(p, k)
		es = e.V.E
		if e.V.T == 15 {
			es = nil
		}
		if g.pick(3) == 0 {
			break
		}
	}
	switch g.pick(6) {
	case 0:
		p = append(p, g.key())
	case 1:
		if len(p) > 0 {
			p[g.pick(len(p))] = g.key()
		}
	case 2:
		p = append(p, []byte(strconv.Itoa(g.pick(4))))
	}
	return p
}

var docOps = []string{"Append", "Append", "Append", "AppendOmitEmpty", "Set", "Set", "Set", "Delete", "Delete", "SetValue", "Reset", "Extend", "UnmarshalDocument", "CopyTo", "CopyTo", "SortedTo", "UnmarshalBSON", "ReadFrom", "Lookup", "ElementAt", "Search", "Search", "Search"}

func recDoc(r *Run) {
	g := newGen(r.Seed)
	for i := 0; i < r.N; i++ {
		g.KeyPool = []string{"a", "b", "ab", "c", "0", "1", "", "key", "ü"}[:2+g.pick(8)]
		s := newDocSUT(g)
		s.ku = nil
		for _, k := range g.KeyPool {
			s.ku = append(s.ku, []byte(k))
		}
		evs := []any{}
		var ops []docOp
		steps := 3 + g.pick(22)
		for j := 0; j < steps; j++ {
			op := docOp{N: docOps[g.pick(len(docOps))], W: 1 + g.pick(2)}
			if s.d[1].Len()+s.d[2].Len() > 60 && (op.N == "Extend" || op.N == "UnmarshalDocument") {
				op.N = "Reset"
			}
			cur := obsDoc(s.d[op.W])
			switch op.N {
			case "Append", "AppendOmitEmpty":
				n := 1 + g.pick(3)
				if g.pick(20) == 0 {
					n = 17
				}
				for k := 0; k < n; k++ {
					op.E = append(op.E, g.docElem(2))
				}
				if op.N == "AppendOmitEmpty" && g.pick(2) == 0 {
					op.E = append(op.E, ME{g.key(), g.zeroish()})
				}
			case "Set", "SetValue":
				op.E = []ME{g.docElem(2)}
				op.K = op.E[0].K
			case "Delete", "Lookup":
				op.K = g.key()
			case "ElementAt":
				op.I = g.pick(len(cur) + 2)
			case "Search":
				op.Ks = g.pathInto(cur)
			}
			if op.N == "SetValue" {
				op.E[0].K = op.K
			}
			ops = append(ops, op)
			r.Begin(map[string]any{"area": "doc", "ops": ops})
			var res any
			msg := try(func() { res = s.do(op) })
			if msg != "" {
				res = map[string]any{"ok": false, "e": []ME{}, "panic": msg}
			}
			r.Done()
			evs = append(evs, map[string]any{"op": op, "r": res, "obs": []any{s.obs(1), s.obs(2)}, "ku": kuJSON(s.ku)})
			if msg != "" {
				break
			}
		}
		r.Emit(map[string]any{"ev": evs})
	}
}

// zeroish values: the zero of a type, or one bit away from it.
func (g *Gen) zeroish() MV {
	t := []byte{1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 255, 127}[g.pick(20)]
	v := MV{T: t}
	w := map[byte]int{1: 8, 7: 12, 8: 1, 9: 8, 16: 4, 17: 8, 18: 8, 19: 16}[t]
	v.S = make([]byte, w)
	if g.pick(2) == 0 && w > 0 {
		if t == 8 {
			v.S[0] = 1
		} else {
			v.S[g.pick(w)] = 1
		}
	}
	switch t {
	case 5:
		v.O = []byte{0}
	case 12:
		v.O = g.bytes(12)
	case 11:
		v.O = []byte("i")
	case 15:
		v.E = g.elems(0, 1)
	}
	return v
}
