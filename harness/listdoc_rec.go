package main

import (
	"fmt"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/blist"
)

func init() { recorders["listdoc"] = recListDoc }

type listOp struct {
	N string `json:"n"`
	E []ME   `json:"e"`
	K []int  `json:"k"`
}

type listStep struct {
	Op    listOp `json:"op"`
	Panic string `json:"panic"`
	Res   []ME   `json:"res"`
	Fwd   []ME   `json:"fwd"`
	Bwd   []ME   `json:"bwd"`
	Len   int    `json:"len"`
	Size  int    `json:"size"`
	Verr  string `json:"verr"`
	Self  bool   `json:"self"`
}

func runListDoc(r *Run, g *Gen, ops []listOp) {
	r.Begin(map[string]any{"ops": ops})
	steps := []listStep{}
	d := &blist.Document{}
	for _, op := range ops {
		s := listStep{Op: op, Res: []ME{}, Fwd: []ME{}, Bwd: []ME{}, Self: true}
		if s.Op.E == nil {
			s.Op.E = []ME{}
		}
		if s.Op.K == nil {
			s.Op.K = []int{}
		}
		elems := make([]*birch.Element, len(op.E))
		for i, e := range op.E {
			if e.V.T != 0 {
				elems[i] = buildElem(g, e)
			}
		}
		s.Panic = try(func() {
			got := func(e *birch.Element) {
				if e != nil {
					s.Res = append(s.Res, obsElem(e))
				}
			}
			switch op.N {
			case "Append":
				s.Self = d.Append(elems...) == d
			case "AppendOmitEmpty":
				s.Self = d.AppendOmitEmpty(elems...) == d
			case "Prepend":
				s.Self = d.Prepend(elems...) == d
			case "Set":
				s.Self = d.Set(elems[0]) == d
			case "Delete":
				got(d.Delete(string(unints(op.K))))
			case "PushBack":
				d.PushBack(elems[0])
			case "PushFront":
				d.PushFront(elems[0])
			case "PopFront":
				if e := d.PopFront(); e.Value() != nil {
					got(e.Value())
				}
			case "PopBack":
				if e := d.PopBack(); e.Value() != nil {
					got(e.Value())
				}
			case "Reset":
				d.Reset()
			default:
				panic("harness: operation " + op.N)
			}
		})
		view := try(func() {
			limit := 0
			for e := range d.IteratorFront() {
				if limit++; limit > 10000 {
					panic("the list does not end")
				}
				s.Fwd = append(s.Fwd, obsElem(e))
			}
			for e := range d.IteratorBack() {
				if limit++; limit > 20000 {
					panic("the list does not end")
				}
				s.Bwd = append(s.Bwd, obsElem(e))
			}
			s.Len = d.Len()
			n, err := d.Validate()
			s.Size, s.Verr = int(n), errText(err)
		})
		if view != "" {
			s.Verr = "panic: " + view
		}
		steps = append(steps, s)
	}
	if k := len(steps); k > 0 && steps[k-1].Verr == "" { // an element that is none is found, and so is a list that is none
		d.PushBack(&birch.Element{})
		if msg := try(func() {
			if _, err := d.Validate(); err == nil {
				panic("an invalid element is not noticed")
			}
			if _, err := (*blist.Document)(nil).Validate(); err == nil {
				panic("a list that is nil is valid")
			}
		}); msg != "" {
			steps[k-1].Verr = msg
		}
	}
	r.Emit(map[string]any{"steps": steps})
	r.Done()
}

func recListDoc(r *Run) {
	g := newGen(r.Seed)
	if r.In != "" {
		r.each(func(line []byte) {
			var s struct{ Ops []listOp }
			mustJSON(line, &s)
			runListDoc(r, g, s.Ops)
			r.count-- // each counts the line as well
		})
		return
	}
	names := []string{"Append", "Append", "AppendOmitEmpty", "Prepend", "Set", "Set", "Set", "Delete", "Delete", "PushBack", "PushFront", "PopFront", "PopBack", "Reset"}
	for range r.N {
		ops := []listOp{}
		keys := []string{"", "a", "b", "ab", "c", "é", fmt.Sprint("k", g.pick(9))}
		elem := func() ME {
			e := ME{K: []byte(keys[g.pick(len(keys))]), V: g.value(1)}
			if g.pick(5) == 0 {
				e.V = []MV{mInt32(0), mString(""), mBool(false), mNull(), {T: 3}, {T: 4}, mDouble(0), {T: 6}}[g.pick(8)]
			}
			return e
		}
		for range 1 + g.pick(25) {
			op := listOp{N: names[g.pick(len(names))], K: ints([]byte(keys[g.pick(len(keys))]))}
			if op.N == "Reset" && g.pick(3) != 0 {
				op.N = "Append"
			}
			n := g.pick(4)
			if op.N == "Set" || op.N == "PushBack" || op.N == "PushFront" {
				n = 1
			}
			for range n {
				e := elem()
				if g.pick(25) == 0 && op.N != "PushBack" && op.N != "PushFront" {
					e = ME{}
				}
				op.E = append(op.E, e)
			}
			ops = append(ops, op)
		}
		runListDoc(r, g, ops)
	}
}
