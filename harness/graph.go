package main

import (
	"encoding/json"
	"reflect"
)

// SUT is a real object driven along a behaviour of the specification.
type SUT interface {
	// Apply performs one operation and returns its observable result.
	Apply(op json.RawMessage) any
	// Observe projects the real object onto the specification's view.
	Observe() any
}

type edge struct {
	S, T, Op, R, V json.RawMessage
	src, dst       int
	r, v           any
}

func norm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var out any
	json.Unmarshal(b, &out)
	return out
}

// walkGraph loads the transition relation TLC emitted, takes every transition
// at least once (shortest path to its source, then the transition) and then
// long random walks.
func walkGraph(r *Run, mk func() SUT, walks, length int) {
	var edges []*edge
	ids := map[string]int{}
	id := func(raw json.RawMessage) int {
		var x any
		mustJSON(raw, &x)
		b, _ := json.Marshal(x)
		k := string(b)
		if i, ok := ids[k]; ok {
			return i
		}
		ids[k] = len(ids)
		return len(ids) - 1
	}
	var initS json.RawMessage
	r.each(func(line []byte) {
		e := &edge{}
		mustJSON(line, e)
		if e.Op == nil {
			initS = append(json.RawMessage{}, e.S...)
			return
		}
		e.Op = append(json.RawMessage{}, e.Op...)
		mustJSON(e.R, &e.r)
		mustJSON(e.V, &e.v)
		e.src, e.dst = id(e.S), id(e.T)
		e.S, e.T, e.R, e.V = nil, nil, nil, nil
		edges = append(edges, e)
	})
	r.count = 0
	if initS == nil {
		panic("harness: no initial state emitted")
	}
	root := id(initS)
	out := make([][]*edge, len(ids))
	for _, e := range edges {
		out[e.src] = append(out[e.src], e)
	}
	// BFS tree
	pred := make([]*edge, len(ids))
	seen := make([]bool, len(ids))
	seen[root] = true
	q := []int{root}
	for len(q) > 0 {
		s := q[0]
		q = q[1:]
		for _, e := range out[s] {
			if !seen[e.dst] {
				seen[e.dst] = true
				pred[e.dst] = e
				q = append(q, e.dst)
			}
		}
	}
	path := func(s int) []*edge {
		var p []*edge
		for s != root {
			p = append(p, pred[s])
			s = pred[s].src
		}
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
		return p
	}
	bad := 0
	run := func(p []*edge, checkAll bool) {
		if bad > 20 {
			return
		}
		ops := make([]json.RawMessage, len(p))
		for i := range p {
			ops[i] = p[i].Op
		}
		r.Begin(map[string]any{"behaviour": ops})
		s := mk()
		for i, e := range p {
			var res, obs any
			msg := try(func() { res = s.Apply(e.Op) })
			if msg != "" {
				res = map[string]any{"panic": msg}
			}
			if res = norm(res); !reflect.DeepEqual(res, e.r) {
				r.mismatch("result of an operation", ops[:i+1], e.r, res)
				bad++
				break
			}
			if !checkAll && i < len(p)-1 {
				continue
			}
			msg = try(func() { obs = s.Observe() })
			if msg != "" {
				obs = map[string]any{"panic": msg}
			}
			if obs = norm(obs); !reflect.DeepEqual(obs, e.v) {
				r.mismatch("state after an operation", ops[:i+1], e.v, obs)
				bad++
				break
			}
		}
		r.Done()
		r.count++
	}
	unreached := 0
	for _, e := range edges {
		if !seen[e.src] {
			unreached++
			continue
		}
		run(append(path(e.src), e), false)
	}
	if unreached > 0 {
		panic("harness: unreachable edges")
	}
	g := newGen(r.Seed)
	for i := 0; i < walks; i++ {
		s := root
		var p []*edge
		for len(p) < length && len(out[s]) > 0 {
			e := out[s][g.pick(len(out[s]))]
			p = append(p, e)
			s = e.dst
		}
		run(p, true)
	}
	// observing may itself change hidden state (caches, lazily parsed parts):
	// walks that are only looked at when they end
	for i := 0; i < walks*5; i++ {
		s := root
		var p []*edge
		for n := 2 + g.pick(length); len(p) < n && len(out[s]) > 0; {
			e := out[s][g.pick(len(out[s]))]
			p = append(p, e)
			s = e.dst
		}
		run(p, false)
	}
	r.stat(map[string]any{"graph_states": len(ids), "graph_edges": len(edges), "walks": walks, "walk_length": length})
}
