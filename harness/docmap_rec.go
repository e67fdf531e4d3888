package main

import (
	"bytes"
	"sort"

	"github.com/tychoish/birch"
)

func init() { recorders["docmap"] = recDocMap }

type mapOp struct {
	N string `json:"n"`
	M int    `json:"m"`
	K []int  `json:"k"`
	E []ME   `json:"e"`
	B []int  `json:"b"`
}

type mapEntry struct {
	K []int `json:"k"`
	E ME    `json:"e"`
}

type mapStep struct {
	Op    mapOp        `json:"op"`
	Panic string       `json:"panic"`
	View  string       `json:"view"`
	OK    bool         `json:"ok"`
	Same  bool         `json:"same"`
	Res   []ME         `json:"res"`
	D     []ME         `json:"d"`
	Ms    [][]mapEntry `json:"ms"`
}

func obsMap(m birch.DocumentMap) []mapEntry {
	out := []mapEntry{}
	for k, e := range m {
		x := ME{K: []byte{}, V: MV{}}
		if e != nil {
			x = obsElem(e)
		}
		out = append(out, mapEntry{K: ints([]byte(k)), E: x})
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(unints(out[i].K), unints(out[j].K)) < 0 })
	return out
}

func runDocMap(r *Run, g *Gen, ops []mapOp) {
	r.Begin(map[string]any{"ops": ops})
	d := birch.DC.New()
	ms := []birch.DocumentMap{}
	steps := []mapStep{}
	for _, op := range ops {
		if op.E == nil {
			op.E = []ME{}
		}
		if op.K == nil {
			op.K = []int{}
		}
		if op.B == nil {
			op.B = []int{}
		}
		switch op.N {
		case "Append", "Set", "Delete", "Reset", "Map", "New":
			op.M = 1
		default:
			if op.M > len(ms) {
				continue
			}
		}
		s := mapStep{Op: op, Res: []ME{}, D: []ME{}, Ms: [][]mapEntry{}, OK: true, Same: true}
		elems := make([]*birch.Element, len(op.E))
		for i, e := range op.E {
			if e.V.T != 0 {
				elems[i] = buildElem(g, e)
			}
		}
		var m birch.DocumentMap
		if op.M <= len(ms) {
			m = ms[op.M-1]
		}
		s.Panic = try(func() {
			switch op.N {
			case "Append":
				d.Append(elems...)
			case "Set":
				d.Set(elems[0])
			case "Delete":
				d.Delete(string(unints(op.K)))
			case "Reset":
				d.Reset()
			case "New":
				ms = append(ms, birch.DocumentMap{})
			case "Map":
				n := d.Map()
				for k, e := range n {
					s.Same = s.Same && d.LookupElement(k) == e
				}
				ms = append(ms, n)
			case "Copy":
				n := m.Copy()
				for k, e := range n {
					s.Same = s.Same && m[k] == e
				}
				ms = append(ms, n)
			case "Put":
				m[string(unints(op.K))] = elems[0]
			case "Drop":
				delete(m, string(unints(op.K)))
			case "Validate":
				s.OK = m.Validate() == nil
			case "MarshalDocument":
				n, err := m.MarshalDocument()
				if s.OK = err == nil; s.OK {
					s.Res = append(s.Res, obsDoc(n)...)
				}
			case "MarshalBSON":
				b, err := m.MarshalBSON()
				if s.OK = err == nil; s.OK {
					s.Res = append(s.Res, obsDoc(birch.DC.Reader(birch.Reader(b)))...)
				}
			case "UnmarshalDocument":
				n := birch.DC.Elements(elems...)
				s.OK = m.UnmarshalDocument(n) == nil
				for _, e := range elems {
					found := false
					for _, f := range elems {
						found = found || m[e.Key()] == f
					}
					s.Same = s.Same && found
				}
			case "UnmarshalBSON":
				s.OK = m.UnmarshalBSON(unints(op.B)) == nil
			default:
				panic("harness: operation " + op.N)
			}
		})
		if s.Panic == "" {
			s.View = try(func() {
				s.D = append(s.D, obsDoc(d)...)
				for _, n := range ms {
					s.Ms = append(s.Ms, obsMap(n))
				}
			})
		}
		steps = append(steps, s)
		if s.Panic+s.View != "" {
			break
		}
	}
	r.Emit(map[string]any{"steps": steps})
	r.Done()
}

func recDocMap(r *Run) {
	g := newGen(r.Seed)
	if r.In != "" {
		r.each(func(line []byte) {
			var s struct{ Ops []mapOp }
			mustJSON(line, &s)
			runDocMap(r, g, s.Ops)
			r.count-- // each counts the line as well
		})
		return
	}
	names := []string{"Append", "Append", "Set", "Delete", "Reset", "Map", "Map", "New", "Copy", "Put", "Put", "Drop", "Validate", "MarshalDocument", "MarshalBSON", "UnmarshalDocument", "UnmarshalBSON"}
	for range r.N {
		keys := [][]byte{{}, []byte("a"), []byte("ab"), []byte("é"), g.key()}
		key := func() []byte { return keys[g.pick(len(keys))] }
		elem := func() ME { return ME{K: key(), V: g.value(1)} }
		ops, n := []mapOp{}, 0
		for range 2 + g.pick(20) {
			op := mapOp{N: names[g.pick(len(names))], M: 1, K: ints(key())}
			if n > 0 {
				op.M = 1 + g.pick(n)
			}
			switch op.N {
			case "Map", "New", "Copy":
				if n > 3 || n == 0 && op.N == "Copy" {
					op.N = "Append"
				} else {
					n++
				}
			case "Reset":
				if g.pick(3) != 0 {
					op.N = "Set"
				}
			case "Put":
				e := elem()
				if g.pick(3) != 0 {
					op.K = ints(e.K)
				} else if g.pick(3) == 0 {
					e = ME{}
				}
				op.E = []ME{e}
			case "UnmarshalBSON":
				es := []ME{}
				for range g.pick(4) {
					es = append(es, elem())
				}
				b, err := buildDoc(g, es).MarshalBSON()
				if err != nil {
					panic("harness: " + err.Error())
				}
				switch g.pick(6) {
				case 0:
					b = b[:g.pick(len(b))]
				case 1:
					b[g.pick(len(b))] ^= byte(1 << g.pick(8))
				case 2:
					b = append(b, g.bytes(1+g.pick(4))...)
				}
				op.B = ints(b)
			}
			switch op.N {
			case "Append", "UnmarshalDocument":
				for range 1 + g.pick(3) {
					op.E = append(op.E, elem())
				}
			case "Set":
				op.E = []ME{elem()}
			}
			ops = append(ops, op)
		}
		runDocMap(r, g, ops)
	}
}
