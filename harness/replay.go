package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"os"
)

func mustJSON(b []byte, v any) {
	if err := json.Unmarshal(b, v); err != nil {
		panic("harness: " + err.Error() + ": " + string(b))
	}
}

func sameJSON(a, b any) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

// each feeds every emitted case to f.
func (r *Run) each(f func(line []byte)) {
	in, err := os.Open(r.In)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer in.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		r.Begin(json.RawMessage(append([]byte{}, sc.Bytes()...)))
		f(sc.Bytes())
		r.Done()
		r.count++
	}
	if err := sc.Err(); err != nil {
		panic("harness: " + err.Error())
	}
}

func (r *Run) mismatch(what string, in, exp, got any) {
	b, err := json.Marshal(map[string]any{"MISMATCH": map[string]any{"what": what, "input": in, "expected": exp, "got": got}})
	if err != nil {
		panic("harness: " + err.Error())
	}
	r.w.Write(b)
	r.w.WriteByte('\n')
}

func (r *Run) stat(m map[string]any) {
	b, _ := json.Marshal(map[string]any{"STAT": m})
	r.w.Write(b)
	r.w.WriteByte('\n')
}
