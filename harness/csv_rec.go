package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

func init() { recorders["csv"] = recCSV }

type floatEntry struct {
	S []int `json:"s"`
	B []int `json:"b"`
}

// floatTable says what the standard library makes of every cell of the texts.
func floatTable(texts ...string) []floatEntry {
	out := []floatEntry{}
	seen := map[string]bool{}
	for _, t := range texts {
		for _, s := range strings.FieldsFunc(t, func(r rune) bool { return strings.ContainsRune(",\n\"", r) }) {
			if seen[s] {
				continue
			}
			seen[s] = true
			if f, err := strconv.ParseFloat(s, 64); err == nil {
				out = append(out, floatEntry{ints([]byte(s)), ints(le64(math.Float64bits(f)))})
			}
		}
	}
	return out
}

// limited fails after a number of bytes.
type limited struct {
	n   int
	buf bytes.Buffer
}

func (w *limited) Write(p []byte) (int, error) {
	if len(p) > w.n {
		w.buf.Write(p[:w.n])
		k := w.n
		w.n = 0
		return k, errors.New("no space left")
	}
	w.n -= len(p)
	return w.buf.Write(p)
}

func (r *Run) convertCase(g *Gen, text string) {
	bucket := 1 + g.pick(4)
	if g.pick(3) == 0 {
		bucket = 100
	}
	r.Begin(map[string]any{"text": text, "bucket": bucket})
	o := map[string]any{"err": "", "rerr": "", "docs": [][]ME{}, "sizes": []int{}, "short": false, "serr": ""}
	o["panic"] = try(func() {
		var out bytes.Buffer
		o["err"] = errText(ftdc.ConvertFromCSV(bucket, strings.NewReader(text), &out))
		docs, err := dumpDocs(ftdc.ReadMetrics(bytes.NewReader(out.Bytes())))
		o["docs"], o["rerr"] = docs, errText(err)
		sizes := []int{}
		for c := range ftdc.ReadChunks(bytes.NewReader(out.Bytes())).Iterator() {
			sizes = append(sizes, c.Size())
		}
		o["sizes"] = sizes
		if out.Len() > 0 {
			w := &limited{n: g.pick(out.Len())}
			o["short"], o["serr"] = true, errText(ftdc.ConvertFromCSV(bucket, strings.NewReader(text), w))
		}
	})
	r.Done()
	r.Emit(map[string]any{"k": "convert", "b": ints([]byte(text)), "fl": floatTable(text), "bucket": bucket, "o": o})
}

func (r *Run) writeCase(g *Gen, dir string, chunks [][][]ME) {
	r.Begin(map[string]any{"chunks": chunks})
	var stream bytes.Buffer
	for _, c := range chunks {
		coll := ftdc.NewBaseCollector(len(c))
		for _, d := range c {
			doc, err := birch.ReadDocument(refEncode(d))
			if err != nil {
				panic("harness: " + err.Error())
			}
			if err := coll.Add(doc); err != nil {
				panic("harness: " + err.Error())
			}
		}
		b, err := coll.Resolve()
		if err != nil {
			panic("harness: " + err.Error())
		}
		stream.Write(b)
	}
	read := func() *ftdc.Iterator[*ftdc.Chunk] { return ftdc.ReadChunks(bytes.NewReader(stream.Bytes())) }
	o := map[string]any{"err": "", "text": []int{}, "short": false, "serr": "", "derr": "", "files": [][]int{}, "blocked": "", "full": ""}
	texts := []string{}
	o["panic"] = try(func() {
		var out bytes.Buffer
		o["err"] = errText(ftdc.WriteCSV(read().Iterator(), &out))
		o["text"] = ints(out.Bytes())
		texts = append(texts, out.String())
		if out.Len() > 0 {
			w := &limited{n: g.pick(out.Len())}
			o["short"], o["serr"] = true, errText(ftdc.WriteCSV(read().Iterator(), w))
			if !bytes.HasPrefix(out.Bytes(), w.buf.Bytes()) {
				o["serr"] = ""
			}
		}
		sub, err := os.MkdirTemp(dir, "dump")
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer os.RemoveAll(sub)
		o["derr"] = errText(ftdc.DumpCSV(read().Iterator(), filepath.Join(sub, "out")))
		ents, _ := os.ReadDir(sub)
		files := [][]int{}
		for i := range ents {
			b, err := os.ReadFile(filepath.Join(sub, fmt.Sprintf("out.%d.csv", i)))
			if err != nil {
				o["derr"] = err.Error()
			}
			files = append(files, ints(b))
			texts = append(texts, string(b))
		}
		o["files"] = files
		full := filepath.Join(sub, "f.0.csv")
		if err := os.Symlink("/dev/full", full); err != nil {
			panic("harness: " + err.Error())
		}
		o["full"] = errText(ftdc.DumpCSV(read().Iterator(), filepath.Join(sub, "f")))
		os.MkdirAll(filepath.Join(sub, "x.1.csv"), 0o755) // the second file cannot be created
		o["blocked"] = errText(ftdc.DumpCSV(read().Iterator(), filepath.Join(sub, "x")))
	})
	r.Done()
	r.Emit(map[string]any{"k": "write", "chunks": chunks, "fl": floatTable(texts...), "o": o})
}

func noCR(es []ME) {
	for i := range es {
		es[i].K = bytes.ReplaceAll(es[i].K, []byte("\r"), []byte("R"))
		noCR(es[i].V.E)
	}
}

func (g *Gen) csvCell() string {
	switch g.pick(12) {
	case 0:
		return ""
	case 1:
		return []string{"x", "1x", "--1", "+-1", "1_000", "0x10", "0x1p-2", " 1", "1 ", "e5", "."}[g.pick(11)]
	case 2:
		return []string{"NaN", "Inf", "-Inf", "+Inf", "infinity", "nan", "1e999", "-0", "-0.0", "1e-400"}[g.pick(10)]
	case 3:
		return []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "00012", "+7", "9007199254740993"}[g.pick(8)]
	case 4, 5:
		return strconv.FormatFloat(g.f64(), "gfeG"[g.pick(4)], -1, 64)
	case 6:
		return strconv.FormatInt(g.i64(), 10)
	default:
		return strconv.Itoa(g.pick(5))
	}
}

func (g *Gen) csvText() string {
	var sb strings.Builder
	quote := func(s string) string {
		if strings.ContainsAny(s, ",\"\n") || g.pick(6) == 0 {
			return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\""
		}
		return s
	}
	n := 1 + g.pick(4)
	line := func(cell func(i int) string) {
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(quote(cell(i)))
		}
		sb.WriteByte('\n')
	}
	header := func(i int) string {
		return strings.NewReplacer("\r", "R", "\x00", "0").Replace(string(g.metricKey(i)))
	}
	line(header)
	for k := 0; k < g.pick(12); k++ {
		switch g.pick(12) {
		case 0:
			n = 1 + g.pick(4)
			line(header)
		case 1:
			sb.WriteByte('\n')
		default:
			line(func(int) string { return g.csvCell() })
		}
	}
	s := sb.String()
	switch g.pick(8) {
	case 0:
		i := g.pick(len(s))
		s = s[:i] + string(",\"\n1a"[g.pick(5)]) + s[i:]
	case 1:
		i := g.pick(len(s))
		s = s[:i] + s[i+1:]
	case 2:
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

func recCSV(r *Run) {
	g := newGen(r.Seed)
	g.MaxStr = 6
	dir, err := os.MkdirTemp("", "verif-csv-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	if r.In != "" {
		r.each(func(line []byte) {
			var c struct{ Text []int }
			if err := json.Unmarshal(line, &c); err != nil {
				panic("harness: " + err.Error())
			}
			r.convertCase(g, string(unints(c.Text)))
			r.count--
		})
		return
	}
	for i := 0; i < r.N; i++ {
		if i%2 == 0 {
			r.convertCase(g, g.csvText())
			continue
		}
		chunks := [][][]ME{}
		doc := g.metricDoc(2, 1+g.pick(4))
		for q := 0; q < 1+g.pick(4); q++ {
			switch g.pick(5) {
			case 0:
				doc = g.metricDoc(1, 1+g.pick(3))
			case 1:
				doc = append(doc[:len(doc):len(doc)], ME{K: []byte("more"), V: g.valueOf(18, 0)})
			}
			noCR(doc)
			c := [][]ME{doc}
			for j := 0; j < g.pick(5); j++ {
				d := g.nextSample(c[j])
				noCR(d)
				c = append(c, d)
			}
			chunks = append(chunks, c)
		}
		r.writeCase(g, dir, chunks)
	}
}
