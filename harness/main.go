// Command vh drives the real birch code: it records executions for the TLA+
// trace specifications and replays behaviours that TLC generated.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Run is the context of one recorder / replayer.
type Run struct {
	Seed  int64
	N     int
	Tier  string
	In    string
	w     *bufio.Writer
	f     *os.File
	cur   string
	mu    sync.Mutex
	start time.Time
	count int
}

// Emit writes one recorded case.
func (r *Run) Emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.count++
}

// Begin notes the case about to run, so that a crash of the process can be
// attributed to it, and arms the watchdog.
func (r *Run) Begin(desc any) {
	b, _ := json.Marshal(desc)
	r.mu.Lock()
	r.start = time.Now()
	r.cur = string(b)
	r.mu.Unlock()
	if curFile != nil {
		curFile.Truncate(0)
		curFile.WriteAt(b, 0)
	}
}

// Done disarms the watchdog.
func (r *Run) Done() {
	r.mu.Lock()
	r.start = time.Time{}
	r.mu.Unlock()
}

var curFile *os.File

const hangLimit = 90 * time.Second

func (r *Run) watchdog() {
	for {
		time.Sleep(time.Second)
		r.mu.Lock()
		hung := !r.start.IsZero() && time.Since(r.start) > hangLimit
		cur := r.cur
		r.mu.Unlock()
		if hung {
			fmt.Fprintf(os.Stderr, "HANG %s\n", cur)
			debug.SetTraceback("all")
			os.Exit(4)
		}
	}
}

// try runs f and reports a panic as text ("" when there was none).
func try(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprint(p)
			if msg == "" {
				msg = "panic"
			}
			if strings.HasPrefix(msg, "harness:") {
				panic(msg)
			}
		}
	}()
	f()
	return ""
}

var recorders = map[string]func(*Run){}
var replayers = map[string]func(*Run){}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh record|replay AREA ...")
		os.Exit(2)
	}
	mode, area := os.Args[1], os.Args[2]
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	r := &Run{}
	fs.Int64Var(&r.Seed, "seed", 1, "")
	fs.IntVar(&r.N, "n", 100, "")
	fs.StringVar(&r.Tier, "tier", "quick", "")
	fs.StringVar(&r.In, "in", "", "")
	out := fs.String("out", "", "")
	cur := fs.String("cur", "", "")
	fs.Parse(os.Args[3:])
	var table map[string]func(*Run)
	switch mode {
	case "record":
		table = recorders
	case "replay":
		table = replayers
	}
	fn, ok := table[area]
	if !ok {
		var names []string
		for k := range table {
			names = append(names, k)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "unknown area; have", names)
		os.Exit(2)
	}
	f := os.Stdout
	if *out != "" {
		var err error
		f, err = os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if *cur != "" {
		curFile, _ = os.Create(*cur)
	}
	r.f, r.w = f, bufio.NewWriterSize(f, 1<<20)
	go r.watchdog()
	fn(r)
	r.w.Flush()
	f.Close()
	fmt.Printf("VH-OK %d\n", r.count)
}
