// Command vh executes scenarios on the real substrait-go code and records what happened.
// It never decides whether the outcome is right: that is the specification's job.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// Node is the uniform tree all values are exchanged in: a name, attribute strings, children.
type Node struct {
	K string   `json:"k"`
	P []string `json:"p"`
	C []*Node  `json:"c"`
}

func N(k string, p []string, c ...*Node) *Node {
	if p == nil {
		p = []string{}
	}
	if c == nil {
		c = []*Node{}
	}
	return &Node{K: k, P: p, C: c}
}

func (n *Node) fix() *Node {
	if n == nil {
		return N("nil", nil)
	}
	if n.P == nil {
		n.P = []string{}
	}
	if n.C == nil {
		n.C = []*Node{}
	}
	for i := range n.C {
		n.C[i] = n.C[i].fix()
	}
	return n
}

// Outcome of one call on the real code: st is "ok", "err", "panic" or "hang".
type Outcome struct {
	St  string `json:"st"`
	Msg string `json:"msg"`
}

func guard(f func() error) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{"panic", clip(fmt.Sprint(r) + " in " + panicSite())}
		}
	}()
	if err := f(); err != nil {
		return Outcome{"err", clip(err.Error())}
	}
	return Outcome{"ok", ""}
}

// panicSite names the function of substrait-go that was running when the panic being recovered began.
func panicSite() string {
	pcs := make([]uintptr, 64)
	fs := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
	for {
		f, more := fs.Next()
		if i := strings.Index(f.Function, "substrait-go/v8/"); i >= 0 {
			return f.Function[i+len("substrait-go/v8/"):]
		}
		if !more {
			return "?"
		}
	}
}

func clip(s string) string {
	b := []byte(s)
	if len(b) > 300 {
		b = b[:300]
	}
	for i, c := range b {
		if c < 32 || c > 126 || c == '|' || c == '"' || c == '\\' {
			b[i] = '_'
		}
	}
	return string(b)
}

type obj = map[string]any

// A suite turns one scenario into one event. The returned object is merged over the scenario's fields.
type suite func(raw json.RawMessage) (obj, error)

var suites = map[string]suite{}

func main() {
	if len(os.Args) != 4 {
		fmt.Println("usage: vh SUITE SCENARIOS EVENTS")
		os.Exit(3)
	}
	f := suites[os.Args[1]]
	if f == nil {
		fmt.Println("unknown suite", os.Args[1])
		os.Exit(3)
	}
	log.SetOutput(io.Discard)
	debug.SetMaxStack(64 << 20)
	// the library prints on some error paths; keep our own stdout clean
	real := os.Stdout
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
		os.Stderr = dn
	}
	in, err := os.ReadFile(os.Args[2])
	if err != nil {
		fmt.Fprintln(real, err)
		os.Exit(3)
	}
	var lines [][]byte
	for _, l := range bytes.Split(in, []byte("\n")) {
		if len(bytes.TrimSpace(l)) > 0 {
			lines = append(lines, l)
		}
	}
	out := make([][]byte, len(lines))
	errs := make([]error, len(lines))
	var wg sync.WaitGroup
	next := make(chan int)
	workers := runtime.GOMAXPROCS(0)
	if os.Getenv("VH_SERIAL") != "" || serialSuites[os.Args[1]] {
		workers = 1
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				out[i], errs[i] = runOne(f, lines[i])
			}
		}()
	}
	for i := range lines {
		next <- i
	}
	close(next)
	wg.Wait()
	of, err := os.Create(os.Args[3])
	if err != nil {
		fmt.Fprintln(real, err)
		os.Exit(3)
	}
	w := bufio.NewWriter(of)
	for i := range out {
		if errs[i] != nil {
			fmt.Fprintf(real, "scenario %d: %v\n%.2000s\n", i+1, errs[i], lines[i])
			os.Exit(3)
		}
		w.Write(out[i])
		w.WriteByte('\n')
	}
	if err := w.Flush(); err != nil {
		fmt.Fprintln(real, err)
		os.Exit(3)
	}
	of.Close()
}

var serialSuites = map[string]bool{}

func runOne(f suite, line []byte) ([]byte, error) {
	ev := obj{}
	d := json.NewDecoder(bytes.NewReader(line))
	d.UseNumber()
	if err := d.Decode(&ev); err != nil {
		return nil, fmt.Errorf("bad scenario: %w", err)
	}
	type res struct {
		o   obj
		err error
	}
	ch := make(chan res, 1)
	go func() {
		var r res
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 4096)
				buf = buf[:runtime.Stack(buf, false)]
				r = res{nil, fmt.Errorf("harness panic: %v\n%s", p, buf)}
			}
			ch <- r
		}()
		r.o, r.err = f(line)
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			return nil, r.err
		}
		for k, v := range r.o {
			ev[k] = v
		}
		if _, ok := ev["hang"]; !ok {
			ev["hang"] = "no"
		}
	case <-time.After(30 * time.Second):
		ev["hang"] = "yes"
	}
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(ev); err != nil {
		return nil, err
	}
	return bytes.TrimRight(b.Bytes(), "\n"), nil
}

func errOp(op string) error { return fmt.Errorf("unknown op %q", op) }
