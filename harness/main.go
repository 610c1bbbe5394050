// The conformance driver: runs cases that TLC generated against the real code
// and records what it does.  It takes no decision: the records are judged by
// TLC with the trace specifications in ../spec.
//
//	harness MODE < cases.ndjson > records.ndjson
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"
)

// names of the characters that are awkward inside of JSON or TLA+ strings
var toName = map[rune]string{
	'\n': "NL", '\t': "TAB", '\r': "CR", '\f': "FF", '\u00a0': "NBSP", '\a': "BEL", '\uf002': "F002", 0: "NUL",
	'\u2028': "LS", '\v': "VT", '\u0085': "NEL", '\ufeff': "BOM", utf8.RuneError: "REPL",
}
var fromName = map[string]string{}

func init() {
	for r, n := range toName {
		fromName[n] = string(r)
	}
}

func chars(s string) []string {
	o := make([]string, 0, len(s))
	for _, r := range s {
		if n, ok := toName[r]; ok {
			o = append(o, n)
		} else {
			o = append(o, string(r))
		}
	}
	return o
}
func str(cs []string) string {
	var b strings.Builder
	for _, c := range cs {
		if s, ok := fromName[c]; ok {
			b.WriteString(s)
		} else {
			b.WriteString(c)
		}
	}
	return b.String()
}
func lines(s string) [][]string {
	o := [][]string{}
	// in Markdown a line ends with a line feed, a carriage return, or both
	s = strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(s)
	for _, l := range strings.Split(s, "\n") {
		o = append(o, chars(l))
	}
	return o
}

// how long a conversion may take, and how much memory; both are far above
// what any of the (small) cases needs
const (
	maxTime = 20 * time.Second
	maxHeap = 3 << 30
)

// set when a conversion did not come to an end: it cannot be stopped, so
// that the driver ends after it has written the record (see hangWriter)
var hung atomic.Bool

type hangWriter struct{ w io.Writer }

func (h hangWriter) Write(p []byte) (int, error) {
	n, err := h.w.Write(p)
	if hung.Load() {
		os.Exit(7)
	}
	return n, err
}

// protect runs f and turns a panic, or an endless loop, into an error text
func protect(f func() (string, error)) (out string, errText string) {
	type res struct{ out, err string }
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- res{"", fmt.Sprint("PANIC: ", r)}
			}
		}()
		s, err := f()
		if err != nil {
			ch <- res{s, "error: " + err.Error()}
			return
		}
		ch <- res{s, ""}
	}()
	t0 := time.Now()
	tick := time.NewTimer(time.Second)
	defer tick.Stop()
	for {
		select {
		case r := <-ch:
			return r.out, r.err
		case <-tick.C:
			tick.Reset(time.Second)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if time.Since(t0) > maxTime || m.HeapAlloc > maxHeap {
				hung.Store(true)
				return "", "HANG: no result after a long time"
			}
		}
	}
}

var modes = map[string]func(dec *json.Decoder, enc *json.Encoder) error{}

func main() {
	if len(os.Args) < 2 || modes[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(2)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(hangWriter{os.Stdout})
	enc.SetEscapeHTML(false)
	if err := modes[os.Args[1]](dec, enc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
