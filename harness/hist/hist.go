// Package hist records histories of calls in the order in which they happened.
package hist

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

type M = map[string]any

// History is one recorded run; its lock gives the order of the events.
type History struct {
	mu sync.Mutex
	ev []M
}

func New(init M) *History {
	if init == nil {
		init = M{}
	}
	init["e"] = "init"
	return &History{ev: []M{init}}
}

func (h *History) Add(m M) {
	h.mu.Lock()
	h.ev = append(h.ev, m)
	h.mu.Unlock()
}

func (h *History) Call(t int, op M)       { h.Add(M{"e": "call", "t": t, "op": op}) }
func (h *History) Ret(t int, res M)       { h.Add(M{"e": "ret", "t": t, "res": res}) }
func (h *History) Env(what string, t int) { h.Add(M{"e": "env", "what": what, "t": t}) }
func (h *History) Do(t int, op M, f func() M) {
	h.Call(t, op)
	h.Ret(t, f())
}

// Writer collects histories and writes one JSON array per line.
type Writer struct {
	f    *os.File
	seen map[string]bool
	N    int
}

func NewWriter(path string) *Writer {
	f, err := os.Create(path)
	if err != nil {
		Fail(err)
	}
	return &Writer{f: f, seen: map[string]bool{}}
}

// Put writes the history unless an identical one was written before.
func (w *Writer) Put(h *History) {
	h.mu.Lock()
	defer h.mu.Unlock()
	w.PutRaw(h.ev)
}

func (w *Writer) PutRaw(ev []M) {
	b, err := json.Marshal(ev)
	if err != nil {
		Fail(err)
	}
	w.N++
	if w.seen[string(b)] {
		return
	}
	w.seen[string(b)] = true
	w.f.Write(append(b, '\n'))
}

func (w *Writer) Close() { w.f.Close() }

// Fail ends the driver with an error of the harness.
func Fail(err any) {
	fmt.Fprintln(os.Stderr, "HARNESS:", err)
	os.Exit(9)
}

// WaitOr waits for the group, or returns false after d.
func WaitOr(wg *sync.WaitGroup, d time.Duration) bool {
	ch := make(chan struct{})
	go func() { wg.Wait(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		expired.Add(1)
		return false
	}
}

var expired atomic.Int32

// Expired counts a wait that was given up.
func Expired() { expired.Add(1) }

// Enough reports that so many waits were given up that the driver had better stop and report.
func Enough() bool {
	if expired.Load() < 2 {
		return false
	}
	fmt.Println("GAVE-UP")
	return true
}

// Until polls f, for d at most.
func Until(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for i := 0; !f(); i++ {
		if time.Now().After(end) {
			expired.Add(1)
			return false
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
	return true
}

func Must[T any](v T, err error) T {
	if err != nil {
		Fail(err)
	}
	return v
}
