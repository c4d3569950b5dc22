// drv_nslife runs cases (one JSON object per line) on golang namespaces with nodes that run, and
// records how they are started, cancelled and awaited. Usage: drv_nslife OUT IN
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"golang.org/x/exp/slog"
	"verif.local/harness/hist"
	"verif.local/harness/yield"
)

type op struct {
	Op     string   `json:"op"`
	Parent string   `json:"parent"`
	Slot   string   `json:"slot"`
	Runs   []string `json:"runs"`
	Defs   []string `json:"defs"` // runnables that can be started later
	Fails  bool     `json:"fails"`
	Run    string   `json:"run"`
	Home   string   `json:"home"`
	Err    bool     `json:"err"`
	Await  bool     `json:"await"`
	Thread int      `json:"thread"`
}

type runnable struct {
	w        *world
	name     string
	obedient bool
	gate     chan struct{}
	finish   chan error
	running  chan struct{}
	mu       sync.Mutex
	ctx      context.Context
	starts   int
}

type world struct {
	mu     sync.Mutex
	events []hist.M
	runs   map[string]*runnable
	slots  map[string]*golang.Namespace
}

func (w *world) add(m hist.M) { w.mu.Lock(); w.events = append(w.events, m); w.mu.Unlock() }

const patience = 15 * time.Second

func (r *runnable) Run(ctx context.Context) error {
	r.mu.Lock()
	r.starts++
	first := r.starts == 1
	if first {
		r.ctx = ctx
	}
	r.mu.Unlock()
	if !first {
		return nil
	}
	close(r.running)
	<-r.gate
	var err error
	if r.obedient {
		select {
		case <-ctx.Done():
		case err = <-r.finish:
		}
	} else {
		err = <-r.finish
	}
	r.w.add(hist.M{"e": "env", "what": "exit", "run": r.name, "failed": err != nil})
	return err
}

func (r *runnable) cancelled() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.ctx != nil && r.ctx.Err() != nil
}

type plain struct{}

// every interrupt also comes here, so that none arrives after the operation that sent it
var ints = make(chan os.Signal, 16)

func until(f func() bool) bool { return hist.Until(patience, f) }

func main() {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	// the driver survives the interrupts it sends itself
	signal.Notify(ints, os.Interrupt)
	out := hist.Must(os.Create(os.Args[1]))
	defer out.Close()
	bw := bufio.NewWriter(out)
	defer bw.Flush()
	sc := bufio.NewScanner(hist.Must(os.Open(os.Args[2])))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for num := 1; !hist.Enough() && sc.Scan(); num++ {
		var c struct {
			Obedient map[string]bool `json:"obedient"`
			Ops      []op            `json:"ops"`
		}
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			hist.Fail(err)
		}
		yield.Enable(uint64(seed)*1000003 + uint64(num))
		runCase(c.Obedient, c.Ops, bw)
	}
}

func runCase(obedient map[string]bool, ops []op, bw *bufio.Writer) {
	w := &world{runs: map[string]*runnable{}, slots: map[string]*golang.Namespace{}}
	for n, o := range obedient {
		w.runs[n] = &runnable{w: w, name: n, obedient: o, gate: make(chan struct{}), finish: make(chan error, 1), running: make(chan struct{})}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	opened := map[string]bool{}
	var opens []string
	// a runnable goes on once the call that started it has been recorded
	settle := func(names ...string) {
		for _, n := range names {
			r := w.runs[n]
			if opened[n] {
				continue
			}
			until(func() bool {
				select {
				case <-r.running:
					return true
				default:
					return false
				}
			})
			opens = append(opens, n)
		}
	}
	// cancelling reaches a namespace before those below it: what a cancellation must reach is given
	// time to be reached, so that a snap does not fall in between
	parents, homes := map[string]string{}, map[string]string{}
	reached := func(slot string) {
		under := func(s string) bool {
			for ; s != slot && s != ""; s = parents[s] {
			}
			return s == slot && s != ""
		}
		until(func() bool {
			for s, n := range w.slots {
				if under(s) && n.Context().Err() == nil {
					return false
				}
			}
			for r, s := range homes {
				if under(s) && !w.runs[r].cancelled() {
					return false
				}
			}
			return true
		})
	}
	joins := map[int]chan struct{}{}
	roots := []string{}
	for i, o := range ops {
		call := hist.M{"e": "call", "t": 0, "i": i}
		ret := hist.M{"e": "ret", "t": 0, "i": i, "ok": true}
		switch o.Op {
		case "build":
			w.add(call)
			parents[o.Slot] = o.Parent
			for _, n := range o.Runs {
				homes[n] = o.Slot
			}
			b := golang.NewNamespaceBuilder(o.Slot)
			for _, n := range append(append([]string{}, o.Runs...), o.Defs...) {
				b.Define(n, func(*golang.Namespace) (any, error) { return w.runs[n], nil })
			}
			b.Define("plain", func(*golang.Namespace) (any, error) { return &plain{}, nil })
			b.Define("bad", func(*golang.Namespace) (any, error) { return nil, errors.New("bad") })
			for _, n := range o.Runs {
				b.Instantiate(n)
			}
			b.Instantiate("plain")
			if o.Fails {
				b.Instantiate("bad")
			}
			var n *golang.Namespace
			var err error
			if o.Parent == "" {
				n, err = b.Build(ctx)
				if err == nil {
					roots = append(roots, o.Slot)
				}
			} else {
				n, err = b.BuildWithParent(w.slots[o.Parent])
			}
			ret["ok"] = err == nil
			if err == nil {
				w.slots[o.Slot] = n
			}
			settle(o.Runs...)
		case "get":
			w.add(call)
			var v any
			name := o.Run
			if name == "" {
				name = "plain"
			}
			if err := w.slots[o.Slot].Get(name, &v); err != nil {
				ret["ok"] = false
			}
			if o.Run != "" {
				homes[o.Run] = o.Home
				settle(o.Run)
			}
		case "finish":
			w.add(call)
			r := w.runs[o.Run]
			var err error
			if o.Err {
				err = fmt.Errorf("%v failed", o.Run)
			}
			select {
			case r.finish <- err:
			default:
			}
			if o.Err { // its failure becomes visible to itself at the latest
				until(r.cancelled)
				reached(homes[o.Run])
			}
		case "ctx":
			w.add(call)
			cancel()
		case "interrupt":
			w.add(call)
			syscall.Kill(os.Getpid(), syscall.SIGINT)
			select {
			case <-ints:
			case <-time.After(patience):
				hist.Fail(errors.New("no interrupt"))
			}
			for _, s := range roots {
				reached(s)
			}
		case "snap", "starts":
			if o.Op == "starts" {
				time.Sleep(2 * time.Millisecond)
			}
			w.add(call)
			runs, nss, starts := []string{}, []string{}, []hist.M{}
			for n, r := range w.runs {
				if r.cancelled() {
					runs = append(runs, n)
				}
				r.mu.Lock()
				if r.starts > 0 {
					starts = append(starts, hist.M{"run": n, "n": r.starts})
				}
				r.mu.Unlock()
			}
			for s, n := range w.slots {
				if n.Context().Err() != nil {
					nss = append(nss, s)
				}
			}
			sort.Strings(runs)
			sort.Strings(nss)
			call["runs"], call["ns"], call["n"] = runs, nss, starts
		case "await", "shutdown":
			n := w.slots[o.Slot]
			if o.Thread == 0 {
				w.add(call)
				n.Shutdown(false)
				break
			}
			call["t"], ret["t"] = o.Thread, o.Thread
			done := make(chan struct{})
			joins[o.Thread] = done
			w.add(call)
			go func() {
				if o.Op == "await" {
					n.Await()
				} else {
					n.Shutdown(true)
				}
				w.add(ret)
				close(done)
			}()
			if o.Op == "shutdown" { // cancels before it waits
				reached(o.Slot)
			}
			continue
		case "join":
			w.add(call)
			select {
			case <-joins[o.Thread]:
			case <-time.After(patience):
				ret["ok"] = false
				hist.Expired()
			}
		}
		w.add(ret)
		for _, n := range opens {
			if !opened[n] {
				opened[n] = true
				close(w.runs[n].gate)
			}
		}
		opens = nil
	}
	for n, r := range w.runs { // whatever is left
		if !opened[n] {
			close(r.gate)
		}
		select {
		case r.finish <- nil:
		default:
		}
	}
	w.mu.Lock()
	bw.Write(hist.Must(json.Marshal(w.events)))
	bw.WriteByte('\n')
	w.mu.Unlock()
}
