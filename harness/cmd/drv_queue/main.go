// drv_queue drives the simple queue plugin with concurrent producers and consumers and records
// the histories. Usage: drv_queue OUT RUNS
package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplequeue"
	"verif.local/harness/hist"
	"verif.local/harness/yield"
)

type item struct {
	A int
	B string
}

// kinds of values that travel through the queue; enc makes one from a number, pop takes one out.
type kind struct {
	name string
	enc  func(n int) any
	pop  func(ctx context.Context, q backend.Queue) (bool, error, string)
}

// text is the value as the history shows it
func (k kind) text(n int) string {
	if k.name == "nil" && n%2 == 0 {
		return "<nil>"
	}
	return strconv.Itoa(n)
}

func popAs[T any](dec func(T) string) func(context.Context, backend.Queue) (bool, error, string) {
	return func(ctx context.Context, q backend.Queue) (bool, error, string) {
		var v T
		ok, err := q.Pop(ctx, &v)
		if !ok {
			return ok, err, ""
		}
		return ok, err, dec(v)
	}
}

var kinds = []kind{
	{"int", func(n int) any { return n }, popAs(func(v int) string { return strconv.Itoa(v) })},
	{"string", func(n int) any { return fmt.Sprint(n) }, popAs(func(v string) string { return v })},
	{"struct", func(n int) any { return item{n, fmt.Sprint("b", n)} }, popAs(func(v item) string {
		if v.B != fmt.Sprint("b", v.A) {
			return "torn"
		}
		return strconv.Itoa(v.A)
	})},
	{"ptr", func(n int) any { return &item{n, "x"} }, popAs(func(v *item) string { return strconv.Itoa(v.A) })},
	{"slice", func(n int) any { return []int{n, n + 1} }, popAs(func(v []int) string {
		if len(v) != 2 || v[1] != v[0]+1 {
			return "torn"
		}
		return strconv.Itoa(v[0])
	})},
	{"nil", func(n int) any {
		if n%2 == 0 {
			return nil
		}
		return n
	}, popAs(func(v any) string {
		return fmt.Sprint(v)
	})},
	{"any", func(n int) any { return n }, popAs(func(v any) string { return fmt.Sprint(v) })},
}

var bg = context.Background()

func newQ() backend.Queue {
	q, err := simplequeue.NewSimpleQueue(bg)
	if err != nil {
		hist.Fail(err)
	}
	return q
}

// capacity finds how many items the queue takes before it refuses more, by refusing to wait.
func capacity() int {
	q := newQ()
	ctx, cancel := context.WithCancel(bg)
	cancel()
	n := 0
	// With a cancelled context a push into a queue with room may still be refused only if the
	// implementation looks at the context first; try a few times before concluding.
	for n < 100000 {
		ok := false
		for i := 0; i < 40 && !ok; i++ {
			ok, _ = q.Push(ctx, 1)
		}
		if !ok {
			return n
		}
		n++
	}
	return n
}

type run struct {
	h   *hist.History
	q   backend.Queue
	k   kind
	ids int
	mu  sync.Mutex
}

func (r *run) id() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ids++
	return r.ids
}

func (r *run) push(ctx context.Context, id int, n int) bool {
	r.h.Call(id, hist.M{"op": "push", "v": r.k.text(n)})
	ok, err := r.q.Push(ctx, r.k.enc(n))
	r.h.Ret(id, hist.M{"ok": ok, "v": "", "err": err != nil})
	return ok
}

func (r *run) pop(ctx context.Context, id int) bool {
	r.h.Call(id, hist.M{"op": "pop", "v": ""})
	ok, err, v := r.k.pop(ctx, r.q)
	r.h.Ret(id, hist.M{"ok": ok, "v": v, "err": err != nil})
	return ok
}

func main() {
	out := os.Args[1]
	runs := hist.Must(strconv.Atoi(os.Args[2]))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(seed*7919 + 17))
	w := hist.NewWriter(out)
	defer w.Close()
	cap := capacity()
	if cap > 1000 {
		cap = 1000000
	}
	for i := 0; i < runs && !hist.Enough(); i++ {
		yield.Enable(uint64(seed)*1000003 + uint64(i))
		r := &run{h: hist.New(hist.M{"cap": cap}), q: newQ(), k: kinds[rng.Intn(len(kinds))]}
		switch i % 5 {
		case 0, 1:
			balanced(r, rng, w, cap)
		case 2:
			cancels(r, rng, w, cap)
		case 3:
			sequential(r, rng, w, cap)
		case 4:
			full(r, rng, w, cap)
		}
	}
}

// balanced: as many pops as pushes, nothing cancelled: every call has to return.
func balanced(r *run, rng *rand.Rand, w *hist.Writer, cap int) {
	np, nc := 1+rng.Intn(3), 1+rng.Intn(3)
	total := 3 + rng.Intn(6)
	if rng.Intn(4) == 0 && cap < 50 {
		total += cap
		np, nc = 1+rng.Intn(2), 1
	}
	pushes, pops := make([]int, np), make([]int, nc)
	for i := 0; i < total; i++ {
		pushes[rng.Intn(np)]++
		pops[rng.Intn(nc)]++
	}
	var wg sync.WaitGroup
	n := 0
	for p := 0; p < np; p++ {
		wg.Add(1)
		base := n
		n += pushes[p]
		go func() {
			defer wg.Done()
			for i := 0; i < pushes[p]; i++ {
				r.push(bg, r.id(), base+i)
			}
		}()
	}
	for c := 0; c < nc; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < pops[c]; i++ {
				r.pop(bg, r.id())
			}
		}()
	}
	if !hist.WaitOr(&wg, 20*time.Second) {
		r.h.Env("stuck", 0)
	}
	w.Put(r.h)
}

// cancels: calls whose contexts are cancelled before, while and after they run.
func cancels(r *run, rng *rand.Rand, w *hist.Writer, cap int) {
	var wg sync.WaitGroup
	nt := 2 + rng.Intn(3)
	pre := 0
	if rng.Intn(2) == 0 && cap < 50 {
		pre = cap - rng.Intn(2) // around the full mark
	} else {
		pre = rng.Intn(2)
	}
	for i := 0; i < pre; i++ {
		r.push(bg, r.id(), 100+i)
	}
	type op struct {
		push   bool
		n      int
		mode   int // 0: cancelled before, 1: cancelled concurrently
		cancel context.CancelFunc
	}
	n := 0
	for t := 0; t < nt; t++ {
		k := 1 + rng.Intn(3)
		ops := make([]op, k)
		for i := range ops {
			ops[i] = op{push: rng.Intn(2) == 0, n: n, mode: rng.Intn(3)}
			n++
		}
		delays := make([]int, k)
		for i := range delays {
			delays[i] = rng.Intn(60)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, o := range ops {
				id := r.id()
				ctx, cancel := context.WithCancel(bg)
				if o.mode == 0 {
					r.h.Env("cancel", id)
					cancel()
				} else {
					wg.Add(1)
					go func() {
						defer wg.Done()
						time.Sleep(time.Duration(delays[i]) * time.Microsecond)
						r.h.Env("cancel", id)
						cancel()
					}()
				}
				if o.push {
					r.push(ctx, id, o.n)
				} else {
					r.pop(ctx, id)
				}
			}
		}()
	}
	if !hist.WaitOr(&wg, 20*time.Second) {
		r.h.Env("stuck", 0)
		w.Put(r.h)
		return
	}
	drain(r)
	w.Put(r.h)
}

// drain takes everything out, so that what the queue held becomes visible.
func drain(r *run) {
	ctx, cancel := context.WithCancel(bg)
	cancel()
	misses := 0
	for misses < 3 {
		id := r.id()
		r.h.Env("cancel", id)
		if !r.pop(ctx, id) {
			misses++
		}
	}
}

// sequential: one thread, never letting a call wait.
func sequential(r *run, rng *rand.Rand, w *hist.Writer, cap int) {
	have := 0
	for i := 0; i < 30; i++ {
		id := r.id()
		ctx := bg
		if rng.Intn(3) == 0 {
			c, cancel := context.WithCancel(bg)
			r.h.Env("cancel", id)
			cancel()
			ctx = c
		}
		if rng.Intn(5) < 3 {
			if ctx == bg && have >= cap {
				continue
			}
			if r.push(ctx, id, i) {
				have++
			}
		} else {
			if ctx == bg && have == 0 {
				continue
			}
			if r.pop(ctx, id) {
				have--
			}
		}
	}
	drain(r)
	w.Put(r.h)
}

// full: pushes wait on a full queue and are let in by pops, in some order.
func full(r *run, rng *rand.Rand, w *hist.Writer, cap int) {
	if cap > 50 {
		return
	}
	for i := 0; i < cap; i++ {
		r.push(bg, r.id(), 100+i)
	}
	var wg sync.WaitGroup
	k := 1 + rng.Intn(3)
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.push(bg, r.id(), i)
		}()
	}
	time.Sleep(time.Duration(rng.Intn(100)) * time.Microsecond)
	for i := 0; i < k; i++ {
		r.pop(bg, r.id())
	}
	if !hist.WaitOr(&wg, 20*time.Second) {
		r.h.Env("stuck", 0)
	} else {
		drain(r)
	}
	w.Put(r.h)
}
