// drv_netqueue drives the rabbitmq plugin against a stand-in for the broker and records the
// histories. Usage: drv_netqueue OUT RUNS
package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/rabbitmq"
	"verif.local/harness/hist"
	"verif.local/harness/standin"
	"verif.local/harness/yield"
)

type item struct {
	A int
	B string
	C []string
}

type kind struct {
	name string
	enc  func(n int) any
	pop  func(ctx context.Context, q backend.Queue) (bool, error, string)
}

func popAs[T any](dec func(T) string) func(context.Context, backend.Queue) (bool, error, string) {
	return func(ctx context.Context, q backend.Queue) (bool, error, string) {
		var v T
		ok, err := q.Pop(ctx, &v)
		if !ok || err != nil {
			return ok, err, ""
		}
		return ok, err, dec(v)
	}
}

func check(v item) string {
	if v.B != fmt.Sprint("b\r\n", v.A) || len(v.C) != v.A%3 {
		return "torn"
	}
	return strconv.Itoa(v.A)
}

func mk(n int) item { return item{n, fmt.Sprint("b\r\n", n), make([]string, n%3)} }

var kinds = []kind{
	{"int", func(n int) any { return n }, popAs(strconv.Itoa)},
	{"int64", func(n int) any { return int64(n) + 1<<60 }, popAs(func(v int64) string { return fmt.Sprint(v - 1<<60) })},
	{"string", func(n int) any { return fmt.Sprint(n) }, popAs(func(v string) string { return v })},
	{"struct", func(n int) any { return mk(n) }, popAs(check)},
	{"ptr", func(n int) any { v := mk(n); return &v }, popAs(func(v *item) string { return check(*v) })},
	{"slice", func(n int) any { return []int{n, n + 1} }, popAs(func(v []int) string {
		if len(v) != 2 || v[1] != v[0]+1 {
			return "torn"
		}
		return strconv.Itoa(v[0])
	})},
	{"map", func(n int) any { return map[string]item{"x": mk(n)} }, popAs(func(v map[string]item) string {
		if len(v) != 1 {
			return "torn"
		}
		return check(v["x"])
	})},
	{"any", func(n int) any { return fmt.Sprint(n) }, popAs(func(v any) string { return fmt.Sprint(v) })},
	{"long", func(n int) any { return make([]int, 1000*(n%90)+1) }, nil},
}

func init() {
	// longer than a frame
	kinds[len(kinds)-1].pop = popAs(func(v []int) string { return strconv.Itoa((len(v) - 1) / 1000) })
}

var bg = context.Background()

type client struct {
	q    backend.Queue
	name string
	of   string
}

type run struct {
	h   *hist.History
	k   kind
	ids atomic.Int32
	b   *standin.AMQP
	n   int
}

func (r *run) id() int { return int(r.ids.Add(1)) }

func (r *run) client(queue string) client {
	r.n++
	return client{hist.Must(rabbitmq.NewRabbitMQ(bg, r.b.Addr, queue)), fmt.Sprint("c", r.n), queue}
}

func (r *run) push(ctx context.Context, id int, c client, n int) bool {
	r.h.Call(id, hist.M{"op": "push", "q": c.of, "c": c.name, "v": strconv.Itoa(n)})
	ok, err := c.q.Push(ctx, r.k.enc(n))
	r.h.Ret(id, hist.M{"ok": ok, "v": "", "err": err != nil})
	return ok
}

func (r *run) pop(ctx context.Context, id int, c client) bool {
	r.h.Call(id, hist.M{"op": "pop", "q": c.of, "c": c.name})
	ok, err, v := r.k.pop(ctx, c.q)
	r.h.Ret(id, hist.M{"ok": ok, "v": v, "err": err != nil})
	return ok && err == nil
}

// popping runs threads that pop until total items were popped from the queues, then cancels them.
func (r *run) popping(clients []client, threads int, total int32, wg *sync.WaitGroup, patience time.Duration) bool {
	var got atomic.Int32
	done := make(chan struct{})
	var once sync.Once
	var pops sync.WaitGroup
	for t := 0; t < threads; t++ {
		c := clients[t%len(clients)]
		pops.Add(1)
		go func() {
			defer pops.Done()
			for {
				id := r.id()
				ctx, cancel := context.WithCancel(bg)
				stop := make(chan struct{})
				watching := make(chan struct{})
				go func() {
					defer close(watching)
					select {
					case <-done:
						r.h.Add(hist.M{"e": "env", "what": "cancel", "t": id})
						cancel()
					case <-stop:
					}
				}()
				ok := r.pop(ctx, id, c)
				close(stop)
				<-watching
				cancel()
				if ok && got.Add(1) >= total {
					once.Do(func() { close(done) })
				}
				if !ok {
					return
				}
			}
		}()
	}
	if total == 0 {
		once.Do(func() { close(done) })
	}
	ok := hist.WaitOr(wg, 20*time.Second)
	if ok {
		select {
		case <-done:
		case <-time.After(patience):
			ok = false
		}
	}
	once.Do(func() { close(done) })
	if !hist.WaitOr(&pops, 20*time.Second) {
		ok = false
	}
	return ok
}

func main() {
	out := os.Args[1]
	runs := hist.Must(strconv.Atoi(os.Args[2]))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(seed*7919 + 37))
	w := hist.NewWriter(out)
	defer w.Close()
	for i := 0; i < runs && !hist.Enough(); i++ {
		yield.Enable(uint64(seed)*1000003 + uint64(i))
		c := "clients that push and pop"
		switch {
		case i == 7:
			c = "a client that popped before pops no more"
		case i%7 == 5:
			c = "cancelled calls"
		case i%7 == 6:
			c = "the broker goes away"
		}
		r := &run{h: hist.New(hist.M{"case": c}), k: kinds[rng.Intn(len(kinds))], b: hist.Must(standin.Broker())}
		switch {
		case i == 7:
			idle(r)
		case i%7 == 5:
			cancels(r, rng)
		case i%7 == 6:
			down(r, rng)
		default:
			balanced(r, rng)
		}
		w.Put(r.h)
		r.b.Stop()
	}
}

// balanced: clients push and pop until all has been popped.
func balanced(r *run, rng *rand.Rand) {
	queues := []string{"q", "qq"}[:1+rng.Intn(2)]
	pre := rng.Intn(2) == 0 // pushed before anybody pops
	for qi, q := range queues {
		var pushers, poppers []client
		for j := 0; j < 1+rng.Intn(2); j++ {
			poppers = append(poppers, r.client(q))
		}
		for j := 0; j < 1+rng.Intn(2); j++ {
			if rng.Intn(2) == 0 {
				pushers = append(pushers, poppers[0])
			} else {
				pushers = append(pushers, r.client(q))
			}
		}
		var wg sync.WaitGroup
		threads, n := 1+rng.Intn(3), 0
		start := make(chan struct{})
		for t := 0; t < threads; t++ {
			c := pushers[rng.Intn(len(pushers))]
			k := 1 + rng.Intn(3)
			base := n + 40*qi
			n += k
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < k; j++ {
					r.push(bg, r.id(), c, base+j)
				}
			}()
		}
		close(start)
		if pre {
			hist.WaitOr(&wg, 20*time.Second)
		}
		if !r.popping(poppers, len(poppers)+rng.Intn(2), int32(n), &wg, 15*time.Second) {
			hist.Expired()
			r.h.Env("stuck", 0)
			return
		}
	}
	r.h.Env("drained", 0)
	if rng.Intn(4) == 0 {
		// nothing comes back when the clients have gone
		r.b.Kick()
		time.Sleep(3 * time.Millisecond)
		c, id := r.client(queues[0]), r.id()
		ctx, cancel := context.WithCancel(bg)
		go func() {
			time.Sleep(10 * time.Millisecond)
			r.h.Env("cancel", id)
			cancel()
		}()
		r.pop(ctx, id, c)
	}
}

// idle: of two clients that pop, one stops after its first.
func idle(r *run) {
	a, b := r.client("q"), r.client("q")
	p := r.client("q")
	var wg sync.WaitGroup
	r.push(bg, r.id(), p, 0)
	r.push(bg, r.id(), p, 1)
	r.pop(bg, r.id(), a)
	for i := 2; i < 6; i++ {
		r.push(bg, r.id(), p, i)
	}
	if !r.popping([]client{b}, 1, 5, &wg, 3*time.Second) {
		r.h.Env("stuck", 0)
		return
	}
	r.h.Env("drained", 0)
}

func cancels(r *run, rng *rand.Rand) {
	c := r.client("q")
	cancelled := func() (context.Context, int) {
		id := r.id()
		ctx, cancel := context.WithCancel(bg)
		r.h.Env("cancel", id)
		cancel()
		return ctx, id
	}
	var count atomic.Int32
	var waiter sync.WaitGroup
	if rng.Intn(2) == 0 {
		// somebody waits all the while
		waiter.Add(1)
		go func() {
			defer waiter.Done()
			if r.pop(bg, r.id(), c) {
				count.Add(-1)
			}
		}()
	}
	for i := 0; i < 12; i++ {
		switch rng.Intn(5) {
		case 0, 1:
			if r.push(bg, r.id(), c, i) {
				count.Add(1)
			}
		case 2:
			ctx, id := cancelled()
			if r.push(ctx, id, c, i) {
				count.Add(1)
			}
		case 3:
			ctx, id := cancelled()
			if r.pop(ctx, id, c) {
				count.Add(-1)
			}
		case 4:
			// cancelled while it waits
			id := r.id()
			ctx, cancel := context.WithCancel(bg)
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				if r.pop(ctx, id, c) {
					count.Add(-1)
				}
			}()
			time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
			r.h.Env("cancel", id)
			cancel()
			if !hist.WaitOr(&wg, 20*time.Second) {
				r.h.Env("stuck", 0)
				return
			}
		}
	}
	if r.push(bg, r.id(), c, 12) {
		count.Add(1)
	}
	if !hist.WaitOr(&waiter, 20*time.Second) {
		r.h.Env("stuck", 0)
		return
	}
	var wg sync.WaitGroup
	if !r.popping([]client{c}, 1, count.Load(), &wg, 15*time.Second) {
		hist.Expired()
		r.h.Env("stuck", 0)
		return
	}
	r.h.Env("drained", 0)
}

// down: calls have to end, and to say that something is wrong, when the broker has gone.
func down(r *run, rng *rand.Rand) {
	c := r.client("q")
	for i := 0; i < 1+rng.Intn(3); i++ {
		r.push(bg, r.id(), c, i)
	}
	if rng.Intn(2) == 0 {
		r.pop(bg, r.id(), c)
	}
	var wg sync.WaitGroup
	for t := 0; t < 2; t++ {
		push := t == 1
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				if push {
					if !r.push(bg, r.id(), c, 50+i) || i > 6 {
						return
					}
					time.Sleep(200 * time.Microsecond)
				} else if !r.pop(bg, r.id(), c) || i > 20 {
					return
				}
			}
		}()
	}
	time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
	r.h.Env("down", 0)
	r.b.Stop()
	if !hist.WaitOr(&wg, 20*time.Second) {
		r.h.Env("stuck", 0)
	}
}
