// drv_pool drives the client pool with concurrent callers, failing constructions and
// cancellations, and records the histories. Usage: drv_pool OUT RUNS
package main

import (
	"context"
	"errors"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/clientpool"
	"verif.local/harness/hist"
	"verif.local/harness/yield"
)

var bg = context.Background()
var errBuild = errors.New("the client could not be built")

type client struct{ id int }

type run struct {
	h    *hist.History
	p    *clientpool.ClientPool[*client]
	mu   sync.Mutex
	rng  *rand.Rand
	next int
	ids  int
	fail int // constructions fail with this chance in 10
}

func (r *run) id() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ids++
	return r.ids
}

func (r *run) build() (*client, error) {
	r.h.Env("build", 0)
	r.mu.Lock()
	r.next++
	id := r.next
	bad := r.rng.Intn(10) < r.fail
	d := time.Duration(r.rng.Intn(3)*r.rng.Intn(50)) * time.Microsecond
	r.mu.Unlock()
	time.Sleep(d)
	if bad {
		r.h.Env("failed", id)
		if id%2 == 0 {
			return &client{-id}, errBuild // what comes with an error must not be used
		}
		return nil, errBuild
	}
	r.h.Env("built", id)
	return &client{id}, nil
}

func (r *run) pop(ctx context.Context, t int) *client {
	r.h.Call(t, hist.M{"op": "pop"})
	c, err := r.p.Pop(ctx)
	switch {
	case err != nil && errors.Is(err, errBuild):
		r.h.Ret(t, hist.M{"c": 0, "err": "build", "n": []int{}})
		return nil
	case err != nil:
		r.h.Ret(t, hist.M{"c": 0, "err": "ctx", "n": []int{}})
		return nil
	case c == nil:
		r.h.Ret(t, hist.M{"c": -1, "err": "nil client", "n": []int{}})
		return nil
	}
	r.h.Ret(t, hist.M{"c": c.id, "err": "", "n": []int{}})
	return c
}

func (r *run) push(t int, c *client) {
	r.h.Call(t, hist.M{"op": "push", "c": c.id})
	r.p.Push(c)
	r.h.Ret(t, hist.M{"c": 0, "err": "", "n": []int{}})
}

func (r *run) stat(t int) {
	r.h.Call(t, hist.M{"op": "stat"})
	r.h.Ret(t, hist.M{"c": 0, "err": "", "n": []int{r.p.Capacity(), r.p.Size(), r.p.Available()}})
}

func main() {
	out := os.Args[1]
	runs := hist.Must(strconv.Atoi(os.Args[2]))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(seed*7919 + 41))
	w := hist.NewWriter(out)
	defer w.Close()
	stuck := 0
	for i := 0; i < runs && stuck < 3; i++ {
		yield.Enable(uint64(seed)*1000003 + uint64(i))
		capacity := 1 + rng.Intn(3)
		nt := 2 + rng.Intn(3)
		if i%5 == 0 {
			nt = 1
		}
		r := &run{h: hist.New(hist.M{"cap": capacity, "single": nt == 1}), rng: rand.New(rand.NewSource(rng.Int63()))}
		r.fail = []int{0, 3, 6, 9}[rng.Intn(4)]
		r.p = clientpool.NewClientPool(capacity, r.build)
		if nt == 1 {
			single(r, rng, capacity)
			w.Put(r.h)
			continue
		}
		// some callers keep their client until everybody else is done; one unit of capacity stays free
		var keepers, wg sync.WaitGroup
		release := make(chan struct{})
		nk := 0
		if capacity > 1 {
			nk = rng.Intn(capacity)
		}
		for k := 0; k < nk; k++ {
			keepers.Add(1)
			go func() {
				defer keepers.Done()
				id := r.id()
				if c := r.pop(bg, id); c != nil {
					<-release
					r.push(id, c)
				}
			}()
		}
		cancels := rng.Intn(2) == 0
		for t := 0; t < nt; t++ {
			trng := rand.New(rand.NewSource(rng.Int63()))
			n := 1 + rng.Intn(3)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < n; j++ {
					id := r.id()
					ctx := bg
					if cancels && trng.Intn(3) == 0 {
						c, cancel := context.WithCancel(bg)
						ctx = c
						if trng.Intn(2) == 0 {
							r.h.Env("cancel", id)
							cancel()
						} else {
							d := time.Duration(trng.Intn(80)) * time.Microsecond
							wg.Add(1)
							go func() {
								defer wg.Done()
								time.Sleep(d)
								r.h.Env("cancel", id)
								cancel()
							}()
						}
					}
					if c := r.pop(ctx, id); c != nil {
						if trng.Intn(2) == 0 {
							time.Sleep(time.Duration(trng.Intn(40)) * time.Microsecond)
						}
						r.push(id, c)
					}
				}
			}()
		}
		ok := hist.WaitOr(&wg, 10*time.Second)
		if !ok {
			r.h.Env("stuck", 0)
			stuck++
			w.Put(r.h)
			continue
		}
		close(release)
		if !hist.WaitOr(&keepers, 10*time.Second) {
			r.h.Env("stuck", 0)
			stuck++
			w.Put(r.h)
			continue
		}
		r.stat(r.id())
		// all capacity is there again
		r.fail = 0
		var cs []*client
		for k := 0; k < capacity; k++ {
			got := make(chan *client, 1)
			id := r.id()
			go func() { got <- r.pop(bg, id) }()
			select {
			case c := <-got:
				if c != nil {
					cs = append(cs, c)
				}
			case <-time.After(5 * time.Second):
				r.h.Env("stuck", 0)
				stuck++
				k = capacity
			}
		}
		if stuck == 0 {
			r.stat(r.id())
			// full: a further caller only gets an error when its context ends
			c, cancel := context.WithTimeout(bg, 200*time.Microsecond)
			id := r.id()
			r.h.Env("cancel", id)
			r.pop(c, id)
			cancel()
			for _, x := range cs {
				r.push(r.id(), x)
			}
			r.stat(r.id())
		}
		w.Put(r.h)
	}
}

func single(r *run, rng *rand.Rand, capacity int) {
	var held []*client
	for j := 0; j < 14; j++ {
		id := r.id()
		switch {
		case rng.Intn(5) < 3:
			ctx := bg
			if len(held) >= capacity || rng.Intn(5) == 0 {
				c, cancel := context.WithCancel(bg)
				r.h.Env("cancel", id)
				cancel()
				ctx = c
			}
			if c := r.pop(ctx, id); c != nil {
				held = append(held, c)
			}
		case len(held) > 0:
			k := rng.Intn(len(held))
			c := held[k]
			held = append(held[:k], held[k+1:]...)
			r.push(id, c)
		}
		r.stat(r.id())
	}
}
