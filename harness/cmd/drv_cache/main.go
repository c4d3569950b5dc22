// drv_cache drives the simple cache with concurrent threads and records the histories.
// Usage: drv_cache OUT RUNS
package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
	"verif.local/harness/hist"
	"verif.local/harness/yield"
)

var bg = context.Background()

type pair struct {
	A int
	B string
}

func none() hist.M { return hist.M{"k": "none", "n": 0, "s": ""} }

// abs is the value as the specification sees it.
func abs(v any) hist.M {
	switch x := v.(type) {
	case nil:
		return hist.M{"k": "nil", "n": 0, "s": ""}
	case int64:
		return hist.M{"k": "int64", "n": x, "s": ""}
	case string:
		return hist.M{"k": "string", "n": 0, "s": x}
	case pair:
		return hist.M{"k": "pair", "n": x.A, "s": x.B}
	case *pair:
		if x == nil {
			return abs(nil)
		}
		return hist.M{"k": "ppair", "n": x.A, "s": x.B}
	case []string:
		if x == nil {
			return abs(nil)
		}
		return hist.M{"k": "strings", "n": len(x), "s": fmt.Sprint(x)}
	case bool:
		return hist.M{"k": "bool", "n": 0, "s": fmt.Sprint(x)}
	}
	return hist.M{"k": fmt.Sprintf("%T", v), "n": 0, "s": fmt.Sprint(v)}
}

var values = []func(n int) any{
	func(n int) any { return int64(n) },
	func(n int) any { return int64(-n) },
	func(n int) any { return fmt.Sprint("s", n) },
	func(n int) any { return "" },
	func(n int) any { return pair{n, fmt.Sprint(n)} },
	func(n int) any { return &pair{n, fmt.Sprint(n)} },
	func(n int) any { return []string{fmt.Sprint(n), "x"} },
	func(n int) any { return []string{} },
	func(n int) any { return n%2 == 0 },
	func(n int) any { return nil },
}

var wants = []string{"int64", "string", "pair", "ppair", "strings", "bool", "any"}

func variable(want string) (ptr any, deref func() any) {
	switch want {
	case "int64":
		v := new(int64)
		return v, func() any { return *v }
	case "string":
		v := new(string)
		return v, func() any { return *v }
	case "pair":
		v := new(pair)
		return v, func() any { return *v }
	case "ppair":
		v := new(*pair)
		return v, func() any { return *v }
	case "strings":
		v := new([]string)
		return v, func() any { return *v }
	case "bool":
		v := new(bool)
		return v, func() any { return *v }
	}
	v := new(any)
	return v, func() any { return *v }
}

type run struct {
	h *hist.History
	c backend.Cache
}

func res(found bool, v hist.M, err error) hist.M {
	return hist.M{"found": found, "v": v, "err": err != nil}
}

func (r *run) put(t int, k string, v any) {
	r.h.Call(t, hist.M{"op": "put", "k": k, "v": abs(v)})
	err := r.c.Put(bg, k, v)
	r.h.Ret(t, res(false, none(), err))
}

func (r *run) get(t int, k, want string) {
	ptr, deref := variable(want)
	r.h.Call(t, hist.M{"op": "get", "k": k, "want": want})
	found, err := r.c.Get(bg, k, ptr)
	v := none()
	if found && err == nil {
		v = abs(deref())
	}
	r.h.Ret(t, res(found, v, err))
}

func (r *run) del(t int, k string) {
	r.h.Call(t, hist.M{"op": "del", "k": k})
	err := r.c.Delete(bg, k)
	r.h.Ret(t, res(false, none(), err))
}

func (r *run) incr(t int, k string) {
	r.h.Call(t, hist.M{"op": "incr", "k": k})
	n, err := r.c.Incr(bg, k)
	if err != nil {
		r.h.Ret(t, res(false, none(), err))
		return
	}
	r.h.Ret(t, res(true, abs(n), nil))
}

func (r *run) mset(t int, ks []string, vs []any) {
	as := []hist.M{}
	for _, v := range vs {
		as = append(as, abs(v))
	}
	r.h.Call(t, hist.M{"op": "mset", "ks": ks, "vs": as})
	err := r.c.Mset(bg, ks, vs)
	r.h.Ret(t, res(false, none(), err))
}

func (r *run) mget(t int, ks []string, n int) {
	ptrs := make([]any, n)
	unset := pair{-999, "unset"}
	for i := range ptrs {
		var v any = unset
		ptrs[i] = &v
	}
	r.h.Call(t, hist.M{"op": "mget", "ks": ks, "n": n, "acc": []any{}})
	err := r.c.Mget(bg, ks, ptrs)
	out := []any{}
	if err == nil {
		for _, p := range ptrs {
			if v := *(p.(*any)); v == nil {
				out = append(out, abs(nil))
			} else if pr, ok := v.(pair); ok && pr == unset {
				out = append(out, none())
			} else {
				out = append(out, abs(v))
			}
		}
	}
	r.h.Ret(t, hist.M{"err": err != nil, "vs": out})
}

func (r *run) random(t int, rng *rand.Rand, keys []string) {
	k := keys[rng.Intn(len(keys))]
	val := func() any { return values[rng.Intn(len(values))](rng.Intn(50)) }
	switch rng.Intn(12) {
	case 0, 1:
		r.put(t, k, val())
	case 2:
		r.put(t, k, int64(rng.Intn(5)))
	case 3, 4:
		r.get(t, k, "any")
	case 5:
		r.get(t, k, wants[rng.Intn(len(wants))])
	case 6:
		r.del(t, k)
	case 7, 8:
		r.incr(t, k)
	case 9:
		n := rng.Intn(4)
		ks, vs := []string{}, []any{}
		for i := 0; i < n; i++ {
			ks = append(ks, keys[rng.Intn(len(keys))])
			vs = append(vs, val())
		}
		if rng.Intn(6) == 0 {
			if rng.Intn(2) == 0 {
				vs = append(vs, val())
			} else {
				ks = append(ks, k)
			}
		}
		r.mset(t, ks, vs)
	case 10, 11:
		n := rng.Intn(4)
		ks := []string{}
		for i := 0; i < n; i++ {
			ks = append(ks, keys[rng.Intn(len(keys))])
		}
		if rng.Intn(8) == 0 {
			n += 1 - 2*rng.Intn(2)
			if n < 0 {
				n = 1
			}
		}
		r.mget(t, ks, n)
	}
}

func main() {
	out := os.Args[1]
	runs := hist.Must(strconv.Atoi(os.Args[2]))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(seed*7919 + 29))
	w := hist.NewWriter(out)
	defer w.Close()
	for i := 0; i < runs && !hist.Enough(); i++ {
		yield.Enable(uint64(seed)*1000003 + uint64(i))
		c, err := simplecache.NewSimpleCache(bg)
		if err != nil {
			hist.Fail(err)
		}
		r := &run{h: hist.New(nil), c: c}
		keys := []string{"a", "b", "", "c.d"}[:1+rng.Intn(4)]
		if i%3 == 0 { // one thread, many operations
			for j := 0; j < 25; j++ {
				r.random(1, rng, keys)
			}
			w.Put(r.h)
			continue
		}
		var wg sync.WaitGroup
		nt := 2 + rng.Intn(3)
		for t := 1; t <= nt; t++ {
			trng := rand.New(rand.NewSource(rng.Int63()))
			n := 2 + rng.Intn(4)
			counters := i%3 == 1
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < n; j++ {
					if counters {
						k := keys[trng.Intn(len(keys))]
						switch trng.Intn(5) {
						case 0:
							r.get(t, k, "int64")
						case 1:
							r.put(t, k, int64(trng.Intn(100)*10))
						default:
							r.incr(t, k)
						}
					} else {
						r.random(t, trng, keys)
					}
				}
			}()
		}
		if !hist.WaitOr(&wg, 20*time.Second) {
			r.h.Env("stuck", 0)
		} else {
			r.mget(99, keys, len(keys))
		}
		w.Put(r.h)
	}
}
