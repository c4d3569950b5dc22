// drv_netcache drives the cache plugins that are clients of a server, against stand-ins for the
// servers, and records the histories. Usage: drv_netcache OUT RUNS
package main

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/memcached"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/redis"
	"verif.local/harness/hist"
	"verif.local/harness/standin"
	"verif.local/harness/yield"
)

var bg = context.Background()

type pair struct {
	A int
	B string
}

func val(k string, n int, s string) hist.M { return hist.M{"k": k, "n": n, "s": s} }
func none() hist.M                         { return val("none", 0, "") }

// abs is the value as the specification sees it: what it is as text on a server.
func abs(v any) hist.M {
	switch x := v.(type) {
	case nil:
		return val("nil", 0, "")
	case int64:
		if int64(int32(x)) != x {
			return val("big", 0, fmt.Sprint(x))
		}
		return val("int64", int(x), "")
	case float64:
		return abs(int64(x))
	case string:
		return val("string", 0, x)
	case pair:
		return val("pair", x.A, x.B)
	case *pair:
		if x == nil {
			return abs(nil)
		}
		return abs(*x)
	case map[string]any:
		a, _ := x["A"].(float64)
		b, _ := x["B"].(string)
		return val("pair", int(a), b)
	case []string:
		if x == nil {
			return abs(nil)
		}
		return val("strings", len(x), fmt.Sprint(x))
	case []any:
		return val("strings", len(x), fmt.Sprint(x))
	case bool:
		return val("bool", 0, fmt.Sprint(x))
	}
	return val(fmt.Sprintf("%T", v), 0, fmt.Sprint(v))
}

var values = []func(n int) any{
	func(n int) any { return int64(n) },
	func(n int) any { return int64(-n) },
	func(n int) any { return fmt.Sprint("s", n) },
	func(n int) any { return "" },
	func(n int) any { return "a\r\nEND\r\n$-1\r\n\"é<&" },
	func(n int) any { return strconv.Itoa(n) },
	func(n int) any { return pair{n, fmt.Sprint(n)} },
	func(n int) any { return &pair{n, fmt.Sprint(n)} },
	func(n int) any { return []string{fmt.Sprint(n), "x"} },
	func(n int) any { return []string{} },
	func(n int) any { return n%2 == 0 },
	func(n int) any { return nil },
}

var wants = []string{"int64", "string", "pair", "ppair", "strings", "bool", "any"}

func variable(want string) (ptr any, deref func() any) {
	switch want {
	case "int64":
		v := new(int64)
		return v, func() any { return *v }
	case "string":
		v := new(string)
		return v, func() any { return *v }
	case "pair":
		v := new(pair)
		return v, func() any { return *v }
	case "ppair":
		v := new(*pair)
		return v, func() any { return *v }
	case "strings":
		v := new([]string)
		return v, func() any { return *v }
	case "bool":
		v := new(bool)
		return v, func() any { return *v }
	}
	v := new(any)
	return v, func() any { return *v }
}

type client struct {
	c     backend.Cache
	srv   string
	store string
}

type run struct {
	h *hist.History
}

func res(found bool, v hist.M, err error) hist.M {
	return hist.M{"found": found, "v": v, "err": err != nil}
}

func (c client) op(op string, more hist.M) hist.M {
	m := hist.M{"op": op, "srv": c.srv, "store": c.store}
	for k, v := range more {
		m[k] = v
	}
	return m
}

func (r *run) put(t int, c client, k string, v any) {
	r.h.Call(t, c.op("put", hist.M{"k": k, "v": abs(v)}))
	err := c.c.Put(bg, k, v)
	r.h.Ret(t, res(false, none(), err))
}

func (r *run) get(t int, c client, k, want string) {
	ptr, deref := variable(want)
	r.h.Call(t, c.op("get", hist.M{"k": k, "want": want}))
	found, err := c.c.Get(bg, k, ptr)
	v := none()
	if found && err == nil {
		v = abs(deref())
	}
	r.h.Ret(t, res(found, v, err))
}

func (r *run) del(t int, c client, k string) {
	r.h.Call(t, c.op("del", hist.M{"k": k}))
	err := c.c.Delete(bg, k)
	r.h.Ret(t, res(false, none(), err))
}

func (r *run) incr(t int, c client, k string) {
	r.h.Call(t, c.op("incr", hist.M{"k": k}))
	n, err := c.c.Incr(bg, k)
	if err != nil {
		r.h.Ret(t, res(false, none(), err))
		return
	}
	r.h.Ret(t, res(true, abs(n), nil))
}

func (r *run) mset(t int, c client, ks []string, vs []any) {
	as := []hist.M{}
	for _, v := range vs {
		as = append(as, abs(v))
	}
	r.h.Call(t, c.op("mset", hist.M{"ks": ks, "vs": as}))
	err := guard(func() error { return c.c.Mset(bg, ks, vs) }, r.h)
	r.h.Ret(t, res(false, none(), err))
}

func (r *run) mget(t int, c client, ks []string, ws []string) {
	ptrs := make([]any, len(ws))
	unset := pair{-999, "unset"}
	for i, w := range ws {
		if w == "int64" {
			v := int64(-999999)
			ptrs[i] = &v
		} else {
			var v any = unset
			ptrs[i] = &v
		}
	}
	r.h.Call(t, c.op("mget", hist.M{"ks": ks, "n": len(ws), "wants": ws}))
	err := guard(func() error { return c.c.Mget(bg, ks, ptrs) }, r.h)
	out := []any{}
	if err == nil {
		for _, p := range ptrs {
			switch x := p.(type) {
			case *int64:
				if *x == -999999 {
					out = append(out, none())
				} else {
					out = append(out, abs(*x))
				}
			case *any:
				if pr, ok := (*x).(pair); ok && pr == unset {
					out = append(out, none())
				} else {
					out = append(out, abs(*x))
				}
			}
		}
	}
	r.h.Ret(t, hist.M{"err": err != nil, "vs": out})
}

// guard turns a panic of the call into an event that no specification explains.
func guard(f func() error, h *hist.History) (err error) {
	defer func() {
		if p := recover(); p != nil {
			h.Add(hist.M{"e": "panic", "what": fmt.Sprint(p)})
			err = fmt.Errorf("panic %v", p)
		}
	}()
	return f()
}

func (r *run) random(t int, rng *rand.Rand, c client, keys []string) {
	k := keys[rng.Intn(len(keys))]
	v := func() any { return values[rng.Intn(len(values))](rng.Intn(50)) }
	some := func(n int) (ks []string) {
		ks = []string{}
		for i := 0; i < n; i++ {
			ks = append(ks, keys[rng.Intn(len(keys))])
		}
		return
	}
	switch rng.Intn(13) {
	case 0, 1:
		r.put(t, c, k, v())
	case 2:
		r.put(t, c, k, int64(rng.Intn(5)))
	case 3, 4:
		r.get(t, c, k, "any")
	case 5:
		r.get(t, c, k, wants[rng.Intn(len(wants))])
	case 6:
		r.del(t, c, k)
	case 7, 8:
		r.incr(t, c, k)
	case 9, 10:
		ks, vs := some(rng.Intn(4)), []any{}
		for range ks {
			vs = append(vs, v())
		}
		switch rng.Intn(12) {
		case 0:
			vs = append(vs, v())
		case 1:
			ks = append(ks, k)
		}
		r.mset(t, c, ks, vs)
	case 11:
		ks, ws := some(rng.Intn(4)), []string{}
		for range ks {
			ws = append(ws, []string{"any", "any", "any", "int64"}[rng.Intn(4)])
		}
		switch rng.Intn(8) {
		case 0:
			ws = append(ws, "any")
		case 1:
			ks = append(ks, k)
		}
		r.mget(t, c, ks, ws)
	case 12:
		n := rng.Int63n(1 << 60)
		r.put(t, c, "big", n+1<<40)
		r.get(t, c, "big", "int64")
	}
}

type server struct {
	name, store, addr string
}

func (s server) client() client {
	var c backend.Cache
	var err error
	if s.store == "redis" {
		c, err = redis.NewRedisCacheClient(bg, s.addr)
	} else {
		c, err = memcached.NewMemcachedClient(bg, s.addr)
	}
	if err != nil {
		hist.Fail(err)
	}
	return client{c, s.name, s.store}
}

func main() {
	out := os.Args[1]
	runs := hist.Must(strconv.Atoi(os.Args[2]))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(seed*7919 + 31))
	w := hist.NewWriter(out)
	defer w.Close()
	l := hist.Must(net.Listen("tcp", "127.0.0.1:0"))
	nobody := l.Addr().String()
	l.Close()
	for i := 0; i < runs && !hist.Enough(); i++ {
		yield.Enable(uint64(seed)*1000003 + uint64(i))
		r := &run{h: hist.New(nil)}
		store, start := "redis", standin.Redis
		if i%2 == 1 {
			store, start = "memcached", standin.Memcached
		}
		var servers []server
		var stop []func()
		for j := 0; j < 1+rng.Intn(2); j++ {
			s := hist.Must(start())
			stop = append(stop, s.Stop)
			servers = append(servers, server{fmt.Sprint("s", j), store, s.Addr})
		}
		var clients []client
		for j := 0; j < len(servers)+rng.Intn(3); j++ {
			clients = append(clients, servers[j%len(servers)].client())
		}
		keys := []string{"a", "b", "c.d:e", "k/é", "a b", standin.Fail}[:1+rng.Intn(6)]
		switch i / 2 % 3 {
		case 0: // one thread, many operations
			if i%4 < 2 { // count far
				c, k := clients[rng.Intn(len(clients))], keys[rng.Intn(len(keys))]
				r.put(1, c, k, int64(rng.Intn(1<<rng.Intn(30))))
				for j := 0; j < 30; j++ {
					r.incr(1, c, k)
				}
			}
			for j := 0; j < 25; j++ {
				r.random(1, rng, clients[rng.Intn(len(clients))], keys)
			}
			if i%29 < 2 {
				d := server{"down", store, nobody}.client()
				r.put(1, d, "a", int64(1))
				r.get(1, d, "a", "any")
				r.incr(1, d, "a")
				r.del(1, d, "a")
				r.mset(1, d, []string{"a", "b"}, []any{int64(1), int64(2)})
				r.mget(1, d, []string{"a", "b"}, []string{"any", "any"})
			}
		default:
			var wg sync.WaitGroup
			nt := 2 + rng.Intn(3)
			for t := 1; t <= nt; t++ {
				trng := rand.New(rand.NewSource(rng.Int63()))
				n := 2 + rng.Intn(4)
				counters := i/2%3 == 1
				c := clients[rng.Intn(len(clients))]
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < n; j++ {
						if counters {
							k := keys[trng.Intn(len(keys))]
							switch trng.Intn(5) {
							case 0:
								r.get(t, c, k, "int64")
							case 1:
								r.put(t, c, k, int64(trng.Intn(100)*10))
							default:
								r.incr(t, c, k)
							}
						} else {
							r.random(t, trng, c, keys)
						}
					}
				}()
			}
			if !hist.WaitOr(&wg, 20*time.Second) {
				r.h.Env("stuck", 0)
				w.Put(r.h)
				continue
			}
		}
		var ok []string
		for _, k := range keys {
			if k != standin.Fail && k != "a b" {
				ok = append(ok, k)
			}
		}
		for _, s := range servers {
			ws := []string{}
			for range ok {
				ws = append(ws, "any")
			}
			r.mget(99, s.client(), ok, ws)
		}
		for _, f := range stop {
			f()
		}
		w.Put(r.h)
	}
}
