// drv_nsbuild runs cases (one JSON object per line) on golang namespaces and records what every
// call and every constructor did. Usage: drv_nsbuild OUT IN
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"golang.org/x/exp/slog"
	"verif.local/harness/hist"
	"verif.local/harness/yield"
)

type def struct {
	Kind  string   `json:"kind"`
	Deps  []string `json:"deps"`
	Fails int      `json:"fails"`
	Val   string   `json:"val"`
	Child int      `json:"child"`
	Get   string   `json:"get"`
}

type builder struct {
	Defs map[string]def `json:"defs"`
	Req  []string       `json:"req"`
	Opt  []string       `json:"opt"`
	Inst []string       `json:"inst"`
}

type op struct {
	Op     string `json:"op"`
	B      int    `json:"b"`
	Parent string `json:"parent"`
	Slot   string `json:"slot"`
	Name   string `json:"name"`
	As     string `json:"as"`
}

type kase struct {
	B     []builder         `json:"b"`
	Args  []string          `json:"args"`
	Env   map[string]string `json:"environ"`
	Ops   [][]op            `json:"ops"`
	Order [][]string        `json:"order"` // order in which the names of each builder are defined
}

type node struct{ tag string }

type world struct {
	mu    sync.Mutex
	tries map[string]int
	log   []hist.M
	bs    []*golang.NamespaceBuilder
	slots map[string]*golang.Namespace
}

func tagOf(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case *node:
		return x.tag
	}
	return fmt.Sprintf("unknown value %v", v)
}

func (w *world) define(i int, name string, d def) {
	if d.Kind == "value" {
		w.bs[i].Set(name, d.Val)
		return
	}
	at := fmt.Sprintf("%d.%s", i+1, name)
	w.bs[i].Define(name, func(n *golang.Namespace) (any, error) {
		w.mu.Lock()
		w.tries[at]++
		k := w.tries[at]
		w.mu.Unlock()
		args := []string{}
		done := func(ok bool) {
			w.mu.Lock()
			w.log = append(w.log, hist.M{"at": at, "k": k, "args": args, "ok": ok})
			w.mu.Unlock()
		}
		if d.Kind == "child" {
			c, err := w.bs[d.Child-1].BuildWithParent(n)
			if err != nil {
				done(false)
				return nil, err
			}
			var v any
			if err := c.Get(d.Get, &v); err != nil {
				done(false)
				return nil, err
			}
			args = append(args, tagOf(v))
		} else {
			for _, dep := range d.Deps {
				var v any
				if err := n.Get(dep, &v); err != nil {
					done(false)
					return nil, err
				}
				args = append(args, tagOf(v))
			}
			if k <= d.Fails {
				done(false)
				return nil, fmt.Errorf("cannot build %v", at)
			}
		}
		done(true)
		return &node{tag: fmt.Sprintf("%s#%d", at, k)}, nil
	})
}

func (w *world) run(o op) hist.M {
	res := hist.M{"ok": false, "v": ""}
	if (o.Op == "get" && w.slots[o.Slot] == nil) || (o.Op == "build" && o.Parent != "" && w.slots[o.Parent] == nil) {
		res["v"] = "no namespace"
		return res
	}
	switch o.Op {
	case "build":
		var n *golang.Namespace
		var err error
		if o.Parent == "" {
			n, err = w.bs[o.B-1].Build(context.Background())
		} else {
			n, err = w.bs[o.B-1].BuildWithParent(w.slots[o.Parent])
		}
		if err == nil {
			w.slots[o.Slot] = n
			res["ok"] = true
		} else if n != nil {
			res["v"] = "a namespace together with an error"
		}
	case "get":
		n := w.slots[o.Slot]
		var v any
		var err error
		if o.As == "string" {
			var s string
			err = n.Get(o.Name, &s)
			v = s
		} else if o.As == "node" {
			var x *node
			err = n.Get(o.Name, &x)
			v = x
		} else {
			err = n.Get(o.Name, &v)
		}
		if err == nil {
			res["ok"] = true
			res["v"] = tagOf(v)
		}
	}
	return res
}

func main() {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	out := hist.Must(os.Create(os.Args[1]))
	defer out.Close()
	bw := bufio.NewWriter(out)
	defer bw.Flush()
	sc := bufio.NewScanner(hist.Must(os.Open(os.Args[2])))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for num := 1; !hist.Enough() && sc.Scan(); num++ {
		var c kase
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			hist.Fail(err)
		}
		flag.CommandLine = flag.NewFlagSet("process", flag.ExitOnError)
		os.Args = append([]string{"process"}, c.Args...)
		for k, v := range c.Env {
			os.Setenv(k, v)
		}
		w := &world{tries: map[string]int{}, slots: map[string]*golang.Namespace{}}
		for i, b := range c.B {
			w.bs = append(w.bs, golang.NewNamespaceBuilder(fmt.Sprint("b", i+1)))
			for _, n := range b.Req {
				w.bs[i].Required(n, "required")
			}
			for _, n := range b.Opt {
				w.bs[i].Optional(n, "optional")
			}
			for _, n := range b.Inst {
				w.bs[i].Instantiate(n)
			}
			for _, n := range c.Order[i] {
				w.define(i, n, b.Defs[n])
			}
		}
		var mu sync.Mutex
		events := []hist.M{}
		add := func(m hist.M) { mu.Lock(); events = append(events, m); mu.Unlock() }
		single := len(c.Ops) == 1
		if single {
			yield.Disable()
		} else {
			yield.Enable(uint64(seed)*1000003 + uint64(num))
		}
		var wg sync.WaitGroup
		for t, ops := range c.Ops {
			f := func() {
				for i, o := range ops {
					call := hist.M{"e": "call", "t": t, "i": i}
					add(call)
					w.mu.Lock()
					from := len(w.log)
					w.mu.Unlock()
					res := w.run(o)
					w.mu.Lock()
					if single || t == 0 {
						res["log"] = append([]hist.M{}, w.log[from:]...)
					}
					w.mu.Unlock()
					add(hist.M{"e": "ret", "t": t, "i": i, "res": res})
				}
			}
			if t == 0 { // the first thread runs before the others
				f()
				continue
			}
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		if !hist.WaitOr(&wg, 30*time.Second) {
			add(hist.M{"e": "env", "what": "stuck"})
		}
		counts := []hist.M{}
		w.mu.Lock()
		var keys []string
		for k := range w.tries {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			i := strings.IndexByte(k, '.')
			counts = append(counts, hist.M{"b": hist.Must(strconv.Atoi(k[:i])), "name": k[i+1:], "n": w.tries[k]})
		}
		w.mu.Unlock()
		add(hist.M{"e": "counts", "counts": counts})
		for k := range c.Env {
			os.Unsetenv(k)
		}
		mu.Lock()
		bw.Write(hist.Must(json.Marshal(events)))
		bw.WriteByte('\n')
		mu.Unlock()
	}
}
