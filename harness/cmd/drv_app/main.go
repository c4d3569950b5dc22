// drv_app runs generated applications, whose processes were compiled into this binary, through
// scenarios: which services are called when, and what the services do when they are called.
// It records everything that happens in the order in which it happens.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log/slog"
	"net"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	expslog "golang.org/x/exp/slog"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"verif.example/wf"
)

// Proc is a generated process.
type Proc struct {
	Name string
	New  func(string) *golang.NamespaceBuilder
}

// Apps is filled in by generated code.
var Apps = map[string]map[string]Proc{}

type Sub struct {
	Dep    int  `json:"dep"`
	Plan   Plan `json:"plan"`
	Ignore bool `json:"ignore,omitempty"`
}

// Typed is which method of a typed dependency to call with which arguments.
type Typed struct {
	Method string `json:"method"`
	At     int    `json:"at"` // which argument is the plan
	Seed   int64  `json:"seed"`
}
type Out struct {
	Subs  []Sub  `json:"subs,omitempty"`
	Par   bool   `json:"par,omitempty"` // the subs all at once
	Err   string `json:"err,omitempty"`
	Seed  int64  `json:"seed,omitempty"` // of the results
	Us    int    `json:"us,omitempty"`
	Bctx  bool   `json:"bctx,omitempty"`  // until its context is over
	Block bool   `json:"block,omitempty"` // until the call is over or its context is
	Bar   string `json:"bar,omitempty"`   // until BarN invocations are here
	BarN  int    `json:"barn,omitempty"`
}
type Plan struct {
	C    string `json:"c"`
	Outs []Out  `json:"outs"`
}
type Call struct {
	From string `json:"from"` // an instance
	Dep  int    `json:"dep"`
	Plan Plan   `json:"plan"`
	Typed
	CancelUs int `json:"cancel_us"`
	TimeUs   int `json:"time_us"`
}
type Scenario struct {
	App    string            `json:"app"`
	Order  []string          `json:"order"`
	Ids    map[string]string `json:"ids"`
	Phases [][][]Call        `json:"phases"` // one after the other; threads; calls
	Extra  json.RawMessage   `json:"extra"`
	Settle int               `json:"settle_us"`
	// the name of a tracing collector
	Collector string `json:"collector"`
}

var (
	mu     sync.Mutex
	events []map[string]any
	counts = map[string]int{}
	over   = map[string]chan struct{}{}
	bars   = map[string]*bar{}
	begin  time.Time
	gen    int               // which scenario this is
	names  map[string]string // id -> service
)

type bar struct {
	n, want int
	full    chan struct{}
}

const watchdog = 8 * time.Second

func record(e map[string]any) { recordIn(0, e) }

// recordIn records what belongs to scenario g (0: to the one that runs).
func recordIn(g int, e map[string]any) {
	mu.Lock()
	if g != 0 && g != gen {
		mu.Unlock()
		return
	}
	if base != 0 {
		e["ns"] = time.Now().UnixNano() - base
		e["ts"] = int(e["ns"].(int64) / 1000)
	} else {
		e["ts"] = int(time.Since(begin) / time.Microsecond)
	}
	events = append(events, e)
	mu.Unlock()
}

var errToken = regexp.MustCompile(`E[0-9]+!`)

func token(err error) string {
	if err == nil {
		return ""
	}
	s := err.Error()
	if m := errToken.FindString(s); m != "" {
		return m
	}
	switch {
	case strings.Contains(s, "Request was timed out"), strings.Contains(s, "DeadlineExceeded"):
		return "TIMEOUT"
	case strings.Contains(s, "Artificially induced"):
		return "FAULT"
	case strings.Contains(s, "StatusCode was 500"):
		return "HTTP500"
	case strings.Contains(s, "circuit breaker open"):
		return "CBOPEN"
	case errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded), strings.Contains(s, "context canceled"), strings.Contains(s, "context deadline exceeded"), strings.Contains(s, "timeout before client was available"):
		return "CTX"
	}
	return s
}

func overChan(c string) chan struct{} {
	mu.Lock()
	defer mu.Unlock()
	if over[c] == nil {
		over[c] = make(chan struct{})
	}
	return over[c]
}

// callSub calls a dependency of an instance.
func callSub(ctx context.Context, b *wf.Built, dep int, p Plan, how Typed) error {
	if dep >= len(b.Deps)+len(b.Any) {
		fmt.Fprintln(os.Stderr, "HARNESS no such dependency", b.Name, dep)
		os.Exit(3)
	}
	arg, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	o := overChan(p.C)
	parent, pn := parentOf(p.C)
	ev := map[string]any{"e": "call", "c": p.C, "root": root(p.C), "from": names[b.Name], "dep": dep + 1, "parent": parent, "pn": pn, "m": strings.ToLower(how.Method)}
	var val string
	note(ctx, "b %s 0", p.C)
	if how.Method != "" {
		val, err = callTyped(ctx, b.Any[dep], how, string(arg), ev)
	} else {
		ev["arg"] = short(string(arg))
		record(ev)
		val, err = b.Deps[dep].Call(ctx, string(arg))
	}
	t := token(err)
	if t != "" {
		val = ""
	}
	note(ctx, "a %s 0", p.C)
	record(map[string]any{"e": "ret", "c": p.C, "val": val, "err": t})
	close(o)
	return err
}

// parentOf returns the call in whose n-th invocation c is made.
func parentOf(c string) (string, int) {
	parts := strings.Split(c, ".")
	if len(parts) < 3 {
		return "", 0
	}
	n, _ := strconv.Atoi(parts[len(parts)-2])
	return strings.Join(parts[:len(parts)-2], "."), n
}

func root(c string) string { return strings.SplitN(c, ".", 2)[0] }

func do(ctx context.Context, b *wf.Built, arg string) (string, error) {
	return perform(ctx, b, arg, short(arg), func(c string, n int, _ int64) string { return fmt.Sprintf("%s#%d é\n<&>", c, n) })
}

func doTyped(ctx context.Context, b *wf.Built, method string, at int, plan string, args []any, outs []any) error {
	_, err := perform(ctx, b, plan, describe(method, at, plan, args), func(c string, n int, seed int64) string { return fill(outs, seed+int64(n)-1) })
	return err
}

// perform does what the plan says; arg is what the call was given, and result makes what it returns.
func perform(ctx context.Context, b *wf.Built, plan string, arg string, result func(c string, n int, seed int64) string) (string, error) {
	var p Plan
	if err := json.Unmarshal([]byte(plan), &p); err != nil {
		record(map[string]any{"e": "garbled", "inst": names[b.Name], "arg": plan})
		return "", errors.New("E0! garbled argument")
	}
	mu.Lock()
	counts[p.C]++
	n := counts[p.C]
	mu.Unlock()
	o := p.Outs[min(n, len(p.Outs))-1]
	record(map[string]any{"e": "enter", "c": p.C, "n": n, "inst": names[b.Name], "arg": arg, "traced": anchor(ctx, p.C, n)})
	note(ctx, "e %s %d", p.C, n)
	defer note(ctx, "x %s %d", p.C, n)
	var failure error
	late := false
	if o.Par {
		var wg sync.WaitGroup
		for i, s := range o.Subs {
			s.Plan.C = fmt.Sprintf("%s.%d.%d", p.C, n, i)
			wg.Add(1)
			go func() {
				defer wg.Done()
				callSub(ctx, b, s.Dep, s.Plan, Typed{})
			}()
		}
		wg.Wait()
	} else {
		for i, s := range o.Subs {
			s.Plan.C = fmt.Sprintf("%s.%d.%d", p.C, n, i)
			if err := callSub(ctx, b, s.Dep, s.Plan, Typed{}); err != nil && !s.Ignore {
				failure = err
				break
			}
		}
	}
	if o.Us > 0 {
		time.Sleep(time.Duration(o.Us) * time.Microsecond)
	}
	if o.Block {
		select {
		case <-ctx.Done():
			failure = ctx.Err()
		case <-overChan(p.C):
		case <-overChan(root(p.C)):
		case <-time.After(watchdog):
			late = true
		}
	}
	if o.Bctx {
		select {
		case <-ctx.Done():
			failure = ctx.Err()
		case <-time.After(watchdog / 2):
			late = true
		}
	}
	if o.Bar != "" {
		mu.Lock()
		if bars[o.Bar] == nil {
			bars[o.Bar] = &bar{want: o.BarN, full: make(chan struct{})}
		}
		x := bars[o.Bar]
		x.n++
		if x.n == x.want {
			close(x.full)
		}
		mu.Unlock()
		select {
		case <-x.full:
		case <-time.After(watchdog):
			late = true
		}
	}
	if failure == nil && o.Err != "" {
		failure = errors.New(o.Err + " injected \"ümläut\"")
	}
	if failure != nil {
		// what comes with an error is nobody's business
		record(map[string]any{"e": "exit", "c": p.C, "n": n, "val": "", "err": token(failure), "late": late, "bctx": o.Bctx})
		return "junk", failure
	}
	val := result(p.C, n, o.Seed)
	record(map[string]any{"e": "exit", "c": p.C, "n": n, "val": val, "err": "", "late": late, "bctx": o.Bctx})
	return val, nil
}

var nextPort, firstPort, ports int

// freeAddr returns an address that nothing uses, from a range of ports that is this driver's own and
// not used for outgoing connections.
func freeAddr() string {
	if ports == 0 {
		if n, _ := fmt.Sscanf(os.Getenv("VERIF_PORTS"), "%d+%d", &firstPort, &ports); n != 2 {
			fail("VERIF_PORTS", os.Getenv("VERIF_PORTS"))
		}
		nextPort = os.Getpid() % ports
	}
	for i := 0; i < ports; i++ {
		addr := fmt.Sprintf("127.0.0.1:%d", firstPort+nextPort)
		nextPort = (nextPort + 1) % ports
		l, err := net.Listen("tcp", addr)
		if err == nil {
			l.Close()
			return addr
		}
	}
	fail("no free port")
	return ""
}

func fail(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"HARNESS"}, a...)...)
	os.Exit(3)
}

func run(s Scenario) (out map[string]any) {
	mu.Lock()
	events = nil
	counts = map[string]int{}
	over = map[string]chan struct{}{}
	bars = map[string]*bar{}
	names = s.Ids
	begin = time.Now()
	gen++
	g := gen
	mu.Unlock()
	wf.Instances = nil
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	out = map[string]any{"app": s.App}
	addrs := map[string]string{}
	var nss []*golang.Namespace
	zipkin := startCollector(s.Collector, addrs)
	for _, p := range s.Order {
		flag.CommandLine = flag.NewFlagSet(p, flag.ContinueOnError)
		os.Args = []string{p}
		var listen []string
		b := Apps[s.App][p].New(p)
		var args []string
		flag.VisitAll(func(f *flag.Flag) { args = append(args, f.Name) })
		for _, a := range args {
			base := strings.TrimSuffix(strings.TrimSuffix(a, "dial_addr"), "bind_addr")
			if addrs[base] == "" {
				addrs[base] = freeAddr()
			}
			os.Args = append(os.Args, "--"+a+"="+addrs[base])
			if strings.HasSuffix(a, "bind_addr") {
				listen = append(listen, addrs[base])
			}
		}
		ns, err := b.Build(ctx)
		if err != nil {
			out["builderr"] = p + ": " + err.Error()
			return
		}
		nss = append(nss, ns)
		for _, l := range listen {
			up := false
			for i := 0; i < 2000 && !up; i++ {
				c, err := net.Dial("tcp", l)
				if err == nil {
					c.Close()
					up = true
				} else {
					time.Sleep(5 * time.Millisecond)
				}
			}
			if !up {
				out["builderr"] = p + ": nothing listens at the address of a server"
				return
			}
		}
	}
	time.Sleep(time.Duration(s.Settle) * time.Microsecond)
	built := map[string]int{}
	for _, b := range wf.Instances {
		built[names[b.Name]]++
	}
	record(map[string]any{"e": "built", "n": built})
	for _, phase := range s.Phases {
		done := make(chan bool)
		for _, thread := range phase {
			go func() {
				for _, c := range thread {
					time.Sleep(time.Duration(c.TimeUs) * time.Microsecond)
					bs := wf.All(c.From)
					if len(bs) == 0 {
						fail("no instance", c.From)
					}
					cctx, stop := context.WithCancel(ctx)
					var timer *time.Timer
					if c.CancelUs > 0 {
						timer = time.AfterFunc(time.Duration(c.CancelUs)*time.Microsecond, func() {
							recordIn(g, map[string]any{"e": "cancel", "c": c.Plan.C})
							stop()
						})
					}
					callSub(cctx, bs[0], c.Dep, c.Plan, c.Typed)
					if timer != nil {
						timer.Stop()
					}
					stop()
				}
				done <- true
			}()
		}
		for range phase {
			select {
			case <-done:
			case <-time.After(5 * watchdog):
				record(map[string]any{"e": "stuck"})
				out["stuck"] = true
				mu.Lock()
				out["events"] = events
				mu.Unlock()
				return
			}
		}
	}
	// let what was given up finish
	for i := 0; i < 400; i++ {
		mu.Lock()
		open := 0
		for _, e := range events {
			switch e["e"] {
			case "enter":
				open++
			case "exit":
				open--
			}
		}
		mu.Unlock()
		if open == 0 {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	record(map[string]any{"e": "end"})
	if zipkin != nil {
		zipkin.report(ctx, s.Collector, nss)
	}
	mu.Lock()
	out["events"] = events
	mu.Unlock()
	for i := len(nss) - 1; i >= 0; i-- {
		nss[i].Shutdown(false)
	}
	return
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	expslog.SetDefault(expslog.New(expslog.NewTextHandler(io.Discard, nil)))
	wf.Do, wf.DoTyped = do, doTyped
	if r := os.Getenv("VERIF_ROLE"); r != "" {
		playRole(r)
		return
	}
	of, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	in, err := os.Open(os.Args[2])
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	enc := json.NewEncoder(of)
	for sc.Scan() {
		var s Scenario
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fail(err)
		}
		if Apps[s.App] == nil {
			fail("no app", s.App)
		}
		rec := run(s)
		if err := enc.Encode(rec); err != nil {
			fail(err)
		}
		if rec["stuck"] == true {
			break
		}
	}
	of.Close()
}
