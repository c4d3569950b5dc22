package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"verif.example/wf"
)

// In the role of one process this program runs only that process and does what it is told on its
// standard input, one JSON object per line:
//
//	it says  {"need": [addresses]}      and is told  {"addrs": {...}}
//	it says  {"up": true}               and is told  {"id": k, "call": {...}} or {"quit": true}
//	it says  {"done": k}  after each call, and {"events": [...]} in the end
type role struct {
	App  string            `json:"app"`
	Proc string            `json:"proc"`
	Ids  map[string]string `json:"ids"`
	Base int64             `json:"base"` // ns since the epoch that count as 0
}

// noting says that what happens is also written to the log of the process.
var noting bool
var base int64

func note(ctx context.Context, format string, args ...any) {
	if noting {
		backend.GetLogger().Info(ctx, "NOTE "+format, args...)
	}
}

func playRole(spec string) {
	var r role
	if err := json.Unmarshal([]byte(spec), &r); err != nil {
		fail(err)
	}
	base, names, noting = r.Base, r.Ids, true
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	var omu sync.Mutex
	// generated code may print
	stdout := os.Stdout
	os.Stdout = os.Stderr
	say := func(m map[string]any) {
		b, _ := json.Marshal(m)
		omu.Lock()
		defer omu.Unlock()
		stdout.Write(append(b, '\n'))
	}
	flag.CommandLine = flag.NewFlagSet(r.Proc, flag.ContinueOnError)
	os.Args = []string{r.Proc}
	b := Apps[r.App][r.Proc].New(r.Proc)
	need := []string{}
	flag.VisitAll(func(f *flag.Flag) { need = append(need, f.Name) })
	say(map[string]any{"need": need})
	var told struct {
		Addrs map[string]string `json:"addrs"`
	}
	if !in.Scan() || json.Unmarshal(in.Bytes(), &told) != nil {
		fail("no addresses")
	}
	var listen []string
	for a, addr := range told.Addrs {
		os.Args = append(os.Args, "--"+a+"="+addr)
		if strings.HasSuffix(a, "bind_addr") {
			listen = append(listen, addr)
		}
	}
	ctx := context.Background()
	if _, err := b.Build(ctx); err != nil {
		say(map[string]any{"builderr": err.Error()})
		return
	}
	for _, l := range listen {
		for i := 0; ; i++ {
			c, err := net.Dial("tcp", l)
			if err == nil {
				c.Close()
				break
			}
			if i == 2000 {
				say(map[string]any{"builderr": "nothing listens at the address of a server"})
				return
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	built := map[string]int{}
	for _, b := range wf.Instances {
		built[names[b.Name]]++
	}
	say(map[string]any{"up": true, "built": built})
	for in.Scan() {
		var c struct {
			Id   int  `json:"id"`
			Quit bool `json:"quit"`
			Call Call `json:"call"`
		}
		if err := json.Unmarshal(in.Bytes(), &c); err != nil {
			fail(err)
		}
		if c.Quit {
			mu.Lock()
			say(map[string]any{"events": events})
			os.Exit(0)
		}
		go func() {
			bs := wf.All(c.Call.From)
			if len(bs) == 0 {
				fail("no instance", c.Call.From)
			}
			callSub(ctx, bs[0], c.Call.Dep, c.Call.Plan, c.Call.Typed)
			say(map[string]any{"done": c.Id})
		}()
	}
	fmt.Fprintln(os.Stderr, "left alone")
}
