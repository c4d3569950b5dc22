// drv_workload runs workload engines (one JSON object per line) and records the requests they make
// and what they report. Usage: drv_workload OUT IN DIR
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/workload"
	"verif.local/harness/hist"
	"verif.local/harness/yield"
)

type req struct {
	Hold int  `json:"hold"` // ms
	Fail bool `json:"fail"`
	Dur  int  `json:"dur"` // reported
}

type spec struct {
	Tput     int64    `json:"tput"`
	Ms       int      `json:"ms"`
	Duration string   `json:"duration"`
	Shares   []int    `json:"shares"`
	Names    []string `json:"names"`
	Reqs     []req    `json:"reqs"`     // what the requests do, in turn
	Cancel   int      `json:"cancel"`   // ms, or 0
	Old      bool     `json:"old"`      // the file exists already
	Bulk     bool     `json:"bulk"`     // only counts requests
	Together bool     `json:"together"` // bulk: the requests return all at once in the end
}

const patience = 30 * time.Second

func main() {
	log.SetOutput(io.Discard)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	yield.Enable(uint64(seed) + 1)
	sc := bufio.NewScanner(hist.Must(os.Open(os.Args[2])))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	var specs []spec
	for sc.Scan() {
		var s spec
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			hist.Fail(err)
		}
		specs = append(specs, s)
	}
	out := hist.Must(os.Create(os.Args[1]))
	defer out.Close()
	for lo := 0; lo < len(specs); lo += 8 {
		hi := min(lo+8, len(specs))
		var wg sync.WaitGroup
		runs := make([]*run, hi-lo)
		for i := range runs {
			runs[i] = &run{spec: specs[lo+i], file: filepath.Join(os.Args[3], fmt.Sprintf("stats%d.csv", lo+i))}
			runs[i].open()
			wg.Add(1)
			go func() { defer wg.Done(); runs[i].loop() }()
		}
		wg.Wait()
		for _, r := range runs { // one after the other: they print
			r.print()
			out.Write(append(hist.Must(json.Marshal(r.ev)), '\n'))
		}
	}
}

type run struct {
	spec
	file  string
	mu    sync.Mutex
	ev    []hist.M
	n     int
	start time.Time
	eng   *workload.Engine
	over  bool
	count []int
	on    int
	gate  chan struct{}
}

func (r *run) add(m hist.M) { r.mu.Lock(); r.ev = append(r.ev, m); r.mu.Unlock() }

func (r *run) open() {
	r.add(hist.M{"e": "init", "tput": r.Tput, "ms": r.Ms, "shares": r.Shares})
	r.count, r.gate = make([]int, len(r.Shares)), make(chan struct{})
	w := workload.NewWorkload()
	for i, p := range r.Shares {
		w.AddAPI(r.Names[i], func(ctx context.Context) workload.Stat {
			r.mu.Lock()
			r.n++
			id := r.n
			if r.Bulk {
				r.count[i]++
				r.on++
				r.mu.Unlock()
				if r.Together {
					<-r.gate
				}
				r.mu.Lock()
				r.on--
				r.mu.Unlock()
				return workload.Stat{Start: int64(id)}
			}
			q := r.Reqs[id%len(r.Reqs)]
			r.ev = append(r.ev, hist.M{"e": "env", "what": "req", "id": id, "api": i + 1, "ms": time.Since(r.start).Milliseconds(), "stat": []any{id, q.Dur, q.Fail}})
			r.mu.Unlock()
			if q.Hold > 0 {
				time.Sleep(time.Duration(q.Hold) * time.Millisecond)
			}
			r.add(hist.M{"e": "env", "what": "fin", "id": id})
			return workload.Stat{Start: int64(id), Duration: int64(q.Dur), IsError: q.Fail}
		}, p)
	}
	r.add(hist.M{"e": "call", "t": 1, "op": hist.M{"op": "new", "duration": r.Duration == fmt.Sprintf("%dms", r.Ms)}})
	eng, err := workload.NewEngine(r.file, r.Tput, r.Duration, w)
	r.add(hist.M{"e": "ret", "t": 1, "res": hist.M{"ok": err == nil}})
	if err == nil {
		r.eng = eng
	}
}

func (r *run) loop() {
	if r.eng == nil {
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	// is the machine too busy to keep time?
	var busy bool
	quit := make(chan struct{})
	gone := make(chan struct{})
	go func() {
		defer close(gone)
		for last := time.Now(); ; {
			select {
			case <-quit:
				return
			case <-time.After(5 * time.Millisecond):
			}
			if now := time.Now(); now.Sub(last) > 100*time.Millisecond {
				busy = true
				last = now
			} else {
				last = now
			}
		}
	}()
	r.start = time.Now()
	r.add(hist.M{"e": "env", "what": "start"})
	if r.Cancel > 0 {
		time.AfterFunc(time.Duration(r.Cancel)*time.Millisecond, func() {
			r.add(hist.M{"e": "env", "what": "cancel"})
			cancel()
		})
	}
	if r.Together {
		time.AfterFunc(time.Duration(r.Ms+100)*time.Millisecond, func() { close(r.gate) })
	}
	done := make(chan struct{})
	go func() { defer close(done); r.eng.RunOpenLoop(ctx) }()
	select {
	case <-done:
	case <-time.After(patience):
		r.add(hist.M{"e": "env", "what": "stuck"})
		return
	}
	ms := time.Since(r.start).Milliseconds()
	close(quit)
	<-gone
	stats := [][]any{}
	for _, s := range r.eng.Stats {
		stats = append(stats, []any{s.Start, s.Duration, s.IsError})
	}
	end := hist.M{"op": "ended", "ms": ms, "busy": busy || r.Bulk, "bulk": r.Bulk, "stats": stats}
	if r.Bulk {
		r.mu.Lock()
		if r.on > 0 {
			end["ms"] = -1 // requests still under way
		}
		ids := map[int64]bool{}
		for _, s := range r.eng.Stats {
			ids[s.Start] = true
		}
		end["distinct"], end["n"], end["stats"] = len(ids), len(stats), []int{}
		r.ev = append(r.ev, hist.M{"e": "env", "what": "bulk", "count": append([]int{}, r.count...)})
		r.mu.Unlock()
	}
	r.add(hist.M{"e": "call", "t": 1, "op": end})
	r.add(hist.M{"e": "ret", "t": 1, "res": hist.M{"ok": true}})
	time.Sleep(20 * time.Millisecond) // nothing starts any more
	r.over = true
}

func (r *run) print() {
	if !r.over || r.Bulk {
		return
	}
	if r.Old {
		os.WriteFile(r.file, []byte(strings.Repeat("something old\n", 2000)), 0644)
	}
	r.add(hist.M{"e": "call", "t": 1, "op": hist.M{"op": "print"}})
	pr, pw, err := os.Pipe()
	if err != nil {
		hist.Fail(err)
	}
	stdout := os.Stdout
	os.Stdout = pw
	text := make(chan string)
	go func() { b, _ := io.ReadAll(pr); text <- string(b) }()
	err = r.eng.PrintStats()
	os.Stdout = stdout
	pw.Close()
	res := hist.M{"ok": err == nil}
	for _, line := range strings.Split(<-text, "\n") {
		k, v, _ := strings.Cut(line, ":")
		f, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
		if err != nil {
			continue
		}
		n := int64(f)
		switch strings.TrimSpace(k) {
		case "Total Number of Requests":
			res["total"] = n
		case "Successful Requests":
			res["good"] = n
		case "Error Responses":
			res["bad"] = n
		case "Average Latency":
			if len(r.eng.Stats) == 0 {
				res["sum"] = 0
			} else {
				res["sum"] = int64(math.Round(f * float64(len(r.eng.Stats))))
			}
		}
	}
	b, err := os.ReadFile(r.file)
	if err != nil && !errors.Is(err, os.ErrNotExist) {
		hist.Fail(err)
	}
	rows := [][]any{}
	lines := strings.Split(strings.TrimRight(string(b), "\n"), "\n")
	if lines[0] == "Start,Duration,IsError" {
		for _, l := range lines[1:] {
			row := []any{}
			for _, c := range strings.Split(l, ",") {
				if n, err := strconv.ParseInt(c, 10, 32); err == nil {
					row = append(row, n)
				} else if c == "true" || c == "false" {
					row = append(row, c == "true")
				} else {
					row = append(row, -1) // not a field of a stat
				}
			}
			rows = append(rows, row)
		}
		res["rows"] = rows
	}
	r.add(hist.M{"e": "ret", "t": 1, "res": res})
}
