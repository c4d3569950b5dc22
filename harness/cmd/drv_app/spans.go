package main

import (
	"context"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"go.opentelemetry.io/otel/trace"
)

// Spans: which invocation ran in which, and a stand-in for Zipkin.

var anchors map[string][][2]any // span id -> invocations

// anchor records in which span an invocation runs, if in any.
func anchor(ctx context.Context, c string, n int) bool {
	sc := trace.SpanFromContext(ctx).SpanContext()
	if !sc.IsValid() {
		return false
	}
	mu.Lock()
	defer mu.Unlock()
	if anchors == nil {
		anchors = map[string][][2]any{}
	}
	id := sc.SpanID().String()
	anchors[id] = append(anchors[id], [2]any{c, n})
	return true
}

type span struct {
	Trace       string `json:"traceId"`
	ID          string `json:"id"`
	Parent      string `json:"parentId"`
	Name        string `json:"name"`
	Annotations []struct {
		Value string `json:"value"`
	} `json:"annotations"`
}

type collector struct {
	mu    sync.Mutex
	spans []span
	srv   *http.Server
}

// startCollector listens at the address of the collector.
func startCollector(name string, addrs map[string]string) *collector {
	if name == "" {
		return nil
	}
	mu.Lock()
	anchors = nil
	mu.Unlock()
	c := &collector{}
	addr := freeAddr()
	addrs[name+"."] = addr
	l, err := net.Listen("tcp", addr)
	if err != nil {
		fail("collector", err)
	}
	c.srv = &http.Server{Handler: c}
	go c.srv.Serve(l)
	return c
}

func (c *collector) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, err := io.ReadAll(r.Body)
	var ss []span
	if err == nil {
		err = json.Unmarshal(b, &ss)
	}
	if err != nil || r.URL.Path != "/api/v2/spans" {
		fail("collector got", r.URL.Path, err, string(b))
	}
	c.mu.Lock()
	c.spans = append(c.spans, ss...)
	c.mu.Unlock()
	w.WriteHeader(202)
}

var spanName = regexp.MustCompile(`^([a-z0-9]+)(?:_[a-z0-9_]*?)?(client|server)_(.+)$`)

// report records all spans, after making every process send those that it has.
func (c *collector) report(ctx context.Context, name string, nss []*golang.Namespace) {
	for _, ns := range nss {
		var t backend.Tracer
		if err := ns.Get(name+".client", &t); err != nil {
			continue // nothing is traced there
		}
		tp, err := t.GetTracerProvider(ctx)
		if err != nil {
			fail("tracer provider", err)
		}
		fctx, stop := context.WithTimeout(ctx, 20*time.Second)
		if err := tp.(interface{ ForceFlush(context.Context) error }).ForceFlush(fctx); err != nil {
			fail("flush", err)
		}
		stop()
	}
	c.mu.Lock()
	ss := c.spans
	c.mu.Unlock()
	c.srv.Close()
	out := map[string]any{}
	mu.Lock()
	for _, e := range events {
		if e["err"] == "TIMEOUT" { // something may still be running
			mu.Unlock()
			return
		}
	}
	at := anchors
	mu.Unlock()
	for _, s := range ss {
		x := map[string]any{"trace": s.Trace, "parent": s.Parent, "kind": "", "iface": s.Name, "meth": "", "at": [][2]any{}}
		if m := spanName.FindStringSubmatch(s.Name); m != nil {
			x["iface"], x["kind"], x["meth"] = m[1], m[2], m[3]
		}
		errs := 0
		for _, a := range s.Annotations {
			if strings.HasPrefix(a.Value, "exception") {
				errs++
			}
		}
		x["errs"] = errs
		if as := at[s.ID]; as != nil {
			sort.Slice(as, func(i, j int) bool { return as[i][0].(string) < as[j][0].(string) })
			x["at"] = as
		}
		if out[s.ID] != nil {
			x["kind"] = "reported twice"
		}
		out[s.ID] = x
	}
	record(map[string]any{"e": "spans", "spans": out})
}
