// drv_compile compiles wiring programs with the real plugins. Each input line is a program
// {"name","dir","ops":[...],"build":[...],"generate":bool}; for each it prints one line with the
// error or the IR, and leaves the generated artifacts in dir.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"
	"path/filepath"
	"reflect"

	expslog "golang.org/x/exp/slog"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/logging"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/circuitbreaker"
	"github.com/blueprint-uservices/blueprint/plugins/clientpool"
	"github.com/blueprint-uservices/blueprint/plugins/dockercompose"
	"github.com/blueprint-uservices/blueprint/plugins/environment"
	"github.com/blueprint-uservices/blueprint/plugins/faultinjector"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"github.com/blueprint-uservices/blueprint/plugins/govector"
	"github.com/blueprint-uservices/blueprint/plugins/grpc"
	"github.com/blueprint-uservices/blueprint/plugins/healthchecker"
	"github.com/blueprint-uservices/blueprint/plugins/http"
	"github.com/blueprint-uservices/blueprint/plugins/latency"
	"github.com/blueprint-uservices/blueprint/plugins/linuxcontainer"
	"github.com/blueprint-uservices/blueprint/plugins/loadbalancer"
	"github.com/blueprint-uservices/blueprint/plugins/opentelemetry"
	"github.com/blueprint-uservices/blueprint/plugins/retries"
	"github.com/blueprint-uservices/blueprint/plugins/simple"
	"github.com/blueprint-uservices/blueprint/plugins/timeouts"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"github.com/blueprint-uservices/blueprint/plugins/zipkin"
	"verif.example/wf"
)

type Op struct {
	Op    string   `json:"op"`
	Name  string   `json:"name"`
	Deps  []string `json:"deps"`
	N     int64    `json:"n"`
	M     int64    `json:"m"`
	F     float64  `json:"f"`
	G     float64  `json:"g"`
	H     float64  `json:"h"`
	S     string   `json:"s"`
	S2    string   `json:"s2"`
	B     bool     `json:"b"`
	To    string   `json:"to"`
	Iface string   `json:"iface"`
}

type Program struct {
	Name     string   `json:"name"`
	Dir      string   `json:"dir"`
	Ops      []Op     `json:"ops"`
	Build    []string `json:"build"`
	Generate bool     `json:"generate"`
	Port     uint16   `json:"port"`
	Tree     bool     `json:"tree"`
}

func apply(spec wiring.WiringSpec, o Op) {
	switch o.Op {
	case "svc":
		args := append([]string{o.S}, o.Deps...)
		switch len(o.Deps) {
		case 0:
			workflow.Service[*wf.Leaf](spec, o.Name, args...)
		case 1:
			workflow.Service[*wf.One](spec, o.Name, args...)
		case 2:
			workflow.Service[*wf.Two](spec, o.Name, args...)
		case 3:
			workflow.Service[*wf.Three](spec, o.Name, args...)
		}
	case "retry":
		retries.AddRetries(spec, o.Name, o.N)
	case "retryfd":
		retries.AddRetriesWithFixedDelay(spec, o.Name, o.N, o.S)
	case "retryeb":
		retries.AddRetriesWithExponentialBackoff(spec, o.Name, o.S, o.S2, o.B)
	case "retryrl":
		retries.AddRetriesRetryRateLimit(spec, o.Name, o.N, o.M)
	case "retrytb":
		retries.AddRetriesTokenBucket(spec, o.Name, o.F, o.G, o.H)
	case "retryto":
		retries.AddRetriesWithTimeouts(spec, o.Name, o.N, o.S)
	case "timeout":
		timeouts.Add(spec, o.Name, o.S)
	case "pool":
		clientpool.Create(spec, o.Name, int(o.N))
	case "lb":
		loadbalancer.CreateLoadBalancer[*wf.Leaf](spec, o.Name, o.Deps)
	case "latency":
		latency.AddFixed(spec, o.Name, o.S)
	case "delay":
		faultinjector.AddRandomDelay(spec, o.Name, o.N)
	case "fault":
		faultinjector.AddProbabilisticFailures(spec, o.Name, int(o.N))
	case "health":
		healthchecker.AddHealthCheckAPI(spec, o.Name)
	case "cb":
		circuitbreaker.AddCircuitBreaker(spec, o.Name, o.N, o.F, o.S)
	case "govec":
		govector.Instrument(spec, o.Name)
	case "goveclog":
		logger := govector.Logger(spec, o.Name)
		goproc.SetLogger(spec, o.Name, logger)
	case "zipkin":
		zipkin.Collector(spec, o.Name)
	case "otel":
		opentelemetry.Instrument(spec, o.Name, o.To)
	case "otelserver":
		opentelemetry.InstrumentWithoutClientSpans(spec, o.Name, o.To)
	case "grpc":
		grpc.Deploy(spec, o.Name)
	case "http":
		http.Deploy(spec, o.Name)
	case "proc":
		goproc.CreateProcess(spec, o.Name, o.Deps...)
	case "addproc":
		goproc.AddToProcess(spec, o.To, o.Name)
	case "ctr":
		linuxcontainer.CreateContainer(spec, o.Name, o.Deps...)
	case "addctr":
		linuxcontainer.AddToContainer(spec, o.To, o.Name)
	case "compose":
		dockercompose.NewDeployment(spec, o.Name, o.Deps...)
	case "cache":
		simple.Cache(spec, o.Name)
	default:
		if !applyMore(spec, o) {
			fmt.Fprintln(os.Stderr, "HARNESS unknown op", o.Op)
			os.Exit(3)
		}
	}
}

// The nodes of the IR: name, enclosing namespace, and for namespaces their arguments.
func tree(path, in string, nodes []ir.IRNode, out []any) []any {
	for _, n := range nodes {
		rec := map[string]any{"n": n.Name(), "in": in, "path": path, "ns": false, "args": []any{}}
		out = append(out, rec)
		v := reflect.ValueOf(n)
		for v.Kind() == reflect.Pointer && !v.IsNil() {
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			continue
		}
		if f := v.FieldByName("Edges"); f.IsValid() {
			if edges, ok := f.Interface().([]ir.IRNode); ok {
				args := []any{}
				for _, e := range edges {
					switch a := e.(type) {
					case *address.DialConfig:
						args = append(args, []string{"dial", a.AddressName})
					case *address.BindConfig:
						args = append(args, []string{"bind", a.AddressName})
					default:
						args = append(args, []string{"node", e.Name()})
					}
				}
				rec["args"] = args
			}
		}
		if f := v.FieldByName("Nodes"); f.IsValid() {
			if kids, ok := f.Interface().([]ir.IRNode); ok {
				rec["ns"] = true
				out = tree(path+"/"+n.Name(), n.Name(), kids, out)
			}
		}
	}
	return out
}

func compile(p Program) (out map[string]any) {
	out = map[string]any{"name": p.Name}
	defer func() {
		if r := recover(); r != nil {
			out["panic"] = fmt.Sprint(r)
		}
	}()
	if p.Port != 0 {
		environment.AssignPorts(p.Port)
	}
	spec := wiring.NewWiringSpec(p.Name)
	for _, o := range p.Ops {
		apply(spec, o)
	}
	app, err := spec.BuildIR(p.Build...)
	if err != nil {
		out["err"] = err.Error()
		return
	}
	out["ir"] = app.String()
	if p.Tree {
		out["tree"] = tree("", "", app.Children, nil)
	}
	if p.Generate {
		if err := os.MkdirAll(p.Dir, 0o755); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS", err)
			os.Exit(3)
		}
		if err := app.GenerateArtifacts(filepath.Join(p.Dir, "out")); err != nil {
			out["generr"] = err.Error()
		}
	}
	return
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	expslog.SetDefault(expslog.New(expslog.NewTextHandler(io.Discard, nil)))
	if os.Getenv("VERIF_LOG") == "" {
		logging.DisableCompilerLogging()
	}
	goproc.RegisterAsDefaultBuilder()
	linuxcontainer.RegisterAsDefaultBuilder()
	dockercompose.RegisterAsDefaultBuilder()
	_ = ir.CleanName
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	of, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(of)
	for sc.Scan() {
		var p Program
		if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS", err)
			os.Exit(3)
		}
		enc.Encode(compile(p))
	}
	of.Close()
}
