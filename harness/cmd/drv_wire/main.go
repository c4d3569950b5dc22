// drv_wire runs wiring programs (one JSON array of operations per line) against the compiler and
// records what the definitions and the IR look like. Usage: drv_wire OUT IN
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/logging"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/namespaceutil"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"golang.org/x/exp/slog"
	"verif.local/harness/hist"
)

type dep struct {
	N   string `json:"n"`
	How string `json:"how"`
}

type op struct {
	Op      string   `json:"op"`
	Name    string   `json:"name"`
	Type    string   `json:"type"`
	Deps    []dep    `json:"deps"`
	Fails   bool     `json:"fails"`
	Reads   []string `json:"reads"`
	Accepts []string `json:"accepts"`
	To      string   `json:"to"`
	Uniq    string   `json:"uniq"`
	Ptr     string   `json:"ptr"`
	Iface   bool     `json:"iface"`
	CType   string   `json:"ctype"`
	SType   string   `json:"stype"`
	Reach   string   `json:"reach"`
	Ns      string   `json:"ns"`
	Key     string   `json:"key"`
	Val     string   `json:"val"`
	Names   []string `json:"names"`
}

// The types of nodes.
type (
	S1 struct{ ir.IRNode }
	S2 struct{ ir.IRNode }
	S3 struct{ ir.IRNode }
	T1 struct{ ir.IRNode }
	T2 struct{ ir.IRNode }
	T3 struct{ ir.IRNode }
)

func typeOf(v any) string {
	switch x := v.(type) {
	case *node:
		return x.typ
	case *S1:
		return "S1"
	case *S2:
		return "S2"
	case *S3:
		return "S3"
	case *T1:
		return "T1"
	case *T2:
		return "T2"
	case *T3:
		return "T3"
	case *ir.ApplicationNode:
		return "App"
	}
	return "?"
}

var types = map[string]any{"S1": &S1{}, "S2": &S2{}, "S3": &S3{}, "T1": &T1{}, "T2": &T2{}, "T3": &T3{}, "App": &ir.ApplicationNode{}}

type mkptr func(spec wiring.WiringSpec, name, dst string, opts ...pointer.PointerOpts) *pointer.PointerDef

var pointers = map[string]mkptr{"S1": pointer.CreatePointer[*S1], "S2": pointer.CreatePointer[*S2], "S3": pointer.CreatePointer[*S3],
	"T1": pointer.CreatePointer[*T1], "T2": pointer.CreatePointer[*T2], "T3": pointer.CreatePointer[*T3]}
var children = map[string]func(wiring.WiringSpec, string, string){
	"T1": namespaceutil.AddNodeTo[T1], "T2": namespaceutil.AddNodeTo[T2], "T3": namespaceutil.AddNodeTo[T3]}

// A node of the IR; a namespace when ns is set, a server when server is set.
type node struct {
	name    string
	typ     string
	deps    []ir.IRNode
	reads   [][]string
	ns      bool
	accepts []string
	nodes   []ir.IRNode
	edges   []ir.IRNode
}

func (n *node) Name() string   { return n.name }
func (n *node) String() string { return n.name }

func (n *node) Accepts(t any) bool {
	for _, a := range n.accepts {
		if a == typeOf(t) {
			return true
		}
	}
	return false
}
func (n *node) AddNode(_ string, x ir.IRNode) error { n.nodes = append(n.nodes, x); return nil }
func (n *node) AddEdge(_ string, x ir.IRNode) error { n.edges = append(n.edges, x); return nil }

type server struct{ node }

func apply(spec wiring.WiringSpec, o op) hist.M {
	build := func(deps []dep) wiring.BuildFunc {
		return func(n wiring.Namespace) (ir.IRNode, error) {
			me := &node{name: o.Name}
			for i, d := range deps {
				var x ir.IRNode
				var err error
				if d.How == "put" {
					name := fmt.Sprintf("%v.%v.%v", o.Name, n.Name(), i+1)
					if err := n.Put(name, &node{name: name, typ: d.N}); err != nil {
						return nil, err
					}
					d.N = name
				}
				if d.How == "inst" {
					err = n.Instantiate(d.N, &x)
				} else {
					err = n.Get(d.N, &x)
				}
				if err != nil && d.How != "try" {
					return nil, err
				}
				if err != nil {
					x = nil
				}
				me.deps = append(me.deps, x)
			}
			for _, r := range o.Reads {
				vs := []string{}
				if err := n.GetProperties(r, "k", &vs); err != nil {
					return nil, err
				}
				me.reads = append(me.reads, vs)
			}
			if o.Fails {
				return nil, fmt.Errorf("%v cannot be built", o.Name)
			}
			return me, nil
		}
	}
	switch o.Op {
	case "define":
		spec.Define(o.Name, types[o.Type], build(o.Deps))
	case "ns":
		spec.Define(o.Name, types[o.Type], func(n wiring.Namespace) (ir.IRNode, error) {
			me := &node{name: o.Name, ns: true, accepts: o.Accepts}
			_, err := namespaceutil.InstantiateNamespace(n, me)
			return me, err
		})
	case "alias":
		spec.Alias(o.Name, o.To)
	case "ptr":
		if o.Uniq == "App" {
			pointers[o.Type](spec, o.Name, o.To)
		} else if o.Uniq == "" {
			pointers[o.Type](spec, o.Name, o.To, pointer.PointerOpts{})
		} else {
			pointers[o.Type](spec, o.Name, o.To, pointer.PointerOpts{RequireUniqueness: types[o.Uniq]})
		}
	case "src":
		next := pointer.GetPointer(spec, o.Ptr).AddSrcModifier(spec, o.Name)
		spec.Define(o.Name, types[o.Type], build(append([]dep{{next, "get"}}, o.Deps...)))
	case "dst":
		next := pointer.GetPointer(spec, o.Ptr).AddDstModifier(spec, o.Name, pointer.ModifierOpts{IsInterfaceNode: o.Iface})
		spec.Define(o.Name, types[o.Type], build(append([]dep{{next, "get"}}, o.Deps...)))
	case "rpc":
		cl, ad, sv := o.Name+".client", o.Name+".addr", o.Name+".server"
		p := pointer.GetPointer(spec, o.Ptr)
		cnext := p.AddSrcModifier(spec, cl)
		spec.Define(cl, types[o.CType], func(n wiring.Namespace) (ir.IRNode, error) {
			a, err := address.Dial[*server](n, cnext)
			if err != nil {
				return nil, err
			}
			return &node{name: cl, deps: []ir.IRNode{a, a.Dial}}, nil
		})
		address.Define[*server](spec, ad, sv, address.AddressOpts{Reachability: types[o.Reach]})
		snext := p.AddAddrModifier(spec, ad)
		spec.Define(sv, types[o.SType], func(n wiring.Namespace) (ir.IRNode, error) {
			me := &server{node{name: sv}}
			var x ir.IRNode
			if err := n.Get(snext, &x); err != nil {
				return nil, err
			}
			var b *address.BindConfig
			if err := address.Bind[*server](n, ad, me, &b); err != nil {
				return nil, err
			}
			me.deps = []ir.IRNode{x, b}
			return me, nil
		})
	case "child":
		children[o.Type](spec, o.Ns, o.Name)
	case "unique":
		pointer.RequireUniqueness(spec, o.Name, types[o.Type])
	case "error":
		spec.AddError(fmt.Errorf("an error"))
	case "set":
		spec.SetProperty(o.Name, o.Key, o.Val)
	case "add":
		spec.AddProperty(o.Name, o.Key, o.Val)
	case "prop":
		one, all := "", []string{}
		e1, e2 := spec.GetProperty(o.Name, o.Key, &one), spec.GetProperties(o.Name, o.Key, &all)
		if e1 != nil || e2 != nil {
			one = fmt.Sprint("error ", e1, e2)
		}
		return hist.M{"one": one, "all": all}
	case "names":
		of := []hist.M{}
		for _, n := range o.Names {
			d := "?"
			if def := spec.GetDef(n); def != nil {
				d = def.Name
			}
			of = append(of, hist.M{"n": n, "def": d})
		}
		_ = spec.String()
		return hist.M{"defs": spec.Defs(), "of": of, "err": spec.Err() != nil}
	case "build":
		app, err := spec.BuildIR(o.Names...)
		return dump(app, err)
	default:
		hist.Fail("unknown operation " + o.Op)
	}
	return nil
}

func dump(app *ir.ApplicationNode, err error) hist.M {
	got := hist.M{"ok": err == nil, "nodes": []hist.M{}, "edges": []hist.M{}, "bound": []hist.M{}}
	if err != nil {
		return got
	}
	ids := map[ir.IRNode]hist.M{}
	lists := []ir.IRNode{}
	var walk func(at []string, nodes []ir.IRNode)
	walk = func(at []string, nodes []ir.IRNode) {
		for _, n := range nodes {
			if _, isAddr := n.(address.Node); !isAddr {
				if _, isMeta := n.(ir.IRMetadata); isMeta {
					continue
				}
			}
			lists = append(lists, n)
			ids[n] = hist.M{"at": at, "name": n.Name()}
			if x, ok := n.(*node); ok && x.ns {
				walk(append(append([]string{}, at...), x.name), x.nodes)
			}
		}
	}
	walk([]string{}, app.Children)
	id := func(n ir.IRNode) hist.M {
		if n == nil {
			return hist.M{"at": []string{}, "name": "?"}
		}
		if m, ok := ids[n]; ok {
			return m
		}
		return hist.M{"at": []string{}, "name": "not in the application: " + n.Name()}
	}
	nodes, edges, bound := []hist.M{}, []hist.M{}, []hist.M{}
	for _, n := range lists {
		m := hist.M{"at": ids[n]["at"], "name": n.Name(), "deps": []hist.M{}, "reads": [][]string{}}
		var x *node
		switch y := n.(type) {
		case *node:
			x = y
		case *server:
			x = &y.node
		}
		if x != nil {
			deps := []hist.M{}
			for _, d := range x.deps {
				deps = append(deps, id(d))
			}
			m["deps"] = deps
			if x.reads != nil {
				m["reads"] = x.reads
			}
			at := append(append([]string{}, ids[n]["at"].([]string)...), x.name)
			for _, e := range x.edges {
				edges = append(edges, hist.M{"at": at, "node": id(e)})
			}
		}
		if a, isAddr := n.(*address.Address[*server]); isAddr && a.Server != nil {
			bound = append(bound, hist.M{"addr": id(n), "server": id(a.Server)})
		}
		nodes = append(nodes, m)
	}
	got["nodes"], got["edges"], got["bound"] = nodes, edges, bound
	return got
}

func main() {
	logging.DisableCompilerLogging()
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	out := hist.Must(os.Create(os.Args[1]))
	defer out.Close()
	bw := bufio.NewWriter(out)
	defer bw.Flush()
	sc := bufio.NewScanner(hist.Must(os.Open(os.Args[2])))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var ops []op
		if err := json.Unmarshal(sc.Bytes(), &ops); err != nil {
			hist.Fail(err)
		}
		spec := wiring.NewWiringSpec("app")
		got := []hist.M{}
		for i, o := range ops {
			if g := apply(spec, o); g != nil {
				got = append(got, hist.M{"i": i, "got": g})
			}
		}
		bw.Write(hist.Must(json.Marshal(got)))
		bw.WriteByte('\n')
		bw.Flush()
	}
}
