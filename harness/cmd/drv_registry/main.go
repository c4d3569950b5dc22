// drv_registry runs every history given (one JSON array of operations per line) on a service
// registry and records what it did: with contexts cancelled or not, and with failing constructors
// that do or do not return an instance as well. Usage: drv_registry OUT IN
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"io"
	"log"
	"os"

	"github.com/blueprint-uservices/blueprint/runtime/core/registry"
	"verif.local/harness/hist"
)

type inst struct{ n int }

func main() {
	log.SetOutput(io.Discard)
	w := hist.NewWriter(os.Args[1])
	defer w.Close()
	f := hist.Must(os.Open(os.Args[2]))
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var ops []map[string]any
		if err := json.Unmarshal(sc.Bytes(), &ops); err != nil {
			hist.Fail(err)
		}
		for mode := 0; mode < 4; mode++ {
			h := hist.New(hist.M{"partial": mode&1 > 0})
			builds, gets := 0, 0
			var outcome error
			reg := registry.NewServiceRegistry[*inst]("r")
			for _, op := range ops {
				h.Call(1, op)
				res := hist.M{"inst": 0, "err": 0, "builds": 0}
				switch op["op"] {
				case "register":
					fails := op["fails"].(bool)
					key := int(op["key"].(float64))
					reg.Register(op["name"].(string), func(ctx context.Context) (*inst, error) {
						builds++
						if fails && mode&1 > 0 {
							return &inst{key}, errors.New(string(rune('0' + key)))
						}
						if fails {
							return nil, errors.New(string(rune('0' + key)))
						}
						return &inst{key}, nil
					})
				case "default":
					reg.SetDefault(op["name"].(string))
				case "get":
					ctx, cancel := context.WithCancel(context.Background())
					if mode&2 > 0 && gets%2 == 0 {
						cancel()
					}
					gets++
					i, err := reg.Get(ctx)
					cancel()
					if i != nil {
						res["inst"] = i.n
					}
					if err != nil {
						res["err"] = -1
						if s := err.Error(); len(s) == 1 {
							res["err"] = int(s[0] - '0')
						}
						if outcome != nil && outcome != err {
							res["err"] = -2
						}
						outcome = err
					}
					res["builds"] = builds
				}
				h.Ret(1, res)
			}
			w.Put(h)
		}
	}
}
