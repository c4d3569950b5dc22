// drv_ports calls address.AssignPorts on the inputs it reads: lists of {port, pref}.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/logging"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
)

type P struct {
	Port uint16 `json:"port"`
	Pref uint16 `json:"pref"`
}

func main() {
	logging.DisableCompilerLogging()
	sc := bufio.NewScanner(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	for sc.Scan() {
		var in []P
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS", err)
			os.Exit(3)
		}
		var binds []*address.BindConfig
		for i, p := range in {
			b := &address.BindConfig{PreferredPort: p.Pref}
			b.Port = p.Port
			b.Key = fmt.Sprintf("b%d", i)
			binds = append(binds, b)
		}
		pre, asg, err := address.AssignPorts(binds)
		out := []P{}
		for _, b := range binds {
			out = append(out, P{b.Port, b.PreferredPort})
		}
		// who is reported as assigned had no port before
		ok := len(pre)+len(asg) == len(binds)
		for i, b := range binds {
			for _, a := range asg {
				ok = ok && (a != b || in[i].Port == 0)
			}
		}
		if err == nil && !ok {
			out = nil
		}
		enc.Encode(map[string]any{"err": err != nil, "out": out})
	}
}
