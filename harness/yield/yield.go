// Package yield holds the schedule-perturbation point that yieldify inserts between statements.
package yield

import (
	"runtime"
	"sync/atomic"
	"time"
)

var on atomic.Bool
var state atomic.Uint64

// Enable turns perturbation on with a seed; off with Disable.
func Enable(seed uint64) { state.Store(seed*2654435761 + 88172645463325252); on.Store(true) }
func Disable()           { on.Store(false) }

func next() uint64 {
	x := state.Add(0x9E3779B97F4A7C15)
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

// Y is called between any two statements of an instrumented package.
func Y() {
	if !on.Load() {
		return
	}
	r := next() % 128
	switch {
	case r < 32:
		runtime.Gosched()
	case r < 34:
		time.Sleep(time.Duration(1+next()%40) * time.Microsecond)
	case r < 44:
		for i := uint64(0); i < 1+next()%3; i++ {
			runtime.Gosched()
		}
	}
}
