// Package circuitbreaker stands in for github.com/mercari/go-circuitbreaker, which is not available
// offline: the documented behaviour of the closed and open states (no half-open state).
package circuitbreaker

import (
	"context"
	"errors"
	"sync"
	"time"
)

var ErrOpen = errors.New("circuit breaker open")

type Counters struct{ Successes, Failures int64 }
type TripFunc func(*Counters) bool
type CircuitBreaker struct {
	mu   sync.Mutex
	c    Counters
	open bool
	trip TripFunc
	cc   bool
	cd   bool
}
type BreakerOption interface{ apply(*CircuitBreaker) }
type opt func(*CircuitBreaker)

func (o opt) apply(cb *CircuitBreaker) { o(cb) }

func WithFailOnContextCancel(b bool) BreakerOption {
	return opt(func(cb *CircuitBreaker) { cb.cc = b })
}
func WithFailOnContextDeadline(b bool) BreakerOption {
	return opt(func(cb *CircuitBreaker) { cb.cd = b })
}
func WithCounterResetInterval(time.Duration) BreakerOption {
	return opt(func(cb *CircuitBreaker) {})
}
func WithTripFunc(f TripFunc) BreakerOption { return opt(func(cb *CircuitBreaker) { cb.trip = f }) }
func NewTripFuncFailureRate(min int64, rate float64) TripFunc {
	return func(c *Counters) bool {
		total := c.Successes + c.Failures
		return total >= min && float64(c.Failures)/float64(total) >= rate-1e-9
	}
}
func New(opts ...BreakerOption) *CircuitBreaker {
	cb := &CircuitBreaker{trip: func(*Counters) bool { return false }}
	for _, o := range opts {
		o.apply(cb)
	}
	return cb
}
func (cb *CircuitBreaker) Ready() bool {
	cb.mu.Lock()
	defer cb.mu.Unlock()
	return !cb.open
}
func (cb *CircuitBreaker) Done(ctx context.Context, err error) error {
	cb.mu.Lock()
	defer cb.mu.Unlock()
	if err == nil {
		cb.c.Successes++
		return nil
	}
	if ctx.Err() == context.Canceled && !cb.cc || ctx.Err() == context.DeadlineExceeded && !cb.cd {
		return err
	}
	cb.c.Failures++
	if cb.trip(&cb.c) {
		cb.open = true
	}
	return err
}
