// Package wf is the workflow of the generated test applications: services that do what the driver says.
package wf

import (
	"context"
	"sync"
)

// Svc is the interface of all services of the generated applications.
type Svc interface {
	Call(ctx context.Context, arg string) (string, error)
}

// Built is what a constructor was given.
type Built struct {
	Name string
	Deps []Svc
	Any  []any // dependencies of other interfaces
}

var (
	mu sync.Mutex
	// Do decides what a call of a service does.
	Do func(ctx context.Context, b *Built, arg string) (string, error)
	// DoTyped decides what a call of a service with another interface does: args are its arguments without
	// the plan, which was argument number at; the results are stored to outs.
	DoTyped func(ctx context.Context, b *Built, method string, at int, plan string, args []any, outs []any) error
	// Instances has all instances ever constructed, in order.
	Instances []*Built
)

func add(name string, deps ...Svc) *Built {
	mu.Lock()
	defer mu.Unlock()
	b := &Built{Name: name, Deps: deps}
	Instances = append(Instances, b)
	return b
}

func addAny(name string, deps ...any) *Built {
	b := add(name)
	b.Any = deps
	return b
}

// All returns the instances constructed under a name.
func All(name string) (out []*Built) {
	mu.Lock()
	defer mu.Unlock()
	for _, b := range Instances {
		if b.Name == name {
			out = append(out, b)
		}
	}
	return
}

type Leaf struct{ b *Built }

func NewLeaf(ctx context.Context, name string) (*Leaf, error) { return &Leaf{add(name)}, nil }
func (s *Leaf) Call(ctx context.Context, arg string) (string, error) {
	return Do(ctx, s.b, arg)
}

type One struct{ b *Built }

func NewOne(ctx context.Context, name string, a Svc) (*One, error) { return &One{add(name, a)}, nil }
func (s *One) Call(ctx context.Context, arg string) (string, error) {
	return Do(ctx, s.b, arg)
}

type Two struct{ b *Built }

func NewTwo(ctx context.Context, name string, a Svc, b Svc) (*Two, error) {
	return &Two{add(name, a, b)}, nil
}
func (s *Two) Call(ctx context.Context, arg string) (string, error) {
	return Do(ctx, s.b, arg)
}

type Three struct{ b *Built }

func NewThree(ctx context.Context, name string, a Svc, b Svc, c Svc) (*Three, error) {
	return &Three{add(name, a, b, c)}, nil
}
func (s *Three) Call(ctx context.Context, arg string) (string, error) {
	return Do(ctx, s.b, arg)
}
