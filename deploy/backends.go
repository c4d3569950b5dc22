package wf

import (
	"context"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
)

type DbLeaf struct{ b *Built }

func NewDbLeaf(ctx context.Context, name string, db backend.NoSQLDatabase) (*DbLeaf, error) {
	return &DbLeaf{addAny(name, db)}, nil
}
func (s *DbLeaf) Call(ctx context.Context, arg string) (string, error) { return Do(ctx, s.b, arg) }

type KvLeaf struct{ b *Built }

func NewKvLeaf(ctx context.Context, name string, c backend.Cache) (*KvLeaf, error) {
	return &KvLeaf{addAny(name, c)}, nil
}
func (s *KvLeaf) Call(ctx context.Context, arg string) (string, error) { return Do(ctx, s.b, arg) }

type SqLeaf struct{ b *Built }

func NewSqLeaf(ctx context.Context, name string, db backend.RelationalDB) (*SqLeaf, error) {
	return &SqLeaf{addAny(name, db)}, nil
}
func (s *SqLeaf) Call(ctx context.Context, arg string) (string, error) { return Do(ctx, s.b, arg) }

type MqLeaf struct{ b *Built }

func NewMqLeaf(ctx context.Context, name string, q backend.Queue) (*MqLeaf, error) {
	return &MqLeaf{addAny(name, q)}, nil
}
func (s *MqLeaf) Call(ctx context.Context, arg string) (string, error) { return Do(ctx, s.b, arg) }

type DbKvOne struct{ b *Built }

func NewDbKvOne(ctx context.Context, name string, db backend.NoSQLDatabase, c backend.Cache, a Svc) (*DbKvOne, error) {
	return &DbKvOne{addAny(name, db, c, a)}, nil
}
func (s *DbKvOne) Call(ctx context.Context, arg string) (string, error) { return Do(ctx, s.b, arg) }

type MqTwo struct{ b *Built }

func NewMqTwo(ctx context.Context, name string, q backend.Queue, a Svc, b Svc) (*MqTwo, error) {
	return &MqTwo{addAny(name, q, a, b)}, nil
}
func (s *MqTwo) Call(ctx context.Context, arg string) (string, error) { return Do(ctx, s.b, arg) }
