package sut

import (
	"context"

	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/queue/storage"
)

// Hook is called before and after every operation of a wrapped engine. An error
// returned before suppresses the operation, one returned after replaces its
// result. It may block (scheduling) or panic (process stop).
type Hook func(after bool, c Call) error

// Call describes an engine operation.
type Call struct {
	Ctx   context.Context
	Op    string // e.g. "storage.Insert"
	Queue string
	IDs   []string
	Key   string
	Val   string
}

func step[T any](h Hook, c Call, f func() (T, error)) (T, error) {
	var zero T
	if err := h(false, c); err != nil {
		return zero, err
	}
	r, err := f()
	if err != nil {
		return r, err
	}
	if err := h(true, c); err != nil {
		return zero, err
	}
	return r, nil
}

type none struct{}

func step0(h Hook, c Call, f func() error) error {
	_, err := step(h, c, func() (none, error) { return none{}, f() })
	return err
}

func ids(m []*message.Message) []string {
	var r []string
	for _, x := range m {
		r = append(r, x.ID)
	}
	return r
}

// HookCache wraps a cache.
type HookCache struct {
	cache.Cache
	H Hook
}

// MakeAvailable is wrapped.
func (w HookCache) MakeAvailable(ctx context.Context, m *message.Message) (bool, error) {
	return step(w.H, Call{Ctx: ctx, Op: "cache.MakeAvailable", Queue: m.Queue, IDs: []string{m.ID}}, func() (bool, error) { return w.Cache.MakeAvailable(ctx, m) })
}

// IsProcessing is wrapped.
func (w HookCache) IsProcessing(ctx context.Context, q, id string) (bool, error) {
	return step(w.H, Call{Ctx: ctx, Op: "cache.IsProcessing", Queue: q, IDs: []string{id}}, func() (bool, error) { return w.Cache.IsProcessing(ctx, q, id) })
}

// PullMessages is wrapped.
func (w HookCache) PullMessages(ctx context.Context, q string, n int64, min, max *float64, dl int64) ([]string, error) {
	return step(w.H, Call{Ctx: ctx, Op: "cache.PullMessages", Queue: q}, func() ([]string, error) { return w.Cache.PullMessages(ctx, q, n, min, max, dl) })
}

// TimeoutMessages is wrapped.
func (w HookCache) TimeoutMessages(ctx context.Context, q string) ([]string, error) {
	return step(w.H, Call{Ctx: ctx, Op: "cache.TimeoutMessages", Queue: q}, func() ([]string, error) { return w.Cache.TimeoutMessages(ctx, q) })
}

// LockMessage is wrapped.
func (w HookCache) LockMessage(ctx context.Context, m *message.Message, l cache.LockType) (bool, error) {
	return step(w.H, Call{Ctx: ctx, Op: "cache.LockMessage", Queue: m.Queue, IDs: []string{m.ID}}, func() (bool, error) { return w.Cache.LockMessage(ctx, m, l) })
}

// UnlockMessages is wrapped.
func (w HookCache) UnlockMessages(ctx context.Context, q string, l cache.LockType) ([]string, error) {
	return step(w.H, Call{Ctx: ctx, Op: "cache.UnlockMessages", Queue: q, Val: string(l)}, func() ([]string, error) { return w.Cache.UnlockMessages(ctx, q, l) })
}

// ListQueues is wrapped.
func (w HookCache) ListQueues(ctx context.Context, p string, t pool.PoolType) ([]string, error) {
	return step(w.H, Call{Ctx: ctx, Op: "cache.ListQueues", Val: string(t)}, func() ([]string, error) { return w.Cache.ListQueues(ctx, p, t) })
}

// Insert is wrapped.
func (w HookCache) Insert(ctx context.Context, q string, m ...*message.Message) ([]string, error) {
	return step(w.H, Call{Ctx: ctx, Op: "cache.Insert", Queue: q, IDs: ids(m)}, func() ([]string, error) { return w.Cache.Insert(ctx, q, m...) })
}

// Remove is wrapped.
func (w HookCache) Remove(ctx context.Context, q string, id ...string) (int64, error) {
	return step(w.H, Call{Ctx: ctx, Op: "cache.Remove", Queue: q, IDs: id}, func() (int64, error) { return w.Cache.Remove(ctx, q, id...) })
}

// Flush is wrapped.
func (w HookCache) Flush(ctx context.Context) {
	step0(w.H, Call{Ctx: ctx, Op: "cache.Flush"}, func() error { w.Cache.Flush(ctx); return nil })
}

// Get is wrapped.
func (w HookCache) Get(ctx context.Context, k string) (string, error) {
	return step(w.H, Call{Ctx: ctx, Op: "cache.Get", Key: k}, func() (string, error) { return w.Cache.Get(ctx, k) })
}

// Set is wrapped.
func (w HookCache) Set(ctx context.Context, k, v string) error {
	return step0(w.H, Call{Ctx: ctx, Op: "cache.Set", Key: k, Val: v}, func() error { return w.Cache.Set(ctx, k, v) })
}

// HookStore wraps a storage.
type HookStore struct {
	storage.Storage
	H Hook
}

// Insert is wrapped.
func (w HookStore) Insert(ctx context.Context, m ...*message.Message) (int64, int64, error) {
	type r struct{ a, b int64 }
	q := ""
	if len(m) > 0 {
		q = m[0].Queue
	}
	x, err := step(w.H, Call{Ctx: ctx, Op: "storage.Insert", Queue: q, IDs: ids(m)}, func() (r, error) {
		a, b, err := w.Storage.Insert(ctx, m...)
		return r{a, b}, err
	})
	return x.a, x.b, err
}

// Find is wrapped.
func (w HookStore) Find(ctx context.Context, o *storage.FindOptions) ([]message.Message, error) {
	c := Call{Ctx: ctx, Op: "storage.Find"}
	if o != nil && o.InternalFilter != nil {
		c.Queue = o.Queue
		if o.Ids != nil {
			c.IDs = *o.Ids
		}
	}
	return step(w.H, c, func() ([]message.Message, error) { return w.Storage.Find(ctx, o) })
}

// Remove is wrapped.
func (w HookStore) Remove(ctx context.Context, q string, id ...string) (int64, error) {
	return step(w.H, Call{Ctx: ctx, Op: "storage.Remove", Queue: q, IDs: id}, func() (int64, error) { return w.Storage.Remove(ctx, q, id...) })
}

// Ack is wrapped.
func (w HookStore) Ack(ctx context.Context, m *message.Message) (int64, error) {
	return step(w.H, Call{Ctx: ctx, Op: "storage.Ack", Queue: m.Queue, IDs: []string{m.ID}}, func() (int64, error) { return w.Storage.Ack(ctx, m) })
}

// Nack is wrapped.
func (w HookStore) Nack(ctx context.Context, m *message.Message) (int64, error) {
	return step(w.H, Call{Ctx: ctx, Op: "storage.Nack", Queue: m.Queue, IDs: []string{m.ID}}, func() (int64, error) { return w.Storage.Nack(ctx, m) })
}

// ListQueueNames is wrapped.
func (w HookStore) ListQueueNames(ctx context.Context) ([]string, error) {
	return step(w.H, Call{Ctx: ctx, Op: "storage.ListQueueNames"}, func() ([]string, error) { return w.Storage.ListQueueNames(ctx) })
}

// ListQueuePrefixes is wrapped.
func (w HookStore) ListQueuePrefixes(ctx context.Context) ([]string, error) {
	return step(w.H, Call{Ctx: ctx, Op: "storage.ListQueuePrefixes"}, func() ([]string, error) { return w.Storage.ListQueuePrefixes(ctx) })
}

// Count is wrapped.
func (w HookStore) Count(ctx context.Context, f *storage.FindOptions, o *storage.CountOptions) (int64, error) {
	c := Call{Ctx: ctx, Op: "storage.Count"}
	if f != nil && f.InternalFilter != nil {
		c.Queue = f.Queue
	}
	return step(w.H, c, func() (int64, error) { return w.Storage.Count(ctx, f, o) })
}

// EditQueueConfiguration is wrapped.
func (w HookStore) EditQueueConfiguration(ctx context.Context, c *configuration.QueueConfiguration) error {
	return step0(w.H, Call{Ctx: ctx, Op: "storage.EditQueueConfiguration", Queue: c.Queue}, func() error { return w.Storage.EditQueueConfiguration(ctx, c) })
}

// GetQueueConfiguration is wrapped.
func (w HookStore) GetQueueConfiguration(ctx context.Context, q string) (*configuration.QueueConfiguration, error) {
	return step(w.H, Call{Ctx: ctx, Op: "storage.GetQueueConfiguration", Queue: q}, func() (*configuration.QueueConfiguration, error) { return w.Storage.GetQueueConfiguration(ctx, q) })
}

// ListQueueConfigurations is wrapped.
func (w HookStore) ListQueueConfigurations(ctx context.Context) ([]*configuration.QueueConfiguration, error) {
	return step(w.H, Call{Ctx: ctx, Op: "storage.ListQueueConfigurations"}, func() ([]*configuration.QueueConfiguration, error) { return w.Storage.ListQueueConfigurations(ctx) })
}

// Flush is wrapped.
func (w HookStore) Flush(ctx context.Context) (int64, error) {
	return step(w.H, Call{Ctx: ctx, Op: "storage.Flush"}, func() (int64, error) { return w.Storage.Flush(ctx) })
}

// Hooked returns options that interpose h on both engines.
func Hooked(h Hook) Options {
	return Options{
		WrapCache: func(c cache.Cache) cache.Cache { return HookCache{c, h} },
		WrapStore: func(s storage.Storage) storage.Storage { return HookStore{s, h} },
	}
}
