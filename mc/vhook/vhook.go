// Package vhook stands between the program's main function and what it creates.
package vhook

import (
	"context"

	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/verifx/sut"
	"go.uber.org/zap"
)

// Hook, when set, is called around the engines' operations; OnClose when the
// program closes one.
var (
	Hook    sut.Hook
	OnClose func(engine string)
	// Fill prepares newly created engines.
	FillStore func(storage.Storage)
	FillCache func(cache.Cache)
)

type store struct {
	sut.HookStore
	inner storage.Storage
}

func (s store) Close(ctx context.Context) error {
	OnClose("storage")
	return s.inner.Close(ctx)
}

type cach struct {
	sut.HookCache
	inner cache.Cache
}

func (c cach) Close(ctx context.Context) error {
	OnClose("cache")
	return c.inner.Close(ctx)
}

// CreateStorage replaces storage.CreateStorage.
func CreateStorage(ctx context.Context, t storage.Type) (storage.Storage, error) {
	s, err := storage.CreateStorage(ctx, t)
	if err != nil || Hook == nil {
		return s, err
	}
	if FillStore != nil {
		FillStore(s)
	}
	return store{sut.HookStore{Storage: s, H: Hook}, s}, nil
}

// CreateCache replaces cache.CreateCache.
func CreateCache(ctx context.Context, t cache.Type) (cache.Cache, error) {
	c, err := cache.CreateCache(ctx, t)
	if err != nil || Hook == nil {
		return c, err
	}
	if FillCache != nil {
		FillCache(c)
	}
	return cach{sut.HookCache{Cache: c, H: Hook}, c}, nil
}

// ConfigureLogger replaces logger.ConfigureLogger.
func ConfigureLogger() { zap.ReplaceGlobals(zap.NewNop()) }
