package redisotel

import "github.com/redis/go-redis/v9"

type Option interface{}

func InstrumentTracing(rdb redis.UniversalClient, o ...Option) error { return nil }
func InstrumentMetrics(rdb redis.UniversalClient, o ...Option) error { return nil }
