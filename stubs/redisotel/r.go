package redisotel

import "github.com/redis/go-redis/v9"

func InstrumentTracing(rdb redis.UniversalClient, opts ...any) error { return nil }
func InstrumentMetrics(rdb redis.UniversalClient, opts ...any) error { return nil }
