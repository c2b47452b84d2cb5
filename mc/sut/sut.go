// Package sut assembles the system under test: the real service, queue,
// housekeeper, cache and storage code of /repo, over in-memory engines or over
// the fake Redis and MongoDB servers, under a virtual clock.
package sut

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	gocache "github.com/patrickmn/go-cache"
	"github.com/redis/go-redis/v9"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/service"
	"github.com/takenet/deckard/internal/verifx/mongofake"
	"github.com/takenet/deckard/internal/verifx/redisfake"
)

// Kind selects the engines: cache "memory", "redis", "cluster" (three shards) or
// "clusterN"; storage
// "memory", "mongo", "replica" (mongo with a secondary).
type Kind struct{ Cache, Store string }

func (k Kind) String() string { return k.Cache + "/" + k.Store }

// Base is the virtual start time; it is not a whole millisecond or second.
var Base = time.Unix(1704067200, 123456789).UTC()

var nowNs atomic.Int64

// Now is the virtual time.
func Now() time.Time { return time.Unix(0, nowNs.Load()) }

// NowMs is the virtual time in milliseconds.
func NowMs() int64 { return nowNs.Load() / 1e6 }

// SetNow sets the virtual clock.
func SetNow(t time.Time) { nowNs.Store(t.UnixNano()) }

// Advance moves the virtual clock.
func Advance(d time.Duration) { nowNs.Add(int64(d)) }

// RealTime makes Now follow the wall clock again (for components that use it).
func RealTime() {
	dtime.SetNowProvider(time.Now)
	gocache.Clock = time.Now
}

var setup sync.Once

// Setup configures the process: default configuration, silent logging, virtual clock.
func Setup() {
	setup.Do(func() {
		os.Setenv("DECKARD_LOG_LEVEL", "panic")
		config.Configure()
		SetNow(Base)
		dtime.SetNowProvider(Now)
		gocache.Clock = Now
		redis.SetLogger(quiet{})
	})
}

type quiet struct{}

func (quiet) Printf(context.Context, string, ...interface{}) {}

// Recorder is an auditor that keeps the entries.
type Recorder struct {
	mu sync.Mutex
	E  []audit.Entry
}

// Store implements audit.Auditor.
func (r *Recorder) Store(_ context.Context, e audit.Entry) {
	r.mu.Lock()
	r.E = append(r.E, e)
	r.mu.Unlock()
}

// Take returns and clears the entries.
func (r *Recorder) Take() []audit.Entry {
	r.mu.Lock()
	defer r.mu.Unlock()
	e := r.E
	r.E = nil
	return e
}

// Sys is one deployment with one or more Deckard instances.
type Sys struct {
	Kind  Kind
	Cache cache.Cache
	Store storage.Storage
	// Per instance; index 0 always exists.
	Cfg []*queue.DefaultQueueConfigurationService
	Q   []*queue.Queue
	Svc []*service.Deckard
	Aud *Recorder
	// WrapCache and WrapStore, when set before Restart, interpose on the engines.
	opt Options
}

// Options of New.
type Options struct {
	Instances int
	WrapCache func(cache.Cache) cache.Cache
	WrapStore func(storage.Storage) storage.Storage
	Auditor   audit.Auditor
	// Prefix of the Redis keys ("": the default); Keep leaves the data in the
	// Redis stand-in.
	Prefix string
	Keep   bool
	// Metrics keeps track of the queue metrics.
	Metrics bool
}

// Ctx is the context used for calls.
var Ctx = context.Background()

var (
	redisSrv = map[string]*redisfake.Server{}
	redisCli = map[string]cache.Cache{}
	mongoSrv = map[string]*mongofake.Server{}
	mongoCli = map[string]storage.Storage{}
)

// Shards of the fake cluster.
const Shards = 3

// Redis returns the fake behind the kind (nil for the memory cache).
func Redis(kind string) *redisfake.Server {
	if kind == "memory" {
		return nil
	}
	if s := redisSrv[kind]; s != nil {
		return s
	}
	n := 0
	if kind == "cluster" {
		n = Shards
	} else if c, ok := strings.CutPrefix(kind, "cluster"); ok {
		n, _ = strconv.Atoi(c)
	}
	redisSrv[kind] = redisfake.New(n)
	return redisSrv[kind]
}

// RedisClient connects the real RedisCache to the fake, with a key prefix ("" for the default).
func RedisClient(kind, prefix string) (cache.Cache, error) {
	s := Redis(kind)
	config.CacheUri.Set(s.URI())
	config.RedisClusterMode.Set(strings.HasPrefix(kind, "cluster"))
	if prefix == "" {
		prefix = "deckard_v1"
	}
	config.CachePrefix.Set(prefix)
	config.CacheConnectionRetryDelay.Set("100ms")
	return cache.NewRedisCache(Ctx)
}

// Mongo returns the fake behind the kind (nil for the memory storage).
func Mongo(kind string) *mongofake.Server {
	if kind == "memory" {
		return nil
	}
	if s := mongoSrv[kind]; s != nil {
		return s
	}
	mongoSrv[kind] = mongofake.New(kind == "replica")
	return mongoSrv[kind]
}

// MongoClient connects the real MongoStorage to the fake.
func MongoClient(kind string) (storage.Storage, error) {
	config.StorageUri.Set(Mongo(kind).URI())
	config.StorageConnectionRetryDelay.Set("100ms")
	return storage.NewMongoStorage(Ctx)
}

// New returns a fresh, empty deployment and resets the clock.
func New(k Kind, o Options) *Sys {
	Setup()
	SetNow(Base)
	s := &Sys{Kind: k, opt: o, Aud: &Recorder{}}
	if o.Metrics {
		ResetMetrics()
	}
	if s.opt.Instances == 0 {
		s.opt.Instances = 1
	}
	switch k.Cache {
	case "memory":
		s.Cache = cache.NewMemoryCache()
	default:
		c := redisCli[k.Cache+"\x00"+o.Prefix]
		if c == nil {
			var err error
			c, err = RedisClient(k.Cache, o.Prefix)
			if err != nil {
				panic(fmt.Sprint("cannot connect to the fake Redis: ", err))
			}
			redisCli[k.Cache+"\x00"+o.Prefix] = c
		}
		if !o.Keep {
			Redis(k.Cache).Clear()
		}
		s.Cache = c
	}
	switch k.Store {
	case "memory":
		s.Store = storage.NewMemoryStorage(Ctx)
	default:
		c := mongoCli[k.Store]
		if c == nil {
			var err error
			c, err = MongoClient(k.Store)
			if err != nil {
				panic(fmt.Sprint("cannot connect to the fake MongoDB: ", err))
			}
			mongoCli[k.Store] = c
		}
		Mongo(k.Store).Clear()
		s.Store = c
	}
	s.Restart()
	return s
}

// Restart starts the Deckard processes afresh over the same engines.
func (s *Sys) Restart() {
	s.Cfg, s.Q, s.Svc = nil, nil, nil
	c, st := s.Cache, s.Store
	if s.opt.WrapCache != nil {
		c = s.opt.WrapCache(c)
	}
	if s.opt.WrapStore != nil {
		st = s.opt.WrapStore(st)
	}
	var aud audit.Auditor = s.Aud
	if s.opt.Auditor != nil {
		aud = s.opt.Auditor
	}
	for i := 0; i < s.opt.Instances; i++ {
		cfg := queue.NewQueueConfigurationService(Ctx, st)
		q := queue.NewQueue(aud, st, cfg, c)
		s.Cfg = append(s.Cfg, cfg)
		s.Q = append(s.Q, q)
		s.Svc = append(s.Svc, service.NewDeckardInstance(q, cfg, s.Memory()))
	}
}

// Memory tells whether the deployment is an in-memory instance.
func (s *Sys) Memory() bool { return s.Kind.Cache == "memory" && s.Kind.Store == "memory" }

// LoseCache empties the cache engine behind Deckard's back.
func (s *Sys) LoseCache() {
	if r := Redis(s.Kind.Cache); r != nil {
		if s.opt.Prefix == "" && !s.opt.Keep {
			r.Clear()
			return
		}
	}
	s.Cache.Flush(Ctx)
}

// Violations of the Redis stand-in so far.
func (s *Sys) Violations() []string {
	if r := Redis(s.Kind.Cache); r != nil {
		return r.Violations
	}
	return nil
}

// Dump is a canonical rendering of everything the implementation holds.
func (s *Sys) Dump() string {
	d := dumper{ids: map[visit]int{}}
	if r := Redis(s.Kind.Cache); r != nil {
		d.b = append(d.b, r.Dump()...)
	} else {
		d.value(reflect.ValueOf(s.Cache), 0)
	}
	d.b = append(d.b, '|')
	if m := Mongo(s.Kind.Store); m != nil {
		d.b = append(d.b, m.Dump()...)
	} else {
		d.value(reflect.ValueOf(s.Store), 0)
	}
	d.b = append(d.b, '|')
	for i := range s.Cfg {
		d.value(reflect.ValueOf(s.Cfg[i]), 0)
		d.value(reflect.ValueOf(s.Q[i]), 0)
	}
	if s.opt.Metrics {
		d.b = append(d.b, metricsDump()...)
	}
	return string(d.b)
}
