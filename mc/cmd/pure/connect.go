package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/verifx/mongofake"
	"github.com/takenet/deckard/internal/verifx/redisfake"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
)

var connectAssumptions = []string{
	"Redis and MongoDB are replaced by in-process servers on loopback ports; the drivers are the real ones.",
	"The Redis driver's own retries are switched off in the address where a connection is cut; failing replies are not retried by the drivers.",
	"Upper bounds on waiting are judged by delays of an hour that must not be waited for, lower bounds by the times the server saw.",
}

const connectRule = "Every combination of engine, retry setting, attempt count and pattern of failing first pings up to a bound, and of kind of failure, against the real cache and storage factories: the outcome, the number of pings the server saw and the delay between them are compared with the rule. Further: cancellation before and during every wait, delays that must not be waited for after the last attempt, and missing, malformed and unknown addresses and types."

// target is an engine being connected to.
type target struct {
	name   string
	modes  []string
	create func(ctx context.Context) (any, error)
	listen func(f func() string) // sets the hook
	uri    func(s string)
	good   string
	// conns is how many connections are established one after another.
	conns                     int
	enabled, attempts, delays config.ConfigKey
	use                       func(any) error
	close                     func(any)
	open                      func() int // connections the server has
}

// left waits for the connections of a failed attempt or closed engine to go away.
func (x target) left() int {
	for end := time.Now().Add(10 * time.Second); ; time.Sleep(time.Millisecond) {
		if n := x.open(); n == 0 || time.Now().After(end) {
			return n
		}
	}
}

func targets() []target {
	sut.Setup()
	config.Configure(true)
	one, three, mongo, rep := redisfake.New(0), redisfake.New(3), mongofake.New(false), mongofake.New(true)
	red := func(name string, srv *redisfake.Server, cluster bool, extra string, modes ...string) target {
		return target{name: name, modes: modes, conns: 1, good: srv.URI() + extra,
			create: func(ctx context.Context) (any, error) {
				config.RedisClusterMode.Set(cluster)
				c, err := cache.CreateCache(ctx, cache.REDIS)
				if c == nil {
					return nil, err
				}
				return c, err
			},
			listen:  func(f func() string) { srv.OnPing = f },
			open:    srv.Conns,
			uri:     func(s string) { config.CacheUri.Set(s) },
			enabled: config.CacheConnectionRetryEnabled, attempts: config.CacheConnectionRetryAttempts, delays: config.CacheConnectionRetryDelay,
			use: func(x any) error {
				_, err := x.(cache.Cache).Insert(sut.Ctx, "q")
				return err
			},
			close: func(x any) { x.(cache.Cache).Close(sut.Ctx) },
		}
	}
	mon := func(name string, srv *mongofake.Server) target {
		return target{name: name, modes: []string{"error"}, conns: 2, good: srv.URI(),
			create: func(ctx context.Context) (any, error) {
				s, err := storage.CreateStorage(ctx, storage.MONGODB)
				if s == nil {
					return nil, err
				}
				return s, err
			},
			listen:  func(f func() string) { srv.OnPing = f },
			open:    srv.Conns,
			uri:     func(s string) { config.StorageUri.Set(s) },
			enabled: config.StorageConnectionRetryEnabled, attempts: config.StorageConnectionRetryAttempts, delays: config.StorageConnectionRetryDelay,
			use: func(x any) error {
				_, err := x.(storage.Storage).ListQueueNames(sut.Ctx)
				return err
			},
			close: func(x any) { x.(storage.Storage).Close(sut.Ctx) },
		}
	}
	return []target{
		red("redis", one, false, "?max_retries=-1", "error", "close"),
		red("redis with driver retries", one, false, "", "error"),
		red("cluster", three, true, "", "error"),
		mon("mongo", mongo), mon("replica", rep),
	}
}

// outcome of creating an engine.
type outcome struct {
	v   any
	err error
}

// start creates the engine; ok is false if that does not return in time.
func (x target) start(ctx context.Context, wait time.Duration) (o outcome, ok bool) {
	ch := make(chan outcome, 1)
	go func() {
		v, err := x.create(ctx)
		ch <- outcome{v, err}
	}()
	select {
	case o = <-ch:
		return o, true
	case <-time.After(wait):
		return o, false
	}
}

// isNil tells whether no engine was returned (also one typed nil).
func isNil(v any) bool {
	if v == nil {
		return true
	}
	s := fmt.Sprintf("%p", v)
	return s == "0x0" || s == "%!p(<nil>)"
}

func connecting(x target, mode string) func(t *vx.T) {
	return func(t *vx.T) {
		x = pick(x.name)
		maxA, n := 6, 9
		if t.Thorough() {
			maxA, n = 10, 13
		}
		x.uri(x.good)
		for _, enabled := range []bool{true, false} {
			for a := -1; a <= maxA; a++ {
				for pat := 0; pat < 1<<n; pat++ {
					if !enabled && pat >= 8 {
						break
					}
					// The model: which pings are asked for, and the result.
					budget := a
					ok := true
					asked := 0
					freeA := false
					if budget < 1 {
						if strings.HasPrefix(x.name, "mongo") || x.name == "replica" {
							budget = 1 // an unusable count may also be an error
							freeA = true
						} else {
							ok = false
						}
					}
					if !enabled {
						budget = min(budget, 1)
					}
					for c := 0; c < x.conns && ok; c++ {
						left := budget
						for {
							bad := pat>>asked&1 == 1
							asked++
							left--
							if !bad {
								break
							}
							if left == 0 {
								ok = false
								break
							}
						}
					}
					if asked > n || pat>>asked != 0 {
						continue // the same behaviour as a shorter pattern
					}
					for _, delay := range []time.Duration{0, 3 * time.Millisecond} {
						if delay > 0 && (pat&1 == 0 || !t.Thorough() && a != 3) {
							continue
						}
						what := fmt.Sprintf("%s, retry %v, %d attempts, delay %v, %s pings failing by %s", x.name, enabled, a, delay, pattern(pat, asked), mode)
						t.Step(what)
						t.States++
						t.Traces++
						x.enabled.Set(enabled)
						x.attempts.Set(a)
						x.delays.Set(delay.String())
						var mu sync.Mutex
						var at []time.Time
						var failed []bool
						x.listen(func() string {
							mu.Lock()
							defer mu.Unlock()
							i := len(at)
							at = append(at, time.Now())
							failed = append(failed, pat>>i&1 == 1)
							if pat>>i&1 == 1 {
								return mode
							}
							return ""
						})
						fail := func(f string, y ...any) {
							t.Fail(what, what+": "+fmt.Sprintf(f, y...), nil)
						}
						o, done := x.start(sut.Ctx, 30*time.Second)
						mu.Lock()
						seen := len(at)
						times := append([]time.Time{}, at...)
						mu.Unlock()
						t.Trans += int64(seen)
						switch {
						case !done:
							fail("does not return")
							return
						case o.err == nil && isNil(o.v):
							fail("returns neither an engine nor an error")
						case o.err != nil && freeA && asked > 0 && seen == 0:
						case ok && o.err != nil:
							fail("fails (%v) although the server answered in time", o.err)
						case !ok && o.err == nil:
							fail("succeeds although the server did not answer in time")
						case seen != asked:
							fail("the server saw %d pings instead of %d", seen, asked)
						case o.err == nil:
							if err := x.use(o.v); err != nil {
								fail("the engine cannot be used: %v", err)
							}
						}
						for i := 1; i < len(times) && delay > 0; i++ {
							if failed[i-1] && times[i].Sub(times[i-1]) < delay-100*time.Microsecond {
								fail("ping %d follows after %v", i+1, times[i].Sub(times[i-1]))
							}
						}
						if o.err == nil && !isNil(o.v) {
							x.close(o.v)
						}
						if n := x.left(); n > 0 {
							fail("%d connections stay open after it failed or was closed", n)
						}
						if len(t.Violations) >= 3 {
							return
						}
					}
					if t.Expired() {
						t.Truncate("time budget used up")
						return
					}
				}
			}
		}
	}
}

func pattern(p, n int) string {
	s := ""
	for i := 0; i < max(n, 1); i++ {
		s += string("oX"[p>>i&1])
	}
	return s
}

// waiting: hours that must not be waited for, and cancellation.
func waiting(x target) func(t *vx.T) {
	return func(t *vx.T) {
		x = pick(x.name)
		x.uri(x.good)
		type cs struct {
			name     string
			enabled  bool
			attempts int
			fails    int
			cancel   int // cancelled during the wait after this many pings; -1 never, 0 before
			ok       bool
			pings    int
		}
		all := []cs{
			{"the only attempt fails", true, 1, 9, -1, false, 1},
			{"the only attempt succeeds", true, 1, 0, -1, true, x.conns},
			{"retrying is disabled and the attempt fails", false, 5, 9, -1, false, 1},
			{"retrying is disabled and the attempt succeeds", false, 5, 0, -1, true, x.conns},
			{"cancelled before", true, 3, 9, 0, false, -1},
			{"cancelled before, the server is up", true, 3, 0, 0, false, -1},
			{"cancelled while waiting", true, 3, 9, 1, false, 1},
			{"cancelled while waiting, long", true, 1000000, 9, 1, false, 1},
		}
		for _, c := range all {
			what := x.name + ": " + c.name
			t.Step(what)
			t.States++
			t.Traces++
			x.enabled.Set(c.enabled)
			x.attempts.Set(c.attempts)
			x.delays.Set("1h")
			ctx, cancel := context.WithCancel(context.Background())
			if c.cancel == 0 {
				cancel()
			}
			var mu sync.Mutex
			n := 0
			x.listen(func() string {
				mu.Lock()
				defer mu.Unlock()
				n++
				if n == c.cancel {
					time.AfterFunc(50*time.Millisecond, cancel)
				}
				if n <= c.fails {
					return "error"
				}
				return ""
			})
			o, done := x.start(ctx, 20*time.Second)
			cancel()
			mu.Lock()
			seen := n
			mu.Unlock()
			t.Trans += int64(seen)
			switch {
			case !done:
				t.Fail(what, what+": does not return, although nothing is left to wait for", nil)
			case (o.err == nil) != c.ok:
				t.Fail(what, fmt.Sprintf("%s: returns error %v", what, o.err), nil)
			case o.err == nil && isNil(o.v):
				t.Fail(what, what+": returns neither an engine nor an error", nil)
			case c.pings >= 0 && seen != c.pings:
				t.Fail(what, fmt.Sprintf("%s: the server saw %d pings instead of %d", what, seen, c.pings), nil)
			}
			if o.err == nil && !isNil(o.v) {
				x.close(o.v)
			}
			if n := x.left(); n > 0 && done {
				t.Fail(what+" connections", fmt.Sprintf("%s: %d connections stay open after it failed or was closed", what, n), nil)
			}
		}
	}
}

// addresses: missing, malformed and unknown ones.
func addresses(x target) func(t *vx.T) {
	return func(t *vx.T) {
		x = pick(x.name)
		x.enabled.Set(true)
		x.delays.Set("1ms")
		x.listen(nil)
		port := strings.TrimPrefix(strings.SplitN(x.good, "?", 2)[0], "redis://")
		port = strings.Trim(strings.TrimPrefix(port, "mongodb://"), "/")
		bad := []string{"", ":", "::", "http://" + port, port, "redis:/" + port, "//" + port, "mongodb//" + port, "nothing", "redis://%zz", "mongodb://%zz", "mongodb://", " "}
		for _, b := range bad {
			for _, a := range []int{1, 2} {
				what := fmt.Sprintf("%s at %q", x.name, strings.ReplaceAll(b, port, "ADDR"))
				t.Step(what)
				t.States++
				t.Trans++
				t.Traces++
				x.attempts.Set(a)
				x.uri(b)
				o, done := x.start(sut.Ctx, 30*time.Second)
				if !done {
					t.Fail(what, what+": does not return", nil)
				} else if o.err == nil || !isNil(o.v) {
					t.Fail(what, what+": is accepted", nil)
				}
			}
		}
		// A port nobody listens on.
		x.uri(strings.Replace(strings.SplitN(x.good, "?", 2)[0], port, "localhost:1", 1))
		x.attempts.Set(2)
		o, done := x.start(sut.Ctx, 60*time.Second)
		if !done || o.err == nil {
			t.Fail(x.name+" nobody listens", x.name+": connecting to a port nobody listens on gives no error", nil)
		}
	}
}

// types: only the listed engine types exist.
func types(t *vx.T) {
	sut.Setup()
	for _, n := range []string{"MEMORY", "REDIS", "MONGODB", "", "memory", "Redis", "mongo", "MONGO", " MEMORY", "MEMORY ", "X"} {
		t.Step(n)
		t.States++
		t.Trans += 2
		config.CacheUri.Set("")
		config.StorageUri.Set("")
		c, err := cache.CreateCache(sut.Ctx, cache.Type(n))
		if ok := err == nil && !isNil(c); ok != (n == "MEMORY") || err == nil && isNil(c) {
			t.Fail("cache "+n, fmt.Sprintf("cache type %q without address gives %v, %v", n, c, err), nil)
		}
		s, err := storage.CreateStorage(sut.Ctx, storage.Type(n))
		if ok := err == nil && !isNil(s); ok != (n == "MEMORY") || err == nil && isNil(s) {
			t.Fail("storage "+n, fmt.Sprintf("storage type %q without address gives %v, %v", n, s, err), nil)
		}
	}
	t.Traces++
}

func pick(name string) target {
	for _, x := range targets() {
		if x.name == name {
			return x
		}
	}
	panic(name)
}

func connectJobs(tier string) []vx.Job {
	r := []vx.Job{{Name: "types", Fn: types}}
	for _, x := range []target{{name: "redis", modes: []string{"error", "close"}}, {name: "redis with driver retries", modes: []string{"error"}}, {name: "cluster", modes: []string{"error"}}, {name: "mongo", modes: []string{"error"}}, {name: "replica", modes: []string{"error"}}} {
		id := strings.ReplaceAll(x.name, " ", "-")
		for _, m := range x.modes {
			r = append(r, vx.Job{Name: "attempts-" + m + "@" + id, Fn: connecting(x, m)})
		}
		r = append(r, vx.Job{Name: "waiting@" + id, Fn: waiting(x)}, vx.Job{Name: "addresses@" + id, Fn: addresses(x)})
	}
	return r
}
