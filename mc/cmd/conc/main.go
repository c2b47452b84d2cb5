// conc decides the properties about truly concurrent calls: it is built with the
// race detector, and the mutexes of the code under test are scheduling points.
package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/elliotchance/orderedmap/v2"
	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vsync"
	"github.com/takenet/deckard/internal/verifx/vx"
	"go.opentelemetry.io/otel/metric"
)

// value is what an operation returned.
type value struct {
	v   any
	err error
}

// show renders it; ids whose order means nothing are sorted.
func (x value) show() string {
	if x.err != nil {
		return "error: " + x.err.Error()
	}
	return sut.Show(x.v)
}

type env struct {
	s *sut.Sys
}

type call struct {
	name string
	f    func(e *env) value
}

var ctx = context.Background()

type silent struct{}

func (silent) Store(context.Context, audit.Entry) {}

func newEnv() *env {
	return &env{s: sut.New(sut.Kind{Cache: "memory", Store: "memory"}, sut.Options{Auditor: silent{}})}
}

func m(id string, score float64, payload string) *message.Message {
	return &message.Message{ID: id, Queue: "q", QueuePrefix: "q", Score: score, StringPayload: payload, Metadata: map[string]string{"m": payload}, ExpiryDate: sut.Base.Add(time.Hour)}
}

func locked(id string, score float64, lock int64) *message.Message {
	x := m(id, score, "")
	x.LockMs = lock
	return x
}

func strs(s []string, err error) value {
	// Only the elements count.
	return value{sorted(s), err}
}

type sorted []string

func one[T any](v T, err error) value { return value{v, err} }
func two[A, B any](a A, b B, err error) value {
	return value{struct {
		A A
		B B
	}{a, b}, err}
}

func cacheCalls() []call {
	c := func(e *env) cache.Cache { return e.s.Cache }
	return []call{
		{"Insert(a)", func(e *env) value { return strs(c(e).Insert(ctx, "q", m("a", 10, ""))) }},
		{"Insert(a,b)", func(e *env) value { return strs(c(e).Insert(ctx, "q", m("a", 5, ""), m("b", 7, ""))) }},
		{"Insert(r/z)", func(e *env) value {
			x := m("z", 1, "")
			x.Queue = "r"
			return strs(c(e).Insert(ctx, "r", x))
		}},
		{"Pull 1", func(e *env) value { return one(c(e).PullMessages(ctx, "q", 1, nil, nil, 60000)) }},
		{"Pull 2", func(e *env) value { return one(c(e).PullMessages(ctx, "q", 2, nil, nil, 60000)) }},
		{"Remove(a)", func(e *env) value { return one(c(e).Remove(ctx, "q", "a")) }},
		{"Remove(b,a)", func(e *env) value { return one(c(e).Remove(ctx, "q", "b", "a")) }},
		{"MakeAvailable(a)", func(e *env) value { return one(c(e).MakeAvailable(ctx, m("a", 3, ""))) }},
		{"Lock ack(a)", func(e *env) value { return one(c(e).LockMessage(ctx, locked("a", 3, 1000), cache.LOCK_ACK)) }},
		{"Lock nack(a)", func(e *env) value { return one(c(e).LockMessage(ctx, locked("a", 3, 1000), cache.LOCK_NACK)) }},
		{"Unlock ack", func(e *env) value { return strs(c(e).UnlockMessages(ctx, "q", cache.LOCK_ACK)) }},
		{"Unlock nack", func(e *env) value { return strs(c(e).UnlockMessages(ctx, "q", cache.LOCK_NACK)) }},
		{"Timeout", func(e *env) value { return strs(c(e).TimeoutMessages(ctx, "q")) }},
		{"IsProcessing(a)", func(e *env) value { return one(c(e).IsProcessing(ctx, "q", "a")) }},
		{"ListQueues primary", func(e *env) value { return strs(c(e).ListQueues(ctx, "*", pool.PRIMARY_POOL)) }},
		{"ListQueues processing", func(e *env) value { return strs(c(e).ListQueues(ctx, "*", pool.PROCESSING_POOL)) }},
		{"ListQueues locks", func(e *env) value {
			a, err := c(e).ListQueues(ctx, "*", pool.LOCK_ACK_POOL)
			return strs(a, err)
		}},
		{"Set(k)", func(e *env) value { return value{nil, c(e).Set(ctx, "k", "v")} }},
		{"Get(k)", func(e *env) value { return one(c(e).Get(ctx, "k")) }},
		{"Flush", func(e *env) value { c(e).Flush(ctx); return value{} }},
	}
}

func sortBy(k string, d int) *orderedmap.OrderedMap[string, int] {
	o := orderedmap.NewOrderedMap[string, int]()
	o.Set(k, d)
	return o
}

func storeCalls() []call {
	s := func(e *env) storage.Storage { return e.s.Store }
	find := func(o *storage.FindOptions) func(e *env) value {
		return func(e *env) value {
			ms, err := s(e).Find(ctx, o)
			return value{ms, err}
		}
	}
	ab := []string{"a", "b"}
	a := []string{"a"}
	now := sut.Base.Add(2 * time.Hour)
	return []call{
		{"Insert(a v1)", func(e *env) value { return two(s(e).Insert(ctx, m("a", 10, "v1"))) }},
		{"Insert(a v2)", func(e *env) value { return two(s(e).Insert(ctx, m("a", 20, "v2"))) }},
		{"Insert(b,a v3)", func(e *env) value { return two(s(e).Insert(ctx, m("b", 5, "v3"), m("a", 6, "v3"))) }},
		{"Insert(p::z)", func(e *env) value {
			x := m("z", 1, "z")
			x.Queue, x.QueuePrefix, x.QueueSuffix = "p::z", "p", "z"
			return two(s(e).Insert(ctx, x))
		}},
		{"Insert(a, invalid)", func(e *env) value { return two(s(e).Insert(ctx, m("a", 1, "v4"), &message.Message{ID: "x"})) }},
		{"Find ids", find(&storage.FindOptions{InternalFilter: &storage.InternalFilter{Ids: &a, Queue: "q"}, Limit: 1})},
		{"Find sorted", find(&storage.FindOptions{InternalFilter: &storage.InternalFilter{Ids: &ab, Queue: "q"}, Limit: 2, Sort: sortBy("score", 1)})},
		{"Find expired", find(&storage.FindOptions{InternalFilter: &storage.InternalFilter{ExpiryDate: &now}, Limit: 10, Sort: sortBy("_id", 1)})},
		{"Find projected", find(&storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: "q"}, Projection: &map[string]int{"id": 1, "score": 1}, Limit: 10, Sort: sortBy("_id", -1)})},
		{"Remove(a)", func(e *env) value { return one(s(e).Remove(ctx, "q", "a")) }},
		{"Remove(b,a)", func(e *env) value { return one(s(e).Remove(ctx, "q", "b", "a")) }},
		{"Ack(a)", func(e *env) value {
			x := m("a", 3, "")
			x.LastScoreSubtract, x.Breakpoint, x.LastUsage = 4, "bp", &now
			return one(s(e).Ack(ctx, x))
		}},
		{"Nack(a)", func(e *env) value { return one(s(e).Nack(ctx, m("a", 3, ""))) }},
		{"Count", func(e *env) value {
			return one(s(e).Count(ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: "q"}}, nil))
		}},
		{"Count bad breakpoint", func(e *env) value {
			return one(s(e).Count(ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{InternalIdBreakpointLte: "x"}}, nil))
		}},
		{"Find bad breakpoint", find(&storage.FindOptions{InternalFilter: &storage.InternalFilter{InternalIdBreakpointGt: "x"}})},
		{"ListQueueNames", func(e *env) value { return strs(s(e).ListQueueNames(ctx)) }},
		{"ListQueuePrefixes", func(e *env) value { return strs(s(e).ListQueuePrefixes(ctx)) }},
		{"EditQueueConfiguration(5)", func(e *env) value {
			return value{nil, s(e).EditQueueConfiguration(ctx, &configuration.QueueConfiguration{Queue: "q", MaxElements: 5})}
		}},
		{"EditQueueConfiguration(6)", func(e *env) value {
			return value{nil, s(e).EditQueueConfiguration(ctx, &configuration.QueueConfiguration{Queue: "q", MaxElements: 6})}
		}},
		{"GetQueueConfiguration", func(e *env) value { return one(s(e).GetQueueConfiguration(ctx, "q")) }},
		{"ListQueueConfigurations", func(e *env) value { return one(s(e).ListQueueConfigurations(ctx)) }},
		{"GetStringInternalId", func(e *env) value { return one(s(e).GetStringInternalId(ctx, m("a", 1, "")), nil) }},
		{"Flush", func(e *env) value { return one(s(e).Flush(ctx)) }},
	}
}

type setup struct {
	name string
	f    func(e *env)
}

func by(cs []call, names ...string) func(e *env) {
	return func(e *env) {
		for _, n := range names {
			if n == "later" {
				sut.Advance(2 * time.Minute)
				continue
			}
			ok := false
			for _, c := range cs {
				if c.name == n {
					c.f(e)
					ok = true
				}
			}
			if !ok {
				panic("no call " + n)
			}
		}
	}
}

// play runs the threads (lists of calls) under one schedule, or sequentially in
// the given order of thread numbers.
type played struct {
	res   [][]value
	span  [][][2]int64
	state string
}

func key(res [][]string, state string) string {
	var b strings.Builder
	for _, t := range res {
		for _, r := range t {
			b.WriteString(r)
			b.WriteByte('\n')
		}
		b.WriteByte('\f')
	}
	b.WriteString(state)
	return b.String()
}

// sequential returns the outcome of the calls in this order of threads.
func sequential(su setup, ths [][]call, order []int) string {
	e := newEnv()
	su.f(e)
	res := make([][]string, len(ths))
	at := make([]int, len(ths))
	if bad := alone(func() {
		for _, i := range order {
			res[i] = append(res[i], canon(ths[i][at[i]].f(e)))
			at[i]++
		}
	}); bad != "" {
		return bad
	}
	return key(res, e.s.Dump())
}

// alone runs f under a scheduler of one thread, which notices self-deadlocks.
func alone(f func()) string {
	s := &vsync.Sched{T: []*vsync.Thread{{Name: "single thread", Run: f}}}
	_, bad := s.Run(nil, 0)
	return bad
}

func canon(v value) string {
	if s, ok := v.v.(sorted); ok && v.err == nil {
		x := append([]string{}, s...)
		sort.Strings(x)
		return fmt.Sprint(x)
	}
	return v.show()
}

func orders(ths [][]call) [][]int {
	var out [][]int
	at := make([]int, len(ths))
	var rec func(o []int)
	rec = func(o []int) {
		done := true
		for i := range ths {
			if at[i] < len(ths[i]) {
				done = false
				at[i]++
				rec(append(append([]int{}, o...), i))
				at[i]--
			}
		}
		if done {
			out = append(out, o)
		}
	}
	rec(nil)
	return out
}

var epilogue = func(cs []call, e *env) {
	for i := len(cs) - 1; i >= 0; i-- {
		cs[i].f(e)
	}
	for _, c := range cs {
		c.f(e)
	}
}

// exploreCalls runs all schedules of the threads and checks that each outcome is
// one of a sequential order that respects the order of non-overlapping calls.
func exploreCalls(t *vx.T, what string, all []call, su setup, ths [][]call, bound int) {
	name := what + ", " + su.name
	for _, th := range ths {
		name += " | "
		for i, c := range th {
			if i > 0 {
				name += ", "
			}
			name += c.name
		}
	}
	t.Step(name)
	t.Sample(name)
	// Sequential outcomes.
	ords := orders(ths)
	outcome := make([]string, len(ords))
	for i, o := range ords {
		outcome[i] = sequential(su, ths, o)
	}
	var prefix []int
	for {
		t.Step(name)
		e := newEnv()
		su.f(e)
		s := &vsync.Sched{}
		res := make([][]value, len(ths))
		from := make([][]int64, len(ths))
		to := make([][]int64, len(ths))
		for i, cs := range ths {
			i, cs := i, cs
			res[i] = make([]value, len(cs))
			from[i] = make([]int64, len(cs))
			to[i] = make([]int64, len(cs))
			s.T = append(s.T, &vsync.Thread{Name: fmt.Sprintf("thread %d", i+1), Run: func() {
				for j, c := range cs {
					if j > 0 {
						vsync.Point("next call")
					}
					from[i][j] = vsync.Tick()
					res[i][j] = c.f(e)
					to[i][j] = vsync.Tick()
				}
			}})
		}
		chs, bad := s.Run(prefix, bound)
		t.Traces++
		t.States++
		t.Trans += s.Points
		trace := append([]string{name}, s.Trace...)
		if bad != "" {
			t.Fail("stuck: "+strings.SplitN(bad, ":", 2)[0]+" "+name, bad, trace)
			return
		}
		got := make([][]string, len(ths))
		for i := range res {
			for _, v := range res[i] {
				got[i] = append(got[i], canon(v))
			}
		}
		k := key(got, e.s.Dump())
		ok := false
		for i, o := range ords {
			if outcome[i] == k && respects(o, from, to) {
				ok = true
				break
			}
		}
		if !ok {
			t.Fail("not atomic: "+name, "the outcome of concurrent calls is none of calling one after another: "+strings.ReplaceAll(fmt.Sprintf("%.600q", got), "\n", " "), trace)
			if len(t.Violations) >= 5 {
				return
			}
		}
		// Returned values stay as they are.
		if bad := alone(func() { epilogue(all, e) }); bad != "" {
			t.Fail("stuck afterwards: "+strings.SplitN(bad, ":", 2)[0]+" "+name, "afterwards: "+bad, trace)
			return
		}
		for i := range res {
			for j, v := range res[i] {
				if g := canon(v); g != got[i][j] {
					t.Fail("changed: "+ths[i][j].name, fmt.Sprintf("the value returned by %s changed afterwards from %.300q to %.300q", ths[i][j].name, got[i][j], g), trace)
				}
			}
		}
		prefix = vsync.Next(chs)
		if prefix == nil {
			return
		}
	}
}

// respects tells whether no call comes before one that had ended when it began.
func respects(o []int, from, to [][]int64) bool {
	at := make([]int, len(from))
	latest := int64(-1)
	for _, i := range o {
		j := at[i]
		at[i]++
		if to[i][j] < latest {
			return false
		}
		latest = max(latest, from[i][j])
	}
	return true
}

func svcCalls() []call {
	svc := func(e *env) deckard.DeckardServer { return e.s.Svc[0] }
	q := func(e *env) *queue.Queue { return e.s.Q[0] }
	add := func(ids ...string) func(e *env) value {
		return func(e *env) value {
			r := &deckard.AddRequest{}
			for i, id := range ids {
				r.Messages = append(r.Messages, &deckard.AddMessage{Id: id, Queue: "q", Score: float64(5 + i), TtlMinutes: 1, StringPayload: id})
			}
			x, err := svc(e).Add(ctx, r)
			return value{x, err}
		}
	}
	return []call{
		{"Add(a)", add("a")},
		{"Add(b,a)", add("b", "a")},
		{"Pull 1", func(e *env) value {
			x, err := svc(e).Pull(ctx, &deckard.PullRequest{Queue: "q", Amount: 1})
			return value{x, err}
		}},
		{"Pull 3", func(e *env) value {
			x, err := svc(e).Pull(ctx, &deckard.PullRequest{Queue: "q", Amount: 3})
			return value{x, err}
		}},
		{"Ack(a)", func(e *env) value {
			x, err := svc(e).Ack(ctx, &deckard.AckRequest{Queue: "q", Id: "a", Breakpoint: "x"})
			return value{x, err}
		}},
		{"Ack(a, lock)", func(e *env) value {
			x, err := svc(e).Ack(ctx, &deckard.AckRequest{Queue: "q", Id: "a", LockMs: 1000})
			return value{x, err}
		}},
		{"Ack(a, remove)", func(e *env) value {
			x, err := svc(e).Ack(ctx, &deckard.AckRequest{Queue: "q", Id: "a", RemoveMessage: true})
			return value{x, err}
		}},
		{"Nack(a)", func(e *env) value {
			x, err := svc(e).Nack(ctx, &deckard.AckRequest{Queue: "q", Id: "a", Score: 3})
			return value{x, err}
		}},
		{"Nack(a, lock)", func(e *env) value {
			x, err := svc(e).Nack(ctx, &deckard.AckRequest{Queue: "q", Id: "a", LockMs: 1000})
			return value{x, err}
		}},
		{"Remove(a,b)", func(e *env) value {
			x, err := svc(e).Remove(ctx, &deckard.RemoveRequest{Queue: "q", Ids: []string{"a", "b"}})
			return value{x, err}
		}},
		{"Count", func(e *env) value {
			x, err := svc(e).Count(ctx, &deckard.CountRequest{Queue: "q"})
			return value{x, err}
		}},
		{"GetById(a)", func(e *env) value {
			x, err := svc(e).GetById(ctx, &deckard.GetByIdRequest{Queue: "q", Id: "a"})
			return value{x, err}
		}},
		{"EditQueue(1)", func(e *env) value {
			x, err := svc(e).EditQueue(ctx, &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: 1}})
			return value{x, err}
		}},
		{"GetQueue", func(e *env) value {
			x, err := svc(e).GetQueue(ctx, &deckard.GetQueueRequest{Queue: "q"})
			return value{x, err}
		}},
		{"Flush", func(e *env) value { x, err := svc(e).Flush(ctx, &deckard.FlushRequest{}); return value{x, err} }},
		{"timeout", func(e *env) value { return value{nil, queue.ProcessTimeoutMessages(ctx, q(e))} }},
		{"unlock", func(e *env) value { queue.ProcessLockPool(ctx, q(e)); return value{} }},
		{"ttl", func(e *env) value {
			now := sut.Now()
			_, err := queue.RemoveTTLMessages(ctx, q(e), &now)
			return value{nil, err}
		}},
		{"trim", func(e *env) value { _, err := queue.RemoveExceedingMessages(ctx, q(e)); return value{nil, err} }},
		{"recovery", func(e *env) value { queue.RecoveryMessagesPool(ctx, q(e)); return value{} }},
		{"metrics", func(e *env) value { queue.ComputeMetrics(ctx, q(e)); return value{} }},
		{"scrape", func(e *env) value {
			o := observed{}
			for _, cbs := range metric.Callbacks {
				for _, cb := range cbs {
					if err := cb(ctx, o); err != nil {
						return value{nil, err}
					}
				}
			}
			return value{o, nil}
		}},
	}
}

type observed map[int64]int

func (o observed) Observe(v int64, _ ...metric.ObserveOption) { o[v]++ }

// together tells whether two of these can run at the same time: background tasks
// never overlap themselves, and three of them exclude each other.
func together(a, b call) bool {
	bg := map[string]int{"timeout": 1, "unlock": 2, "metrics": 3, "ttl": 4, "trim": 4, "recovery": 4}
	return bg[a.name] == 0 || bg[a.name] != bg[b.name]
}

// exploreService looks for races, deadlocks and panics only.
func exploreService(t *vx.T, su setup, ths [][]call, bound int) {
	name := "service, " + su.name
	for _, th := range ths {
		name += " | "
		for _, c := range th {
			name += c.name + " "
		}
	}
	t.Sample(name)
	var prefix []int
	for {
		t.Step(name)
		e := newEnv()
		su.f(e)
		s := &vsync.Sched{}
		errs := make([]error, len(ths))
		for i, cs := range ths {
			i, cs := i, cs
			s.T = append(s.T, &vsync.Thread{Name: fmt.Sprintf("thread %d", i+1), Run: func() {
				for _, c := range cs {
					if v := c.f(e); v.err != nil {
						errs[i] = v.err
					}
				}
			}})
		}
		chs, bad := s.Run(prefix, bound)
		t.Traces++
		t.States++
		t.Trans += s.Points
		if bad == "" {
			if err := errors.Join(errs...); err != nil {
				bad = "error: " + err.Error()
			}
		}
		if bad != "" {
			t.Fail("stuck: "+strings.SplitN(bad, ":", 2)[0]+" "+name, bad, append([]string{name}, s.Trace...))
			return
		}
		if prefix = vsync.Next(chs); prefix == nil || t.Expired() {
			return
		}
	}
}

func c16(tier string) []vx.Job {
	cc, sc, vc := cacheCalls(), storeCalls(), svcCalls()
	cs := []setup{
		{"empty", by(cc)},
		{"queued", by(cc, "Insert(a,b)", "Insert(r/z)", "Set(k)")},
		{"processing", by(cc, "Insert(a,b)", "Pull 1")},
		{"past deadline", by(cc, "Insert(a,b)", "Pull 2", "later")},
		{"ack-locked", by(cc, "Insert(a,b)", "Pull 1", "Lock ack(a)", "later")},
		{"nack-locked", by(cc, "Insert(a,b)", "Pull 1", "Lock nack(a)", "later")},
	}
	ss := []setup{
		{"empty", by(sc)},
		{"one", by(sc, "Insert(a v1)")},
		{"stored", by(sc, "Insert(a v1)", "Insert(b,a v3)", "Insert(p::z)", "EditQueueConfiguration(5)")},
		{"acked", by(sc, "Insert(a v1)", "Ack(a)", "EditQueueConfiguration(5)", "GetQueueConfiguration")},
	}
	vs := []setup{
		{"empty", by(vc)},
		{"queued", by(vc, "Add(b,a)", "GetQueue")},
		{"processing", by(vc, "Add(b,a)", "Pull 3", "EditQueue(1)", "later")},
		{"locked", by(vc, "Add(b,a)", "Pull 3", "Ack(a, lock)", "later", "recovery")},
	}
	var jobs []vx.Job
	engine := func(what string, all []call, sus []setup) {
		for _, su := range sus {
			su := su
			jobs = append(jobs, vx.Job{Name: what + " pairs, " + su.name, Fn: func(t *vx.T) {
				for i := range all {
					for j := i; j < len(all); j++ {
						exploreCalls(t, what, all, su, [][]call{{all[i]}, {all[j]}}, 99)
						if t.Expired() || len(t.Violations) >= 5 {
							return
						}
					}
				}
			}})
			for f := range all {
				f := f
				jobs = append(jobs, vx.Job{Name: fmt.Sprintf("%s triples, %s, %s", what, su.name, all[f].name), Fn: func(t *vx.T) {
					for i := range all {
						for j := i; j < len(all); j++ {
							exploreCalls(t, what, all, su, [][]call{{all[f], all[i]}, {all[j]}}, 99)
							if tier == "thorough" {
								exploreCalls(t, what, all, su, [][]call{{all[f]}, {all[i]}, {all[j]}}, 99)
							}
							if t.Expired() {
								t.Truncate("time budget used up")
								return
							}
							if len(t.Violations) >= 5 {
								return
							}
						}
					}
				}})
				if tier != "thorough" && su.name != "stored" && su.name != "processing" {
					jobs = jobs[:len(jobs)-1]
				}
			}
		}
	}
	engine("cache", cc, cs)
	engine("storage", sc, ss)
	bound := 2
	if tier == "thorough" {
		bound = 4
	}
	for _, su := range vs {
		for f := range vc {
			su, f := su, f
			jobs = append(jobs, vx.Job{Name: fmt.Sprintf("service pairs, %s, %s", su.name, vc[f].name), Fn: func(t *vx.T) {
				for j := f; j < len(vc); j++ {
					if !together(vc[f], vc[j]) {
						continue
					}
					exploreService(t, su, [][]call{{vc[f]}, {vc[j]}}, bound)
					if t.Expired() {
						t.Truncate("time budget used up")
						return
					}
					if len(t.Violations) >= 5 {
						return
					}
				}
			}})
		}
	}
	return jobs
}

const rule = "Every pair (and pairs with a two-call thread; thorough: triples of threads) of in-memory engine operations, and every pair of service calls and background tasks, from several starting states; a controlled scheduler executes every order in which the code's mutexes can be acquired (service: up to the preemption bound); the race detector sees only the happens-before relation of the code's own synchronization; each engine outcome (returned values and full engine state) must equal that of some sequential order, and returned values must not change afterwards."

func main() {
	vx.Main(map[string]*vx.Check{
		"C16": {Jobs: c16, Rule: rule, Quick: 80 * time.Second, Thorough: 12 * time.Minute, Assumptions: []string{
			"Threads switch only where they acquire a mutex of the code under test; accesses outside are covered by the race detector on every explored order.",
			"OpenTelemetry and go-cache are replaced by stubs.",
		}},
	})
}
