package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/verifx/esfake"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

var nameAssumptions = []string{
	"MongoDB, Redis and Elasticsearch are replaced by in-process stand-ins; OpenTelemetry by a stub that hands over every measurement.",
	"Names are valid UTF-8.",
}

const nameRule = "Every name over an alphabet of colons and other characters up to a length through the split functions, compared with the definition; and every name up to a smaller length through one life of messages (added, pulled, acknowledged, rejected, timed out, expired, trimmed, counted) on the real service, queue, housekeeper, auditor and storage: stored prefix and suffix, prefix listing, every audit record sent and every queue label of every measurement are compared with the definition."

// split is the definition.
func split(n string) (string, string) {
	for i := 0; i+1 < len(n); i++ {
		if n[i] == ':' && n[i+1] == ':' {
			return n[:i], n[i+2:]
		}
	}
	return n, ""
}

// names calls f for every name over the alphabet up to a length.
func names(alpha []string, n int, f func(string) bool) {
	var rec func(p string, n int) bool
	rec = func(p string, n int) bool {
		if !f(p) {
			return false
		}
		if n > 0 {
			for _, a := range alpha {
				if !rec(p+a, n-1) {
					return false
				}
			}
		}
		return true
	}
	rec("", n)
}

func splits(alpha []string, n int) func(t *vx.T) {
	return func(t *vx.T) {
		names(alpha, n, func(s string) bool {
			t.States++
			t.Trans += 3
			if t.States%1024 == 0 {
				t.Step(s)
			}
			wp, ws := split(s)
			p, x := message.GetQueueParts(s)
			m := message.Message{Queue: s}
			mp, mx := m.GetQueueParts()
			q := message.GetQueuePrefix(s)
			if p != wp || x != ws {
				t.Fail(fmt.Sprintf("split %q", s), fmt.Sprintf("%q splits into %q and %q instead of %q and %q", s, p, x, wp, ws), nil)
			}
			if mp != wp || mx != ws {
				t.Fail(fmt.Sprintf("message split %q", s), fmt.Sprintf("a message of %q splits into %q and %q instead of %q and %q", s, mp, mx, wp, ws), nil)
			}
			if q != wp {
				t.Fail(fmt.Sprintf("prefix %q", s), fmt.Sprintf("the prefix of %q is %q instead of %q", s, q, wp), nil)
			}
			return len(t.Violations) < 3
		})
		t.Traces++
	}
}

// measured collects the queue labels of all measurements.
type measured struct {
	mu sync.Mutex
	on bool
	m  map[string]map[string]bool // instrument -> labels
}

func lives(k sut.Kind, alpha []string, n, part, parts int) func(t *vx.T) {
	return func(t *vx.T) {
		es := &esfake.Server{}
		es.Install()
		config.Configure()
		config.AuditEnabled.Set(true)
		aud, err := audit.NewAuditor(&sync.WaitGroup{})
		if err != nil {
			panic(err)
		}
		go aud.StartSender(context.Background())
		stored := 0
		counting := counter{aud, &stored}
		ms := &measured{m: map[string]map[string]bool{}}
		metric.Sink = func(in string, v float64, attrs []attribute.KeyValue) {
			ms.mu.Lock()
			defer ms.mu.Unlock()
			if !ms.on {
				return
			}
			for _, a := range attrs {
				if string(a.Key) == "queue" {
					if ms.m[in] == nil {
						ms.m[in] = map[string]bool{}
					}
					ms.m[in][a.Value.AsString()] = true
				}
			}
		}
		i := 0
		names(alpha, n, func(s string) bool {
			i++
			if s == "" || i%parts != part {
				return true
			}
			t.Step(fmt.Sprintf("%q", s))
			t.States++
			t.Traces++
			life(t, k, s, counting, ms)
			return len(t.Violations) < 3 && !t.Expired()
		})
		if t.Expired() {
			t.Truncate("time budget used up")
		}
		// The sender passes on full batches.
		for stored%200 != 0 {
			counting.Store(sut.Ctx, audit.Entry{Queue: "pad::ding", ID: "pad"})
		}
		got := 0
		for end := time.Now().Add(20 * time.Second); got < stored && time.Now().Before(end); time.Sleep(time.Millisecond) {
			for _, b := range es.Take() {
				for _, e := range b {
					got++
					t.Trans++
					p, x := split(e.Queue)
					if e.QueuePrefix != p || e.QueueSuffix != x {
						t.Fail(fmt.Sprintf("audit@%q", e.Queue), fmt.Sprintf("the audit record (%s) of %q says prefix %q and suffix %q instead of %q and %q", e.Signal, e.Queue, e.QueuePrefix, e.QueueSuffix, p, x), nil)
					}
				}
			}
		}
		t.Stat("audit_records", int64(got))
		if got < stored {
			t.Notes = append(t.Notes, fmt.Sprintf("%d of %d audit records arrived", got, stored))
		}
	}
}

type counter struct {
	a *audit.AuditorImpl
	n *int
}

func (c counter) Store(ctx context.Context, e audit.Entry) {
	*c.n++
	c.a.Store(ctx, e)
}

func life(t *vx.T, k sut.Kind, name string, aud audit.Auditor, ms *measured) {
	s := sut.New(k, sut.Options{Auditor: aud})
	ms.m, ms.on = map[string]map[string]bool{}, true
	defer func() { ms.on = false }()
	wp, ws := split(name)
	fail := func(what, f string, a ...any) {
		t.Fail(fmt.Sprintf("%s@%q@%s", what, name, k), fmt.Sprintf("[%s] queue %q: ", k, name)+fmt.Sprintf(f, a...), nil)
	}
	var req deckard.AddRequest
	for i, id := range []string{"a", "b", "c", "d", "e", "f", "g"} {
		m := &deckard.AddMessage{Id: id, Queue: name, Score: float64(i + 1), TtlMinutes: 600}
		if id == "g" {
			m.TtlMinutes, m.Score = 1, 1000
		}
		req.Messages = append(req.Messages, m)
	}
	if _, err := s.Svc[0].Add(sut.Ctx, &req); err != nil {
		fail("add", "cannot be added to: %v", err)
		return
	}
	// What is stored.
	find := func() []message.Message {
		r, err := s.Store.Find(sut.Ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: name}})
		if err != nil {
			fail("find", "cannot be read: %v", err)
		}
		return r
	}
	for _, m := range find() {
		t.Trans++
		if m.QueuePrefix != wp || m.QueueSuffix != ws {
			fail("stored", "message %s is stored with prefix %q and suffix %q instead of %q and %q", m.ID, m.QueuePrefix, m.QueueSuffix, wp, ws)
		}
	}
	list, err := s.Store.ListQueuePrefixes(sut.Ctx)
	if err != nil || len(list) != 1 || list[0] != wp {
		fail("listed", "the prefixes are listed as %q (%v) instead of %q", list, err, wp)
	}
	byPrefix, err := s.Store.Find(sut.Ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{QueuePrefix: wp}})
	if err != nil || len(byPrefix) != 7 {
		fail("by-prefix", "%d of 7 messages are found by their prefix %q (%v)", len(byPrefix), wp, err)
	}
	queue.ComputeMetrics(sut.Ctx, s.Q[0])
	// A life of the messages, for the metrics and audit records.
	pull := func() string {
		r, err := s.Svc[0].Pull(sut.Ctx, &deckard.PullRequest{Queue: name, Amount: 1})
		if err != nil || len(r.Messages) == 0 {
			fail("pull", "nothing is pulled (%v)", err)
			return "a"
		}
		m := r.Messages[0]
		if m.Queue != name {
			fail("pulled", "delivers a message of queue %q", m.Queue)
		}
		return m.Id
	}
	s.Svc[0].Ack(sut.Ctx, &deckard.AckRequest{Queue: name, Id: pull(), Reason: "r"})
	s.Svc[0].Ack(sut.Ctx, &deckard.AckRequest{Queue: name, Id: pull(), Reason: "r", LockMs: 10})
	s.Svc[0].Nack(sut.Ctx, &deckard.AckRequest{Queue: name, Id: pull(), Reason: "r"})
	s.Svc[0].Nack(sut.Ctx, &deckard.AckRequest{Queue: name, Id: pull(), Reason: "r", LockMs: 10})
	pull()
	sut.Advance(time.Second)
	queue.ProcessLockPool(sut.Ctx, s.Q[0])
	sut.Advance(6 * time.Minute)
	_ = queue.ProcessTimeoutMessages(sut.Ctx, s.Q[0])
	now := sut.Now()
	_, _ = queue.RemoveTTLMessages(sut.Ctx, s.Q[0], &now)
	s.Svc[0].EditQueue(sut.Ctx, &deckard.EditQueueRequest{Queue: name, Configuration: &deckard.QueueConfiguration{MaxElements: 2}})
	_, _ = queue.RemoveExceedingMessages(sut.Ctx, s.Q[0])
	for _, m := range find() {
		t.Trans++
		if m.QueuePrefix != wp || m.QueueSuffix != ws {
			fail("kept", "message %s is kept with prefix %q and suffix %q instead of %q and %q", m.ID, m.QueuePrefix, m.QueueSuffix, wp, ws)
		}
	}
	if len(s.Q) > 0 {
		// The storage is emptied of everything, so that a pull finds nothing.
		s.Svc[0].Remove(sut.Ctx, &deckard.RemoveRequest{Queue: name, Ids: []string{"a", "b", "c", "d", "e", "f", "g"}})
		s.Svc[0].Pull(sut.Ctx, &deckard.PullRequest{Queue: name, Amount: 1})
	}
	queue.ComputeMetrics(sut.Ctx, s.Q[0])
	ms.mu.Lock()
	defer ms.mu.Unlock()
	t.Stat("labelled_instruments", int64(len(ms.m)))
	for in, ls := range ms.m {
		for l := range ls {
			t.Trans++
			if l != wp {
				fail("label", "%s is measured with queue label %q instead of %q", strings.TrimPrefix(in, "deckard_"), l, wp)
			}
		}
	}
}

func nameJobs(tier string) []vx.Job {
	th := tier == "thorough"
	r := []vx.Job{}
	sp := func(name string, n, deep int, alpha ...string) {
		if th {
			n = deep
		}
		r = append(r, vx.Job{Name: fmt.Sprintf("split-%s-%d", name, n), Fn: splits(alpha, n)})
	}
	sp("colons", 16, 21, ":", "a")
	sp("letters", 9, 11, ":", "a", "b", " ")
	sp("unicode", 8, 10, ":", "é", "：", "\x00", "a")
	for _, k := range []sut.Kind{{Cache: "memory", Store: "memory"}, {Cache: "memory", Store: "mongo"}, {Cache: "redis", Store: "mongo"}} {
		n, parts := 5, 2
		if k.Store == "memory" {
			n = 6
		}
		if th {
			n, parts = n+2, 6
		}
		for i := 0; i < parts; i++ {
			r = append(r, vx.Job{Name: fmt.Sprintf("life-%d@%s", i, k), Fn: lives(k, []string{":", "a", "b"}, n, i, parts)})
		}
	}
	return r
}
