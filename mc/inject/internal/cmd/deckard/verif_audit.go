package main

// Decides C21: the audit sender under a controlled scheduler, in front of a
// stand-in for Elasticsearch.

import (
	"context"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/verifx/esfake"
	"github.com/takenet/deckard/internal/verifx/vsync"
	"github.com/takenet/deckard/internal/verifx/vx"
)

const (
	batchMax = 200
	idleTime = 5 * time.Minute
)

// auditCase is one set of schedules.
type auditCase struct {
	before  int   // entries stored before the schedules differ
	storers []int // entries each concurrent storer stores
	loose   bool  // the shutdown does not wait for the last storer
	stop    bool  // the sender is stopped at any point
	idle    bool  // the storers wait for the idle time between two entries
	fail    int   // which bulk request fails
	off     bool  // auditing is disabled
}

func (c auditCase) String() string {
	s := fmt.Sprintf("%d entries, then %v", c.before, c.storers)
	for _, x := range []struct {
		on bool
		s  string
	}{{c.loose, "unregistered"}, {c.stop, "stop"}, {c.idle, "idle"}, {c.fail > 0, fmt.Sprint("failure ", c.fail)}, {c.off, "disabled"}} {
		if x.on {
			s += ", " + x.s
		}
	}
	return s
}

// aEvent of a run.
type aEvent struct {
	kind string // store, stored, sent, complete, quiet, idle
	id   string
	ids  []string
}

func entry(id string) audit.Entry {
	return audit.Entry{ID: id, Queue: "q", Signal: audit.ACK}
}

func auditRun(c auditCase, prefix []int, bound int) (*vsync.Sched, *esfake.Server, []vsync.Choice, string) {
	es := &esfake.Server{}
	es.Install()
	es.Before = func(b []audit.Entry) error {
		vsync.Point("bulk request")
		e := aEvent{kind: "sent"}
		for _, x := range b {
			e.ids = append(e.ids, x.ID)
		}
		vsync.Log(e)
		if vsync.Count() == c.fail {
			return errors.New("connection refused")
		}
		return nil
	}
	es.After = func() { vsync.Point("bulk reply") }
	config.AuditEnabled.Set(!c.off)
	defer config.AuditEnabled.Set(false)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	program := func() {
		wg, all := &vsync.WaitGroup{}, &vsync.WaitGroup{}
		a, err := audit.NewAuditor(wg)
		if err != nil {
			panic(err)
		}
		wg.Add(1)
		vsync.Go(func() {
			defer wg.Done()
			a.StartSender(ctx)
		})
		store := func(id string) {
			vsync.Log(aEvent{kind: "store", id: id})
			a.Store(context.Background(), entry(id))
			vsync.Log(aEvent{kind: "stored", id: id})
		}
		vsync.Calm(func() {
			vsync.Quiesce()
			for i := 0; i < c.before; i++ {
				store(fmt.Sprint("p", i))
			}
			vsync.Quiesce()
		})
		for i, k := range c.storers {
			loose := c.loose && i == len(c.storers)-1
			all.Add(1)
			if !loose {
				wg.Add(1)
			}
			vsync.Go(func() {
				defer all.Done()
				if !loose {
					defer wg.Done()
				}
				for j := 0; j < k; j++ {
					if c.idle && j > 0 {
						vsync.Sleep(idleTime)
					}
					store(fmt.Sprintf("s%d.%d", i, j))
				}
			})
		}
		if c.stop {
			vsync.GoFree(cancel)
			vsync.Recv(ctx.Done())
		} else {
			all.Wait()
			vsync.Calm(func() {
				vsync.Quiesce()
				vsync.Log(aEvent{kind: "quiet"})
				vsync.Sleep(idleTime)
				vsync.Quiesce()
				vsync.Log(aEvent{kind: "idle"})
			})
			cancel()
		}
		wg.Wait()
		vsync.Log(aEvent{kind: "complete"})
		all.Wait()
	}
	s := &vsync.Sched{Delays: true, Main: true, Clock: 1000, Until: time.Hour, T: []*vsync.Thread{
		{Name: "main", Run: program},
	}}
	chs, bad := s.Run(prefix, bound)
	return s, es, chs, bad
}

// auditOracle reports what is wrong with a run.
func auditOracle(c auditCase, s *vsync.Sched, es *esfake.Server, bad string, fail func(sig, f string, a ...any)) {
	if bad != "" {
		fail(strings.SplitN(strings.SplitN(bad, ":", 2)[0], "/", 2)[0], "%s", bad)
		return
	}
	if c.off {
		if es.Requests > 0 {
			fail("disabled", "auditing is disabled, but %d requests are sent to Elasticsearch", es.Requests)
		}
		return
	}
	for _, b := range es.Bad {
		fail("malformed", "malformed bulk request: %s", b)
	}
	began, done, sent, times := map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	complete := math.MaxInt
	n, pending := 0, 0
	var order []string
	for i, x := range s.Logged() {
		e := x.(aEvent)
		switch e.kind {
		case "store":
			began[e.id] = i
			order = append(order, e.id)
		case "stored":
			done[e.id] = i
			pending++
		case "complete":
			complete = i
		case "quiet":
			if pending >= batchMax {
				fail("unsent batch", "%d entries wait to be sent", pending)
			}
		case "idle":
			if pending > 0 {
				fail("late", "%d entries have not been sent after %v without a new entry", pending, idleTime)
			}
		case "sent":
			if len(e.ids) == 0 || len(e.ids) > batchMax {
				fail("batch size", "a batch of %d entries is sent", len(e.ids))
			}
			for _, id := range e.ids {
				if times[id]++; times[id] > 1 {
					fail("twice", "entry %s is sent twice", id)
				}
				if _, ok := began[id]; !ok {
					fail("unknown", "an entry %q is sent that was not stored", id)
				}
				n++
				sent[id] = n
				pending--
			}
			if i > complete && !c.loose {
				fail("after shutdown", "entries %v are sent after the shutdown was complete", e.ids)
			}
		}
	}
	for _, id := range order {
		if done[id] < complete && times[id] == 0 {
			fail("lost", "entry %s was stored before the shutdown was complete and never sent", id)
		}
	}
	// Entries stored one after the other are sent in this order.
	for _, a := range order {
		for _, b := range order {
			if done[a] > 0 && done[a] < began[b] && sent[a] > sent[b] && sent[b] > 0 {
				fail("order", "entry %s was stored before %s but is sent after it", a, b)
				return
			}
		}
	}
}

func auditSchedules(c auditCase, bound, shard, shards int) func(t *vx.T) {
	return func(t *vx.T) {
		t.Sample(c.String())
		var prefix []int
		for {
			t.Step(c.String())
			s, es, chs, bad := auditRun(c, prefix, bound)
			t.Traces++
			t.States++
			t.Trans += s.Points
			auditOracle(c, s, es, bad, func(sig, f string, a ...any) {
				tr := s.Trace
				if len(tr) > 150 {
					tr = tr[len(tr)-150:]
				}
				t.Fail(sig+": "+c.String(), fmt.Sprintf(f, a...), append([]string{}, tr...))
			})
			for _, x := range s.Logged() {
				if e := x.(aEvent); e.kind == "sent" {
					t.Stat("bulk requests", 1)
				}
			}
			if len(t.Violations) >= 5 {
				return
			}
			if prefix = vsync.NextOf(chs, shard, shards); prefix == nil {
				return
			}
			if t.Expired() {
				t.Truncate("time budget used up")
				return
			}
		}
	}
}

// auditMain runs the whole program with auditing enabled.
func auditMain(t *vx.T, names []string, bound, clock int) {
	due(names...)
	what := "program, " + strings.Join(names, ", ")
	t.Sample(what)
	config.AuditEnabled.Set(true)
	defer config.AuditEnabled.Set(false)
	var prefix []int
	for {
		t.Step(what)
		es := &esfake.Server{}
		es.Install()
		late := 0
		es.Before = func(b []audit.Entry) error {
			vsync.Point("bulk request")
			if shutdown.HasFinished() {
				late++
			}
			return nil
		}
		es.After = func() { vsync.Point("bulk reply") }
		r, s, chs, bad := runMain(prefix, bound, clock, 0, true, true)
		t.Traces++
		t.States++
		t.Trans += s.Points
		fail := func(sig, f string, a ...any) {
			t.Fail(sig+": "+what, fmt.Sprintf(f, a...), r.trace(s))
		}
		want, got := map[string]int{}, map[string]int{}
		for _, b := range es.Batches {
			for _, e := range b {
				k := string(e.Signal)
				if e.Signal == audit.REMOVE {
					k += " " + e.ID
				}
				got[k]++
			}
		}
		for _, e := range r.ev {
			if !e.after || e.task == "" {
				continue
			}
			switch {
			case e.op == "storage.Remove":
				for _, id := range e.ids {
					want[string(audit.REMOVE)+" "+id] = 1
				}
			case e.op == "cache.UnlockMessages" && e.queue == "q" && e.val == "lock_ack":
				want[string(audit.UNLOCK)] = 1
			case e.op == "cache.TimeoutMessages" && e.queue == "q":
				want[string(audit.TIMEOUT)] = 1
			}
		}
		if bad != "" {
			fail("stuck "+strings.SplitN(bad, ":", 2)[0], "%s", bad)
		} else {
			for _, b := range es.Bad {
				fail("malformed", "malformed bulk request: %s", b)
			}
			if late > 0 {
				fail("after shutdown", "entries are sent after shutdown was announced as finished")
			}
			for k := range want {
				t.Stat("audited: "+k, 1)
				if got[k] != 1 {
					fail("lost", "%s was recorded %d times by the end of the program, not once", k, got[k])
				}
			}
			for k := range got {
				if want[k] == 0 {
					fail("unknown", "%s was recorded, which did not happen", k)
				}
			}
		}
		if len(t.Violations) >= 5 {
			return
		}
		if prefix = vsync.Next(chs); prefix == nil {
			return
		}
		if t.Expired() {
			t.Truncate("time budget used up")
			return
		}
	}
}

var contents = []audit.Entry{
	{ID: "a", Queue: "q", Signal: audit.ACK, Reason: "r", Breakpoint: "b", LockMs: 5, LastScoreSubtract: 1.5},
	{ID: "b", Queue: "q::s::t", Signal: audit.NACK},
	{ID: "c\"\\\n\r\t{}<>& é\u2028", Queue: "{\"index\":{}}\n", Signal: audit.REMOVE, Reason: "\n"},
	{ID: "d", Queue: "q", Signal: audit.ACK, LastScoreSubtract: math.NaN()},
	{ID: "e", Queue: "q", Signal: audit.ACK, LastScoreSubtract: math.Inf(1)},
	{ID: "f", Queue: "q", Signal: audit.ACK, LastScoreSubtract: math.Inf(-1), LockMs: math.MinInt64},
	{ID: strings.Repeat("g", 70000), Queue: "q", Signal: audit.TIMEOUT, LastScoreSubtract: math.MaxFloat64},
}

// auditContents sends every batch of up to n kinds of entries.
func auditContents(n int) func(t *vx.T) {
	return func(t *vx.T) {
		config.AuditEnabled.Set(true)
		defer config.AuditEnabled.Set(false)
		var batch []int
		var rec func()
		rec = func() {
			if len(batch) > 0 {
				what := fmt.Sprint("batch ", batch)
				t.Step(what)
				t.States++
				t.Traces++
				es := &esfake.Server{}
				es.Install()
				wg := &vsync.WaitGroup{}
				ctx, cancel := context.WithCancel(context.Background())
				a, err := audit.NewAuditor(wg)
				if err != nil {
					panic(err)
				}
				end := make(chan bool)
				go func() { a.StartSender(ctx); close(end) }()
				for _, i := range batch {
					a.Store(context.Background(), contents[i])
				}
				cancel()
				<-end
				var got []audit.Entry
				for _, b := range es.Take() {
					got = append(got, b...)
				}
				t.Trans += int64(len(got))
				for _, b := range es.Bad {
					t.Fail("malformed: "+what, fmt.Sprintf("malformed bulk request: %.300s", b), nil)
				}
				if len(got) != len(batch) {
					t.Fail("lost: "+what, fmt.Sprintf("%d of %d entries are sent", len(got), len(batch)), nil)
				} else {
					for k, i := range batch {
						g, w := got[k], contents[i]
						pre, suf, _ := strings.Cut(w.Queue, "::")
						if g.ID != w.ID || g.Queue != w.Queue || g.Signal != w.Signal || g.Reason != w.Reason || g.Breakpoint != w.Breakpoint || g.LockMs != w.LockMs || g.QueuePrefix != pre || g.QueueSuffix != suf || g.Timestamp.IsZero() {
							t.Fail("content: "+what, fmt.Sprintf("the entry is sent as %.300q", fmt.Sprint(g)), nil)
						}
					}
				}
				if len(t.Violations) >= 5 {
					return
				}
			}
			if len(batch) == n {
				return
			}
			for i := range contents {
				batch = append(batch, i)
				rec()
				batch = batch[:len(batch)-1]
			}
		}
		rec()
	}
}

func c21(tier string) []vx.Job {
	var jobs []vx.Job
	race := false
	add := func(c auditCase, bound, shards int) {
		for i := 0; i < shards; i++ {
			name := fmt.Sprint(c)
			if race {
				name += ", race detector"
			}
			if shards > 1 {
				name += fmt.Sprintf(" (%d/%d)", i+1, shards)
			}
			jobs = append(jobs, vx.Job{Name: name, Fn: auditSchedules(c, bound, i, shards), Race: race})
		}
	}
	x, sh := 0, 1
	if tier == "thorough" {
		x, sh = 1, 8
	}
	add(auditCase{storers: []int{2, 1}, stop: true}, 2+x, 3*sh)
	add(auditCase{storers: []int{2, 1}, stop: true, loose: true}, 2+x, 3*sh)
	add(auditCase{before: 1, storers: []int{1, 1}, stop: true, fail: 1}, 2+x, 2*sh)
	add(auditCase{before: 3, storers: []int{1, 1, 1}, stop: true, loose: true}, 1+x, sh)
	for _, n := range []int{batchMax - 2, batchMax - 1, batchMax, batchMax + 1} {
		add(auditCase{before: n, storers: []int{2, 1}, stop: true}, 1+x, 2*sh)
		add(auditCase{before: n, storers: []int{2}}, 1+x, sh)
	}
	add(auditCase{before: 2*batchMax - 1, storers: []int{1, 1}, stop: true, loose: true}, 1, 2*sh)
	add(auditCase{storers: []int{2, 1}}, 2+x, sh)
	add(auditCase{storers: []int{3}, idle: true}, 2+x, sh)
	add(auditCase{storers: []int{2, 2}, idle: true, stop: true}, 1+x, sh)
	add(auditCase{storers: []int{2, 2}, fail: 1, idle: true}, 1+x, sh)
	add(auditCase{before: 3, storers: []int{2, 1}, off: true, stop: true}, 2, 1)
	for _, n := range []string{"ttl", "unlock", "timeout", "max elements"} {
		jobs = append(jobs, vx.Job{Name: "program, " + n, Fn: func(t *vx.T) { auditMain(t, []string{n}, 1+x, 1) }})
	}
	if tier == "thorough" {
		jobs = append(jobs, vx.Job{Name: "program, unlock, ttl", Fn: func(t *vx.T) { auditMain(t, []string{"unlock", "ttl"}, 1, 2) }})
	}
	jobs = append(jobs, vx.Job{Name: "contents", Fn: auditContents(3 + x)})
	race = true
	add(auditCase{storers: []int{2, 1}, stop: true, loose: true}, 1+x, sh)
	add(auditCase{before: batchMax - 1, storers: []int{2}}, 1+x, sh)
	add(auditCase{storers: []int{2, 2}, fail: 1, idle: true}, 1+x, sh)
	jobs = append(jobs, vx.Job{Name: "program, unlock, race detector", Race: true, Fn: func(t *vx.T) { auditMain(t, []string{"unlock"}, x, 1) }})
	return jobs
}

const ruleC21 = "The real auditor's Store and StartSender (and the whole program with auditing enabled) run under a controlled scheduler that owns their channels, selects, timers, mutexes and wait groups; every bulk request and reply is a scheduling point of the Elasticsearch stand-in. All schedules of concurrent storers, the idle timer and a stop at any point that deviate from the default schedule at most the bounded number of times are run, with entry counts around one and two batches and failing requests; plus all batches of up to three kinds of entry contents."
