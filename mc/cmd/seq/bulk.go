package main

import (
	"fmt"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
)

// Sweeps over more messages than they handle at once: every number of due
// messages around the batch limits, in two queues, among others not due.

type bulkRun struct {
	s     *sut.Sys
	trace []string
	bad   string
}

func (r *bulkRun) log(f string, a ...any) { r.trace = append(r.trace, fmt.Sprintf(f, a...)) }
func (r *bulkRun) fail(f string, a ...any) {
	if r.bad == "" {
		r.bad = fmt.Sprintf(f, a...)
	}
}

// add adds n messages with scores from base up.
func (r *bulkRun) add(q, prefix string, n int, base float64, ttl int64) {
	for i := 0; i < n; i += 2000 {
		req := &deckard.AddRequest{}
		for j := i; j < n && j < i+2000; j++ {
			req.Messages = append(req.Messages, &deckard.AddMessage{Id: fmt.Sprintf("%s%05d", prefix, j), Queue: q, Score: base + float64(j), TtlMinutes: ttl})
		}
		if resp, err := r.s.Svc[0].Add(sut.Ctx, req); err != nil || int(resp.CreatedCount) != len(req.Messages) {
			r.fail("adding %d messages to %q: %v %v", len(req.Messages), q, resp, err)
		}
	}
	r.log("%d messages %s* added to %q", n, prefix, q)
}

// pull takes everything available up to max messages.
func (r *bulkRun) pull(q string, max int, deadline int64) []*deckard.Message {
	var all []*deckard.Message
	for _, ms := range r.pulls(q, max, 1000, deadline) {
		all = append(all, ms...)
	}
	return all
}

// pulls does it with at most some at once.
func (r *bulkRun) pulls(q string, max, once int, deadline int64) (res [][]*deckard.Message) {
	var all []*deckard.Message
	for len(all) < max {
		n := max - len(all)
		if n > once {
			n = once
		}
		resp, err := r.s.Svc[0].Pull(sut.Ctx, &deckard.PullRequest{Queue: q, Amount: int32(n), AckDeadlineMs: deadline})
		if err != nil {
			r.fail("pull: %v", err)
			return res
		}
		if len(resp.GetMessages()) == 0 {
			break
		}
		all = append(all, resp.Messages...)
		res = append(res, resp.Messages)
	}
	r.log("pulls of %q deliver %d", q, len(all))
	return res
}

const unbounded = 1 << 20

// settle sweeps until nothing is due and judges every sweep: what[q] are the
// due messages with the score they must be released with.
func (r *bulkRun) settle(name string, limit int, sweep func(), due map[string]map[string]float64) {
	queues := []string{"q", "r"}
	for round := 0; r.bad == ""; round++ {
		left := 0
		for _, q := range queues {
			left += len(due[q])
		}
		sweep()
		r.log("%s", name)
		for _, q := range queues {
			// Every pull delivers the lowest scores.
			last, lastID := -1.0, ""
			n := 0
			want := min(len(due[q]), limit)
			for _, ms := range r.pulls(q, unbounded, 40, 3600000) {
				top, topID := last, lastID
				for _, m := range ms {
					sc, ok := due[q][m.Id]
					if !ok {
						r.fail("%s released %q of %q, which was not due", name, m.Id, q)
						return
					}
					if sc < last {
						r.fail("%s released %q of %q with the score %v, but it is delivered after %q with %v", name, m.Id, q, sc, lastID, last)
						return
					}
					if sc > top {
						top, topID = sc, m.Id
					}
					delete(due[q], m.Id)
					n++
				}
				last, lastID = top, topID
			}
			if n < want {
				r.fail("%s released %d messages of %q although %d were due", name, n, q, n+len(due[q]))
				return
			}
		}
		if left == 0 {
			return
		}
	}
}

func bulkTimeouts(k sut.Kind, n, n2, undue int) *bulkRun {
	r := &bulkRun{s: sut.New(k, sut.Options{})}
	r.add("q", "m", n+undue, 10, 10000)
	r.add("r", "m", n2, 10, 10000)
	due := map[string]map[string]float64{"q": {}, "r": {}}
	for q, c := range map[string]int{"q": n, "r": n2} {
		for _, m := range r.pull(q, c, 1000) {
			due[q][m.Id] = 0
		}
		if len(due[q]) != c {
			r.fail("only %d of %d messages delivered", len(due[q]), c)
		}
	}
	if undue > 0 {
		r.pull("q", unbounded, 1003)
	}
	sut.Advance(999 * time.Millisecond)
	sweep := func() { queue.ProcessTimeoutMessages(sut.Ctx, r.s.Q[0]) }
	r.settle("timeout sweep before the deadline", unbounded, sweep, map[string]map[string]float64{})
	sut.Advance(2 * time.Millisecond)
	r.settle("timeout sweep after the deadline", 1000, sweep, due)
	return r
}

func bulkUnlocks(k sut.Kind, n, n2 int) *bulkRun {
	r := &bulkRun{s: sut.New(k, sut.Options{})}
	r.add("q", "m", n, 10, 10000)
	r.add("r", "m", n2, 10, 10000)
	due, later := map[string]map[string]float64{"q": {}, "r": {}}, map[string]map[string]float64{"q": {}, "r": {}}
	for _, q := range []string{"q", "r"} {
		for i, m := range r.pull(q, unbounded, 3600000) {
			req := &deckard.AckRequest{Id: m.Id, Queue: q, LockMs: 700}
			into := due
			if i%10 == 9 {
				req.LockMs, into = 5000, later
			}
			if i%3 == 0 {
				req.Score = float64(5 + (i*7919)%1009)
			}
			f, sc := r.s.Svc[0].Ack, 1e15
			if i%4 == 1 {
				f, sc = r.s.Svc[0].Nack, 0
			}
			if req.Score != 0 {
				sc = req.Score
			}
			if resp, err := f(sut.Ctx, req); err != nil || !resp.Success {
				r.fail("lock: %v %v", resp, err)
				return r
			}
			into[q][m.Id] = sc
		}
	}
	r.log("all acked or nacked with locks")
	sweep := func() { queue.ProcessLockPool(sut.Ctx, r.s.Q[0]) }
	sut.Advance(699 * time.Millisecond)
	r.settle("unlock sweep before the end", unbounded, sweep, map[string]map[string]float64{})
	sut.Advance(2 * time.Millisecond)
	// At most a batch of each kind.
	r.settle("unlock sweep after the end", 1000, sweep, due)
	sut.Advance(5 * time.Second)
	r.settle("late unlock sweep", 1000, sweep, later)
	return r
}

func bulkTTL(k sut.Kind, n, n2, rest int) *bulkRun {
	r := &bulkRun{s: sut.New(k, sut.Options{})}
	r.add("q", "m", n, 10, 2)
	r.add("r", "m", n2, 10, 3)
	r.add("q", "k", rest, 5, 60)
	sut.Advance(10 * time.Minute)
	// A finished recovery allows the removal.
	for i := 0; i < 20 && queue.RecoveryMessagesPool(sut.Ctx, r.s.Q[0]); i++ {
	}
	left := n + n2
	count := func(q string) int {
		resp, err := r.s.Svc[0].Count(sut.Ctx, &deckard.CountRequest{Queue: q})
		if err != nil {
			r.fail("count: %v", err)
			return 0
		}
		return int(resp.Count)
	}
	for round := 0; left > 0 && r.bad == ""; round++ {
		now := dtime.Now()
		if _, err := queue.RemoveTTLMessages(sut.Ctx, r.s.Q[0], &now); err != nil {
			r.fail("ttl sweep: %v", err)
		}
		left -= min(left, 10000)
		r.log("ttl sweep: %d expired messages may be left", left)
		stored := 0
		far := now.AddDate(50, 0, 0)
		for _, q := range []string{"q", "r"} {
			ms, err := r.s.Store.Find(sut.Ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: q, ExpiryDate: &far}})
			if err != nil {
				r.fail("find: %v", err)
			}
			stored += len(ms)
		}
		if stored > left+rest {
			r.fail("after ttl sweep %d there are %d messages stored; %d unexpired, and at most %d expired ones may be left", round+1, stored, rest, left)
		}
	}
	if c := count("q"); c != rest {
		r.fail("%d messages are counted instead of the %d unexpired ones", c, rest)
	}
	if c := count("r"); c != 0 {
		r.fail("%d messages are counted instead of none", c)
	}
	got := r.pull("q", unbounded, 3600000)
	for _, m := range got {
		if m.Id[0] != 'k' {
			r.fail("expired %q was delivered after its removal", m.Id)
		}
	}
	if len(got) != rest {
		r.fail("%d of %d unexpired messages are deliverable", len(got), rest)
	}
	if x := len(r.pull("r", unbounded, 3600000)); x != 0 {
		r.fail("%d expired messages were delivered after their removal", x)
	}
	return r
}

type bulkCase struct {
	name string
	k    sut.Kind
	run  func() *bulkRun
}

func bulkJob(cases []bulkCase) []vx.Job {
	var jobs []vx.Job
	for _, c := range cases {
		jobs = append(jobs, vx.Job{Name: "many: " + c.name + "@" + c.k.String(), Fn: func(t *vx.T) {
			t.Step(c.name)
			r := c.run()
			t.Traces++
			t.States++
			t.Trans += int64(len(r.trace))
			t.Sample(fmt.Sprint(r.trace))
			if r.bad != "" {
				t.Fail("many: "+c.name+"@"+c.k.String(), fmt.Sprintf("[%s] %s", c.k, r.bad), r.trace)
			}
		}})
	}
	return jobs
}

func manyTimeouts(tier string) []vx.Job {
	var cs []bulkCase
	for _, k := range kinds(mem, red, clu) {
		for _, n := range [][3]int{{999, 1, 1}, {1000, 0, 2}, {1000, 1000, 0}, {1001, 999, 1}, {2001, 1205, 5}} {
			cs = append(cs, bulkCase{fmt.Sprintf("%d and %d overdue, %d not", n[0], n[1], n[2]), k, func() *bulkRun { return bulkTimeouts(k, n[0], n[1], n[2]) }})
		}
	}
	return bulkJob(cs)
}

func manyLocks(tier string) []vx.Job {
	var cs []bulkCase
	for _, k := range kinds(mem, red, clu) {
		for _, n := range [][2]int{{20, 1481}, {1205, 1333}, {1600, 41}, {3000, 10}} {
			cs = append(cs, bulkCase{fmt.Sprintf("%d and %d locked", n[0], n[1]), k, func() *bulkRun { return bulkUnlocks(k, n[0], n[1]) }})
		}
	}
	return bulkJob(cs)
}

func manyExpired(tier string) []vx.Job {
	var cs []bulkCase
	for _, k := range kinds(mem, red, mon) {
		for _, n := range [][3]int{{150, 101, 3}, {2001, 30, 1}, {9999, 0, 2}, {9000, 1000, 3}, {10000, 1, 0}, {10001, 2004, 3}} {
			if k != mem && n[0] > 9999 && tier != "thorough" {
				continue
			}
			cs = append(cs, bulkCase{fmt.Sprintf("%d and %d expired, %d not", n[0], n[1], n[2]), k, func() *bulkRun { return bulkTTL(k, n[0], n[1], n[2]) }})
		}
	}
	return bulkJob(cs)
}

// One queue the sweep cannot get on with must not hold up the others.
func faultySweep(name, op string, k sut.Kind, prepare func(r *bulkRun, q string), sweep func(s *sut.Sys), done func(r *bulkRun, q string) bool) []bulkCase {
	queues := []string{"q1", "q2", "q2::s", "q3"}
	var cs []bulkCase
	for _, bad := range queues {
		cs = append(cs, bulkCase{fmt.Sprintf("%s, %s of %q fails", name, op, bad), k, func() *bulkRun {
			broken := false
			r := &bulkRun{}
			r.s = sut.New(k, sut.Hooked(func(after bool, c sut.Call) error {
				if broken && !after && c.Op == op && c.Queue == bad {
					return fmt.Errorf("%s is broken", bad)
				}
				return nil
			}))
			for _, q := range queues {
				r.add(q, "m", 3, 10, 10000)
				prepare(r, q)
			}
			sut.Advance(20 * time.Minute)
			for i := 0; i < 20 && queue.RecoveryMessagesPool(sut.Ctx, r.s.Q[0]); i++ {
			}
			broken = true
			sweep(r.s)
			r.log("%s, while %s of %q fails", name, op, bad)
			for _, q := range queues {
				if q != bad && !done(r, q) {
					r.fail("%s does nothing for %q because %s of %q fails", name, q, op, bad)
				}
			}
			broken = false
			sweep(r.s)
			r.log("%s", name)
			if !done(r, bad) {
				r.fail("%s does nothing for %q, whose %s failed earlier", name, bad, op)
			}
			return r
		}})
	}
	return cs
}

func allDelivered(r *bulkRun, q string) bool { return len(r.pull(q, unbounded, 3600000)) == 3 }

func faultyTimeouts(tier string) []vx.Job {
	var cs []bulkCase
	for _, k := range kinds(mem, red, clu) {
		cs = append(cs, faultySweep("timeout sweep", "cache.TimeoutMessages", k, func(r *bulkRun, q string) { r.pull(q, 3, 1000) },
			func(s *sut.Sys) { queue.ProcessTimeoutMessages(sut.Ctx, s.Q[0]) }, allDelivered)...)
	}
	return bulkJob(cs)
}

func faultyUnlocks(tier string) []vx.Job {
	var cs []bulkCase
	for _, k := range kinds(mem, red, clu) {
		for _, nacks := range []bool{false, true} {
			name, f := "unlock sweep after acks", deckard.DeckardServer.Ack
			if nacks {
				name, f = "unlock sweep after nacks", deckard.DeckardServer.Nack
			}
			cs = append(cs, faultySweep(name, "cache.UnlockMessages", k, func(r *bulkRun, q string) {
				for _, m := range r.pull(q, 3, 3600000) {
					if resp, err := f(r.s.Svc[0], sut.Ctx, &deckard.AckRequest{Id: m.Id, Queue: q, LockMs: 700}); err != nil || !resp.Success {
						r.fail("lock: %v %v", resp, err)
					}
				}
			}, func(s *sut.Sys) { queue.ProcessLockPool(sut.Ctx, s.Q[0]) }, allDelivered)...)
		}
	}
	return bulkJob(cs)
}

func faultyTrims(tier string) []vx.Job {
	var cs []bulkCase
	for _, k := range kinds(mem, mon) {
		for _, op := range []string{"storage.Count", "storage.Find", "storage.Remove", "cache.Remove"} {
			cs = append(cs, faultySweep("max-elements sweep", op, k, func(r *bulkRun, q string) {
				if _, err := r.s.Svc[0].EditQueue(sut.Ctx, &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: 1}}); err != nil {
					r.fail("edit: %v", err)
				}
			}, func(s *sut.Sys) { queue.RemoveExceedingMessages(sut.Ctx, s.Q[0]) }, func(r *bulkRun, q string) bool {
				resp, err := r.s.Svc[0].Count(sut.Ctx, &deckard.CountRequest{Queue: q})
				return err == nil && resp.Count == 1
			})...)
		}
	}
	return bulkJob(cs)
}
