package main

import (
	"fmt"
	"sort"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
)

// C14 with message numbers around the recovery's batch size: losses between
// runs and at every engine operation inside the runs, with one further event.

type batchRun struct {
	s      *sut.Sys
	stored map[string]float64 // id -> stored score
	flight map[string]bool    // pulled since the last loss
	trace  []string
	nth    int // engine operation before which the cache is lost
	count  int
	armed  bool
	lostAt string
}

func (r *batchRun) hook(after bool, c sut.Call) error {
	if !r.armed || after {
		return nil
	}
	if r.count == r.nth {
		r.lostAt = c.Op + " " + c.Key
		r.trace = append(r.trace, "cache loses all data before "+r.lostAt)
		r.s.LoseCache()
		r.flight = map[string]bool{}
	}
	r.count++
	return nil
}

func (r *batchRun) log(f string, a ...any) { r.trace = append(r.trace, fmt.Sprintf(f, a...)) }

func (r *batchRun) addN(prefix string, n int, base float64) {
	for i := 0; i < n; i += 2000 {
		req := &deckard.AddRequest{}
		for j := i; j < n && j < i+2000; j++ {
			id := fmt.Sprintf("%s%05d", prefix, (j*7919)%10007)
			sc := base + float64((j*4801)%10009) // neither in the order of the additions nor of the ids
			req.Messages = append(req.Messages, &deckard.AddMessage{Id: id, Queue: "q", Score: sc, TtlMinutes: 10000})
			r.stored[id] = sc
		}
		if _, err := r.s.Svc[0].Add(sut.Ctx, req); err != nil {
			panic(err)
		}
	}
	r.log("%d messages added", n)
}

func (r *batchRun) pull(n int32) []*deckard.Message {
	resp, err := r.s.Svc[0].Pull(sut.Ctx, &deckard.PullRequest{Queue: "q", Amount: n, AckDeadlineMs: 3600000})
	if err != nil {
		panic(err)
	}
	for _, m := range resp.GetMessages() {
		r.flight[m.Id] = true
	}
	return resp.GetMessages()
}

var batchEvents = []string{"", "add", "pull", "remove", "other", "lose"}

func (r *batchRun) event(e string) {
	switch e {
	case "add":
		r.addN("zz", 3, 5)
	case "pull":
		r.log("pull of 3 delivers %d", len(r.pull(3)))
	case "remove":
		ids := make([]string, 0, len(r.stored))
		for id := range r.stored {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		if len(ids) > 2 {
			ids = []string{ids[0], ids[len(ids)-1]}
		}
		if len(ids) == 0 {
			return
		}
		if _, err := r.s.Svc[0].Remove(sut.Ctx, &deckard.RemoveRequest{Queue: "q", Ids: ids}); err != nil {
			panic(err)
		}
		for _, id := range ids {
			delete(r.stored, id)
		}
		r.log("%d messages removed", len(ids))
	case "other":
		r.log("other instance's recovery run: %v", queue.RecoveryMessagesPool(sut.Ctx, r.s.Q[1]))
	case "lose":
		r.s.LoseCache()
		r.flight = map[string]bool{}
		r.log("cache loses all data")
	}
}

// batch plays one case; it returns the number of engine operations of the
// recovery runs and what is wrong.
func batch(k sut.Kind, size int, ev string, at, nth int) (r *batchRun, bad string) {
	r = &batchRun{stored: map[string]float64{}, flight: map[string]bool{}, nth: nth}
	opt := sut.Hooked(r.hook)
	opt.Instances = 2
	r.s = sut.New(k, opt)
	r.addN("m", size, 10)
	r.event("lose")
	limit := size/4000 + 2
	if nth >= 0 || ev == "lose" {
		limit += size/4000 + 2
	}
	for i := 0; ; i++ {
		if i == at {
			r.event(ev)
		}
		r.armed = true
		more := queue.RecoveryMessagesPool(sut.Ctx, r.s.Q[0])
		r.armed = false
		r.log("recovery run: %v", more)
		if !more && i >= at {
			break
		}
		if i > limit+3 {
			return r, fmt.Sprintf("recovery of %d messages does not stop within %d runs", size, i)
		}
	}
	seen := map[string]bool{}
	last := -1.0
	for {
		ms := r.pull2()
		if len(ms) == 0 {
			break
		}
		for _, m := range ms {
			if seen[m.Id] {
				return r, fmt.Sprintf("%q was delivered twice", m.Id)
			}
			seen[m.Id] = true
			sc, ok := r.stored[m.Id]
			if !ok {
				return r, fmt.Sprintf("%q was delivered after its removal", m.Id)
			}
			if r.flight[m.Id] {
				return r, fmt.Sprintf("%q was delivered while being processed", m.Id)
			}
			if sc < last {
				return r, fmt.Sprintf("%q with stored score %v was delivered after a score of %v", m.Id, sc, last)
			}
			last = sc
		}
	}
	miss := 0
	ex := ""
	for id := range r.stored {
		if !seen[id] && !r.flight[id] {
			miss++
			if ex == "" || id < ex {
				ex = id
			}
		}
	}
	if miss > 0 {
		return r, fmt.Sprintf("after recovery %d of %d stored messages are not deliverable (e.g. %q)", miss, len(r.stored), ex)
	}
	return r, ""
}

// pull2 drains without marking.
func (r *batchRun) pull2() []*deckard.Message {
	resp, err := r.s.Svc[0].Pull(sut.Ctx, &deckard.PullRequest{Queue: "q", Amount: 1000, AckDeadlineMs: 3600000})
	if err != nil {
		panic(err)
	}
	return resp.GetMessages()
}

func batchJobs(tier string) []vx.Job {
	var jobs []vx.Job
	add := func(k sut.Kind, size int, events []string, inside bool) {
		jobs = append(jobs, vx.Job{Name: fmt.Sprintf("batches-%d@%s", size, k), Fn: func(t *vx.T) {
			one := func(ev string, at, nth int) *batchRun {
				t.Step(fmt.Sprint(k, size, ev, at, nth))
				r, bad := batch(k, size, ev, at, nth)
				t.Traces++
				t.States++
				t.Trans += int64(len(r.trace))
				if bad != "" {
					sig := fmt.Sprintf("batches %d %s@%s", size, ev, k)
					if r.lostAt != "" {
						sig = "loss inside recovery before " + r.lostAt
					}
					t.Fail(sig, fmt.Sprintf("[%s] %s", k, bad), r.trace)
				}
				return r
			}
			for _, ev := range events {
				runs := size/4000 + 2
				for at := 0; at < runs; at++ {
					if t.Expired() {
						t.Truncate("time budget used up")
						return
					}
					r := one(ev, at, -1)
					t.Sample(fmt.Sprint(r.trace))
					if !inside || ev == "lose" {
						continue
					}
					n := r.count
					for i := 0; i < n; i++ {
						one(ev, at, i)
					}
				}
			}
		}})
	}
	small := []int{0, 1, 2}
	if tier == "thorough" {
		for _, k := range kinds(mem, red, clu, mon, rmo) {
			for _, n := range []int{0, 1, 2, 7, 3999, 4000, 4001, 7999, 8000, 8001, 10000} {
				add(k, n, batchEvents, n < 10 || n == 4001 && k == mem)
			}
		}
		return jobs
	}
	for _, n := range small {
		for _, k := range kinds(mem, red, rmo) {
			add(k, n, batchEvents, true)
		}
	}
	for _, n := range []int{3999, 4000} {
		add(mem, n, []string{"", "add", "lose"}, false)
	}
	add(mem, 4001, []string{""}, true)
	add(mem, 8000, []string{"", "lose"}, false)
	add(mem, 8001, []string{""}, false)
	add(red, 4000, []string{""}, false)
	add(mon, 4001, []string{"", "remove"}, false)
	add(mon, 8000, []string{""}, false)
	add(clu, 4001, []string{"pull"}, false)
	return jobs
}
