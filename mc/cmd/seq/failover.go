package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/service"
	. "github.com/takenet/deckard/internal/verifx/model"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
)

// C26 without a primary: every subset of the pulled messages is missing on the
// secondary while the primary is away before the pull, goes away within it, is
// known to be away, or is not known yet because the program has just started.
// A pull may fail or deliver what it finds, but it discards nothing.
func failoverJobs(string) []vx.Job {
	var jobs []vx.Job
	ids := []string{"a", "b", "c"}
	for _, when := range []string{"before", "within", "known", "starting"} {
		for sub := 1; sub < 8; sub++ {
			when, sub := when, sub
			var lag []string
			for i, id := range ids {
				if sub>>i&1 == 1 {
					lag = append(lag, id)
				}
			}
			jobs = append(jobs, vx.Job{Name: fmt.Sprintf("no-primary, %s, %s", when, strings.Join(lag, "")), Fn: func(t *vx.T) { failover(t, when, ids, lag) }})
		}
	}
	return jobs
}

func failover(t *vx.T, when string, ids, lag []string) {
	m := sut.Mongo("replica")
	m.Params = "&serverSelectionTimeoutMS=900&heartbeatFrequencyMS=500"
	s := sut.New(rep, sut.Options{})
	trace := []string{fmt.Sprintf("missing on the secondary: %q; primary away: %s", lag, when)}
	fail := func(sig, f string, a ...any) {
		t.Fail("no-primary: "+sig, fmt.Sprintf(f, a...), trace)
	}
	step := func(f string, a ...any) {
		t.Step(fmt.Sprintf(f, a...))
		t.Trans++
		trace = append(trace, fmt.Sprintf(f, a...))
	}
	step("start")
	var req deckard.AddRequest
	for i, id := range ids {
		req.Messages = append(req.Messages, &deckard.AddMessage{Id: id, Queue: "q", Score: float64(10 + i), Timeless: true, StringPayload: "p" + id})
	}
	if _, err := s.Svc[0].Add(sut.Ctx, &req); err != nil {
		fail("add", "add fails: %v", err)
		return
	}
	hidden := map[string]bool{}
	for _, id := range lag {
		hidden[id] = true
	}
	Hide(m, "q", hidden)
	var got []string
	held := map[string]bool{}
	svc := s.Svc[0]
	pull := func() error {
		r, err := svc.Pull(sut.Ctx, &deckard.PullRequest{Queue: "q", Amount: 5, AckDeadlineMs: 60000})
		got = nil
		for _, x := range r.GetMessages() {
			got = append(got, x.Id)
			if held[x.Id] {
				fail("double", "%q was delivered twice", x.Id)
			}
			held[x.Id] = true
			if x.StringPayload != "p"+x.Id {
				fail("content", "%q has payload %q", x.Id, x.StringPayload)
			}
		}
		sort.Strings(got)
		trace = append(trace, fmt.Sprintf("pull: %q %v", got, err))
		return err
	}
	switch when {
	case "before":
		m.StepDown(true)
	case "known":
		m.StepDown(true)
		time.Sleep(1200 * time.Millisecond)
	case "within":
		finds := 0
		m.OnCommand = func(cmd, ns string, node int) {
			if cmd == "find" {
				if finds++; finds == 1 {
					m.StepDownLocked()
				}
			}
		}
	case "starting":
		m.Slow(400 * time.Millisecond)
		st, err := sut.MongoClient("replica")
		if err != nil {
			fail("connect", "connecting fails: %v", err)
			return
		}
		cfg := queue.NewQueueConfigurationService(sut.Ctx, st)
		svc = service.NewDeckardInstance(queue.NewQueue(s.Aud, st, cfg, s.Cache), cfg, false)
	}
	step("pull while the primary is away")
	err := pull()
	m.OnCommand = nil
	if err == nil && when == "starting" && len(got) != len(ids) {
		fail("incomplete", "pull delivers %q only although the primary has all", got)
	}
	for _, e := range s.Aud.Take() {
		if e.Signal == audit.MISSING_STORAGE {
			fail("drop", "pull discards %q, which the primary has", e.ID)
		}
	}
	step("the primary is back")
	m.StepDown(false)
	m.Slow(0)
	for i := 0; ; i++ {
		if _, err := svc.Count(sut.Ctx, &deckard.CountRequest{Queue: "q"}); err == nil {
			if r, err := svc.GetById(sut.Ctx, &deckard.GetByIdRequest{Queue: "q", Id: "a"}); err == nil && r != nil {
				break
			}
		}
		if i > 100 {
			fail("back", "reads fail although the primary is back")
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	sut.Advance(2 * time.Minute)
	held = map[string]bool{}
	step("timeout sweep")
	if err := queue.ProcessTimeoutMessages(sut.Ctx, s.Q[0]); err != nil {
		fail("timeout", "the timeout sweep fails: %v", err)
	}
	var all []string
	for i := 0; i < 60; i++ {
		step("pull")
		if pull() == nil {
			all = append(all, got...)
			if len(got) == 0 {
				break
			}
			continue
		}
		// The driver has not found the primary again yet.
		time.Sleep(200 * time.Millisecond)
		sut.Advance(2 * time.Minute)
		held = map[string]bool{}
		all = nil
		queue.ProcessTimeoutMessages(sut.Ctx, s.Q[0])
	}
	sort.Strings(all)
	if strings.Join(all, " ") != strings.Join(ids, " ") {
		fail("lost", "stored are %q, but delivered are only %q", ids, all)
	}
	t.States++
	t.Traces++
	t.Sample(strings.Join(trace, "; "))
}
