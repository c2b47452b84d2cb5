package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	. "github.com/takenet/deckard/internal/verifx/model"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
)

// C15: one fault at every engine operation (or engine command) of every short
// history, in every mode.

type faultMode int

const (
	failBefore faultMode = iota // the operation is not executed and fails
	failAfter                   // it is executed, but reports failure
	stopAfter                   // the process stops right after it
	failCall                    // it and everything after it in the same call fail (a cancelled call)
	failEngine                  // it and every later operation of the same engine fail until the history ends
	dropBefore                  // the connection breaks before it (commands of Redis only)
	dropAfter                   // the connection breaks after it
	faultModes
)

func (m faultMode) String() string {
	return [...]string{"fails without effect", "fails after taking effect", "is followed by a process stop", "fails with all that follow in the call", "fails with all that follow on this engine", "is not received, the connection breaks", "is not answered, the connection breaks"}[m]
}

// injector fails the at-th step.
type injector struct {
	armed   bool
	n, at   int
	mode    faultMode
	stopped bool
	down    bool     // a lasting failure has begun
	fails   int      // steps failed
	steps   []string // all steps of a run without fault
	hit     string   // the step hit
	before  []string // steps of the running operation before its first failure
	first   string   // its first failure
}

// ask returns "", "before" or "after".
func (j *injector) ask(what string) string {
	if !j.armed {
		return ""
	}
	if j.stopped {
		return "before"
	}
	if j.down && (j.mode == failCall || engineOf(what) == engineOf(j.hit)) {
		j.failed(what)
		return "before"
	}
	i := j.n
	j.n++
	if j.at < 0 {
		j.steps = append(j.steps, what)
	}
	if i != j.at {
		if j.first == "" {
			j.before = append(j.before, what)
		}
		return ""
	}
	j.hit = what
	j.failed(what)
	switch j.mode {
	case failCall, failEngine:
		j.down = true
		return "before"
	case failBefore:
		return "before"
	case dropBefore:
		return "drop-before"
	case dropAfter:
		return "drop-after"
	case failAfter:
		return "after"
	}
	j.stopped = true
	return "after"
}

func (j *injector) failed(what string) {
	j.fails++
	if j.first == "" {
		j.first = what
	}
}

// engineOf names the engine of a step.
func engineOf(what string) string {
	return what[:strings.IndexAny(what, ". ")]
}

var errInjected = errors.New("injected failure")

// hook injects at the engine interfaces.
func (j *injector) hook() sut.Hook {
	late := false
	return func(after bool, c sut.Call) error {
		if !after {
			late = false
			switch j.ask(fmt.Sprintf("%s(%q %q %s)", c.Op, c.Queue, c.IDs, c.Key)) {
			case "before":
				if j.down && j.mode == failCall {
					return context.Canceled
				}
				return errInjected
			case "after":
				late = true
			}
			return nil
		}
		if late {
			late = false
			return errInjected
		}
		return nil
	}
}

type truth int

const (
	absent truth = iota // must not be delivered
	maybe
	present // must be deliverable
)

type fact struct {
	t    truth
	c    map[int]bool
	held bool
}

type faultRun struct {
	k     sut.Kind
	s     *sut.Sys
	j     *injector
	facts map[Key]*fact
	cfg   map[int64]bool
	trace []string
	bad   string
	tag   string
	// lastAt is the number of the last operation's first step.
	lastAt int
	ttl1   map[Key]bool // messages with the short ttl
}

func (r *faultRun) f(q, id string) *fact {
	k := Key{q, id}
	if r.facts[k] == nil {
		r.facts[k] = &fact{c: map[int]bool{}}
	}
	return r.facts[k]
}

func (r *faultRun) fail(tag, format string, a ...any) {
	if r.bad == "" {
		r.tag, r.bad = tag, fmt.Sprintf(format, a...)
	}
}

func (r *faultRun) weaken(q, id string) {
	if f := r.facts[Key{q, id}]; f != nil && f.t == present {
		f.t = maybe
	}
}

func (r *faultRun) message(op string, m *deckard.Message) {
	f := r.facts[Key{m.Queue, m.Id}]
	if f == nil {
		r.fail("unknown", "%s returned %q/%q, which was never added", op, m.Queue, m.Id)
		return
	}
	if f.t == absent {
		r.fail("removed", "%s returned %q/%q after its removal was acknowledged", op, m.Queue, m.Id)
		return
	}
	got := show(m)
	for c := range f.c {
		if got == showC(c) {
			return
		}
	}
	r.fail("content", "%s returned %q/%q with content {%s}", op, m.Queue, m.Id, got)
}

func showC(c int) string {
	p, s, m, _ := Content(c)
	return show(&deckard.Message{Payload: p, StringPayload: s, Metadata: m})
}

func show(m *deckard.Message) string {
	var r []string
	for k, v := range m.Payload {
		r = append(r, fmt.Sprintf("%q=%s:%x", k, v.GetTypeUrl(), v.GetValue()))
	}
	for k, v := range m.Metadata {
		r = append(r, fmt.Sprintf("%q:%q", k, v))
	}
	sort.Strings(r)
	return fmt.Sprintf("%q %s", m.StringPayload, strings.Join(r, " "))
}

// do runs one operation; hit tells whether the fault struck in it.
func (r *faultRun) do(o Op) (hit bool) {
	fails := r.j.fails
	r.j.before, r.j.first = nil, ""
	svc, q := r.s.Svc[0], r.s.Q[0]
	var err error
	reports := r.j.mode < dropBefore // the operation has a way to report failure (the driver repeats after a broken connection)
	var post func(ok bool)
	out := ""
	switch o.K {
	case Add:
		req := &deckard.AddRequest{}
		for _, a := range o.Adds {
			p, s, m, d := Content(a.C)
			req.Messages = append(req.Messages, &deckard.AddMessage{Id: a.ID, Queue: a.Q, Score: a.Score, TtlMinutes: a.TTL, Timeless: a.Timeless, Payload: p, StringPayload: s, Metadata: m, Description: d})
		}
		_, err = svc.Add(sut.Ctx, req)
		post = func(ok bool) {
			for _, a := range o.Adds {
				f := r.f(a.Q, a.ID)
				if ok {
					f.t = present
					f.c = map[int]bool{a.C: true}
				} else {
					if f.t == absent {
						f.t = maybe
						f.c = map[int]bool{}
					}
					f.c[a.C] = true
				}
				r.ttl1[Key{a.Q, a.ID}] = a.TTL == 1
			}
		}
	case Pull:
		var resp *deckard.PullResponse
		resp, err = svc.Pull(sut.Ctx, &deckard.PullRequest{Queue: o.Q, Amount: o.N, AckDeadlineMs: o.Deadline})
		// Cleaning up what storage does not have is best effort.
		for _, s := range r.j.before {
			if strings.HasPrefix(s, "storage.Find") || strings.HasPrefix(s, "MongoDB find") {
				reports = reports && !strings.HasPrefix(r.j.first, "cache.Remove") && !strings.HasPrefix(r.j.first, "Redis")
			}
		}
		for _, m := range resp.GetMessages() {
			r.message("pull", m)
			f := r.f(m.Queue, m.Id)
			if f.held {
				r.fail("double", "pull delivered %q/%q while another consumer is processing it", m.Queue, m.Id)
			}
			f.held = true
			out += m.Id + " "
		}
	case Ack, Nack:
		req := &deckard.AckRequest{Id: o.IDs[0], Queue: o.Q, Breakpoint: o.BP, LockMs: o.Lock, RemoveMessage: o.Rm, Score: o.Score}
		r.f(o.Q, o.IDs[0]).held = false
		if o.K == Ack {
			_, err = svc.Ack(sut.Ctx, req)
		} else {
			_, err = svc.Nack(sut.Ctx, req)
		}
		if o.Rm {
			post = func(ok bool) {
				if ok {
					r.f(o.Q, o.IDs[0]).t = absent
				} else {
					r.weaken(o.Q, o.IDs[0])
				}
			}
		}
	case Remove:
		_, err = svc.Remove(sut.Ctx, &deckard.RemoveRequest{Queue: o.Q, Ids: o.IDs})
		post = func(ok bool) {
			for _, id := range o.IDs {
				r.f(o.Q, id).held = false
				if ok {
					r.f(o.Q, id).t = absent
				} else {
					r.weaken(o.Q, id)
				}
			}
		}
	case Get:
		var resp *deckard.GetByIdResponse
		resp, err = svc.GetById(sut.Ctx, &deckard.GetByIdRequest{Queue: o.Q, Id: o.IDs[0]})
		if err == nil && resp.Found {
			r.message("get by id", resp.Message)
		} else if err == nil && r.f(o.Q, o.IDs[0]).t == present {
			r.fail("lost", "get by id does not find %q/%q", o.Q, o.IDs[0])
		}
	case Count:
		_, err = svc.Count(sut.Ctx, &deckard.CountRequest{Queue: o.Q})
	case Edit:
		_, err = svc.EditQueue(sut.Ctx, &deckard.EditQueueRequest{Queue: o.Q, Configuration: &deckard.QueueConfiguration{MaxElements: o.Limit}})
		post = func(ok bool) {
			if ok {
				r.cfg = map[int64]bool{}
			}
			r.cfg[o.Limit] = true
		}
	case GetCfg:
		_, err = svc.GetQueue(sut.Ctx, &deckard.GetQueueRequest{Queue: o.Q})
	case Timeout:
		err = queue.ProcessTimeoutMessages(sut.Ctx, q)
		reports = false
		for _, f := range r.facts {
			f.held = false
		}
	case Unlock:
		queue.ProcessLockPool(sut.Ctx, q)
		reports = false
	case TTL:
		t := sut.Now()
		_, err = queue.RemoveTTLMessages(sut.Ctx, q, &t)
		reports = false
		for k := range r.facts {
			if r.ttl1[k] {
				r.weaken(k.Q, k.ID)
			}
		}
	case Exceed:
		queue.RemoveExceedingMessages(sut.Ctx, q)
		reports = false
		// Only the queue "t" has a limit; only its soonest-expiring may go.
		n := 0
		for k, f := range r.facts {
			if k.Q == "t" && f.t != absent {
				n++
			}
		}
		if n > 1 {
			r.weaken("t", "x")
		}
	case Recover:
		queue.RecoveryMessagesPool(sut.Ctx, q)
		reports = false
	case Advance:
		sut.Advance(o.D)
		reports = false
	case Lose:
		r.s.LoseCache()
		for _, f := range r.facts {
			f.held = false
		}
		reports = false
	default:
		panic("no such operation here: " + o.String())
	}
	hit = r.j.fails != fails
	if r.j.mode == failCall {
		r.j.down = false
	}
	stopped := r.j.stopped
	res := "ok"
	if err != nil {
		res = "error: " + err.Error()
	}
	if stopped && hit {
		res = "process stopped"
	}
	line := o.String() + " -> " + out + res
	if hit {
		line += fmt.Sprintf("   [step %s %s]", r.j.hit, r.j.mode)
	}
	r.trace = append(r.trace, line)
	if hit && !stopped && reports && err == nil {
		r.fail("unreported", "%s reports success although %s %s", o, r.j.hit, r.j.mode)
	}
	if !hit && err != nil {
		r.fail("error", "%s fails without a fault: %v", o, err)
	}
	if post != nil {
		post(err == nil && !(stopped && hit))
	}
	if stopped {
		r.j.stopped = false
		r.j.armed = false
		r.s.Restart()
		r.j.armed = true
	}
	return hit
}

// settle lets every background task do its work and checks everything.
func (r *faultRun) settle() {
	r.j.armed = false
	svc, q := r.s.Svc[0], r.s.Q[0]
	sut.Advance(2 * time.Hour)
	for k, f := range r.facts {
		if r.ttl1[k] && f.t == present {
			f.t = maybe
		}
	}
	i := 0
	for queue.RecoveryMessagesPool(sut.Ctx, q) {
		if i++; i > 20 {
			r.fail("recovery", "recovery does not finish")
			return
		}
	}
	if err := queue.ProcessTimeoutMessages(sut.Ctx, q); err != nil {
		r.fail("error", "timeout sweep fails: %v", err)
	}
	queue.ProcessLockPool(sut.Ctx, q)
	seen := map[Key]int{}
	for _, qn := range []string{"q", "r", "t"} {
		for i := 0; i < 3; i++ {
			resp, err := svc.Pull(sut.Ctx, &deckard.PullRequest{Queue: qn, Amount: 1000, AckDeadlineMs: 3600000})
			if err != nil {
				r.fail("error", "pull fails: %v", err)
			}
			for _, m := range resp.GetMessages() {
				r.message("pull", m)
				seen[Key{m.Queue, m.Id}]++
			}
		}
	}
	ks := make([]Key, 0, len(r.facts))
	for k := range r.facts {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Q+ks[i].ID < ks[j].Q+ks[j].ID })
	for _, k := range ks {
		f := r.facts[k]
		if seen[k] > 1 {
			r.fail("double", "%q/%q was delivered %d times", k.Q, k.ID, seen[k])
		}
		if f.t == present && seen[k] == 0 {
			r.fail("lost", "%q/%q was added and not removed, but is not deliverable any more", k.Q, k.ID)
		}
		resp, err := svc.GetById(sut.Ctx, &deckard.GetByIdRequest{Queue: k.Q, Id: k.ID})
		if err != nil {
			r.fail("error", "get by id fails: %v", err)
			continue
		}
		if resp.Found {
			r.message("get by id", resp.Message)
		} else if f.t == present {
			r.fail("lost", "%q/%q was added and not removed, but is not stored any more", k.Q, k.ID)
		}
	}
	if len(r.cfg) > 0 {
		resp, err := svc.GetQueue(sut.Ctx, &deckard.GetQueueRequest{Queue: "t"})
		if err != nil || resp.Configuration == nil || !r.cfg[resp.Configuration.MaxElements] {
			r.fail("config", "queue configuration is %v %v, requested were %v", resp, err, r.cfg)
		}
	}
	// The background tasks are in working order: an expired message goes.
	if _, err := svc.Add(sut.Ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "\x01late", Queue: "q", TtlMinutes: 1}}}); err != nil {
		r.fail("error", "add fails: %v", err)
	}
	sut.Advance(time.Hour)
	t := sut.Now()
	_, err := queue.RemoveTTLMessages(sut.Ctx, q, &t)
	resp, err2 := svc.GetById(sut.Ctx, &deckard.GetByIdRequest{Queue: "q", Id: "\x01late"})
	if err != nil || err2 != nil || resp.Found {
		r.fail("stuck-tasks", "the ttl sweep does not remove an expired message any more (%v %v)", err, err2)
	}
}

type faultCase struct {
	hist  []Op
	at    int
	mode  faultMode
	retry bool
	lose  bool
	cmd   bool
}

func (c faultCase) run(k sut.Kind, setup []Op) *faultRun {
	j := &injector{at: c.at, mode: c.mode}
	opt := sut.Options{}
	if !c.cmd {
		opt = sut.Hooked(j.hook())
	}
	r := &faultRun{k: k, j: j, facts: map[Key]*fact{}, cfg: map[int64]bool{}, ttl1: map[Key]bool{}}
	r.s = sut.New(k, opt)
	if c.cmd {
		if s := sut.Redis(k.Cache); s != nil {
			s.Fault = func(cmd string, keys []string) string { return j.ask("Redis " + cmd + fmt.Sprintf(" %q", keys)) }
			defer func() { s.Fault = nil }()
		}
		if s := sut.Mongo(k.Store); s != nil {
			s.Fault = func(cmd string) string { return j.ask("MongoDB " + cmd) }
			defer func() { s.Fault = nil }()
		}
	}
	for _, o := range setup {
		r.do(o)
	}
	j.armed = true
	for _, o := range c.hist {
		r.lastAt = j.n
		if hit := r.do(o); hit && c.retry && o.K != Lose && o.K != Advance {
			r.do(o)
		}
	}
	if c.lose {
		j.armed = false
		r.s.LoseCache()
		r.trace = append(r.trace, "cache loses all data")
		for _, f := range r.facts {
			f.held = false
		}
	}
	r.settle()
	return r
}

func faultJobs(tier string) []vx.Job {
	a, b := msg("q", "a", 10), msg("q", "b", 20)
	setup := []Op{add(a, b, ttl(msg("t", "x", 5), 4000), msg("t", "y", 6), ttl(msg("r", "e", 1), 1)), edit("t", 1), {K: Pull, Q: "q", N: 1, Deadline: 600000}}
	ops := []Op{
		add(content(a, 2), msg("r", "c", 3)), add(msg("q", "d", 4)), {K: Pull, Q: "q", N: 2, Deadline: 600000}, ack("q", "a"), nack("q", "a"), lock(ack("q", "a"), lk), score(lock(nack("q", "a"), lk), 7),
		withRemove(ack("q", "a")), withRemove(nack("q", "b")), remove("q", "b", "a"), vanishPull, timeout, unlock, ttlOp, exceed, recov, lose, edit("t", 2), cfg("t"), count("q"), get("q", "a"), pass(700000),
	}
	var jobs []vx.Job
	type conf struct {
		k     sut.Kind
		cmd   bool
		depth int
		last  bool // faults in the last operation only
	}
	confs := []conf{{mem, false, 2, false}, {red, false, 2, true}, {rmo, false, 1, false}, {rmo, true, 2, true}, {cre, true, 1, false}, {clu, true, 1, false}}
	if tier == "thorough" {
		confs = []conf{{mem, false, 3, false}, {red, false, 2, false}, {rmo, false, 2, false}, {rmo, true, 3, true}, {cre, true, 2, false}, {clu, true, 2, false}}
	}
	for _, k := range []sut.Kind{mem, red, rmo} {
		k := k
		jobs = append(jobs, vx.Job{Name: "faults-empty@" + k.String(), Fn: func(t *vx.T) {
			ops := []Op{recov, add(b), lose, ttlOp, remove("q", "b")}
			depth := 2
			if k == mem || tier == "thorough" {
				depth = 3
			}
			var rec func(h []Op)
			rec = func(h []Op) {
				if len(h) > 0 {
					faultHistory(t, k, false, false, nil, h)
				}
				if len(h) < depth {
					for _, o := range ops {
						rec(append(append([]Op{}, h...), o))
					}
				}
			}
			rec(nil)
		}})
	}
	for _, cf := range confs {
		cf := cf
		// One job per first operation, to spread the work.
		for first := range ops {
			first := first
			kind := "operations"
			if cf.cmd {
				kind = "commands"
			}
			jobs = append(jobs, vx.Job{Name: fmt.Sprintf("faults-%s-%02d@%s", kind, first, cf.k), Fn: func(t *vx.T) {
				var rec func(h []Op)
				rec = func(h []Op) {
					if t.Expired() {
						return
					}
					faultHistory(t, cf.k, cf.cmd, cf.last, setup, h)
					if len(h) < cf.depth {
						for _, o := range ops {
							rec(append(append([]Op{}, h...), o))
						}
					}
				}
				rec([]Op{ops[first]})
				if t.Expired() {
					t.Truncate("time budget used up")
				}
			}})
		}
	}
	return jobs
}

// vanishPull asks for more than there is.
var vanishPull = Op{K: Pull, Q: "r", N: 5, Deadline: 600000}

func faultHistory(t *vx.T, k sut.Kind, cmd, last bool, setup, h []Op) {
	name := ""
	for _, o := range h {
		name += o.String() + "; "
	}
	n, skip := 1, 0
	var steps []string
	for at := -1; at < n; at++ {
		if last && at >= 0 && at < skip {
			continue
		}
		for mode := faultMode(0); mode < faultModes; mode++ {
			for v := 0; v < 3; v++ {
				c := faultCase{hist: h, at: at, mode: mode, retry: v&1 == 1, lose: v&2 == 2, cmd: cmd}
				if at < 0 && (mode > 0 || c.retry) {
					continue
				}
				if mode >= dropBefore && (at >= len(steps) || !strings.HasPrefix(steps[at], "Redis") || c.retry) {
					continue
				}
				if mode == failEngine && c.retry || mode == failCall && c.lose {
					continue
				}
				t.Step(fmt.Sprint(k, name, c.at, c.mode, c.retry, c.lose))
				r := c.run(k, setup)
				t.Traces++
				t.Trans += int64(len(r.trace))
				t.States++
				if at < 0 && r.j.n > n {
					n, skip, steps = r.j.n, r.lastAt, r.j.steps
				}
				if at < 0 {
					t.Sample(name)
				}
				if r.bad != "" {
					step := r.j.hit
					t.Fail(fmt.Sprintf("%s: %s %s", r.tag, strings.SplitN(step, "(", 2)[0], mode), fmt.Sprintf("[%s] %s", k, r.bad), r.trace)
					if len(t.Violations) >= 5 {
						return
					}
				}
			}
		}
	}
}
