package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/storage"
	. "github.com/takenet/deckard/internal/verifx/model"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vsync"
	"github.com/takenet/deckard/internal/verifx/vx"
)

// C17: client calls and background tasks as threads that pause before every
// storage and cache operation (or every command Redis and MongoDB receive);
// every order of these steps is executed.

type thread struct {
	name  string
	run   func()
	wake  chan struct{}
	begun bool
	done  bool
	at    string // the step it is about to take
}

type sched struct {
	ths   []*thread
	cur   int // running thread, -1 for none
	ev    chan struct{}
	crash string
	timer *time.Timer
}

// park is called by (or for) the running thread.
func (s *sched) park(what string) {
	if s == nil || s.cur < 0 {
		return
	}
	th := s.ths[s.cur]
	th.at = what
	s.ev <- struct{}{}
	<-th.wake
}

type choice struct {
	opts []int
	i    int
}

// run executes the threads under the schedule that starts with prefix and goes
// on without preemption; it returns all choices made.
func (s *sched) run(prefix []int, bound int, trace func(th *thread)) (out []choice, ok bool) {
	s.ev = make(chan struct{}, 64)
	s.cur = -1
	last, pre := -1, 0
	for {
		var opts []int
		if last >= 0 && !s.ths[last].done {
			opts = append(opts, last)
		}
		if len(opts) == 0 || pre < bound {
			for i, th := range s.ths {
				if i != last && !th.done {
					opts = append(opts, i)
				}
			}
		}
		if len(opts) == 0 {
			return out, true
		}
		c := choice{opts: opts}
		if len(out) < len(prefix) {
			c.i = prefix[len(out)]
			if c.i >= len(opts) {
				c.i = len(opts) - 1
			}
		}
		out = append(out, c)
		next := opts[c.i]
		if last >= 0 && !s.ths[last].done && next != last {
			pre++
		}
		last = next
		th := s.ths[next]
		trace(th)
		s.cur = next
		if !th.begun {
			th.begun = true
			th.wake = make(chan struct{})
			go func() {
				defer func() {
					if p := recover(); p != nil {
						s.crash = fmt.Sprintf("%s panics: %v", th.name, p)
					}
					th.done = true
					s.ev <- struct{}{}
				}()
				th.run()
			}()
		} else {
			th.wake <- struct{}{}
		}
		if s.timer == nil {
			s.timer = time.NewTimer(30 * time.Second)
		} else {
			s.timer.Reset(30 * time.Second)
		}
		select {
		case <-s.ev:
			s.timer.Stop()
		case <-s.timer.C:
			s.crash = fmt.Sprintf("%s does not get on from %s", th.name, th.at)
			return out, false
		}
		s.cur = -1
		if s.crash != "" {
			return out, false
		}
	}
}

// stepLog is one completed engine operation.
type stepLog struct {
	th         int
	op         string
	ids        []string
	start, end int
}

type opLog struct {
	th         int
	op         Op
	start, end int
	got        []string
	ok         bool  // result of an ack or nack
	num        int64 // configured limit
	created    int64
	updated    int64
	err        error
}

type interRun struct {
	k     sut.Kind
	s     *sut.Sys
	sc    *sched
	clock int
	steps []stepLog
	ops   []*opLog
	trace []string
	armed bool
	open  map[int]*stepLog
	lost  bool
}

// now returns the running thread.
func (r *interRun) now() int {
	if th := vsync.Current(); th != nil {
		return th.Mark
	}
	return r.sc.cur
}

func (r *interRun) hook(pause bool) sut.Hook {
	return func(after bool, c sut.Call) error {
		if !r.armed {
			return nil
		}
		what := strings.TrimSpace(fmt.Sprintf("%s %s %s %s", c.Op, c.Key, c.Val, strings.Join(c.IDs, ",")))
		if !after {
			if pause {
				r.sc.park(what)
			}
			r.clock++
			r.open[r.now()] = &stepLog{th: r.now(), op: c.Op, ids: c.IDs, start: r.clock}
			return nil
		}
		r.clock++
		l := r.open[r.now()]
		l.end = r.clock
		r.steps = append(r.steps, *l)
		return nil
	}
}

// do runs one operation, asserting nothing.
func (r *interRun) do(th int, o Op) {
	r.clock++
	l := &opLog{th: th, op: o, start: r.clock, end: 1 << 30}
	r.ops = append(r.ops, l)
	svc, q := r.s.Svc[o.Inst], r.s.Q[o.Inst]
	switch o.K {
	case Add:
		req := &deckard.AddRequest{}
		for _, a := range o.Adds {
			p, s, m, d := Content(a.C)
			req.Messages = append(req.Messages, &deckard.AddMessage{Id: a.ID, Queue: a.Q, Score: a.Score, TtlMinutes: a.TTL, Timeless: a.Timeless, Payload: p, StringPayload: s, Metadata: m, Description: d})
		}
		resp, err := svc.Add(sut.Ctx, req)
		l.created, l.updated, l.err = resp.GetCreatedCount(), resp.GetUpdatedCount(), err
	case Pull:
		resp, err := svc.Pull(sut.Ctx, &deckard.PullRequest{Queue: o.Q, Amount: o.N, AckDeadlineMs: o.Deadline})
		l.err = err
		for _, m := range resp.GetMessages() {
			l.got = append(l.got, m.Id)
		}
	case Ack, Nack:
		req := &deckard.AckRequest{Id: o.IDs[0], Queue: o.Q, Breakpoint: o.BP, LockMs: o.Lock, RemoveMessage: o.Rm, Score: o.Score}
		if o.K == Ack {
			resp, err := svc.Ack(sut.Ctx, req)
			l.ok, l.err = resp.GetSuccess(), err
		} else {
			resp, err := svc.Nack(sut.Ctx, req)
			l.ok, l.err = resp.GetSuccess(), err
		}
	case Remove:
		_, l.err = svc.Remove(sut.Ctx, &deckard.RemoveRequest{Queue: o.Q, Ids: o.IDs})
	case Get:
		_, l.err = svc.GetById(sut.Ctx, &deckard.GetByIdRequest{Queue: o.Q, Id: o.IDs[0]})
	case Edit:
		_, l.err = svc.EditQueue(sut.Ctx, &deckard.EditQueueRequest{Queue: o.Q, Configuration: &deckard.QueueConfiguration{MaxElements: o.Limit}})
	case GetCfg:
		resp, err := svc.GetQueue(sut.Ctx, &deckard.GetQueueRequest{Queue: o.Q})
		l.num, l.err = resp.GetConfiguration().GetMaxElements(), err
	case Flush:
		_, l.err = svc.Flush(sut.Ctx, &deckard.FlushRequest{})
	case Timeout:
		l.err = queue.ProcessTimeoutMessages(sut.Ctx, q)
	case Unlock:
		queue.ProcessLockPool(sut.Ctx, q)
	case TTL:
		t := sut.Now()
		_, l.err = queue.RemoveTTLMessages(sut.Ctx, q, &t)
	case Exceed:
		_, l.err = queue.RemoveExceedingMessages(sut.Ctx, q)
	case Recover:
		queue.RecoveryMessagesPool(sut.Ctx, q)
	case Advance:
		sut.Advance(o.D)
	case Lose:
		r.s.LoseCache()
		r.lost = true
	case Vanish:
		r.s.Store.Remove(sut.Ctx, o.Q, o.IDs...)
	case Macro:
		for _, p := range o.Seq {
			r.do(th, p)
		}
	default:
		panic("no such operation here: " + o.String())
	}
	r.clock++
	l.end = r.clock
}

type interSetup struct {
	name string
	ops  []Op
	// rights of the ids at the start: deliverable at once, after a timeout
	// sweep, after an unlock sweep.
	now, afterTimeout, afterUnlock map[string]bool
	expired, stored                map[string]bool
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

func has(ids []string, id string) bool {
	for _, x := range ids {
		if x == id {
			return true
		}
	}
	return false
}

func removes(o Op) bool {
	switch o.K {
	case Remove:
		return true
	case Ack, Nack:
		return o.Rm
	}
	return false
}

// endedByAck tells whether it was an ack or nack that ended the processing the
// id was in at the start.
func (r *interRun) endedByAck(id string) bool {
	for _, l := range r.ops {
		if l.op.K != Ack && l.op.K != Nack || l.op.IDs[0] != id || !l.ok {
			continue
		}
		first := true
		for _, p := range r.ops {
			first = first && !(p.op.K == Pull && has(p.got, id) && p.start < l.end)
		}
		if first {
			return true
		}
	}
	return false
}

// judge checks the finished run and returns the signature and description of
// what is wrong.
func (r *interRun) judge(su *interSetup) (sig, bad string) {
	ids := map[string]bool{}
	for id := range su.stored {
		ids[id] = true
	}
	flushed, trims, recovers := false, false, false
	for _, l := range r.ops {
		if l.err != nil {
			return "error", fmt.Sprintf("%s fails: %v", l.op, l.err)
		}
		flushed = flushed || l.op.K == Flush && r.s.Memory()
		trims = trims || l.op.K == Exceed
		recovers = recovers || l.op.K == Recover
		for _, a := range l.op.Adds {
			ids[a.ID] = true
		}
	}
	adds := func(id string, f func(l *opLog) bool) bool {
		for _, l := range r.ops {
			for _, a := range l.op.Adds {
				if a.ID == id && f(l) {
					return true
				}
			}
		}
		return false
	}
	var names []string
	for id := range ids {
		names = append(names, id)
	}
	sort.Strings(names)
	for _, id := range names {
		// Deliveries against the rights to deliver.
		rights, got := 0, 0
		if su.now[id] || !su.stored[id] && !su.afterTimeout[id] && !su.afterUnlock[id] {
			rights++
		}
		gone, timedOut, unlocked := flushed, false, false
		for _, st := range r.steps {
			if has(st.ids, id) && (st.op == "storage.Remove" || st.op == "cache.Remove") {
				gone = true
			}
		}
		for _, l := range r.ops {
			switch l.op.K {
			case Ack, Nack:
				if l.op.IDs[0] == id && l.op.Lock == 0 && l.ok {
					rights++
				}
			case Timeout:
				timedOut = true
			case Unlock:
				unlocked = true
			case Add, Recover:
				if gone && (l.op.K == Recover || adds(id, func(m *opLog) bool { return m == l })) {
					rights++
				}
			case Pull:
				if has(l.got, id) {
					got++
				}
			}
		}
		// Only what was overdue or locked at the start can return by a sweep.
		if timedOut && su.afterTimeout[id] && !r.endedByAck(id) || unlocked && su.afterUnlock[id] {
			rights++
		}
		if got > rights {
			return "double", fmt.Sprintf("%q was delivered %d times although it became deliverable at most %d times", id, got, rights)
		}
		// Deliveries after a removal.
		for _, rm := range r.ops {
			is := removes(rm.op) && has(rm.op.IDs, id) || rm.op.K == Flush && r.s.Memory()
			if rm.op.K == TTL || rm.op.K == Exceed {
				for _, st := range r.steps {
					is = is || st.th == rm.th && st.op == "storage.Remove" && has(st.ids, id) && st.start > rm.start && st.end < rm.end
				}
			}
			if !is || adds(id, func(l *opLog) bool { return l.end > rm.start }) {
				continue
			}
			for _, p := range r.ops {
				if p.op.K == Pull && p.start > rm.end && has(p.got, id) {
					return "removed", fmt.Sprintf("%q was delivered by a pull that started after its removal (%s) had completed", id, rm.op)
				}
			}
		}
	}
	// What the storage still has must be deliverable after the sweeps.
	end := r.clock
	sut.Advance(2 * time.Hour)
	for i := 0; i < 2; i++ {
		for inst := range r.s.Q {
			if err := queue.ProcessTimeoutMessages(sut.Ctx, r.s.Q[inst]); err != nil {
				return "error", fmt.Sprint("timeout sweep fails: ", err)
			}
			queue.ProcessLockPool(sut.Ctx, r.s.Q[inst])
		}
	}
	if r.lost || recovers || flushed {
		for i := 0; queue.RecoveryMessagesPool(sut.Ctx, r.s.Q[i%len(r.s.Q)]); i++ {
			if i > 20 {
				return "recovery", "recovery does not stop"
			}
		}
	}
	found, err := r.s.Store.Find(sut.Ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: "q"}, Limit: 1000})
	if err != nil {
		return "error", fmt.Sprint("find fails: ", err)
	}
	stored := map[string]bool{}
	for _, m := range found {
		stored[m.ID] = true
	}
	resp, err := r.s.Svc[0].Pull(sut.Ctx, &deckard.PullRequest{Queue: "q", Amount: 1000, AckDeadlineMs: 600000})
	if err != nil {
		return "error", fmt.Sprint("pull fails: ", err)
	}
	seen := map[string]int{}
	for _, m := range resp.GetMessages() {
		seen[m.Id]++
	}
	for _, id := range names {
		if seen[id] > 1 {
			return "double", fmt.Sprintf("%q is in one pull twice", id)
		}
		if seen[id] > 0 && !stored[id] {
			return "removed", fmt.Sprintf("%q is delivered but not stored", id)
		}
		if stored[id] && seen[id] == 0 {
			return "lost" + r.readd(id, end, false), fmt.Sprintf("%q is stored but is not deliverable any more", id)
		}
		if stored[id] || flushed || trims {
			continue
		}
		// It was added and nobody was to remove it.
		for _, a := range r.ops {
			if !adds(id, func(l *opLog) bool { return l == a }) {
				continue
			}
			ok := true
			for _, rm := range r.ops {
				if removes(rm.op) && has(rm.op.IDs, id) && rm.end > a.start {
					ok = false
				}
			}
			for _, m := range a.op.Adds {
				ok = ok && (m.ID != id || m.TTL >= 600)
			}
			// An older content's expiry may have been re-added by another call.
			for _, b := range r.ops {
				if b != a && b.end > a.start {
					for _, m := range b.op.Adds {
						ok = ok && (m.ID != id || m.TTL >= 600)
					}
				}
			}
			if ok {
				return "gone" + r.readd(id, end, true), fmt.Sprintf("%q was added, has not expired and nobody removed it, but is not stored any more", id)
			}
		}
		if su.stored[id] && !su.expired[id] {
			ok := true
			for _, rm := range r.ops {
				ok = ok && !(removes(rm.op) && has(rm.op.IDs, id))
			}
			for _, b := range r.ops {
				for _, m := range b.op.Adds {
					ok = ok && (m.ID != id || m.TTL >= 600)
				}
			}
			if ok {
				return "gone", fmt.Sprintf("%q was stored and nobody removed it, but is not stored any more", id)
			}
		}
	}
	return "", ""
}

// readd describes the race that explains a loss, if it is one: the id was added
// again by one thread after another had looked it up (or removed it from the
// storage) and before that one removed it from the cache (or storage).
func (r *interRun) readd(id string, end int, fromStorage bool) string {
	last := "cache.Remove"
	if fromStorage {
		last = "storage.Remove"
	}
	for _, x := range r.steps {
		if x.op != last || !has(x.ids, id) {
			continue
		}
		var in *opLog
		for _, l := range r.ops {
			if l.th == x.th && l.op.K != Macro && l.start < x.start && x.end < l.end {
				in = l
			}
		}
		if in == nil {
			continue
		}
		first := 1 << 30
		for _, y := range r.steps {
			if y.th == x.th && y.start > in.start && y.end <= x.start && (y.op == "storage.Find" || y.op == "storage.Remove" && has(y.ids, id)) && (y.op != "storage.Find" || in.op.K == Pull || fromStorage) {
				first = min(first, y.start)
			}
		}
		for _, y := range r.steps {
			if y.th != x.th && y.op == "storage.Insert" && has(y.ids, id) && y.end > first && y.start < x.end {
				what := "remove"
				switch in.op.K {
				case TTL:
					what = "ttl sweep"
				case Exceed:
					what = "max-elements sweep"
				case Pull:
					what = "pull"
				}
				if fromStorage {
					return ": re-added between a " + what + "'s lookup and its removal"
				}
				return ": re-added between a " + what + "'s storage and cache steps"
			}
		}
	}
	return ""
}

// interSpec is what the runs of a case are about.
type interSpec struct {
	k     sut.Kind
	gran  string // where threads switch: operations, commands or locks
	bound int
	judge func(r *interRun, su *interSetup) (sig, bad string)
}

func (sp *interSpec) String() string { return fmt.Sprintf("%s@%s", sp.gran, sp.k) }

// interCase runs every schedule of the case.
func interCase(t *vx.T, sp *interSpec, su *interSetup, threads [][]Op) {
	k, bound, cmd := sp.k, sp.bound, sp.gran == "commands"
	var prefix []int
	name := su.name
	for _, th := range threads {
		name += " | "
		for i, o := range th {
			if i > 0 {
				name += ", "
			}
			name += o.String()
		}
	}
	t.Sample(name)
	for {
		t.Step(fmt.Sprint(k, name, prefix))
		r := &interRun{k: k, open: map[int]*stepLog{}}
		opt := sut.Hooked(r.hook(sp.gran == "operations"))
		opt.Instances = 2
		r.s = sut.New(k, opt)
		r.sc = &sched{cur: -1}
		for _, o := range su.ops {
			r.do(-1, o)
			r.trace = append(r.trace, "before: "+o.String())
		}
		r.ops, r.clock = nil, 0
		for i, ops := range threads {
			i, ops := i, ops
			r.sc.ths = append(r.sc.ths, &thread{name: fmt.Sprintf("thread %d", i+1), run: func() {
				for _, o := range ops {
					r.do(i, o)
				}
			}})
		}
		for i, th := range threads {
			s := ""
			for _, o := range th {
				s += " " + o.String()
			}
			r.trace = append(r.trace, fmt.Sprintf("thread %d:%s", i+1, s))
		}
		r.armed = true
		if cmd {
			if s := sut.Redis(k.Cache); s != nil {
				s.Gate = func(c string, keys []string) { r.sc.park(fmt.Sprintf("Redis %s %s", c, strings.Join(keys, ","))) }
			}
			if s := sut.Mongo(k.Store); s != nil {
				s.Gate = func(c string) { r.sc.park("MongoDB " + c) }
			}
		}
		var chs []choice
		var ok bool
		if sp.gran == "locks" {
			chs, ok = r.locks(prefix, bound)
		} else {
			chs, ok = r.sc.run(prefix, bound, func(th *thread) {
				at := th.at
				if !th.begun {
					at = "starts"
				}
				r.trace = append(r.trace, th.name+": "+at)
			})
		}
		if s := sut.Redis(k.Cache); s != nil {
			s.Gate = nil
		}
		if s := sut.Mongo(k.Store); s != nil {
			s.Gate = nil
		}
		r.armed = false
		sig, bad := "stuck", r.sc.crash
		if ok {
			for _, l := range r.ops {
				if len(l.got) > 0 {
					r.trace = append(r.trace, fmt.Sprintf("thread %d: %s delivered %q", l.th+1, l.op, l.got))
				}
			}
			sig, bad = sp.judge(r, su)
		}
		t.Traces++
		t.Trans += int64(len(chs))
		t.States++
		if bad != "" {
			t.Fail(sig, fmt.Sprintf("[%s] %s", k, bad), r.trace)
			if len(t.Violations) >= 5 || !ok {
				return
			}
		}
		// Next schedule.
		i := len(chs) - 1
		for i >= 0 && chs[i].i+1 >= len(chs[i].opts) {
			i--
		}
		if i < 0 {
			return
		}
		prefix = prefix[:0]
		for j := 0; j < i; j++ {
			prefix = append(prefix, chs[j].i)
		}
		prefix = append(prefix, chs[i].i+1)
		if t.Expired() {
			t.Truncate("time budget used up in " + name)
			return
		}
	}
}

// locks runs the threads with the code's mutexes as scheduling points.
func (r *interRun) locks(prefix []int, bound int) ([]choice, bool) {
	s := &vsync.Sched{}
	for i, th := range r.sc.ths {
		s.T = append(s.T, &vsync.Thread{Name: th.name, Mark: i, Run: th.run})
	}
	chs, bad := s.Run(prefix, bound)
	r.trace = append(r.trace, s.Trace...)
	r.sc.crash = bad
	out := make([]choice, len(chs))
	for i, c := range chs {
		out[i] = choice{c.Opts, c.I}
	}
	return out, bad == ""
}

func interSetups() []*interSetup {
	a, b := msg("q", "a", 10), msg("q", "b", 20)
	short := ttl(a, 1)
	long := func(o Op) Op { return deadline(o, 600000) }
	p1 := long(pull("q", 1))
	return []*interSetup{
		{name: "empty", ops: nil, now: set("")},
		{name: "queued", ops: []Op{add(a, b)}, now: set("a b"), stored: set("a b")},
		{name: "processing", ops: []Op{add(a, b), p1}, now: set("b"), stored: set("a b")},
		{name: "past deadline", ops: []Op{add(a, b), p1, pass(700000)}, now: set("b"), afterTimeout: set("a"), stored: set("a b")},
		{name: "ack-locked", ops: []Op{add(a, b), p1, lock(ack("q", "a"), 5000), pass(6000)}, now: set("b"), afterUnlock: set("a"), stored: set("a b")},
		{name: "nack-locked", ops: []Op{add(a, b), p1, score(lock(nack("q", "a"), 5000), 3), pass(6000)}, now: set("b"), afterUnlock: set("a"), stored: set("a b")},
		{name: "locked still", ops: []Op{add(a, b), p1, lock(nack("q", "a"), 500000), pass(6000)}, now: set("b"), stored: set("a b")},
		{name: "expired", ops: []Op{add(short, b), minutes(2)}, now: set("a b"), stored: set("a b"), expired: set("a")},
		{name: "expired processing", ops: []Op{add(short, b), p1, minutes(2)}, now: set("b"), stored: set("a b"), expired: set("a")},
		{name: "over limit", ops: []Op{add(a, timeless(b)), edit("q", 1)}, now: set("a b"), stored: set("a b")},
		{name: "cache lost", ops: []Op{add(a, b), p1, lose}, now: set("a b"), stored: set("a b")},
		{name: "left in cache", ops: []Op{add(a, b), vanish("q", "a")}, now: set("a b"), stored: set("b")},
		{name: "left in cache, locked", ops: []Op{add(a, b), p1, lock(ack("q", "a"), 5000), vanish("q", "a"), pass(6000)}, now: set("b"), afterUnlock: set("a"), stored: set("b")},
		{name: "left in cache, processing", ops: []Op{add(a, b), p1, vanish("q", "a"), pass(700000)}, now: set("b"), afterTimeout: set("a"), stored: set("b")},
	}
}

func interOps() [][]Op {
	a, b, c := msg("q", "a", 5), msg("q", "b", 20), msg("q", "c", 7)
	long := func(o Op) Op { return deadline(o, 600000) }
	p1, p2 := long(pull("q", 1)), long(pull("q", 2))
	return [][]Op{
		{add(a)}, {add(c, content(b, 2))}, {p1}, {p2}, {p1, p1}, {ack("q", "a")}, {lock(ack("q", "a"), 5000)}, {score(nack("q", "a"), 2)}, {lock(nack("q", "a"), 5000)},
		{remove("q", "a")}, {remove("q", "b", "a")}, {remove("q", "a"), p2}, {withRemove(ack("q", "a"))}, {withRemove(nack("q", "a")), p2}, {remove("q", "a"), add(a)}, {add(ttl(a, 1))},
		{p2, ack("q", "a"), ack("q", "b")}, {timeout}, {timeout, p2}, {unlock}, {unlock, p2}, {ttlOp}, {ttlOp, p2}, {exceed}, {exceed, p2}, {recov}, {on(1, recov)}, {recov, p2}, {get("q", "a")}, {edit("q", 1)}, {flush},
	}
}

func interJobs(tier string) []vx.Job {
	var jobs []vx.Job
	sus, ops := interSetups(), interOps()
	type conf struct {
		k        sut.Kind
		gran     string
		n, bound int
	}
	const steps, cmds = "operations", "commands"
	confs := []conf{{mem, steps, 2, 2}, {red, cmds, 2, 1}, {mon, cmds, 2, 1}}
	if tier == "thorough" {
		confs = []conf{{mem, steps, 2, 99}, {red, cmds, 2, 3}, {mon, cmds, 2, 3}, {rmo, cmds, 2, 2}, {clu, steps, 2, 2}, {mem, steps, 3, 2}}
	}
	for _, cf := range confs {
		for _, su := range sus {
			cf, su := cf, su
			sp := &interSpec{cf.k, cf.gran, cf.bound, (*interRun).judge}
			jobs = append(jobs, vx.Job{Name: fmt.Sprintf("%d threads, %s, %s", cf.n, su.name, sp), Fn: func(t *vx.T) {
				for i := range ops {
					for j := i; j < len(ops); j++ {
						if cf.n == 2 {
							interCase(t, sp, su, [][]Op{ops[i], ops[j]})
						} else {
							for l := j; l < len(ops); l++ {
								interCase(t, sp, su, [][]Op{ops[i], ops[j], ops[l]})
								if t.Expired() || len(t.Violations) >= 5 {
									return
								}
							}
						}
						if t.Expired() || len(t.Violations) >= 5 {
							return
						}
					}
				}
			}})
		}
	}
	return jobs
}
