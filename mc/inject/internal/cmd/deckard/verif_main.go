package main

// Decides C21 and C22: the program's own main function, housekeeping scheduler,
// shutdown and audit sender run under a controlled scheduler.

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vhook"
	"github.com/takenet/deckard/internal/verifx/vsync"
	"github.com/takenet/deckard/internal/verifx/vx"
	"go.uber.org/zap"
)

func init() {
	os.Setenv("DECKARD_GRPC_ENABLED", "false")
	sut.Setup()
	config.MetricsEnabled.Set(false)
	config.GrpcEnabled.Set(false)
	config.AuditEnabled.Set(false)
	zap.ReplaceGlobals(zap.NewNop())
	// Not on the locked thread of package initialization.
	done := make(chan bool)
	go func() {
		decide()
		close(done)
	}()
	<-done
	os.Exit(0)
}

func decide() {
	if len(os.Args) > 1 && os.Args[1] == "-worker" {
		runtime.GOMAXPROCS(1)
	}
	vx.Main(map[string]*vx.Check{
		"C03": {Jobs: wholeJobs(wholeC03)},
		"C05": {Jobs: wholeJobs(wholeC05)},
		"C11": {Jobs: wholeJobs(wholeC11)},
		"C12": {Jobs: wholeJobs(wholeC12)},
		"C14": {Jobs: wholeJobs(wholeC14)},
		"C19": {Jobs: wholeJobs(wholeC19)},
		"C25": {Jobs: wholeJobs(wholeC25)},
		"C21": {Jobs: c21, Rule: ruleC21, Quick: 100 * time.Second, Thorough: 12 * time.Minute, Assumptions: assume},
		"C22": {Jobs: c22, Rule: ruleC22, Quick: 110 * time.Second, Thorough: 12 * time.Minute, Assumptions: assume},
	})
}

var assume = []string{
	"Threads switch at channel operations, go statements' first steps, wait groups, mutexes, atomics and engine operations; an in-memory engine operation is one step.",
	"Time passes only when a timer somebody waits for fires; any running thread may be slower than any timer (within the bound).",
	"OpenTelemetry and go-cache are replaced by stubs, Elasticsearch by an in-process HTTP transport.",
}

// tasks of the housekeeper, by the delay their configuration gets.
var tasks = []struct {
	name string
	set  func(time.Duration)
}{
	{"unlock", func(d time.Duration) { config.HousekeeperTaskUnlockDelay.Set(d.String()) }},
	{"timeout", func(d time.Duration) { config.HousekeeperTaskTimeoutDelay.Set(d.String()) }},
	{"metrics", func(d time.Duration) { config.HousekeeperTaskMetricsDelay.Set(d.String()) }},
	{"recovery", func(d time.Duration) { config.HousekeeperTaskUpdateDelay.Set(d.String()) }},
	{"max elements", func(d time.Duration) { config.HousekeeperTaskMaxElementsDelay.Set(d.String()) }},
	{"ttl", func(d time.Duration) { config.HousekeeperTaskTTLDelay.Set(d.String()) }},
}

const never = 100000 * time.Hour

// delay of the i-th task when it is due.
func delay(i int) time.Duration { return time.Duration(10+i) * time.Second }

func taskOf(d time.Duration) string {
	for i := range tasks {
		if delay(i) == d || never+time.Duration(i)*time.Hour == d {
			return tasks[i].name
		}
	}
	return ""
}

// due sets the delays: only these tasks become due.
func due(names ...string) {
	for i, t := range tasks {
		d := never + time.Duration(i)*time.Hour
		for _, n := range names {
			if n == t.name {
				d = delay(i)
			}
		}
		t.set(d)
	}
}

// event of a run.
type event struct {
	thread   string
	task     string
	run      string // of the task
	op       string
	queue    string
	val      string
	ids      []string
	after    bool
	cancel   error
	finished bool
	closed   bool
}

type recording struct {
	ev []event
}

func hook(after bool, c sut.Call) error {
	if !after {
		vsync.Point("op " + c.Op)
	}
	e := event{op: c.Op, queue: c.Queue, val: c.Val, ids: c.IDs, after: after, cancel: c.Ctx.Err(), finished: shutdown.HasFinished()}
	if th := vsync.Current(); th != nil {
		e.thread, e.task = th.Name, taskOf(th.LastTimer)
		e.run = fmt.Sprintf("%s #%d", th.Name, th.Waits)
	}
	vsync.Log(e)
	return nil
}

func msg(id string) *message.Message {
	return &message.Message{ID: id, Queue: "q", QueuePrefix: "q", Score: 10, ExpiryDate: sut.Base.Add(-time.Minute)}
}

// fill gives every task something to do.
func fillStore(s storage.Storage) {
	ctx := context.Background()
	for _, id := range []string{"a", "b", "c"} {
		s.Insert(ctx, msg(id))
	}
	s.EditQueueConfiguration(ctx, &configuration.QueueConfiguration{Queue: "q", MaxElements: 2})
}

func fillCache(recovered bool) func(c cache.Cache) {
	return func(c cache.Cache) {
		ctx := context.Background()
		for _, id := range []string{"a", "b", "c"} {
			c.Insert(ctx, "q", msg(id))
		}
		c.PullMessages(ctx, "q", 1, nil, nil, -60000)
		m := msg("b")
		m.LockMs = -1000
		c.LockMessage(ctx, m, cache.LOCK_ACK)
		if recovered {
			c.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
		}
	}
}

// runMain runs the program under one schedule; a signal comes at any point.
func runMain(prefix []int, bound, clock int, coarse time.Duration, recovered, calm bool) (*recording, *vsync.Sched, []vsync.Choice, string) {
	for len(shutdown.CancelChan) > 0 {
		<-shutdown.CancelChan
	}
	shutdown.Reset()
	server = nil
	vhook.Hook = hook
	vhook.OnClose = func(e string) {
		vsync.Point("close " + e)
		vsync.Log(event{op: "close"})
	}
	vhook.FillStore, vhook.FillCache = fillStore, fillCache(recovered)
	s := &vsync.Sched{Delays: true, Main: true, Clock: clock, Coarse: coarse, Until: never - 1, CalmStart: calm, T: []*vsync.Thread{
		{Name: "main", Run: main},
		{Name: "signal", Free: true, Run: func() { vsync.Send(shutdown.CancelChan)(os.Interrupt) }},
	}}
	chs, bad := s.Run(prefix, bound)
	r := &recording{}
	closed := false
	for _, x := range s.Logged() {
		e := x.(event)
		closed = closed || e.op == "close"
		e.closed = closed
		r.ev = append(r.ev, e)
	}
	return r, s, chs, bad
}

type task struct {
	name, run   string
	first, last int
}

// runs of the tasks, as positions of their first and last engine operation.
func (r *recording) runs() []task {
	at := map[string]int{}
	var out []task
	for i, e := range r.ev {
		if e.task == "" {
			continue
		}
		k, ok := at[e.run]
		if !ok {
			k = len(out)
			at[e.run] = k
			out = append(out, task{e.task, e.run, i, i})
		}
		out[k].last = i
	}
	return out
}

var exclusive = map[string]bool{"recovery": true, "max elements": true, "ttl": true}

func (r *recording) trace(s *vsync.Sched) []string {
	out := append([]string{}, s.Trace...)
	if len(out) > 150 {
		out = out[len(out)-150:]
	}
	return out
}

func c22Schedules(t *vx.T, names []string, bound, clock int, coarse time.Duration, shard, shards int, recovered, calm bool) {
	due(names...)
	what := strings.Join(names, ", ")
	t.Sample(what)
	var prefix []int
	most := map[string]int{}
	for {
		t.Step(what)
		r, s, chs, bad := runMain(prefix, bound, clock, coarse, recovered, calm)
		t.Traces++
		t.States++
		t.Trans += s.Points
		fail := func(sig, f string, a ...any) {
			t.Fail(sig+": "+what, fmt.Sprintf(f, a...), r.trace(s))
		}
		if bad != "" {
			fail("stuck "+strings.SplitN(bad, ":", 2)[0], "%s", bad)
		} else {
			if !shutdown.Ongoing() || !shutdown.HasFinished() {
				fail("not announced", "the program ended without announcing the start and the end of the shutdown")
			}
			for _, e := range r.ev {
				if e.task == "" || e.after {
					continue
				}
				if e.finished || e.closed {
					fail("late "+e.task, "task %s performs %s after shutdown was announced as finished", e.task, e.op)
				}
				if e.task == "recovery" && e.cancel != nil {
					fail("cancelled recovery", "the shared context is cancelled while recovery performs %s", e.op)
				}
			}
			for _, th := range s.T {
				if strings.HasPrefix(th.Left, "op ") {
					fail("interrupted", "the program ends while task %s is about to perform %s", taskOf(th.LastTimer), th.Left[3:])
				}
			}
			rs := r.runs()
			n := map[string]int{}
			for i, a := range rs {
				n[a.name]++
				for _, b := range rs[i+1:] {
					if exclusive[a.name] && exclusive[b.name] && a.first < b.last && b.first < a.last {
						fail("overlap "+a.name+" "+b.name, "%s and %s overlap", a.name, b.name)
					}
				}
			}
			for k, v := range n {
				most[k] = max(most[k], v)
				t.Stat("runs of "+k, int64(v))
			}
		}
		if len(t.Violations) >= 5 {
			return
		}
		if prefix = vsync.NextOf(chs, shard, shards); prefix == nil {
			break
		}
		if t.Expired() {
			t.Truncate("time budget used up")
			return
		}
	}
	for _, n := range names {
		if most[n] == 0 {
			t.Fail("idle: "+n, "task "+n+" never ran", nil)
		}
	}
}

func c22(tier string) []vx.Job {
	var jobs []vx.Job
	coarse := time.Duration(0)
	add := func(shards int, name string, calm bool, bound, clock int, names ...string) {
		recovered := names[len(names)-1] != "recovery" && names[0] != "recovery"
		for i := 0; i < shards; i++ {
			n := name
			if shards > 1 {
				n = fmt.Sprintf("%s (%d/%d)", name, i+1, shards)
			}
			coarse := coarse
			jobs = append(jobs, vx.Job{Name: n, Fn: func(t *vx.T) { c22Schedules(t, names, bound, clock, coarse, i, shards, recovered, calm) }})
		}
	}
	deep, clock, sh := 1, 1, 1
	if tier == "thorough" {
		deep, clock, sh = 2, 2, 4
	}
	add(2*sh, "tasks recovery, max elements, ttl", true, 1, 3, "recovery", "max elements", "ttl")
	// All waiting for each other as the signal comes.
	coarse = time.Minute
	add(2*sh, "tasks recovery, max elements, ttl together", true, deep, 1, "recovery", "max elements", "ttl")
	coarse = 0
	for i := len(tasks) - 1; i >= 0; i-- {
		a := tasks[i]
		k := sh
		if exclusive[a.name] {
			k = 3 * sh
		}
		add(k, "task "+a.name, true, 2, clock, a.name)
		for _, b := range tasks[i+1:] {
			if tier == "thorough" || exclusive[a.name] || a.name == "unlock" && b.name == "recovery" {
				add(sh, "tasks "+a.name+", "+b.name, true, deep, 3, a.name, b.name)
			}
		}
		add(sh, "start, task "+a.name, false, deep, 1, a.name)
	}
	// The same with the race detector.
	for i, a := range tasks {
		n := []string{a.name}
		jobs = append(jobs, vx.Job{Name: "task " + a.name + ", race detector", Race: true, Fn: func(t *vx.T) {
			c22Schedules(t, n, deep, 1, 0, 0, 1, a.name != "recovery", true)
		}})
		n2 := []string{a.name, tasks[(i+1)%len(tasks)].name}
		jobs = append(jobs, vx.Job{Name: "tasks " + n2[0] + ", " + n2[1] + ", race detector", Race: true, Fn: func(t *vx.T) {
			c22Schedules(t, n2, deep-1, 3, 0, 0, 1, n2[0] != "recovery" && n2[1] != "recovery", true)
		}})
	}
	for _, c := range calls {
		for _, after := range []bool{false, true} {
			jobs = append(jobs, vx.Job{Name: fmt.Sprint("call ", c.name, " ", after), Fn: liveJob(c, after)})
		}
	}
	return jobs
}

const ruleC22 = "The program's own main function runs under a controlled scheduler that owns every channel operation, select, go statement, timer, mutex, wait group and atomic of main, scheduler, shutdown and queue code and every engine operation. All schedules of start-up, tasks becoming due, and a stop signal at any point that deviate from the default schedule at most the bounded number of times are run; and, on the real gRPC server with a real signal, every call stopped before and after each of its engine operations. Every execution is one of the real code."
