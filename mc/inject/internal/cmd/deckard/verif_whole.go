package main

// Decides what C03, C05, C11, C12, C14, C19 and C25 say about the program as a
// whole: the real main function with its configuration, gRPC server and
// housekeeping tasks, on every combination of engines. Every history of a
// small enumerated set is played in a queue of its own; time is virtual, and
// what has to happen happens through the program's own tasks.

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	deckard "github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vhook"
	"github.com/takenet/deckard/internal/verifx/vx"
)

type whole struct {
	t            *vx.T
	c            deckard.DeckardClient
	cache, store string
	mem          cache.Cache
}

var bg = context.Background()

func wholeJobs(f func(w *whole)) func(string) []vx.Job {
	return func(string) []vx.Job {
		var r []vx.Job
		for _, n := range sut.WholeNames {
			ct, st := n[0], n[1]
			r = append(r, vx.Job{Name: sut.WholeName(n), Fn: func(t *vx.T) { runWhole(t, ct, st, f) }})
		}
		return r
	}
}

func (w *whole) fail(sig, f string, a ...any) {
	w.t.Fail(fmt.Sprintf("%s@%s", sig, sut.WholeName([2]string{w.cache, w.store})), fmt.Sprintf("[the running program, %s and %s] %s", w.cache, w.store, fmt.Sprintf(f, a...)), nil)
}

func runWhole(t *vx.T, ct, st string, f func(w *whole)) {
	w := &whole{t: t, cache: ct, store: st}
	for _, x := range tasks {
		x.set(2 * time.Millisecond)
	}
	config.CacheType.Set(ct)
	config.StorageType.Set(st)
	if ct == "REDIS" {
		config.CacheUri.Set(sut.Redis("redis").URI())
	}
	if st == "MONGODB" {
		config.StorageUri.Set(sut.Mongo("mongo").URI())
	}
	sut.SetNow(sut.Base)
	vhook.Hook = func(bool, sut.Call) error { return nil }
	vhook.FillStore = nil
	vhook.FillCache = func(c cache.Cache) { w.mem = c }
	vhook.OnClose = func(string) {}
	port := freePort()
	config.GrpcEnabled.Set(true)
	config.GrpcPort.Set(port)
	ended := make(chan any, 1)
	go func() {
		defer func() { ended <- recover() }()
		main()
	}()
	c, cc := dial(port)
	defer cc.Close()
	w.c = c
	t.Step("start")
	if !soon(func() bool {
		ctx, stop := context.WithTimeout(bg, time.Second)
		defer stop()
		_, err := c.Count(ctx, &deckard.CountRequest{Queue: "q"})
		return err == nil
	}) {
		select {
		case p := <-ended:
			w.fail("no server", "the program ends: %v", p)
		default:
			w.fail("no server", "the server does not answer")
		}
		return
	}
	f(w)
	t.Step("stop")
	shutdown.CancelChan <- os.Interrupt
	select {
	case p := <-ended:
		if p != nil {
			w.fail("panic", "the program panics: %v", p)
		}
	case <-time.After(20 * time.Second):
		w.fail("stuck", "the program does not stop")
	}
}

// state counts one more history or check.
func (w *whole) state(f string, a ...any) {
	w.t.Step(fmt.Sprintf(f, a...))
	w.t.States++
	w.t.Trans++
}

func (w *whole) add(q string, ids []string, ttl func(i int) int64) {
	r := &deckard.AddRequest{}
	for i, id := range ids {
		m := &deckard.AddMessage{Id: id, Queue: q, Score: float64(i + 1)}
		if v := ttl(i); v == 0 {
			m.Timeless = true
		} else {
			m.TtlMinutes = v
		}
		r.Messages = append(r.Messages, m)
	}
	w.t.Trans++
	if len(ids) == 0 {
		return
	}
	if resp, err := w.c.Add(bg, r); err != nil || resp.CreatedCount != int64(len(ids)) {
		w.fail("add", "adding %v to %q: %v, %v", ids, q, resp, err)
	}
}

func forever(int) int64 { return 0 }

func (w *whole) pull(q string, n int32, deadline int64) []string {
	w.t.Trans++
	resp, err := w.c.Pull(bg, &deckard.PullRequest{Queue: q, Amount: n, AckDeadlineMs: deadline})
	if err != nil {
		w.fail("pull", "pull of %q: %v", q, err)
	}
	var r []string
	for _, m := range resp.GetMessages() {
		r = append(r, m.Id)
	}
	sort.Strings(r)
	return r
}

// expect pulls, for as long as it takes, exactly these messages of every queue.
func (w *whole) expect(what string, want map[string][]string, queues []string) {
	got := map[string][]string{}
	soon(func() bool {
		ok := true
		for _, q := range queues {
			got[q] = append(got[q], w.pull(q, 100, 100*3600*1000)...)
			ok = ok && len(got[q]) >= len(want[q])
		}
		return ok
	})
	time.Sleep(10 * time.Millisecond)
	for _, q := range queues {
		got[q] = append(got[q], w.pull(q, 100, 100*3600*1000)...)
		sort.Strings(got[q])
		sort.Strings(want[q])
		w.state("%s %s", what, q)
		if len(got[q])+len(want[q]) > 0 && !reflect.DeepEqual(got[q], want[q]) {
			w.fail("deliver", "%s the messages %v of %q are delivered, expected %v", what, got[q], q, want[q])
		}
	}
}

// choices enumerates all n-tuples over k values.
func choices(n, k int) [][]int {
	r := [][]int{nil}
	for i := 0; i < n; i++ {
		var next [][]int
		for _, p := range r {
			for v := 0; v < k; v++ {
				next = append(next, append(append([]int{}, p...), v))
			}
		}
		r = next
	}
	return r
}

var wholeSpans = []int64{1000, 60000, 3600000}
var wholeSteps = []time.Duration{500 * time.Millisecond, 400 * time.Millisecond, 200 * time.Millisecond, 58 * time.Second, 2 * time.Second, 58 * time.Minute, 2 * time.Minute, 10 * time.Minute}

// spans: messages that become deliverable after their spans only; begin makes
// the message of the queue undeliverable for the span.
func (w *whole) spans(begin func(q, id string, ms int64)) {
	w.recovered()
	var queues []string
	due := map[string]map[string]time.Time{}
	for i, ch := range choices(3, len(wholeSpans)) {
		q := fmt.Sprintf("h%d", i)
		queues = append(queues, q)
		due[q] = map[string]time.Time{}
		w.t.Traces++
		for j, v := range ch {
			id := fmt.Sprint("m", j)
			w.add(q, []string{id}, forever)
			begin(q, id, wholeSpans[v])
			due[q][id] = sut.Now().Add(time.Duration(wholeSpans[v]) * time.Millisecond)
		}
	}
	w.expect("at the beginning", map[string][]string{}, queues)
	past := time.Duration(0)
	for _, d := range wholeSteps {
		sut.Advance(d)
		past += d
		want := map[string][]string{}
		for q, ms := range due {
			for id, at := range ms {
				if !at.After(sut.Now()) {
					want[q] = append(want[q], id)
					delete(ms, id)
				}
			}
		}
		if w.expect(fmt.Sprintf("after %v", past), want, queues); w.t.Failed() {
			return
		}
	}
}

// recovered waits until the program's first recovery is over, so that it does
// not restore what a history is about.
func (w *whole) recovered() {
	if !soon(func() bool {
		v, err := w.mem.Get(bg, cache.RECOVERY_STORAGE_BREAKPOINT_KEY)
		return err == nil && v == cache.RECOVERY_FINISHED
	}) {
		w.fail("recovery", "the recovery of an empty storage does not finish")
	}
}

func wholeC03(w *whole) {
	w.spans(func(q, id string, ms int64) {
		if got := w.pull(q, 1, ms); len(got) != 1 || got[0] != id {
			w.fail("pull", "pull of %q delivers %v, expected %s", q, got, id)
		}
	})
}

func wholeC05(w *whole) {
	n := 0
	w.spans(func(q, id string, ms int64) {
		if got := w.pull(q, 1, 100*3600*1000); len(got) != 1 || got[0] != id {
			w.fail("pull", "pull of %q delivers %v, expected %s", q, got, id)
		}
		f := w.c.Ack
		if n++; n%2 == 0 {
			f = w.c.Nack
		}
		if r, err := f(bg, &deckard.AckRequest{Queue: q, Id: id, LockMs: ms}); err != nil || !r.Success {
			w.fail("lock", "locking %q of %q: %v, %v", id, q, r, err)
		}
	})
}

func (w *whole) count(q string) int64 {
	w.t.Trans++
	r, err := w.c.Count(bg, &deckard.CountRequest{Queue: q})
	if err != nil {
		w.fail("count", "count of %q: %v", q, err)
	}
	return r.GetCount()
}

// counts waits until the queues have so many messages.
func (w *whole) counts(what string, want map[string]int64) {
	check := func() (bad string) {
		for q, n := range want {
			if got := w.count(q); got != n {
				bad = fmt.Sprintf("%q has %d messages, expected %d", q, got, n)
			}
		}
		return bad
	}
	soon(func() bool { return check() == "" })
	time.Sleep(10 * time.Millisecond)
	w.t.States += int64(len(want))
	w.t.Step(what)
	if bad := check(); bad != "" {
		w.fail("count", "%s %s", what, bad)
	}
}

func wholeC11(w *whole) {
	ttls := []int64{0, 1, 3, 60}
	want := map[string]int64{}
	lists := map[string][]int{}
	for i, ch := range choices(3, len(ttls)) {
		q := fmt.Sprintf("h%d", i)
		lists[q] = ch
		w.t.Traces++
		w.add(q, []string{"m0", "m1", "m2"}, func(j int) int64 { return ttls[ch[j]] })
	}
	past := time.Duration(0)
	for _, d := range []time.Duration{0, 59 * time.Second, 2 * time.Second, 100 * time.Second, 30 * time.Second, 50 * time.Minute, 10 * time.Minute, 1000 * time.Hour} {
		sut.Advance(d)
		past += d
		for q, ch := range lists {
			want[q] = 0
			for _, v := range ch {
				if ttls[v] == 0 || time.Duration(ttls[v])*time.Minute > past {
					want[q]++
				}
			}
		}
		if w.counts(fmt.Sprintf("after %v", past), want); w.t.Failed() {
			return
		}
		for q, ch := range lists {
			for j, v := range ch {
				alive := ttls[v] == 0 || time.Duration(ttls[v])*time.Minute > past
				r, err := w.c.GetById(bg, &deckard.GetByIdRequest{Queue: q, Id: fmt.Sprint("m", j)})
				w.t.Trans++
				if err != nil || r.Found != alive {
					w.fail("get", "after %v m%d of %q (to live for %d minutes) is found: %v, %v", past, j, q, ttls[v], r.GetFound(), err)
				}
			}
		}
	}
}

func wholeC12(w *whole) {
	want := map[string]int64{}
	limit := map[string]int64{}
	for i, ch := range choices(2, 5) {
		q := fmt.Sprintf("h%d", i)
		n, l := ch[0], int64(ch[1])
		w.t.Traces++
		if l > 0 {
			if r, err := w.c.EditQueue(bg, &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: l}}); err != nil || !r.Success {
				w.fail("edit", "limiting %q to %d: %v, %v", q, l, r, err)
			}
		}
		var ids []string
		for j := 0; j < n; j++ {
			ids = append(ids, fmt.Sprint("m", j))
		}
		w.add(q, ids, func(j int) int64 { return int64(1000 + j) })
		limit[q], want[q] = l, int64(n)
		if l > 0 && int64(n) > l {
			want[q] = l
		}
	}
	w.counts("at first", want)
	for q := range want {
		w.add(q, []string{"x", "y"}, func(j int) int64 { return int64(5000 + j) })
		if want[q] += 2; limit[q] > 0 && want[q] > limit[q] {
			want[q] = limit[q]
		}
	}
	w.counts("after further additions", want)
	// The limits of queues change.
	for q := range want {
		l := limit[q]%4 + 1
		w.c.EditQueue(bg, &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: l}})
		if want[q] > l {
			want[q] = l
		}
	}
	sut.Advance(11 * time.Minute)
	w.counts("after the limits changed", want)
}

func wholeC14(w *whole) {
	var queues []string
	stored := map[string][]string{}
	for i, ch := range choices(2, 4) {
		q := fmt.Sprintf("h%d", i)
		queues = append(queues, q)
		w.t.Traces++
		var ids []string
		for j := 0; j < ch[0]+ch[1]; j++ {
			ids = append(ids, fmt.Sprint("m", j))
		}
		w.add(q, ids, forever)
		stored[q] = ids
		if ch[0] > 0 {
			w.pull(q, int32(ch[0]), 100*3600*1000)
		}
	}
	for round := 1; round <= 3; round++ {
		w.recovered()
		if w.cache == "REDIS" {
			sut.Redis("redis").Clear()
		} else {
			w.mem.Flush(bg)
		}
		want := map[string][]string{}
		for q, ids := range stored {
			want[q] = append([]string{}, ids...)
		}
		if w.expect(fmt.Sprintf("after loss %d of the cache", round), want, queues); w.t.Failed() {
			return
		}
	}
}

func wholeC19(w *whole) {
	memory := w.cache == "MEMORY" && w.store == "MEMORY"
	for i, ch := range choices(4, 2) {
		w.t.Traces++
		q := fmt.Sprintf("h%d", i)
		w.add(q, []string{"a", "b", "c"}, forever)
		if ch[0] == 1 {
			w.pull(q, 1, 100*3600*1000)
		}
		if ch[1] == 1 {
			for _, id := range w.pull(q, 1, 100*3600*1000) {
				w.c.Ack(bg, &deckard.AckRequest{Queue: q, Id: id, LockMs: 1000})
			}
		}
		if ch[2] == 1 {
			w.c.EditQueue(bg, &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: 7}})
		}
		if ch[3] == 1 {
			w.c.GetQueue(bg, &deckard.GetQueueRequest{Queue: q})
		}
		w.state("flush %d", i)
		r, err := w.c.Flush(bg, &deckard.FlushRequest{})
		if memory != (err == nil && r.GetSuccess()) {
			w.fail("flush", "flush reports %v, %v", r, err)
		}
		left, limit := int64(3), int64(0)
		if ch[2] == 1 {
			limit = 7
		}
		if memory {
			left, limit = 0, 0
		}
		if n := w.count(q); n != left {
			w.fail("flush-count", "after the flush there are %d messages, expected %d", n, left)
		}
		g, err := w.c.GetById(bg, &deckard.GetByIdRequest{Queue: q, Id: "a"})
		if err != nil || g.Found == memory {
			w.fail("flush-get", "after the flush a message is found: %v, %v", g.GetFound(), err)
		}
		if c, err := w.c.GetQueue(bg, &deckard.GetQueueRequest{Queue: q}); err != nil || c.GetConfiguration().GetMaxElements() != limit {
			w.fail("flush-config", "after the flush the limit is %v, expected %d (%v)", c, limit, err)
		}
		if n := len(w.pull(q, 10, 1000)); memory && n > 0 {
			w.fail("flush-pull", "after the flush %d messages are delivered", n)
		}
	}
}

func wholeC25(w *whole) {
	want := map[string]float64{}
	for i, ch := range choices(3, 3) {
		w.t.Traces++
		q := fmt.Sprintf("h%d", i)
		for j, n := range ch {
			var ids []string
			for k := 0; k < n; k++ {
				ids = append(ids, fmt.Sprintf("m%d-%d", j, k))
			}
			name := q
			if j == 1 {
				name += "::s"
			}
			w.add(name, ids, forever)
			want[q] += float64(n)
			if j == 2 && n > 0 {
				if r, err := w.c.Remove(bg, &deckard.RemoveRequest{Queue: name, Ids: ids[:1]}); err != nil || r.StorageRemoved != 1 {
					w.fail("remove", "removing %v: %v, %v", ids[:1], r, err)
				}
				want[q]--
			}
		}
		if want[q] == 0 {
			delete(want, q)
		}
	}
	render := func(m map[string]float64) string {
		var r []string
		for q, n := range m {
			if n != 0 {
				r = append(r, fmt.Sprintf("%s=%v", q, n))
			}
		}
		sort.Strings(r)
		return strings.Join(r, " ")
	}
	got := ""
	w.state("gauges")
	if !soon(func() bool {
		g, err := sut.Gauges("deckard_total_messages")
		got = fmt.Sprint(render(g), err)
		return err == nil && render(g) == render(want)
	}) {
		w.fail("gauges", "the metrics say %s, expected %s", got, render(want))
	}
}
