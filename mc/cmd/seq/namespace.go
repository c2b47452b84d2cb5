package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue/pool"
	. "github.com/takenet/deckard/internal/verifx/model"
	"github.com/takenet/deckard/internal/verifx/redisfake"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
)

// C18: two deployments with different key prefixes and the keys of another
// application share one Redis.

// nsPair is a pair of configured prefixes; no one's keys lie under the other.
type nsPair struct{ a, b string }

var nsPairs = []nsPair{
	{"deckard_v1", "deckard_v2"}, {"deckard_v1", "deckard_v"}, {"a", "b"}, {"a", "ab"}, {"a", "aa"}, {"a:b", "a:c"}, {"a:b", "b"}, {"a:b:c", "b:c"},
	{"*", "a"}, {"a*", "ab"}, {"?", "a"}, {"a?b", "axb"}, {"[ab]", "a"}, {"dev[1]", "dev1"}, {"dev[1]", "dev[2]"}, {"[^a]", "b"}, {`a\`, "a"}, {`\*`, "*"}, {"a]", "a["},
	{"queue", "q"}, {"a:queue", "queue"}, {"{t}", "t"}, {"{t}", "{t}2"}, {"t}", "t{"}, {" a ", "b"}, {":a:", "b"}, {"A", "a"}, {"é", "e"}, {"a b", "a"}, {"$1", "${1}"}, {"a.b", "axb"}, {"", "deckard"},
	{"deckard_production_1", "deckard_production_2"}, {strings.Repeat("p", 300) + "1", strings.Repeat("p", 300) + "2"}, {"1" + strings.Repeat("p", 300), "2" + strings.Repeat("p", 300)},
}

// nsEffective is the prefix the configuration value stands for.
func nsEffective(p string) string {
	p = strings.TrimSpace(p)
	if p == "" {
		return "deckard_v1"
	}
	return strings.Trim(p, ":")
}

// nsForeign are keys of another application that resemble Deckard's.
func nsForeign(ps ...string) map[string]bool {
	r := map[string]bool{"queue:{q}": true, "{q}": true, "{q}:tmp": true, "q": true, ":queue:{q}:tmp": true, "queue:{q}:lock_ack": true, "recovery": true, "{recovery}": true}
	for _, p := range ps {
		for _, k := range []string{p, p + "queue:{q}:tmp", "x:" + p + ":queue:{q}:tmp", p + "x:queue:{q}:tmp", "x" + p + ":queue:{q}:lock_ack", p + ";queue:{q}:lock_nack", "{" + p + "}:queue:{q}:tmp", p + "." + ":queue:{f}:tmp"} {
			r[k] = true
		}
		if strings.ContainsAny(p, `*?[]\^`) {
			x := strings.NewReplacer("*", "xyz", "?", "x", "[", "", "]", "", `\`, "", "^", "").Replace(p)
			r[x+":queue:{f}:tmp"], r[x+":queue:{f}:lock_ack"], r[x+":queue:{f}"] = true, true, true
			for _, c := range "ab12" {
				r[string(c)+":queue:{f}:tmp"] = true
				r["dev"+string(c)+":queue:{f}:lock_nack"] = true
			}
		}
	}
	for k := range r {
		for _, p := range ps {
			if strings.HasPrefix(k, p+":") {
				delete(r, k)
			}
		}
	}
	return r
}

type nsOp struct {
	who   int // deployment, or -1
	op    Op
	flush bool // empties the deployment's cache the way Flush does
	what  string
}

func (o nsOp) String() string {
	switch {
	case o.flush:
		return fmt.Sprintf("[deployment %d] cache flush", o.who+1)
	case o.what != "":
		return o.what
	case o.who < 0:
		return o.op.String()
	}
	return fmt.Sprintf("[deployment %d] %s", o.who+1, o.op)
}

type nsWorld struct {
	kind    sut.Kind
	srv     *redisfake.Server
	x       [2]*Stepper
	pre     [2]string
	foreign map[string]bool
	bad     []string
}

func nsNew(k sut.Kind, p nsPair) *nsWorld {
	w := &nsWorld{kind: k, srv: sut.Redis(k.Cache), pre: [2]string{nsEffective(p.a), nsEffective(p.b)}}
	w.srv.OnAccess, w.srv.OnScan = nil, nil
	w.srv.Clear()
	w.srv.ScanCount = 3 // many keys, few of them Deckard's, over many pages
	w.x[0] = NewStepper(sut.New(k, sut.Options{Prefix: p.a, Keep: true}))
	w.x[1] = NewStepper(sut.New(k, sut.Options{Prefix: p.b, Keep: true}))
	w.foreign = nsForeign(w.pre[:]...)
	var ks []string
	for f := range w.foreign {
		ks = append(ks, f)
	}
	sort.Strings(ks)
	for i, f := range ks {
		if i%3 == 0 {
			w.srv.SetString(f, "foreign")
		} else {
			w.srv.SetZ(f, map[string]float64{"a": 1, "b": 2, "f": 3})
		}
	}
	return w
}

// others renders everything that is not under the prefix.
func (w *nsWorld) others(pre string) string {
	var r []string
	for _, l := range strings.Split(w.srv.Dump(), "\n") {
		if !strings.HasPrefix(l, strings.TrimSuffix(fmt.Sprintf("%q", pre+":"), `"`)) {
			r = append(r, l)
		}
	}
	return strings.Join(r, "\n")
}

func (w *nsWorld) do(o nsOp) []Disc {
	w.bad = nil
	w.srv.Violations = nil
	if o.who < 0 {
		switch o.what {
		case "":
			return w.x[0].Do(o.op)
		case "Redis restarts without losing data":
			w.srv.ForgetScripts()
		case "a slot migration":
			n := w.srv.Nodes()
			w.srv.Layout = func(s int) int { return (s*n/16384 + 1) % n }
		}
		return nil
	}
	pre := w.pre[o.who]
	w.srv.OnAccess = func(a redisfake.Access) {
		if !strings.HasPrefix(a.Key, pre+":") {
			w.bad = append(w.bad, fmt.Sprintf("%s touches the key %q", a.Cmd, a.Key))
		}
	}
	var pats []string
	w.srv.OnScan = func(p string) { pats = append(pats, p) }
	before := w.others(pre)
	keys := w.srv.Keys()
	x := w.x[o.who]
	var ds []Disc
	if o.flush {
		ds = x.Do(Op{K: Lose})
		for _, k := range w.srv.Keys() {
			if strings.HasPrefix(k, pre+":") {
				ds = append(ds, Disc{Tags: []string{"namespace"}, Msg: fmt.Sprintf("a flush leaves the key %q behind", k)})
			}
		}
	} else {
		ds = x.Do(o.op)
	}
	w.srv.OnAccess, w.srv.OnScan = nil, nil
	for _, p := range pats {
		for _, k := range append(keys, w.srv.Keys()...) {
			if redisfake.Glob(p, k) && !strings.HasPrefix(k, pre+":") {
				w.bad = append(w.bad, fmt.Sprintf("a scan for %q finds the key %q", p, k))
				break
			}
		}
	}
	for _, b := range w.bad {
		ds = append(ds, Disc{Tags: []string{"namespace"}, Msg: fmt.Sprintf("the deployment with prefix %q leaves it: %s", pre, b)})
	}
	for _, v := range w.srv.Violations {
		if !o.flush { // a flush deletes key by key where one command fails
			ds = append(ds, Disc{Tags: []string{"namespace"}, Msg: "Redis Cluster rejects a command: " + v})
		}
	}
	if a := w.others(pre); a != before {
		ds = append(ds, Disc{Tags: []string{"namespace"}, Msg: fmt.Sprintf("keys outside the prefix %q changed:\n%s\nbefore:\n%s", pre, a, before)})
	}
	return ds
}

// listings compares what the cache lists with the model, for every pool.
func (w *nsWorld) listings() []Disc {
	var ds []Disc
	for i, x := range w.x {
		want := map[Pool]map[string]bool{Avail: {}, Proc: {}, LockAck: {}, LockNack: {}}
		for k, m := range x.St.M {
			if want[m.Pool] != nil {
				want[m.Pool][k.Q] = true
			}
		}
		for p, pt := range map[Pool]pool.PoolType{Avail: pool.PRIMARY_POOL, Proc: pool.PROCESSING_POOL, LockAck: pool.LOCK_ACK_POOL, LockNack: pool.LOCK_NACK_POOL} {
			qs, err := x.S.Cache.ListQueues(sut.Ctx, "*", pt)
			got := map[string]int{}
			for _, q := range qs {
				got[q]++
			}
			ok := err == nil && len(got) == len(want[p])
			for q, n := range got {
				ok = ok && n == 1 && want[p][q]
			}
			if !ok {
				ds = append(ds, Disc{Tags: []string{"listing"}, Msg: fmt.Sprintf("[deployment %d] the queues with messages %s are listed as %q (%v) instead of %q", i+1, p, qs, err, sut.Show(want[p]))})
			}
		}
	}
	return ds
}

func nsSetup(w *nsWorld) []nsOp {
	var r []nsOp
	for i := 0; i < 2; i++ {
		s := float64(i)
		// Queues on every shard, and each pool with a message.
		r = append(r,
			nsOp{who: i, op: add(msg("q", "a", 10+s), msg("q", "b", 20+s), msg("q", "c", 30+s), msg("q", "d", 40+s), msg("r", "a", 10+s), msg("s*", "a", 5+s), msg("t?[u]", "a", 5+s))},
			nsOp{who: i, op: pull("q", 3)}, nsOp{who: i, op: pull("s*", 3)},
			nsOp{who: i, op: lock(score(ack("q", "a"), 3+s), lk)}, nsOp{who: i, op: lock(nack("q", "b"), lk)}, nsOp{who: i, op: lock(nack("s*", "a"), lk)},
		)
	}
	return r
}

func nsOps(k sut.Kind) []nsOp {
	var r []nsOp
	for i := 0; i < 2; i++ {
		for _, o := range []Op{add(msg("q", "e", 7), msg("v\\", "a", 3)), pull("q", 2), pull("t?[u]", 1), nack("q", "c"), lock(nack("q", "c"), lk), lock(ack("q", "c"), lk), remove("q", "a", "d"), timeout, unlock, recov} {
			r = append(r, nsOp{who: i, op: o})
		}
		r = append(r, nsOp{who: i, flush: true})
	}
	r = append(r, nsOp{who: -1, op: pass(1100)}, nsOp{who: -1, what: "Redis restarts without losing data"})
	if n := sut.Redis(k.Cache).Nodes(); n > 1 {
		r = append(r, nsOp{who: -1, what: "a slot migration"})
	}
	return r
}

func nsRun(t *vx.T, k sut.Kind, p nsPair, depth int) {
	defer func() { sut.Redis(k.Cache).Layout = nil }()
	ops := nsOps(k)
	var run func(hist []int) (bool, *nsWorld)
	render := func(w *nsWorld, hist []int) []string {
		r := []string{fmt.Sprintf("prefixes %q and %q", p.a, p.b)}
		for _, o := range nsSetup(w) {
			r = append(r, o.String())
		}
		for _, h := range hist {
			r = append(r, ops[h].String())
		}
		return r
	}
	seen := map[string]bool{}
	run = func(hist []int) (bool, *nsWorld) {
		sut.Redis(k.Cache).Layout = nil
		w := nsNew(k, p)
		t.Traces++
		check := func(ds []Disc, log ...string) bool {
			for _, d := range ds {
				t.Fail(fmt.Sprintf("namespace@%s %q %q: %s", k, p.a, p.b, d.Msg), fmt.Sprintf("[%s, prefixes %q and %q] %s", k, p.a, p.b, d.Msg), append(render(w, hist), log...))
			}
			return len(ds) == 0
		}
		for _, o := range nsSetup(w) {
			t.Trans++
			if !check(w.do(o)) {
				return false, w
			}
		}
		for _, h := range hist {
			t.Trans++
			if !check(w.do(ops[h])) {
				return false, w
			}
		}
		key := w.x[0].St.Key() + w.x[1].St.Key() + fmt.Sprint(sut.NowMs(), w.srv.Layout != nil) + w.srv.Dump()
		if seen[key] {
			return false, w
		}
		seen[key] = true
		t.States++
		if !check(w.listings(), "-- listing") {
			return false, w
		}
		for i := range w.x {
			var log []string
			drain := []Op{{K: Advance, D: wait10}, timeout, unlock, recov, recov}
			for _, q := range []string{"q", "r", "s*", "t?[u]", "v\\"} {
				drain = append(drain, pull(q, 100))
			}
			for _, o := range drain {
				log = append(log, nsOp{who: i, op: o}.String())
				t.Trans++
				if !check(w.do(nsOp{who: i, op: o}), append([]string{"-- probe"}, log...)...) {
					return false, w
				}
			}
		}
		return true, w
	}
	frontier := [][]int{nil}
	for d := 0; d <= depth; d++ {
		var next [][]int
		for _, h := range frontier {
			if t.Expired() {
				t.Truncate(fmt.Sprintf("time budget used up at depth %d of %d", d, depth))
				return
			}
			if d == 0 {
				t.Step("setup")
				if ok, _ := run(nil); ok {
					next = append(next, nil)
				}
				continue
			}
			for i := range ops {
				e := append(append([]int{}, h...), i)
				t.Step(fmt.Sprint(k, p, e))
				ok, w := run(e)
				if len(t.Violations) >= 3 {
					return
				}
				if ok {
					next = append(next, e)
				}
				if len(e) == 2 {
					t.Sample(strings.Join(render(w, e), "; "))
				}
			}
		}
		frontier = next
	}
}

// nsBraces checks that queue names Redis Cluster could not place are refused
// before any message is stored or queued under them.
func nsBraces(t *vx.T, k sut.Kind) {
	fail := func(msg string, trace ...string) {
		t.Fail(fmt.Sprintf("braces@%s: %s", k, msg), fmt.Sprintf("[%s] %s", k, msg), trace)
	}
	for _, q := range []string{"{", "}", "{}", "}{", "{q}", "q{", "q}", "{q", "}q", "a{b}c", "a::{b}", "{{q}}", "q:{tmp}"} {
		for variant, add := range [][]*deckard.AddMessage{
			{{Queue: q, Id: "a", TtlMinutes: 10}},
			{{Queue: "q", Id: "a", TtlMinutes: 10}, {Queue: q, Id: "b", TtlMinutes: 10}},
			{{Queue: q, Id: "b", TtlMinutes: 10}, {Queue: "q", Id: "a", TtlMinutes: 10}},
			{{Queue: "q", Id: "a", TtlMinutes: 10}, {Queue: q, Id: "b", Timeless: true}, {Queue: "q", Id: "c", TtlMinutes: 10}},
		} {
			t.Step(q)
			t.Traces++
			t.States++
			s := sut.New(k, sut.Options{})
			var tr []string
			for _, m := range add {
				tr = append(tr, fmt.Sprintf("Add %q/%q", m.Queue, m.Id))
			}
			before := s.Dump()
			_, err := s.Svc[0].Add(sut.Ctx, &deckard.AddRequest{Messages: add})
			if err == nil {
				fail(fmt.Sprintf("messages for the queue %q are accepted (request %d)", q, variant), tr...)
			}
			if a := s.Dump(); a != before {
				fail(fmt.Sprintf("a refused request with the queue %q changes what is stored (request %d):\n%s\nbefore:\n%s", q, variant, a, before), tr...)
			}
			// The other calls leave nothing behind either.
			for name, f := range map[string]func(){
				"Pull":   func() { s.Svc[0].Pull(sut.Ctx, &deckard.PullRequest{Queue: q, Amount: 2}) },
				"Ack":    func() { s.Svc[0].Ack(sut.Ctx, &deckard.AckRequest{Queue: q, Id: "a", LockMs: 100}) },
				"Nack":   func() { s.Svc[0].Nack(sut.Ctx, &deckard.AckRequest{Queue: q, Id: "a"}) },
				"Remove": func() { s.Svc[0].Remove(sut.Ctx, &deckard.RemoveRequest{Queue: q, Ids: []string{"a"}}) },
			} {
				t.Trans++
				d := s.Dump()
				f()
				if d != s.Dump() {
					fail(fmt.Sprintf("%s on the queue %q changes what is stored", name, q), tr...)
				}
			}
			if v := s.Violations(); len(v) > 0 {
				fail(fmt.Sprintf("the queue %q reaches Redis: %v", q, v), tr...)
			}
		}
	}
}

// nsMany checks that listing covers many queues over all shards and scan pages.
func nsMany(t *vx.T, k sut.Kind, page, n int) {
	s := sut.New(k, sut.Options{})
	srv := sut.Redis(k.Cache)
	srv.ScanCount = page
	defer func() { srv.ScanCount = 0 }()
	req := &deckard.AddRequest{}
	want := map[string]bool{}
	for i := 0; i < n; i++ {
		q := fmt.Sprintf("q%d", i)
		want[q] = true
		req.Messages = append(req.Messages, &deckard.AddMessage{Queue: q, Id: "a", TtlMinutes: 10000})
	}
	t.Step("many")
	if _, err := s.Svc[0].Add(sut.Ctx, req); err != nil {
		panic(err)
	}
	list := func(what string, pt pool.PoolType) {
		t.Trans++
		t.States++
		qs, err := s.Cache.ListQueues(sut.Ctx, "*", pt)
		got := map[string]bool{}
		for _, q := range qs {
			got[q] = true
		}
		miss := 0
		for q := range want {
			if !got[q] {
				miss++
			}
		}
		if err != nil || miss > 0 || len(qs) != n {
			t.Fail(fmt.Sprintf("many@%s: %s", k, what), fmt.Sprintf("[%s] of %d queues with messages %s (scan pages of %d), %d are listed and %d missing (%v)", k, n, what, page, len(qs), miss, err), nil)
		}
	}
	list("available", pool.PRIMARY_POOL)
	for q := range want {
		t.Trans++
		if r, err := s.Svc[0].Pull(sut.Ctx, &deckard.PullRequest{Queue: q, Amount: 1, AckDeadlineMs: 1000}); err != nil || len(r.GetMessages()) != 1 {
			t.Fail("many-pull@"+k.String(), fmt.Sprintf("[%s] the message of the queue %q is not delivered (%v)", k, q, err), nil)
		}
	}
	list("processing", pool.PROCESSING_POOL)
	for q := range want {
		t.Trans++
		s.Svc[0].Nack(sut.Ctx, &deckard.AckRequest{Queue: q, Id: "a", LockMs: 1000})
	}
	list("locked", pool.LOCK_NACK_POOL)
	t.Traces++
}

func nsJobs(tier string) []vx.Job {
	var r []vx.Job
	red, store := []string{"redis", "cluster1", "cluster2", "cluster"}, "memory"
	depth := 2
	if tier == "thorough" {
		red, depth = append(red, "cluster5"), 3
	}
	for _, c := range red {
		k := sut.Kind{Cache: c, Store: store}
		for i, p := range nsPairs {
			k, p := k, p
			if strings.Contains(nsEffective(p.a)+" "+nsEffective(p.b), "{}") {
				continue
			}
			d := depth
			if tier == "quick" && (i%4 != 0 || c == "cluster1" || c == "cluster2") {
				d = 1
			}
			r = append(r, vx.Job{Name: fmt.Sprintf("prefixes-%q-%q@%s", p.a, p.b, k), Fn: func(t *vx.T) { nsRun(t, k, p, d) }})
		}
		r = append(r, vx.Job{Name: "braces@" + k.String(), Fn: func(t *vx.T) { nsBraces(t, k) }})
		for _, page := range []int{0, 1, 7} {
			page := page
			r = append(r, vx.Job{Name: fmt.Sprintf("many-%d@%s", page, k), Fn: func(t *vx.T) { nsMany(t, k, page, 300) }})
		}
	}
	k := sut.Kind{Cache: "redis", Store: "mongo"}
	r = append(r, vx.Job{Name: "braces@" + k.String(), Fn: func(t *vx.T) { nsBraces(t, k) }})
	return r
}

const nsRule = "Two deployments with every listed pair of key prefixes, and another application's look-alike keys, share one Redis (stand-alone and clusters with different numbers of shards); every interleaved sequence of operations of both up to the depth from a start with messages in every delivery state; each key and scan the server sees, all keys outside the prefix, what every pool lists, and both deployments' results against one model each are compared; plus every listed queue name with braces in every position of a request, and listings over many queues and scan pages."
