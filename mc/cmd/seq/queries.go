package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/elliotchance/orderedmap/v2"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	. "github.com/takenet/deckard/internal/verifx/model"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
)

// C28: every query over small populations, on every storage engine, compared
// with a reference evaluation.

// qrec is one stored message as the reference knows it.
type qrec struct {
	q, id   string
	score   float64
	expiry  int64 // ns; timeless messages expire in the far future
	used    int64 // ns
	pos     int   // insertion order
	tless   bool
	expired bool
}

// population describes histories that fill a storage.
type population struct {
	name string
	ops  []Op
}

func populations() []population {
	a := func(q, id string, sc float64, t int64) Op { return add(ttl(msg(q, id, sc), t)) }
	return []population{
		{"empty", nil},
		{"mixed", []Op{
			a("q", "a", 10, 30), pass(10), a("q::x", "a", 20, 20), a("q::x", "b", 10, 20), pass(10), a("r", "c", 5, 40), a("q", "d", 10, 20), add(timeless(msg("r::x", "e", 20))), a("q::y::z", "b", 1, 60),
		}},
		{"reused", []Op{
			a("q", "a", 10, 30), a("q", "b", 20, 30), a("q", "c", 30, 30), pass(1000), pull("q", 3), ack("q", "a"), pass(1000), score(nack("q", "b"), 3), remove("q", "c"), a("q", "d", 5, 20), a("q", "c", 40, 50), a("q", "a", 99, 10), add(timeless(msg("q", "b", 7))),
		}},
		{"names", []Op{
			a("q", "1", 1, 10), a("q", "01", 2, 10), a("q", "a:b", 3, 10), a("q:a", "b", 4, 10), a("::q", "a", 5, 10), a("q::", "a", 6, 10), a("q:", "$in", 7, 10), a(".", "a.b", 8, 10), a("q", "", 9, 10),
		}},
		{"expired", []Op{
			a("q", "a", 10, 1), a("q", "b", 10, 2), a("q::x", "c", 5, 3), add(timeless(msg("q", "d", 1))), a("r", "e", 2, 1), minutes(2),
		}},
	}
}

func fill(k sut.Kind, p population) (*Stepper, []qrec) {
	x := NewStepper(sut.New(k, sut.Options{}))
	for _, o := range p.ops {
		if ds := x.Do(o); len(ds) > 0 {
			panic("filling the storage: " + ds[0].Msg)
		}
	}
	now := sut.Now().UnixNano()
	var r []qrec
	for key, m := range x.St.M {
		if m.Stored {
			e := m.Expiry
			if m.Timeless {
				e = 1 << 62
			}
			r = append(r, qrec{key.Q, key.ID, m.Score, e, m.LastUsage, m.Seq, m.Timeless, !m.Timeless && m.Expiry <= now})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].pos < r[j].pos })
	return x, r
}

// query is one point of the space.
type query struct {
	queue, prefix string
	ids           *[]string
	gt, lte       int // index into the population; -1 none
	expiry        *time.Time
	sort          []string // "+score" or "-score"
	limit         int64
	retry         bool
	proj          *map[string]int
}

func (q query) String() string {
	s := fmt.Sprintf("queue=%q prefix=%q", q.queue, q.prefix)
	if q.ids != nil {
		s += fmt.Sprintf(" ids=%q", *q.ids)
	}
	if q.gt >= 0 {
		s += fmt.Sprint(" after message ", q.gt)
	}
	if q.lte >= 0 {
		s += fmt.Sprint(" up to message ", q.lte)
	}
	if q.expiry != nil {
		s += fmt.Sprint(" expiring until ", q.expiry.Sub(sut.Base))
	}
	return s + fmt.Sprintf(" sort=%v limit=%d projection=%v", q.sort, q.limit, q.proj)
}

func (q query) options(internal []string) *storage.FindOptions {
	f := &storage.InternalFilter{Queue: q.queue, QueuePrefix: q.prefix, Ids: q.ids, ExpiryDate: q.expiry}
	if q.gt >= 0 {
		f.InternalIdBreakpointGt = internal[q.gt]
	}
	if q.lte >= 0 {
		f.InternalIdBreakpointLte = internal[q.lte]
	}
	o := &storage.FindOptions{InternalFilter: f, Limit: q.limit, Retry: q.retry, Projection: q.proj}
	if q.sort != nil {
		o.Sort = orderedmap.NewOrderedMap[string, int]()
		for _, s := range q.sort {
			d := 1
			if s[0] == '-' {
				d = -1
			}
			o.Sort.Set(s[1:], d)
		}
	}
	return o
}

// matches evaluates the filter; sure false: the answer is free.
func (q query) matches(r qrec, all []qrec) (is, sure bool) {
	if q.queue != "" && r.q != q.queue || q.prefix != "" && Prefix(r.q) != q.prefix {
		return false, true
	}
	if q.ids != nil && len(*q.ids) > 0 {
		ok := false
		for _, i := range *q.ids {
			ok = ok || i == r.id
		}
		if !ok {
			return false, true
		}
	}
	if q.gt >= 0 && r.pos <= all[q.gt].pos || q.lte >= 0 && r.pos > all[q.lte].pos {
		return false, true
	}
	if q.expiry != nil {
		// MongoDB keeps milliseconds; the sub-millisecond border is free.
		d := r.expiry - q.expiry.UnixNano()
		if d > 0 {
			return false, d >= 1e6
		}
		return true, true
	}
	return true, !r.expired
}

func (q query) key(r qrec) []float64 {
	var k []float64
	for _, s := range q.sort {
		v := 0.0
		switch s[1:] {
		case "score":
			v = r.score
		case "expiry_date":
			v = float64(r.expiry / 1e6)
		case "last_usage":
			v = float64(r.used / 1e6)
		case "_id":
			v = float64(r.pos)
		}
		if s[0] == '-' {
			v = -v
		}
		k = append(k, v)
	}
	return k
}

func lessKey(a, b []float64) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// judge compares the messages found with the reference ("" if right).
func (q query) judge(got []message.Message, all []qrec) string {
	by := map[Key]*qrec{}
	for i := range all {
		by[Key{Q: all[i].q, ID: all[i].id}] = &all[i]
	}
	// "_id": 0 or "queue" left out of a projection keep the message from being
	// identified: those queries are aimed at one queue only.
	seen := map[Key]bool{}
	var found []*qrec
	for _, m := range got {
		k := Key{Q: m.Queue, ID: m.ID}
		if q.proj != nil && k.Q == "" {
			k.Q = q.queue
		}
		r := by[k]
		if r == nil {
			return fmt.Sprintf("returns %q/%q, which is not stored", k.Q, k.ID)
		}
		if seen[k] {
			return fmt.Sprintf("returns %q/%q twice", k.Q, k.ID)
		}
		seen[k] = true
		if is, sure := q.matches(*r, all); !is && sure {
			return fmt.Sprintf("returns %q/%q, which does not match", k.Q, k.ID)
		}
		if (q.proj == nil || (*q.proj)["score"] == 1) && m.Score != r.score {
			return fmt.Sprintf("returns %q/%q with score %v instead of %v", k.Q, k.ID, m.Score, r.score)
		}
		found = append(found, r)
	}
	sure, maybe := 0, 0
	var missing []*qrec
	for i := range all {
		is, s := q.matches(all[i], all)
		switch {
		case !s:
			maybe++
		case is:
			sure++
			if !seen[Key{Q: all[i].q, ID: all[i].id}] {
				missing = append(missing, &all[i])
			}
		}
	}
	lo, hi := sure, sure+maybe
	if q.limit > 0 {
		lo, hi = min(lo, int(q.limit)), min(hi, int(q.limit))
	}
	if len(got) < lo || len(got) > hi {
		return fmt.Sprintf("returns %d messages instead of %d", len(got), lo)
	}
	for i := 1; i < len(found); i++ {
		if lessKey(q.key(*found[i]), q.key(*found[i-1])) {
			return fmt.Sprintf("returns %q/%q before %q/%q", found[i-1].q, found[i-1].id, found[i].q, found[i].id)
		}
	}
	if len(found) > 0 {
		for _, m := range missing {
			if lessKey(q.key(*m), q.key(*found[len(found)-1])) {
				return fmt.Sprintf("returns %q/%q but leaves out %q/%q, which comes first", found[len(found)-1].q, found[len(found)-1].id, m.q, m.id)
			}
		}
	}
	return ""
}

func strs(s ...string) *[]string { return &s }

func queryJob(k sut.Kind, p population, part, parts int) func(t *vx.T) {
	return func(t *vx.T) {
		x, all := fill(k, p)
		st := x.S.Store
		fail := func(what string, q fmt.Stringer, msg string) {
			t.Fail(fmt.Sprintf("%s@%s %s: %v: %s", what, k, p.name, q, msg), fmt.Sprintf("[%s, population %s] %s %v %s", k, p.name, what, q, msg), populationTrace(p, all))
		}
		// Internal ids, learnt through the engine itself.
		ms, err := st.Find(sut.Ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{ExpiryDate: farFuture()}})
		internal := make([]string, len(all))
		for i := range ms {
			for j, r := range all {
				if r.q == ms[i].Queue && r.id == ms[i].ID {
					internal[j] = st.GetStringInternalId(sut.Ctx, &ms[i])
				}
			}
		}
		if err != nil || len(ms) != len(all) {
			fail("find", query{gt: -1, lte: -1, expiry: farFuture()}, fmt.Sprintf("returns %d of %d messages (%v)", len(ms), len(all), err))
			return
		}
		queues, prefixes := []string{""}, []string{""}
		qs := map[string]bool{}
		for _, r := range all {
			if !qs[r.q] {
				qs[r.q] = true
				queues = append(queues, r.q)
			}
			if p := Prefix(r.q); !qs["\x00"+p] && p != "" {
				qs["\x00"+p] = true
				prefixes = append(prefixes, p)
			}
		}
		queues, prefixes = append(queues, "absent", "*"), append(prefixes, "absent", "q::x")
		idsets := []*[]string{nil, strs(), strs("a"), strs("b", "a"), strs("a", "a", "zz"), strs("zz"), strs("a:b", "1", "$in", ""), strs("a", "b", "c", "d", "e")}
		var gts []int
		for i := -1; i < len(all); i++ {
			gts = append(gts, i)
		}
		exps := []*time.Time{nil}
		for _, m := range []int64{-1, 1, 10, 20, 30, 100} {
			e := sut.Base.Add(time.Duration(m) * time.Minute)
			exps = append(exps, &e)
		}
		exps = append(exps, farFuture())
		sorts := [][]string{nil, {"+score"}, {"-score"}, {"+expiry_date"}, {"-expiry_date"}, {"+last_usage"}, {"-last_usage"}, {"+_id"}, {"-_id"}, {"+score", "-expiry_date"}, {"-expiry_date", "+score", "-_id"}, {"+last_usage", "-score"}, {"+expiry_date", "+_id"}}
		limits := []int64{0, 1, 2, 3, 1000}
		if !t.Thorough() {
			idsets = idsets[:len(idsets)-1]
			exps = []*time.Time{nil, exps[3], exps[5], exps[7]}
			sorts = append(sorts[:5:5], sorts[5], sorts[8], sorts[10], sorts[12])
			limits = limits[:4]
		}
		projs := []*map[string]int{nil, {"id": 1, "queue": 1, "_id": 0}, {"id": 1, "score": 1, "queue": 1}}
		n := 0
		ask := func(q query) bool {
			n++
			t.States++
			opt := q.options(internal)
			t.Trans++
			got, err := st.Find(sut.Ctx, opt)
			if err != nil {
				fail("find", q, "fails: "+err.Error())
				return false
			}
			if m := q.judge(got, all); m != "" {
				fail("find", q, m)
			}
			if q.sort == nil && q.limit == 0 && q.proj == nil {
				t.Trans++
				c, err := st.Count(sut.Ctx, opt, &storage.CountOptions{})
				lo, hi := 0, 0
				for _, r := range all {
					is, sure := q.matches(r, all)
					if is && sure {
						lo++
					}
					if is || !sure {
						hi++
					}
				}
				if err != nil || c < int64(lo) || c > int64(hi) {
					fail("count", q, fmt.Sprintf("counts %d instead of %d (%v)", c, lo, err))
				}
			}
			return len(t.Violations) < 5
		}
		hasExpired := p.name == "expired"
		i := 0
		for _, qu := range queues {
			for _, pr := range prefixes {
				for _, ids := range idsets {
					i++
					if i%parts != part {
						continue
					}
					t.Step(fmt.Sprint(p.name, qu, pr))
					for _, gt := range gts {
						for _, lte := range gts {
							if !t.Thorough() && gt >= 0 && lte >= 0 && (gt+lte)%2 == 1 {
								continue
							}
							for _, e := range exps {
								if !t.Thorough() && gt >= 0 && lte >= 0 && e != nil {
									continue
								}
								q := query{queue: qu, prefix: pr, ids: ids, gt: gt, lte: lte, expiry: e}
								if !ask(q) {
									return
								}
								if gt >= 0 && lte >= 0 && !t.Thorough() {
									continue
								}
								for si, so := range sorts {
									if !t.Thorough() && (gt >= 0 || lte >= 0 || e != nil && k.Store != "memory") && si%3 != (gt+lte+2)%3 {
										continue
									}
									for li, l := range limits {
										if hasExpired && e == nil && l > 0 {
											continue
										}
										q.sort, q.limit = so, l
										q.proj = projs[(si+li)%len(projs)]
										q.retry = (si+li)%2 == 0
										if !ask(q) {
											return
										}
									}
								}
							}
						}
					}
					if t.Expired() {
						t.Truncate("time budget used up")
						return
					}
				}
			}
		}
		t.Traces++
	}
}

func populationTrace(p population, all []qrec) []string {
	var r []string
	for _, o := range p.ops {
		r = append(r, o.String())
	}
	for i, x := range all {
		r = append(r, fmt.Sprintf("stored %d: %+v", i, x))
	}
	return r
}

func farFuture() *time.Time {
	t := sut.Base.Add(200 * 365 * 24 * time.Hour)
	return &t
}

// listJob checks the listings and every removal of every population.
func listJob(k sut.Kind, p population) func(t *vx.T) {
	return func(t *vx.T) {
		_, all := fill(k, p)
		pool := []string{"a", "b", "c", "zz", "1", ""}
		queues := []string{"q", "q::x", "r", "absent", "q:", "::q"}
		for _, qu := range queues {
			for s := 0; s < 1<<len(pool); s++ {
				for _, dup := range []bool{false, true} {
					var ids []string
					for i, id := range pool {
						if s>>i&1 == 1 {
							ids = append(ids, id)
						}
					}
					if dup {
						if len(ids) == 0 {
							continue
						}
						ids = append(ids, ids[0])
					}
					if !t.Thorough() && dup && s%3 != 0 {
						continue
					}
					t.Step(fmt.Sprint(p.name, qu, ids))
					t.Traces++
					t.States++
					t.Trans++
					x, _ := fill(k, p)
					st := x.S.Store
					what := fmt.Sprintf("removing %q from %q", ids, qu)
					fail := func(msg string) {
						t.Fail(fmt.Sprintf("remove@%s %s: %s: %s", k, p.name, what, msg), fmt.Sprintf("[%s, population %s] %s %s", k, p.name, what, msg), populationTrace(p, all))
					}
					want, names, pres := map[string]bool{}, map[string]bool{}, map[string]bool{}
					hits := 0
					for _, r := range all {
						in := false
						for _, id := range ids {
							in = in || r.id == id && r.q == qu
						}
						if in {
							hits++
							continue
						}
						want[fmt.Sprintf("%q/%q", r.q, r.id)] = true
						names[r.q], pres[Prefix(r.q)] = true, true
					}
					n, err := st.Remove(sut.Ctx, qu, ids...)
					if err != nil || n != int64(hits) {
						fail(fmt.Sprintf("reports %d instead of %d (%v)", n, hits, err))
					}
					ms, err := st.Find(sut.Ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{ExpiryDate: farFuture()}})
					got := map[string]bool{}
					for _, m := range ms {
						got[fmt.Sprintf("%q/%q", m.Queue, m.ID)] = true
					}
					if err != nil || !same(got, want) {
						fail(fmt.Sprintf("leaves %s instead of %s (%v)", sut.Show(got), sut.Show(want), err))
					}
					for f, list := range map[string]func() ([]string, error){"queues": func() ([]string, error) { return st.ListQueueNames(sut.Ctx) }, "queue prefixes": func() ([]string, error) { return st.ListQueuePrefixes(sut.Ctx) }} {
						t.Trans++
						l, err := list()
						got := map[string]bool{}
						for _, s := range l {
							got[s] = true
						}
						w := names
						if f != "queues" {
							w = pres
						}
						if err != nil || len(got) != len(l) || !same(got, w) {
							fail(fmt.Sprintf("leaves the %s %q instead of %s (%v)", f, l, sut.Show(w), err))
						}
					}
					if len(t.Violations) >= 3 {
						return
					}
				}
			}
		}
	}
}

func same(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// bulkQueries checks limits and batches with many messages.
func bulkQueries(k sut.Kind, n int) func(t *vx.T) {
	return func(t *vx.T) {
		o := bulk("q", "m", n, 100)
		for i := range o.Adds {
			o.Adds[i].Score = float64(100 + (i*7919)%n)
			o.Adds[i].TTL = int64(10 + (i*31)%50)
		}
		p := population{"bulk", []Op{o, add(msg("r", "x", 1))}}
		x, all := fill(k, p)
		st := x.S.Store
		for _, so := range [][]string{nil, {"+score"}, {"-score"}, {"+expiry_date"}, {"-expiry_date", "+score"}, {"+_id"}, {"-_id"}} {
			for _, l := range []int64{0, 1, 99, 100, 101, 1000, 1001, int64(n - 1), int64(n), int64(n + 1), 20000} {
				for _, qu := range []string{"", "q", "r"} {
					t.Step(fmt.Sprint(so, l, qu))
					q := query{queue: qu, gt: -1, lte: -1, sort: so, limit: l}
					t.States++
					t.Trans++
					got, err := st.Find(sut.Ctx, q.options(nil))
					if err != nil {
						t.Fail("bulk-error@"+k.String(), fmt.Sprintf("[%s] find %v fails: %v", k, q, err), nil)
						continue
					}
					if m := q.judge(got, all); m != "" {
						t.Fail("bulk@"+k.String()+q.String()+m, fmt.Sprintf("[%s, %d messages] find %v %s", k, n, q, m), nil)
					}
				}
			}
		}
		t.Traces++
		// Removal in chunks.
		ids := []string{}
		for i := 0; i < n; i += 2 {
			ids = append(ids, fmt.Sprintf("m%d", i))
		}
		ids = append(ids, "absent")
		r, err := st.Remove(sut.Ctx, "q", ids...)
		if err != nil || r != int64((n+1)/2) {
			t.Fail("bulk-remove@"+k.String(), fmt.Sprintf("[%s] removing %d of %d messages reports %d (%v)", k, (n+1)/2, n, r, err), nil)
		}
		c, err := st.Count(sut.Ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: "q"}}, &storage.CountOptions{})
		if err != nil || c != int64(n/2) {
			t.Fail("bulk-count@"+k.String(), fmt.Sprintf("[%s] %d messages are left after removing %d of %d (%v)", k, c, (n+1)/2, n, err), nil)
		}
	}
}

func queryJobs(tier string) []vx.Job {
	var r []vx.Job
	parts := 4
	if tier == "thorough" {
		parts = 16
	}
	for _, k := range []sut.Kind{mem, mon, rep} {
		for _, p := range populations() {
			k, p := k, p
			if k == rep && p.name != "mixed" {
				continue
			}
			for i := 0; i < parts; i++ {
				i := i
				r = append(r, vx.Job{Name: fmt.Sprintf("queries-%s-%d@%s", p.name, i, k.Store), Fn: queryJob(k, p, i, parts)})
			}
			r = append(r, vx.Job{Name: fmt.Sprintf("removals-%s@%s", p.name, k.Store), Fn: listJob(k, p)})
		}
		n := 1003
		if tier == "thorough" {
			n = 6007
		}
		r = append(r, vx.Job{Name: fmt.Sprintf("bulk@%s", k.Store), Fn: bulkQueries(k, n)})
	}
	return r
}

const queryRule = "Every combination of queue, prefix, id list, insertion breakpoints, expiry, sort order and limit from the listed values over each population (each built by a history of calls, among them re-added, removed, acknowledged, expired and oddly named messages), on each storage engine; every answer is compared with a reference evaluation of the filter, order and limit. Further: every removal of a subset of ids from each queue with the listings and messages left, and limits around batch sizes over many messages."
