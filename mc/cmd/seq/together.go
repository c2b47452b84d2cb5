package main

import (
	"fmt"

	"github.com/takenet/deckard/internal/queue/storage"
	. "github.com/takenet/deckard/internal/verifx/model"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
)

// What the properties about histories say about concurrent calls: the threads
// of inter.go, judged by the property alone.

type togetherSpec struct {
	setups []*interSetup
	ops    [][]Op
	judge  func(r *interRun, su *interSetup) (sig, bad string)
	first  [][]Op // one thread runs one of these (default: ops)
}

func only(sigs ...string) func(r *interRun, su *interSetup) (string, string) {
	return func(r *interRun, su *interSetup) (string, string) {
		sig, bad := r.judge(su)
		if !has(sigs, sig) {
			return "", ""
		}
		return sig, bad
	}
}

func pick(names ...string) []*interSetup {
	var out []*interSetup
	for _, su := range interSetups() {
		if has(names, su.name) {
			out = append(out, su)
		}
	}
	return out
}

func (ts togetherSpec) jobs(tier string) []vx.Job {
	type conf struct {
		k     sut.Kind
		gran  string
		bound int
	}
	confs := []conf{{mem, "locks", 2}, {red, "commands", 2}, {mon, "commands", 1}}
	if tier == "thorough" {
		confs = []conf{{mem, "locks", 4}, {red, "commands", 4}, {mon, "commands", 3}, {rmo, "commands", 2}, {clu, "commands", 2}}
	}
	var jobs []vx.Job
	for _, cf := range confs {
		for _, su := range ts.setups {
			sp := &interSpec{cf.k, cf.gran, cf.bound, ts.judge}
			jobs = append(jobs, vx.Job{Name: fmt.Sprintf("together, %s, %s", su.name, sp), Fn: func(t *vx.T) {
				first := ts.first
				if first == nil {
					first = ts.ops
				}
				for i := range first {
					for j := range ts.ops {
						if ts.first == nil && j < i {
							continue
						}
						interCase(t, sp, su, [][]Op{first[i], ts.ops[j]})
						if t.Expired() || len(t.Violations) >= 5 {
							return
						}
					}
				}
			}})
		}
	}
	return jobs
}

func long(o Op) Op { return deadline(o, 600000) }

func c01Together() togetherSpec {
	a, b := msg("q", "a", 5), msg("q", "b", 20)
	p1, p2 := long(pull("q", 1)), long(pull("q", 2))
	return togetherSpec{
		setups: pick("empty", "queued", "processing", "past deadline", "ack-locked", "nack-locked", "cache lost"),
		ops: [][]Op{{p1}, {p2}, {p1, p1}, {on(1, p2)}, {add(a)}, {add(b, a), p2}, {ack("q", "a")}, {nack("q", "a"), p1}, {lock(ack("q", "a"), 5000)}, {timeout, p2}, {unlock, p1}, {p2, ack("q", "a")},
			{long(pullF("q", 2, 1, 0, 0))}, {long(pullF("q", 1, 0, 15, 0))}, {on(1, timeout)}, {on(1, unlock)}, {recov, p2}, {on(1, recov)}, {remove("q", "b"), p1}},
		judge: only("double"),
	}
}

func c02Together() togetherSpec {
	a := msg("q", "a", 5)
	p1, p2 := long(pull("q", 1)), long(pull("q", 2))
	l := func(o Op) Op { return lock(o, 500000) }
	return togetherSpec{
		setups: pick("queued", "processing", "past deadline", "ack-locked", "nack-locked"),
		ops: [][]Op{{p1}, {p2}, {ack("q", "a")}, {on(1, ack("q", "a"))}, {nack("q", "a")}, {score(nack("q", "a"), 2), p1}, {l(ack("q", "a"))}, {l(nack("q", "a"))}, {score(l(nack("q", "a")), 3)}, {p2, ack("q", "a"), nack("q", "b")},
			{ack("q", "a"), nack("q", "a")}, {timeout}, {unlock}, {add(a)}},
		judge: func(r *interRun, su *interSetup) (string, string) {
			// Each processing ends by one ack or nack.
			for _, id := range []string{"a", "b"} {
				began := 0
				if su.stored[id] && !su.now[id] && !su.afterUnlock[id] {
					began++
				}
				done, asked, other := 0, 0, false
				for _, l := range r.ops {
					switch {
					case l.op.K == Pull && has(l.got, id):
						began++
					case (l.op.K == Ack || l.op.K == Nack) && l.op.IDs[0] == id:
						asked++
						if l.ok {
							done++
						}
					case l.op.K == Timeout:
						other = true
					}
				}
				if done > began {
					return "twice", fmt.Sprintf("%d acks or nacks of %q succeed, it was being processed only %d times", done, id, began)
				}
				if asked > 0 && done == 0 && !other && su.stored[id] && !su.now[id] && !su.afterUnlock[id] {
					return "none", fmt.Sprintf("none of %d acks and nacks of %q succeeds although it is being processed", asked, id)
				}
			}
			return only("double", "lost")(r, su)
		},
	}
}

func c03Together() togetherSpec {
	p1, p2 := long(pull("q", 1)), long(pull("q", 2))
	return togetherSpec{
		setups: pick("processing", "past deadline", "left in cache, processing"),
		first:  [][]Op{{timeout}, {timeout, p2}, {on(1, timeout), timeout}, {p2, timeout}},
		ops: [][]Op{{p1}, {p2}, {ack("q", "a"), p2, p1}, {nack("q", "a"), p2}, {score(nack("q", "a"), 30), p2}, {lock(ack("q", "a"), 500000), p2}, {lock(nack("q", "a"), 500000)}, {remove("q", "a"), add(msg("q", "a", 3)), p2}, {add(msg("q", "a", 3))}, {on(1, timeout)}, {on(1, timeout), p2},
			{ack("q", "a"), p2, timeout}, {unlock, p2}, {recov, p2}},
		judge: only("double", "lost"),
	}
}

func c05Together() togetherSpec {
	p1, p2 := long(pull("q", 1)), long(pull("q", 2))
	return togetherSpec{
		setups: pick("processing", "ack-locked", "nack-locked", "locked still", "left in cache, locked"),
		first:  [][]Op{{unlock}, {unlock, p2}, {on(1, unlock), unlock}, {unlock, p2, lock(ack("q", "a"), 500000)}},
		ops: [][]Op{{p1}, {p2}, {p2, lock(ack("q", "a"), 500000), p2}, {p2, lock(nack("q", "a"), 500000), unlock, p2}, {lock(ack("q", "a"), 500000), p2}, {lock(nack("q", "a"), 500000)}, {score(lock(nack("q", "a"), 500000), 4)}, {ack("q", "a")}, {remove("q", "a"), add(msg("q", "a", 3)), p2}, {add(msg("q", "a", 3))},
			{on(1, unlock)}, {on(1, unlock), p2}, {timeout, p2}, {recov, p2}},
		judge: only("double", "lost"),
	}
}

func c07Together() togetherSpec {
	a, b := msg("q", "a", 5), msg("q", "b", 20)
	return togetherSpec{
		setups: pick("empty", "queued", "processing"),
		ops:    [][]Op{{add(a)}, {add(content(a, 2))}, {on(1, add(content(a, 3), b))}, {add(b, a)}, {add(b), add(msg("q", "c", 3))}, {add(msg("r", "a", 7))}, {long(pull("q", 2))}, {ack("q", "a")}, {get("q", "a")}, {timeout}},
		judge: func(r *interRun, su *interSetup) (string, string) {
			created, updated, want := int64(0), int64(0), map[string]bool{}
			n := int64(0)
			for _, l := range r.ops {
				if l.err != nil {
					return "error", fmt.Sprintf("%s fails: %v", l.op, l.err)
				}
				created, updated = created+l.created, updated+l.updated
				for _, m := range l.op.Adds {
					n++
					if !(m.Q == "q" && su.stored[m.ID]) {
						want[m.Q+"/"+m.ID] = true
					}
				}
			}
			if created != int64(len(want)) || updated != n-created {
				return "counts", fmt.Sprintf("concurrent adds of %d messages, %d of them new, report %d created and %d updated", n, len(want), created, updated)
			}
			for _, q := range []string{"q", "r"} {
				found, err := r.s.Store.Find(sut.Ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: q}, Limit: 1000})
				if err != nil {
					return "error", fmt.Sprint("find fails: ", err)
				}
				seen := map[string]int{}
				for _, m := range found {
					seen[m.ID]++
				}
				for k := range want {
					if k[0] == q[0] && seen[k[2:]] != 1 {
						return "stored", fmt.Sprintf("%q is stored %d times after concurrent adds", k, seen[k[2:]])
					}
				}
				for _, m := range found {
					// The content is that of one of its adds, not a mixture.
					ok := q == "q" && su.stored[m.ID] && sameContent(m.StringPayload, m.Description, 1)
					for _, l := range r.ops {
						for _, x := range l.op.Adds {
							ok = ok || x.Q == q && x.ID == m.ID && sameContent(m.StringPayload, m.Description, x.C)
						}
					}
					if !ok {
						return "content", fmt.Sprintf("%q has content no add gave it", m.ID)
					}
				}
			}
			return "", ""
		},
	}
}

func sameContent(str, desc string, c int) bool {
	_, s, _, d := Content(c)
	return s == str && d == desc
}

func c09Together() togetherSpec {
	p1, p2 := long(pull("q", 1)), long(pull("q", 2))
	return togetherSpec{
		setups: pick("queued", "processing", "past deadline"),
		ops: [][]Op{{bp(ack("q", "a"), "x")}, {nack("q", "a")}, {lock(ack("q", "a"), 5000)}, {lock(nack("q", "a"), 5000)}, {on(1, bp(ack("q", "a"), "y"))}, {bp(ack("q", "a"), "x"), bp(ack("q", "a"), "z")}, {nack("q", "a"), ack("q", "a")},
			{p1}, {p2}, {timeout}, {add(content(msg("q", "a", 5), 2))}, {recov}},
		judge: func(r *interRun, su *interSetup) (string, string) {
			acks, nacks := int64(0), int64(0)
			var all []*opLog
			for _, l := range r.ops {
				if l.err != nil {
					return "error", fmt.Sprintf("%s fails: %v", l.op, l.err)
				}
				if l.op.K == Ack {
					acks++
					all = append(all, l)
				} else if l.op.K == Nack {
					nacks++
					all = append(all, l)
				}
			}
			found, err := r.s.Store.Find(sut.Ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: "q", Ids: &[]string{"a"}}, Limit: 10})
			if err != nil || len(found) != 1 {
				return "error", fmt.Sprint("find: ", len(found), " ", err)
			}
			d, point := found[0].Diagnostics, found[0].Breakpoint
			ta, tn, ca, cn := int64(0), int64(0), int64(0), int64(0)
			val := func(p *int64) int64 {
				if p == nil {
					return 0
				}
				return *p
			}
			if d != nil {
				ta, tn, ca, cn = val(d.Acks), val(d.Nacks), val(d.ConsecutiveAcks), val(d.ConsecutiveNacks)
			}
			if ta != acks || tn != nacks {
				return "totals", fmt.Sprintf("after %d acks and %d nacks at the same time the message says %d and %d", acks, nacks, ta, tn)
			}
			// Consecutive counts and breakpoint as after one of the possible orders.
			ok := len(all) == 0
			permute(all, func(o []*opLog) {
				a, n, p := int64(0), int64(0), ""
				for _, l := range o {
					if l.op.K == Ack {
						a, n, p = a+1, 0, l.op.BP
					} else {
						a, n = 0, n+1
					}
				}
				ok = ok || a == ca && n == cn && p == point
			})
			if !ok {
				return "streaks", fmt.Sprintf("the message says %d consecutive acks, %d consecutive nacks and breakpoint %q, as no order of the %d calls gives", ca, cn, point, len(all))
			}
			return "", ""
		},
	}
}

// permute calls f with the orders in which no call precedes one that had ended.
func permute(all []*opLog, f func([]*opLog)) {
	used := make([]bool, len(all))
	var rec func(o []*opLog)
	rec = func(o []*opLog) {
		if len(o) == len(all) {
			f(o)
			return
		}
		for i, l := range all {
			if used[i] {
				continue
			}
			first := true
			for j, m := range all {
				first = first && (used[j] || j == i || m.end > l.start)
			}
			if first {
				used[i] = true
				rec(append(append([]*opLog{}, o...), l))
				used[i] = false
			}
		}
	}
	rec(nil)
}

func c10Together() togetherSpec {
	a := msg("q", "a", 5)
	p1, p2 := long(pull("q", 1)), long(pull("q", 2))
	return togetherSpec{
		setups: pick("queued", "processing", "past deadline", "ack-locked", "nack-locked"),
		first:  [][]Op{{remove("q", "a"), p2}, {remove("q", "b", "a"), p1}, {withRemove(ack("q", "a")), p2}, {withRemove(nack("q", "a")), p2}},
		ops: [][]Op{{p1}, {p2}, {ack("q", "a")}, {nack("q", "a")}, {lock(ack("q", "a"), 5000)}, {lock(nack("q", "a"), 5000)}, {timeout, p2}, {unlock, p2}, {remove("q", "a"), p1}, {withRemove(nack("q", "a"))}, {ttlOp}, {exceed}, {get("q", "a")}, {timeout}, {unlock},
			{add(a)}, {on(1, p2)}},
		judge: only("removed"),
	}
}

func c13Together() togetherSpec {
	e := func(n int64) Op { return edit("q", n) }
	c := cfg("q")
	return togetherSpec{
		setups: []*interSetup{
			{name: "no configuration"},
			{name: "configured", ops: []Op{e(1)}},
			{name: "read", ops: []Op{e(1), c}},
			{name: "read twice", ops: []Op{e(1), c, on(1, c)}},
			{name: "read, elapsed", ops: []Op{e(1), c, minutes(11)}},
		},
		first: [][]Op{{e(2)}, {e(2), c}, {e(2), e(3)}, {e(-2), c, e(3)}, {c}, {c, e(2)}, {exceed, e(2)}},
		ops:   [][]Op{{e(4)}, {on(1, e(4))}, {e(4), on(1, e(5))}, {c}, {c, c}, {on(1, c)}, {on(1, c), on(1, e(4))}, {e(0), c}, {exceed}, {on(1, exceed), on(1, c)}},
		judge: func(r *interRun, su *interSetup) (string, string) {
			// What no later edit replaces.
			want := map[int64]bool{}
			var edits []*opLog
			for _, l := range r.ops {
				if l.err != nil {
					return "error", fmt.Sprintf("%s fails: %v", l.op, l.err)
				}
				if l.op.K == Edit && l.op.Limit != 0 {
					edits = append(edits, l)
				}
			}
			before := int64(0)
			if len(su.ops) > 0 {
				before = 1
			}
			for _, x := range edits {
				last := true
				for _, y := range edits {
					last = last && (y.start < x.end)
				}
				if last {
					want[max(x.op.Limit, 0)] = true
				}
			}
			if len(edits) == 0 {
				want[before] = true
			}
			for _, l := range r.ops {
				if l.op.K != GetCfg {
					continue
				}
				ok := l.num == before
				for _, x := range edits {
					ok = ok || x.start < l.end && max(x.op.Limit, 0) == l.num
				}
				if !ok {
					return "unknown", fmt.Sprintf("a read returns %d, which nobody configured", l.num)
				}
			}
			sut.Advance(10*60*1e9 + 1e9)
			var got []int64
			for i := range r.s.Q {
				l := &interRun{s: r.s}
				l.do(0, on(i, cfg("q")))
				if l.ops[0].err != nil {
					return "error", fmt.Sprint("reading fails: ", l.ops[0].err)
				}
				got = append(got, l.ops[0].num)
			}
			for _, g := range got {
				if !want[g] || g != got[0] {
					return "latest", fmt.Sprintf("after ten minutes the instances report %v, the latest edits are %v", got, keys(want))
				}
			}
			return "", ""
		},
	}
}

func keys(m map[int64]bool) (out []int64) {
	for k := range m {
		out = append(out, k)
	}
	return
}
