package main

import (
	"fmt"
	"strings"

	. "github.com/takenet/deckard/internal/verifx/explore"
	. "github.com/takenet/deckard/internal/verifx/model"
	"github.com/takenet/deckard/internal/verifx/vx"
)

// A pair of queues whose names, or names joined with ids, could be confused
// with each other by an engine.
type pair struct {
	q1, i1, q2, i2 string
	plain          bool // not usable with Redis: contains braces
}

// namePairs are the pairs of C08: names that contain, start or end with the
// separators, suffixes and pattern characters the engines use, names whose
// concatenation with an id coincides, and names that compare alike after
// trimming, case folding, normalisation or number parsing.
func namePairs() []pair {
	var r []pair
	for _, n := range []string{
		"q:", ":q", "q::", "q::a", "q::b", "q:a", "a", "q:tmp", "q:lock_ack", "q:lock_nack", "q:lock_ack:score", "q:lock_nack:score", "q:queue:q", "queue:q", "deckard_v1:queue:q",
		"*", "q*", "?", "[q]", `\q`, "^q", "q$", "$q", "q.a", ".", "%q", "q%", "q\n", " q", "q ", "Q", "qq", "q\x00", "q/a", "q|a", "q,a", "q_a", "q-a", "'q'", `"q"`,
	} {
		r = append(r, pair{q1: "q", i1: "a", q2: n, i2: "a"})
	}
	for _, p := range []pair{
		{q1: "q", i1: "a:b", q2: "q:a", i2: "b"},
		{q1: "q", i1: ":a", q2: "q:", i2: "a"},
		{q1: "q::a", i1: "b", q2: "q", i2: ":a:b"},
		{q1: "a", i1: "a:a", q2: "a:a", i2: "a"},
		{q1: "q", i1: "xa", q2: "qx", i2: "a"},
		{q1: "q", i1: "a", q2: "a", i2: "q"},
		{q1: "q::a", i1: "a", q2: "q::b", i2: "a"},
		{q1: "q:a::b", i1: "a", q2: "q::a:b", i2: "a"},
		{q1: "*", i1: "a", q2: "**", i2: "*"},
		{q1: "é", i1: "a", q2: "e\u0301", i2: "a"},
		{q1: "1", i1: "1", q2: "01", i2: "1.0"},
		{q1: "true", i1: "null", q2: "null", i2: "true"},
		{q1: "q", i1: "a", q2: "q", i2: "A"},
		{q1: "q", i1: "a", q2: "q", i2: "a "},
		{q1: "q", i1: "a", q2: "q", i2: "a:a"},
		{q1: "q", i1: "a", q2: "q", i2: "$a"},
		{q1: "q", i1: "1", q2: "q", i2: "01"},
		{q1: "q", i1: "é", q2: "q", i2: "e\u0301"},
		{q1: "q", i1: "lock_ack", q2: "q:lock_ack", i2: "q"},
		{q1: strings.Repeat("n", 300), i1: "a", q2: strings.Repeat("n", 299) + "m", i2: "a"},
		{q1: "q", i1: strings.Repeat("i", 300) + "a", q2: "q", i2: strings.Repeat("i", 300) + "b"},
		{q1: "{q}", i1: "a", q2: "q", i2: "a", plain: true},
		{q1: "q}", i1: "a", q2: "q", i2: "a", plain: true},
		{q1: "{q", i1: "a", q2: "q}", i2: "a", plain: true},
		{q1: "{}", i1: "{a}", q2: "{", i2: "a}", plain: true},
	} {
		r = append(r, p)
	}
	return r
}

// pairOps is the alphabet over a pair: everything is aimed at the first
// message, while the second only has to stay as it is.
func pairOps(p pair, start int) (setup, ops []Op) {
	m1, m2 := ttl(msg(p.q1, p.i1, 10), 30), ttl(content(msg(p.q2, p.i2, 20), 2), 60)
	setup = []Op{edit(p.q2, 5), add(m1, m2)}
	two := p.q1 != p.q2
	switch start {
	case 1: // both delivered, the first one then locked
		setup = append(setup, pull(p.q1, 5))
		if two {
			setup = append(setup, pull(p.q2, 5))
		}
		setup = append(setup, lock(score(ack(p.q1, p.i1), 7), lk))
	case 2: // one locked after a nack, the other one delivered with an earlier deadline
		setup = append(setup, pull(p.q1, 5), lock(nack(p.q1, p.i1), lk))
		if two {
			setup = append(setup, deadline(pull(p.q2, 5), 500))
		}
	case 3, 4, 5: // both in the same pool
		setup = append(setup, pull(p.q1, 5))
		if two {
			setup = append(setup, pull(p.q2, 5))
		}
		switch start {
		case 4:
			setup = append(setup, lock(score(ack(p.q1, p.i1), 7), lk), lock(ack(p.q2, p.i2), lk))
		case 5:
			setup = append(setup, lock(nack(p.q1, p.i1), lk), lock(nack(p.q2, p.i2), lk))
		}
	}
	ops = []Op{
		add(content(m1, 3)), add(m2), pull(p.q1, 5), pull(p.q2, 5),
		ack(p.q1, p.i1), lock(score(ack(p.q1, p.i1), 7), lk), lock(nack(p.q1, p.i1), lk), lock(nack(p.q2, p.i2), lk), nack(p.q2, p.i2),
		remove(p.q1, p.i1), remove(p.q2, p.i1, p.i1), edit(p.q1, 1), exceed, timeout, unlock, ttlOp, pass(1100), minutes(31), macro(lose, recov, recov),
	}
	return setup, ops
}

// alone are the controls of C08: what either message does on its own, under
// plain names, when the operations on the other one are left out.
func alone(p pair, f func(pair) (setup, ops []Op)) []*Scenario {
	c := pair{q1: "qone", i1: "aone", q2: "qtwo", i2: "atwo"}
	if p.q1 == p.q2 {
		c.q2 = c.q1
	}
	if p.i1 == p.i2 {
		c.i2 = c.i1
	}
	setup, ops := f(c)
	var r []*Scenario
	for _, m := range [][2]string{{c.q1, c.i1}, {c.q2, c.i2}} {
		r = append(r, &Scenario{Setup: justOne(setup, m[0], m[1]), Ops: justOne(ops, m[0], m[1])})
	}
	return r
}

// justOne keeps what concerns the message; other operations do nothing.
func justOne(ops []Op, q, id string) []Op {
	var r []Op
	for _, o := range ops {
		switch o.K {
		case Macro:
			o.Seq = justOne(o.Seq, q, id)
		case Add:
			var as []AddMsg
			for _, a := range o.Adds {
				if a.Q == q && a.ID == id {
					as = append(as, a)
				}
			}
			if o.Adds = as; len(as) == 0 {
				o = pass(0)
			}
		case Ack, Nack, Remove, Get:
			var ids []string
			for _, i := range o.IDs {
				if i == id {
					ids = append(ids, i)
				}
			}
			if o.IDs = ids; o.Q != q || len(ids) == 0 {
				o = pass(0)
			}
		case Pull, Edit:
			if o.Q != q {
				o = pass(0)
			}
		}
		r = append(r, o)
	}
	return r
}

func c08() []Scenario {
	var r []Scenario
	for i, p := range namePairs() {
		k := kinds(mem, mon, red, clu)
		if p.plain {
			k = kinds(mem, mon)
		}
		for start := 0; start < 6; start++ {
			depth := 2
			if start >= 3 {
				depth = 1
			}
			setup, ops := pairOps(p, start)
			r = append(r, Scenario{
				Name: fmt.Sprintf("names-%02d.%d-%.20q-%.20q-%.20q-%.20q", i, start, p.q1, p.i1, p.q2, p.i2), Kinds: k, Depth: depth, Deep: depth + 1, Wait: wait10, Reads: true,
				Targets: []string{"*"}, Setup: setup, Ops: ops,
				Controls: alone(p, func(p pair) ([]Op, []Op) { return pairOps(p, start) }),
			})
		}
	}
	return r
}

// Composed names: every name made of a few of the pieces the engines put into
// keys, patterns and expressions, next to the queue "q", through one script
// that uses every pool; and every pair of ways to split a string into a queue
// and an id.

var namePieces = []string{"q", "a", ":", ":tmp", ":lock_ack", ":lock_nack", ":score", ":queue:", "*", "?", "[", "]", `\`, "^", "$", "."}

func composed(n int) []string {
	seen := map[string]bool{"": true, "q": true}
	var r []string
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, l := range last {
			for _, p := range namePieces {
				next = append(next, l+p)
				if !seen[l+p] {
					seen[l+p] = true
					r = append(r, l+p)
				}
			}
		}
		last = next
	}
	return r
}

// splitPairs are the pairs of messages whose queue and id make the same
// string when joined, without or with a separator.
func splitPairs(n int) []pair {
	var r []pair
	for _, sep := range []string{"", ":", "::"} {
		for _, s := range stringsOver([]string{"a", ":", "b"}, n) {
			var parts [][2]string
			for i := 1; i+len(sep) < len(s); i++ {
				if strings.HasPrefix(s[i:], sep) {
					parts = append(parts, [2]string{s[:i], s[i+len(sep):]})
				}
			}
			for i, x := range parts {
				for _, y := range parts[i+1:] {
					r = append(r, pair{q1: x[0], i1: x[1], q2: y[0], i2: y[1]})
				}
			}
		}
	}
	return r
}

func stringsOver(alpha []string, n int) []string {
	r := []string{""}
	for i, from := 0, 0; i < n; i++ {
		to := len(r)
		for _, s := range r[from:to] {
			for _, a := range alpha {
				r = append(r, s+a)
			}
		}
		from = to
	}
	return r
}

// nameScript leads both messages through all pools.
func nameScript(p pair) []Op {
	two := p.q1 != p.q2
	r := []Op{edit(p.q2, 5), add(ttl(msg(p.q1, p.i1, 10), 30), ttl(content(msg(p.q2, p.i2, 20), 2), 60)), pull(p.q2, 5), lock(score(ack(p.q2, p.i2), 7), lk)}
	if two {
		r = append(r, pull(p.q1, 5))
	}
	r = append(r, unlock, lock(nack(p.q1, p.i1), lk), pass(1100), unlock, pull(p.q2, 5), lock(nack(p.q2, p.i2), lk), pass(1100), unlock)
	if two {
		r = append(r, pull(p.q1, 5))
	} else {
		r = append(r, pull(p.q2, 5))
	}
	r = append(r, lock(ack(p.q1, p.i1), lk))
	if two {
		r = append(r, deadline(pull(p.q2, 5), 500))
	}
	return append(r, pass(600), timeout, pass(600), remove(p.q2, p.i1+"x"), exceed, unlock, macro(lose, recov, recov))
}

// nameJobs runs the script over the composed names.
func nameJobs(tier string) []vx.Job {
	long, split := 3, 4
	if tier == "thorough" {
		long, split = 4, 6
	}
	var ps, splits []pair
	for _, n := range composed(long) {
		ps = append(ps, pair{q1: "q", i1: "a", q2: n, i2: "a"})
	}
	for _, n := range composed(long - 1) {
		if n != "a" {
			ps = append(ps, pair{q1: "q", i1: "a", q2: "q", i2: n})
		}
	}
	splits = splitPairs(split)
	var r []vx.Job
	for _, k := range kinds(mem, mon, red, clu) {
		if k == clu && tier != "thorough" {
			ps = ps[:0:0]
			for _, n := range composed(long - 1) {
				ps = append(ps, pair{q1: "q", i1: "a", q2: n, i2: "a"})
			}
		}
		for _, part := range []struct {
			what string
			ps   []pair
		}{{"composed", ps}, {"splits", splits}} {
			const chunk = 400
			for i := 0; i < len(part.ps); i += chunk {
				sub := part.ps[i:min(i+chunk, len(part.ps))]
				k := k
				r = append(r, vx.Job{Name: fmt.Sprintf("%s-%d@%s", part.what, i/chunk, k), Fn: func(t *vx.T) {
					for j, p := range sub {
						if t.Expired() {
							t.Truncate(fmt.Sprintf("time budget used up after %d of %d pairs", j, len(sub)))
							return
						}
						Run(t, Scenario{
							Name: fmt.Sprintf("composed-%q-%q-%q-%q", p.q1, p.i1, p.q2, p.i2), Wait: wait10, Targets: []string{"*"},
							Setup: nameScript(p), Controls: alone(p, func(p pair) ([]Op, []Op) { return nameScript(p), nil }),
						}, k)
						if len(t.Violations) >= 3 {
							return
						}
					}
				}})
			}
		}
	}
	return r
}
