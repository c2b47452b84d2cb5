package main

import (
	"fmt"
	"math"

	. "github.com/takenet/deckard/internal/verifx/explore"
	. "github.com/takenet/deckard/internal/verifx/model"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
)

var scoreValues = []float64{0, 1, -1, 0.5, -0.5, 5e-324, -5e-324, 1e-9, 10, 9007199254740991, MaxScore, 9007199254740994, 1e17, -1e17, 1e300, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 1704067200123, 1704067200124.25}

var c06Tags = []string{"score*", "missing*", "pull-filter", "order*", "deliver-unqueued", "ack-result", "error"}

// scoreJobs tries every score request and locates the message in the queue exactly.
func scoreJobs(tier string) []vx.Job {
	var jobs []vx.Job
	ks := kinds(mem, red, clu, mon, rmo)
	for _, k := range ks {
		k := k
		jobs = append(jobs, vx.Job{Name: "scores@" + k.String(), Fn: func(t *vx.T) {
			var hs [][]Op
			for _, s := range scoreValues {
				hs = append(hs, []Op{add(msg("q", "a", s))})
				hs = append(hs, []Op{add(msg("q", "a", s), msg("q", "z", 3))})
				hs = append(hs, []Op{add(msg("q", "z", 3), msg("q", "a", 5)), add(msg("q", "a", s))})
				hs = append(hs, []Op{add(msg("q", "a", s)), lose, recov})
			}
			for _, o := range []Op{ack("q", "a"), nack("q", "a")} {
				for _, s := range scoreValues {
					for _, sub := range append([]float64{0}, scoreValues[1:]...) {
						if s != 0 && sub != 0 && sub != 10 {
							continue
						}
						for _, l := range []int64{0, 500, -7} {
							p := score(lock(o, l), s)
							p.Sub = sub
							h := []Op{add(msg("q", "a", 50)), pull("q", 1), p}
							if l > 0 {
								h = append(h, pass(1300), unlock)
							}
							hs = append(hs, h)
							if sub == 0 {
								hs = append(hs, append(append([]Op{}, h...), lose, recov))
								// Late and duplicate requests change the stored score only.
								hs = append(hs, append(append([]Op{}, h...), score(o, 77)))
							}
						}
					}
				}
			}
			for _, h := range hs {
				scoreCase(t, k, h)
			}
		}})
	}
	return jobs
}

func scoreCase(t *vx.T, k sut.Kind, h []Op) {
	x := NewStepper(sut.New(k, sut.Options{}))
	var trace []string
	do := func(o Op) bool {
		ds := x.Do(o)
		t.Trans++
		trace = append(trace, o.String()+" "+x.Out)
		for _, d := range ds {
			if g := Hit(c06Tags, d.Tags); g != "" {
				t.Fail(fmt.Sprintf("scores@%s: %s: %s", k, g, d.Msg), fmt.Sprintf("[%s] %s", k, d.Msg), trace)
			}
		}
		return Soft(ds)
	}
	t.Step(fmt.Sprint(k, h))
	t.Traces++
	t.States++
	if t.Traces%400 == 1 {
		s := ""
		for _, o := range h {
			s += o.String() + "; "
		}
		t.Sample(s)
	}
	for _, o := range h {
		if !do(o) {
			return
		}
	}
	if !do(get("q", "a")) {
		return
	}
	m := x.St.Lookup("q", "a")
	if m == nil || m.Pool != Avail {
		return
	}
	c := m.CScore
	lo, hi := math.Nextafter(c, -1), math.Nextafter(c, math.Inf(1))
	if c > 0 && !do(pullF("q", 1, 0, math.Max(lo, 5e-324), 0)) {
		return
	}
	if c < MaxScore && m.Pool == Avail && !do(pullF("q", 5, hi, 0, 0)) {
		return
	}
	if m.Pool == Avail {
		min := c
		if c == 0 {
			min = -1
		}
		do(pullF("q", 1, min, math.Max(c, 5e-324), 0))
	}
}

func c06() []Scenario {
	return []Scenario{
		{
			Name: "score-histories", Kinds: kinds(mem, red, mon, rmo), Depth: 4, Deep: 5, Wait: wait10, Targets: c06Tags, Reads: true,
			Setup: []Op{add(msg("q", "a", 10), msg("q", "b", 1e18))},
			Ops: []Op{pull("q", 1), ack("q", "a"), score(ack("q", "a"), 2e16), score(nack("q", "a"), -3), score(lock(nack("q", "b"), lk), 2e16), lock(ack("q", "b"), lk), score(lock(ack("q", "a"), lk), -9), score(nack("q", "b"), 30),
				add(msg("q", "a", 99), msg("q", "c", -8)), unlock, pass(1100), lose, recov},
		},
	}
}

func c07() []Scenario {
	t := []string{"content", "add*", "get*", "count", "score", "diagnostics", "breakpoint", "missing:add", "order:add", "deliver*", "drop", "error"}
	a1, a2, a3 := msg("q", "a", 10), ttl(content(msg("q", "a", 90), 2), 20), timeless(content(msg("q", "a", 0), 3))
	b1 := msg("q", "b", 20)
	bad, badq := msg("q", "", 5), msg("", "x", 5)
	ks := kinds(mem, mon, rmo, rep, red)
	return []Scenario{
		{
			Name: "upsert", Kinds: ks, Depth: 4, Deep: 5, Wait: wait10, Targets: t, Reads: true,
			Ops: []Op{add(a1), add(a2), add(a3), add(a1, b1), add(b1, content(a1, 4), a2), pull("q", 1), bp(ack("q", "a"), "p"), nack("q", "a"), score(lock(ack("q", "a"), lk), 33), remove("q", "a"), pass(1100), unlock},
		},
		{
			Name: "batches", Kinds: ks, Depth: 3, Deep: 4, Wait: wait10, Targets: t, Reads: true,
			Ops: []Op{add(), add(bad), add(badq), add(a1, bad), add(bad, a1), add(a1, badq, b1), add(a2, a1), add(a1, a1, a1), add(content(a1, 5), msg("r", "a", 7), b1, content(msg("r", "a", 8), 2)), add(b1, a3), pull("q", 2), ack("q", "a")},
		},
		{
			Name: "contents", Kinds: ks, Depth: 3, Deep: 4, Wait: wait10, Targets: t, Reads: true,
			Ops: []Op{add(content(a1, 0)), add(content(a1, 1)), add(content(a1, 2)), add(content(a1, 3)), add(content(a1, 4)), add(content(a1, 5)), pull("q", 1), nack("q", "a")},
		},
		{
			Name: "large-batch", Kinds: kinds(mem, mon, red, clu), Depth: 2, Deep: 3, Targets: t, Reads: false,
			Ops: []Op{bulk("q", "m", 1999, 3), bulk("q", "m", 2001, 3), bulk("q", "m", 4100, 5), add(a1), pull("q", 1000)},
		},
		{
			Name: "kept-state", Kinds: ks, Depth: 5, Deep: 6, Wait: wait10, Targets: t, Reads: true,
			Setup: []Op{add(a1, b1), pull("q", 1)},
			Ops:   []Op{add(a2), add(a3, b1), bp(ack("q", "a"), "p"), bp(nack("q", "a"), "n"), score(lock(nack("q", "a"), lk), 3), pull("q", 1), timeout, pass(1100), unlock},
		},
	}
}

func c09() []Scenario {
	t := []string{"diagnostics", "breakpoint", "error"}
	a := msg("q", "a", 10)
	return []Scenario{
		{
			Name: "counters", Kinds: kinds(mem, mon, rmo, cre), Depth: 5, Deep: 7, Wait: wait10, Targets: t, Reads: true,
			Setup: []Op{add(a)},
			Ops:   []Op{pull("q", 1), bp(ack("q", "a"), "p1"), bp(ack("q", "a"), ""), bp(nack("q", "a"), "n1"), lock(bp(ack("q", "a"), "p2"), lk), lock(nack("q", "a"), lk), add(content(a, 2)), pass(1100), unlock},
		},
		{
			Name: "lifetimes", Kinds: kinds(mem, mon, rmo, cre), Depth: 4, Deep: 5, Wait: wait10, Targets: t, Reads: true,
			Setup: []Op{add(a, msg("q", "b", 20), msg("r", "a", 5)), pull("q", 2), pull("r", 1)},
			Ops: []Op{pull("q", 1), bp(ack("q", "a"), "p1"), nack("q", "a"), bp(ack("q", "b"), "p3"), bp(ack("r", "a"), "p4"), nack("r", "a"), remove("q", "a"), withRemove(bp(ack("q", "a"), "x")), add(a), timeout, lose, recov, restart, pass(1100),
				bp(ack("q", "zz"), "p"), nack("zz", "a")},
		},
		{
			Name: "runs", Kinds: kinds(mem, mon), Depth: 8, Deep: 10, Targets: t, Reads: true,
			Setup: []Op{add(a)},
			Ops:   []Op{bp(ack("q", "a"), "p1"), bp(nack("q", "a"), "n"), pull("q", 1)},
		},
	}
}

func c10() []Scenario {
	t := []string{"remove-counts", "deliver*", "count", "get*", "missing*", "order*", "score", "diagnostics", "content", "breakpoint", "error"}
	a, b := msg("q", "a", 10), msg("q", "b", 20)
	return []Scenario{
		{
			Name: "remove-states", Kinds: kinds(mem, red, clu, mon), Depth: 4, Deep: 6, Wait: wait10, Relock: true, Targets: t, Reads: true,
			Setup: []Op{add(a, b)},
			Ops: []Op{pull("q", 1), remove("q", "a"), withRemove(ack("q", "a")), withRemove(nack("q", "a")), score(lock(ack("q", "a"), lk), 15), score(lock(nack("q", "a"), lk), 25), lock(ack("q", "a"), lk), add(msg("q", "a", 30)),
				timeout, unlock, pass(1100)},
		},
		{
			Name: "remove-locks", Kinds: kinds(mem, red, clu), Depth: 5, Deep: 7, Wait: wait10, Relock: true, Targets: t, Reads: true,
			Setup: []Op{add(a), pull("q", 1), score(lock(ack("q", "a"), lk), 15)},
			Ops:   []Op{remove("q", "a"), withRemove(lock(score(nack("q", "a"), 5), lk)), add(msg("q", "a", 30)), pull("q", 1), lock(ack("q", "a"), lk), score(lock(nack("q", "a"), lk), 25), unlock, pass(1100)},
		},
		{
			Name: "remove-nack-locks", Kinds: kinds(mem, red, clu), Depth: 5, Deep: 7, Wait: wait10, Relock: true, Targets: t, Reads: true,
			Setup: []Op{add(a, b), pull("q", 2), score(lock(nack("q", "a"), lk), 25), score(lock(ack("q", "b"), lk), 5)},
			Ops:   []Op{remove("q", "a"), remove("q", "b", "a"), add(msg("q", "a", 30)), add(msg("q", "b", 40)), pull("q", 1), lock(nack("q", "a"), lk), unlock, pass(1100)},
		},
		{
			Name: "remove-lists", Kinds: kinds(mem, red, clu, mon, rmo, rep), Depth: 3, Deep: 4, Wait: wait10, Relock: true, Targets: t, Reads: true,
			Setup: []Op{add(a, b, msg("q", "c", 15), msg("r", "a", 5), msg("r", "b", 6)), pull("q", 1), pull("r", 1)},
			Ops: []Op{remove("q", "a", "b"), remove("q", "b", "zz", "b", "a"), remove("q", "zz"), remove("q"), remove("zz", "a"), remove("r", "a", "b", "c"), remove("q", "c", "c", "c"), withRemove(ack("r", "a")), withRemove(ack("q", "zz")),
				withRemove(lock(nack("q", "a"), lk)), lock(ack("q", "a"), lk), ack("q", "a"), add(a, b), pull("q", 2), timeout, unlock, pass(1100), lose, recov},
		},
		{
			Name: "remove-many", Kinds: kinds(mem, red, clu, mon), Depth: 3, Deep: 3, Targets: t,
			Setup: []Op{bulk("q", "m", 4500, 3), bulk("r", "m", 3, 3)},
			Ops:   []Op{removeMany("q", "m", 4200), removeMany("r", "m", 4200), removeMany("q", "m", 8100), pull("q", 900)},
		},
	}
}

func removeMany(q, p string, n int) Op {
	o := Op{K: Remove, Q: q}
	for i := 0; i < n; i++ {
		o.IDs = append(o.IDs, fmt.Sprint(p, i))
	}
	return o
}
