package main

import (
	. "github.com/takenet/deckard/internal/verifx/explore"
	. "github.com/takenet/deckard/internal/verifx/model"
)

// general covers the delivery state machine: every property about delivery
// states looks at it with its own tags.
func general(targets ...string) []Scenario {
	a, b := msg("q", "a", 10), msg("q", "b", 20)
	return []Scenario{
		{
			Name: "one-message", Kinds: kinds(mem, red, clu), Depth: 5, Deep: 7, Wait: wait10, Relock: true, Targets: targets,
			Ops: []Op{add(a), pull("q", 1), ack("q", "a"), nack("q", "a"), lock(ack("q", "a"), lk), lock(nack("q", "a"), lk), remove("q", "a"), timeout, unlock, pass(400), pass(1100)},
		},
		{
			Name: "two-messages", Kinds: kinds(mem, red, clu), Depth: 4, Deep: 6, Wait: wait10, Relock: true, Targets: targets,
			Setup: []Op{add(a, b)},
			Ops:   []Op{pull("q", 1), pull("q", 2), ack("q", "a"), nack("q", "b"), lock(ack("q", "a"), lk), lock(ack("q", "b"), lk), lock(nack("q", "a"), lk), remove("q", "a"), add(a), timeout, unlock, pass(400), pass(1100)},
		},
		{
			Name: "two-queues", Kinds: kinds(mem, clu, rmo), Depth: 4, Deep: 5, Wait: wait10, Relock: true, Targets: targets,
			Setup: []Op{add(a, msg("q::x", "a", 5)), pull("q", 1), pull("q::x", 1)},
			Ops:   []Op{ack("q", "a"), nack("q::x", "a"), lock(ack("q", "a"), lk), lock(nack("q", "a"), lk), lock(ack("q::x", "a"), lk), lock(nack("q::x", "a"), lk), remove("q", "a"), pull("q", 1), pull("q::x", 1), timeout, unlock, pass(400), pass(1100), lose, recov},
		},
		{
			Name: "mixed-calls", Kinds: kinds(mem, red, mon, cre), Depth: 3, Deep: 5, Wait: wait10, Relock: true, Targets: targets, Reads: true,
			Setup: []Op{add(a, b, msg("r", "c", 5)), pull("q", 1)},
			Ops: []Op{pullF("q", 2, 0, 15, 0), pull("r", 3), bp(ack("q", "a"), "p1"), score(nack("q", "a"), 15), score(lock(ack("q", "a"), lk), 15), score(lock(nack("q", "a"), lk), 25),
				withRemove(ack("q", "a")), withRemove(nack("q", "b")), remove("q", "b", "zz", "a"), add(content(a, 2), msg("q", "d", 3)), timeout, unlock, ttlOp, exceed, edit("q", 1), lose, recov, restart, pass(400), pass(1100), ack("q", "zz"), nack("r", "c")},
		},
	}
}

func c01() []Scenario {
	t := []string{"deliver-processing", "deliver-locked", "deliver-dup", "deliver-removed", "error"}
	a, b, c := msg("q", "a", 10), msg("q", "b", 10), msg("q", "c", 30)
	return append(general(t...),
		Scenario{
			Name: "pulls", Kinds: kinds(mem, red, clu, mon, rmo), Depth: 4, Deep: 5, Wait: wait10, Targets: t,
			Setup: []Op{add(a, b, c)},
			Ops:   []Op{pull("q", 1), deadline(pull("q", 2), 300), deadline(pull("q", 1), 0), pullF("q", 1, 20, 0, 0), pullF("q", 2, 10, 0, 0), pullF("q", 2, 0, 30, 0), pullF("q", 2, 0, 20, 0), add(c, a), nack("q", "b"), score(nack("q", "a"), 40), timeout, pass(400), pass(1100), on(1, pull("q", 1)), on(1, nack("q", "c"))},
			Opt:   twoInstances,
		},
		Scenario{
			Name: "recovery", Kinds: kinds(mem, clu, mon, cre), Depth: 4, Deep: 6, Wait: wait10, Targets: t,
			Setup: []Op{add(a, b)},
			Ops:   []Op{pull("q", 1), lose, recov, ack("q", "a"), lock(ack("q", "a"), lk), timeout, unlock, pass(400), pass(1100), add(a), restart},
		})
}

func c02() []Scenario {
	t := []string{"ack-result", "deliver", "deliver-unqueued", "deliver-locked", "deliver-processing", "missing", "order*", "error"}
	a, b := msg("q", "a", 10), msg("q", "b", 20)
	return append(general(t...),
		Scenario{
			Name: "acks", Kinds: kinds(mem, red, clu, mon, cre), Depth: 4, Deep: 5, Wait: wait10, Relock: true, Targets: t,
			Setup: []Op{add(a, b)},
			Ops: []Op{pull("q", 1), ack("q", "a"), nack("q", "a"), lock(ack("q", "a"), lk), lock(nack("q", "a"), lk), lock(ack("q", "a"), -5), score(ack("q", "a"), 15), score(nack("q", "a"), 30), score(lock(nack("q", "a"), lk), 5), score(lock(nack("q", "a"), lk), -5), score(lock(ack("q", "a"), lk), -5),
				ack("q", "zz"), ack("r", "a"), lock(nack("r", "a"), lk), add(a), timeout, unlock, pass(1100)},
		},
		Scenario{
			// What a stale ack with another lock kind leaves behind.
			Name: "relock", Kinds: kinds(mem, red, clu), Depth: 5, Deep: 7, Wait: wait10, Relock: true, Targets: t,
			Setup: []Op{add(a, b), pull("q", 1)},
			Ops:   []Op{lock(ack("q", "a"), lk), score(lock(ack("q", "a"), lk), 5), lock(nack("q", "a"), lk), score(lock(nack("q", "a"), lk), 25), unlock, pass(1100), pull("q", 1)},
		})
}

func c03() []Scenario {
	t := []string{"missing:timeout", "order:timeout", "deliver-processing", "missing:pull", "timeout-ids", "error"}
	a, b, c := msg("q", "a", 10), msg("q", "b", 10), msg("qq", "c", 30)
	return append(general(t...),
		Scenario{
			Name: "deadlines", Kinds: kinds(mem, red, clu), Depth: 4, Deep: 6, Wait: wait10, Targets: t,
			Setup: []Op{add(a, b, c)},
			Ops:   []Op{pull("q", 1), deadline(pull("q", 1), 1), deadline(pull("q", 1), 0), deadline(pull("q", 2), 5000), pull("qq", 1), deadline(pull("qq", 1), 0), timeout, pass(999), pass(2), pass(298000), nack("q", "a"), lock(nack("q", "a"), 50)},
		},
		Scenario{
			Name: "redelivery", Kinds: kinds(mem, red, clu), Depth: 5, Deep: 7, Wait: wait10, Targets: t,
			Setup: []Op{add(a, b), pull("q", 2)},
			Ops:   []Op{timeout, pull("q", 1), deadline(pull("q", 1), 3000), ack("q", "a"), add(a), pass(999), pass(2), remove("q", "a")},
		},
		Scenario{
			Name: "many-overdue", Kinds: kinds(mem, red, clu), Depth: 4, Deep: 5, Wait: wait10, Targets: t,
			Setup: []Op{bulk("q", "m", 23, 5), bulk("q::s", "n", 7, 5), add(c)},
			Ops:   []Op{pull("q", 17), deadline(pull("q", 3), 300), pull("q::s", 5), deadline(pull("q", 2), 0), pull("qq", 1), timeout, pass(400), pass(1100), nack("q", "m3")},
		},
		Scenario{
			Name: "default-deadline", Kinds: kinds(mem, red, clu), Depth: 5, Deep: 7, Wait: wait10, Targets: t,
			Setup: []Op{add(a, b)},
			Ops:   []Op{deadline(pull("q", 1), 0), timeout, pass(299999), pass(1)},
		},
		Scenario{
			Name: "odd-deadlines", Kinds: kinds(mem, red, clu), Depth: 3, Deep: 4, Wait: wait10, Targets: t,
			Setup: []Op{add(a, b)},
			Ops: []Op{deadline(pull("q", 1), -5), deadline(pull("q", 1), -1<<62), deadline(pull("q", 1), 1<<62), deadline(pull("q", 1), 1<<63-1), deadline(pull("q", 1), 1<<53),
				timeout, pass(999)},
			NoProbe: true,
		})
}

func c04() []Scenario {
	t := []string{"pull-count", "pull-filter", "missing", "order*", "response-order", "deliver-dup", "deliver-foreign", "error"}
	set := add(msg("q", "neg", -1), msg("q", "a", 10), msg("q", "b", 20), msg("q", "c", 20), msg("q", "max", 1e300), msg("q", "old", base(-100)), msg("q", "new", base(-50)), msg("r", "x", 15))
	var pulls []Op
	for _, n := range []int32{0, 1, 2, 4, 1001} {
		for _, min := range []float64{0, 10, 11, 20, base(-100)} {
			for _, max := range []float64{0, 10, 20, 19.5, base(-50)} {
				for _, fl := range []int64{0, 75, -3} {
					pulls = append(pulls, pullF("q", n, min, max, fl))
				}
			}
		}
	}
	var odd []Op
	for _, n := range []int32{-7, -2147483648, 1000, 2147483647, 3} {
		for _, min := range []float64{nan, inf, -inf, -4, MaxScore, 2 * MaxScore, 0.5, 1e-9} {
			for _, max := range []float64{nan, inf, -inf, -4, MaxScore, 2 * MaxScore, 5e-324, 20.000001} {
				odd = append(odd, pullF("q", n, min, max, 0))
			}
		}
	}
	for _, fl := range []int64{1, 49, 51, 99, 101, 1 << 40, 1 << 62, 1<<63 - 1, -1 << 62} {
		odd = append(odd, pullF("q", 3, 0, 0, fl), pullF("q", 3, 0, 20, fl), pullF("q", 3, base(-60), 0, fl))
	}
	return append(general(t...),
		Scenario{Name: "filters", Kinds: kinds(mem, red, clu), Depth: 1, Deep: 2, Wait: wait10, Targets: t, Setup: []Op{set}, Ops: pulls},
		Scenario{Name: "odd-filters", Kinds: kinds(mem, red, clu), Depth: 1, Deep: 2, Wait: wait10, Targets: t, Setup: []Op{set}, Ops: odd},
		Scenario{
			Name: "filter-histories", Kinds: kinds(mem, red, clu, mon, rmo), Depth: 4, Deep: 5, Wait: wait10, Targets: t, Setup: []Op{set},
			Ops: []Op{pull("q", 1), pull("q", 4), pullF("q", 2, 10, 20, 0), pullF("q", 3, 15, 0, 0), pullF("q", 1, 0, 20, 0), pullF("q", 5, 0, 0, 75), pull("r", 2), score(nack("q", "b"), 10), nack("q", "a"), score(ack("q", "c"), 20), ack("q", "neg"), remove("q", "a"), add(msg("q", "e", 20)), timeout, pass(1100)},
		},
		Scenario{
			Name: "many", Kinds: kinds(mem, red, clu, mon), Depth: 2, Deep: 3, Wait: 0, Targets: t, Setup: []Op{bulk("q", "m", 1205, 3)},
			Ops: []Op{pull("q", 1000), pull("q", 1001), pull("q", 999), pull("q", 2147483647), pullF("q", 1000, 100, 0, 0), pullF("q", 50, 0, 60, 0), pull("q", 1)},
		},
		Scenario{
			Name: "insert-orders", Kinds: kinds(mem, red), Depth: 5, Deep: 6, Wait: wait10, Targets: t, Once: true,
			Ops: []Op{add(msg("q", "a", 20)), add(msg("q", "b", 10)), add(msg("q", "c", 20)), add(msg("q", "d", 30), msg("q", "e", 10)), add(msg("q", "f", 0)), add(msg("q", "g", -3), msg("q", "h", MaxScore)), pull("q", 1), pullF("q", 1, 15, 0, 0)},
		})
}

func c05() []Scenario {
	t := []string{"deliver-locked", "missing:unlock", "order:unlock", "missing:ack", "missing:nack", "unlock-ids", "error"}
	a, b, c, d := msg("q", "a", 10), msg("q", "b", 20), msg("q", "c", 30), msg("q", "d", 40)
	return append(general(t...),
		Scenario{
			Name: "lock-times", Kinds: kinds(mem, red, clu), Depth: 4, Deep: 6, Wait: wait10, Relock: true, Targets: t,
			Setup: []Op{add(a, b, msg("q", "z", 15)), pull("q", 2)},
			Ops: []Op{lock(ack("q", "a"), lk), lock(nack("q", "a"), 1500), lock(ack("q", "z"), 1500), lock(nack("q", "z"), lk), score(lock(ack("q", "a"), lk), 25), score(lock(nack("q", "z"), lk), 17),
				unlock, pass(699), pass(2), pass(801), pull("q", 1)},
		},
		Scenario{
			Name: "lock-queues", Kinds: kinds(mem, red, clu), Depth: 4, Deep: 5, Wait: wait10, Relock: true, Targets: t,
			Setup: []Op{add(a, msg("qq", "a", 5), msg("q::s", "a", 5), msg("q", "e", 12)), pull("q", 1), pull("qq", 1), pull("q::s", 1)},
			Ops: []Op{lock(ack("q", "a"), lk), lock(nack("q", "a"), 1500), lock(ack("qq", "a"), 1500), lock(nack("qq", "a"), lk), lock(ack("q::s", "a"), lk), lock(nack("q::s", "a"), 1500), score(lock(ack("qq", "a"), 1500), 3),
				unlock, pass(702), pass(801), pull("q", 1)},
		},
		Scenario{
			Name: "lock-scores", Kinds: kinds(mem, red, clu), Depth: 5, Deep: 6, Wait: wait10, Relock: true, Targets: t,
			Setup: []Op{add(a, b, msg("q", "far", 5e15)), pull("q", 1)},
			Ops: []Op{score(lock(ack("q", "a"), lk), 15), score(lock(ack("q", "a"), lk), -15), score(lock(nack("q", "a"), lk), 25), score(lock(nack("q", "a"), lk), 3e17), lock(ack("q", "a"), lk), lock(nack("q", "a"), lk),
				unlock, pass(1100), pull("q", 1), remove("q", "a"), add(a)},
		},
		Scenario{
			Name: "many-locked", Kinds: kinds(mem, red, clu), Depth: 3, Deep: 4, Wait: wait10, Relock: true, Targets: t,
			Setup: append([]Op{bulk("q", "m", 9, 5), bulk("r", "n", 5, 5), pull("q", 9), pull("r", 5)}, lockAll()...),
			Ops:   []Op{unlock, pass(702), pass(801), pull("q", 3), pull("r", 2), nack("q", "m8"), lose, recov},
		},
		Scenario{
			Name: "both-kinds", Kinds: kinds(mem, red, clu), Depth: 6, Deep: 7, Wait: wait10, Relock: true, Targets: t, Once: true,
			Setup: []Op{add(a, b, c, d), pull("q", 4)},
			Ops:   []Op{lock(ack("q", "a"), 300), lock(ack("q", "b"), 1200), lock(nack("q", "c"), 300), score(lock(nack("q", "d"), 1200), 7), unlock, pass(400), pass(1100), pull("q", 2)},
		},
		Scenario{
			Name: "odd-locks", Kinds: kinds(mem, red, clu), Depth: 3, Deep: 4, Targets: t, NoProbe: true,
			Setup: []Op{add(a), pull("q", 1)},
			Ops:   []Op{lock(ack("q", "a"), 1<<62), lock(nack("q", "a"), 1<<63-1), lock(ack("q", "a"), 1<<63-1), lock(nack("q", "a"), 1<<52), lock(ack("q", "a"), -1<<62), unlock, pass(1100), pull("q", 1)},
		})
}

func lockAll() []Op {
	var r []Op
	for i, id := range []string{"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"} {
		o := ack("q", id)
		if i%2 == 1 {
			o = nack("q", id)
		}
		if i%3 == 0 {
			o = score(o, float64(50-i))
		}
		o = lock(o, []int64{lk, 1500}[i/2%2])
		r = append(r, o)
	}
	for i, id := range []string{"n0", "n1", "n2", "n3"} {
		o := nack("r", id)
		if i%2 == 1 {
			o = ack("r", id)
		}
		r = append(r, lock(o, []int64{lk, 1500}[i/2%2]))
	}
	return r
}
