package main

import (
	. "github.com/takenet/deckard/internal/verifx/explore"
	. "github.com/takenet/deckard/internal/verifx/model"
)

func c11() []Scenario {
	t := []string{"deliver-removed", "missing*", "count", "get*", "drop", "expired", "error", "ttl"}
	a, b, c, d := ttl(msg("q", "a", 10), 1), ttl(msg("q", "b", 20), 2), timeless(msg("q", "c", 30)), ttl(msg("r", "d", 5), 1)
	return []Scenario{
		{
			Name: "expiry", Kinds: kinds(mem, red, mon, rmo, cre), Depth: 4, Deep: 5, Wait: wait10, Targets: t, Reads: true,
			Setup: []Op{add(a, b, c, d)},
			Ops:   []Op{ttlOp, pass(59000), pass(2000), minutes(3 * week), add(a), add(ttl(a, 3), ttl(d, 0)), add(timeless(b)), add(ttl(c, 1)), pull("q", 2), ack("q", "a"), markRec, recov},
		},
		{
			Name: "expiry-states", Kinds: kinds(mem, red, clu, mon), Depth: 5, Deep: 6, Wait: wait10, Targets: t, Reads: true,
			Setup: []Op{add(a, b)},
			Ops:   []Op{pull("q", 1), lock(ack("q", "a"), lk), score(lock(nack("q", "a"), 70000), 4), nack("q", "a"), ttlOp, pass(61000), timeout, unlock, add(a)},
		},
		{
			Name: "long-expiry", Kinds: kinds(mem, mon), Depth: 3, Deep: 4, Wait: wait10, Targets: t, Reads: true,
			Ops: []Op{add(ttl(a, week)), add(ttl(b, 52600*1000)), add(c), add(ttl(c, 9)), add(ttl(a, 0)), add(ttl(b, -5)), ttlOp, minutes(week - 1), minutes(2), minutes(52600 * 99), restart},
		},
		{
			Name: "many-expired", Kinds: kinds(mem, red, clu, mon), Depth: 3, Deep: 4, Targets: t,
			Setup: []Op{ttlBulk("q", "m", 1000, 1), ttlBulk("r", "m", 30, 1), ttlBulk("q", "n", 30, 5)},
			Ops:   []Op{ttlOp, minutes(2), pull("q", 50), minutes(10)},
		},
	}
}

func ttlBulk(q, p string, n int, t int64) Op {
	o := bulk(q, p, n, 3)
	for i := range o.Adds {
		o.Adds[i].TTL = t
	}
	return o
}

func c12() []Scenario {
	t := []string{"missing*", "count", "get*", "deliver-removed", "error", "exceed", "drop"}
	m := func(q, id string, t int64) AddMsg { return ttl(msg(q, id, 10), t) }
	return []Scenario{
		{
			Name: "limits", Kinds: kinds(mem, mon, rmo, red), Depth: 4, Deep: 5, Wait: wait10, Targets: t, Reads: true,
			Setup: []Op{add(m("q", "a", 30), m("q", "b", 20), m("q", "c", 20), m("qq", "d", 5), m("q::x", "e", 7))},
			Ops:   []Op{exceed, edit("q", 1), edit("q", 2), edit("q", 3), edit("q", 5), edit("q", -1), edit("q", 0), edit("qq", 1), edit("q::x", 1), add(m("q", "a", 10)), add(m("qq", "f", 4), timeless(msg("qq", "g", 3))), pull("q", 1), markRec, ttlOp},
		},
		{
			Name: "trim-orders", Kinds: kinds(mem, mon), Depth: 6, Deep: 7, Wait: wait10, Targets: t, Reads: true, Once: true,
			Setup: []Op{edit("q", 2)},
			Ops:   []Op{add(m("q", "a", 30)), add(m("q", "b", 20)), add(m("q", "c", 20), m("q", "d", 40)), add(timeless(msg("q", "e", 1))), add(m("q", "b", 50)), exceed, minutes(25)},
		},
		{
			Name: "trim-expired", Kinds: kinds(mem, mon, cre), Depth: 5, Deep: 6, Wait: wait10, Targets: t, Reads: true,
			Setup: []Op{edit("q", 2), add(m("q", "a", 30), m("q", "b", 20), m("q", "c", 10))},
			Ops:   []Op{exceed, minutes(15), add(m("q", "d", 5)), add(m("q", "e", 60), m("q", "f", 40)), ttlOp, edit("q", 1), remove("q", "a"), markRec, recov},
		},
		{
			Name: "trim-many", Kinds: kinds(mem, red, mon), Depth: 3, Deep: 3, Targets: t,
			Setup: []Op{ttlBulk("q", "m", 230, 30), ttlBulk("q", "n", 50, 20), ttlBulk("r", "m", 30, 10), edit("r", 40)},
			Ops:   []Op{exceed, edit("q", 240), edit("q", 100), edit("r", 10), pull("q", 30)},
		},
	}
}

func c13() []Scenario {
	t := []string{"config", "error", "missing*", "count", "deliver-removed", "exceed"}
	m := func(q, id string, t int64) AddMsg { return ttl(msg(q, id, 10), t) }
	return []Scenario{
		{
			Name: "edits", Kinds: kinds(mem, mon, rmo), Depth: 4, Deep: 5, Targets: t, Opt: twoInstances, NoProbe: true,
			Ops: []Op{edit("q", 1), edit("q", 2), edit("q", -3), edit("q", 0), {K: Edit, Q: "q", NoCfg: true}, on(1, edit("q", 1)), on(1, edit("q", 3)), cfg("q"), on(1, cfg("q")), edit("qq", 7), cfg("qq"), minutes(4), minutes(11)},
		},
		{
			Name: "edits-apart", Kinds: kinds(mem, mon), Depth: 6, Deep: 7, Targets: t, Opt: twoInstances, NoProbe: true,
			Ops: []Op{edit("q", 1), edit("q", 2), on(1, edit("q", 1)), on(1, edit("q", 2)), cfg("q"), on(1, cfg("q")), minutes(11)},
		},
		{
			Name: "enforced", Kinds: kinds(mem, rmo), Depth: 4, Deep: 5, Wait: wait10, Targets: t, Reads: true, Opt: twoInstances,
			Setup: []Op{add(m("q", "a", 30), m("q", "b", 20), m("q", "c", 10))},
			Ops:   []Op{edit("q", 1), edit("q", 2), edit("q", -3), edit("q", 0), on(1, edit("q", 2)), on(1, exceed), exceed, cfg("q"), on(1, cfg("q")), add(m("q", "d", 50)), restart, minutes(11)},
		},
	}
}

func c14() []Scenario {
	t := []string{"missing*", "order*", "deliver*", "drop", "recovery-stop", "pull-filter", "error", "content", "score", "diagnostics"}
	a, b := msg("q", "a", 10), msg("q", "b", 20)
	return []Scenario{
		{
			Name: "losses", Kinds: kinds(mem, red, clu, mon, rmo, cre), Depth: 4, Deep: 5, Wait: wait10, Min: true, Targets: t,
			Setup: []Op{add(a, b, msg("r", "c", 5))},
			Ops:   []Op{lose, recov, pull("q", 1), ack("q", "a"), lock(nack("q", "a"), lk), remove("q", "b"), add(msg("q", "d", 15)), timeout, unlock, restart, pass(1100), on(1, recov), ttlOp},
			Opt:   twoInstances,
		},
		{
			Name: "stored-scores", Kinds: kinds(mem, rmo, cre), Depth: 4, Deep: 5, Wait: wait10, Min: true, Targets: t,
			Setup: []Op{add(a, b, msg("q", "c", 1e17)), pull("q", 3)},
			Ops:   []Op{lose, recov, score(ack("q", "a"), 25), score(nack("q", "b"), 1e18), lock(ack("q", "a"), lk), lock(nack("q", "c"), lk), score(lock(ack("q", "c"), lk), 7), nack("q", "a"), unlock, pull("q", 1), pass(1100)},
		},
		{
			Name: "lagging-replica", Kinds: kinds(rep, cre), Depth: 5, Deep: 6, Wait: wait10, Min: true, Targets: append(t, "recovery-lag"), Max: map[Kind]int{Desync: 1},
			Setup: []Op{add(a, b, msg("q", "c", 15))},
			Ops:   []Op{lose, recov, {K: Desync, Q: "q", IDs: []string{"a"}}, {K: Desync, Q: "q", IDs: []string{"b", "c"}}, {K: Desync, Q: "q", IDs: []string{"a", "b", "c"}}, {K: Sync}, pull("q", 1), nack("q", "a"), remove("q", "b")},
		},
		{
			Name: "again", Kinds: kinds(mem, red, mon), Depth: 6, Deep: 8, Wait: wait10, Min: true, Targets: t,
			Setup: []Op{add(a, b)},
			Ops:   []Op{lose, recov, pull("q", 1), ack("q", "a"), remove("q", "a"), add(msg("q", "e", 1))},
		},
	}
}

func c19() []Scenario {
	t := []string{"flush", "deliver*", "count", "get*", "config", "missing*", "order*", "error", "add-counts", "score", "diagnostics", "breakpoint", "content", "ack-result", "remove-counts", "recovery-stop"}
	a, b := msg("q", "a", 10), msg("r", "b", 20)
	return []Scenario{
		{
			Name: "flush", Kinds: kinds(mem, red, clu, mon, rmo, rep), Depth: 4, Deep: 5, Wait: wait10, Targets: t, Reads: true, Max: map[Kind]int{Flush: 2},
			Setup: []Op{add(a, b)},
			Ops:   []Op{flush, pull("q", 1), bp(ack("q", "a"), "p"), lock(ack("q", "a"), lk), score(lock(nack("q", "a"), lk), 3), add(msg("q", "a", 30)), add(content(msg("q", "c", 5), 2)), edit("q", 3), cfg("q"), timeout, unlock, recov, pass(1100), remove("q", "a"), exceed},
		},
		{
			Name: "after-flush", Kinds: kinds(mem, red, mon), Depth: 5, Deep: 6, Wait: wait10, Targets: t, Reads: true, Max: map[Kind]int{Flush: 1},
			Setup: []Op{add(a, b, msg("q", "c", 15)), edit("q", 1), cfg("r"), pull("q", 1), score(lock(ack("q", "a"), lk), 2), pull("r", 1)},
			Ops:   []Op{flush, add(msg("q", "a", 30), msg("q", "d", 5)), pull("q", 1), nack("r", "b"), lock(nack("q", "a"), lk), unlock, exceed, pass(1100), edit("r", 4), cfg("r")},
		},
	}
}

func c20() []Scenario {
	t := []string{"audit", "error"}
	a, b := msg("q", "a", 10), msg("q::s", "b", 20)
	return append(general(t...),
		Scenario{
			Name: "audited", Kinds: kinds(mem, red, mon, cre), Depth: 4, Deep: 5, Wait: wait10, Targets: t,
			Setup: []Op{add(a, b, msg("r", "c", 5)), pull("q", 1)},
			Ops:   []Op{pull("q", 2), pull("q::s", 1), pull("r", 1), ack("q", "a"), lock(ack("q", "a"), lk), lock(nack("q::s", "b"), lk), nack("r", "c"), remove("q", "a", "zz"), remove("r", "a", "c", "c"), withRemove(ack("q::s", "b")), add(a, msg("r", "a", 7)), timeout, unlock, pass(1100)},
		},
		Scenario{
			Name: "audited-tasks", Kinds: kinds(mem, red, mon), Depth: 4, Deep: 5, Wait: wait10, Targets: t,
			Setup: []Op{add(ttl(a, 1), ttl(b, 2), ttl(msg("r", "c", 5), 1), msg("r", "d", 6)), edit("r", 1)},
			Ops:   []Op{pull("q", 1), pull("r", 2), ttlOp, exceed, lose, recov, minutes(1), pass(1100), timeout, lock(ack("r", "c"), lk), lock(nack("r", "d"), lk), unlock},
		},
		Scenario{
			Name: "audited-missing", Kinds: kinds(rep, cre), Depth: 4, Deep: 5, Wait: wait10, Targets: t, Max: map[Kind]int{Desync: 1},
			Setup: []Op{add(msg("q", "a", 10), msg("q", "b", 20), msg("q", "c", 15))},
			Ops:   []Op{{K: Desync, Q: "q", IDs: []string{"a"}}, {K: Desync, Q: "q", IDs: []string{"a", "c"}}, vanish("q", "b"), vanish("q", "a"), pull("q", 3), pull("q", 2), ack("q", "c"), {K: Sync}},
		},
		Scenario{
			Name: "audited-many", Kinds: kinds(mem, red), Depth: 3, Deep: 4, Wait: wait10, Targets: t,
			Setup: append([]Op{bulk("q", "m", 9, 5), bulk("r", "n", 5, 5), pull("q", 9), pull("r", 5)}, lockAll()...),
			Ops:   []Op{unlock, timeout, pass(702), pass(801), pull("q", 3), remove("q", "m0", "m1", "m8"), recov, lose},
		})
}

func c26() []Scenario {
	t := []string{"missing*", "drop", "deliver*", "order*", "response-order", "content", "error", "pull-count", "audit", "ack-result"}
	var desyncs []Op
	ids := []string{"a", "b", "c", "d"}
	for s := 1; s < 16; s++ {
		o := Op{K: Desync, Q: "q"}
		for i, id := range ids {
			if s>>i&1 == 1 {
				o.IDs = append(o.IDs, id)
			}
		}
		desyncs = append(desyncs, o)
	}
	var rest []Op
	for n := int32(1); n <= 5; n++ {
		rest = append(rest, pull("q", n))
	}
	rest = append(rest, pull("r", 2), remove("q", "a"), remove("q", "b", "d"), nack("q", "c"), score(ack("q", "a"), 17), vanish("q", "b"), vanish("q", "c", "a"), Op{K: Sync}, timeout, pass(1100))
	return []Scenario{
		{
			Name: "lag", Kinds: kinds(rep, cre), Depth: 3, Deep: 4, Wait: wait10, Targets: t, Max: map[Kind]int{Desync: 1},
			Setup: []Op{add(msg("q", "a", 10), msg("q", "b", 20), msg("q", "c", 15), msg("q", "d", 12), msg("r", "a", 5))},
			Ops:   append(desyncs, rest...),
		},
	}
}
