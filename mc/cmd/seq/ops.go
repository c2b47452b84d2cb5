package main

import (
	"math"
	"strconv"
	"time"

	. "github.com/takenet/deckard/internal/verifx/model"
	"github.com/takenet/deckard/internal/verifx/sut"
)

var (
	mem = sut.Kind{Cache: "memory", Store: "memory"}
	red = sut.Kind{Cache: "redis", Store: "memory"}
	clu = sut.Kind{Cache: "cluster", Store: "memory"}
	mon = sut.Kind{Cache: "memory", Store: "mongo"}
	rmo = sut.Kind{Cache: "redis", Store: "mongo"}
	rep = sut.Kind{Cache: "memory", Store: "replica"}
	cre = sut.Kind{Cache: "cluster", Store: "replica"}
)

const (
	week = 10080
	dl   = 1000 // ack deadline in ms
	lk   = 700  // lock in ms
)

func msg(q, id string, sc float64) AddMsg { return AddMsg{Q: q, ID: id, Score: sc, TTL: week, C: 1} }
func content(m AddMsg, c int) AddMsg      { m.C = c; return m }
func ttl(m AddMsg, t int64) AddMsg        { m.TTL = t; return m }
func timeless(m AddMsg) AddMsg            { m.Timeless = true; m.TTL = 0; return m }
func add(m ...AddMsg) Op                  { return Op{K: Add, Adds: m} }
func pull(q string, n int32) Op           { return Op{K: Pull, Q: q, N: n, Deadline: dl} }
func ack(q, id string) Op                 { return Op{K: Ack, Q: q, IDs: []string{id}} }
func nack(q, id string) Op                { return Op{K: Nack, Q: q, IDs: []string{id}} }
func lock(o Op, ms int64) Op              { o.Lock = ms; return o }
func score(o Op, s float64) Op            { o.Score = s; return o }
func bp(o Op, s string) Op                { o.BP = s; return o }
func withRemove(o Op) Op                  { o.Rm = true; return o }
func remove(q string, ids ...string) Op   { return Op{K: Remove, Q: q, IDs: ids} }
func count(q string) Op                   { return Op{K: Count, Q: q} }
func get(q, id string) Op                 { return Op{K: Get, Q: q, IDs: []string{id}} }
func edit(q string, n int64) Op           { return Op{K: Edit, Q: q, Limit: n} }
func cfg(q string) Op                     { return Op{K: GetCfg, Q: q} }
func on(i int, o Op) Op                   { o.Inst = i; return o }
func pass(ms int64) Op                    { return Op{K: Advance, D: time.Duration(ms) * time.Millisecond} }
func minutes(m int64) Op                  { return Op{K: Advance, D: time.Duration(m) * time.Minute} }

var (
	timeout = Op{K: Timeout}
	unlock  = Op{K: Unlock}
	ttlOp   = Op{K: TTL}
	exceed  = Op{K: Exceed}
	recov   = Op{K: Recover}
	flush   = Op{K: Flush}
	lose    = Op{K: Lose}
	restart = Op{K: Restart}
	metrics = Op{K: Metrics}
	wait10  = 10 * time.Minute
)

var markRec = Op{K: MarkRec}

// bulk adds n messages with ascending scores.
func bulk(q, prefix string, n int, score0 float64) Op {
	o := Op{K: Add}
	for i := 0; i < n; i++ {
		o.Adds = append(o.Adds, msg(q, prefix+strconv.Itoa(i), score0+float64(i)))
	}
	return o
}

func pullF(q string, n int32, min, max float64, filter int64) Op {
	return Op{K: Pull, Q: q, N: n, Min: min, Max: max, Filter: filter, Deadline: dl}
}

func deadline(o Op, ms int64) Op { o.Deadline = ms; return o }

func base(ms int64) float64 { return float64(sut.Base.UnixMilli() + ms) }

var (
	nan          = math.NaN()
	inf          = math.Inf(1)
	twoInstances = sut.Options{Instances: 2}
)

func vanish(q string, ids ...string) Op { return Op{K: Vanish, Q: q, IDs: ids} }
func macro(o ...Op) Op                  { return Op{K: Macro, Seq: o} }
