package model

import (
	"fmt"
	"sort"
	"time"

	"github.com/takenet/deckard/internal/verifx/sut"
)

// Probe drains the deployment through the public interface and checks
// everything a client could see. It changes the deployment.
func (x *Stepper) Probe(wait time.Duration, get, relock, min bool) ([]Disc, []string) {
	var all []Disc
	var log []string
	do := func(o Op) bool {
		d := x.Do(o)
		log = append(log, o.String()+" "+x.Out)
		all = append(all, d...)
		return Soft(d)
	}
	qs := x.queueNames()
	if get {
		for _, q := range qs {
			if !do(Op{K: Count, Q: q}) {
				return all, log
			}
		}
		ks := sortedKeys(x.St.M)
		for _, k := range ks {
			if !do(Op{K: Get, Q: k.Q, IDs: []string{k.ID}}) {
				return all, log
			}
		}
	}
	drain := func() bool {
		for _, q := range qs {
			// One by one shows the order, the last pull that nothing is left.
			n := 0
			for k, m := range x.St.M {
				if k.Q == q && m.Pool == Avail {
					n++
				}
			}
			for i := 0; i < n-1 && i < 3; i++ {
				if !do(Op{K: Pull, Q: q, N: 1, Deadline: 3600000}) {
					return false
				}
			}
			last := Op{K: Pull, Q: q, N: 1000, Deadline: 3600000}
			if min && !do(Op{K: Pull, Q: q, N: 1000, Deadline: 3600000, Min: -1}) {
				return false
			}
			if !do(last) {
				return false
			}
		}
		return true
	}
	if !drain() {
		return all, log
	}
	if wait == 0 {
		return all, log
	}
	// Everything processing (with a shorter deadline) or locked comes back.
	if !do(Op{K: Advance, D: wait}) || !do(Op{K: Timeout}) || !do(Op{K: Unlock}) || !drain() {
		return all, log
	}
	if !relock {
		return all, log
	}
	// Everything is locked without a requested score (every other one after a
	// nack, then the other way round) and released: nothing of an earlier lock
	// may show.
	for round := 0; round < 2; round++ {
		for i, k := range sortedKeys(x.St.M) {
			if x.St.M[k].Pool != Proc {
				continue
			}
			o := Op{K: Ack, Q: k.Q, IDs: []string{k.ID}, Lock: 100}
			if (i+round)%2 == 1 {
				o.K = Nack
			}
			if !do(o) {
				return all, log
			}
		}
		if !do(Op{K: Advance, D: time.Second}) || !do(Op{K: Unlock}) {
			return all, log
		}
		for _, q := range qs {
			if !do(Op{K: Add, Adds: []AddMsg{{Q: q, ID: fmt.Sprint("\x01probe", round), Score: float64(sut.NowMs() - 10000), TTL: 100, C: 1}}}) {
				return all, log
			}
		}
		if !drain() {
			return all, log
		}
	}
	return all, log
}

// SortOps gives a stable order for printing.
func SortOps(o []Op) { sort.Slice(o, func(i, j int) bool { return o[i].String() < o[j].String() }) }
