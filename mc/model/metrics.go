package model

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/verifx/sut"
)

// Prefix is the part of a queue name before its first double colon.
func Prefix(q string) string {
	if i := strings.Index(q, "::"); i >= 0 {
		return q[:i]
	}
	return q
}

// metrics runs a metrics computation and compares what is exposed with the
// stored messages. Messages that have expired but were not swept may count or not.
func (x *Stepper) metrics(compute func()) {
	t0 := time.Now()
	compute()
	t1 := time.Now()
	total, err := sut.Gauges("deckard_total_messages")
	oldest, err2 := sut.Gauges("deckard_oldest_message")
	if err != nil || err2 != nil {
		x.disc(fmt.Sprintf("the queue metrics cannot be read: %v %v", err, err2), "metrics")
		return
	}
	x.CheckMetrics(total, oldest, t0, t1)
}

// CheckMetrics compares reported values, computed between two wall clock times.
func (x *Stepper) CheckMetrics(total, oldest map[string]float64, t0, t1 time.Time) {
	st, now := x.St, sut.Now().UnixNano()
	type truth struct {
		sure, maybe int
		use         []int64 // last usages of the messages that count
		exp         []int64 // and of expired ones
	}
	tr := map[string]*truth{}
	for k, m := range st.M {
		if !m.Stored {
			continue
		}
		p := Prefix(k.Q)
		if tr[p] == nil {
			tr[p] = &truth{}
		}
		if st.expired(m, now) {
			tr[p].maybe++
			tr[p].exp = append(tr[p].exp, m.LastUsage)
		} else {
			tr[p].sure++
			tr[p].use = append(tr[p].use, m.LastUsage)
		}
	}
	age := func(lu int64, t time.Time) float64 { return float64(t.UnixNano()-lu) / 1e6 }
	names := map[string]bool{}
	for p := range tr {
		names[p] = true
	}
	for p := range total {
		names[p] = true
	}
	for p := range oldest {
		names[p] = true
	}
	for p := range st.Reported {
		names[strings.TrimPrefix(p, "age of ")] = true
	}
	var ns []string
	for p := range names {
		ns = append(ns, p)
	}
	sort.Strings(ns)
	for _, p := range ns {
		t := tr[p]
		if t == nil {
			t = &truth{}
		}
		got, ok := total[p]
		if !ok && (t.sure > 0 || st.Reported[p]) {
			x.disc(fmt.Sprintf("no total is reported for the queue %q with %d messages", p, t.sure), "metrics")
		}
		if ok && (got < float64(t.sure) || got > float64(t.sure+t.maybe)) {
			x.disc(fmt.Sprintf("the total of the queue %q is reported as %v; %d messages are stored (and %d expired)", p, got, t.sure, t.maybe), "metrics")
		}
		got, ok = oldest[p]
		if !ok && (t.sure > 0 || st.Reported["age of "+p]) {
			x.disc(fmt.Sprintf("no oldest message age is reported for the queue %q with %d messages", p, t.sure), "metrics")
		}
		if ok {
			match := t.sure == 0 && got == 0
			min := int64(math.MaxInt64)
			for _, u := range t.use {
				if u < min {
					min = u
				}
			}
			for _, u := range append(t.exp, min) {
				if u <= min && u != math.MaxInt64 && got > age(u, t0)-2 && got < age(u, t1)+2 {
					match = true
				}
			}
			if !match {
				what := fmt.Sprintf("%.0f s too old", (got-age(min, t1))/1000)
				if t.sure == 0 {
					what = "neither 0 nor that of a message"
				} else if got < age(min, t1) {
					what = fmt.Sprintf("%.0f s too young", (age(min, t1)-got)/1000)
				}
				x.disc(fmt.Sprintf("the reported age of the oldest of %d messages of the queue %q is %s", t.sure, p, what), "metrics")
			}
		}
	}
	for p := range total {
		st.Reported[p] = true
	}
	for p := range oldest {
		st.Reported["age of "+p] = true
	}
}
