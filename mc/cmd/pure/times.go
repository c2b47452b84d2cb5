package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/verifx/vx"
)

var timeAssumptions = []string{
	"Times in years 1 to 9999, milliseconds in the range time.Time can hold.",
}

const timeRule = "Every point of a lattice of times (bases at zero, powers of two and ten, the limits of nanosecond counts, year ends, in both signs; each with every offset of nanoseconds, microseconds and milliseconds around a boundary) through every conversion, every pair of neighbours and of bases for order; and every sequence of up to four clock operations (replace by a fixed, moving or listed clock, restore through an older or newer handle, read) against a model of the clock."

func lattice(thorough bool) []time.Time {
	var secs []int64
	add := func(s ...int64) { secs = append(secs, s...) }
	add(0, 1, 59, 60, 3600, 86399, 86400, 1704067200, 253402300799, 4102444800, 9223372036, 9223372037)
	for i := 0; i < 38; i++ {
		add(1<<i, 1<<i-1, 1<<i+1)
	}
	for p := int64(1); p < 200000000000; p *= 10 {
		add(p, p-1, p+1)
	}
	n := len(secs)
	for i := 0; i < n; i++ {
		secs = append(secs, -secs[i])
	}
	var offs []int64
	base := []int64{0, 1, 2, 499, 500, 999, 1000, 1001, 499999, 500000, 500001, 999000, 999998, 999999, 1000000, 1000001, 1999999, 2000000, 123456789, 500000000, 998999999, 999000000, 999000001, 999999998, 999999999}
	if thorough {
		for i := int64(0); i < 1000; i += 7 {
			base = append(base, i*1e6, i*1e6+1, i*1e6+999999, i*1e6+i*1000)
		}
	}
	seen := map[int64]bool{}
	for _, b := range base {
		if !seen[b] {
			seen[b] = true
			offs = append(offs, b)
		}
	}
	var r []time.Time
	lo, hi := time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC)
	for _, s := range secs {
		for _, o := range offs {
			t := time.Unix(s, o).UTC()
			if !t.Before(lo) && t.Before(hi) {
				r = append(r, t)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Before(r[j]) })
	out := r[:0]
	for i, t := range r {
		if i == 0 || !t.Equal(out[len(out)-1]) {
			out = append(out, t)
		}
	}
	return out
}

func conversions(t *vx.T) {
	l := lattice(t.Thorough())
	ms := make([]int64, len(l))
	for i, x := range l {
		t.Step(x.String())
		t.States++
		t.Trans += 3
		m := dtime.TimeToMs(&x)
		ms[i] = m
		back := dtime.MsToTime(m)
		if d := back.Sub(x); d <= -time.Millisecond || d >= time.Millisecond {
			t.Fail("moves@"+x.String(), fmt.Sprintf("%v becomes %d ms, which is %v", x, m, back), nil)
		}
		if p := dtime.MsPrecision(&x); !p.Equal(back) {
			t.Fail("precision@"+x.String(), fmt.Sprintf("%v truncated is %v, but through milliseconds it is %v", x, p, back), nil)
		}
		if d := dtime.MsPrecision(&x).Sub(x); d <= -time.Millisecond || d >= time.Millisecond {
			t.Fail("truncated@"+x.String(), fmt.Sprintf("%v truncated to milliseconds moves by %v", x, d), nil)
		}
		if x.Unix() >= 0 && back.After(x) {
			t.Fail("later@"+x.String(), fmt.Sprintf("%v truncated to milliseconds is later: %v", x, back), nil)
		}
		p := dtime.MsPrecision(&x)
		if q := dtime.MsPrecision(&p); !q.Equal(p) {
			t.Fail("idempotent@"+x.String(), fmt.Sprintf("%v truncated twice is %v", p, q), nil)
		}
		// Another zone is the same time.
		z := x.In(time.FixedZone("x", -4*3600))
		if dtime.TimeToMs(&z) != m {
			t.Fail("zone@"+x.String(), fmt.Sprintf("%v is %d ms but %d ms in another zone", x, m, dtime.TimeToMs(&z)), nil)
		}
		if i > 0 && ms[i-1] > m {
			t.Fail("order@"+x.String(), fmt.Sprintf("%v is %d ms but the later %v is %d ms", l[i-1], ms[i-1], x, m), nil)
		}
		if len(t.Violations) >= 5 {
			return
		}
	}
	// Milliseconds there and back.
	var m []int64
	for _, v := range ms {
		m = append(m, v-1, v, v+1)
	}
	for i := 0; i < 57; i++ {
		m = append(m, 1<<i, -(1 << i), 1<<i+1, -(1<<i + 1))
	}
	for i := int64(-2100); i < 2100; i++ {
		m = append(m, i)
	}
	for _, v := range m {
		if v > math.MaxInt64/1000 || v < math.MinInt64/1000 {
			continue
		}
		t.Step(fmt.Sprint(v))
		t.States++
		t.Trans++
		x := dtime.MsToTime(v)
		if b := dtime.TimeToMs(&x); b != v {
			t.Fail(fmt.Sprintf("back@%d", v), fmt.Sprintf("%d ms is %v, which is %d ms", v, x, b), nil)
			if len(t.Violations) >= 5 {
				return
			}
		}
		if w := time.UnixMilli(v); !x.Equal(w) {
			t.Fail(fmt.Sprintf("to@%d", v), fmt.Sprintf("%d ms is %v instead of %v", v, x, w), nil)
		}
	}
	t.Traces++
}

// clocks explores the sequences of clock operations.
func clocks(t *vx.T) {
	base := time.Date(2024, 5, 6, 7, 8, 9, 123456789, time.UTC)
	type model struct {
		kind int // 0 real, 1 fixed, 2 moving, 3 listed
		n    int
	}
	names := []string{"fixed clock", "moving clock", "list of three", "list of one", "restore the first", "restore the last", "read", "read milliseconds"}
	depth := 4
	if t.Thorough() {
		depth = 6
	}
	var seq []int
	var run func()
	run = func() {
		if len(seq) > 0 {
			t.Traces++
			var tr []string
			for _, o := range seq {
				tr = append(tr, names[o])
			}
			t.Step(fmt.Sprint(tr))
			var resets []func()
			m := model{}
			moving := 0
			read := func(what string, i int) {
				t.Trans++
				before := time.Now()
				var got time.Time
				prec := time.Duration(0)
				if what == "ms" {
					got = time.UnixMilli(dtime.NowMs())
					prec = time.Millisecond
				} else {
					got = dtime.Now()
				}
				after := time.Now()
				lo, hi := before, after
				switch m.kind {
				case 1:
					lo = base
					hi = lo
				case 2:
					lo = base.Add(time.Duration(moving) * time.Hour)
					hi = lo
				case 3:
					lo = base.Add(time.Duration(m.n) * time.Minute)
					hi = lo
					if m.n < 2 {
						m.n++
					}
				}
				if got.Before(lo.Add(-prec)) || got.After(hi) {
					t.Fail(fmt.Sprint("clock ", tr[:i+1]), fmt.Sprintf("after %v the clock says %v instead of %v", tr[:i+1], got, lo), tr)
				}
			}
			for i, o := range seq {
				switch o {
				case 0:
					resets = append(resets, dtime.SetNowProvider(func() time.Time { return base }))
					m = model{kind: 1}
				case 1:
					moving = 0
					resets = append(resets, dtime.SetNowProvider(func() time.Time { moving++; return base.Add(time.Duration(moving) * time.Hour) }))
					m = model{kind: 2}
				case 2:
					resets = append(resets, dtime.SetNowProviderValues(base, base.Add(time.Minute), base.Add(2*time.Minute)))
					m = model{kind: 3}
				case 3:
					resets = append(resets, dtime.SetNowProviderValues(base.Add(2*time.Minute)))
					m = model{kind: 3, n: 2}
				case 4, 5:
					if len(resets) == 0 {
						continue
					}
					if o == 4 {
						resets[0]()
					} else {
						resets[len(resets)-1]()
					}
					m = model{}
				case 6:
					read("", i)
				case 7:
					read("ms", i)
				}
			}
			read("", len(seq)-1)
			dtime.SetNowProvider(time.Now)()
		}
		if len(seq) == depth || len(t.Violations) > 0 {
			return
		}
		for o := range names {
			seq = append(seq, o)
			run()
			seq = seq[:len(seq)-1]
		}
	}
	run()
	t.States++
}

// elapsed: never negative for a past time, whole milliseconds.
func elapsed(t *vx.T) {
	for _, d := range []time.Duration{0, time.Microsecond, 999 * time.Microsecond, time.Millisecond, 1500 * time.Microsecond, time.Second, time.Hour, 100 * 24 * time.Hour} {
		t.States++
		t.Trans++
		before := time.Now()
		got := dtime.ElapsedTime(before.Add(-d))
		max := (time.Since(before) + d) / time.Millisecond
		if got < int64(d/time.Millisecond) || got > int64(max) {
			t.Fail(fmt.Sprint("elapsed ", d), fmt.Sprintf("%v ago is %d ms ago", d, got), nil)
		}
	}
	t.Traces++
}

func timeJobs(tier string) []vx.Job {
	return []vx.Job{{Name: "conversions", Fn: conversions}, {Name: "clocks", Fn: clocks}, {Name: "elapsed", Fn: elapsed}}
}
