package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"

	prom "github.com/prometheus/client_golang/prometheus"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/storage"
	. "github.com/takenet/deckard/internal/verifx/explore"
	. "github.com/takenet/deckard/internal/verifx/model"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
	exporter "go.opentelemetry.io/otel/exporters/prometheus"
)

// C25: the queue metrics and the labels of everything exposed.

func c25() []Scenario {
	t := []string{"metrics", "error"}
	opt := sut.Options{Metrics: true}
	final := func(x *Stepper) []Disc { return append(x.Do(metrics), x.Do(metrics)...) }
	return []Scenario{
		{
			Name: "gauges", Kinds: kinds(mem, mon, rmo), Depth: 4, Deep: 5, Targets: t, Opt: opt, NoProbe: true, Final: final,
			Setup: []Op{add(msg("q", "a", 10), msg("q::x", "b", 20), msg("r::y::z", "c", 5))},
			Ops:   []Op{metrics, add(msg("q::x", "d", 3)), add(msg("s", "e", 1), msg("q", "a", 5)), macro(pull("q", 1), ack("q", "a")), macro(pull("q::x", 1), ack("q::x", "b")), macro(pull("q", 1), nack("q", "a")), remove("q", "a"), remove("q::x", "b", "d"), remove("r::y::z", "c"), pass(5000), minutes(3)},
		},
		{
			Name: "names", Kinds: kinds(mem, mon), Depth: 3, Deep: 4, Targets: t, Opt: opt, NoProbe: true, Final: final,
			Setup: []Op{add(msg("::x", "a", 10), msg("q:", "b", 20), msg("q:::x", "c", 20), msg("Q", "a", 1), msg("q ", "a", 1), msg("é\n\"\\::1", "d", 5), msg("*", "e", 5), msg("q", "f", 1))},
			Ops:   []Op{metrics, remove("::x", "a"), remove("q:::x", "c"), remove("q", "f"), remove("é\n\"\\::1", "d"), remove("*", "e"), remove("q:", "b"), add(msg("::x", "a", 10)), add(msg("q", "g", 1)), pass(5000)},
		},
		{
			Name: "expiring", Kinds: kinds(mem, mon), Depth: 4, Deep: 5, Targets: t, Opt: opt, NoProbe: true, Final: final,
			Setup: []Op{add(ttl(msg("q", "a", 10), 1), ttl(msg("q::x", "b", 20), 3), ttl(msg("r", "c", 5), 1)), pass(7000), add(timeless(msg("q", "d", 1)))},
			Ops:   []Op{metrics, ttlOp, minutes(1), minutes(2), macro(edit("q", 1), exceed), macro(pull("q", 9), ack("q", "a"), ack("q", "d")), add(ttl(msg("r", "c", 5), 2)), {K: Restart}, lose},
		},
	}
}

// gaugeFaults: every storage access of a metrics computation fails once; what
// is reported then is the truth or what was reported before.
func gaugeFaults(t *vx.T, k sut.Kind) {
	prepare := []Op{
		add(msg("q", "a", 10), msg("q::x", "b", 20), msg("r", "c", 5), msg("s", "d", 5)), metrics,
		add(msg("q", "e", 10), msg("s::1", "f", 10), msg("v", "g", 1)), metrics,
		remove("r", "c"), metrics,
		remove("q", "a", "e"), remove("q::x", "b"), add(msg("r", "h", 1), msg("r", "i", 1)), metrics,
	}
	for cut := 2; cut <= len(prepare); cut++ {
		for nth := 0; ; nth++ {
			t.Step(fmt.Sprint(cut, nth))
			t.Traces++
			n, armed, hit := 0, false, ""
			hook := func(after bool, c sut.Call) error {
				if !armed || after || !strings.HasPrefix(c.Op, "storage.") {
					return nil
				}
				n++
				if n-1 == nth {
					hit = c.Op
					return errors.New("injected failure")
				}
				return nil
			}
			o := sut.Options{Metrics: true}
			o.WrapStore = func(st storage.Storage) storage.Storage { return sut.HookStore{Storage: st, H: hook} }
			x := NewStepper(sut.New(k, o))
			bad := func(ds []Disc, tr ...string) {
				for _, d := range ds {
					t.Fail("gauge-faults@"+k.String()+": "+d.Msg, fmt.Sprintf("[%s] %s", k, d.Msg), tr)
				}
			}
			var tr []string
			for _, op := range prepare[:cut] {
				t.Trans++
				tr = append(tr, op.String())
				ds := x.Do(op)
				bad(ds, tr...)
				if len(ds) > 0 {
					return
				}
			}
			prevT, _ := sut.Gauges("deckard_total_messages")
			prevO, _ := sut.Gauges("deckard_oldest_message")
			armed = true
			tr = append(tr, fmt.Sprintf("metrics computation with storage call %d failing", nth+1))
			queue.ComputeMetrics(sut.Ctx, x.S.Q[0])
			armed = false
			t.Trans++
			if hit == "" {
				break
			}
			t.States++
			total, e1 := sut.Gauges("deckard_total_messages")
			oldest, e2 := sut.Gauges("deckard_oldest_message")
			if e1 != nil || e2 != nil {
				bad([]Disc{{Msg: fmt.Sprint("metrics cannot be read: ", e1, e2)}}, tr...)
				return
			}
			// Values unchanged since the last computation are fine.
			sum := map[string]int{}
			for k, m := range x.St.M {
				if m.Stored {
					sum[Prefix(k.Q)]++
				}
			}
			for p, v := range total {
				if old, ok := prevT[p]; !(ok && old == v) && v != float64(sum[p]) {
					bad([]Disc{{Msg: fmt.Sprintf("after a failing %s the total of the queue %q is reported as %v; %d messages are stored", hit, p, v, sum[p])}}, tr...)
				}
			}
			for p, v := range oldest {
				if old, ok := prevO[p]; !(ok && old == v) && v == 0 && sum[p] > 0 {
					bad([]Disc{{Msg: fmt.Sprintf("after a failing %s the oldest message of the queue %q with %d messages is reported as 0 ms old", hit, p, sum[p])}}, tr...)
				}
			}
			for p := range prevT {
				if _, ok := total[p]; !ok {
					bad([]Disc{{Msg: fmt.Sprintf("after a failing %s nothing is reported for the queue %q", hit, p)}}, tr...)
				}
			}
			// The next computation is right again.
			bad(x.Do(metrics), append(tr, "next metrics computation")...)
		}
	}
}

// exposed is what a process with certain environment variables exposes.
type exposed struct {
	Rounds [][]string // samples with their labels, per gathering
	Err    string
}

// labelsChild prints what the registry exposes; it runs in a process of its own
// because the labels are read from the environment at startup.
func labelsChild() {
	sut.Setup()
	var e exposed
	c := prom.NewCounterVec(prom.CounterOpts{Name: "harness_counter"}, []string{"l"})
	h := prom.NewHistogram(prom.HistogramOpts{Name: "harness_histogram"})
	g := prom.NewGauge(prom.GaugeOpts{Name: "harness_gauge"})
	for _, x := range []prom.Collector{c, h, g} {
		if err := exporter.Registerer.Register(x); err != nil {
			e.Err = err.Error()
		}
	}
	c.WithLabelValues("1").Inc()
	c.WithLabelValues("2").Inc()
	h.Observe(3)
	x := NewStepper(sut.New(mem, sut.Options{Metrics: true}))
	x.Do(add(msg("q::x", "a", 1), msg("r", "b", 1)))
	x.Do(metrics)
	for i := 0; i < 3; i++ {
		fs, err := sut.Families()
		if err != nil {
			e.Err = err.Error()
		}
		var r []string
		for _, f := range fs {
			if f.GetName() == "target_info" {
				continue
			}
			for _, m := range f.Metric {
				s := f.GetName()
				for _, l := range m.Label {
					s += fmt.Sprintf("\x00%s\x01%s", l.GetName(), l.GetValue())
				}
				r = append(r, s)
			}
		}
		e.Rounds = append(e.Rounds, r)
	}
	json.NewEncoder(os.Stdout).Encode(e)
}

type labelCase struct {
	attrs, service string
	want           map[string]string
}

// labelCases combines attribute lists with service names.
func labelCases() []labelCase {
	pairs := [][2]string{{"a", "1"}, {"b.c", "x y"}, {"deployment.environment.name", "prod"}, {"service.version", "9"}, {"service.name", "svc"}, {"a", "2"}, {"b_c", "3"}, {"my.service.version", "7"}, {"service.name.x", ""}}
	var r []labelCase
	var rec func(i int, chosen [][2]string)
	rec = func(i int, chosen [][2]string) {
		if i == len(pairs) || len(chosen) == 3 {
			for _, service := range []string{"", "named"} {
				for _, junk := range []string{"", "noequals"} {
					want := map[string]string{}
					var as []string
					for _, p := range chosen {
						as = append(as, p[0]+"="+p[1])
						want[strings.ReplaceAll(p[0], ".", "_")] = p[1]
					}
					if junk != "" {
						as = append(as, junk)
					}
					if service != "" {
						want["service_name"] = service
					} else if want["service_name"] == "" {
						want["service_name"] = "deckard"
					}
					r = append(r, labelCase{strings.Join(as, ","), service, want})
				}
			}
			if len(chosen) == 3 {
				return
			}
		}
		if i == len(pairs) {
			return
		}
		rec(i+1, chosen)
		rec(i+1, append(append([][2]string{}, chosen...), pairs[i]))
	}
	rec(0, nil)
	seen := map[string]bool{}
	var u []labelCase
	for _, c := range r {
		if k := c.attrs + "|" + c.service; !seen[k] {
			seen[k] = true
			u = append(u, c)
		}
	}
	return u
}

func labelsJob(part, of int) func(t *vx.T) {
	return func(t *vx.T) {
		for i, c := range labelCases() {
			if i%of != part {
				continue
			}
			t.Step(c.attrs)
			t.Traces++
			t.States++
			cmd := exec.Command(os.Args[0])
			cmd.Env = append(os.Environ(), "VERIF_LABELS=1", "OTEL_RESOURCE_ATTRIBUTES="+c.attrs, "OTEL_SERVICE_NAME="+c.service)
			out, err := cmd.Output()
			var e exposed
			if err == nil {
				err = json.NewDecoder(bytes.NewReader(out)).Decode(&e)
			}
			at := fmt.Sprintf("OTEL_RESOURCE_ATTRIBUTES=%q OTEL_SERVICE_NAME=%q", c.attrs, c.service)
			if err != nil || e.Err != "" {
				t.Fail("labels-error: "+at, fmt.Sprintf("with %s nothing can be gathered: %v %s", at, err, e.Err), nil)
				continue
			}
			for round, samples := range e.Rounds {
				if len(samples) < 6 {
					t.Fail("labels-missing: "+at, fmt.Sprintf("with %s only %d samples are exposed", at, len(samples)), samples)
				}
				for _, s := range samples {
					t.Trans++
					fs := strings.Split(s, "\x00")
					got := map[string]string{}
					bad := ""
					for _, f := range fs[1:] {
						k, v, _ := strings.Cut(f, "\x01")
						if _, dup := got[k]; dup {
							bad = fmt.Sprintf("carries the label %s more than once", k)
						}
						got[k] = v
					}
					for k, v := range c.want {
						if got[k] != v || func() bool { _, ok := got[k]; return !ok }() {
							bad = fmt.Sprintf("has %s=%q instead of %q", k, got[k], v)
						}
					}
					if _, ok := got["service_version"]; !ok {
						bad = "lacks service_version"
					}
					var extra []string
					for k := range got {
						if _, ok := c.want[k]; !ok && k != "service_version" && k != "queue" && k != "l" {
							extra = append(extra, k)
						}
					}
					sort.Strings(extra)
					if len(extra) > 0 {
						bad = fmt.Sprint("has the additional labels ", extra)
					}
					if bad != "" {
						t.Fail("labels: "+bad, fmt.Sprintf("with %s a sample of %s %s (gathering %d)", at, fs[0], bad, round+1), nil)
					}
				}
			}
			if i < 3 {
				t.Sample(at)
			}
		}
	}
}

func gaugeJobs(tier string) []vx.Job {
	r := Jobs(tier, c25()...)
	for _, k := range kinds(mem, mon) {
		k := k
		r = append(r, vx.Job{Name: "gauge-faults@" + k.String(), Fn: func(t *vx.T) { gaugeFaults(t, k) }})
	}
	for p := 0; p < 4; p++ {
		r = append(r, vx.Job{Name: fmt.Sprintf("labels-%d", p), Fn: labelsJob(p, 4)})
	}
	return r
}
