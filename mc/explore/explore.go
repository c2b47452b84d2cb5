// Package explore enumerates every operation sequence of a scenario up to a
// depth, on the real code, against the reference model.
package explore

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/verifx/model"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
)

// Scenario is one bounded space of histories.
type Scenario struct {
	Name string
	// Kinds are the engine combinations.
	Kinds []sut.Kind
	// Opt of the system.
	Opt sut.Options
	// Setup runs before every history.
	Setup []model.Op
	// Ops is the alphabet.
	Ops []model.Op
	// Depth of the histories (quick, thorough).
	Depth, Deep int
	// Targets are the tags (or prefixes, ending in *) that violate the property.
	Targets []string
	// Wait before the probe's second drain; 0: no second drain.
	Wait time.Duration
	// Reads adds Count and GetById to the probe.
	Reads bool
	// NoProbe leaves out the drain.
	NoProbe bool
	// Relock extends the probe by a lock and release of every message, Min by
	// pulls of all scores from zero.
	Relock, Min bool
	// Skip prunes operations that make no sense in a state (hist holds the ops so far).
	Skip func(x *model.Stepper, hist []model.Op, o model.Op) bool
	// Final runs after the probe or instead (extra checks).
	Final func(x *model.Stepper) []model.Disc
	// Max bounds how often ops with the same kind occur (0: unbounded).
	Max map[model.Kind]int
	// Budget of a job.
	Budget time.Duration
	// Once: alphabet elements are used at most once each.
	Once bool
	// Controls are variants of the scenario, operation by operation: a
	// difference that one of them shows as well is none of this property's.
	Controls []*Scenario
	// Tweak adjusts the stepper after creation.
	Tweak func(x *model.Stepper)
}

// Hit tells whether the tags concern the targets.
func Hit(targets, tags []string) string {
	for _, g := range tags {
		for _, t := range targets {
			if g == t || strings.HasSuffix(t, "*") && strings.HasPrefix(g, strings.TrimSuffix(t, "*")) {
				return g
			}
		}
	}
	return ""
}

// Jobs turns scenarios into jobs.
func Jobs(tier string, scs ...Scenario) []vx.Job {
	var r []vx.Job
	for _, s := range scs {
		for _, k := range s.Kinds {
			s, k := s, k
			r = append(r, vx.Job{Name: s.Name + "@" + k.String(), Budget: s.Budget, Fn: func(t *vx.T) { Run(t, s, k) }})
		}
	}
	return r
}

// Build replays a history; it returns the stepper and the discrepancies of the
// last operation (nil if an earlier one already failed).
func build(s *Scenario, k sut.Kind, hist []int) (*model.Stepper, []model.Disc, int) {
	x := model.NewStepper(sut.New(k, s.Opt))
	if s.Tweak != nil {
		s.Tweak(x)
	}
	for _, o := range s.Setup {
		if d := x.Do(o); !model.Soft(d) || len(d) > 0 && len(hist) == 0 {
			return x, d, -1
		}
	}
	for i, h := range hist {
		if d := x.Do(s.Ops[h]); len(d) > 0 && (i == len(hist)-1 || !model.Soft(d)) {
			return x, d, i
		}
	}
	return x, nil, len(hist)
}

// inControl tells whether the history differs from the model in a control too.
func inControl(s *Scenario, k sut.Kind, hist []int, tag string) bool {
	for _, c := range s.Controls {
		x, ds, _ := build(c, k, hist)
		if len(ds) == 0 || model.Soft(ds) {
			more, _ := x.Probe(s.Wait, s.Reads, s.Relock, s.Min)
			ds = append(ds, more...)
		}
		for _, d := range ds {
			if d.Tags[0] == tag {
				return true
			}
		}
	}
	return false
}

// Run explores one scenario on one engine combination.
func Run(t *vx.T, s Scenario, k sut.Kind) {
	depth := s.Depth
	if t.Thorough() && s.Deep > 0 {
		depth = s.Deep
	}
	seen := map[string]bool{}
	render := func(hist []int) []string {
		var r []string
		for _, o := range s.Setup {
			r = append(r, o.String())
		}
		for _, h := range hist {
			r = append(r, s.Ops[h].String())
		}
		return r
	}
	pruned := map[string]bool{}
	report := func(ds []model.Disc, hist []int, log []string) bool {
		hit := false
		for _, d := range ds {
			g := Hit(s.Targets, d.Tags)
			if g != "" && inControl(&s, k, hist, d.Tags[0]) {
				g = ""
			}
			if g != "" {
				sig := d.Sig
				if sig == "" {
					sig = fmt.Sprintf("%s@%s: %s: %s", s.Name, k, g, d.Msg)
				}
				t.Fail(sig, fmt.Sprintf("[%s, %s] %s", s.Name, k, d.Msg), append(render(hist), log...))
				hit = true
			} else {
				m := strings.Join(d.Tags, ",")
				if !pruned[m] {
					pruned[m] = true
					t.Notes = append(t.Notes, fmt.Sprintf("%s: branch pruned at a difference that concerns other properties (%s): %s after %s", t.Job, m, d.Msg, strings.Join(render(hist), "; ")))
				}
				t.Stat("pruned", 1)
			}
		}
		return hit
	}
	frontier := [][]int{{}}
	for d := 0; d <= depth; d++ {
		var next [][]int
		for fi, h := range frontier {
			if t.Expired() {
				t.Truncate(fmt.Sprintf("time budget used up at depth %d of %d (%d of %d histories of that length expanded)", d, depth, fi, len(frontier)))
				return
			}
			if d > 0 {
				// h was stored when found new; expand below.
			}
			var exts [][]int
			if d == 0 {
				exts = [][]int{nil}
			} else {
				hist := make([]model.Op, len(h))
				cnt := map[model.Kind]int{}
				used := map[int]bool{}
				for i, o := range h {
					hist[i] = s.Ops[o]
					cnt[hist[i].K]++
					used[o] = true
				}
				var x *model.Stepper
				if s.Skip != nil {
					x, _, _ = build(&s, k, h)
				}
				for i, o := range s.Ops {
					if m := s.Max[o.K]; m > 0 && cnt[o.K] >= m {
						continue
					}
					if s.Once && used[i] {
						continue
					}
					if o.K == model.Advance && len(hist) > 0 && hist[len(hist)-1].K == model.Advance && i < h[len(h)-1] {
						continue // sums of advances in one order only
					}
					if s.Skip != nil && s.Skip(x, hist, o) {
						continue
					}
					exts = append(exts, append(append([]int{}, h...), i))
				}
			}
			for _, e := range exts {
				t.Step(k.String() + ": " + strings.Join(render(e), "; "))
				x, ds, at := build(&s, k, e)
				t.Trans++
				t.Traces++
				if len(ds) > 0 && ds[0].Tags[0] == "skip" {
					t.Stat("skipped", 1)
					continue
				}
				if len(ds) > 0 {
					if at < len(e)-1 && d > 0 {
						panic("a replayed history behaved differently: " + ds[0].Msg + " " + strings.Join(render(e), "; "))
					}
					if report(ds, e, []string{x.Out}) && len(t.Violations) >= 3 {
						return
					}
					if !model.Soft(ds) {
						continue
					}
				}
				key := x.St.Key() + fmt.Sprint(sut.Now().UnixNano()) + "|" + x.S.Dump()
				if s.Max != nil || s.Once {
					key += fmt.Sprint(kinds(&s, e))
				}
				if seen[key] {
					continue
				}
				seen[key] = true
				t.States++
				if len(e) == 2 {
					t.Sample(strings.Join(render(e), "; "))
				}
				next = append(next, e)
				if !s.NoProbe {
					ds, log := x.Probe(s.Wait, s.Reads, s.Relock, s.Min)
					t.Trans += int64(len(log))
					if len(ds) > 0 {
						hit := report(ds, e, append([]string{"-- probe"}, log...))
						if hit && len(t.Violations) >= 3 {
							return
						}
						if !model.Soft(ds) {
							next = next[:len(next)-1]
							continue
						}
					}
				}
				if s.Final != nil {
					if ds := s.Final(x); len(ds) > 0 {
						report(ds, e, []string{"-- final"})
					}
				}
			}
		}
		if d == 0 {
			// The empty history is the frontier of depth 1.
		}
		frontier = next
		if len(frontier) == 0 {
			break
		}
	}
}

func kinds(s *Scenario, h []int) string {
	if s.Once {
		c := append([]int{}, h...)
		sort.Ints(c)
		return fmt.Sprint(c)
	}
	c := map[model.Kind]int{}
	for _, o := range h {
		if s.Max[s.Ops[o].K] > 0 {
			c[s.Ops[o].K]++
		}
	}
	return fmt.Sprint(c)
}
