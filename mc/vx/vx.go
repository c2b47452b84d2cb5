// Package vx runs model-checking jobs in worker processes and reports the
// outcome: evidence file, replay files, VIOLATION and KNOWN-FINDING lines.
package vx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one failed property instance, identified by Sig.
type Violation struct {
	Sig    string   `json:"sig"`
	Msg    string   `json:"msg"`
	Trace  []string `json:"trace,omitempty"`
	Job    string   `json:"job"`
	Config string   `json:"config,omitempty"`
}

// Result of a job.
type Result struct {
	States     int64             `json:"states"`
	Trans      int64             `json:"trans"`
	Traces     int64             `json:"traces"`
	Stats      map[string]int64  `json:"stats"`
	Samples    []string          `json:"samples"`
	Truncated  []string          `json:"truncated"`
	Violations []Violation       `json:"violations"`
	Known      map[string]string `json:"known"`
	Notes      []string          `json:"notes"`
	Internal   string            `json:"internal,omitempty"`
}

// T is the handle of a running job.
type T struct {
	Result
	Job      string
	Tier     string
	Prop     string
	Deadline time.Time
	known    []Finding
	step     atomic.Int64
	cur      atomic.Value
	mu       sync.Mutex
	sigs     map[string]bool
}

// Finding is a known finding.
type Finding struct {
	Property string `json:"property"`
	Sig      string `json:"signature"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

// Thorough tells the tier.
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Expired tells whether the time budget is used up.
func (t *T) Expired() bool { return time.Now().After(t.Deadline) }

// Stat adds to a named counter.
func (t *T) Stat(k string, n int64) {
	t.mu.Lock()
	if t.Stats == nil {
		t.Stats = map[string]int64{}
	}
	t.Stats[k] += n
	t.mu.Unlock()
}

// Truncate notes that the exploration was cut short.
func (t *T) Truncate(why string) { t.Truncated = append(t.Truncated, t.Job+": "+why) }

// Sample records an example case (a few are kept).
func (t *T) Sample(s string) {
	if len(t.Samples) < 3 {
		t.Samples = append(t.Samples, t.Job+": "+s)
	}
}

// Step marks progress; what describes the running step for the watchdog.
func (t *T) Step(what string) {
	t.step.Add(1)
	t.cur.Store(what)
}

// Fail records a violation. It returns true if the caller should stop exploring
// beyond this point (always).
func (t *T) Fail(sig, msg string, trace []string) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, f := range t.known {
		if f.Property == t.Prop && f.Status == "open" && f.Sig == sig {
			if t.Known == nil {
				t.Known = map[string]string{}
			}
			t.Known[sig] = f.What
			return true
		}
	}
	if t.sigs == nil {
		t.sigs = map[string]bool{}
	}
	if t.sigs[sig] || len(t.Violations) >= 5 {
		return true
	}
	t.sigs[sig] = true
	t.Violations = append(t.Violations, Violation{Sig: sig, Msg: msg, Trace: append([]string{}, trace...), Job: t.Job})
	return true
}

// Failed tells whether a violation was recorded.
func (t *T) Failed() bool { t.mu.Lock(); defer t.mu.Unlock(); return len(t.Violations) > 0 }

// Job is a unit of exploration run in its own process.
type Job struct {
	Name string
	Fn   func(*T)
	// Budget limits the job's own time (0: the check's).
	Budget time.Duration
	// Hang is how long one step may take (default 60 s).
	Hang time.Duration
	Env  []string
	// Race jobs run in the binary built with the race detector (VERIF_RACE_BIN).
	Race bool
	// Other jobs run in the program binary (VERIF_OTHER_BIN), under the same name.
	Other bool
	// Serial jobs are run alone, after the parallel ones.
	Serial bool
}

// Check describes a property's check.
type Check struct {
	Jobs        func(tier string) []Job
	Assumptions []string
	Rule        string
	Level       string
	Quick       time.Duration // exploration budget
	Thorough    time.Duration
	Workers     int
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadFindings() []Finding {
	var f struct {
		Findings []Finding `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	}
	return f.Findings
}

// Main dispatches to a check: args are property and tier, or the worker form.
func Main(checks map[string]*Check) {
	args := os.Args[1:]
	if len(args) >= 1 && args[0] == "-list" {
		for k := range checks {
			fmt.Println(k)
		}
		return
	}
	if len(args) >= 4 && args[0] == "-worker" {
		worker(checks[args[1]], args[1], args[2], args[3])
		return
	}
	if len(args) < 2 || checks[args[0]] == nil {
		fmt.Fprintln(os.Stderr, "usage: <property> quick|thorough [job-substring]")
		os.Exit(2)
	}
	filter := ""
	if len(args) > 2 {
		filter = args[2]
	}
	os.Exit(drive(checks[args[0]], args[0], args[1], filter))
}

func worker(c *Check, prop, tier, name string) {
	for _, j := range c.Jobs(tier) {
		if j.Name != name {
			continue
		}
		ms, _ := strconv.ParseInt(os.Getenv("VERIF_BUDGET_MS"), 10, 64)
		t := &T{Job: name, Tier: tier, Prop: prop, Deadline: time.Now().Add(time.Duration(ms) * time.Millisecond), known: loadFindings()}
		t.cur.Store("")
		hang := j.Hang
		if hang == 0 {
			hang = 60 * time.Second
		}
		// Real stdout is for the result only; the code under test may print.
		out := os.Stdout
		os.Stdout = os.Stderr
		emit := func() {
			b, _ := json.Marshal(t.Result)
			fmt.Fprintf(out, "\nRESULT %s\n", b)
		}
		go func() {
			last, since := int64(-1), time.Now()
			for {
				time.Sleep(500 * time.Millisecond)
				s := t.step.Load()
				if s != last {
					last, since = s, time.Now()
					continue
				}
				if s > 0 && time.Since(since) > hang {
					buf := make([]byte, 1<<16)
					n := runtime.Stack(buf, true)
					what, _ := t.cur.Load().(string)
					t.Fail("hang", "a step did not finish within "+hang.String()+": "+what, strings.Split(string(buf[:n]), "\n"))
					emit()
					os.Exit(0)
				}
			}
		}()
		func() {
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 1<<15)
					st := string(buf[:runtime.Stack(buf, false)])
					if f := blame(st); f != "" {
						what, _ := t.cur.Load().(string)
						t.Fail("panic: "+f, fmt.Sprintf("panic in %s: %v (%s)", f, p, what), strings.Split(st, "\n"))
						return
					}
					// Nothing the harness calls fails on code that has the property.
					t.Fail("cannot continue", fmt.Sprintf("the check cannot continue: %v", p), strings.Split(st, "\n"))
				}
			}()
			if p := os.Getenv("VERIF_PROFILE"); p != "" {
				f, _ := os.Create(p)
				pprof.StartCPUProfile(f)
				defer pprof.StopCPUProfile()
			}
			j.Fn(t)
		}()
		emit()
		os.Exit(0)
	}
	fmt.Fprintln(os.Stderr, "no such job", name)
	os.Exit(2)
}

// blame returns the function of the code under test that panicked, or "" if the
// panic is the harness's own: the innermost function of this module decides.
func blame(stack string) string {
	const mod = "github.com/takenet/deckard"
	lines := strings.Split(stack, "\n")
	from := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			from = i
		}
	}
	for i := from; i+1 < len(lines); i++ {
		l, at := lines[i], lines[i+1]
		if !strings.HasPrefix(l, mod) || strings.Contains(l, "/verifx/vsync.") {
			continue
		}
		if strings.Contains(l, "/verifx/") || strings.Contains(at, "/verif_") {
			return ""
		}
		if k := strings.LastIndex(l, "("); k > 0 {
			l = l[:k]
		}
		return strings.TrimPrefix(l, mod+"/")
	}
	return ""
}

type outcome struct {
	job    Job
	res    *Result
	crash  string
	killed bool
}

func runWorker(j Job, prop, tier string, budget time.Duration) outcome {
	exe, _ := os.Executable()
	if r := os.Getenv("VERIF_RACE_BIN"); j.Race && r != "" {
		exe = r
	}
	if r := os.Getenv("VERIF_OTHER_BIN"); j.Other && r != "" {
		exe = r
	}
	cmd := exec.Command(exe, "-worker", prop, tier, j.Name)
	cmd.Env = append(os.Environ(), "VERIF_BUDGET_MS="+strconv.FormatInt(budget.Milliseconds(), 10), "GORACE=halt_on_error=1 exitcode=66")
	cmd.Env = append(cmd.Env, j.Env...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &tail{b: &se}
	o := outcome{job: j}
	if err := cmd.Start(); err != nil {
		o.crash = "start: " + err.Error()
		return o
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(budget + 150*time.Second):
		cmd.Process.Kill()
		<-done
		o.killed = true
		o.crash = "worker did not stop"
		return o
	}
	if i := strings.LastIndex(so.String(), "RESULT "); i >= 0 {
		var r Result
		if e := json.Unmarshal([]byte(strings.TrimSpace(so.String()[i+7:])), &r); e == nil {
			o.res = &r
			return o
		}
	}
	o.crash = fmt.Sprintf("worker ended without a result (%v)\n%s", err, se.String())
	return o
}

type tail struct{ b *bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}

// crashSig classifies a crash as a violation ("" if it is the harness's fault).
func crashSig(s string) (string, string) {
	for _, m := range []string{"DATA RACE", "fatal error: concurrent map", "fatal error: all goroutines are asleep", "fatal error: sync:", "panic:", "fatal error: stack overflow", "out of memory"} {
		if strings.Contains(s, m) {
			return "crash:" + strings.TrimSuffix(strings.TrimPrefix(m, "fatal error: "), ":"), s
		}
	}
	return "", s
}

// suspect is a job that reported violations, which must reproduce.
type suspect struct {
	i                int
	res              *Result
	tried, confirmed bool
}

// confirm runs the suspects' jobs again, w at a time, and starts no further one
// once one is confirmed.
func confirm(all []*suspect, w int, again func(*suspect) bool, serial func(*suspect) bool) {
	var found atomic.Bool
	var wg sync.WaitGroup
	sem := make(chan bool, w)
	for _, pass := range []bool{false, true} {
		for _, s := range all {
			if serial(s) != pass {
				continue
			}
			sem <- true
			if found.Load() {
				<-sem
				continue
			}
			s.tried = true
			wg.Add(1)
			one := func(s *suspect) {
				defer func() { <-sem; wg.Done() }()
				if s.confirmed = again(s); s.confirmed {
					found.Store(true)
				}
			}
			if pass {
				one(s)
			} else {
				go one(s)
			}
		}
		wg.Wait()
	}
}

func drive(c *Check, prop, tier, filter string) int {
	start := time.Now()
	budget := c.Quick
	if budget == 0 {
		budget = 75 * time.Second
	}
	if tier == "thorough" {
		budget = c.Thorough
		if budget == 0 {
			budget = 10 * time.Minute
		}
	}
	if v := os.Getenv("VERIF_BUDGET_S"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	var jobs []Job
	seen := map[string]bool{}
	for _, j := range c.Jobs(tier) {
		if seen[j.Name] {
			fmt.Fprintln(os.Stderr, "duplicate job", j.Name)
			return 2
		}
		seen[j.Name] = true
		if strings.Contains(j.Name, filter) {
			jobs = append(jobs, j)
		}
	}
	w := c.Workers
	if w == 0 {
		w = runtime.NumCPU()
	}
	outs := make([]outcome, len(jobs))
	deadline := start.Add(budget)
	run := func(i int) {
		b := time.Until(deadline)
		if b < 3*time.Second {
			b = 3 * time.Second
		}
		if jobs[i].Budget > 0 && jobs[i].Budget < b {
			b = jobs[i].Budget
		}
		s := time.Now()
		outs[i] = runWorker(jobs[i], prop, tier, b)
		if os.Getenv("VERIF_VERBOSE") != "" {
			st := int64(0)
			if outs[i].res != nil {
				st = outs[i].res.Trans
			}
			fmt.Fprintf(os.Stderr, "job %-50s %6.1fs trans %d %s\n", jobs[i].Name, time.Since(s).Seconds(), st, outs[i].crash)
		}
	}
	sem := make(chan bool, w)
	var wg sync.WaitGroup
	for i := range jobs {
		if jobs[i].Serial {
			continue
		}
		sem <- true
		wg.Add(1)
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			run(i)
		}(i)
	}
	wg.Wait()
	for i := range jobs {
		if jobs[i].Serial {
			run(i)
		}
	}

	tot := Result{Stats: map[string]int64{}, Known: map[string]string{}}
	var viol []Violation
	var suspects []*suspect
	internal := ""
	for i, o := range outs {
		r := o.res
		if r == nil {
			sig, msg := crashSig(o.crash)
			if sig == "" {
				internal += o.job.Name + ": " + o.crash + "\n"
				continue
			}
			r = &Result{}
			ff := loadFindings()
			kn := false
			for _, f := range ff {
				if f.Property == prop && f.Status == "open" && f.Sig == sig+"@"+o.job.Name {
					tot.Known[f.Sig] = f.What
					kn = true
				}
			}
			if !kn {
				r.Violations = []Violation{{Sig: sig + "@" + o.job.Name, Msg: msg, Job: o.job.Name}}
			}
		}
		if r.Internal != "" {
			internal += o.job.Name + ": " + r.Internal + "\n"
		}
		tot.States += r.States
		tot.Trans += r.Trans
		tot.Traces += r.Traces
		for k, v := range r.Stats {
			tot.Stats[k] += v
		}
		if len(tot.Samples) < 6 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		tot.Truncated = append(tot.Truncated, r.Truncated...)
		tot.Notes = append(tot.Notes, r.Notes...)
		for k, v := range r.Known {
			tot.Known[k] = v
		}
		if len(r.Violations) > 0 {
			suspects = append(suspects, &suspect{i: i, res: r})
		}
	}
	confirm(suspects, w, func(s *suspect) bool {
		again := runWorker(jobs[s.i], prop, tier, time.Duration(float64(budget)*1.5))
		if again.res != nil {
			// Code that is not deterministic may fail in another way.
			return len(again.res.Violations) > 0
		}
		sig, _ := crashSig(again.crash)
		return sig != "" && s.res.Violations[0].Sig == sig+"@"+jobs[s.i].Name
	}, func(s *suspect) bool { return jobs[s.i].Serial })
	for _, s := range suspects {
		switch {
		case s.confirmed:
			viol = append(viol, s.res.Violations...)
		case !s.tried:
			tot.Notes = append(tot.Notes, "not retried after others were confirmed: "+s.res.Violations[0].Sig)
		default:
			tot.Notes = append(tot.Notes, "not reproduced, not reported: "+s.res.Violations[0].Sig+": "+s.res.Violations[0].Msg)
			fmt.Fprintf(os.Stderr, "note: %s did not reproduce: %s\n", s.res.Violations[0].Sig, first(s.res.Violations[0].Msg, 2000))
		}
	}
	level := c.Level
	if level == "" {
		level = "model_checking"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states": tot.States, "transitions": tot.Trans, "traces_validated_against_impl": tot.Traces,
		"samples": tot.Samples, "exhaustive": len(tot.Truncated) == 0, "jobs": len(jobs), "rule": c.Rule, "counters": tot.Stats,
	}
	if len(tot.Truncated) > 0 {
		cov["truncated"] = tot.Truncated
	}
	if len(tot.Notes) > 0 {
		cov["notes"] = tot.Notes
	}
	if len(tot.Known) > 0 {
		cov["known_findings"] = tot.Known
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if ev["assumptions"] == nil || len(c.Assumptions) == 0 {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	kk := []string{}
	for k := range tot.Known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, tot.Known[k])
	}
	fmt.Printf("%s %s: %d jobs, %d states, %d transitions, %d traces, exhaustive=%v, %.1fs\n", prop, tier, len(jobs), tot.States, tot.Trans, tot.Traces, len(tot.Truncated) == 0, time.Since(start).Seconds())
	if len(viol) > 0 {
		os.MkdirAll(filepath.Join(verifDir(), "evidence", "replay"), 0o755)
		seenSig := map[string]bool{}
		for _, v := range viol {
			if seenSig[v.Sig] {
				continue
			}
			seenSig[v.Sig] = true
			p := filepath.Join(verifDir(), "evidence", "replay", fmt.Sprintf("%s-%d.json", prop, len(seenSig)))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("%s\n  job %s\n", first(v.Msg, 1500), v.Job)
			for i, s := range v.Trace {
				if i > 40 {
					fmt.Println("    ...")
					break
				}
				fmt.Println("   ", s)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			if len(seenSig) >= 5 {
				break
			}
		}
		return 1
	}
	if internal != "" {
		fmt.Fprintln(os.Stderr, "internal error:", first(internal, 6000))
		return 2
	}
	return 0
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
