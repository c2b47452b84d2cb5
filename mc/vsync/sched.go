package vsync

import (
	"runtime"
	"sync"
	"time"
	"unsafe"
)

// Thread of a Sched.
type Thread struct {
	// Mark is the caller's.
	Mark int
	Name string
	Run  func()
	// Free threads may be chosen at any point at no cost, and are otherwise
	// chosen last.
	Free bool
	// LastTimer is the duration of the last timer the thread, or the one that
	// started it, has waited for.
	LastTimer time.Duration
	// Waits counts how often it began to wait for a timer.
	Waits int
	// Left tells where it was when the run ended, "" if it had ended itself.
	Left string

	wake  chan struct{}
	begun bool
	done  bool
	quiet bool // waits until nobody else can run
	at    string
	ready func() bool
	crash any

	cases   []*chanCase
	def     bool
	pick    int // chosen case, -1 the default
	partner *chanCase
	given   bool // completed by the partner
	hb      byte
}

// Choice is one scheduling decision.
type Choice struct {
	Opts []int
	I    int
}

// Sched runs threads one at a time, switching only at points.
type Sched struct {
	T []*Thread
	// Delays bounds the deviations from the default schedule instead of the
	// preemptions, and makes the choice of a select's case part of the schedule.
	Delays bool
	// Main ends the run as soon as the first thread has ended.
	Main bool
	// Clock is how many times the clock may advance.
	Clock int
	// Until is where the clock stops (0: never).
	Until time.Duration
	// Coarse makes timers that are due this close to each other fire together.
	Coarse time.Duration
	// CalmStart follows the default schedule until nobody can run for the first time.
	CalmStart bool
	// MaxPoints limits the length of a run (default 200000).
	MaxPoints int64

	Trace  []string
	Points int64

	cur    *Thread
	ev     chan struct{}
	steps  int64 // logical time for the threads
	log    []any
	count  int
	end    byte
	dying  bool
	killed bool
	calm   int
	now    time.Duration
	timers []*timer
	closed []*chanCase
	stash  []stashed
}

type stashed struct {
	key unsafe.Pointer
	v   any
}

const (
	clockID = -1
)

// point parks the running thread until it is chosen again; ready tells whether
// it can go on. The caller has disabled race detection of synchronization.
func (s *Sched) point(what string, ready func() bool) {
	th := s.cur
	th.at = what
	th.ready = ready
	s.park(th)
}

func (s *Sched) park(th *Thread) {
	s.ev <- struct{}{}
	<-th.wake
	if s.dying {
		raceEnable()
		runtime.Goexit()
	}
	th.ready = nil
}

// Point is an explicit scheduling point of the running thread.
func Point(what string) {
	s, ended := running()
	if s == nil || ended {
		return
	}
	raceDisable()
	s.point(what, nil)
	raceEnable()
}

// Log keeps x, without ordering the threads that call it.
func Log(x any) {
	if s, ended := running(); s != nil && !ended {
		s.log = append(s.log, x)
	}
}

// Count counts calls in the running Sched, without ordering the callers.
func Count() int {
	s, ended := running()
	if s == nil || ended {
		return 0
	}
	s.count++
	return s.count
}

// Logged returns what was kept during the run.
func (s *Sched) Logged() []any { return s.log }

// Quiesce waits until no other thread can run (without the clock advancing).
func Quiesce() {
	s, ended := running()
	if s == nil || ended {
		return
	}
	raceDisable()
	s.cur.quiet = true
	th := s.cur
	s.point("quiesce", nil)
	th.quiet = false
	raceEnable()
}

// Calm runs f while the default schedule is followed.
func Calm(f func()) {
	s, ended := running()
	if s == nil || ended {
		f()
		return
	}
	s.calm++
	f()
	s.calm--
}

// Current returns the running thread.
func Current() *Thread {
	s, _ := running()
	if s == nil {
		return nil
	}
	return s.cur
}

// Clock returns the time passed since the start of the run.
func Clock() time.Duration {
	s, _ := running()
	if s == nil {
		return 0
	}
	return s.now
}

// Go is a go statement.
func Go(f func()) {
	s, ended := running()
	if s == nil {
		go f()
		return
	}
	if ended {
		return
	}
	s.spawn(f, s.cur)
}

// GoFree starts f on a Free thread of the running Sched.
func GoFree(f func()) {
	s, ended := running()
	if s == nil || ended {
		return
	}
	s.spawn(f, s.cur).Free = true
}

func (s *Sched) spawn(f func(), parent *Thread) *Thread {
	th := &Thread{Run: f, wake: make(chan struct{}), at: "start", begun: true}
	n := 1
	for _, x := range s.T {
		if x.Name == parent.Name+"/"+itoa(n) {
			n++
		}
	}
	th.Name = parent.Name + "/" + itoa(n)
	th.LastTimer, th.Waits = parent.LastTimer, parent.Waits
	raceDisable()
	s.T = append(s.T, th)
	raceEnable()
	go func() {
		raceDisable()
		<-th.wake
		raceEnable()
		if !s.dying {
			s.body(th)
			return
		}
		raceDisable()
		th.done = true
		s.ev <- struct{}{}
		raceEnable()
	}()
	return th
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func (s *Sched) body(th *Thread) {
	ok := false
	defer func() {
		p := recover()
		raceReleaseMerge(unsafe.Pointer(&s.end))
		raceDisable()
		if !ok && p != nil && !s.dying {
			th.crash = p
		}
		th.done = true
		s.ev <- struct{}{}
		raceEnable()
	}()
	th.Run()
	ok = true
}

func (s *Sched) enabled(th *Thread) bool {
	if th.done {
		return false
	}
	if len(th.cases) > 0 || th.def {
		return th.given || th.def || len(s.alts(th)) > 0
	}
	return th.ready == nil || th.ready()
}

type alt struct {
	i       int
	partner *Thread
	j       int
}

// alts lists what a parked select can do now.
func (s *Sched) alts(th *Thread) []alt {
	var out []alt
	for i, c := range th.cases {
		b := c
		if b.nilch {
			continue
		}
		if b.can(s) {
			out = append(out, alt{i: i})
			continue
		}
		if b.cap != 0 {
			continue
		}
		for _, o := range s.T {
			if o == th || o.done || o.given {
				continue
			}
			for j, e := range o.cases {
				if !e.nilch && e.key == b.key && e.recv != b.recv {
					out = append(out, alt{i, o, j})
				}
			}
		}
	}
	return out
}

// option of the scheduler: a thread or the clock.
func (s *Sched) options(last int, pre, bound int) (opts []int, cost []int) {
	n := len(s.T)
	if !s.Delays {
		lastOK := last >= 0 && s.enabled(s.T[last])
		if lastOK {
			opts, cost = append(opts, last), append(cost, 0)
		}
		if !lastOK || pre < bound {
			for i := range s.T {
				if i != last && s.enabled(s.T[i]) {
					opts = append(opts, i)
					if lastOK {
						cost = append(cost, 1)
					} else {
						cost = append(cost, 0)
					}
				}
			}
		}
		return opts, cost
	}
	var quiet, free []int
	for k := 0; k < n; k++ {
		i := k
		if last >= 0 {
			i = (last + k) % n
		}
		th := s.T[i]
		if th.done || !s.enabled(th) {
			continue
		}
		switch {
		case th.quiet:
			quiet = append(quiet, i)
		case th.Free:
			free = append(free, i)
		default:
			opts = append(opts, i)
		}
	}
	if len(opts) == 0 {
		opts = append(opts, quiet...)
	}
	if len(opts) == 0 && s.CalmStart {
		s.CalmStart = false
		s.calm--
	}
	if s.clockReady() {
		opts = append(opts, clockID)
	}
	opts = append(opts, free...)
	out := opts[:0]
	for k, i := range opts {
		c := 1
		if k == 0 || (i >= 0 && s.T[i].Free) {
			c = 0
		}
		if k > 0 && (s.calm > 0 || pre+c > bound) {
			continue
		}
		out = append(out, i)
		cost = append(cost, c)
	}
	return out, cost
}

// Run executes the threads; the schedule starts with prefix and goes on
// with the default choices; a thread that blocks outside the code's own
// synchronization hangs it. bad describes a deadlock or crash.
func (s *Sched) Run(prefix []int, bound int) (out []Choice, bad string) {
	s.ev = make(chan struct{}, 1)
	initial := append([]*Thread{}, s.T...)
	for _, th := range s.T {
		th.wake = make(chan struct{})
		th.at = "start"
	}
	if s.MaxPoints == 0 {
		s.MaxPoints = 200000
	}
	raceDisable()
	active.Store(s)
	last, pre := -1, 0
	choose := func(opts []int) int {
		if s.calm > 0 {
			return 0
		}
		c := Choice{Opts: opts}
		if len(out) < len(prefix) {
			c.I = min(prefix[len(out)], len(opts)-1)
		}
		out = append(out, c)
		return c.I
	}
	if s.CalmStart {
		s.calm++
	}
	for {
		if over(initial, s.Main) {
			break
		}
		if s.Points >= s.MaxPoints {
			bad = "endless: " + s.where()
			break
		}
		opts, cost := s.options(last, pre, bound)
		if len(opts) == 0 {
			break
		}
		k := 0
		if len(opts) > 1 || !s.Delays {
			k = choose(opts)
		}
		pre += cost[k]
		next := opts[k]
		s.Points++
		if next == clockID {
			s.tick()
			continue
		}
		th := s.T[next]
		if (len(th.cases) > 0 || th.def) && !th.given {
			alts := s.alts(th)
			th.pick, th.partner = -1, nil
			if len(alts) > 0 {
				k := 0
				if len(alts) > 1 && s.Delays && pre < bound && s.calm == 0 {
					is := make([]int, len(alts))
					for i := range is {
						is[i] = i
					}
					k = choose(is)
					if k > 0 {
						pre++
					}
				}
				a := alts[k]
				th.pick = a.i
				if a.partner != nil {
					x, y := th.cases[a.i], a.partner.cases[a.j]
					if x.recv {
						x.val, x.got = y.val, true
					} else {
						y.val, y.got = x.val, true
					}
					th.partner, a.partner.partner = y, x
					y.owner, x.owner = a.partner, th
					a.partner.pick, a.partner.given = a.j, true
				}
			}
		}
		last = next
		s.Trace = append(s.Trace, th.Name+": "+th.at)
		s.cur = th
		if !th.begun {
			th.begun = true
			raceEnable()
			go s.body(th)
			raceDisable()
		} else {
			th.wake <- struct{}{}
		}
		<-s.ev
		if th.crash != nil {
			break
		}
	}
	if bad == "" {
		for _, th := range s.T {
			if th.crash != nil {
				bad = th.Name + " panics: " + text(th.crash)
			}
		}
	}
	if bad == "" && !over(initial, s.Main) {
		bad = "deadlock:" + s.where()
	}
	s.dying = true
	for _, th := range s.T {
		if !th.done && th.begun {
			s.killed = true
			th.Left = th.at
			s.cur = th
			th.wake <- struct{}{}
			<-s.ev
		}
	}
	active.Store(nil)
	raceEnable()
	raceAcquire(unsafe.Pointer(&s.end))
	return out, bad
}

func (s *Sched) where() string {
	b := ""
	for _, x := range s.T {
		if !x.done {
			b += " " + x.Name + " at " + x.at + ";"
		}
	}
	return b
}

func over(ts []*Thread, main bool) bool {
	if main {
		return ts[0].done
	}
	for _, th := range ts {
		if !th.done {
			return false
		}
	}
	return true
}

func text(p any) string {
	switch x := p.(type) {
	case error:
		return x.Error()
	case string:
		return x
	}
	return "?"
}

// Next returns the prefix of the next schedule, or nil when all were run.
func Next(c []Choice) []int {
	i := len(c) - 1
	for i >= 0 && c[i].I+1 >= len(c[i].Opts) {
		i--
	}
	if i < 0 {
		return nil
	}
	p := make([]int, 0, i+1)
	for _, x := range c[:i] {
		p = append(p, x.I)
	}
	return append(p, c[i].I+1)
}

// NextOf is Next for one of n shards of the schedules: the shard is decided by
// the position of a schedule's first deviation. All shards run the default one.
func NextOf(c []Choice, shard, n int) []int {
	for {
		p := Next(c)
		if p == nil {
			return nil
		}
		first := 0
		for p[first] == 0 {
			first++
		}
		if first%n == shard {
			return p
		}
		c = c[:first]
	}
}

// Tick returns the next logical time of the running schedule.
func Tick() int64 {
	s := active.Load()
	if s == nil {
		return 0
	}
	s.steps++
	return s.steps
}

var _ sync.Locker = (*Mutex)(nil)
