package vsync

import (
	"reflect"
	"runtime"
	"time"
	"unsafe"
)

// chanCase is one channel operation.
type chanCase struct {
	recv  bool
	nilch bool
	cap   int
	key   unsafe.Pointer
	rv    reflect.Value
	val   any  // sent, or received from the partner
	got   bool // val was handed over
	owner *Thread
}

// Case of a Select.
type Case interface {
	base() *chanCase
	// perform does the operation for real; it cannot block.
	perform()
	// accept takes the value handed over or received by reflection.
	accept(v any, ok bool)
}

func newCase(ch any, recv bool) *chanCase {
	rv := reflect.ValueOf(ch)
	c := &chanCase{recv: recv, rv: rv}
	if rv.IsNil() {
		c.nilch = true
		return c
	}
	c.cap = rv.Cap()
	c.key = rv.UnsafePointer()
	return c
}

func (s *Sched) isClosed(key unsafe.Pointer) bool {
	for _, c := range s.closed {
		if c.key == key {
			return true
		}
	}
	return false
}

// can tells whether the operation needs no partner and would not block.
func (c *chanCase) can(s *Sched) bool {
	if s.isClosed(c.key) {
		return true
	}
	if !c.recv {
		return c.rv.Len() < c.cap
	}
	if c.rv.Len() > 0 {
		return true
	}
	for _, x := range s.stash {
		if x.key == c.key {
			return true
		}
	}
	// Closed, or sent to, by code outside the scheduler?
	v, ok := c.rv.TryRecv()
	if ok {
		s.stash = append(s.stash, stashed{c.key, v.Interface()})
		return true
	}
	if v.IsValid() {
		s.closed = append(s.closed, c)
		return true
	}
	return false
}

func (c *chanCase) unstash(s *Sched) (any, bool) {
	for i, x := range s.stash {
		if x.key == c.key {
			s.stash = append(append([]stashed{}, s.stash[:i]...), s.stash[i+1:]...)
			return x.v, true
		}
	}
	return nil, false
}

// RecvCase is a receive operation.
type RecvCase[T any] struct {
	b  *chanCase
	ch <-chan T
	V  T
	OK bool
}

// R makes a receive case.
func R[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{newCase(ch, true), ch, *new(T), false} }

func (c *RecvCase[T]) base() *chanCase { return c.b }

func (c *RecvCase[T]) perform() {
	select {
	case c.V, c.OK = <-c.ch:
	default:
		panic("vsync: the receive would block")
	}
}

func (c *RecvCase[T]) accept(v any, ok bool) {
	if v != nil {
		c.V = v.(T)
	}
	c.OK = ok
}

// SendCase is a send operation.
type SendCase[T any] struct {
	b  *chanCase
	ch chan<- T
	v  T
}

// S makes a send case: S(ch)(v).
func S[T any](ch chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] {
		c := &SendCase[T]{newCase(ch, false), ch, v}
		c.b.val = v
		return c
	}
}

func (c *SendCase[T]) base() *chanCase { return c.b }

func (c *SendCase[T]) perform() {
	select {
	case c.ch <- c.v:
	default:
		panic("vsync: the send would block")
	}
}

func (c *SendCase[T]) accept(any, bool) {}

// Select does one of the cases and returns its index, or -1 for the default.
func Select(def bool, cases ...Case) int {
	s, ended := running()
	if s == nil {
		return realSelect(def, cases)
	}
	if ended {
		return -1
	}
	th := s.cur
	bases := make([]*chanCase, len(cases))
	for i, c := range cases {
		b := c.base()
		bases[i] = b
		if b.recv && !b.nilch {
			for _, t := range s.timers {
				if t.key == b.key {
					th.LastTimer = t.d
					th.Waits++
				}
			}
		}
	}
	raceRelease(unsafe.Pointer(&th.hb))
	raceDisable()
	what := "select"
	if len(cases) == 1 && !def {
		what = "send"
		if bases[0].recv {
			what = "receive"
		}
	}
	th.cases, th.def = bases, def
	th.at = what
	th.ready = nil
	if len(cases) == 0 && !def {
		th.ready = func() bool { return false }
	}
	th.pick, th.given, th.partner = -1, false, nil
	s.parkSelect(th)
	i := th.pick
	p := th.partner
	th.cases, th.def, th.given, th.partner = nil, false, false, nil
	raceEnable()
	if i < 0 {
		return i
	}
	c := cases[i]
	b := bases[i]
	if p != nil {
		raceAcquire(unsafe.Pointer(&p.owner.hb))
		if b.recv {
			c.accept(b.val, true)
		}
		return i
	}
	if b.recv {
		if v, ok := b.unstash(s); ok {
			c.accept(v, true)
			return i
		}
	}
	c.perform()
	return i
}

func (s *Sched) parkSelect(th *Thread) {
	s.ev <- struct{}{}
	<-th.wake
	if s.dying {
		raceEnable()
		th.cases = nil
		runtime.Goexit()
	}
}

func realSelect(def bool, cases []Case) int {
	cs := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, c := range cases {
		b := c.base()
		if b.recv {
			cs = append(cs, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: b.rv})
		} else {
			v := reflect.ValueOf(b.val)
			if b.val == nil {
				v = reflect.Zero(b.rv.Type().Elem())
			}
			cs = append(cs, reflect.SelectCase{Dir: reflect.SelectSend, Chan: b.rv, Send: v})
		}
	}
	if def {
		cs = append(cs, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(cs)
	if i == len(cases) {
		return -1
	}
	if cases[i].base().recv {
		cases[i].accept(v.Interface(), ok)
	}
	return i
}

// Send is ch <- v: Send(ch)(v).
func Send[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if active.Load() == nil {
			ch <- v
			return
		}
		Select(false, S(ch)(v))
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if active.Load() == nil {
		v, ok := <-ch
		return v, ok
	}
	c := R(ch)
	Select(false, c)
	return c.V, c.OK
}

// Range is the iterator of a range over ch.
func Range[T any](ch <-chan T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	closing(ch)
	close(ch)
	closed(ch)
}

func closing(ch any) {
	s, ended := running()
	if s == nil || ended {
		return
	}
	raceDisable()
	s.point("close", nil)
	raceEnable()
}

func closed(ch any) {
	s, ended := running()
	if s == nil || ended {
		return
	}
	s.closed = append(s.closed, newCase(ch, false))
}

type timer struct {
	at, d   time.Duration
	period  time.Duration
	pending bool
	ch      chan time.Time
	key     unsafe.Pointer
	f       func()
	owner   *Thread
}

func (s *Sched) newTimer(d, period time.Duration, f func()) *timer {
	t := &timer{at: s.now + max(d, 0), d: d, period: period, pending: true, f: f, owner: s.cur, ch: make(chan time.Time, 1)}
	t.key = reflect.ValueOf(t.ch).UnsafePointer()
	if d <= 0 {
		s.fire(t)
	}
	// Forget timers nobody can wait for any more.
	if len(s.timers) > 64 {
		var keep []*timer
		for _, x := range s.timers {
			if x.pending || len(x.ch) > 0 {
				keep = append(keep, x)
			}
		}
		s.timers = keep
	}
	s.timers = append(s.timers, t)
	return t
}

func (s *Sched) fire(t *timer) {
	if t.f != nil {
		t.pending = false
		s.spawn(t.f, t.owner)
		return
	}
	select {
	case t.ch <- time.Unix(0, 0).Add(s.now):
	default:
	}
	t.pending = t.period > 0
	if t.pending {
		t.at = s.now + t.period
	}
}

// due returns the earliest timer somebody waits for.
func (s *Sched) due() *timer {
	var best *timer
	for _, t := range s.timers {
		if !t.pending || (best != nil && best.at <= t.at) {
			continue
		}
		if t.f != nil {
			best = t
			continue
		}
	search:
		for _, th := range s.T {
			if th.done {
				continue
			}
			for _, c := range th.cases {
				if c.recv && !c.nilch && c.key == t.key {
					best = t
					break search
				}
			}
		}
	}
	return best
}

func (s *Sched) clockReady() bool {
	if s.Clock <= 0 {
		return false
	}
	t := s.due()
	return t != nil && (s.Until == 0 || t.at <= s.Until)
}

// tick advances the clock to the next timer.
func (s *Sched) tick() {
	t := s.due()
	s.Clock--
	s.now = t.at
	for _, x := range s.timers {
		if x.pending && x.at > s.now && x.at <= t.at+s.Coarse && (s.Until == 0 || x.at <= s.Until) {
			s.now = x.at
		}
	}
	s.Trace = append(s.Trace, "clock: "+s.now.String())
	for _, x := range append([]*timer{}, s.timers...) {
		if x.pending && x.at <= s.now {
			s.fire(x)
		}
	}
}

// After is time.After.
func After(d time.Duration) <-chan time.Time {
	s, ended := running()
	if s == nil || ended {
		return time.After(d)
	}
	raceDisable()
	defer raceEnable()
	return s.newTimer(d, 0, nil).ch
}

// TickChan is time.Tick.
func TickChan(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	s, ended := running()
	if s == nil {
		time.Sleep(d)
		return
	}
	if ended {
		return
	}
	Recv(After(d))
}

// Timer is time.Timer.
type Timer struct {
	C    <-chan time.Time
	real *time.Timer
	t    *timer
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	s, ended := running()
	if s == nil || ended {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	raceDisable()
	defer raceEnable()
	t := s.newTimer(d, 0, nil)
	return &Timer{C: t.ch, t: t}
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	s, ended := running()
	if s == nil || ended {
		r := time.AfterFunc(d, f)
		return &Timer{C: r.C, real: r}
	}
	t := &Timer{}
	raceRelease(unsafe.Pointer(t))
	raceDisable()
	defer raceEnable()
	t.t = s.newTimer(d, 0, func() {
		raceAcquire(unsafe.Pointer(t))
		f()
	})
	return t
}

// Stop is time.Timer.Stop.
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	return t.t.stop()
}

func (t *timer) stop() bool {
	was := t.pending || len(t.ch) > 0
	t.pending = false
	select {
	case <-t.ch:
	default:
	}
	return was
}

// Reset is time.Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	s, ended := running()
	if s == nil || ended {
		return false
	}
	was := t.t.stop()
	t.t.at, t.t.d, t.t.pending = s.now+max(d, 0), d, true
	if d <= 0 {
		s.fire(t.t)
	}
	for _, x := range s.timers {
		if x == t.t {
			return was
		}
	}
	s.timers = append(s.timers, t.t)
	return was
}

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	real *time.Ticker
	t    *timer
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	s, ended := running()
	if s == nil || ended {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	raceDisable()
	defer raceEnable()
	t := s.newTimer(d, d, nil)
	return &Ticker{C: t.ch, t: t}
}

// Stop is time.Ticker.Stop.
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.t.stop()
}

// Reset is time.Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	if s, ended := running(); s != nil && !ended {
		t.t.stop()
		t.t.at, t.t.d, t.t.period, t.t.pending = s.now+d, d, d, true
	}
}
