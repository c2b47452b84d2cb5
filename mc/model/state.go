package model

import (
	"fmt"
	"sort"
	"strings"
)

// MaxScore is the largest score.
const MaxScore = 9007199254740992

// Undef marks a score that was not requested.
const Undef = -1

// Pool is a delivery state.
type Pool int

// Delivery states. Lost messages are stored but, since the cache was lost, not
// known to be in the queue until recovery has finished.
const (
	None Pool = iota
	Avail
	Proc
	LockAck
	LockNack
	Lost
)

func (p Pool) String() string {
	return [...]string{"not queued", "available", "processing", "locked(ack)", "locked(nack)", "lost"}[p]
}

// Key identifies a message.
type Key struct{ Q, ID string }

// Msg is the model's knowledge of one message.
type Msg struct {
	Stored       bool
	Seq          int
	C            int
	Expiry       int64 // ns
	Timeless     bool
	Score        float64 // stored score, Undef possible
	BP           string
	Acks, Nacks  int64
	CAcks, CNack int64
	LastUsage    int64 // ns
	Pool         Pool
	CScore       float64 // queue score (Avail), requested score (locks)
	Until        int64   // ms: deadline or end of lock
	Hidden       bool    // not visible on the replica
	// Set once removed (for diagnosis of late deliveries).
	Removed bool
}

// State of the model.
type State struct {
	M   map[Key]*Msg
	Cfg map[string]int64
	seq int
	// RecoveryDone is the recovery's finished mark in the cache.
	RecoveryDone bool
	// Recovering: the recovery-running mark in the cache.
	Recovering bool
	// Reported are the queue prefixes the metrics ever named.
	Reported map[string]bool
}

// NewState is the empty deployment.
func NewState() *State {
	return &State{M: map[Key]*Msg{}, Cfg: map[string]int64{}, Reported: map[string]bool{}}
}

// Key renders the state canonically (now is appended by the caller).
func (s *State) Key() string {
	var ks []Key
	for k := range s.M {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Q != ks[j].Q {
			return ks[i].Q < ks[j].Q
		}
		return ks[i].ID < ks[j].ID
	})
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q%q%v;", k.Q, k.ID, *s.M[k])
	}
	var qs []string
	for q := range s.Cfg {
		qs = append(qs, q)
	}
	sort.Strings(qs)
	for _, q := range qs {
		fmt.Fprintf(&b, "%q=%d;", q, s.Cfg[q])
	}
	fmt.Fprintf(&b, "%v%v%v", s.RecoveryDone, s.Recovering, s.Reported)
	return b.String()
}

func (s *State) get(k Key) *Msg {
	m := s.M[k]
	if m == nil {
		m = &Msg{}
		s.M[k] = m
	}
	return m
}

func (s *State) expired(m *Msg, nowNs int64) bool {
	return m.Stored && !m.Timeless && m.Expiry <= nowNs
}

// Lookup returns the message or nil.
func (s *State) Lookup(q, id string) *Msg { return s.M[Key{q, id}] }
