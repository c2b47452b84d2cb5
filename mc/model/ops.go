// Package model is the reference model of Deckard's observable behaviour and
// the step function that runs an operation on the real code and compares.
package model

import (
	"fmt"
	"strings"
	"time"
)

// Kind of an operation.
type Kind int

// Operations.
const (
	Add Kind = iota
	Pull
	Ack
	Nack
	Remove
	Count
	Get
	Flush
	Edit
	GetCfg
	Timeout // timeout sweep
	Unlock  // unlock sweep
	TTL     // ttl sweep at the current time
	Exceed  // max-elements sweep
	Recover // one recovery run
	Metrics // metrics computation
	Advance // time passes
	Lose    // the cache loses everything
	Restart // the processes restart
	Desync  // replica stops seeing the named messages
	Sync    // replica catches up
	Vanish  // messages disappear from storage only (a removal cut short)
	Macro   // several operations as one
	MarkRec // a recovery is running (as another instance would mark it)
)

// AddMsg is one message of an add request. C selects the content variant.
type AddMsg struct {
	Q, ID    string
	Score    float64
	TTL      int64
	Timeless bool
	C        int
}

// Op is one operation with its parameters.
type Op struct {
	K        Kind
	Inst     int
	Q        string
	IDs      []string
	Adds     []AddMsg
	N        int32
	Min, Max float64
	Filter   int64
	Deadline int64
	Score    float64
	Sub      float64
	Lock     int64
	BP       string
	Rm       bool
	D        time.Duration
	Limit    int64
	NoCfg    bool
	Seq      []Op
}

func f(v float64) string { return fmt.Sprint(v) }

// String renders the operation.
func (o Op) String() string {
	in := ""
	if o.Inst > 0 {
		in = fmt.Sprintf("[instance %d] ", o.Inst+1)
	}
	switch o.K {
	case Add:
		var s []string
		for _, a := range o.Adds {
			x := fmt.Sprintf("%q/%q", a.Q, a.ID)
			if a.Score != 0 {
				x += " score=" + f(a.Score)
			}
			if a.Timeless {
				x += " timeless"
			} else {
				x += fmt.Sprintf(" ttl=%dm", a.TTL)
			}
			x += fmt.Sprintf(" content#%d", a.C)
			s = append(s, x)
		}
		return in + "Add(" + strings.Join(s, "; ") + ")"
	case Pull:
		s := fmt.Sprintf("Pull(%q n=%d", o.Q, o.N)
		if o.Min != 0 {
			s += " min=" + f(o.Min)
		}
		if o.Max != 0 {
			s += " max=" + f(o.Max)
		}
		if o.Filter != 0 {
			s += fmt.Sprint(" score_filter=", o.Filter)
		}
		if o.Deadline != 0 {
			s += fmt.Sprint(" ack_deadline_ms=", o.Deadline)
		}
		return in + s + ")"
	case Ack, Nack:
		s := "Ack"
		if o.K == Nack {
			s = "Nack"
		}
		s = fmt.Sprintf("%s(%q/%q", s, o.Q, o.id())
		if o.Score != 0 {
			s += " score=" + f(o.Score)
		}
		if o.Sub != 0 {
			s += " subtract=" + f(o.Sub)
		}
		if o.Lock != 0 {
			s += fmt.Sprint(" lock_ms=", o.Lock)
		}
		if o.BP != "" {
			s += " breakpoint=" + o.BP
		}
		if o.Rm {
			s += " remove"
		}
		return in + s + ")"
	case Remove:
		return in + fmt.Sprintf("Remove(%q %q)", o.Q, o.IDs)
	case Count:
		return in + fmt.Sprintf("Count(%q)", o.Q)
	case Get:
		return in + fmt.Sprintf("GetById(%q/%q)", o.Q, o.id())
	case Flush:
		return in + "Flush()"
	case Edit:
		if o.NoCfg {
			return in + fmt.Sprintf("EditQueue(%q without configuration)", o.Q)
		}
		return in + fmt.Sprintf("EditQueue(%q max_elements=%d)", o.Q, o.Limit)
	case GetCfg:
		return in + fmt.Sprintf("GetQueue(%q)", o.Q)
	case Timeout:
		return in + "sweep:timeout"
	case Unlock:
		return in + "sweep:unlock"
	case TTL:
		return in + "sweep:ttl"
	case Exceed:
		return in + "sweep:max_elements"
	case Recover:
		return in + "recovery run"
	case Metrics:
		return in + "metrics computation"
	case Advance:
		return fmt.Sprintf("%s pass", o.D)
	case Lose:
		return "cache loses all data"
	case Restart:
		return "restart"
	case Desync:
		return fmt.Sprintf("replica lags: %q/%q not visible", o.Q, o.IDs)
	case Sync:
		return "replica catches up"
	case Vanish:
		return fmt.Sprintf("storage loses %q/%q", o.Q, o.IDs)
	case Macro:
		var r []string
		for _, p := range o.Seq {
			r = append(r, p.String())
		}
		return strings.Join(r, " + ")
	case MarkRec:
		return "recovery marked as running"
	}
	return "?"
}

func (o Op) id() string {
	if len(o.IDs) > 0 {
		return o.IDs[0]
	}
	return ""
}
