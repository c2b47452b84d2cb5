package model

import (
	"github.com/takenet/deckard/internal/verifx/mongofake"
	"github.com/takenet/deckard/internal/verifx/sut"
	"go.mongodb.org/mongo-driver/v2/bson"
)

func (x *Stepper) hide(q string, ids map[string]bool) { Hide(sut.Mongo(x.S.Kind.Store), q, ids) }

// Hide makes the secondary not see the messages.
func Hide(m *mongofake.Server, q string, ids map[string]bool) {
	m.AutoSync = true
	m.HideOnSecondary(func(_ string, d bson.D) bool {
		var dq, id string
		for _, e := range d {
			switch e.Key {
			case "queue":
				dq, _ = e.Value.(string)
			case "id":
				id, _ = e.Value.(string)
			}
		}
		return dq == q && ids[id]
	})
}

// Soft tells whether the model still describes the code after the
// discrepancies (a wrong report, not a diverging delivery state).
func Soft(ds []Disc) bool {
	for _, d := range ds {
		soft := true
		for _, t := range d.Tags {
			switch t {
			case "audit", "score-range", "score", "content", "diagnostics", "breakpoint", "response-order", "add-counts", "remove-counts", "count", "get", "get-ghost", "get-missing", "get-foreign", "config", "recovery-lag":
			default:
				soft = false
			}
		}
		if !soft {
			return false
		}
	}
	return true
}
