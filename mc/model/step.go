package model

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/verifx/sut"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// Disc is a difference between the model and the code. Tags say which
// guarantees it concerns.
type Disc struct {
	Tags []string
	Msg  string
	// Sig identifies the failure independently of the scenario (known findings).
	Sig string
}

// Stepper runs operations on the real system and checks them on the model.
type Stepper struct {
	S    *sut.Sys
	St   *State
	D    []Disc
	aud  map[string]int // expected audit entries: "SIGNAL queue id" -> n (exact)
	audO map[string]int // optional ones
	// NoAudit turns the audit comparison off.
	NoAudit bool
	// Known queues, for probes.
	Queues map[string]bool
	// Log of results, for traces.
	Out string
	why map[Key]string
	// edits remembers configuration values with their times (ms).
	edits map[string][]edit
}

type edit struct {
	at   int64
	val  int64
	inst int
}

// NewStepper starts from an empty deployment.
func NewStepper(s *sut.Sys) *Stepper {
	return &Stepper{S: s, St: NewState(), Queues: map[string]bool{}, why: map[Key]string{}, edits: map[string][]edit{}}
}

func (x *Stepper) disc(msg string, tags ...string) {
	x.D = append(x.D, Disc{Tags: tags, Msg: msg})
}

func anyOf(m proto.Message) *anypb.Any {
	a, err := anypb.New(m)
	if err != nil {
		panic(err)
	}
	return a
}

// Content of a variant.
func Content(c int) (payload map[string]*anypb.Any, str string, meta map[string]string, desc string) {
	switch c {
	case 1:
		return map[string]*anypb.Any{"k": anyOf(wrapperspb.String("v1"))}, "s1", map[string]string{"m": "1"}, "d1"
	case 2:
		return nil, "s2", nil, ""
	case 3:
		return map[string]*anypb.Any{"a": anyOf(wrapperspb.Int64(7)), "b": anyOf(durationpb.New(time.Minute))}, "", map[string]string{"x": "y", "": "empty"}, ""
	case 4:
		return nil, "", nil, "d4"
	case 5:
		return map[string]*anypb.Any{"k": anyOf(wrapperspb.Bytes([]byte{0, 255}))}, "é\x00\n\"", map[string]string{"é": ""}, "d5"
	}
	return nil, "", nil, ""
}

func show(payload map[string]*anypb.Any, str string, meta map[string]string) string {
	var b strings.Builder
	var ks []string
	for k := range payload {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "payload[%q]=%s:%x ", k, payload[k].GetTypeUrl(), payload[k].GetValue())
	}
	fmt.Fprintf(&b, "string=%q ", str)
	ks = nil
	for k := range meta {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "meta[%q]=%q ", k, meta[k])
	}
	return strings.TrimSpace(b.String())
}

func contentStr(c int) string {
	p, s, m, _ := Content(c)
	return show(p, s, m)
}

func clampAdd(sc float64, nowMs int64) float64 {
	if sc == 0 || math.IsNaN(sc) {
		return float64(nowMs)
	}
	return clamp(sc)
}

func clamp(v float64) float64 {
	if v < 0 {
		return 0
	}
	if v > MaxScore {
		return MaxScore
	}
	return v
}

func (x *Stepper) expect(sig audit.Signal, q, id string) {
	x.aud[fmt.Sprintf("%s %q %q", sig, q, id)]++
}
func (x *Stepper) allow(sig audit.Signal, q, id string) {
	x.audO[fmt.Sprintf("%s %q %q", sig, q, id)]++
}

func (x *Stepper) setPool(k Key, m *Msg, p Pool, why string) {
	m.Pool = p
	x.why[k] = why
	if p == None || p == Lost {
		m.CScore, m.Until = 0, 0
	}
	if p == Avail {
		m.Until = 0
	}
	if p == Proc {
		m.CScore = 0
	}
}

func sortedKeys(m map[Key]*Msg) []Key {
	var ks []Key
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Q != ks[j].Q {
			return ks[i].Q < ks[j].Q
		}
		return ks[i].ID < ks[j].ID
	})
	return ks
}

func hasBrace(q string) bool { return strings.ContainsAny(q, "{}") }

// reserved tells whether the engines refuse the queue name.
func (x *Stepper) reserved(q string) bool { return x.S.Kind.Cache != "memory" && hasBrace(q) }

// Do runs one operation and checks it. It returns the discrepancies.
func (x *Stepper) Do(o Op) []Disc {
	if o.K == Macro {
		var all []Disc
		var out []string
		for _, p := range o.Seq {
			d := x.Do(p)
			out = append(out, x.Out)
			all = append(all, d...)
			if !Soft(d) {
				break
			}
		}
		x.Out = strings.Join(out, " + ")
		return all
	}
	x.D = nil
	x.Out = ""
	x.aud, x.audO = map[string]int{}, map[string]int{}
	x.S.Aud.Take()
	svc := x.S.Svc[o.Inst]
	q := x.S.Q[o.Inst]
	st := x.St
	now := sut.Now()
	nowNs, nowMs := now.UnixNano(), sut.NowMs()
	if o.Q != "" {
		x.Queues[o.Q] = true
	}
	switch o.K {
	case Add:
		x.add(o, nowNs, nowMs)
	case Pull:
		x.pull(o, nowNs, nowMs)
	case Ack, Nack:
		x.ack(o, nowNs, nowMs)
	case Remove:
		resp, err := svc.Remove(sut.Ctx, &deckard.RemoveRequest{Queue: o.Q, Ids: append([]string{}, o.IDs...)})
		x.Out = fmt.Sprint(resp, err)
		if x.reserved(o.Q) {
			break
		}
		if err != nil {
			x.disc("remove failed: "+err.Error(), "error")
			break
		}
		x.removed(o.Q, o.IDs, resp, nowNs)
	case Count:
		resp, err := svc.Count(sut.Ctx, &deckard.CountRequest{Queue: o.Q})
		x.Out = fmt.Sprint(resp, err)
		if err != nil {
			x.disc("count failed: "+err.Error(), "error")
			break
		}
		lo, hi := x.stored(o.Q, nowNs)
		if resp.Count < lo || resp.Count > hi {
			x.disc(fmt.Sprintf("count of %q is %d, stored are %d to %d", o.Q, resp.Count, lo, hi), "count")
		}
	case Get:
		x.getByID(o, nowNs)
	case Flush:
		resp, err := svc.Flush(sut.Ctx, &deckard.FlushRequest{})
		x.Out = fmt.Sprint(resp, err)
		if err != nil {
			x.disc("flush failed: "+err.Error(), "error")
			break
		}
		if resp.Success != x.S.Memory() {
			x.disc(fmt.Sprintf("flush reports success=%v on %s", resp.Success, x.S.Kind), "flush")
		}
		if x.S.Memory() {
			st.M = map[Key]*Msg{}
			st.Cfg = map[string]int64{}
			st.RecoveryDone, st.Recovering = false, false
			for k := range x.edits {
				x.edits[k] = []edit{{at: math.MinInt64}}
			}
		}
	case Edit:
		x.edit(o, nowMs)
	case GetCfg:
		resp, err := svc.GetQueue(sut.Ctx, &deckard.GetQueueRequest{Queue: o.Q})
		x.Out = fmt.Sprint(resp, err)
		if err != nil {
			x.disc("get queue failed: "+err.Error(), "error")
			break
		}
		ok := resp.Configuration != nil && resp.Queue == o.Q
		if ok {
			ok = false
			for _, v := range x.allowedCfg(o.Q, nowMs) {
				ok = ok || v == resp.Configuration.MaxElements
			}
		}
		if !ok {
			x.disc(fmt.Sprintf("configuration of %q reported as %v, expected one of %v", o.Q, resp, x.allowedCfg(o.Q, nowMs)), "config")
		}
	case Timeout:
		if err := queue.ProcessTimeoutMessages(sut.Ctx, q); err != nil {
			x.disc("timeout sweep failed: "+err.Error(), "error")
		}
		for _, k := range sortedKeys(st.M) {
			m := st.M[k]
			if m.Pool == Proc && m.Until <= nowMs {
				x.setPool(k, m, Avail, "timeout")
				m.CScore = 0
				x.expect(audit.TIMEOUT, k.Q, k.ID)
			}
		}
	case Unlock:
		queue.ProcessLockPool(sut.Ctx, q)
		for _, k := range sortedKeys(st.M) {
			m := st.M[k]
			if (m.Pool == LockAck || m.Pool == LockNack) && m.Until <= nowMs {
				sc := m.CScore
				if sc == Undef {
					sc = 0
					if m.Pool == LockAck {
						sc = float64(nowMs)
					}
				}
				x.setPool(k, m, Avail, "unlock")
				m.CScore = sc
				x.expect(audit.UNLOCK, k.Q, k.ID)
			}
		}
	case TTL:
		t := now
		_, err := queue.RemoveTTLMessages(sut.Ctx, q, &t)
		if err != nil {
			x.disc("ttl sweep failed: "+err.Error(), "error")
		}
		if st.Recovering {
			break
		}
		for _, k := range sortedKeys(st.M) {
			if st.expired(st.M[k], nowNs) {
				delete(st.M, k)
				x.expect(audit.REMOVE, k.Q, k.ID)
			}
		}
	case Exceed:
		x.exceed(q, nowNs)
	case Recover:
		x.recover(q, nowNs)
	case Metrics:
		x.metrics(func() { queue.ComputeMetrics(sut.Ctx, q) })
	case Advance:
		sut.Advance(o.D)
	case Lose:
		x.S.LoseCache()
		for _, k := range sortedKeys(st.M) {
			m := st.M[k]
			if m.Stored {
				x.setPool(k, m, Lost, "lost")
			} else {
				delete(st.M, k)
			}
		}
		st.RecoveryDone, st.Recovering = false, false
	case Restart:
		x.S.Restart()
	case MarkRec:
		if err := x.S.Cache.Set(sut.Ctx, cache.RECOVERY_RUNNING, "true"); err != nil {
			x.disc("cannot mark recovery: "+err.Error(), "error")
		}
		st.Recovering = true
	case Desync:
		hide := map[string]bool{}
		for _, m := range st.M {
			m.Hidden = false
		}
		for _, id := range o.IDs {
			hide[id] = true
			if m := st.Lookup(o.Q, id); m != nil {
				m.Hidden = true
			}
		}
		x.hide(o.Q, hide)
	case Vanish:
		if _, err := x.S.Store.Remove(sut.Ctx, o.Q, o.IDs...); err != nil {
			x.disc("cannot remove from storage: "+err.Error(), "error")
		}
		for _, id := range o.IDs {
			if m := st.Lookup(o.Q, id); m != nil {
				m.Stored = false
				if m.Pool == None || m.Pool == Lost {
					delete(st.M, Key{o.Q, id})
				}
			}
		}
	case Sync:
		sut.Mongo(x.S.Kind.Store).Sync()
		for _, m := range st.M {
			m.Hidden = false
		}
	}
	x.checkAudit()
	return x.D
}

func (x *Stepper) checkAudit() {
	got := map[string]int{}
	for _, e := range x.S.Aud.Take() {
		got[fmt.Sprintf("%s %q %q", e.Signal, e.Queue, e.ID)]++
	}
	if x.NoAudit {
		return
	}
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range x.aud {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if got[k] < x.aud[k] || got[k] > x.aud[k]+x.audO[k] {
			x.disc(fmt.Sprintf("audit entry %s recorded %d times, expected %d", k, got[k], x.aud[k]), "audit")
		}
	}
}

func (x *Stepper) stored(q string, nowNs int64) (lo, hi int64) {
	for k, m := range x.St.M {
		if k.Q != q || !m.Stored {
			continue
		}
		hi++
		if !x.St.expired(m, nowNs) && !m.Hidden {
			lo++
		}
	}
	return
}

func (x *Stepper) add(o Op, nowNs, nowMs int64) {
	st := x.St
	req := &deckard.AddRequest{}
	bad := ""
	for _, a := range o.Adds {
		p, s, m, d := Content(a.C)
		req.Messages = append(req.Messages, &deckard.AddMessage{Id: a.ID, Queue: a.Q, Score: a.Score, TtlMinutes: a.TTL, Timeless: a.Timeless, Payload: p, StringPayload: s, Metadata: m, Description: d})
		if a.Q != "" {
			x.Queues[a.Q] = true
		}
		if a.Q == "" || a.ID == "" {
			bad = "invalid"
		} else if x.reserved(a.Q) && bad == "" {
			bad = "reserved"
		}
	}
	for _, a := range o.Adds {
		// Whether the cache gets the stored or the requested score when a message
		// is added again before a lost cache was recovered is left open.
		if m := st.Lookup(a.Q, a.ID); m != nil && m.Stored && m.Pool == Lost && clampAdd(a.Score, nowMs) != clamp(m.Score) {
			x.disc("not explored: adding a lost message with another score", "skip")
			return
		}
	}
	resp, err := x.S.Svc[o.Inst].Add(sut.Ctx, req)
	x.Out = fmt.Sprint(resp, err)
	if bad != "" {
		if err == nil {
			x.disc("add of an "+bad+" message was accepted", "add-invalid", "add-"+bad)
		}
		return
	}
	if err != nil {
		// An add of no messages may be refused (MongoDB refuses an empty bulk).
		if len(o.Adds) > 0 {
			x.disc("add failed: "+err.Error(), "error")
		}
		return
	}
	created, existed := int64(0), int64(0)
	queued := map[Key]bool{}
	for _, a := range o.Adds {
		k := Key{a.Q, a.ID}
		m := st.get(k)
		sc := clampAdd(a.Score, nowMs)
		if !m.Stored {
			created++
			st.seq++
			pool, cs, until := m.Pool, m.CScore, m.Until
			*m = Msg{Stored: true, Seq: st.seq, Score: sc, LastUsage: nowNs, Pool: pool, CScore: cs, Until: until}
		} else {
			existed++
		}
		m.C = a.C
		m.Timeless = a.Timeless
		t := time.Unix(0, nowNs)
		if a.TTL != 0 {
			t = t.Add(time.Minute * time.Duration(a.TTL))
		}
		if a.Timeless {
			t = t.AddDate(100, 0, 0)
		}
		m.Expiry = t.UnixNano()
		switch m.Pool {
		case None:
			x.setPool(k, m, Avail, "add")
			m.CScore = sc
			queued[k] = true
			x.expect(audit.INSERT_CACHE, k.Q, k.ID)
		case Lost:
			// Re-queued by the add itself (the generators keep request and
			// stored score equal here).
			x.setPool(k, m, Avail, "add")
			m.CScore = clamp(m.Score)
			x.allow(audit.INSERT_CACHE, k.Q, k.ID)
			queued[k] = true
		default:
			if queued[k] {
				m.CScore = sc // repeated in one request: the last score counts
				x.allow(audit.INSERT_CACHE, k.Q, k.ID)
			}
		}
	}
	if resp.CreatedCount != created || resp.UpdatedCount != existed {
		x.disc(fmt.Sprintf("add reports created=%d updated=%d, expected %d and %d", resp.CreatedCount, resp.UpdatedCount, created, existed), "add-counts")
	}
}

type cand struct {
	k Key
	m *Msg
}

func (x *Stepper) filter(o Op, nowMs int64) (min, max *float64) {
	mi, ma := o.Min, o.Max
	if ma == 0 && o.Filter > 0 {
		ma = float64(nowMs - o.Filter)
	}
	if mi != 0 && !math.IsNaN(mi) {
		v := clamp(mi)
		min = &v
	}
	if ma != 0 && !math.IsNaN(ma) {
		v := clamp(ma)
		max = &v
	}
	return
}

func (x *Stepper) pull(o Op, nowNs, nowMs int64) {
	st := x.St
	resp, err := x.S.Svc[o.Inst].Pull(sut.Ctx, &deckard.PullRequest{Queue: o.Q, Amount: o.N, MinScore: o.Min, MaxScore: o.Max, ScoreFilter: o.Filter, AckDeadlineMs: o.Deadline})
	if x.reserved(o.Q) {
		if err == nil && len(resp.GetMessages()) > 0 {
			x.disc("pull of a refused queue name delivered messages", "deliver-foreign")
		}
		return
	}
	if err != nil {
		x.Out = err.Error()
		x.disc("pull failed: "+err.Error(), "error")
		return
	}
	var ids []string
	for _, m := range resp.Messages {
		ids = append(ids, m.Id)
	}
	x.Out = fmt.Sprintf("-> %q", ids)
	n := int(o.N)
	if n <= 0 {
		n = 1
	}
	if n > 1000 {
		n = 1000
	}
	min, max := x.filter(o, nowMs)
	in := func(m *Msg) bool {
		return (min == nil || m.CScore >= *min) && (max == nil || m.CScore <= *max)
	}
	var avail []cand
	lost := map[Key]bool{}
	for _, k := range sortedKeys(st.M) {
		m := st.M[k]
		if k.Q != o.Q {
			continue
		}
		if m.Pool == Avail && in(m) {
			avail = append(avail, cand{k, m})
		}
		if m.Pool == Lost {
			lost[k] = true
		}
	}
	chosen := map[Key]bool{}
	returned := map[Key]bool{}
	last := math.Inf(-1)
	for _, r := range resp.Messages {
		k := Key{r.Queue, r.Id}
		if r.Queue != o.Q {
			x.disc(fmt.Sprintf("pull of %q delivered a message of queue %q", o.Q, r.Queue), "deliver-foreign")
			return
		}
		if returned[k] {
			x.disc(fmt.Sprintf("pull delivered %q twice in one response", r.Id), "deliver-dup", "deliver")
			return
		}
		returned[k] = true
		m := st.Lookup(o.Q, r.Id)
		if m == nil || !m.Stored {
			x.disc(fmt.Sprintf("pull delivered %q, which is removed or was never added", r.Id), "deliver-removed", "deliver")
			return
		}
		switch m.Pool {
		case Proc:
			x.disc(fmt.Sprintf("pull delivered %q, which another consumer is processing (deadline in %d ms)", r.Id, m.Until-nowMs), "deliver-processing", "deliver")
			return
		case LockAck, LockNack:
			x.disc(fmt.Sprintf("pull delivered %q, which is %s for %d more ms", r.Id, m.Pool, m.Until-nowMs), "deliver-locked", "deliver")
			return
		case None:
			x.disc(fmt.Sprintf("pull delivered %q, which was not queued", r.Id), "deliver-unqueued", "deliver")
			return
		case Lost:
			m.CScore = clamp(m.Score)
			m.Pool = Avail
			avail = append(avail, cand{k, m})
		case Avail:
			if !in(m) {
				x.disc(fmt.Sprintf("pull delivered %q with queue score %v outside the filter", r.Id, m.CScore), "pull-filter")
				return
			}
		}
		chosen[k] = true
		if got, want := show(r.Payload, r.StringPayload, r.Metadata), contentStr(m.C); got != want {
			x.disc(fmt.Sprintf("pull delivered %q with content {%s}, expected {%s}", r.Id, got, want), "content")
		}
		x.checkScore("pull", r.Id, r.Score, m)
		if r.Score < last {
			x.disc(fmt.Sprintf("pull response is not in ascending score order at %q", r.Id), "response-order")
		}
		last = r.Score
		if d := r.Diagnostics; d == nil || d.Acks != m.Acks || d.Nacks != m.Nacks || d.ConsecutiveAcks != m.CAcks || d.ConsecutiveNacks != m.CNack {
			x.disc(fmt.Sprintf("pull delivered %q with diagnostics %v, expected acks=%d nacks=%d consecutive %d/%d", r.Id, d, m.Acks, m.Nacks, m.CAcks, m.CNack), "diagnostics")
		}
		if r.Breakpoint != m.BP {
			x.disc(fmt.Sprintf("pull delivered %q with breakpoint %q, expected %q", r.Id, r.Breakpoint, m.BP), "breakpoint")
		}
	}
	// Messages found missing from storage are dropped and audited.
	dropped := map[Key]bool{}
	var keep []audit.Entry
	for _, e := range x.S.Aud.Take() {
		if e.Signal == audit.MISSING_STORAGE && e.Queue == o.Q {
			dropped[Key{o.Q, e.ID}] = true
		}
		keep = append(keep, e)
	}
	for _, e := range keep {
		x.S.Aud.Store(sut.Ctx, e)
	}
	for k := range dropped {
		m := st.M[k]
		if m == nil {
			x.disc(fmt.Sprintf("audit reports unknown message %q missing from storage", k.ID), "audit")
			continue
		}
		if m.Stored && !st.expired(m, nowNs) {
			x.disc(fmt.Sprintf("pull dropped stored message %q as missing from storage", k.ID), "drop", "missing")
			return
		}
		if m.Pool == Lost {
			m.Pool = Avail
			avail = append(avail, cand{k, m})
		}
		chosen[k] = true
		x.expect(audit.MISSING_STORAGE, k.Q, k.ID)
	}
	want := len(avail)
	if n < want {
		want = n
	}
	if len(chosen) > n {
		x.disc(fmt.Sprintf("pull of %d delivered %d messages", n, len(chosen)), "pull-count")
	}
	sort.SliceStable(avail, func(i, j int) bool { return avail[i].m.CScore < avail[j].m.CScore })
	if len(chosen) < want {
		// The missing ones: the lowest not chosen.
		tags := []string{"missing"}
		var miss []string
		left := want - len(chosen)
		for _, c := range avail {
			if left > 0 && !chosen[c.k] {
				left--
				miss = append(miss, fmt.Sprintf("%q (available since %s, queue score %v)", c.k.ID, x.why[c.k], c.m.CScore))
				tags = append(tags, "missing:"+x.why[c.k])
				if st.expired(c.m, nowNs) {
					tags = append(tags, "expired")
				}
			}
		}
		x.disc(fmt.Sprintf("pull of %d returned %d of %d available messages; missing %s", n, len(chosen), want, strings.Join(miss, ", ")), tags...)
		return
	}
	hi := math.Inf(-1)
	var hik Key
	for _, c := range avail {
		if chosen[c.k] && c.m.CScore > hi {
			hi, hik = c.m.CScore, c.k
		}
	}
	for _, c := range avail {
		if !chosen[c.k] && c.m.CScore < hi {
			x.disc(fmt.Sprintf("pull delivered %q (queue score %v, available since %s) before %q (queue score %v, available since %s)", hik.ID, hi, x.why[hik], c.k.ID, c.m.CScore, x.why[c.k]),
				"order", "order:"+x.why[hik], "order:"+x.why[c.k])
			return
		}
	}
	dl := o.Deadline
	if dl == 0 {
		dl = 300000
	}
	for k := range chosen {
		m := st.M[k]
		if dropped[k] {
			x.setPool(k, m, None, "dropped")
			if !m.Stored {
				delete(st.M, k)
			}
			continue
		}
		x.setPool(k, m, Proc, "pull")
		m.Until = addMs(nowMs, dl)
	}
}

func (x *Stepper) checkScore(op, id string, sc float64, m *Msg) {
	if math.IsNaN(sc) || sc < 0 || sc > MaxScore {
		x.disc(fmt.Sprintf("%s reports %q with score %v, outside the valid range", op, id, sc), "score-range")
		return
	}
	if m.Score >= 0 && m.Score <= MaxScore && sc != m.Score {
		x.disc(fmt.Sprintf("%s reports %q with score %v, its score is %v", op, id, sc, m.Score), "score")
	}
}

func (x *Stepper) ack(o Op, nowNs, nowMs int64) {
	st := x.St
	req := &deckard.AckRequest{Id: o.id(), Queue: o.Q, ScoreSubtract: o.Sub, Breakpoint: o.BP, LockMs: o.Lock, RemoveMessage: o.Rm, Reason: "r", Score: o.Score}
	var resp *deckard.AckResponse
	var err error
	sig := audit.ACK
	if o.K == Ack {
		resp, err = x.S.Svc[o.Inst].Ack(sut.Ctx, req)
	} else {
		resp, err = x.S.Svc[o.Inst].Nack(sut.Ctx, req)
		sig = audit.NACK
	}
	x.Out = fmt.Sprint(resp, err)
	if o.Q == "" || o.id() == "" {
		if err == nil && resp.GetSuccess() {
			x.disc("an ack without queue or id succeeded", "ack-result")
		}
		x.allow(sig, o.Q, o.id())
		return
	}
	if x.reserved(o.Q) {
		if err == nil && resp.GetSuccess() {
			x.disc("an ack on a refused queue name succeeded", "ack-result")
		}
		return
	}
	if err != nil {
		x.disc("ack or nack failed: "+err.Error(), "error")
		return
	}
	k := Key{o.Q, o.id()}
	m := st.M[k]
	sc := float64(Undef)
	if o.Score != 0 && !math.IsNaN(o.Score) {
		sc = clamp(o.Score)
	} else if o.Lock <= 0 {
		if o.K == Ack {
			sub := o.Sub
			if math.IsNaN(sub) {
				sub = 0
			}
			sc = clamp(float64(nowMs) - sub)
		} else {
			sc = 0
		}
	}
	if m != nil && m.Stored {
		m.Score = sc
		if o.K == Ack {
			m.BP = o.BP
			m.Acks++
			m.CAcks++
			m.CNack = 0
			m.LastUsage = nowNs
		} else {
			m.Nacks++
			m.CNack++
			m.CAcks = 0
		}
	}
	proc := m != nil && m.Pool == Proc
	if !o.Rm && resp.Success != proc {
		p := "unknown"
		if m != nil {
			p = m.Pool.String()
		}
		x.disc(fmt.Sprintf("%s of %q reports success=%v, the message is %s", sig, k.ID, resp.Success, p), "ack-result")
	}
	if o.Rm && !resp.Success {
		x.disc(fmt.Sprintf("%s with removal of %q reports failure", sig, k.ID), "ack-result")
	}
	if proc {
		x.expect(sig, k.Q, k.ID)
		if o.Lock > 0 {
			p := LockAck
			if o.K == Nack {
				p = LockNack
			}
			x.setPool(k, m, p, strings.ToLower(string(sig)))
			m.CScore = sc
			m.Until = addMs(nowMs, o.Lock)
		} else {
			x.setPool(k, m, Avail, strings.ToLower(string(sig)))
			m.CScore = sc
		}
	} else {
		x.allow(sig, k.Q, k.ID)
	}
	if o.Rm {
		x.removed(o.Q, []string{o.id()}, resp.RemovalResponse, nowNs)
	} else if resp.RemovalResponse != nil && resp.RemovalResponse.StorageRemoved > 0 {
		x.disc("ack without removal removed a message", "remove-counts")
	}
}

func (x *Stepper) removed(q string, ids []string, resp *deckard.RemoveResponse, nowNs int64) {
	st := x.St
	seen := map[string]bool{}
	var cache, cacheMax, stored int64
	for _, id := range ids {
		k := Key{q, id}
		if seen[id] {
			x.allow(audit.REMOVE, q, id)
			continue
		}
		seen[id] = true
		m := st.M[k]
		if m == nil {
			x.allow(audit.REMOVE, q, id)
			continue
		}
		x.expect(audit.REMOVE, q, id)
		if m.Stored {
			stored++
		}
		switch m.Pool {
		case Avail, Proc, LockAck, LockNack:
			cache++
			cacheMax++
			if x.S.Kind.Cache != "memory" && (m.Pool == LockAck || m.Pool == LockNack) && m.CScore != Undef {
				cacheMax++ // Redis counts the entry of the requested score, too
			}
		case Lost:
			cacheMax++
		}
		delete(st.M, k)
	}
	if resp.GetStorageRemoved() != stored || resp.GetCacheRemoved() < cache || resp.GetCacheRemoved() > cacheMax {
		x.disc(fmt.Sprintf("remove of %q from %q reports storage=%d cache=%d, expected %d and %d", ids, q, resp.GetStorageRemoved(), resp.GetCacheRemoved(), stored, cache), "remove-counts")
	}
}

func (x *Stepper) getByID(o Op, nowNs int64) {
	resp, err := x.S.Svc[o.Inst].GetById(sut.Ctx, &deckard.GetByIdRequest{Id: o.id(), Queue: o.Q})
	x.Out = fmt.Sprint(resp, err)
	if o.id() == "" || o.Q == "" {
		if err == nil {
			x.disc("get by id without id or queue was accepted", "get")
		}
		return
	}
	if err != nil {
		x.disc("get by id failed: "+err.Error(), "error")
		return
	}
	m := x.St.Lookup(o.Q, o.id())
	if m == nil || !m.Stored {
		if resp.Found {
			x.disc(fmt.Sprintf("get by id found %q/%q, which is removed or was never added", o.Q, o.id()), "get", "get-ghost")
		}
		return
	}
	if !resp.Found {
		if !x.St.expired(m, nowNs) && !m.Hidden {
			x.disc(fmt.Sprintf("get by id does not find stored message %q/%q", o.Q, o.id()), "get", "get-missing")
		}
		return
	}
	r := resp.Message
	if r.Id != o.id() || r.Queue != o.Q {
		x.disc(fmt.Sprintf("get by id of %q/%q returned %q/%q", o.Q, o.id(), r.Queue, r.Id), "get-foreign")
		return
	}
	p, s, me, d := Content(m.C)
	if got, want := show(r.Payload, r.StringPayload, r.Metadata)+" desc="+r.Description, show(p, s, me)+" desc="+d; got != want {
		x.disc(fmt.Sprintf("get by id of %q has content {%s}, expected {%s}", r.Id, got, want), "content")
	}
	if len(resp.HumanReadablePayload) != len(p) {
		x.disc(fmt.Sprintf("get by id of %q: human readable payload %v", r.Id, resp.HumanReadablePayload), "content")
	}
	x.checkScore("get by id", r.Id, r.Score, m)
	if r.Breakpoint != m.BP {
		x.disc(fmt.Sprintf("get by id of %q has breakpoint %q, expected %q", r.Id, r.Breakpoint, m.BP), "breakpoint")
	}
}

func (x *Stepper) edit(o Op, nowMs int64) {
	req := &deckard.EditQueueRequest{Queue: o.Q}
	if !o.NoCfg {
		req.Configuration = &deckard.QueueConfiguration{MaxElements: o.Limit}
	}
	resp, err := x.S.Svc[o.Inst].EditQueue(sut.Ctx, req)
	x.Out = fmt.Sprint(resp, err)
	if err != nil {
		x.disc("edit queue failed: "+err.Error(), "error")
		return
	}
	if resp.Success == o.NoCfg || resp.Queue != o.Q {
		x.disc(fmt.Sprintf("edit queue reports %v", resp), "config")
	}
	if o.NoCfg || o.Limit == 0 {
		return
	}
	v := o.Limit
	if v < 0 {
		v = 0
	}
	// An edit to the value this instance still holds locally, stale since
	// another instance changed it, must be stored like any other.
	if c, err := x.S.Store.GetQueueConfiguration(sut.Ctx, o.Q); err == nil && x.St.Cfg[o.Q] != v && (c == nil && x.St.Cfg[o.Q] == 0 || c != nil && c.MaxElements == x.St.Cfg[o.Q]) && x.maybeStale(o, v, nowMs) {
		x.D = append(x.D, Disc{Tags: []string{"config"}, Sig: "stale-equal-edit", Msg: fmt.Sprintf("an edit of %q to %d reported success and stored nothing (%d stays in force): the instance's local copy, outdated by an edit on another instance, holds the same value", o.Q, v, x.St.Cfg[o.Q])})
		return
	}
	if x.edits[o.Q] == nil {
		x.edits[o.Q] = []edit{{at: math.MinInt64}}
	}
	x.edits[o.Q] = append(x.edits[o.Q], edit{nowMs, v, o.Inst})
	x.St.Cfg[o.Q] = v
}

// maybeStale tells whether the instance may hold v as an outdated local copy.
func (x *Stepper) maybeStale(o Op, v, nowMs int64) bool {
	es := x.edits[o.Q]
	if len(es) == 0 || es[len(es)-1].inst == o.Inst {
		return false
	}
	for i, e := range es[:len(es)-1] {
		if e.val == v && es[i+1].at >= nowMs-600000 {
			return true
		}
	}
	return false
}

// allowedCfg: every value in force at some time in the last ten minutes.
func (x *Stepper) allowedCfg(q string, nowMs int64) []int64 {
	es := x.edits[q]
	if len(es) == 0 {
		return []int64{0}
	}
	var r []int64
	for i, e := range es {
		end := int64(math.MaxInt64)
		if i+1 < len(es) {
			end = es[i+1].at
		}
		if end >= nowMs-600000 {
			r = append(r, e.val)
		}
	}
	return r
}

// exceed: unexpired losses are exactly the excess, soonest-expiring (then
// oldest) first; expired messages may or may not be lost with them.
func (x *Stepper) exceed(q *queue.Queue, nowNs int64) {
	st := x.St
	_, err := queue.RemoveExceedingMessages(sut.Ctx, q)
	if err != nil {
		x.disc("max-elements sweep failed: "+err.Error(), "error")
	}
	if st.Recovering {
		return
	}
	gone := map[Key]bool{}
	es := x.S.Aud.Take()
	for _, e := range es {
		if e.Signal == audit.REMOVE {
			gone[Key{e.Queue, e.ID}] = true
		}
		x.S.Aud.Store(sut.Ctx, e)
	}
	for _, qn := range x.queueNames() {
		lim := st.Cfg[qn]
		var live []cand
		for _, k := range sortedKeys(st.M) {
			m := st.M[k]
			if k.Q != qn || !m.Stored {
				continue
			}
			if st.expired(m, nowNs) {
				if gone[k] {
					x.expect(audit.REMOVE, k.Q, k.ID)
					delete(st.M, k)
				}
				continue
			}
			live = append(live, cand{k, m})
		}
		if lim <= 0 || int64(len(live)) <= lim {
			continue
		}
		sort.SliceStable(live, func(i, j int) bool {
			a, b := live[i].m, live[j].m
			if x.S.Kind.Store != "memory" {
				if a.Expiry/1e6 != b.Expiry/1e6 {
					return a.Expiry/1e6 < b.Expiry/1e6
				}
			} else if a.Expiry != b.Expiry {
				return a.Expiry < b.Expiry
			}
			return a.Seq < b.Seq
		})
		for _, c := range live[:int64(len(live))-lim] {
			x.expect(audit.REMOVE, c.k.Q, c.k.ID)
			delete(st.M, c.k)
		}
	}
}

func (x *Stepper) queueNames() []string {
	m := map[string]bool{}
	for k := range x.St.M {
		m[k.Q] = true
	}
	for k := range x.Queues {
		m[k] = true
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (x *Stepper) recover(q *queue.Queue, nowNs int64) {
	st := x.St
	more := queue.RecoveryMessagesPool(sut.Ctx, q)
	x.Out = fmt.Sprint("work done: ", more)
	if st.RecoveryDone {
		if more {
			x.disc("recovery does not stop after it finished", "recovery-stop")
		}
		return
	}
	if !more {
		x.disc("recovery reports completion although it was due", "recovery-stop", "missing:recovery")
		return
	}
	inserted := map[Key]bool{}
	for _, e := range x.S.Aud.Take() {
		if e.Signal == audit.INSERT_CACHE {
			inserted[Key{e.Queue, e.ID}] = true
		}
		x.S.Aud.Store(sut.Ctx, e)
	}
	for _, k := range sortedKeys(st.M) {
		m := st.M[k]
		if m.Pool != Lost && m.Pool != None || !m.Stored {
			continue
		}
		if st.expired(m, nowNs) {
			x.allow(audit.INSERT_CACHE, k.Q, k.ID)
			if m.Pool == None {
				x.setPool(k, m, Lost, "recovery")
			}
			continue
		}
		if m.Hidden && !inserted[k] {
			x.D = append(x.D, Disc{Tags: []string{"recovery-lag"}, Sig: "recovery-lagging-replica", Msg: fmt.Sprintf("recovery finished without stored message %q/%q, which the replica it read did not show yet", k.Q, k.ID)})
			continue
		}
		x.setPool(k, m, Avail, "recovery")
		m.CScore = clamp(m.Score)
		x.expect(audit.INSERT_CACHE, k.Q, k.ID)
	}
	st.RecoveryDone = true
	st.Recovering = false
}

// addMs adds without overflow; times before 1970 count as long past.
func addMs(t, ms int64) int64 {
	if ms > math.MaxInt64-t {
		return math.MaxInt64
	}
	if t+ms < 0 {
		return 0
	}
	return t + ms
}
