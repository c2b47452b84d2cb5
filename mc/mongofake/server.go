// Package mongofake is a MongoDB stand-in for model checking: it speaks enough
// of the wire protocol (OP_MSG, and OP_QUERY for the handshake) for the real
// driver to connect, and evaluates the commands Deckard uses on in-memory
// collections. It can run as a stand-alone server or as a replica set whose
// secondary replicates only on request.
package mongofake

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"go.mongodb.org/mongo-driver/v2/bson"
)

type coll struct{ docs []bson.D }

type node struct {
	s     *Server
	ln    net.Listener
	addr  string
	sec   bool
	data  map[string]*coll
	mu    sync.Mutex
	conns map[net.Conn]bool
}

// Server is the whole deployment.
type Server struct {
	mu       sync.Mutex
	nodes    []*node
	set      bool
	oid      uint64
	cursors  map[int64][]bson.D
	curID    int64
	Commands int64
	// Gate, when set, is called before each data command, without the lock; it
	// may block.
	Gate func(cmd string)
	// Fault, when set, is asked before each data command: "before" or "after".
	Fault func(cmd string) string
	// OnCommand observes data commands: name, namespace, node index.
	OnCommand func(cmd, ns string, node int)
	// Down makes the deployment refuse handshakes (drop connections).
	Down     int
	Accepted int
	// OnPing, when set, decides about each ping: "" or "error".
	OnPing func() string
	// Params is appended to the URI.
	Params string
	// noPrimary: the first node is neither primary nor secondary; slowPrimary
	// delays its handshakes.
	noPrimary   bool
	slowPrimary time.Duration
	AutoSync    bool
	// hidden documents (by _id) stay invisible on the secondary until Sync.
	hidden map[string]bool
}

// Port, when set, is the port of the first node (further nodes use the next ones).
var Port int

// New starts a stand-alone server (replicas false) or a primary and a secondary.
func New(replicas bool) *Server {
	s := &Server{cursors: map[int64][]bson.D{}, set: replicas, AutoSync: true}
	n := 1
	if replicas {
		n = 2
	}
	for i := 0; i < n; i++ {
		at := "127.0.0.1:0"
		if Port != 0 {
			at = fmt.Sprintf("127.0.0.1:%d", Port+i)
		}
		ln, err := net.Listen("tcp", at)
		if err != nil {
			panic(err)
		}
		nd := &node{s: s, ln: ln, addr: ln.Addr().String(), sec: i > 0, data: map[string]*coll{}, conns: map[net.Conn]bool{}}
		s.nodes = append(s.nodes, nd)
	}
	for _, nd := range s.nodes {
		go nd.serve()
	}
	return s
}

// URI for the storage configuration.
func (s *Server) URI() string {
	if s.set {
		return "mongodb://" + s.nodes[0].addr + "," + s.nodes[1].addr + "/?replicaSet=rs" + s.Params
	}
	return "mongodb://" + s.nodes[0].addr + "/?directConnection=true"
}

// StepDown takes the primary away (or gives it back).
func (s *Server) StepDown(down bool) {
	s.mu.Lock()
	s.noPrimary = down
	s.mu.Unlock()
}

// StepDownLocked is StepDown(true) from within OnCommand.
func (s *Server) StepDownLocked() { s.noPrimary = true }

// Slow delays the handshakes of the primary.
func (s *Server) Slow(d time.Duration) {
	s.mu.Lock()
	s.slowPrimary = d
	s.mu.Unlock()
}

// Conns counts the open connections.
func (s *Server) Conns() int {
	c := 0
	for _, n := range s.nodes {
		n.mu.Lock()
		c += len(n.conns)
		n.mu.Unlock()
	}
	return c
}

// Close stops the server.
func (s *Server) Close() {
	for _, n := range s.nodes {
		n.ln.Close()
		n.mu.Lock()
		for c := range n.conns {
			c.Close()
		}
		n.mu.Unlock()
	}
}

// Clear drops all data.
func (s *Server) Clear() {
	s.mu.Lock()
	for _, n := range s.nodes {
		n.data = map[string]*coll{}
	}
	s.oid = 0
	s.hidden = nil
	s.cursors = map[int64][]bson.D{}
	s.mu.Unlock()
}

// Sync lets the secondary catch up completely.
func (s *Server) Sync() {
	s.mu.Lock()
	s.hidden = nil
	s.sync()
	s.mu.Unlock()
}

func docID(d bson.D) string {
	for _, e := range d {
		if e.Key == "_id" {
			return fmt.Sprint(e.Value)
		}
	}
	return ""
}

// sync replicates everything but the hidden documents.
func (s *Server) sync() {
	if len(s.nodes) > 1 {
		s.nodes[1].data = copyData(s.nodes[0].data)
		for _, c := range s.nodes[1].data {
			out := c.docs[:0]
			for _, d := range c.docs {
				if !s.hidden[docID(d)] {
					out = append(out, d)
				}
			}
			c.docs = out
		}
	}
}

// HideOnSecondary keeps the documents for which f says so from the secondary
// until the next Sync.
func (s *Server) HideOnSecondary(f func(ns string, doc bson.D) bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.hidden = map[string]bool{}
	for ns, c := range s.nodes[0].data {
		for _, d := range c.docs {
			if f(ns, d) {
				s.hidden[docID(d)] = true
			}
		}
	}
	s.sync()
}

func copyData(m map[string]*coll) map[string]*coll {
	r := map[string]*coll{}
	for k, c := range m {
		n := &coll{}
		for _, d := range c.docs {
			n.docs = append(n.docs, clone(d))
		}
		r[k] = n
	}
	return r
}

// Snapshot of everything.
type Snapshot struct {
	data []map[string]*coll
	oid  uint64
}

func (s *Server) Snapshot() Snapshot {
	s.mu.Lock()
	defer s.mu.Unlock()
	sn := Snapshot{oid: s.oid}
	for _, n := range s.nodes {
		sn.data = append(sn.data, copyData(n.data))
	}
	return sn
}

func (s *Server) Restore(sn Snapshot) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.oid = sn.oid
	for i, n := range s.nodes {
		n.data = copyData(sn.data[i])
	}
}

// Dump is a canonical text of the primary's state.
func (s *Server) Dump() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var b strings.Builder
	var ns []string
	for k := range s.nodes[0].data {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	for _, k := range ns {
		for _, d := range s.nodes[0].data[k].docs {
			raw, _ := bson.MarshalExtJSON(sortDoc(d), true, false)
			b.WriteString(k + " " + string(raw))
			if s.hidden[docID(d)] {
				b.WriteString(" not on the secondary")
			}
			b.WriteString("\n")
		}
	}
	return b.String()
}

func sortDoc(d bson.D) bson.D {
	r := make(bson.D, len(d))
	for i, e := range d {
		if x, ok := e.Value.(bson.D); ok {
			e.Value = sortDoc(x)
		}
		r[i] = e
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Key < r[j].Key })
	return r
}

// Docs returns the primary's documents of a collection, in insertion order.
func (s *Server) Docs(ns string) []bson.D {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := s.nodes[0].data[ns]
	if c == nil {
		return nil
	}
	r := make([]bson.D, len(c.docs))
	for i, d := range c.docs {
		r[i] = clone(d)
	}
	return r
}

func (n *node) serve() {
	for {
		c, err := n.ln.Accept()
		if err != nil {
			return
		}
		n.s.mu.Lock()
		n.s.Accepted++
		down := n.s.Down > 0
		if down {
			n.s.Down--
		}
		n.s.mu.Unlock()
		if down {
			c.Close()
			continue
		}
		n.mu.Lock()
		n.conns[c] = true
		n.mu.Unlock()
		go n.conn(c)
	}
}

func (n *node) conn(c net.Conn) {
	defer func() {
		c.Close()
		n.mu.Lock()
		delete(n.conns, c)
		n.mu.Unlock()
	}()
	for {
		var h [16]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return
		}
		l := int(binary.LittleEndian.Uint32(h[:]))
		id := binary.LittleEndian.Uint32(h[4:])
		op := binary.LittleEndian.Uint32(h[12:])
		body := make([]byte, l-16)
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		switch op {
		case 2004: // OP_QUERY
			i := 4
			for body[i] != 0 {
				i++
			}
			i += 1 + 8
			var cmd bson.D
			if err := bson.Unmarshal(body[i:], &cmd); err != nil {
				return
			}
			raw, _ := bson.Marshal(n.command("admin", cmd))
			out := make([]byte, 16+20, 36+len(raw))
			binary.LittleEndian.PutUint32(out[4:], 1)
			binary.LittleEndian.PutUint32(out[8:], id)
			binary.LittleEndian.PutUint32(out[12:], 1)
			binary.LittleEndian.PutUint32(out[16:], 8)
			binary.LittleEndian.PutUint32(out[32:], 1)
			out = append(out, raw...)
			binary.LittleEndian.PutUint32(out, uint32(len(out)))
			if _, err := c.Write(out); err != nil {
				return
			}
		case 2013: // OP_MSG
			flags := binary.LittleEndian.Uint32(body)
			p := body[4:]
			if flags&1 != 0 {
				p = p[:len(p)-4]
			}
			var cmd bson.D
			seqs := map[string]bson.A{}
			for len(p) > 0 {
				kind := p[0]
				sz := int(binary.LittleEndian.Uint32(p[1:]))
				sec := p[1 : 1+sz]
				p = p[1+sz:]
				if kind == 0 {
					if err := bson.Unmarshal(sec, &cmd); err != nil {
						return
					}
					continue
				}
				sec = sec[4:]
				i := 0
				for sec[i] != 0 {
					i++
				}
				name := string(sec[:i])
				sec = sec[i+1:]
				for len(sec) > 0 {
					k := int(binary.LittleEndian.Uint32(sec))
					var d bson.D
					if err := bson.Unmarshal(sec[:k], &d); err != nil {
						return
					}
					seqs[name] = append(seqs[name], d)
					sec = sec[k:]
				}
			}
			for k, v := range seqs {
				cmd = append(cmd, bson.E{Key: k, Value: v})
			}
			db, _ := get(cmd, "$db").(string)
			rep := n.command(db, cmd)
			raw, err := bson.Marshal(rep)
			if err != nil {
				raw, _ = bson.Marshal(fail(1, "marshal: "+err.Error()))
			}
			out := make([]byte, 21, 21+len(raw))
			binary.LittleEndian.PutUint32(out[4:], 1)
			binary.LittleEndian.PutUint32(out[8:], id)
			binary.LittleEndian.PutUint32(out[12:], 2013)
			out = append(out, raw...)
			binary.LittleEndian.PutUint32(out, uint32(len(out)))
			if flags&2 != 0 {
				continue
			}
			if _, err := c.Write(out); err != nil {
				return
			}
		default:
			return
		}
	}
}

func fail(code int32, msg string) bson.D {
	return bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: msg}, {Key: "code", Value: code}, {Key: "codeName", Value: "Fake"}}
}

func ok(e ...bson.E) bson.D { return append(bson.D(e), bson.E{Key: "ok", Value: 1.0}) }

func (n *node) command(db string, cmd bson.D) (rep bson.D) {
	if len(cmd) == 0 {
		return fail(1, "empty command")
	}
	name := cmd[0].Key
	s := n.s
	if s.Gate != nil {
		switch strings.ToLower(name) {
		case "find", "update", "insert", "delete", "findandmodify", "getmore", "aggregate", "distinct", "count", "drop":
			s.Gate(name)
		}
	}
	s.mu.Lock()
	if l := strings.ToLower(name); (l == "hello" || l == "ismaster") && !n.sec && s.slowPrimary > 0 {
		d := s.slowPrimary
		s.mu.Unlock()
		time.Sleep(d)
		s.mu.Lock()
	}
	defer s.mu.Unlock()
	defer func() {
		if p := recover(); p != nil {
			rep = fail(8000, fmt.Sprint("fake: ", p))
		}
	}()
	switch strings.ToLower(name) {
	case "hello", "ismaster":
		primary := !n.sec && !s.noPrimary
		d := bson.D{
			{Key: "ismaster", Value: primary}, {Key: "isWritablePrimary", Value: primary}, {Key: "helloOk", Value: true},
			{Key: "maxBsonObjectSize", Value: int32(16777216)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)},
			{Key: "maxWriteBatchSize", Value: int32(100000)}, {Key: "localTime", Value: bson.NewDateTimeFromTime(time.Now())},
			{Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(21)}, {Key: "readOnly", Value: false},
		}
		if s.set {
			hosts := bson.A{}
			for _, x := range s.nodes {
				hosts = append(hosts, x.addr)
			}
			d = append(d, bson.E{Key: "setName", Value: "rs"}, bson.E{Key: "setVersion", Value: int32(1)}, bson.E{Key: "secondary", Value: n.sec},
				bson.E{Key: "hosts", Value: hosts}, bson.E{Key: "me", Value: n.addr})
			if !s.noPrimary {
				d = append(d, bson.E{Key: "primary", Value: s.nodes[0].addr})
			}
		}
		return ok(d...)
	case "ping":
		if s.OnPing != nil && s.OnPing() != "" {
			return fail(8000, "injected failure")
		}
		return ok()
	case "endsessions", "killcursors":
		return ok()
	case "buildinfo":
		return ok(bson.E{Key: "version", Value: "7.0.0"})
	}
	if s.noPrimary && !n.sec {
		return fail(13436, "not primary or secondary")
	}
	s.Commands++
	cn, _ := cmd[0].Value.(string)
	ns := db + "." + cn
	if name == "getMore" {
		ns = db + "." + get(cmd, "collection").(string)
	}
	idx := 0
	if n.sec {
		idx = 1
	}
	if s.OnCommand != nil {
		s.OnCommand(name, ns, idx)
	}
	mode := ""
	if s.Fault != nil {
		mode = s.Fault(name)
	}
	if mode == "before" {
		return fail(8000, "injected failure")
	}
	write := name == "update" || name == "insert" || name == "delete" || name == "findAndModify"
	if write && n.sec {
		return fail(10107, "not primary")
	}
	rep = n.exec(name, ns, cmd)
	if write && s.AutoSync {
		s.sync()
	}
	if mode == "after" {
		return fail(8000, "injected failure")
	}
	return rep
}

func (n *node) c(ns string) *coll {
	c := n.data[ns]
	if c == nil {
		c = &coll{}
	}
	return c
}

func (n *node) wc(ns string) *coll {
	c := n.data[ns]
	if c == nil {
		c = &coll{}
		n.data[ns] = c
	}
	return c
}

func (s *Server) newID() bson.ObjectID {
	s.oid++
	var o bson.ObjectID
	binary.BigEndian.PutUint32(o[:], 0x64000000)
	binary.BigEndian.PutUint64(o[4:], s.oid)
	return o
}

func (n *node) find(ns string, cmd bson.D) []bson.D {
	filter, _ := get(cmd, "filter").(bson.D)
	filter = prepare(filter)
	var out []bson.D
	for _, d := range n.c(ns).docs {
		if match(d, filter) {
			out = append(out, d)
		}
	}
	if so, _ := get(cmd, "sort").(bson.D); len(so) > 0 {
		sort.SliceStable(out, func(i, j int) bool {
			for _, e := range so {
				c := compare(getPath(out[i], e.Key), getPath(out[j], e.Key))
				if c != 0 {
					if num(e.Value) < 0 {
						return c > 0
					}
					return c < 0
				}
			}
			return false
		})
	}
	if k := int(num(get(cmd, "skip"))); k > 0 {
		if k > len(out) {
			k = len(out)
		}
		out = out[k:]
	}
	if l := int(num(get(cmd, "limit"))); l != 0 {
		if l < 0 {
			l = -l
		}
		if l < len(out) {
			out = out[:l]
		}
	}
	proj, _ := get(cmd, "projection").(bson.D)
	res := make([]bson.D, len(out))
	for i, d := range out {
		res[i] = project(clone(d), proj)
	}
	return res
}

func arr(ds []bson.D) bson.A {
	a := bson.A{}
	for _, d := range ds {
		a = append(a, d)
	}
	return a
}

func (n *node) exec(name, ns string, cmd bson.D) bson.D {
	s := n.s
	switch name {
	case "find":
		docs := n.find(ns, cmd)
		bs := 101
		if v := get(cmd, "batchSize"); v != nil {
			bs = int(num(v))
		}
		single, _ := get(cmd, "singleBatch").(bool)
		var id int64
		first := docs
		if len(docs) > bs {
			first = docs[:bs]
			if !single {
				s.curID++
				id = s.curID
				s.cursors[id] = docs[bs:]
			}
		}
		return ok(bson.E{Key: "cursor", Value: bson.D{{Key: "firstBatch", Value: arr(first)}, {Key: "id", Value: id}, {Key: "ns", Value: ns}}})
	case "getMore":
		id := cmd[0].Value.(int64)
		rest, okc := s.cursors[id]
		if !okc {
			return fail(43, "cursor not found")
		}
		bs := len(rest)
		if v := get(cmd, "batchSize"); v != nil && int(num(v)) > 0 && int(num(v)) < bs {
			bs = int(num(v))
		}
		rid := id
		if bs == len(rest) {
			delete(s.cursors, id)
			rid = 0
		} else {
			s.cursors[id] = rest[bs:]
		}
		return ok(bson.E{Key: "cursor", Value: bson.D{{Key: "nextBatch", Value: arr(rest[:bs])}, {Key: "id", Value: rid}, {Key: "ns", Value: ns}}})
	case "count":
		q, _ := get(cmd, "query").(bson.D)
		return ok(bson.E{Key: "n", Value: int32(len(n.find(ns, bson.D{{Key: "filter", Value: q}})))})
	case "aggregate":
		docs := n.find(ns, bson.D{})
		pipe, _ := get(cmd, "pipeline").(bson.A)
		for _, st := range pipe {
			e := st.(bson.D)[0]
			switch e.Key {
			case "$match":
				var out []bson.D
				for _, d := range docs {
					if match(d, e.Value.(bson.D)) {
						out = append(out, d)
					}
				}
				docs = out
			case "$skip":
				k := int(num(e.Value))
				if k > len(docs) {
					k = len(docs)
				}
				docs = docs[k:]
			case "$limit":
				if k := int(num(e.Value)); k < len(docs) {
					docs = docs[:k]
				}
			case "$group":
				g := e.Value.(bson.D)
				idE := get(g, "_id")
				var order []any
				groups := map[string]*struct {
					id any
					n  []bson.D
				}{}
				for _, d := range docs {
					var idv any = idE
					if p, ok := idE.(string); ok && strings.HasPrefix(p, "$") {
						idv = getPath(d, p[1:])
					}
					k := fmt.Sprintf("%T%v", idv, idv)
					if groups[k] == nil {
						groups[k] = &struct {
							id any
							n  []bson.D
						}{id: idv}
						order = append(order, k)
					}
					groups[k].n = append(groups[k].n, d)
				}
				docs = nil
				for _, k := range order {
					gr := groups[k.(string)]
					o := bson.D{{Key: "_id", Value: gr.id}}
					for _, f := range g {
						if f.Key == "_id" {
							continue
						}
						acc := f.Value.(bson.D)[0]
						if acc.Key != "$sum" {
							panic("unsupported accumulator " + acc.Key)
						}
						o = append(o, bson.E{Key: f.Key, Value: int32(len(gr.n)) * int32(num(acc.Value))})
					}
					docs = append(docs, o)
				}
			default:
				panic("unsupported stage " + e.Key)
			}
		}
		return ok(bson.E{Key: "cursor", Value: bson.D{{Key: "firstBatch", Value: arr(docs)}, {Key: "id", Value: int64(0)}, {Key: "ns", Value: ns}}})
	case "distinct":
		key := get(cmd, "key").(string)
		q, _ := get(cmd, "query").(bson.D)
		var vals bson.A
		for _, d := range n.find(ns, bson.D{{Key: "filter", Value: q}}) {
			v := getPath(d, key)
			if v == missing {
				continue
			}
			dup := false
			for _, x := range vals {
				if compare(x, v) == 0 {
					dup = true
				}
			}
			if !dup {
				vals = append(vals, v)
			}
		}
		sort.SliceStable(vals, func(i, j int) bool { return compare(vals[i], vals[j]) < 0 })
		if vals == nil {
			vals = bson.A{}
		}
		return ok(bson.E{Key: "values", Value: vals})
	case "insert":
		c := n.wc(ns)
		docs, _ := get(cmd, "documents").(bson.A)
		for _, x := range docs {
			d := clone(x.(bson.D))
			if get(d, "_id") == nil {
				d = append(bson.D{{Key: "_id", Value: s.newID()}}, d...)
			}
			c.docs = append(c.docs, d)
		}
		return ok(bson.E{Key: "n", Value: int32(len(docs))})
	case "delete":
		c := n.wc(ns)
		dels, _ := get(cmd, "deletes").(bson.A)
		total := 0
		for _, x := range dels {
			d := x.(bson.D)
			q := prepare(get(d, "q").(bson.D))
			lim := int(num(get(d, "limit")))
			var out []bson.D
			k := 0
			for _, doc := range c.docs {
				if (lim == 0 || k < lim) && match(doc, q) {
					k++
					continue
				}
				out = append(out, doc)
			}
			c.docs = out
			total += k
		}
		return ok(bson.E{Key: "n", Value: int32(total)})
	case "update":
		c := n.wc(ns)
		ups, _ := get(cmd, "updates").(bson.A)
		matched, modified := 0, 0
		upserted := bson.A{}
		werr := bson.A{}
		ordered := true
		if v, ok := get(cmd, "ordered").(bool); ok {
			ordered = v
		}
		var index map[string]int
		if len(ups) > 8 {
			index = map[string]int{}
			for j := len(c.docs) - 1; j >= 0; j-- {
				if k, ok := identity(c.docs[j]); ok {
					index[k] = j
				}
			}
		}
		for i, x := range ups {
			d := x.(bson.D)
			q := get(d, "q").(bson.D)
			u, isDoc := get(d, "u").(bson.D)
			if !isDoc {
				panic("pipeline updates are not supported")
			}
			multi, _ := get(d, "multi").(bool)
			upsert, _ := get(d, "upsert").(bool)
			hit := false
			var bad string
			from, to := 0, len(c.docs)
			if k, ok := identity(q); ok && index != nil {
				// The first match of a single update, as a scan would find it.
				if j, ok := index[k]; !ok {
					to = 0
				} else if !multi {
					from = j
				}
			}
			for j := from; j < to; j++ {
				if !match(c.docs[j], q) {
					continue
				}
				nd, e := apply(clone(c.docs[j]), u, false)
				hit = true
				if e != "" {
					bad = e
					break
				}
				matched++
				if !equal(nd, c.docs[j]) {
					modified++
				}
				c.docs[j] = nd
				if !multi {
					break
				}
			}
			if !hit && upsert {
				nd := bson.D{}
				for _, e := range q {
					if _, isD := e.Value.(bson.D); !isD && !strings.HasPrefix(e.Key, "$") {
						nd = append(nd, e)
					}
				}
				nd, e := apply(nd, u, true)
				bad = e
				if e == "" {
					if get(nd, "_id") == nil {
						nd = append(bson.D{{Key: "_id", Value: s.newID()}}, nd...)
					}
					c.docs = append(c.docs, nd)
					if k, ok := identity(nd); ok && index != nil {
						index[k] = len(c.docs) - 1
					}
					upserted = append(upserted, bson.D{{Key: "index", Value: int32(i)}, {Key: "_id", Value: get(nd, "_id")}})
					matched++
				}
			}
			if bad != "" {
				werr = append(werr, bson.D{{Key: "index", Value: int32(i)}, {Key: "code", Value: int32(9)}, {Key: "errmsg", Value: bad}})
				if ordered {
					break
				}
			}
		}
		r := bson.D{{Key: "n", Value: int32(matched)}, {Key: "nModified", Value: int32(modified)}}
		if len(upserted) > 0 {
			r = append(r, bson.E{Key: "upserted", Value: upserted})
		}
		if len(werr) > 0 {
			r = append(r, bson.E{Key: "writeErrors", Value: werr})
		}
		return ok(r...)
	}
	return fail(59, "no such command: "+name)
}
