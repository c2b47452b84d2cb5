// Package redisfake is a Redis stand-in for model checking: a small, strict
// RESP2 server holding strings and sorted sets, with Lua scripting (executed by
// luavm), SCAN, and a cluster mode with several shards. Its state can be
// dumped, cleared, snapshotted and restored, every key access is reported, and
// faults can be injected per command.
package redisfake

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/takenet/deckard/internal/verifx/luavm"
)

type zset struct {
	m    map[string]float64
	list []string // sorted members, nil when dirty
}

func (z *zset) sorted() []string {
	if z.list == nil {
		z.list = make([]string, 0, len(z.m))
		for k := range z.m {
			z.list = append(z.list, k)
		}
		sort.Slice(z.list, func(i, j int) bool {
			a, b := z.list[i], z.list[j]
			if z.m[a] != z.m[b] {
				return z.m[a] < z.m[b]
			}
			return a < b
		})
	}
	return z.list
}

type entry struct {
	str *string
	z   *zset
}

// Reply kinds.
type (
	status  string
	errRep  string
	nilArr  struct{}
	closeIt struct{}
)

const wrongType = errRep("WRONGTYPE Operation against a key holding the wrong kind of value")

// Access is one key access made by a command.
type Access struct {
	Cmd   string
	Key   string
	Write bool
}

// Server is the shared keyspace (all shards).
type Server struct {
	mu      sync.Mutex
	data    map[string]*entry
	scripts map[string]*luavm.Chunk
	loaded  []map[string]bool // per node: scripts it knows
	src     map[string]string
	nodes   []*node
	cluster bool

	// OnAccess, when set, is called for every key access (with the lock held).
	OnAccess func(Access)
	// OnScan is called with the pattern of each SCAN or KEYS.
	OnScan func(pattern string)
	// Gate, when set, is called before each command with keys and each SCAN,
	// without the lock; it may block.
	Gate func(cmd string, keys []string)
	// Layout assigns slots to nodes (default: contiguous, equal shares).
	Layout func(slot int) int
	// Fault, when set, is asked before each data command; "before" fails it
	// without effect, "after" performs it and then reports an error,
	// "crossslot" reports a CROSSSLOT error; "drop-before" and "drop-after" close
	// the connection instead of answering.
	Fault func(cmd string, keys []string) string
	// Violations collects misuse: cross-slot scripts, undeclared keys.
	Violations []string
	Commands   int64
	// OnPing, when set, decides about each PING: "", "error" or "close".
	OnPing    func() string
	cursors   []string // the last key looked at, per SCAN cursor
	ScanCount int      // elements returned per SCAN call (0: the requested count)
}

// Slot of key, with hash tags.
func Slot(key string) int {
	if i := strings.IndexByte(key, '{'); i >= 0 {
		if j := strings.IndexByte(key[i+1:], '}'); j > 0 {
			key = key[i+1 : i+1+j]
		}
	}
	return int(crc16(key)) % 16384
}

func crc16(s string) uint16 {
	var crc uint16
	for i := 0; i < len(s); i++ {
		crc ^= uint16(s[i]) << 8
		for b := 0; b < 8; b++ {
			if crc&0x8000 != 0 {
				crc = crc<<1 ^ 0x1021
			} else {
				crc <<= 1
			}
		}
	}
	return crc
}

func (s *Server) nodeOf(key string) int {
	if !s.cluster {
		return 0
	}
	return s.ownerOf(Slot(key))
}

func (s *Server) ownerOf(slot int) int {
	if s.Layout != nil {
		return s.Layout(slot)
	}
	return slot * len(s.nodes) / 16384
}

// ForgetScripts empties every node's script cache (as a restart does).
func (s *Server) ForgetScripts() {
	s.mu.Lock()
	for i := range s.loaded {
		s.loaded[i] = map[string]bool{}
	}
	s.mu.Unlock()
}

// Clear removes all data (but keeps loaded scripts, as FLUSHALL does).
func (s *Server) Clear() {
	s.mu.Lock()
	s.data = map[string]*entry{}
	s.Violations = nil
	s.cursors = nil
	s.mu.Unlock()
}

// Snapshot deep-copies the data.
func (s *Server) Snapshot() map[string]*entry {
	s.mu.Lock()
	defer s.mu.Unlock()
	return cp(s.data)
}

func cp(d map[string]*entry) map[string]*entry {
	r := make(map[string]*entry, len(d))
	for k, e := range d {
		if e.str != nil {
			v := *e.str
			r[k] = &entry{str: &v}
			continue
		}
		m := make(map[string]float64, len(e.z.m))
		for a, b := range e.z.m {
			m[a] = b
		}
		r[k] = &entry{z: &zset{m: m}}
	}
	return r
}

// Restore replaces the data by a copy of the snapshot.
func (s *Server) Restore(d map[string]*entry) {
	s.mu.Lock()
	s.data = cp(d)
	s.mu.Unlock()
}

// Dump is a canonical text of the whole state.
func (s *Server) Dump() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	keys := make([]string, 0, len(s.data))
	for k := range s.data {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		e := s.data[k]
		if e.str != nil {
			fmt.Fprintf(&b, "%q=%q\n", k, *e.str)
			continue
		}
		fmt.Fprintf(&b, "%q=[", k)
		for _, m := range e.z.sorted() {
			fmt.Fprintf(&b, "%q:%s ", m, luavm.FormatNumber(e.z.m[m], 17))
		}
		b.WriteString("]\n")
	}
	return b.String()
}

// SetString plants a string key (a foreign application's key).
func (s *Server) SetString(k, v string) {
	s.mu.Lock()
	s.data[k] = &entry{str: &v}
	s.mu.Unlock()
}

// SetZ plants a sorted set.
func (s *Server) SetZ(k string, m map[string]float64) {
	s.mu.Lock()
	c := map[string]float64{}
	for a, b := range m {
		c[a] = b
	}
	s.data[k] = &entry{z: &zset{m: c}}
	s.mu.Unlock()
}

// Keys lists all keys, sorted.
func (s *Server) Keys() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := []string{}
	for k := range s.data {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (s *Server) access(c *call, key string, write bool) {
	if s.OnAccess != nil {
		s.OnAccess(Access{c.name, key, write})
	}
	if c.declared != nil && !c.declared[key] {
		if s.cluster {
			s.Violations = append(s.Violations, "script accesses undeclared key "+key)
		}
	}
	if s.cluster && s.nodeOf(key) != c.node {
		panic(luavm.Error{V: "ERR Script attempted to access a non local key in a cluster node"})
	}
}

// hangUp makes the server close the connection.
type hangUp struct{}

type call struct {
	name     string
	node     int
	declared map[string]bool // keys declared by the running script
	inScript bool
}

func fmtScore(f float64) string { return luavm.FormatNumber(f, 17) }

func parseScore(v string) (float64, bool) {
	switch strings.ToLower(v) {
	case "inf", "+inf", "infinity", "+infinity":
		return math.Inf(1), true
	case "-inf", "-infinity":
		return math.Inf(-1), true
	}
	f, err := strconv.ParseFloat(v, 64)
	if err != nil || math.IsNaN(f) {
		return 0, false
	}
	return f, true
}

func (s *Server) zget(c *call, key string, write, create bool) (*zset, any) {
	s.access(c, key, write)
	e := s.data[key]
	if e == nil {
		if !create {
			return nil, nil
		}
		e = &entry{z: &zset{m: map[string]float64{}}}
		s.data[key] = e
	}
	if e.z == nil {
		return nil, wrongType
	}
	return e.z, nil
}

func (s *Server) gc(key string) {
	if e := s.data[key]; e != nil && e.z != nil && len(e.z.m) == 0 {
		delete(s.data, key)
	}
}

func argErr(n string) any {
	return errRep("ERR wrong number of arguments for '" + strings.ToLower(n) + "' command")
}

// firstKeys returns the keys of a command for cluster routing.
func firstKeys(a []string) []string {
	if len(a) < 2 {
		return nil
	}
	switch strings.ToUpper(a[0]) {
	case "GET", "SET", "SETNX", "GETSET", "GETDEL", "INCR", "EXPIRE", "TYPE", "ZADD", "ZREM", "ZSCORE", "ZMSCORE", "ZCARD", "ZCOUNT",
		"ZRANGE", "ZREVRANGE", "ZRANGEBYSCORE", "ZREVRANGEBYSCORE", "ZRANK", "ZPOPMIN", "SETEX", "PSETEX", "INCRBY", "DECR", "DECRBY", "PEXPIRE", "ZINCRBY", "ZREMRANGEBYSCORE", "STRLEN", "TTL", "PTTL", "ZSCAN":
		return a[1:2]
	case "DEL", "UNLINK", "EXISTS", "MGET":
		return a[1:]
	case "EVAL", "EVALSHA", "EVAL_RO", "EVALSHA_RO":
		if len(a) >= 3 {
			n, err := strconv.Atoi(a[2])
			if err == nil && n >= 0 && 3+n <= len(a) {
				return a[3 : 3+n]
			}
		}
	}
	return nil
}

// DoAll executes the commands of a transaction as one step.
func (s *Server) DoAll(nodeIdx int, cmds [][]string) any {
	var all []string
	for _, a := range cmds {
		all = append(all, firstKeys(a)...)
	}
	if s.Gate != nil {
		s.Gate("EXEC", all)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Commands++
	if s.cluster && len(all) > 0 {
		for _, k := range all[1:] {
			if Slot(k) != Slot(all[0]) {
				s.Violations = append(s.Violations, fmt.Sprintf("CROSSSLOT EXEC %v", all))
				return errRep("EXECABORT Transaction discarded because of previous errors.")
			}
		}
		if n := s.nodeOf(all[0]); n != nodeIdx {
			return errRep(fmt.Sprintf("MOVED %d %s", Slot(all[0]), s.nodes[n].addr))
		}
	}
	mode := ""
	if s.Fault != nil {
		mode = s.Fault("EXEC", all)
	}
	switch mode {
	case "before":
		return errRep("ERR injected failure")
	case "drop-before":
		return hangUp{}
	}
	rs := []any{}
	for _, a := range cmds {
		rs = append(rs, s.exec(&call{name: strings.ToUpper(a[0]), node: nodeIdx}, a))
	}
	switch mode {
	case "after":
		return errRep("ERR injected failure")
	case "drop-after":
		return hangUp{}
	}
	return rs
}

// Do executes a command on a node under the lock.
func (s *Server) Do(nodeIdx int, a []string) any {
	keys := firstKeys(a)
	if s.Gate != nil && len(a) > 0 {
		if c := strings.ToUpper(a[0]); len(keys) > 0 || c == "SCAN" || c == "KEYS" || c == "FLUSHDB" || c == "FLUSHALL" {
			s.Gate(c, keys)
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Commands++
	if s.cluster && len(keys) > 0 {
		for _, k := range keys[1:] {
			if Slot(k) != Slot(keys[0]) {
				s.Violations = append(s.Violations, fmt.Sprintf("CROSSSLOT %s %v", a[0], keys))
				return errRep("CROSSSLOT Keys in request don't hash to the same slot")
			}
		}
		if n := s.nodeOf(keys[0]); n != nodeIdx {
			return errRep(fmt.Sprintf("MOVED %d %s", Slot(keys[0]), s.nodes[n].addr))
		}
	}
	mode := ""
	if s.Fault != nil {
		mode = s.Fault(strings.ToUpper(a[0]), keys)
	}
	switch mode {
	case "before":
		return errRep("ERR injected failure")
	case "drop-before":
		return hangUp{}
	}
	r := s.exec(&call{name: strings.ToUpper(a[0]), node: nodeIdx}, a)
	switch mode {
	case "after":
		return errRep("ERR injected failure")
	case "drop-after":
		return hangUp{}
	}
	return r
}

func (s *Server) exec(c *call, a []string) any {
	name := strings.ToUpper(a[0])
	n := len(a)
	need := func(k int) bool { return n >= k }
	switch name {
	case "PING":
		if s.OnPing != nil {
			switch s.OnPing() {
			case "error":
				return errRep("ERR injected failure")
			case "close":
				return hangUp{}
			}
		}
		if n > 1 {
			return a[1]
		}
		return status("PONG")
	case "ECHO":
		return a[1]
	case "AUTH", "SELECT", "READONLY", "READWRITE":
		return status("OK")
	case "CLIENT":
		if n > 1 && strings.ToUpper(a[1]) == "ID" {
			return int64(1)
		}
		if n > 1 && (strings.ToUpper(a[1]) == "SETINFO" || strings.ToUpper(a[1]) == "SETNAME") {
			return status("OK")
		}
		return errRep("ERR unknown subcommand")
	case "COMMAND":
		return []any{}
	case "INFO":
		return "redis_version:7.0.0\r\n"
	case "DBSIZE":
		return int64(len(s.data))
	case "GET":
		if n != 2 {
			return argErr(name)
		}
		s.access(c, a[1], false)
		e := s.data[a[1]]
		if e == nil {
			return nil
		}
		if e.str == nil {
			return wrongType
		}
		return *e.str
	case "SET", "SETNX":
		if !need(3) {
			return argErr(name)
		}
		s.access(c, a[1], true)
		nx, xx, get := name == "SETNX", false, false
		for i := 3; i < n; i++ {
			switch strings.ToUpper(a[i]) {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "GET":
				get = true
			case "EX", "PX", "EXAT", "PXAT":
				i++
			case "KEEPTTL":
			default:
				return errRep("ERR syntax error")
			}
		}
		old := s.data[a[1]]
		if nx && old != nil || xx && old == nil {
			if name == "SETNX" {
				return int64(0)
			}
			return nil
		}
		v := a[2]
		s.data[a[1]] = &entry{str: &v}
		if name == "SETNX" {
			return int64(1)
		}
		if get {
			if old == nil || old.str == nil {
				return nil
			}
			return *old.str
		}
		return status("OK")
	case "SETEX", "PSETEX":
		if n != 4 {
			return argErr(name)
		}
		return s.exec(c, []string{"SET", a[1], a[3]})
	case "GETSET":
		if n != 3 {
			return argErr(name)
		}
		return s.exec(c, []string{"SET", a[1], a[2], "GET"})
	case "GETDEL":
		if n != 2 {
			return argErr(name)
		}
		r := s.exec(c, []string{"GET", a[1]})
		if _, ok := r.(string); ok {
			s.exec(c, []string{"DEL", a[1]})
		}
		return r
	case "STRLEN":
		if n != 2 {
			return argErr(name)
		}
		r := s.exec(c, []string{"GET", a[1]})
		if v, ok := r.(string); ok {
			return int64(len(v))
		}
		if r == nil {
			return int64(0)
		}
		return r
	case "INCR", "INCRBY", "DECR", "DECRBY":
		if !need(2) {
			return argErr(name)
		}
		d := int64(1)
		if strings.HasSuffix(name, "BY") {
			if n != 3 {
				return argErr(name)
			}
			x, err := strconv.ParseInt(a[2], 10, 64)
			if err != nil {
				return errRep("ERR value is not an integer or out of range")
			}
			d = x
		}
		if name[0] == 'D' {
			d = -d
		}
		s.access(c, a[1], true)
		e := s.data[a[1]]
		v := int64(0)
		if e != nil {
			if e.str == nil {
				return wrongType
			}
			x, err := strconv.ParseInt(*e.str, 10, 64)
			if err != nil {
				return errRep("ERR value is not an integer or out of range")
			}
			v = x
		}
		v += d
		str := strconv.FormatInt(v, 10)
		s.data[a[1]] = &entry{str: &str}
		return v
	case "TTL", "PTTL":
		s.access(c, a[1], false)
		if s.data[a[1]] == nil {
			return int64(-2)
		}
		return int64(-1)
	case "EXPIRE", "PEXPIRE":
		s.access(c, a[1], true)
		if s.data[a[1]] == nil {
			return int64(0)
		}
		return int64(1)
	case "DEL", "UNLINK":
		if !need(2) {
			return argErr(name)
		}
		d := int64(0)
		for _, k := range a[1:] {
			s.access(c, k, true)
			if s.data[k] != nil {
				delete(s.data, k)
				d++
			}
		}
		return d
	case "EXISTS":
		d := int64(0)
		for _, k := range a[1:] {
			s.access(c, k, false)
			if s.data[k] != nil {
				d++
			}
		}
		return d
	case "TYPE":
		s.access(c, a[1], false)
		e := s.data[a[1]]
		switch {
		case e == nil:
			return status("none")
		case e.str != nil:
			return status("string")
		}
		return status("zset")
	case "FLUSHDB", "FLUSHALL":
		for k := range s.data {
			if !s.cluster || s.nodeOf(k) == c.node {
				if s.OnAccess != nil {
					s.OnAccess(Access{name, k, true})
				}
				delete(s.data, k)
			}
		}
		if s.OnAccess != nil {
			s.OnAccess(Access{name, "*", true})
		}
		return status("OK")
	case "MGET":
		r := []any{}
		for _, k := range a[1:] {
			s.access(c, k, false)
			if e := s.data[k]; e != nil && e.str != nil {
				r = append(r, *e.str)
			} else {
				r = append(r, nil)
			}
		}
		return r
	case "SCAN", "KEYS":
		pat, count, cursor := "*", 10, 0
		if name == "KEYS" {
			pat = a[1]
		} else {
			x, err := strconv.Atoi(a[1])
			if err != nil {
				return errRep("ERR invalid cursor")
			}
			cursor = x
			for i := 2; i+1 < n; i += 2 {
				switch strings.ToUpper(a[i]) {
				case "MATCH":
					pat = a[i+1]
				case "COUNT":
					count, _ = strconv.Atoi(a[i+1])
				case "TYPE":
				default:
					return errRep("ERR syntax error")
				}
			}
		}
		if s.OnScan != nil {
			s.OnScan(pat)
		}
		var keys []string
		for k := range s.data {
			if !s.cluster || s.nodeOf(k) == c.node {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		next := 0
		if name == "SCAN" {
			if s.ScanCount > 0 {
				count = s.ScanCount
			}
			if count < 1 {
				return errRep("ERR syntax error")
			}
			// A cursor stands for the last key looked at, so keys that are
			// there throughout are returned whatever else comes and goes.
			from := 0
			if cursor > 0 {
				if cursor > len(s.cursors) {
					return []any{"0", []any{}}
				}
				last := s.cursors[cursor-1]
				from = sort.Search(len(keys), func(i int) bool { return keys[i] > last })
			}
			end := from + count
			if end < len(keys) {
				last := keys[end-1]
				for next = 1; next <= len(s.cursors) && s.cursors[next-1] != last; next++ {
				}
				if next > len(s.cursors) {
					s.cursors = append(s.cursors, last)
				}
			} else {
				end = len(keys)
			}
			keys = keys[from:end]
		}
		out := []any{}
		for _, k := range keys {
			if Glob(pat, k) {
				out = append(out, k)
			}
		}
		if name == "KEYS" {
			return out
		}
		return []any{strconv.Itoa(next), out}
	case "ZADD":
		if !need(4) {
			return argErr(name)
		}
		i := 2
		nx, xx, gt, lt, ch, incr := false, false, false, false, false, false
	flags:
		for ; i < n; i++ {
			switch strings.ToUpper(a[i]) {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "GT":
				gt = true
			case "LT":
				lt = true
			case "CH":
				ch = true
			case "INCR":
				incr = true
			default:
				break flags
			}
		}
		if (n-i)%2 != 0 || n == i {
			return errRep("ERR syntax error")
		}
		scores := make([]float64, 0, (n-i)/2)
		for j := i; j < n; j += 2 {
			f, ok := parseScore(a[j])
			if !ok {
				return errRep("ERR value is not a valid float")
			}
			scores = append(scores, f)
		}
		z, e := s.zget(c, a[1], true, true)
		if e != nil {
			return e
		}
		added, changed := int64(0), int64(0)
		var last any
		for j := range scores {
			m := a[i+2*j+1]
			old, ok := z.m[m]
			f := scores[j]
			if nx && ok || xx && !ok {
				continue
			}
			if ok && (gt && f <= old || lt && f >= old) {
				continue
			}
			if incr {
				f += old
			}
			last = fmtScore(f)
			if !ok {
				added++
				changed++
			} else if old != f {
				changed++
			}
			z.m[m] = f
		}
		z.list = nil
		s.gc(a[1])
		if incr {
			return last
		}
		if ch {
			return changed
		}
		return added
	case "ZINCRBY":
		z, e := s.zget(c, a[1], true, true)
		if e != nil {
			return e
		}
		f, ok := parseScore(a[2])
		if !ok {
			return errRep("ERR value is not a valid float")
		}
		z.m[a[3]] += f
		z.list = nil
		return fmtScore(z.m[a[3]])
	case "ZREM":
		if !need(3) {
			return argErr(name)
		}
		z, e := s.zget(c, a[1], true, false)
		if e != nil {
			return e
		}
		if z == nil {
			return int64(0)
		}
		d := int64(0)
		for _, m := range a[2:] {
			if _, ok := z.m[m]; ok {
				delete(z.m, m)
				d++
			}
		}
		z.list = nil
		s.gc(a[1])
		return d
	case "ZSCORE":
		if n != 3 {
			return argErr(name)
		}
		z, e := s.zget(c, a[1], false, false)
		if e != nil {
			return e
		}
		if z == nil {
			return nil
		}
		if f, ok := z.m[a[2]]; ok {
			return fmtScore(f)
		}
		return nil
	case "ZMSCORE":
		z, e := s.zget(c, a[1], false, false)
		if e != nil {
			return e
		}
		r := []any{}
		for _, m := range a[2:] {
			if z != nil {
				if f, ok := z.m[m]; ok {
					r = append(r, fmtScore(f))
					continue
				}
			}
			r = append(r, nil)
		}
		return r
	case "ZRANK":
		z, e := s.zget(c, a[1], false, false)
		if e != nil {
			return e
		}
		if z != nil {
			for i, m := range z.sorted() {
				if m == a[2] {
					return int64(i)
				}
			}
		}
		return nil
	case "ZCARD":
		z, e := s.zget(c, a[1], false, false)
		if e != nil {
			return e
		}
		if z == nil {
			return int64(0)
		}
		return int64(len(z.m))
	case "ZCOUNT", "ZRANGEBYSCORE", "ZREVRANGEBYSCORE", "ZREMRANGEBYSCORE":
		if !need(4) {
			return argErr(name)
		}
		return s.byScore(c, name, a, name == "ZREVRANGEBYSCORE")
	case "ZPOPMIN":
		z, e := s.zget(c, a[1], true, false)
		if e != nil {
			return e
		}
		k := 1
		if n > 2 {
			k, _ = strconv.Atoi(a[2])
		}
		r := []any{}
		if z != nil {
			ms := append([]string{}, z.sorted()...)
			for i := 0; i < k && i < len(ms); i++ {
				r = append(r, ms[i], fmtScore(z.m[ms[i]]))
				delete(z.m, ms[i])
			}
			z.list = nil
			s.gc(a[1])
		}
		return r
	case "ZRANGE", "ZREVRANGE":
		if !need(4) {
			return argErr(name)
		}
		rev, byscore, with := name == "ZREVRANGE", false, false
		for i := 4; i < n; i++ {
			switch strings.ToUpper(a[i]) {
			case "REV":
				rev = true
			case "BYSCORE":
				byscore = true
			case "WITHSCORES":
				with = true
			case "LIMIT":
				i += 2
			default:
				return errRep("ERR syntax error")
			}
		}
		if byscore {
			b := append([]string{}, a[:4]...)
			for i := 4; i < n; i++ {
				u := strings.ToUpper(a[i])
				if u != "REV" && u != "BYSCORE" {
					b = append(b, a[i])
				}
			}
			return s.byScore(c, "ZRANGEBYSCORE", b, rev)
		}
		st, e1 := strconv.Atoi(a[2])
		en, e2 := strconv.Atoi(a[3])
		if e1 != nil || e2 != nil {
			return errRep("ERR value is not an integer or out of range")
		}
		z, e := s.zget(c, a[1], false, false)
		if e != nil {
			return e
		}
		if z == nil {
			return []any{}
		}
		ms := z.sorted()
		L := len(ms)
		if st < 0 {
			st += L
		}
		if en < 0 {
			en += L
		}
		if st < 0 {
			st = 0
		}
		if en >= L {
			en = L - 1
		}
		r := []any{}
		for i := st; i <= en; i++ {
			m := ms[i]
			if rev {
				m = ms[L-1-i]
			}
			r = append(r, m)
			if with {
				r = append(r, fmtScore(z.m[m]))
			}
		}
		return r
	case "SCRIPT":
		if c.inScript {
			return errRep("ERR This Redis command is not allowed from script")
		}
		switch strings.ToUpper(a[1]) {
		case "LOAD":
			sha := sha(a[2])
			if _, e := s.compile(a[2]); e != nil {
				return errRep("ERR Error compiling script: " + e.Error())
			}
			s.loaded[c.node][sha] = true
			return sha
		case "EXISTS":
			r := []any{}
			for _, x := range a[2:] {
				if s.loaded[c.node][strings.ToLower(x)] {
					r = append(r, int64(1))
				} else {
					r = append(r, int64(0))
				}
			}
			return r
		case "FLUSH":
			s.loaded[c.node] = map[string]bool{}
			return status("OK")
		}
		return errRep("ERR unknown subcommand")
	case "EVAL", "EVALSHA", "EVAL_RO", "EVALSHA_RO":
		if c.inScript {
			return errRep("ERR This Redis command is not allowed from script")
		}
		return s.eval(c, a)
	case "CLUSTER":
		if !s.cluster {
			return errRep("ERR This instance has cluster support disabled")
		}
		switch strings.ToUpper(a[1]) {
		case "SLOTS":
			r := []any{}
			for lo, hi := 0, 0; lo < 16384; lo = hi {
				o := s.ownerOf(lo)
				for hi = lo + 1; hi < 16384 && s.ownerOf(hi) == o; hi++ {
				}
				nd := s.nodes[o]
				r = append(r, []any{int64(lo), int64(hi - 1), []any{nd.host, int64(nd.port), nd.id}})
			}
			return r
		case "KEYSLOT":
			return int64(Slot(a[2]))
		case "INFO":
			return "cluster_state:ok\r\n"
		}
		return errRep("ERR unknown subcommand")
	}
	return errRep("ERR unknown command '" + a[0] + "'")
}

func (s *Server) byScore(c *call, name string, a []string, rev bool) any {
	parse := func(v string) (float64, bool, bool) {
		ex := false
		if strings.HasPrefix(v, "(") {
			ex = true
			v = v[1:]
		}
		f, ok := parseScore(v)
		return f, ex, ok
	}
	lo, hi := a[2], a[3]
	if rev {
		lo, hi = hi, lo
	}
	min, minEx, ok1 := parse(lo)
	max, maxEx, ok2 := parse(hi)
	if !ok1 || !ok2 {
		return errRep("ERR min or max is not a float")
	}
	off, cnt, with := 0, -1, false
	for i := 4; i < len(a); i++ {
		switch strings.ToUpper(a[i]) {
		case "WITHSCORES":
			with = true
		case "LIMIT":
			if i+2 >= len(a) {
				return errRep("ERR syntax error")
			}
			o, e1 := strconv.Atoi(a[i+1])
			k, e2 := strconv.Atoi(a[i+2])
			if e1 != nil || e2 != nil {
				return errRep("ERR value is not an integer or out of range")
			}
			off, cnt = o, k
			i += 2
		default:
			return errRep("ERR syntax error")
		}
	}
	z, e := s.zget(c, a[1], name == "ZREMRANGEBYSCORE", false)
	if e != nil {
		return e
	}
	var sel []string
	if z != nil {
		ms := z.sorted()
		for i := range ms {
			m := ms[i]
			if rev {
				m = ms[len(ms)-1-i]
			}
			f := z.m[m]
			if f < min || f > max || minEx && f == min || maxEx && f == max {
				continue
			}
			sel = append(sel, m)
		}
	}
	switch name {
	case "ZCOUNT":
		return int64(len(sel))
	case "ZREMRANGEBYSCORE":
		for _, m := range sel {
			delete(z.m, m)
		}
		if z != nil {
			z.list = nil
			s.gc(a[1])
		}
		return int64(len(sel))
	}
	if off < 0 || off > len(sel) {
		off = len(sel)
	}
	sel = sel[off:]
	if cnt >= 0 && cnt < len(sel) {
		sel = sel[:cnt]
	}
	r := []any{}
	for _, m := range sel {
		r = append(r, m)
		if with {
			r = append(r, fmtScore(z.m[m]))
		}
	}
	return r
}

func sha(src string) string {
	h := sha1.Sum([]byte(src))
	return hex.EncodeToString(h[:])
}

func (s *Server) compile(src string) (*luavm.Chunk, error) {
	h := sha(src)
	if c := s.scripts[h]; c != nil {
		return c, nil
	}
	c, err := luavm.Compile(src)
	if err != nil {
		return nil, err
	}
	s.scripts[h] = c
	return c, nil
}

func (s *Server) eval(c *call, a []string) (rep any) {
	if len(a) < 3 {
		return argErr(a[0])
	}
	var ch *luavm.Chunk
	if strings.HasPrefix(strings.ToUpper(a[0]), "EVALSHA") {
		ch = s.scripts[strings.ToLower(a[1])]
		if ch == nil || !s.loaded[c.node][strings.ToLower(a[1])] {
			return errRep("NOSCRIPT No matching script. Please use EVAL.")
		}
	} else {
		x, err := s.compile(a[1])
		if err != nil {
			return errRep("ERR Error compiling script (new function): " + err.Error())
		}
		ch = x
		s.loaded[c.node][sha(a[1])] = true
	}
	nk, err := strconv.Atoi(a[2])
	if err != nil || nk < 0 || 3+nk > len(a) {
		return errRep("ERR Number of keys can't be greater than number of args")
	}
	vm := luavm.New()
	vm.ProtectGlobals = true
	keys, argv := luavm.NewTable(), luavm.NewTable()
	sc := &call{name: c.name, node: c.node, inScript: true, declared: map[string]bool{}}
	for _, k := range a[3 : 3+nk] {
		keys.Append(k)
		sc.declared[k] = true
	}
	for _, v := range a[3+nk:] {
		argv.Append(v)
	}
	vm.Globals["KEYS"], vm.Globals["ARGV"] = keys, argv
	rt := luavm.NewTable()
	mk := func(protected bool) *luavm.Func {
		return luavm.HostFunc(func(_ *luavm.VM, args []luavm.Value) []luavm.Value {
			if len(args) == 0 {
				panic(luavm.Error{V: "Please specify at least one argument for this redis.call() call"})
			}
			as := make([]string, len(args))
			for i, v := range args {
				switch x := v.(type) {
				case string:
					as[i] = x
				case float64:
					as[i] = luavm.FormatNumber(x, 17)
				default:
					panic(luavm.Error{V: "Lua redis lib command arguments must be strings or integers"})
				}
			}
			r := s.exec(sc, as)
			if e, ok := r.(errRep); ok {
				if !protected {
					panic(luavm.Error{V: string(e)})
				}
				t := luavm.NewTable()
				t.Set("err", string(e))
				return []luavm.Value{t}
			}
			return []luavm.Value{toLua(r)}
		})
	}
	rt.Set("call", mk(false))
	rt.Set("pcall", mk(true))
	rt.Set("log", luavm.HostFunc(func(_ *luavm.VM, _ []luavm.Value) []luavm.Value { return nil }))
	rt.Set("sha1hex", luavm.HostFunc(func(_ *luavm.VM, x []luavm.Value) []luavm.Value { return []luavm.Value{sha(luavm.ToString(x[0]))} }))
	rt.Set("status_reply", luavm.HostFunc(func(_ *luavm.VM, x []luavm.Value) []luavm.Value {
		t := luavm.NewTable()
		t.Set("ok", x[0])
		return []luavm.Value{t}
	}))
	rt.Set("error_reply", luavm.HostFunc(func(_ *luavm.VM, x []luavm.Value) []luavm.Value {
		t := luavm.NewTable()
		t.Set("err", x[0])
		return []luavm.Value{t}
	}))
	rt.Set("LOG_WARNING", float64(3))
	rt.Set("LOG_NOTICE", float64(2))
	vm.Globals["redis"] = rt
	res, e := vm.Run(ch)
	if e != nil {
		if le, ok := e.(luavm.Error); ok {
			if t, ok := le.V.(*luavm.Table); ok {
				if m := t.Get("err"); m != nil {
					return errRep(luavm.ToString(m))
				}
			}
			msg := luavm.ToString(le.V)
			if !strings.HasPrefix(msg, "ERR ") && !strings.HasPrefix(msg, "WRONGTYPE") {
				msg = "ERR Error running script: " + msg
			}
			return errRep(msg)
		}
		return errRep("ERR Error running script: " + e.Error())
	}
	if len(res) == 0 {
		return nil
	}
	return fromLua(res[0])
}

func toLua(r any) luavm.Value {
	switch x := r.(type) {
	case nil:
		return false
	case string:
		return x
	case int64:
		return float64(x)
	case status:
		t := luavm.NewTable()
		t.Set("ok", string(x))
		return t
	case []any:
		t := luavm.NewTable()
		for i, v := range x {
			t.Set(float64(i+1), toLua(v))
		}
		return t
	}
	return nil
}

func fromLua(v luavm.Value) any {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		if x {
			return int64(1)
		}
		return nil
	case float64:
		return int64(x)
	case string:
		return x
	case *luavm.Table:
		if e := x.Get("err"); e != nil {
			return errRep(luavm.ToString(e))
		}
		if o := x.Get("ok"); o != nil {
			return status(luavm.ToString(o))
		}
		r := []any{}
		for i := 1; ; i++ {
			e := x.Get(float64(i))
			if e == nil {
				break
			}
			r = append(r, fromLua(e))
		}
		return r
	}
	return nil
}

// Glob is Redis's stringmatchlen.
func Glob(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if Glob(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			s = s[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			match := false
			for {
				if len(p) >= 2 && p[0] == '\\' {
					p = p[1:]
					if p[0] == s[0] {
						match = true
					}
				} else if len(p) == 0 {
					break
				} else if p[0] == ']' {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					p = p[2:]
					if s[0] >= lo && s[0] <= hi {
						match = true
					}
				} else if p[0] == s[0] {
					match = true
				}
				p = p[1:]
			}
			if not {
				match = !match
			}
			if !match {
				return false
			}
			s = s[1:]
			if len(p) == 0 {
				return len(s) == 0
			}
		case '\\':
			if len(p) >= 2 {
				p = p[1:]
			}
			fallthrough
		default:
			if len(s) == 0 || s[0] != p[0] {
				return false
			}
			s = s[1:]
		}
		p = p[1:]
		if len(s) == 0 {
			for len(p) > 0 && p[0] == '*' {
				p = p[1:]
			}
			break
		}
	}
	return len(p) == 0 && len(s) == 0
}
