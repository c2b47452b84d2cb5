package redisfake

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"

	"github.com/takenet/deckard/internal/verifx/luavm"
)

type node struct {
	addr, host, id string
	port           int
	ln             net.Listener
	idx            int
	mu             sync.Mutex
	conns          map[net.Conn]bool
}

// Port, when set, is the port of the first node (further nodes use the next ones).
var Port int

func at(i int) string {
	if Port == 0 {
		return "127.0.0.1:0"
	}
	return fmt.Sprintf("127.0.0.1:%d", Port+i)
}

// New starts a stand-alone server (shards 0) or a cluster.
func New(shards int) *Server {
	s := &Server{data: map[string]*entry{}, scripts: map[string]*luavm.Chunk{}, cluster: shards > 0}
	if shards == 0 {
		shards = 1
	}
	for i := 0; i < shards; i++ {
		s.listen(i, at(i))
	}
	return s
}

func (s *Server) listen(i int, at string) {
	ln, err := net.Listen("tcp", at)
	if err != nil {
		panic(err)
	}
	a := ln.Addr().(*net.TCPAddr)
	n := &node{addr: a.String(), host: "127.0.0.1", port: a.Port, ln: ln, idx: i, id: fmt.Sprintf("%040d", i+1), conns: map[net.Conn]bool{}}
	s.nodes = append(s.nodes, n)
	s.loaded = append(s.loaded, map[string]bool{})
	go s.serve(n)
}

// Addr of a node.
func (s *Server) Addr(i int) string { return s.nodes[i].addr }

// Nodes counts the nodes.
func (s *Server) Nodes() int { return len(s.nodes) }

// URI for the cache configuration.
func (s *Server) URI() string {
	u := "redis://" + s.nodes[0].addr
	sep := "?"
	for _, n := range s.nodes[1:] {
		u += sep + "addr=" + n.addr
		sep = "&"
	}
	return u
}

// Conns counts the open connections.
func (s *Server) Conns() int {
	c := 0
	for _, n := range s.nodes {
		n.mu.Lock()
		c += len(n.conns)
		n.mu.Unlock()
	}
	return c
}

// Close stops listening and drops connections.
func (s *Server) Close() {
	for _, n := range s.nodes {
		n.ln.Close()
		n.mu.Lock()
		for c := range n.conns {
			c.Close()
		}
		n.mu.Unlock()
	}
}

func (s *Server) serve(n *node) {
	for {
		c, err := n.ln.Accept()
		if err != nil {
			return
		}
		n.mu.Lock()
		n.conns[c] = true
		n.mu.Unlock()
		go s.conn(n, c)
	}
}

func (s *Server) conn(n *node, c net.Conn) {
	defer func() {
		c.Close()
		n.mu.Lock()
		delete(n.conns, c)
		n.mu.Unlock()
	}()
	r, w := bufio.NewReaderSize(c, 1<<16), bufio.NewWriterSize(c, 1<<16)
	multi := false
	var queued [][]string
	for {
		a, err := readCmd(r)
		if err != nil {
			return
		}
		if len(a) == 0 {
			continue
		}
		if strings.EqualFold(a[0], "QUIT") {
			return
		}
		var rep any
		switch up := strings.ToUpper(a[0]); {
		case up == "MULTI":
			queued, multi = nil, true
			rep = status("OK")
		case up == "DISCARD" && multi:
			multi = false
			rep = status("OK")
		case up == "EXEC" && multi:
			multi = false
			rep = s.safe(func() any { return s.DoAll(n.idx, queued) })
		case multi:
			queued = append(queued, a)
			rep = status("QUEUED")
		default:
			rep = s.safe(func() any { return s.Do(n.idx, a) })
		}
		if _, ok := rep.(hangUp); ok {
			return
		}
		write(w, rep)
		if r.Buffered() == 0 {
			if w.Flush() != nil {
				return
			}
		}
	}
}

func (s *Server) safe(f func() any) (r any) {
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(luavm.Error); ok {
				r = errRep(luavm.ToString(e.V))
				return
			}
			r = errRep(fmt.Sprintf("ERR internal: %v", p))
		}
	}()
	return f()
}

func line(r *bufio.Reader) (string, error) {
	l, err := r.ReadString('\n')
	if err != nil {
		return "", err
	}
	return strings.TrimRight(l, "\r\n"), nil
}

func readCmd(r *bufio.Reader) ([]string, error) {
	l, err := line(r)
	if err != nil {
		return nil, err
	}
	if l == "" {
		return nil, nil
	}
	if l[0] != '*' {
		return strings.Fields(l), nil
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil {
		return nil, err
	}
	out := make([]string, 0, n)
	for i := 0; i < n; i++ {
		h, err := line(r)
		if err != nil {
			return nil, err
		}
		if h == "" || h[0] != '$' {
			return nil, fmt.Errorf("protocol error")
		}
		k, err := strconv.Atoi(h[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	return out, nil
}

func write(w *bufio.Writer, v any) {
	switch x := v.(type) {
	case nil:
		w.WriteString("$-1\r\n")
	case string:
		fmt.Fprintf(w, "$%d\r\n%s\r\n", len(x), x)
	case status:
		fmt.Fprintf(w, "+%s\r\n", string(x))
	case errRep:
		fmt.Fprintf(w, "-%s\r\n", strings.ReplaceAll(string(x), "\n", " "))
	case int64:
		fmt.Fprintf(w, ":%d\r\n", x)
	case []any:
		fmt.Fprintf(w, "*%d\r\n", len(x))
		for _, e := range x {
			write(w, e)
		}
	default:
		fmt.Fprintf(w, "-ERR unsupported reply %T\r\n", v)
	}
}
