// Package esfake stands in for Elasticsearch: an http.RoundTripper that answers
// pings and bulk requests inside the process and keeps what was indexed.
package esfake

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"

	"github.com/takenet/deckard/internal/audit"
)

// Server is the stand-in.
type Server struct {
	mu       sync.Mutex
	Batches  [][]audit.Entry // indexed
	Bad      []string        // malformed requests
	Requests int
	// Before, when set, runs when a bulk request has arrived; an error fails it.
	Before func(entries []audit.Entry) error
	// After runs before a bulk request is answered.
	After  func()
	Status int
}

// Install makes the default HTTP transport answer from s.
func (s *Server) Install() { http.DefaultTransport = s }

// RoundTrip implements http.RoundTripper.
func (s *Server) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	s.mu.Lock()
	s.Requests++
	st := 200
	if s.Status != 0 {
		st = s.Status
	}
	s.mu.Unlock()
	rep := &http.Response{StatusCode: st, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"X-Elastic-Product": {"Elasticsearch"}, "Content-Type": {"application/json"}}, Request: r}
	text := `{"version":{"number":"7.17.0","build_flavor":"default"},"tagline":"You Know, for Search"}`
	if strings.HasSuffix(r.URL.Path, "/_bulk") {
		batch := s.parse(body)
		if s.Before != nil {
			if err := s.Before(batch); err != nil {
				return nil, err
			}
		}
		if st < 300 {
			s.mu.Lock()
			s.Batches = append(s.Batches, batch)
			s.mu.Unlock()
		}
		text = `{"took":1,"errors":false,"items":[]}`
		if s.After != nil {
			s.After()
		}
	}
	rep.Body = io.NopCloser(strings.NewReader(text))
	return rep, nil
}

func (s *Server) parse(body []byte) []audit.Entry {
	s.mu.Lock()
	defer s.mu.Unlock()
	bad := func(f string, a ...any) { s.Bad = append(s.Bad, fmt.Sprintf(f, a...)) }
	if len(body) == 0 || body[len(body)-1] != '\n' {
		bad("the bulk request does not end with a newline")
	}
	lines := strings.Split(strings.TrimSuffix(string(body), "\n"), "\n")
	var batch []audit.Entry
	for i := 0; i < len(lines); i++ {
		if lines[i] == "" {
			continue // as Elasticsearch does
		}
		var act map[string]map[string]any
		if err := json.Unmarshal([]byte(lines[i]), &act); err != nil || act["index"] == nil {
			bad("line %d is no index action: %q", i, lines[i])
			continue
		}
		if i++; i == len(lines) {
			bad("the last action has no entry")
			break
		}
		var e audit.Entry
		if err := json.Unmarshal([]byte(lines[i]), &e); err != nil {
			bad("line %d is no entry: %q", i, lines[i])
			continue
		}
		batch = append(batch, e)
	}
	return batch
}

// Take returns and forgets the batches.
func (s *Server) Take() [][]audit.Entry {
	s.mu.Lock()
	defer s.mu.Unlock()
	b := s.Batches
	s.Batches = nil
	return b
}
