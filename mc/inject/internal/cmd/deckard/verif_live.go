package main

// Decides C22's part about calls: the real program with its real gRPC server,
// stopped by a real signal while a call is inside any of its engine operations.

import (
	"context"
	"fmt"
	"net"
	"os"
	"os/signal"
	"sync"
	"syscall"
	"time"

	deckard "github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vhook"
	"github.com/takenet/deckard/internal/verifx/vx"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

type call struct {
	name string
	f    func(ctx context.Context, c deckard.DeckardClient) error
}

var calls = []call{
	{"Add", func(ctx context.Context, c deckard.DeckardClient) error {
		_, err := c.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "n", Queue: "q", Timeless: true}}})
		return err
	}},
	{"Pull", func(ctx context.Context, c deckard.DeckardClient) error {
		r, err := c.Pull(ctx, &deckard.PullRequest{Queue: "p", Amount: 1})
		if err == nil && len(r.Messages) != 1 {
			err = fmt.Errorf("%d messages", len(r.Messages))
		}
		return err
	}},
	{"Ack", func(ctx context.Context, c deckard.DeckardClient) error {
		_, err := c.Ack(ctx, &deckard.AckRequest{Id: "a", Queue: "q"})
		return err
	}},
	{"Ack removing", func(ctx context.Context, c deckard.DeckardClient) error {
		_, err := c.Ack(ctx, &deckard.AckRequest{Id: "a", Queue: "q", RemoveMessage: true})
		return err
	}},
	{"Nack", func(ctx context.Context, c deckard.DeckardClient) error {
		_, err := c.Nack(ctx, &deckard.AckRequest{Id: "a", Queue: "q"})
		return err
	}},
	{"Count", func(ctx context.Context, c deckard.DeckardClient) error {
		_, err := c.Count(ctx, &deckard.CountRequest{Queue: "q"})
		return err
	}},
	{"Remove", func(ctx context.Context, c deckard.DeckardClient) error {
		_, err := c.Remove(ctx, &deckard.RemoveRequest{Queue: "q", Ids: []string{"a", "b"}})
		return err
	}},
	{"GetById", func(ctx context.Context, c deckard.DeckardClient) error {
		r, err := c.GetById(ctx, &deckard.GetByIdRequest{Queue: "p", Id: "p"})
		if err == nil && !r.Found {
			err = fmt.Errorf("not found")
		}
		return err
	}},
	{"EditQueue", func(ctx context.Context, c deckard.DeckardClient) error {
		_, err := c.EditQueue(ctx, &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: 9}})
		return err
	}},
	{"GetQueue", func(ctx context.Context, c deckard.DeckardClient) error {
		_, err := c.GetQueue(ctx, &deckard.GetQueueRequest{Queue: "z"})
		return err
	}},
	{"Flush", func(ctx context.Context, c deckard.DeckardClient) error {
		_, err := c.Flush(ctx, &deckard.FlushRequest{})
		return err
	}},
}

// soon polls until f holds.
func soon(f func() bool) bool {
	for end := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

func freePort() int {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func dial(port int) (deckard.DeckardClient, *grpc.ClientConn) {
	cc, err := grpc.NewClient(fmt.Sprintf("127.0.0.1:%d", port), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return deckard.NewDeckardClient(cc), cc
}

// liveRun stops the program while the call is about to perform its k-th
// operation (after it has, if after). It returns the operation, "" if the call has fewer.
func liveRun(t *vx.T, c call, sig syscall.Signal, k int, after bool) string {
	for len(shutdown.CancelChan) > 0 {
		<-shutdown.CancelChan
	}
	shutdown.Reset()
	server = nil
	due()
	vhook.FillStore = fillStore
	vhook.FillCache = fillCache(true)
	var mu sync.Mutex
	n, armed, op, closed := 0, false, "", false
	blocked, release := make(chan bool), make(chan bool)
	vhook.Hook = func(aft bool, x sut.Call) error {
		if aft != after {
			return nil
		}
		mu.Lock()
		if !armed {
			mu.Unlock()
			return nil
		}
		n++
		hit := n == k
		if hit {
			armed, op = false, x.Op
		}
		mu.Unlock()
		if hit {
			close(blocked)
			<-release
		}
		return nil
	}
	vhook.OnClose = func(string) { mu.Lock(); closed = true; mu.Unlock() }
	port := freePort()
	config.GrpcEnabled.Set(true)
	config.GrpcPort.Set(port)
	defer config.GrpcEnabled.Set(false)
	ended := make(chan any, 1)
	go func() {
		defer func() { ended <- recover() }()
		main()
	}()
	bg := context.Background()
	client, cc := dial(port)
	defer cc.Close()
	idle, icc := dial(port)
	defer icc.Close()
	up := func(d deckard.DeckardClient, limit time.Duration) error {
		ctx, stop := context.WithTimeout(bg, limit)
		defer stop()
		_, err := d.Count(ctx, &deckard.CountRequest{Queue: "q"})
		return err
	}
	for _, d := range []deckard.DeckardClient{client, idle} {
		if !soon(func() bool { return up(d, time.Second) == nil }) {
			t.Fail("no server", "the server does not answer", nil)
			return ""
		}
	}
	if _, err := client.Add(bg, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "p", Queue: "p", Timeless: true}}}); err != nil {
		t.Fail("no server", "adding a message fails: "+err.Error(), nil)
		return ""
	}
	mu.Lock()
	armed = true
	mu.Unlock()
	res := make(chan error, 1)
	go func() { res <- c.f(bg, client) }()
	select {
	case <-blocked:
	case err := <-res:
		// The call has fewer operations; stop the program all the same.
		mu.Lock()
		armed = false
		mu.Unlock()
		res <- err
	}
	moment := "after"
	if !after {
		moment = "before"
	}
	what := fmt.Sprintf("%s, %s %s", c.name, moment, op)
	if op == "" {
		what = c.name + ", answered"
	}
	fail := func(sig, f string, a ...any) {
		t.Fail(sig+": "+what, fmt.Sprintf(f, a...), nil)
	}
	t.Traces++
	t.States++
	t.Step(what)
	fallback := make(chan os.Signal, 100)
	signal.Notify(fallback, sig)
	defer signal.Stop(fallback)
	if !soon(func() bool {
		syscall.Kill(os.Getpid(), sig)
		<-fallback
		for i := 0; i < 50 && !shutdown.Ongoing(); i++ {
			time.Sleep(time.Millisecond)
		}
		return shutdown.Ongoing()
	}) {
		fail("no shutdown", "signal %v does not start the shutdown", sig)
		shutdown.CancelChan <- os.Interrupt
	}
	if op != "" {
		fresh, fcc := dial(port)
		for i, d := range []deckard.DeckardClient{client, idle, fresh} {
			if !soon(func() bool { return up(d, 300*time.Millisecond) != nil }) {
				fail("accepting", "a new call on connection %d is still answered during the shutdown", i)
			}
		}
		fcc.Close()
		for i := 0; i < 10; i++ {
			mu.Lock()
			cl := closed
			mu.Unlock()
			switch {
			case shutdown.HasFinished():
				fail("early finish", "the shutdown is announced as finished while a call is running")
			case ctx.Err() != nil:
				fail("early cancel", "the shared context is cancelled while a call is running")
			case cl:
				fail("early close", "an engine is closed while a call is running")
			}
			time.Sleep(time.Millisecond)
		}
		close(release)
	}
	select {
	case err := <-res:
		if err != nil {
			fail("lost call", "the call running at shutdown fails: %v", err)
		}
	case <-time.After(20 * time.Second):
		fail("lost call", "the call running at shutdown is never answered")
	}
	select {
	case p := <-ended:
		if p != nil {
			fail("panic", "the program panics: %v", p)
		} else if !shutdown.HasFinished() {
			fail("not announced", "the end of the shutdown is not announced")
		}
	case <-time.After(20 * time.Second):
		fail("stuck", "the shutdown does not end after the running call was answered")
	}
	t.Trans += int64(n)
	t.Sample(what)
	return op
}

var signals = []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}

func liveJob(c call, after bool) func(t *vx.T) {
	return func(t *vx.T) {
		for k := 1; ; k++ {
			op := liveRun(t, c, signals[k%len(signals)], k, after)
			if len(t.Violations) >= 5 || op == "" {
				break
			}
			if t.Expired() {
				t.Truncate("time budget used up")
				return
			}
		}
	}
}
