package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/health/grpc_health_v1"
	"google.golang.org/grpc/status"
)

var tlsAssumptions = []string{
	"Clients are the real gRPC client with the Go TLS implementation, over loopback; certificates are made by the check.",
	"A client certificate is presented also if the server does not list its issuer.",
}

const tlsRule = "Every combination of server certificates (none, one, two for different names), client authentication mode (each valid one, the default, and invalid spellings), client authorities (none, one, two, unusable) and kind of client (plaintext; TLS without certificate and with a trusted, second-authority, untrusted, self-signed, expired, not yet valid and server-only one) against the real server: whether a call goes through is compared with the rule of the mode. Every combination of missing, unreadable, mismatched and miscounted certificate settings: whether the server starts."

type pair struct {
	cert *x509.Certificate
	der  []byte
	key  *ecdsa.PrivateKey
}

func (p *pair) tls() tls.Certificate {
	return tls.Certificate{Certificate: [][]byte{p.der}, PrivateKey: p.key}
}

var serial int64

func issue(name string, by *pair, mod func(*x509.Certificate)) *pair {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	serial++
	now := time.Now()
	c := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: now.Add(-24 * time.Hour), NotAfter: now.Add(24 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth}, DNSNames: []string{name}, BasicConstraintsValid: true}
	if mod != nil {
		mod(c)
	}
	parent, signer := c, key
	if by != nil {
		parent, signer = by.cert, by.key
	}
	der, err := x509.CreateCertificate(rand.Reader, c, parent, &key.PublicKey, signer)
	if err != nil {
		panic(err)
	}
	x, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &pair{x, der, key}
}

// pki is what the servers and clients of a job use.
type pki struct {
	dir          string
	serverCA     *pair
	file         map[string]string
	client       map[string]*tls.Certificate
	clientsOrder []string
}

func newPKI() *pki {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "pki")
	if err != nil {
		panic(err)
	}
	p := &pki{dir: dir, file: map[string]string{}, client: map[string]*tls.Certificate{}}
	ca := func(c *x509.Certificate) {
		c.IsCA = true
		c.KeyUsage = x509.KeyUsageCertSign
		c.ExtKeyUsage = nil
		c.DNSNames = nil
	}
	p.serverCA = issue("server authority", nil, ca)
	ca1, ca2, ca3 := issue("first authority", nil, ca), issue("second authority", nil, ca), issue("other authority", nil, ca)
	s1, s2 := issue("one.test", p.serverCA, nil), issue("two.test", p.serverCA, nil)
	write := func(name, typ string, der []byte) {
		f := filepath.Join(dir, name+".pem")
		if err := os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}), 0o600); err != nil {
			panic(err)
		}
		p.file[name] = f
	}
	for n, x := range map[string]*pair{"s1": s1, "s2": s2, "ca1": ca1, "ca2": ca2} {
		write(n+"-cert", "CERTIFICATE", x.der)
		k, err := x509.MarshalECPrivateKey(x.key)
		if err != nil {
			panic(err)
		}
		write(n+"-key", "EC PRIVATE KEY", k)
	}
	p.file["absent"] = filepath.Join(dir, "absent.pem")
	p.file["garbage"] = filepath.Join(dir, "garbage.pem")
	os.WriteFile(p.file["garbage"], []byte("nothing useful\n"), 0o600)
	p.file["empty"] = filepath.Join(dir, "empty.pem")
	os.WriteFile(p.file["empty"], nil, 0o600)
	p.file["dir"] = dir
	add := func(n string, x *pair) {
		c := x.tls()
		p.client[n] = &c
		p.clientsOrder = append(p.clientsOrder, n)
	}
	add("trusted", issue("client", ca1, nil))
	add("second authority", issue("client", ca2, nil))
	add("untrusted", issue("client", ca3, nil))
	add("self-signed", issue("client", nil, nil))
	add("expired", issue("client", ca1, func(c *x509.Certificate) { c.NotAfter = time.Now().Add(-time.Hour) }))
	add("not yet valid", issue("client", ca1, func(c *x509.Certificate) { c.NotBefore = time.Now().Add(time.Hour) }))
	add("server-only", issue("client", ca1, func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth} }))
	return p
}

// verifies tells whether a client certificate is good under the authorities.
func verifies(client string, cas []string) bool {
	for _, c := range cas {
		if c == "ca1" && client == "trusted" || c == "ca2" && client == "second authority" {
			return true
		}
	}
	return false
}

// admits is the rule of the modes.
func admits(mode, client string, cas []string) bool {
	switch mode {
	case "NoClientCert", "", "RequestClientCert":
		return true
	case "RequireAnyClientCert":
		return client != "none"
	case "VerifyClientCertIfGiven":
		return client == "none" || verifies(client, cas)
	}
	return verifies(client, cas)
}

// serve starts the real server with the current configuration.
func serve() (srv *grpc.Server, addr string, err error) {
	for try := 0; try < 20; try++ {
		l, e := net.Listen("tcp", "127.0.0.1:0")
		if e != nil {
			panic(e)
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		config.GrpcPort.Set(port)
		s := sut.New(sut.Kind{Cache: "memory", Store: "memory"}, sut.Options{})
		srv, err = s.Svc[0].ServeGRPCServer(context.Background())
		if err != nil && strings.Contains(err.Error(), "address already in use") {
			continue
		}
		return srv, fmt.Sprintf("127.0.0.1:%d", port), err
	}
	return
}

// call makes one call of each service; the answers must agree.
func call(addr string, cr credentials.TransportCredentials) (bool, error) {
	c, err := grpc.NewClient("passthrough:///"+addr, grpc.WithTransportCredentials(cr), grpc.WithDisableRetry(), grpc.WithDisableServiceConfig())
	if err != nil {
		return false, err
	}
	defer c.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	_, e1 := deckard.NewDeckardClient(c).Count(ctx, &deckard.CountRequest{Queue: "q"})
	_, e2 := grpc_health_v1.NewHealthClient(c).Check(ctx, &grpc_health_v1.HealthCheckRequest{})
	if (e1 == nil) != (e2 == nil) {
		return false, fmt.Errorf("the services disagree: %v, %v", e1, e2)
	}
	if e1 != nil && status.Code(e1) != codes.Unavailable {
		return false, fmt.Errorf("unexpected: %v", e1)
	}
	return e1 == nil, nil
}

func (p *pki) creds(client, name string) credentials.TransportCredentials {
	if client == "plaintext" {
		return insecure.NewCredentials()
	}
	pool := x509.NewCertPool()
	pool.AddCert(p.serverCA.cert)
	cfg := &tls.Config{RootCAs: pool, ServerName: name}
	if client != "none" {
		cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return p.client[client], nil }
	}
	return credentials.NewTLS(cfg)
}

func (p *pki) paths(names ...string) string {
	var r []string
	for _, n := range names {
		if f, ok := p.file[n]; ok {
			n = f
		}
		r = append(r, n)
	}
	return strings.Join(r, ",")
}

func set(cert, key, cas, mode string) {
	config.Configure(true)
	config.TlsServerCertFilePaths.Set(cert)
	config.TlsServerKeyFilePaths.Set(key)
	config.TlsClientCertFilePaths.Set(cas)
	if mode != "" {
		config.TlsClientAuthType.Set(mode)
	}
}

var modes = []string{"", "NoClientCert", "RequestClientCert", "RequireAnyClientCert", "VerifyClientCertIfGiven", "RequireAndVerifyClientCert"}

// admission goes through modes, authorities and clients.
func admission(mode string) func(t *vx.T) {
	return func(t *vx.T) {
		sut.Setup()
		p := newPKI()
		defer os.RemoveAll(p.dir)
		for _, servers := range [][]string{nil, {"s1"}, {"s1", "s2"}} {
			for _, cas := range [][]string{nil, {"ca1"}, {"ca2"}, {"ca1", "ca2"}, {"ca2", "ca1"}} {
				var cert, key, ca []string
				for _, s := range servers {
					cert, key = append(cert, s+"-cert"), append(key, s+"-key")
				}
				for _, c := range cas {
					ca = append(ca, c+"-cert")
				}
				set(p.paths(cert...), p.paths(key...), p.paths(ca...), mode)
				what := fmt.Sprintf("server certificates %v, authorities %v, mode %q", servers, cas, mode)
				t.Step(what)
				t.States++
				srv, addr, err := serve()
				if err != nil {
					t.Fail(what, what+": the server does not start: "+err.Error(), nil)
					return
				}
				sni := []string{"one.test"}
				if len(servers) == 2 {
					sni = append(sni, "two.test")
				}
				for _, name := range sni {
					for _, cl := range append([]string{"plaintext", "none"}, p.clientsOrder...) {
						want := admits(mode, cl, cas)
						if cl == "plaintext" {
							want = servers == nil
						} else if servers == nil {
							want = false
						}
						w := fmt.Sprintf("%s, client %s calling %s", what, cl, name)
						t.Step(w)
						t.Traces++
						t.Trans++
						got, err := call(addr, p.creds(cl, name))
						if err != nil {
							t.Fail(w, w+": "+err.Error(), nil)
						} else if got != want {
							t.Fail(w, fmt.Sprintf("%s: the call goes through: %v, but should: %v", w, got, want), nil)
						}
					}
				}
				srv.Stop()
				if len(t.Violations) >= 3 || t.Expired() {
					if t.Expired() {
						t.Truncate("time budget used up")
					}
					return
				}
			}
		}
	}
}

// startup goes through unusable settings.
func startup(t *vx.T) {
	sut.Setup()
	p := newPKI()
	defer os.RemoveAll(p.dir)
	type list []string
	certs := []list{nil, {"s1-cert"}, {"s1-cert", "s2-cert"}, {"absent"}, {"garbage"}, {"empty"}, {"dir"}, {"s1-key"}, {"s1-cert", "absent"}, {"garbage", "s2-cert"}, {"s1-cert", ""}, {"s2-cert", "s1-cert"}}
	keys := []list{nil, {"s1-key"}, {"s1-key", "s2-key"}, {"absent"}, {"garbage"}, {"empty"}, {"dir"}, {"s1-cert"}, {"s2-key"}, {"s1-key", "absent"}, {"s1-key", ""}, {"s1-key", "s2-key", "s1-key"}}
	cas := []list{nil, {"ca1-cert"}, {"ca1-cert", "ca2-cert"}, {"absent"}, {"garbage"}, {"empty"}, {"dir"}, {"ca1-key"}, {"ca1-cert", "absent"}, {"garbage", "ca1-cert"}, {"ca1-cert", ""}}
	ms := append(append([]string{}, modes...), "noclientcert", "Require", "RequireAndVerify", "0", "4", " NoClientCert", "requireandverifyclientcert")
	good := func(c, k list) bool {
		if len(c) != len(k) || len(c) == 0 {
			return false
		}
		for i := range c {
			if !strings.HasSuffix(c[i], "-cert") || strings.TrimSuffix(c[i], "-cert")+"-key" != k[i] {
				return false
			}
		}
		return true
	}
	goodCA := func(c list) bool {
		for _, x := range c {
			if !strings.HasSuffix(x, "-cert") {
				return false
			}
		}
		return true
	}
	try := func(c, k, a list, m string) {
		what := fmt.Sprintf("certificates %q, keys %q, authorities %q, mode %q", c, k, a, m)
		t.Step(what)
		t.States++
		t.Trans++
		t.Traces++
		set(p.paths(c...), p.paths(k...), p.paths(a...), m)
		validMode := false
		for _, x := range modes {
			validMode = validMode || x == m
		}
		tlsOn := len(c) > 0 || len(k) > 0
		want := !tlsOn || good(c, k) && goodCA(a) && validMode
		free := !tlsOn && (len(a) > 0 || m != "")
		srv, addr, err := serve()
		switch {
		case err != nil && want && !free:
			t.Fail(what, what+": the server does not start: "+err.Error(), nil)
		case err == nil && !want:
			t.Fail(what, what+": the server starts", nil)
		}
		if err == nil {
			// What runs without usable certificates must not be reached in the clear
			// unless nothing was configured.
			if tlsOn {
				if ok, _ := call(addr, insecure.NewCredentials()); ok {
					t.Fail("plain "+what, what+": the server can be called in plaintext", nil)
				}
			}
			srv.Stop()
		} else if srv != nil {
			t.Fail("both "+what, what+": a server is returned together with an error", nil)
		}
	}
	for _, c := range certs {
		for _, k := range keys {
			try(c, k, nil, "")
			if len(t.Violations) >= 3 {
				return
			}
			if t.Thorough() || good(c, k) || c == nil && k == nil {
				for _, a := range cas {
					for _, m := range ms {
						try(c, k, a, m)
						if len(t.Violations) >= 3 {
							return
						}
					}
				}
			}
		}
	}
}

func tlsJobs(tier string) []vx.Job {
	r := []vx.Job{{Name: "startup", Fn: startup}}
	for _, m := range modes {
		n := m
		if n == "" {
			n = "default"
		}
		r = append(r, vx.Job{Name: "admission-" + n, Fn: admission(m)})
	}
	return r
}
