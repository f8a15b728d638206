package harness

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/openrdap/rdap"
)

// cliWorld is a loopback server playing bootstrap service and RDAP servers for command line runs.
type cliWorld struct {
	*connServer
	mu sync.Mutex
	h  http.HandlerFunc
}

func newCLIWorld(tls bool) *cliWorld {
	w := &cliWorld{}
	w.connServer = newConnServer(tls, func(_ *connServer, rw http.ResponseWriter, req *http.Request) {
		w.mu.Lock()
		h := w.h
		w.mu.Unlock()
		h(rw, req)
	})
	return w
}

// serve replaces the handler and forgets the recorded requests.
func (w *cliWorld) serve(h http.HandlerFunc) {
	w.mu.Lock()
	w.h = h
	w.mu.Unlock()
	w.connServer.mu.Lock()
	w.hits, w.log = nil, nil
	w.connServer.mu.Unlock()
}

// serveBody answers everything with one body.
func (w *cliWorld) serveBody(status int, body []byte) {
	w.serve(func(rw http.ResponseWriter, _ *http.Request) {
		rw.WriteHeader(status)
		_, _ = rw.Write(body)
	})
}

func (w *cliWorld) received() []*http.Request {
	w.connServer.mu.Lock()
	defer w.connServer.mu.Unlock()
	return append([]*http.Request{}, w.log...)
}

type cliResult struct {
	rc          int
	stdout, err string
}

func runCLI(sandboxed bool, args ...string) cliResult {
	var so, se bytes.Buffer
	rc := rdap.RunCLI(args, &so, &se, rdap.CLIOptions{Sandbox: sandboxed})
	return cliResult{rc, so.String(), se.String()}
}

// errorShown: the standard error has a '#'-prefixed error.
func errorShown(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "# ") && len(l) > 2 {
			return true
		}
	}
	return false
}

// ---- a whole network behind a proxy

// netReq is one HTTP request as the world saw it.
type netReq struct {
	url    string // absolute
	method string
	header http.Header
	certs  [][]byte // client certificates offered
}

// netReply: status 0 hangs up.
type netReply struct {
	status int
	header map[string]string
	body   []byte
}

// netWorld plays every host on the network, through the proxy that RunCLI takes from the environment. Https hosts are
// reached by CONNECT and served with certificates of the world's own authority.
type netWorld struct {
	srv       *httptest.Server
	mu        sync.Mutex
	reqs      []netReq
	connects  []string
	handshake map[string]int // failed TLS handshakes per host
	reply     func(r netReq) netReply
	tlsFor    func(host string) *tls.Config
	ca        *certAuth
	done      chan struct{}
	conns     map[net.Conn]bool
}

// certAuth issues certificates.
type certAuth struct {
	key  *ecdsa.PrivateKey
	cert *x509.Certificate
	mu   sync.Mutex
	n    int64
	memo map[string]tls.Certificate
	mid  *certAuth
}

func newCertAuth(name string) *certAuth {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &certAuth{key: key, cert: c, n: 1, memo: map[string]tls.Certificate{}}
}

func (a *certAuth) pem() []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: a.cert.Raw})
}

// issue makes a certificate for host, valid from..to hours from now.
func (a *certAuth) issue(host string, from, to time.Duration) tls.Certificate {
	a.mu.Lock()
	defer a.mu.Unlock()
	k := fmt.Sprint(host, from, to)
	if c, ok := a.memo[k]; ok {
		return c
	}
	a.n++
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(a.n), Subject: pkix.Name{CommonName: host}, NotBefore: time.Now().Add(from), NotAfter: time.Now().Add(to),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	if ip := net.ParseIP(host); ip != nil {
		tmpl.IPAddresses = []net.IP{ip}
	} else {
		tmpl.DNSNames = []string{host}
	}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, a.cert, &key.PublicKey, a.key)
	if err != nil {
		panic(err)
	}
	c := tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	a.memo[k] = c
	return c
}

// newNetWorld starts the world and points this process at it. It must be called before the process makes any request.
func newNetWorld(m *M) *netWorld {
	w := &netWorld{ca: newCertAuth("World CA"), handshake: map[string]int{}, done: make(chan struct{}), conns: map[net.Conn]bool{}}
	w.tlsFor = func(host string) *tls.Config {
		return &tls.Config{Certificates: []tls.Certificate{w.ca.issue(host, -time.Hour, time.Hour)}}
	}
	w.srv = httptest.NewUnstartedServer(http.HandlerFunc(w.proxy))
	w.srv.Config.ErrorLog = discardLog
	w.srv.Start()
	dir := scratchDir(m)
	ca := filepath.Join(dir, "ca.pem")
	if err := os.WriteFile(ca, w.ca.pem(), 0o600); err != nil {
		panic(err)
	}
	empty := filepath.Join(dir, "certs")
	if err := os.Mkdir(empty, 0o700); err != nil {
		panic(err)
	}
	for _, k := range []string{"HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "https_proxy"} {
		os.Setenv(k, w.srv.URL)
	}
	os.Setenv("NO_PROXY", "")
	os.Setenv("no_proxy", "")
	os.Setenv("SSL_CERT_FILE", ca)
	os.Setenv("SSL_CERT_DIR", empty)
	return w
}

func (w *netWorld) stop() {
	close(w.done)
	w.mu.Lock()
	for c := range w.conns {
		c.Close()
	}
	w.mu.Unlock()
	w.srv.CloseClientConnections()
	w.srv.Close()
}

// set replaces the hosts' behaviour and forgets the recorded requests.
func (w *netWorld) set(f func(r netReq) netReply) {
	w.mu.Lock()
	w.reply, w.reqs, w.connects, w.handshake = f, nil, nil, map[string]int{}
	w.mu.Unlock()
}

func (w *netWorld) seen() []netReq {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]netReq{}, w.reqs...)
}

func (w *netWorld) urls() (out []string) {
	for _, r := range w.seen() {
		out = append(out, r.url)
	}
	return out
}

func (w *netWorld) answer(r netReq) netReply {
	w.mu.Lock()
	w.reqs = append(w.reqs, r)
	f := w.reply
	w.mu.Unlock()
	return f(r)
}

func (w *netWorld) proxy(rw http.ResponseWriter, req *http.Request) {
	if req.Method == http.MethodConnect {
		w.mu.Lock()
		w.connects = append(w.connects, req.Host)
		w.mu.Unlock()
		c, _, err := rw.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		w.mu.Lock()
		w.conns[c] = true
		w.mu.Unlock()
		defer func() {
			c.Close()
			w.mu.Lock()
			delete(w.conns, c)
			w.mu.Unlock()
		}()
		_, _ = io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
		w.serveTLS(c, req.Host)
		return
	}
	nr := netReq{url: req.RequestURI, method: req.Method, header: req.Header}
	rep := w.answer(nr)
	if rep.status == 0 {
		if c, _, err := rw.(http.Hijacker).Hijack(); err == nil {
			c.Close()
		}
		return
	}
	for k, v := range rep.header {
		rw.Header().Set(k, v)
	}
	rw.WriteHeader(rep.status)
	_, _ = rw.Write(rep.body)
}

// serveTLS plays the TLS host at addr on the connection.
func (w *netWorld) serveTLS(c net.Conn, addr string) {
	host, port, _ := net.SplitHostPort(addr)
	tc := tls.Server(c, w.tlsFor(host))
	if err := tc.Handshake(); err != nil {
		w.mu.Lock()
		w.handshake[host]++
		w.mu.Unlock()
		return
	}
	base := "https://" + addr
	if port == "443" {
		base = "https://" + strings.TrimSuffix(addr, ":443")
	}
	br := bufio.NewReader(tc)
	for {
		r, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		nr := netReq{url: base + r.RequestURI, method: r.Method, header: r.Header}
		for _, pc := range tc.ConnectionState().PeerCertificates {
			nr.certs = append(nr.certs, pc.Raw)
		}
		rep := w.answer(nr)
		if rep.status == 0 {
			return
		}
		resp := httpResp(rep.status, rep.body, rep.header)
		if resp.Write(tc) != nil {
			return
		}
	}
}

// direct starts a TLS host on a loopback address, which is reached without the proxy, and returns its address. It plays
// the host that hostOf tells.
func (w *netWorld) direct(ip string, hostOf func() string) string {
	l, err := net.Listen("tcp", net.JoinHostPort(ip, "0"))
	if err != nil {
		return ""
	}
	addr := l.Addr().String()
	_, port, _ := net.SplitHostPort(addr)
	go func() {
		<-w.done
		l.Close()
	}()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			w.mu.Lock()
			w.connects = append(w.connects, addr)
			w.conns[c] = true
			w.mu.Unlock()
			go func() {
				defer func() {
					c.Close()
					w.mu.Lock()
					delete(w.conns, c)
					w.mu.Unlock()
				}()
				w.serveTLS(c, net.JoinHostPort(hostOf(), port))
			}()
		}
	}()
	return port
}

func certPEM(c tls.Certificate) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.Certificate[0]})
}

func keyPEM(c tls.Certificate) []byte {
	b, err := x509.MarshalPKCS8PrivateKey(c.PrivateKey)
	if err != nil {
		panic(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: b})
}
