package harness

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"embed"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

//go:embed fixtures
var fixtures embed.FS

func fixture(name string) []byte {
	b, err := fixtures.ReadFile("fixtures/" + name)
	if err != nil {
		panic(err)
	}
	return b
}

// serverKind is how a host presents itself.
type serverKind struct {
	name string
	good func(host string) bool
	cert func(w *netWorld, other *certAuth, host string) tls.Certificate
}

func always(string) bool { return true }
func never(string) bool  { return false }

// dotted: a host name with several labels.
func dotted(h string) bool { return net.ParseIP(h) == nil && strings.Count(h, ".") >= 2 }

// otherHost is the name of another host, related to h where it has relatives.
func otherHost(h, how string) string {
	if ip := net.ParseIP(h); ip != nil {
		if ip.To4() != nil {
			return "192.0.2.250"
		}
		return "2001:db8::fa"
	}
	if _, p, ok := strings.Cut(h, "."); ok && how == "parent" {
		return p
	}
	return how + h
}

// issueAs makes a certificate that differs from the usual one.
func (a *certAuth) issueAs(what, host string, change func(t *x509.Certificate)) tls.Certificate {
	a.mu.Lock()
	defer a.mu.Unlock()
	k := what + "|" + host
	if c, ok := a.memo[k]; ok {
		return c
	}
	a.n++
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(a.n), Subject: pkix.Name{CommonName: host}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if ip := net.ParseIP(host); ip != nil {
		t.IPAddresses = []net.IP{ip}
	} else {
		t.DNSNames = []string{host}
	}
	change(t)
	der, err := x509.CreateCertificate(crand.Reader, t, a.cert, &key.PublicKey, a.key)
	if err != nil {
		panic(err)
	}
	c := tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	a.memo[k] = c
	return c
}

// middle is an authority of its own, certified by a.
func (a *certAuth) middle() *certAuth {
	c := a.issueAs("middle", "Intermediate CA", func(t *x509.Certificate) {
		t.DNSNames, t.ExtKeyUsage = nil, nil
		t.IsCA, t.BasicConstraintsValid, t.KeyUsage = true, true, x509.KeyUsageCertSign|x509.KeyUsageDigitalSignature
	})
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.mid == nil {
		cert, err := x509.ParseCertificate(c.Certificate[0])
		if err != nil {
			panic(err)
		}
		a.mid = &certAuth{key: c.PrivateKey.(*ecdsa.PrivateKey), cert: cert, n: 1, memo: map[string]tls.Certificate{}}
	}
	return a.mid
}

var serverKinds = []serverKind{
	{"valid", always, func(w *netWorld, _ *certAuth, h string) tls.Certificate { return w.ca.issue(h, -time.Hour, time.Hour) }},
	{"expired", never, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		return w.ca.issue(h, -48*time.Hour, -24*time.Hour)
	}},
	{"just expired", never, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		return w.ca.issue(h, -48*time.Hour, -2*time.Minute)
	}},
	{"not yet valid", never, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		return w.ca.issue(h, 24*time.Hour, 48*time.Hour)
	}},
	{"another host's", never, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		return w.ca.issue(otherHost(h, "www."), -time.Hour, time.Hour)
	}},
	{"another host's (parent)", never, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		return w.ca.issue(otherHost(h, "parent"), -time.Hour, time.Hour)
	}},
	{"another host's (suffix)", never, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		return w.ca.issue(otherHost(h, "x"), -time.Hour, time.Hour)
	}},
	{"other authority", never, func(_ *netWorld, o *certAuth, h string) tls.Certificate { return o.issue(h, -time.Hour, time.Hour) }},
	{"self-signed", never, func(_ *netWorld, _ *certAuth, h string) tls.Certificate { return selfSigned(h) }},
	{"wildcard", dotted, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		_, p, _ := strings.Cut(h, ".")
		return w.ca.issueAs("wildcard", h, func(t *x509.Certificate) {
			t.IPAddresses, t.DNSNames = nil, []string{"*." + p + ".x"}
			if dotted(h) {
				t.DNSNames = []string{"*." + p}
			}
		})
	}},
	{"wildcard one level up", never, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		_, p, _ := strings.Cut(h, ".")
		return w.ca.issueAs("wildcard up", h, func(t *x509.Certificate) { t.IPAddresses, t.DNSNames = nil, []string{"*.x" + p, "*." + h, "*"} })
	}},
	{"common name only", never, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		return w.ca.issueAs("cn", h, func(t *x509.Certificate) { t.IPAddresses, t.DNSNames = nil, nil })
	}},
	{"several names", always, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		return w.ca.issueAs("sans", h, func(t *x509.Certificate) {
			t.Subject.CommonName = "elsewhere.example"
			t.DNSNames = append([]string{"elsewhere.example"}, t.DNSNames...)
		})
	}},
	{"no server certificate", never, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		return w.ca.issueAs("client", h, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })
	}},
	{"by way of an intermediate", always, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		mid := w.ca.middle()
		c := mid.issue(h, -time.Hour, time.Hour)
		return tls.Certificate{Certificate: [][]byte{c.Certificate[0], mid.cert.Raw}, PrivateKey: c.PrivateKey}
	}},
	{"intermediate missing", never, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		return w.ca.middle().issue(h, -time.Hour, time.Hour)
	}},
	{"with its own authority attached", never, func(_ *netWorld, o *certAuth, h string) tls.Certificate {
		c := o.issue(h, -time.Hour, time.Hour)
		return tls.Certificate{Certificate: [][]byte{c.Certificate[0], o.cert.Raw}, PrivateKey: c.PrivateKey}
	}},
	{"issued by a host certificate", never, func(w *netWorld, _ *certAuth, h string) tls.Certificate {
		leaf := w.ca.issue("leaf.example", -time.Hour, time.Hour)
		cert, err := x509.ParseCertificate(leaf.Certificate[0])
		if err != nil {
			panic(err)
		}
		c := (&certAuth{key: leaf.PrivateKey.(*ecdsa.PrivateKey), cert: cert, n: 1, memo: map[string]tls.Certificate{}}).issue(h, -time.Hour, time.Hour)
		return tls.Certificate{Certificate: [][]byte{c.Certificate[0], leaf.Certificate[0]}, PrivateKey: c.PrivateKey}
	}},
}

var selfMemo = map[string]tls.Certificate{}

// selfSigned: a certificate that is its own authority.
func selfSigned(host string) tls.Certificate {
	if c, ok := selfMemo[host]; ok {
		return c
	}
	a := newCertAuth(host)
	c := tls.Certificate{Certificate: [][]byte{a.cert.Raw}, PrivateKey: a.key}
	selfMemo[host] = c
	return c
}

type c33World struct {
	m     *M
	w     *netWorld
	other *certAuth
	files clientCerts

	loop     []loopHost
	loopHost atomic.Value
}

type loopHost struct{ host, port string }

// clientCert is a way of giving a client certificate, with the chain to be offered.
type clientCert struct {
	name  string
	args  func(r *Rand) []string
	chain [][]byte
}

type clientCerts struct {
	good []clientCert
	bad  []clientCert

	badSandboxed []clientCert
}

func newClientCerts(m *M) clientCerts {
	d := scratchDir(m)
	put := func(name string, b []byte) string {
		p := filepath.Join(d, name)
		if err := os.WriteFile(p, b, 0o600); err != nil {
			panic(err)
		}
		return p
	}
	ca := newCertAuth("client CA")
	a, b := ca.issue("client-a", -time.Hour, time.Hour), ca.issue("client-b", -time.Hour, time.Hour)
	old := ca.issue("client-old", -48*time.Hour, -24*time.Hour)
	ac, ak, bc, bk := put("a.pem", certPEM(a)), put("a.key", keyPEM(a)), put("b.pem", certPEM(b)), put("b.key", keyPEM(b))
	chain := put("chain.pem", append(certPEM(a), ca.pem()...))
	both := put("both.pem", append(keyPEM(b), certPEM(b)...))
	oc, ok := put("old.pem", certPEM(old)), put("old.key", keyPEM(old))
	ec, ek, enc := put("e.pem", fixture("e.pem")), put("e.key", fixture("e.key")), put("enc.key", fixture("enc.key"))
	rev := put("rev.pem", append(ca.pem(), certPEM(a)...))
	noise := put("noise.pem", append([]byte("some words\n-----BEGIN X-----\nAAAA\n-----END X-----\n"), certPEM(a)...))
	ebig := put("sp ace:colon.pem", certPEM(b))
	empty, garbage := put("empty", nil), put("garbage", []byte("garbage"))
	missing := filepath.Join(d, "missing")
	pair := func(c, k string) func(r *Rand) []string {
		return func(r *Rand) []string { return append(opt(r, "cert", "C", c), opt(r, "key", "K", k)...) }
	}
	p12 := func(v string) func(r *Rand) []string { return func(r *Rand) []string { return opt(r, "p12", "P", v) } }
	list := func(a ...string) func(r *Rand) []string { return func(*Rand) []string { return a } }
	f := map[string]string{}
	for _, n := range []string{"a", "b", "c", "d", "e", "nokey", "mismatch"} {
		f[n] = put(n+".p12", fixture(n+".p12"))
	}
	trunc := put("trunc.p12", fixture("a.p12")[:1000])
	flip := append([]byte{}, fixture("a.p12")...)
	flip[len(flip)-10] ^= 1 // in the integrity code
	flipped := put("flipped.p12", flip)
	one := func(b []byte) [][]byte { return [][]byte{b} }
	const sbx = "DigiCert_RDAP_Pilot_Client_Certificate.p12:abcdefg"
	return clientCerts{
		good: []clientCert{
			{"none", list(), nil},
			{"PEM a", pair(ac, ak), a.Certificate}, {"PEM b", pair(bc, bk), b.Certificate}, {"PEM chain", pair(chain, ak), append(append([][]byte{}, a.Certificate...), ca.cert.Raw)},
			{"PEM both in one file", pair(both, both), b.Certificate}, {"PEM expired", pair(oc, ok), old.Certificate},
			{"PKCS#12 a", p12(f["a"] + ":secret"), one(fixture("a.der"))}, {"PKCS#12 b, no password", p12(f["b"]), one(fixture("b.der"))}, {"PKCS#12 b, empty password", p12(f["b"] + ":"), one(fixture("b.der"))},
			{"PKCS#12 c, password with colons", p12(f["c"] + ":p:w:x"), one(fixture("c.der"))}, {"PKCS#12 d", p12(f["d"] + ":p\u00e2ss"), one(fixture("d.der"))},
			{"PKCS#12 e, with its authority", p12(f["e"] + ":chain"), [][]byte{fixture("e.der"), fixture("e-ca.der")}}, {"RSA in PKCS#1", pair(ec, ek), one(fixture("e.der"))},
			{"PEM with other blocks", pair(noise, ak), a.Certificate}, {"PEM, strange name", pair(ebig, both), b.Certificate},
		},
		bad: []clientCert{
			{"missing certificate", pair(missing, ak), nil}, {"missing key", pair(ac, missing), nil}, {"mismatched", pair(ac, bk), nil}, {"mismatched", pair(bc, ak), nil},
			{"swapped", pair(ak, ac), nil}, {"empty certificate", pair(empty, ak), nil}, {"empty key", pair(ac, empty), nil}, {"garbage certificate", pair(garbage, ak), nil}, {"garbage key", pair(ac, garbage), nil}, {"directory", pair(d, ak), nil},
			{"certificate twice", pair(ac, ac), nil}, {"PKCS#12 as PEM", pair(f["a"], f["a"]), nil},
			{"certificate only", func(r *Rand) []string { return opt(r, "cert", "C", ac) }, nil}, {"key only", func(r *Rand) []string { return opt(r, "key", "K", ak) }, nil},
			{"PEM and PKCS#12", func(r *Rand) []string {
				return append(append(opt(r, "cert", "C", ac), opt(r, "key", "K", ak)...), opt(r, "p12", "P", f["a"]+":secret")...)
			}, nil},
			{"certificate and PKCS#12", func(r *Rand) []string {
				return append(opt(r, "cert", "C", ac), opt(r, "p12", "P", f["a"]+":secret")...)
			}, nil},
			{"key and PKCS#12", func(r *Rand) []string { return append(opt(r, "key", "K", ak), opt(r, "p12", "P", f["b"])...) }, nil},
			{"wrong password", p12(f["a"] + ":wrong"), nil}, {"no password", p12(f["a"]), nil}, {"password prefix", p12(f["a"] + ":secre"), nil}, {"password suffix", p12(f["a"] + ":secretx"), nil}, {"password case", p12(f["a"] + ":Secret"), nil},
			{"needless password", p12(f["b"] + ":x"), nil}, {"cut at the colon", p12(f["c"] + ":p"), nil}, {"cut at the second colon", p12(f["c"] + ":p:w"), nil},
			{"missing PKCS#12", p12(missing), nil}, {"missing PKCS#12", p12(missing + ":secret"), nil}, {"empty PKCS#12", p12(empty), nil}, {"garbage PKCS#12", p12(garbage + ":secret"), nil}, {"truncated PKCS#12", p12(trunc + ":secret"), nil}, {"corrupt PKCS#12", p12(flipped + ":secret"), nil},
			{"mismatched, the right key beside the certificate", pair(put("ab.pem", append(certPEM(a), keyPEM(a)...)), bk), nil}, {"mismatched, a pair as the key", pair(ac, both), nil},
			{"authority before the certificate", pair(rev, ak), nil}, {"encrypted key", pair(ec, enc), nil}, {"the PEM pair of a PKCS#12 file", pair(f["e"], ek), nil},
			{"empty certificate name", pair("", ak), nil}, {"empty key name", pair(ac, ""), nil},
			{"bad PEM and good PKCS#12", func(r *Rand) []string {
				return append(append(opt(r, "cert", "C", missing), opt(r, "key", "K", ak)...), opt(r, "p12", "P", f["a"]+":secret")...)
			}, nil},
			{"PEM as PKCS#12", p12(ac), nil}, {"PKCS#12 without a key", p12(f["nokey"] + ":secret"), nil}, {"PKCS#12 with another's certificate", p12(f["mismatch"] + ":secret"), nil}, {"directory as PKCS#12", p12(d), nil},
		},
		badSandboxed: []clientCert{
			{"certificate only", func(r *Rand) []string { return opt(r, "cert", "C", ac) }, nil}, {"key only", func(r *Rand) []string { return opt(r, "key", "K", ak) }, nil},
			{"empty certificate name", pair("", ak), nil}, {"empty key name", pair(ac, ""), nil},
			{"PEM and PKCS#12", func(r *Rand) []string {
				return append(append(opt(r, "cert", "C", ac), opt(r, "key", "K", ak)...), opt(r, "p12", "P", sbx)...)
			}, nil},
			{"certificate and PKCS#12", func(r *Rand) []string { return append(opt(r, "cert", "C", ac), opt(r, "p12", "P", sbx)...) }, nil},
			{"key and PKCS#12", func(r *Rand) []string { return append(opt(r, "key", "K", ak), opt(r, "p12", "P", sbx)...) }, nil},
			{"a file outside the sandbox", p12(f["a"] + ":secret"), nil}, {"sandbox file, wrong password", p12(sbx + "x"), nil}, {"sandbox file, no password", p12(strings.Split(sbx, ":")[0]), nil},
			{"no such sandbox file", p12("x" + sbx), nil},
		},
	}
}

// c33Case: a query through hosts that present themselves in given ways.
type c33Case struct {
	route    string // explicit, bootstrapped, redirected, url
	boot     int    // server kinds
	servers  []int
	insecure bool
	hosts    []string // host[:port] of each server
	bootHost string
	cert     clientCert
	asks     bool
	maxTLS   uint16
}

// hostOnly strips the port and brackets.
func hostOnly(hp string) string { return mustURL("https://" + hp).Hostname() }

// c33Hosts picks the hosts of a case, all different.
func (c *c33World) pickHosts(r *Rand, k *c33Case) {
	name := func(i int) string {
		h := ""
		switch r.IntN(9) {
		case 0:
			h = fmt.Sprintf("192.0.2.%d", i+1)
		case 1:
			h = fmt.Sprintf("%s.%d", pick(r, []string{"10.0.0", "192.168.1", "172.16.0", "169.254.1", "203.0.113"}), i+1)
		case 2:
			h = fmt.Sprintf("[%s:%d]", pick(r, []string{"2001:db8:", "fd00::7", "fe80::1"}), i+1)
		case 3:
			h = fmt.Sprintf("%s%d", pick(r, []string{"intranet", "rdap", "host"}), i)
		case 4:
			h = fmt.Sprintf("s%d.%s", i, pick(r, []string{"local", "test", "internal", "lan", "localhost.example", "invalid", "example.com", "onion"}))
		case 5:
			h = fmt.Sprintf("S%d.Tls.Example", i)
		default:
			h = fmt.Sprintf("s%d.tls.example", i)
		}
		if w := strings.ToLower(r.word("")); dictChance(r, 0.03) && hostWord.MatchString(w) {
			h = fmt.Sprintf("%s.s%d.example", w, i)
			if r.Chance(0.5) {
				h = fmt.Sprintf("s%d.%s", i, w)
			}
		}
		if r.Chance(0.3) {
			h += pick(r, []string{":443", ":8443", ":444", ":10443"})
		}
		return h
	}
	k.bootHost = name(9)
	for i := range k.servers {
		k.hosts = append(k.hosts, name(i))
	}
	if len(c.loop) > 0 && r.Chance(0.15) { // one host on this machine, reached directly
		l := pick(r, c.loop)
		hp := l.host + ":" + l.port
		c.loopHost.Store(strings.Trim(l.host, "[]"))
		if r.Chance(0.3) && k.route == "bootstrapped" {
			k.bootHost = hp
		} else {
			k.hosts[r.IntN(len(k.hosts))] = hp
		}
	}
}

var hostWord = regexp.MustCompile(`^[a-z0-9]([a-z0-9-]{0,30}[a-z0-9])?(\.[a-z]([a-z0-9-]{0,30}[a-z0-9])?)*$`)

func (c *c33World) one(r *Rand, k c33Case, bin bool) {
	m, w := c.m, c.w
	c.pickHosts(r, &k)
	kindOf := func(host string) (serverKind, bool) {
		if strings.EqualFold(host, hostOnly(k.bootHost)) {
			return serverKinds[k.boot], true
		}
		for i := range k.servers {
			if strings.EqualFold(host, hostOnly(k.hosts[i])) {
				return serverKinds[k.servers[i]], true
			}
		}
		return serverKinds[0], false
	}
	w.mu.Lock()
	w.tlsFor = func(host string) *tls.Config {
		sk, _ := kindOf(host)
		w.mu.Lock()
		cert := sk.cert(w, c.other, host)
		w.mu.Unlock()
		cfg := &tls.Config{Certificates: []tls.Certificate{cert}, MaxVersion: k.maxTLS}
		if k.asks {
			cfg.ClientAuth = tls.RequestClientCert
		}
		return cfg
	}
	w.mu.Unlock()
	w.set(func(q netReq) netReply {
		u := mustURL(q.url)
		if strings.EqualFold(u.Hostname(), hostOnly(k.bootHost)) {
			var urls []string
			for i := range k.servers {
				urls = append(urls, "https://"+k.hosts[i]+"/")
			}
			return netReply{status: 200, body: regDoc([]svc{{[]string{"example"}, urls}}, false, nil)}
		}
		if u.Hostname() == "plain.example" || u.Hostname() == "first.example" {
			return netReply{status: 302, header: map[string]string{"Location": "https://" + k.hosts[0] + "/domain/a.example"}}
		}
		return okReply(okDoc("c33"))
	})
	groups := [][]string{{"--cache-dir="}, k.cert.args(r)}
	q := "a.example"
	switch k.route {
	case "explicit":
		groups = append(groups, opt(r, "server", "s", "https://"+k.hosts[0]+"/"))
	case "url":
		q = "https://" + k.hosts[0] + "/domain/a.example"
	case "redirected":
		groups = append(groups, opt(r, "server", "s", "http://plain.example/"))
	case "redirected from TLS":
		groups = append(groups, opt(r, "server", "s", "https://first.example/"))
	default:
		groups = append(groups, []string{"--bs-url=https://" + k.bootHost + "/b"})
	}
	if k.insecure {
		groups = append(groups, []string{pick(r, []string{"-k", "--insecure"})})
	}
	if !k.insecure && r.Chance(0.1) {
		groups = append(groups, []string{"--no-insecure"})
	}
	if r.Chance(0.3) {
		groups = append(groups, pick(r, [][]string{{"-v"}, {"-j"}, {"-r"}, {"-T", "60"}}))
	}
	args := weave(r, groups, &q)
	var names []string
	for i, s := range k.servers {
		names = append(names, k.hosts[i]+" "+serverKinds[s].name)
	}
	kase := fmt.Sprintf("%s route, registry certificate %s %s, server certificates %q, insecure %v, client certificate %s, asked for %v, up to TLS %x: %q", k.route, k.bootHost, serverKinds[k.boot].name, names, k.insecure, k.cert.name, k.asks, k.maxTLS, args)
	m.Try(kase, func() {
		var res cliResult
		if bin {
			var err error
			if res, err = runBin(args...); err != nil {
				panic(err)
			}
			m.Count("runs of the real command", 1)
		} else {
			res = runCLI(false, append([]string{}, args...)...)
		}
		reqs := w.seen()
		show := fmt.Sprintf("%+v requests %v", res, w.urls())
		m.Saw(kase, true)
		trusted := func(s int, host string) bool { return k.insecure || serverKinds[s].good(hostOnly(host)) }
		// the hosts that may see a request, in order
		var want []string
		ok := true
		switch k.route {
		case "redirected":
			want = append(want, "plain.example")
		case "redirected from TLS":
			want = append(want, "first.example")
		case "bootstrapped":
			ok = trusted(k.boot, k.bootHost)
			if ok {
				want = append(want, strings.ToLower(hostOnly(k.bootHost)))
			}
		}
		if ok {
			ok = false
			for i, s := range k.servers {
				if trusted(s, k.hosts[i]) {
					want = append(want, strings.ToLower(hostOnly(k.hosts[i])))
					ok = true
					break
				}
				m.Count("untrusted servers refused", 1)
			}
		}
		var got []string
		for _, q := range reqs {
			u := mustURL(q.url)
			got = append(got, strings.ToLower(u.Hostname()))
			sk, known := kindOf(u.Hostname())
			switch {
			case known && u.Scheme != "https":
				m.Violate("a query was sent without TLS", kase, "https", show)
				return
			case known && !sk.good(u.Hostname()) && !k.insecure:
				m.Violate("a query was sent to a server whose certificate does not verify", kase, "refused: "+sk.name, show)
				return
			}
			wantCerts := k.cert.chain
			if !k.asks || u.Scheme != "https" {
				wantCerts = nil
			}
			if len(q.certs) != len(wantCerts) {
				m.Violate("not exactly the configured client certificate was offered", kase, fmt.Sprintf("%d certificates", len(wantCerts)), fmt.Sprintf("%d at %s", len(q.certs), q.url))
				return
			}
			for i := range wantCerts {
				if !bytes.Equal(wantCerts[i], q.certs[i]) {
					m.Violate("another client certificate was offered", kase, fmt.Sprintf("%x", wantCerts[i]), fmt.Sprintf("%x", q.certs[i]))
					return
				}
			}
			if len(wantCerts) > 0 {
				m.Count("client certificates received and compared", 1)
			}
		}
		if !eqStrings(got, want) {
			m.Violate("the hosts reached are not those whose certificates verify", kase, fmt.Sprint(want), show)
		} else if (res.rc == 0) != ok {
			m.Violate("the outcome does not match the servers' certificates", kase, ok, show)
		}
	})
	m.Sample(kase)
}

func (c *c33World) bad(r *Rand, cc clientCert, bin, sandboxed bool) {
	m, w := c.m, c.w
	w.set(bootWorld(1, func(int, netReq) netReply { return okReply(okDoc("c33")) }))
	groups := [][]string{{"--cache-dir="}, cc.args(r)}
	q := pick(r, []string{"a.example", "https://s0.tls.example/domain/x"})
	if q == "a.example" {
		groups = append(groups, pick(r, [][]string{{"--bs-url=http://boot.example/b"}, {"--server=http://s0.example/"}, {"-s", "https://s0.tls.example/"}}))
	}
	if r.Chance(0.3) {
		groups = append(groups, []string{"-k"})
	}
	if r.Chance(0.3) {
		groups = append(groups, []string{"-v"})
	}
	if sandboxed && (bin || r.Chance(0.5)) {
		groups, sandboxed = append(groups, []string{"--exp=sandbox"}), false
	}
	args := weave(r, groups, &q)
	kase := fmt.Sprintf("client certificate %s: %q (sandbox option %v)", cc.name, args, sandboxed)
	m.Try(kase, func() {
		var res cliResult
		if bin {
			var err error
			if res, err = runBin(args...); err != nil {
				panic(err)
			}
		} else {
			res = runCLI(sandboxed, append([]string{}, args...)...)
		}
		m.Saw(kase, true)
		m.Count("unusable client certificates", 1)
		w.mu.Lock()
		n := len(w.connects) + len(w.reqs)
		w.mu.Unlock()
		if n != 0 {
			m.Violate("a request was sent although the client certificate cannot be used", kase, "none", fmt.Sprintf("%+v %v", res, w.urls()))
		} else if res.rc != 1 || !errorShown(res.err) {
			m.Violate("an unusable client certificate did not fail the run", kase, 1, fmt.Sprintf("%+v", res))
		}
	})
}

func TestC33(t *testing.T) {
	monitor(t, "C33", "a command line run against TLS servers whose handshakes and requests were recorded; distinct by route, server certificates, options and client certificate", 900, func(m *M) {
		m.Assume("servers that ask for a client certificate do not restrict its issuer; trusted authorities come from SSL_CERT_FILE")
		w := newNetWorld(m)
		defer w.stop()
		c := &c33World{m: m, w: w, other: newCertAuth("Other CA"), files: newClientCerts(m)}
		c.loopHost.Store("")
		for _, h := range []string{"127.0.0.1", "localhost", "[::1]"} {
			ip := strings.Trim(h, "[]")
			if h == "localhost" {
				if as, err := net.LookupHost(h); err != nil || !slices.Contains(as, "127.0.0.1") {
					continue
				}
				ip = "127.0.0.1"
			}
			if p := w.direct(ip, func() string { return c.loopHost.Load().(string) }); p != "" {
				c.loop = append(c.loop, loopHost{h, p})
			}
		}
		m.Count("loopback hosts reached without the proxy", len(c.loop))
		for i := range m.N(8) {
			r := NewRand(m.Seed, fmt.Sprintf("C33/%d", i))
			n := 0
			next := func(k c33Case) {
				n++
				k.cert = c.files.good[(n+i)%len(c.files.good)]
				k.asks = r.Chance(0.6)
				k.maxTLS = pick(r, []uint16{0, tls.VersionTLS12})
				c.one(r, k, (n+i)%17 == 0)
			}
			for _, ins := range []bool{false, true} {
				for s := range serverKinds {
					for _, route := range []string{"explicit", "url", "redirected", "redirected from TLS"} {
						next(c33Case{route: route, servers: []int{s}, insecure: ins})
					}
					next(c33Case{route: "bootstrapped", boot: s, servers: []int{r.IntN(len(serverKinds))}, insecure: ins})
					next(c33Case{route: "bootstrapped", servers: []int{s, r.IntN(len(serverKinds)), r.IntN(len(serverKinds))}, insecure: ins})
					next(c33Case{route: "bootstrapped", servers: []int{s, 0}, insecure: ins})
				}
			}
			// each way of giving a certificate to a server that asks, and to one that does not
			for _, cc := range c.files.good {
				for _, route := range []string{"explicit", "url", "redirected", "bootstrapped"} {
					c.one(r, c33Case{route: route, servers: []int{0}, insecure: r.Chance(0.3), cert: cc, asks: r.Chance(0.8), maxTLS: pick(r, []uint16{0, tls.VersionTLS12})}, false)
				}
			}
			for k, cc := range c.files.bad {
				c.bad(r, cc, (k+i)%13 == 0, false)
			}
			// The sandbox ignores complete PEM pairs; all else that is unusable still fails the run.
			for k, cc := range c.files.badSandboxed {
				c.bad(r, cc, (k+i)%13 == 0, true)
			}
		}
	})
}
