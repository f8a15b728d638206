package harness

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sync"

	"github.com/openrdap/rdap/bootstrap"
)

// svc is one service of a registry file.
type svc struct {
	Entries []string
	URLs    []string
}

// regDoc renders a registry file; three selects the object-tags layout.
func regDoc(svcs []svc, three bool, extra map[string]any) []byte {
	var services []any
	for _, s := range svcs {
		e, u := s.Entries, s.URLs
		if e == nil {
			e = []string{}
		}
		if u == nil {
			u = []string{}
		}
		if three {
			services = append(services, []any{[]string{"admin@example.net"}, e, u})
		} else {
			services = append(services, []any{e, u})
		}
	}
	if services == nil {
		services = []any{}
	}
	doc := map[string]any{"version": "1.0", "publication": "2026-01-02T03:04:05Z", "description": "generated", "services": services}
	for k, v := range extra {
		doc[k] = v
	}
	return mustJSON(doc)
}

var urlSerial int

// genURLs returns n distinct, parseable base URLs.
func genURLs(r *Rand, n int) []string {
	var out []string
	for range n {
		urlSerial++
		scheme := pick(r, []string{"https", "https", "http"})
		host := fmt.Sprintf("r%d.example", urlSerial)
		if r.Chance(0.05) {
			host = pick(r, []string{fmt.Sprintf("R%d.Example", urlSerial), fmt.Sprintf("[2001:db8::%x]", urlSerial&0xffff), fmt.Sprintf("u:p@r%d.example", urlSerial), "10.0.0.1", fmt.Sprintf("xn--e1afmkfd%d.example", urlSerial), "localhost"})
		}
		if r.Chance(0.1) {
			host += ":8443"
		}
		path := pick(r, []string{"/", "", "/rdap/", "/rdap", "/a/b/c/", "/x%2Fy/", "/v1/?k=v", "//", "/a//b", "/a/../b/", "/#f", "/a b", "/\u00e9/", "?q", "/.", "/rdap/v1.0/", "/%C3%A9"})
		if dictChance(r, 0.03) {
			path = "/" + url.PathEscape(r.word("w")) + "/"
		}
		out = append(out, scheme+"://"+host+path)
	}
	return out
}

func urlStrings(us []*url.URL) []string {
	out := []string{}
	for _, u := range us {
		out = append(out, u.String())
	}
	return out
}

func normURLs(raw []string) []string {
	out := []string{}
	for _, s := range raw {
		u, err := url.Parse(s)
		if err != nil {
			continue
		}
		out = append(out, u.String())
	}
	return out
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- scripted HTTP transport -------------------------------------------------

type httpEvent struct {
	Method string
	URL    string
	Header http.Header
	Req    *http.Request
}

// script is a RoundTripper answering from a function and recording every request.
type script struct {
	mu     sync.Mutex
	events []httpEvent
	bodies []*trackedBody
	fn     func(req *http.Request) (*http.Response, error)
}

func (s *script) RoundTrip(req *http.Request) (*http.Response, error) {
	s.mu.Lock()
	s.events = append(s.events, httpEvent{req.Method, req.URL.String(), req.Header.Clone(), req})
	fn := s.fn
	s.mu.Unlock()
	resp, err := fn(req)
	if resp != nil {
		if resp.Request == nil {
			resp.Request = req
		}
		tb := &trackedBody{rc: resp.Body, url: req.URL.String(), status: resp.StatusCode}
		resp.Body = tb
		s.mu.Lock()
		s.bodies = append(s.bodies, tb)
		s.mu.Unlock()
	}
	return resp, err
}

func (s *script) urls() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := []string{}
	for _, e := range s.events {
		out = append(out, e.URL)
	}
	return out
}

func (s *script) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.events)
}

func (s *script) reset() {
	s.mu.Lock()
	s.events = nil
	s.mu.Unlock()
}

func (s *script) client() *http.Client { return &http.Client{Transport: s} }

type trackedBody struct {
	mu     sync.Mutex
	rc     io.ReadCloser
	url    string
	status int
	closed int
	read   int
}

func (b *trackedBody) Read(p []byte) (int, error) {
	n, err := b.rc.Read(p)
	b.mu.Lock()
	b.read += n
	b.mu.Unlock()
	return n, err
}

func (b *trackedBody) Close() error {
	b.mu.Lock()
	b.closed++
	b.mu.Unlock()
	return b.rc.Close()
}

func httpResp(status int, body []byte, header map[string]string) *http.Response {
	h := http.Header{}
	h.Set("Content-Type", "application/rdap+json")
	for k, v := range header {
		h.Set(k, v)
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), StatusCode: status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)),
	}
}

// brokenBody yields data and then fails with err.
type brokenBody struct {
	data []byte
	err  error
}

func (b *brokenBody) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		return 0, b.err
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	return n, nil
}
func (b *brokenBody) Close() error { return nil }

var allRegistries = []bootstrap.RegistryType{bootstrap.DNS, bootstrap.IPv4, bootstrap.IPv6, bootstrap.ASN, bootstrap.ServiceProvider}

var registryFile = map[bootstrap.RegistryType]string{
	bootstrap.DNS: "dns.json", bootstrap.IPv4: "ipv4.json", bootstrap.IPv6: "ipv6.json",
	bootstrap.ASN: "asn.json", bootstrap.ServiceProvider: "object-tags.json",
}

// taggedDoc is a registry file of the given type in which every URL carries tag.
// The entries cover the questions returned by taggedQuestion.
func taggedDoc(t bootstrap.RegistryType, tag string) []byte {
	u := func(n int) []string {
		return []string{fmt.Sprintf("https://%s.example/%s/%d/", tag, registryFile[t], n), fmt.Sprintf("http://%s.example/%s/%d/", tag, registryFile[t], n)}
	}
	x := map[string]any{"description": tag}
	switch t {
	case bootstrap.DNS:
		return regDoc([]svc{{[]string{"com", "net"}, u(1)}, {[]string{"example.org"}, u(2)}}, false, x)
	case bootstrap.IPv4:
		return regDoc([]svc{{[]string{"10.0.0.0/8"}, u(1)}, {[]string{"192.0.2.0/24", "198.51.100.0/24"}, u(2)}}, false, x)
	case bootstrap.IPv6:
		return regDoc([]svc{{[]string{"2001:db8::/32"}, u(1)}, {[]string{"2c00::/12"}, u(2)}}, false, x)
	case bootstrap.ASN:
		return regDoc([]svc{{[]string{"1-100"}, u(1)}, {[]string{"2856", "64512-65534"}, u(2)}}, false, x)
	default:
		return regDoc([]svc{{[]string{"VRSN"}, u(1)}, {[]string{"ARIN", "RIPE"}, u(2)}}, true, x)
	}
}

// taggedQuestion returns a question of type t and the service number it must be answered from.
func taggedQuestion(r *Rand, t bootstrap.RegistryType) (string, int) {
	n := r.Range(1, 2)
	qs := map[bootstrap.RegistryType][2][]string{
		bootstrap.DNS:             {{"a.com", "B.Net."}, {"example.org", "www.example.org"}},
		bootstrap.IPv4:            {{"10.1.2.3", "10.0.0.0/9"}, {"192.0.2.7", "198.51.100.0/25"}},
		bootstrap.IPv6:            {{"2001:db8::1", "2001:db8::/48"}, {"2c00::1", "2c0f:1::/40"}},
		bootstrap.ASN:             {{"5", "AS100"}, {"as2856", "65000"}},
		bootstrap.ServiceProvider: {{"1-VRSN", "a-b-VRSN"}, {"9-ARIN", "z-RIPE"}},
	}
	return pick(r, qs[t][n-1]), n
}

func taggedURLs(t bootstrap.RegistryType, tag string, n int) []string {
	return []string{fmt.Sprintf("https://%s.example/%s/%d/", tag, registryFile[t], n), fmt.Sprintf("http://%s.example/%s/%d/", tag, registryFile[t], n)}
}
