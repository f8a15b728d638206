package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"regexp"
	"strings"
	"testing"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

// behaviour is what one RDAP server does with the request.
type behaviour struct {
	name  string
	what  string // "answer", "gone", "next"
	wrong bool   // the attempt itself must be recorded with an error
	body  string
	cut   bool     // body may be recorded partially
	via   []string // the server first redirects through these URLs
	do    func() (*http.Response, error)
}

func okDoc(tag string) string {
	return `{"objectClassName":"domain","handle":"` + tag + `","ldhName":"a.example"}`
}

func statusB(code int, body, what string, wrong bool) behaviour {
	return behaviour{name: fmt.Sprintf("%d(%.24s)", code, body), what: what, wrong: wrong, body: body,
		do: func() (*http.Response, error) { return httpResp(code, []byte(body), nil), nil }}
}

func cutB(code int, sent string) behaviour {
	return behaviour{name: fmt.Sprintf("%d cut short", code), what: "next", wrong: true, body: sent, cut: true, do: func() (*http.Response, error) {
		r := httpResp(code, nil, nil)
		r.ContentLength = -1
		r.Body = &brokenBody{data: []byte(sent), err: io.ErrUnexpectedEOF}
		return r, nil
	}}
}

// viaB is b after one or more redirects, to the same or to other hosts.
func viaB(r *Rand, b behaviour) behaviour {
	for range r.Range(1, 3) {
		b.via = append(b.via, pick(r, []string{"", "", "https://s0.example", "http://s1.example", "https://other.example:8443"})+fmt.Sprintf("/hop-%d", r.IntN(100000)))
	}
	b.name += fmt.Sprintf(" via %v", b.via)
	return b
}

func c14Behaviours() []behaviour {
	return []behaviour{
		statusB(200, okDoc("one"), "answer", false),
		statusB(404, "", "gone", false),
		statusB(500, okDoc("never500"), "next", false),
		{name: "transport error", what: "next", wrong: true, do: func() (*http.Response, error) { return nil, errors.New("scripted: connection refused") }},
		statusB(200, "", "next", false),
		statusB(200, "<html>not json</html>", "next", true),
		cutB(200, okDoc("cut")[:20]),
		statusB(200, `{"objectClassName":"spaceship"}`, "next", true),
		statusB(404, okDoc("never404"), "gone", false),
		statusB(299, okDoc("two"), "answer", false),
		statusB(302, okDoc("never302"), "next", false),
		statusB(429, "", "next", false),
	}
}

func c14More() []behaviour {
	out := []behaviour{
		statusB(203, `{"errorCode":404,"title":"nope"}`, "answer", false),
		statusB(206, `{}`, "answer", false),
		statusB(200, `[]`, "next", true),
		statusB(200, `"x"`, "next", true),
		statusB(200, `{"objectClassName":7}`, "next", true),
		statusB(200, okDoc("x")+"trailing", "next", true),
		statusB(200, okDoc("x")[:10], "next", true),
		statusB(204, "", "next", false),
		cutB(500, "x"),
		cutB(200, okDoc("whole but then reset")),
	}
	for _, c := range []int{300, 304, 400, 401, 403, 405, 410, 418, 451, 501, 502, 503, 504, 599} {
		out = append(out, statusB(c, okDoc("never"), "next", false), statusB(c, "", "next", false))
	}
	for _, c := range []int{201, 202, 226, 250} {
		out = append(out, statusB(c, okDoc("2xx"), "answer", false))
	}
	return out
}

var c14Bodies = []struct {
	body string
	good bool // decodes to an RDAP response
}{
	{"", false}, {okDoc("d"), true}, {`{"errorCode":%d,"title":"t","description":["d"]}`, true}, {`{"rdapConformance":["x"],"notices":[]}`, true},
	{`{"objectClassName":"ip network","handle":"N"}`, true}, {`{"domainSearchResults":[]}`, true}, {`{"objectClassName":"banana"}`, false}, {`{"objectClassName":null}`, false},
	{"<html><body>error</body></html>", false}, {"[]", false}, {okDoc("d") + "}", false}, {" \n", false}, {"\"ok\"", false}, {"x", false}, {"{", false}, {"\n", false}, {"0", false}, {"\x00", false}, {"{}", true}, {"\ufeff{}", false},
}

var c14Types = []string{"application/rdap+json", "application/rdap+json; charset=utf-8", "application/json", "text/html", "text/plain", "", "application/problem+json", "APPLICATION/RDAP+JSON"}

// c14Any builds the behaviour of an arbitrary status, body and set of headers.
func c14Any(r *Rand, code, bi int) behaviour {
	body := c14Bodies[bi].body
	if strings.Contains(body, "%d") {
		body = fmt.Sprintf(body, code)
	}
	h := map[string]string{"Content-Type": pick(r, c14Types)}
	if r.Chance(0.3) {
		h["Retry-After"] = pick(r, []string{"0", "1", "120", "Wed, 21 Oct 2015 07:28:00 GMT"})
	}
	if r.Chance(0.2) {
		k := pick(r, []string{"Link", "X-Error", "Warning", "Cache-Control", "Server", "WWW-Authenticate", "Access-Control-Allow-Origin"})
		h[k] = pick(r, []string{"*", "no-store", "Basic realm=x", "<https://other.example/>; rel=alternate"})
	}
	b := behaviour{body: body, what: "next", name: fmt.Sprintf("%d(%.30s %v)", code, body, h),
		do: func() (*http.Response, error) { return httpResp(code, []byte(body), h), nil }}
	switch {
	case code == 404:
		b.what = "gone"
	case code >= 200 && code <= 299 && body != "":
		b.wrong = !c14Bodies[bi].good
		if !b.wrong {
			b.what = "answer"
		}
	}
	return b
}

type bootKind struct {
	reg   bootstrap.RegistryType
	typ   rdap.RequestType
	query string
	entry string
	path  string
}

var bootKinds = []bootKind{
	{bootstrap.DNS, rdap.DomainRequest, "a.example", "example", "domain/a.example"},
	{bootstrap.IPv4, rdap.IPRequest, "10.1.2.3", "10.0.0.0/8", "ip/10.1.2.3"},
	{bootstrap.IPv6, rdap.IPRequest, "2001:db8::1", "2001:db8::/32", "ip/2001:db8::1"},
	{bootstrap.ASN, rdap.AutnumRequest, "5", "1-100", "autnum/5"},
	{bootstrap.ServiceProvider, rdap.EntityRequest, "1-VRSN", "VRSN", "entity/1-VRSN"},
}

// moreKinds are other spellings of queries of those types.
var moreKinds = []bootKind{
	{bootstrap.DNS, rdap.DomainRequest, "www.A.Example", "example", "domain/www.A.Example"},
	{bootstrap.DNS, rdap.DomainRequest, "example.", "example", "domain/example."},
	{bootstrap.DNS, rdap.DomainRequest, "10.1.2.3.in-addr.arpa", "in-addr.arpa", "domain/10.1.2.3.in-addr.arpa"},
	{bootstrap.DNS, rdap.DomainRequest, "2001:db8::1.example", "example", "domain/2001:db8::1.example"},
	{bootstrap.DNS, rdap.DomainRequest, "AS5.example", "example", "domain/AS5.example"},
	{bootstrap.IPv4, rdap.IPRequest, "10.255.0.0/16", "10.0.0.0/8", "ip/10.255.0.0/16"},
	{bootstrap.IPv4, rdap.IPRequest, "0.0.0.0", "0.0.0.0/0", "ip/0.0.0.0"},
	{bootstrap.IPv4, rdap.IPRequest, "255.255.255.255/32", "128.0.0.0/1", "ip/255.255.255.255/32"},
	{bootstrap.IPv6, rdap.IPRequest, "::", "::/0", "ip/::"},
	{bootstrap.IPv6, rdap.IPRequest, "::1", "::/8", "ip/::1"},
	{bootstrap.IPv6, rdap.IPRequest, "64:ff9b::192.0.2.33", "64:ff9b::/96", "ip/64:ff9b::192.0.2.33"},
	{bootstrap.IPv6, rdap.IPRequest, "2001:db8:1:2:3:4:192.0.2.33", "2001:db8::/32", "ip/2001:db8:1:2:3:4:192.0.2.33"},
	{bootstrap.IPv6, rdap.IPRequest, "1:2:3:4:5:6:7:8", "1::/16", "ip/1:2:3:4:5:6:7:8"},
	{bootstrap.IPv6, rdap.IPRequest, "2001:db8:1:2:3:4:5::", "2001:db8::/32", "ip/2001:db8:1:2:3:4:5::"},
	{bootstrap.IPv6, rdap.IPRequest, "2001:db8:1:2:3:4:255.255.255.0/120", "2001:db8::/32", "ip/2001:db8:1:2:3:4:255.255.255.0/120"},
	{bootstrap.IPv6, rdap.IPRequest, "FE80::1", "fe80::/10", "ip/FE80::1"},
	{bootstrap.IPv6, rdap.IPRequest, "abcd::/16", "a000::/4", "ip/abcd::/16"},
	{bootstrap.IPv6, rdap.IPRequest, "2001:db8:0:0:0:0:0:1/128", "2001:db8::/32", "ip/2001:db8:0:0:0:0:0:1/128"},
	{bootstrap.ASN, rdap.AutnumRequest, "4294967295", "4294967295", "autnum/4294967295"},
	{bootstrap.ASN, rdap.AutnumRequest, "AS5", "1-100", "autnum/AS5"},
	{bootstrap.ASN, rdap.AutnumRequest, "0", "0-0", "autnum/0"},
	{bootstrap.ServiceProvider, rdap.EntityRequest, "10.0.0.1-ARIN", "ARIN", "entity/10.0.0.1-ARIN"},
	{bootstrap.ServiceProvider, rdap.EntityRequest, "a.example-X", "X", "entity/a.example-X"},
	{bootstrap.ServiceProvider, rdap.EntityRequest, "x~Y", "Y", "entity/x~Y"},
}

func anyKind(r *Rand) bootKind {
	if r.Chance(0.4) {
		return pick(r, moreKinds)
	}
	return pick(r, bootKinds)
}

func clientErrorType(err error) rdap.ClientErrorType {
	var ce *rdap.ClientError
	if errors.As(err, &ce) {
		return ce.Type
	}
	var cv rdap.ClientError
	if errors.As(err, &cv) {
		return cv.Type
	}
	return 0
}

func c14One(m *M, k bootKind, servers []string, bs []behaviour, explicit bool) {
	var names []string
	for _, b := range bs {
		names = append(names, b.name)
	}
	kase := fmt.Sprintf("type=%s query=%s explicit=%v servers=%v behaviours=%v", k.typ, k.query, explicit, servers, names)
	m.Try("C14 "+kase, func() {
		var rdapCalls, hops []string
		i := 0
		srv := &script{}
		redirect := func() (*http.Response, error) {
			to := hops[0]
			hops = hops[1:]
			m.Count("redirects_followed", 1)
			return httpResp([]int{301, 302, 303, 307, 308}[len(to)%5], []byte(okDoc("moved")), map[string]string{"Location": to}), nil
		}
		doc := regDoc([]svc{{[]string{k.entry}, servers}}, k.reg == bootstrap.ServiceProvider, nil)
		decoy := regDoc([]svc{{[]string{"0.0.0.0/0", "::/0", "", "0-4294967295"}, []string{"https://wrong.example/"}}}, false, nil)
		srv.fn = func(req *http.Request) (*http.Response, error) {
			if req.URL.Host == "boot.example" {
				if strings.HasSuffix(req.URL.Path, "/"+registryFile[k.reg]) {
					return httpResp(200, doc, nil), nil
				}
				return httpResp(200, decoy, nil), nil // another type's file, listing everything
			}
			if strings.Contains(req.URL.Path, "/hop-") {
				if len(hops) > 0 {
					return redirect()
				}
				return bs[i-1].do()
			}
			rdapCalls = append(rdapCalls, req.Method+" "+req.URL.String())
			if i >= len(bs) {
				return httpResp(500, nil, nil), nil
			}
			i++
			if hops = bs[i-1].via; len(hops) > 0 {
				return redirect()
			}
			return bs[i-1].do()
		}
		c := &rdap.Client{HTTP: srv.client(), Bootstrap: &bootstrap.Client{HTTP: srv.client(), BaseURL: mustURL("https://boot.example/b/")}}
		req := &rdap.Request{Type: k.typ, Query: k.query}
		if explicit {
			req.Server = mustURL(servers[0])
		}
		resp, err := c.Do(req)

		// what must have happened
		n, final := len(bs), "none"
		for j, b := range bs {
			if b.what != "next" {
				n, final = j+1, b.what
				break
			}
		}
		m.Saw(kase, len(bs) > 1)
		m.Count("attempts_observed", len(rdapCalls))
		m.Count("ends_"+final, 1)
		m.Sample(kase)
		var want []string
		for _, s := range servers[:n] {
			want = append(want, "GET "+strings.TrimSuffix(s, "/")+"/"+k.path)
		}
		if !eqStrings(want, rdapCalls) {
			m.Violate("the servers contacted are not those due, in order", kase, want, rdapCalls)
			return
		}
		switch final {
		case "answer":
			if err != nil || resp == nil || resp.Object == nil {
				m.Violate("a usable answer was not returned", kase, "object", fmt.Sprint(err))
				return
			}
			w, _ := rdap.NewDecoder([]byte(bs[n-1].body)).Decode()
			if dump(w) != dump(resp.Object) {
				m.Violate("the returned object is not the answering server's", kase, dump(w), dump(resp.Object))
			}
		case "gone":
			if err == nil || clientErrorType(err) != rdap.ObjectDoesNotExist {
				m.Violate("a 404 is not reported as object does not exist", kase, "ObjectDoesNotExist", fmt.Sprint(err))
			}
		default:
			if err == nil || clientErrorType(err) != rdap.NoWorkingServers {
				m.Violate("exhausting all servers is not reported as no working servers", kase, "NoWorkingServers", fmt.Sprint(err))
			}
		}
		if resp == nil {
			m.Violate("no response records the attempts made", kase, n, nil)
			return
		}
		if len(resp.HTTP) != n {
			m.Violate("the response does not record exactly the attempts made", kase, n, len(resp.HTTP))
			return
		}
		for j, h := range resp.HTTP {
			b := bs[j]
			if "GET "+h.URL != want[j] {
				m.Violate("attempt recorded with another URL", kase, want[j], h.URL)
			}
			if b.wrong != (h.Error != nil) {
				m.Violate("attempt recorded with the wrong error", fmt.Sprintf("%s attempt %d", kase, j), b.wrong, fmt.Sprint(h.Error))
			}
			if b.cut {
				if !strings.HasPrefix(b.body, string(h.Body)) {
					m.Violate("attempt recorded with a body not received", kase, b.body, string(h.Body))
				}
			} else if string(h.Body) != b.body {
				m.Violate("attempt recorded with another body", fmt.Sprintf("%s attempt %d", kase, j), b.body, string(h.Body))
			}
		}
		if !explicit {
			if resp.BootstrapAnswer == nil || !eqStrings(urlStrings(resp.BootstrapAnswer.URLs), normURLs(servers)) {
				m.Violate("the bootstrap answer is not recorded", kase, servers, fmt.Sprint(resp.BootstrapAnswer))
			}
		}
	})
}

func c14Servers(r *Rand, n int) []string {
	var out []string
	for i := range n {
		s := fmt.Sprintf("%s://s%d.example%s", pick(r, []string{"https", "http"}), i, pick(r, []string{"/", "", "/rdap/", "/v1"}))
		if i > 0 && r.Chance(0.15) {
			s = out[r.IntN(i)]
		}
		out = append(out, s)
	}
	return out
}

func TestC14(t *testing.T) {
	monitor(t, "C14", "an online model of the try-in-order rule against recorded request streams: every combination of 12 server behaviours for 1 to 3 servers (4 in the thorough tier), plus random lists of up to 8 servers over 40+ behaviours (statuses 200-599, empty, cut, undecodable, transport failure), duplicates, all bootstrap types and explicit servers; requests that need a server must contact nobody. Non-trivial: at least two servers. Distinct by (type, servers, behaviours).", 1500, func(m *M) {
		r := NewRand(m.Seed, "C14")
		base := c14Behaviours()
		var rec func(pre []behaviour, left int)
		c := 0
		rec = func(pre []behaviour, left int) {
			if len(pre) > 0 {
				k := bootKinds[c%len(bootKinds)]
				c++
				c14One(m, k, c14Servers(r, len(pre)), pre, false)
				if len(pre) == 1 {
					for _, k := range bootKinds {
						c14One(m, k, c14Servers(r, 1), pre, false)
						c14One(m, k, c14Servers(r, 1), pre, true)
					}
				}
			}
			if left == 0 {
				return
			}
			for _, b := range base {
				rec(append(append([]behaviour{}, pre...), b), left-1)
			}
		}
		depth := 3
		if m.Thorough {
			depth = 4
		}
		rec(nil, depth)
		all := append(base, c14More()...)
		for _, b := range all {
			for _, k := range bootKinds {
				c14One(m, k, c14Servers(r, 2), []behaviour{b, base[0]}, false)
			}
			c14One(m, bootKinds[0], c14Servers(r, 1), []behaviour{b}, true)
		}
		for range m.N(1500) {
			n := r.Range(2, 8)
			var bs []behaviour
			for range n {
				b := pick(r, all)
				if b.what != "next" && r.Chance(0.7) {
					b = pick(r, all)
				}
				if r.Chance(0.25) {
					b = viaB(r, b)
				}
				bs = append(bs, b)
			}
			c14One(m, anyKind(r), c14Servers(r, n), bs, false)
		}
		// every status with every kind of body, labelled in many ways, in front of a server that answers
		for code := 200; code <= 599; code++ {
			for bi := range c14Bodies {
				if !m.Thorough && r.Chance(0.5) {
					continue
				}
				k := anyKind(r)
				c14One(m, k, c14Servers(r, 2), []behaviour{c14Any(r, code, bi), base[0]}, false)
				m.Count("status_body_pairs", 1)
			}
		}
		for range m.N(600) { // long lists of failing servers
			n := pick(r, []int{3, 5, 9, 10, 11, 16, 17, 20, 33, 40, 65})
			var bs []behaviour
			for len(bs) < n {
				b := c14Any(r, r.Range(200, 599), r.IntN(len(c14Bodies)))
				if b.what == "next" || len(bs) == n-1 {
					bs = append(bs, b)
				}
			}
			c14One(m, anyKind(r), c14Servers(r, n), bs, false)
		}
		for _, k := range moreKinds {
			c14One(m, k, c14Servers(r, 2), []behaviour{base[3], base[0]}, false)
			c14One(m, k, c14Servers(r, 2), []behaviour{viaB(r, base[2]), viaB(r, base[0])}, false)
			c14One(m, k, c14Servers(r, 2), []behaviour{viaB(r, base[1]), base[0]}, false)
		}
		c14NoServer(m, r)
		c14Real(m, r)
		c14Big(m, r)
	})
}

// c14NoServer: requests without a usable server contact no RDAP server.
func c14NoServer(m *M, r *Rand) {
	run := func(kase string, req *rdap.Request, reg func(*http.Request) (*http.Response, error), wantType rdap.ClientErrorType, maxReg int) {
		m.Try("C14 "+kase, func() {
			srv := &script{}
			srv.fn = func(req *http.Request) (*http.Response, error) {
				if req.URL.Host == "boot.example" {
					return reg(req)
				}
				return httpResp(200, []byte(okDoc("bad")), nil), nil
			}
			c := &rdap.Client{HTTP: srv.client(), Bootstrap: &bootstrap.Client{HTTP: srv.client(), BaseURL: mustURL("https://boot.example/b/")}}
			resp, err := c.Do(req)
			m.Saw(kase, true)
			m.Count("no_server_cases", 1)
			if err == nil {
				m.Violate("a request with no usable server succeeded", kase, "error", dump(resp.Object))
			}
			if wantType != 0 && clientErrorType(err) != wantType {
				m.Violate("wrong kind of error", kase, wantType, fmt.Sprintf("%d %v", clientErrorType(err), err))
			}
			reg := 0
			for _, u := range srv.urls() {
				if strings.HasPrefix(u, "https://boot.example/") {
					reg++
				} else {
					m.Violate("a server was contacted although none was determined", kase, "none", u)
				}
			}
			if reg > maxReg {
				m.Violate("the bootstrap service was contacted needlessly", kase, maxReg, reg)
			}
		})
	}
	okReg := func(req *http.Request) (*http.Response, error) {
		for _, t := range allRegistries {
			if strings.HasSuffix(req.URL.Path, "/"+registryFile[t]) {
				return httpResp(200, taggedDoc(t, "zz"), nil), nil
			}
		}
		return httpResp(404, nil, nil), nil
	}
	boot := map[rdap.RequestType]bool{rdap.DomainRequest: true, rdap.IPRequest: true, rdap.AutnumRequest: true, rdap.EntityRequest: true}
	types := append([]reqType{{t: rdap.RawRequest}}, reqTypes...)
	for _, rt := range types {
		if boot[rt.t] {
			continue
		}
		for _, text := range []string{"", "a.example", "10.0.0.1", "AS5", "1-VRSN", hostileText(r)} {
			run(fmt.Sprintf("unsupported %s %q", rt.t, text), &rdap.Request{Type: rt.t, Query: text}, okReg, rdap.BootstrapNotSupported, 0)
		}
	}
	noMatch := map[rdap.RequestType][]string{
		rdap.DomainRequest: {"a.nosuchtld", "xcom", "", ".", "com.org"},
		rdap.IPRequest:     {"172.16.0.1", "2a00::1", "192.0.3.0/24", "10.0.0.0/7"},
		rdap.AutnumRequest: {"101", "0", "4294967295", "AS65535"},
		rdap.EntityRequest: {"abc", "abc-XXXX", "", "-"},
	}
	bad := map[rdap.RequestType][]string{
		rdap.IPRequest:     {"", "x", "300.1.1.1", "10.0.0.1/33", "1:2:3", "a:b"},
		rdap.AutnumRequest: {"", "x", "AS", "4294967296", "-1", "1.5"},
	}
	for _, rt := range types {
		for _, text := range noMatch[rt.t] {
			run(fmt.Sprintf("no match %s %q", rt.t, text), &rdap.Request{Type: rt.t, Query: text}, okReg, rdap.BootstrapNoMatch, 1)
		}
		for _, text := range bad[rt.t] {
			run(fmt.Sprintf("bad query %s %q", rt.t, text), &rdap.Request{Type: rt.t, Query: text}, okReg, 0, 1)
		}
	}
	for _, k := range bootKinds {
		for name, f := range map[string]func(*http.Request) (*http.Response, error){
			"500":     func(*http.Request) (*http.Response, error) { return httpResp(500, nil, nil), nil },
			"error":   offline,
			"garbage": func(*http.Request) (*http.Response, error) { return httpResp(200, []byte("{"), nil), nil },
			"nourls": func(*http.Request) (*http.Response, error) {
				return httpResp(200, regDoc([]svc{{[]string{k.entry}, nil}}, k.reg == bootstrap.ServiceProvider, nil), nil), nil
			},
		} {
			wt := rdap.ClientErrorType(0)
			if name == "nourls" {
				wt = rdap.BootstrapNoMatch
			}
			run("registry "+name+" "+k.query, &rdap.Request{Type: k.typ, Query: k.query}, f, wt, 1)
		}
	}
	run("nil request", nil, okReg, rdap.InputError, 0)
}

// c14Real repeats some orders over real loopback servers.
func c14Real(m *M, r *Rand) {
	type rec struct{ host, path string }
	for i := range m.N(25) {
		n := r.Range(1, 4)
		var seen []string
		var hs []*httptest.Server
		var urls []string
		kinds := []string{"ok", "404", "500", "hangup", "short", "garbage"}
		var plan []string
		for j := range n {
			kd := pick(r, kinds[:])
			if j < n-1 && r.Chance(0.7) {
				kd = pick(r, kinds[2:])
			}
			plan = append(plan, kd)
			s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				seen = append(seen, fmt.Sprintf("%d%s", j, req.URL.Path))
				switch kd {
				case "ok":
					io.WriteString(w, okDoc(fmt.Sprint(j)))
				case "404":
					w.WriteHeader(404)
				case "500":
					w.WriteHeader(500)
				case "garbage":
					io.WriteString(w, "<html>")
				case "short":
					w.Header().Set("Content-Length", "500")
					io.WriteString(w, okDoc(fmt.Sprint(j)))
				case "hangup":
					if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
						c.Close()
					}
				}
			}))
			hs = append(hs, s)
			urls = append(urls, s.URL+"/base/")
		}
		kase := fmt.Sprintf("loopback %v", plan)
		m.Try("C14 "+kase, func() {
			boot := &script{fn: func(*http.Request) (*http.Response, error) {
				return httpResp(200, regDoc([]svc{{[]string{"example"}, urls}}, false, nil), nil), nil
			}}
			c := &rdap.Client{HTTP: &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}, Bootstrap: &bootstrap.Client{HTTP: boot.client()}}
			resp, err := c.Do(&rdap.Request{Type: rdap.DomainRequest, Query: "a.example"})
			m.Saw(fmt.Sprint(i, kase), n > 1)
			m.Count("loopback_histories", 1)
			var want []string
			end := "none"
			for j, kd := range plan {
				want = append(want, fmt.Sprintf("%d/base/domain/a.example", j))
				if kd == "ok" || kd == "404" {
					end = kd
					break
				}
			}
			if !eqStrings(want, seen) {
				m.Violate("requests received by the servers", kase, want, seen)
			}
			switch end {
			case "ok":
				if d, ok := objDomain(resp); err != nil || !ok || d.Handle != fmt.Sprint(len(want)-1) {
					m.Violate("wrong object", kase, len(want)-1, fmt.Sprint(err))
				}
			case "404":
				if clientErrorType(err) != rdap.ObjectDoesNotExist {
					m.Violate("wrong error", kase, "ObjectDoesNotExist", fmt.Sprint(err))
				}
			default:
				if clientErrorType(err) != rdap.NoWorkingServers {
					m.Violate("wrong error", kase, "NoWorkingServers", fmt.Sprint(err))
				}
			}
			if resp == nil || len(resp.HTTP) != len(want) {
				m.Violate("attempts recorded", kase, len(want), resp)
			}
		})
		for _, s := range hs {
			s.Close()
		}
	}
	_ = rec{}
}

func objDomain(resp *rdap.Response) (*rdap.Domain, bool) {
	if resp == nil {
		return nil, false
	}
	d, ok := resp.Object.(*rdap.Domain)
	return d, ok
}

// ---- C15

type helper struct {
	name  string
	class string
	typ   rdap.RequestType
	call  func(c *rdap.Client, q string) (any, bool, error) // object, non-nil?, error
}

var helpers = []helper{
	{"QueryDomain", "domain", rdap.DomainRequest, func(c *rdap.Client, q string) (any, bool, error) {
		o, err := c.QueryDomain(q)
		return o, o != nil, err
	}},
	{"QueryAutnum", "autnum", rdap.AutnumRequest, func(c *rdap.Client, q string) (any, bool, error) {
		o, err := c.QueryAutnum(q)
		return o, o != nil, err
	}},
	{"QueryIP", "ip network", rdap.IPRequest, func(c *rdap.Client, q string) (any, bool, error) {
		o, err := c.QueryIP(q)
		return o, o != nil, err
	}},
}

func TestC15(t *testing.T) {
	monitor(t, "C15", "the three helpers against scripted servers returning every response type, generated error objects (codes, titles and descriptions incl. hostile text), every failing behaviour of C14 and failing registries; result, error kind and text and the recorded wire requests are compared with an explicit request of that type. Non-trivial: the answer is not simply the expected object. Distinct by (helper, query, answer).", 400, func(m *M) {
		r := NewRand(m.Seed, "C15")
		queries := map[string][][2]string{ // query as given, as an explicit request
			"QueryDomain": {{"a.example", "a.example"}, {"A.Example", "A.Example"}, {"b\u00fccher.example", "b\u00fccher.example"}, {"a b/c.example", "a b/c.example"}, {"a.example.", "a.example."}},
			"QueryAutnum": {{"5", "5"}, {"AS5", "5"}, {"as99", "99"}, {"aS100", "100"}, {"AS0001", "1"}, {"0077", "77"}},
			"QueryIP":     {{"10.1.2.3", "10.1.2.3"}, {"2001:db8::1", "2001:db8::1"}, {"10.0.0.0/9", "10.0.0.0/9"}, {"2001:DB8::/48", "2001:DB8::/48"}, {"2001:db8::192.0.2.1", "2001:db8::192.0.2.1"}, {"2001:0db8:0:0:0:0:0:1", "2001:0db8:0:0:0:0:0:1"}, {"10.1.2.3/32", "10.1.2.3/32"}, {"10.1.2.3/8", "10.1.2.3/8"}},
		}
		var answers []behaviour
		for _, b := range append(c14Behaviours(), c14More()...) {
			answers = append(answers, b)
		}
		for code := 200; code <= 599; code++ {
			answers = append(answers, c14Any(r, code, r.IntN(len(c14Bodies))))
		}
		answers = shuffled(r, answers)
		n := m.N(2500)
		for i := range n {
			h := helpers[i%3]
			var a behaviour
			class := ""
			switch {
			case i < len(answers)*3:
				a = answers[i/3]
			case r.Chance(0.35):
				class = "error"
			case r.Chance(0.3):
				class = h.class
			default:
				class = pick(r, topClasses)
			}
			var doc *obj
			if class != "" {
				g := newDocGen(r)
				g.depth = 1
				g.hostile = r.Chance(0.3)
				doc = g.top(class)
				a = statusB(pick(r, []int{200, 200, 201}), string(render(r, doc)), "answer", false)
			}
			c15One(m, r, h, pick(r, queries[h.name]), a, doc, "")
		}
		for _, h := range helpers {
			for _, reg := range []string{"500", "error", "garbage", "nomatch"} {
				c15One(m, r, h, queries[h.name][0], statusB(200, okDoc("x"), "answer", false), nil, reg)
			}
			// error objects with unusual members
			for _, body := range []string{`{"errorCode":404}`, `{"errorCode":null,"title":"t1"}`, `{"errorCode":"429","title":"slow down","description":["a","b"]}`, `{"errorCode":"x"}`, `{"errorCode":{},"title":"t"}`, `{"errorCode":99999,"title":"big"}`, `{"errorCode":-5,"title":"neg"}`, `{"errorCode":1.5}`, `{"errorCode":0,"title":"%s%d","description":[]}`, `{"errorCode":500,"title":"x","description":null,"objectClassName":"domain"}`} {
				c15One(m, r, h, queries[h.name][0], statusB(200, body, "answer", false), nil, "")
			}
			for _, bad := range []string{"", "zz zz", "AS", "ASx", "4294967296", "10.0.0.0/99", "::g", " 10.1.2.3", "10.1.2.3 ", "10.1.2.3\n", "2001:db8::1%eth0", "10.1.2.3%x", "[2001:db8::1]", "10.1.2.3:43", "10.1.2", "010.1.2.3", "10.1.2.3/", "10.1.2.3/08", " a.example", "a.example ", "https://a.example/", "AS 5", "ASAS5", "AS+5", "+5", "5.0", "0x5", " 5", "5 ", "AS-5", "a.unlisted", "11.0.0.1", "2002::1", "101"} {
				c15Bad(m, h, bad)
			}
		}
	})
}

func c15Client(reg string, a behaviour) (*rdap.Client, *script) {
	srv := &script{}
	srv.fn = func(req *http.Request) (*http.Response, error) {
		if req.URL.Host == "boot.example" {
			switch reg {
			case "500":
				return httpResp(500, nil, nil), nil
			case "error":
				return nil, errors.New("scripted: no route")
			case "garbage":
				return httpResp(200, []byte("[1"), nil), nil
			case "nomatch":
				return httpResp(200, regDoc(nil, false, nil), nil), nil
			}
			for _, k := range bootKinds {
				if strings.HasSuffix(req.URL.Path, "/"+registryFile[k.reg]) {
					return httpResp(200, regDoc([]svc{{[]string{k.entry}, []string{"https://rdap.example/base/"}}}, k.reg == bootstrap.ServiceProvider, nil), nil), nil
				}
			}
			return httpResp(404, nil, nil), nil
		}
		return a.do()
	}
	return &rdap.Client{HTTP: srv.client(), UserAgent: "ua/1", Bootstrap: &bootstrap.Client{HTTP: srv.client(), BaseURL: mustURL("https://boot.example/b/")}}, srv
}

func eventsText(s *script) string {
	var sb strings.Builder
	for _, e := range s.events {
		fmt.Fprintf(&sb, "%s %s %v\n", e.Method, e.URL, e.Header)
	}
	return sb.String()
}

func c15One(m *M, r *Rand, h helper, qs [2]string, a behaviour, doc *obj, reg string) {
	kase := fmt.Sprintf("%s(%q) answer=%d %s registry=%s", h.name, qs[0], 0, a.name, reg)
	if doc != nil {
		kase = fmt.Sprintf("%s(%q) answer=%s", h.name, qs[0], a.body)
	}
	m.Try("C15 "+kase, func() {
		c, srv := c15Client(reg, a)
		o, nonNil, err := h.call(c, qs[0])
		ec, esrv := c15Client(reg, a)
		resp, rerr := ec.Do(&rdap.Request{Type: h.typ, Query: qs[1]})
		nt := doc == nil || doc.class != h.class
		m.Saw(kase, nt)
		m.Sample(kase)
		if got, want := eventsText(srv), eventsText(esrv); got != want {
			m.Violate("the helper's requests differ from an explicit request's", kase, want, got)
			return
		}
		if nonNil == (err != nil) {
			m.Violate("not exactly one of an object and an error was returned", kase, "one", fmt.Sprintf("object=%v err=%v", nonNil, err))
			return
		}
		if rerr != nil {
			m.Count("lower_level_failures", 1)
			if err == nil || clientErrorType(err) != clientErrorType(rerr) || fmt.Sprintf("%T", err) != fmt.Sprintf("%T", rerr) || err.Error() != rerr.Error() {
				m.Violate("a lower-level failure was not passed through", kase, fmt.Sprintf("%T %v", rerr, rerr), fmt.Sprintf("%T %v", err, err))
			}
			return
		}
		tn := fmt.Sprintf("%T", resp.Object)
		m.Count("answered_with_"+tn, 1)
		switch {
		case tn == classGoType[h.class]:
			if err != nil || dump(o) != dump(resp.Object) {
				m.Violate("the object was not returned", kase, dump(resp.Object), fmt.Sprint(err))
			}
		case tn == "*rdap.Error":
			e := resp.Object.(*rdap.Error)
			if clientErrorType(err) != rdap.RDAPServerError {
				m.Violate("an RDAP error object is not a server error", kase, "RDAPServerError", fmt.Sprintf("%T %v", err, err))
				return
			}
			var parts []string
			if e.ErrorCode != nil {
				parts = append(parts, fmt.Sprint(*e.ErrorCode))
			}
			parts = append(parts, e.Title)
			parts = append(parts, e.Description...)
			text := err.Error()
			rest := text
			for _, p := range parts {
				i := strings.Index(rest, p)
				if i < 0 {
					m.Violate("the server error does not quote the code, title and description", kase, parts, text)
					return
				}
				rest = rest[i+len(p):]
			}
			if e.ErrorCode != nil && !regexp.MustCompile(`\b`+parts[0]+`\b`).MatchString(text) {
				m.Violate("the server error does not quote the code", kase, parts, text)
			}
			m.Count("error_objects", 1)
		default:
			if clientErrorType(err) != rdap.WrongResponseType {
				m.Violate("another kind of object is not a wrong-type error", kase, "WrongResponseType", fmt.Sprintf("%T %v", err, err))
			}
		}
	})
}

// c15Bad: queries that cannot be bootstrapped.
func c15Bad(m *M, h helper, text string) {
	kase := fmt.Sprintf("%s(%q)", h.name, text)
	m.Try("C15 "+kase, func() {
		c, srv := c15Client("", statusB(200, okDoc("x"), "answer", false))
		_, nonNil, err := h.call(c, text)
		ec, esrv := c15Client("", statusB(200, okDoc("x"), "answer", false))
		_, rerr := ec.Do(&rdap.Request{Type: h.typ, Query: text})
		m.Saw(kase, true)
		if rerr == nil {
			return
		}
		if nonNil || err == nil || clientErrorType(err) != clientErrorType(rerr) {
			m.Violate("a lower-level failure was not passed through", kase, fmt.Sprint(rerr), fmt.Sprint(err))
		}
		if eventsText(srv) != eventsText(esrv) {
			m.Violate("the helper's requests differ from an explicit request's", kase, eventsText(esrv), eventsText(srv))
		}
	})
	_ = bytes.Equal
}
