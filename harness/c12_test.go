package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

type ctxKey string

func TestC12(t *testing.T) {
	monitor(t, "C12", "deep snapshots (unexported state included) of the caller's requests, server URLs, parameters, JSON bytes, decoded objects and registry answers around URL(), Do (explicit, bootstrapped, failing servers), Lookup, decode, print with every option, WHOIS conversion, card accessors and command line runs; each operation is repeated and compared. Non-trivial: the value has structure that could change (parameters, path, nested objects). Distinct by case.", 1500, func(m *M) {
		c12URL(m)
		c12Copies(m)
		c12Do(m)
		c12Decode(m)
		c12Registry(m)
		c12CLI(m)
	})
}

func c12URL(m *M) {
	r := NewRand(m.Seed, "C12url")
	for i := range m.N(3000) {
		rt := append([]reqType{{t: rdap.RawRequest}}, reqTypes...)[i%(len(reqTypes)+1)]
		ss := genServer(r)
		su := mustURL(ss)
		text := hostileText(r)
		params := genParams(r, rt)
		req := &rdap.Request{Type: rt.t, Query: text, Server: su, Params: params, FetchRoles: []string{"all"}, Timeout: time.Second}
		kase := fmt.Sprintf("URL() type=%s server=%s text=%q params=%v", rt.t, ss, text, params)
		m.Try("C12 "+kase, func() {
			before := dump(req)
			u1 := req.URL()
			s1 := fmt.Sprint(u1)
			after := dump(req)
			u2 := req.URL()
			m.Saw(kase, len(su.Path) > 1 || strings.Contains(ss, "?"))
			m.Sample(kase)
			if before != after || su.String() != mustURL(ss).String() {
				m.Violate("URL() modified the request", kase, before, after)
				return
			}
			if fmt.Sprint(u2) != s1 {
				m.Violate("URL() gave another result the second time", kase, s1, fmt.Sprint(u2))
				return
			}
			// The caller owns the result too: changing it must not reach the request.
			if u1 != nil {
				u1.Path, u1.RawQuery, u1.Host = "/changed", "changed=1", "changed.example"
				if dump(req) != before || fmt.Sprint(req.URL()) != s1 {
					m.Violate("the returned URL shares state with the request", kase, before, dump(req))
				}
			}
		})
	}
}

func c12Copies(m *M) {
	r := NewRand(m.Seed, "C12copies")
	for range m.N(400) {
		rt := pick(r, reqTypes)
		req := &rdap.Request{Type: rt.t, Query: hostileText(r), Params: genParams(r, rt), FetchRoles: []string{"a", "b"}, Timeout: 7 * time.Second}
		if r.Chance(0.6) {
			req.Server = mustURL(genServer(r))
		}
		ctx0 := context.WithValue(context.Background(), ctxKey("k"), "0")
		if r.Chance(0.5) {
			req = req.WithContext(ctx0)
		}
		kase := dump(req)
		m.Try("C12 copies "+kase, func() {
			m.Saw("copies"+kase, true)
			before, bctx := dump(req), req.Context()
			ctx := context.WithValue(context.Background(), ctxKey("k"), "1")
			c := req.WithContext(ctx)
			if c == req || c.Context() != ctx || dump(c) != before {
				m.Violate("WithContext does not return an otherwise equal copy", kase, before, dump(c))
			}
			if dump(req) != before || req.Context() != bctx {
				m.Violate("WithContext modified the original", kase, before, dump(req))
			}
			s := mustURL("https://other.example/x?y=z")
			d := req.WithServer(s)
			if d == req || d.Server == nil || d.Server.String() != "https://other.example/x?y=z" || d.Context() != bctx {
				m.Violate("WithServer does not return a copy with that server", kase, "", dump(d))
			}
			if dump(req) != before || req.Context() != bctx {
				m.Violate("WithServer modified the original", kase, before, dump(req))
			}
			d2 := *d
			d2.Server = req.Server
			if dump(&d2) != before {
				m.Violate("WithServer changed more than the server", kase, before, dump(&d2))
			}
			qn := &bootstrap.Question{RegistryType: pick(r, allRegistries), Query: hostileText(r)}
			qctx := context.Background()
			if r.Chance(0.5) {
				qn, qctx = qn.WithContext(ctx0), ctx0
			}
			qb := dump(qn)
			q2 := qn.WithContext(ctx)
			if q2 == qn || q2.Context() != ctx || dump(q2) != qb || dump(qn) != qb || qn.Context() != qctx {
				m.Violate("Question.WithContext is not a copy differing in the context only", qb, qb, dump(q2))
			}
		})
	}
}

func c12Do(m *M) {
	r := NewRand(m.Seed, "C12do")
	for i := range m.N(700) {
		t := pick(r, []bootstrap.RegistryType{bootstrap.DNS, bootstrap.IPv4, bootstrap.IPv6, bootstrap.ASN, bootstrap.ServiceProvider})
		var urls []string
		for range r.Range(1, 4) {
			urls = append(urls, genServer(r))
		}
		entry := map[bootstrap.RegistryType]string{bootstrap.DNS: "com", bootstrap.IPv4: "10.0.0.0/8", bootstrap.IPv6: "2001:db8::/32", bootstrap.ASN: "1-100", bootstrap.ServiceProvider: "VRSN"}[t]
		text := map[bootstrap.RegistryType]string{bootstrap.DNS: "a.com", bootstrap.IPv4: "10.1.2.3/32", bootstrap.IPv6: "2001:db8::1", bootstrap.ASN: "5", bootstrap.ServiceProvider: "1-VRSN"}[t]
		typ := map[bootstrap.RegistryType]rdap.RequestType{bootstrap.DNS: rdap.DomainRequest, bootstrap.IPv4: rdap.IPRequest, bootstrap.IPv6: rdap.IPRequest, bootstrap.ASN: rdap.AutnumRequest, bootstrap.ServiceProvider: rdap.EntityRequest}[t]
		doc := regDoc([]svc{{[]string{entry}, urls}}, t == bootstrap.ServiceProvider, nil)
		fails := r.IntN(len(urls) + 1)
		n := 0
		srv := &script{}
		srv.fn = func(req *http.Request) (*http.Response, error) {
			if strings.HasSuffix(req.URL.Path, ".json") {
				return httpResp(200, doc, nil), nil
			}
			n++
			if n <= fails {
				switch (n + i) % 5 {
				case 0:
					return nil, errors.New("connection refused")
				case 1:
					return httpResp(429, []byte(`{"errorCode":429}`), nil), nil
				case 2:
					return httpResp(200, []byte(`{"objectClassName":"`), nil), nil
				case 3:
					return httpResp(200, nil, nil), nil
				}
				return httpResp(500, []byte("x"), nil), nil
			}
			if i%11 == 0 {
				return httpResp(404, []byte("x"), nil), nil
			}
			return httpResp(200, []byte(`{"objectClassName":"domain","ldhName":"a.com"}`), nil), nil
		}
		hc := srv.client()
		if r.Chance(0.3) {
			hc.Timeout = time.Duration(r.Range(60, 600)) * time.Second
		}
		keepHC := *hc
		bc := &bootstrap.Client{HTTP: hc}
		baseText := ""
		if r.Chance(0.6) {
			baseText = pick(r, []string{"https://boot.example", "https://boot.example/", "https://boot.example/a", "https://boot.example/a/b%2fc", "https://boot.example/a/?k=v", "https://u:p@boot.example/a?k=v#f"})
			bc.BaseURL = mustURL(baseText)
		}
		base := bc.BaseURL
		c := &rdap.Client{HTTP: hc, Bootstrap: bc}
		if r.Chance(0.3) {
			c.UserAgent = "agent/1"
		}
		verb := 0
		if r.Chance(0.5) {
			c.Verbose = func(string) { verb++ }
		}
		userVerbose := r.Chance(0.3)
		uv := 0
		if userVerbose {
			bc.Verbose = func(string) { uv++ }
		}
		var server *url.URL
		if i%3 == 0 {
			server = mustURL(urls[0])
		}
		ctx := context.WithValue(context.Background(), ctxKey("k"), "v")
		req := (&rdap.Request{Type: typ, Query: text, Server: server, Params: genParams(r, reqType{}), FetchRoles: []string{"all"}}).WithContext(ctx)
		if r.Chance(0.4) {
			req.Timeout = time.Duration(r.Range(60, 600)) * time.Second
		}
		kase := fmt.Sprintf("Do type=%s text=%q registry=%v failing=%d explicit server=%v", typ, text, urls, fails, server)
		m.Try("C12 "+kase, func() {
			question := &bootstrap.Question{RegistryType: t, Query: text}
			qb := dump(question)
			a0, err := bc.Lookup(question)
			if err != nil {
				m.Violate("lookup failed", kase, "", err.Error())
				return
			}
			if dump(question) != qb {
				m.Violate("Lookup modified the question", kase, qb, dump(question))
			}
			first := urlStrings(a0.URLs)
			// The answer as later lookups give it, rendered completely.
			served := dump(a0)
			before := dump(req)
			srv.reset()
			var runs []string
			for range 2 {
				n = 0
				srv.reset()
				resp, err := c.Do(req)
				if resp != nil && resp.Object != nil {
					var sb strings.Builder
					(&rdap.Printer{Writer: &sb}).Print(resp.Object)
					runs = append(runs, fmt.Sprint(srv.urls(), dump(resp.Object), sb.String(), err))
				} else {
					runs = append(runs, fmt.Sprint(srv.urls(), err))
				}
				if resp != nil {
					_ = resp.ToWhoisStyleResponse()
				}
			}
			m.Saw(kase, true)
			m.Count("do_runs", 2)
			m.Sample(kase)
			if dump(req) != before || req.Context() != ctx {
				m.Violate("Do modified the request", kase, before, dump(req))
				return
			}
			if base != nil && (bc.BaseURL == nil || dump(base) != dump(mustURL(baseText)) || dump(bc.BaseURL) != dump(base)) {
				m.Violate("the bootstrap base URL was modified", kase, baseText, fmt.Sprint(base, bc.BaseURL))
				return
			}
			if hc.Timeout != keepHC.Timeout || hc.Jar != keepHC.Jar || hc.Transport != keepHC.Transport || hc.CheckRedirect != nil {
				m.Violate("the caller's HTTP client was modified", kase, fmt.Sprint(keepHC), fmt.Sprint(*hc))
				return
			}
			if runs[0] != runs[1] {
				m.Violate("running the same request again gave another result", kase, runs[0], runs[1])
				return
			}
			a1, err := bc.Lookup(question)
			if err != nil || dump(a1) != served || !eqStrings(urlStrings(a1.URLs), normURLs(urls)) || !eqStrings(urlStrings(a0.URLs), first) {
				m.Violate("running a request changed the registry data served to later lookups", kase, served, fmt.Sprint(dump(a1), err))
				return
			}
			if userVerbose {
				k := uv
				if bc.Verbose == nil {
					m.Violate("Do dropped the bootstrap client's Verbose callback", kase, "kept", "nil")
					return
				}
				bc.Verbose("x")
				if uv != k+1 {
					m.Violate("Do replaced the bootstrap client's Verbose callback", kase, "kept", "replaced")
				}
			}
		})
	}
}

func cardCalls(v *rdap.VCard) string {
	var out []string
	out = append(out, v.Name(), v.POBox(), v.ExtendedAddress(), v.StreetAddress(), v.Locality(), v.Region(), v.PostalCode(), v.Country(), v.Tel(), v.Fax(), v.Email(), v.Org())
	for _, n := range []string{"fn", "adr", "tel", "nope"} {
		for _, p := range v.Get(n) {
			out = append(out, p.Name, strings.Join(p.Values(), "|"))
		}
		if p := v.GetFirst(n); p != nil {
			out = append(out, p.Name)
		}
	}
	return fmt.Sprintf("%q", out)
}

func printWith(p rdap.Printer, o any) string {
	var sb strings.Builder
	p.Writer = &sb
	p.Print(o)
	return sb.String()
}

func allPrinterOptions() []rdap.Printer {
	var ps []rdap.Printer
	for i := range 16 {
		ps = append(ps, rdap.Printer{OmitNotices: i&1 != 0, OmitRemarks: i&2 != 0, BriefOutput: i&4 != 0, BriefLinks: i&8 != 0})
	}
	return ps
}

func c12Decode(m *M) {
	opts := allPrinterOptions()
	for i := range m.N(700) {
		r := NewRand(m.Seed, fmt.Sprintf("C12dec/%d", i))
		g := newDocGen(r)
		g.hostile = r.Chance(0.3)
		o := g.top(topClasses[i%len(topClasses)])
		if r.Chance(0.3) {
			corruptSome(r, o)
		}
		b := render(r, o)
		keep := append([]byte{}, b...)
		m.Try("C12 decode "+string(b), func() {
			x, err := rdap.NewDecoder(b).Decode()
			m.Saw(string(keep), len(o.m) > 2)
			if !bytes.Equal(b, keep) {
				m.Violate("decoding modified the JSON bytes", string(keep), string(keep), string(b))
				return
			}
			y, err2 := rdap.NewDecoder(b).Decode()
			if dump(x) != dump(y) || fmt.Sprint(err) != fmt.Sprint(err2) {
				m.Violate("decoding the same bytes again gave another object", string(keep), dump(x), dump(y))
				return
			}
			if err != nil {
				return
			}
			before := dump(x)
			check := func(what string) bool {
				if after := dump(x); after != before {
					m.Violate(what+" modified the decoded object", string(keep), before, after)
					return false
				}
				return true
			}
			p := opts[(i/10)%16]
			out1 := printWith(p, x)
			if !check("printing") {
				return
			}
			if out2 := printWith(p, x); out1 != out2 {
				m.Violate("printing again gave another text", string(keep), out1, out2)
				return
			}
			resp := &rdap.Response{Object: x}
			w1 := dump(resp.ToWhoisStyleResponse())
			if !check("WHOIS conversion") {
				return
			}
			if w2 := dump(resp.ToWhoisStyleResponse()); w1 != w2 {
				m.Violate("converting again gave another result", string(keep), w1, w2)
				return
			}
			if e, ok := x.(*rdap.Entity); ok && e.VCard != nil {
				c1 := cardCalls(e.VCard)
				if !check("card access") {
					return
				}
				if c2 := cardCalls(e.VCard); c1 != c2 {
					m.Violate("card access again gave another result", string(keep), c1, c2)
				}
			}
		})
	}
	for i := range m.N(200) {
		r := NewRand(m.Seed, fmt.Sprintf("C12card/%d", i))
		g := newDocGen(r)
		b := render(r, genCard(g))
		keep := append([]byte{}, b...)
		m.Try("C12 card "+string(b), func() {
			v1, e1 := rdap.NewVCard(b)
			v2, e2 := rdap.NewVCardWithOptions(b, rdap.VCardOptions{IgnoreInvalidProperties: true})
			m.Saw(string(keep), true)
			if !bytes.Equal(b, keep) || dump(v1) != dump(v2) || fmt.Sprint(e1) != fmt.Sprint(e2) {
				m.Violate("card decoding modified its input or is not repeatable", string(keep), dump(v1), dump(v2))
			}
		})
	}
}

// corruptSome replaces a few members with values of the wrong type.
func corruptSome(r *Rand, o *obj) {
	for _, k := range o.names() {
		if k != "objectClassName" && r.Chance(0.2) {
			o.m[k] = pick(r, []any{nil, true, 5.0, "text", []any{}, map[string]any{"a": 1.0}, []any{1.0, "x", nil}, -3.0, 1e30})
		}
	}
}

func c12Registry(m *M) {
	for i := range m.N(300) {
		r := NewRand(m.Seed, fmt.Sprintf("C12reg/%d", i))
		t := allRegistries[i%5]
		b := taggedDoc(t, fmt.Sprintf("t%d", i))
		keep := append([]byte{}, b...)
		m.Try(fmt.Sprintf("C12 registry %s", t), func() {
			var reg bootstrap.Registry
			var err error
			switch t {
			case bootstrap.DNS:
				reg, err = bootstrap.NewDNSRegistry(b)
			case bootstrap.IPv4:
				reg, err = bootstrap.NewNetRegistry(b, 4)
			case bootstrap.IPv6:
				reg, err = bootstrap.NewNetRegistry(b, 6)
			case bootstrap.ASN:
				reg, err = bootstrap.NewASNRegistry(b)
			default:
				reg, err = bootstrap.NewServiceProviderRegistry(b)
			}
			m.Saw(string(keep), true)
			if err != nil || !bytes.Equal(b, keep) {
				m.Violate("parsing a registry modified its input", string(keep), "", fmt.Sprint(err))
				return
			}
			before := dump(reg.File())
			var answers []string
			var qs []string
			for range 6 {
				qt, _ := taggedQuestion(r, t)
				qs = append(qs, qt)
			}
			for round := range 3 {
				for j, qt := range qs {
					qn := &bootstrap.Question{RegistryType: t, Query: qt}
					a, err := reg.Lookup(qn)
					d := fmt.Sprint(dump(a), err)
					if round == 0 {
						answers = append(answers, d)
					} else if answers[j] != d {
						m.Violate("the same question got another answer", qt, answers[j], d)
						return
					}
					if qn.Query != qt {
						m.Violate("Lookup modified the question", qt, qt, qn.Query)
						return
					}
				}
			}
			if after := dump(reg.File()); after != before {
				m.Violate("lookups modified the registry", string(keep), before, after)
			}
		})
	}
}

func c12CLI(m *M) {
	for _, args := range [][]string{{"--help"}, {"-t", "bogus", "x"}, {"-x", "-s", "http://127.0.0.1:1/", "-T", "5", "example.com"}, {"--version"}, {}} {
		a := append([]string{}, args...)
		m.Try(fmt.Sprintf("C12 cli %q", args), func() {
			var so, se strings.Builder
			rdap.RunCLI(a, &so, &se, rdap.CLIOptions{})
			m.Saw(fmt.Sprint(args), false)
			if !eqStrings(a, args) {
				m.Violate("a command line run modified its arguments", args, args, a)
			}
		})
	}
}
