package harness

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"

	"github.com/openrdap/rdap"
)

// c29Failing answers a request in a way no client can use; the next server must be asked.
var c29Failing = []struct {
	name string
	f    func(w http.ResponseWriter, req *http.Request, i int)
}{
	{"500", func(w http.ResponseWriter, _ *http.Request, i int) {
		w.WriteHeader(500)
		fmt.Fprintf(w, `{"objectClassName":"domain","handle":"WRONG-500-%d"}`, i)
	}},
	{"403", func(w http.ResponseWriter, _ *http.Request, i int) {
		w.WriteHeader(403)
		fmt.Fprintf(w, `{"errorCode":403,"title":"WRONG-403-%d"}`, i)
	}},
	{"429", func(w http.ResponseWriter, _ *http.Request, i int) {
		w.Header().Set("Retry-After", "1")
		w.WriteHeader(429)
		fmt.Fprintf(w, `{"errorCode":429,"title":"WRONG-429-%d"}`, i)
	}},
	{"html", func(w http.ResponseWriter, _ *http.Request, i int) { fmt.Fprintf(w, `<html>WRONG-html-%d</html>`, i) }},
	{"array", func(w http.ResponseWriter, _ *http.Request, i int) { fmt.Fprintf(w, `["WRONG-array-%d"]`, i) }},
	{"class", func(w http.ResponseWriter, _ *http.Request, i int) {
		fmt.Fprintf(w, `{"objectClassName":"WRONG-class-%d"}`, i)
	}},
	{"empty", func(http.ResponseWriter, *http.Request, int) {}},
	{"cut", func(w http.ResponseWriter, _ *http.Request, i int) {
		w.Header().Set("Content-Length", "5000")
		fmt.Fprintf(w, `{"objectClassName":"domain","handle":"WRONG-cut-%d"}`, i)
	}},
	{"hangup", func(w http.ResponseWriter, _ *http.Request, _ int) {
		if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
			c.Close()
		}
	}},
}

// c29Body renders a document in one of many byte forms.
func c29Body(r *Rand, o *obj) []byte {
	b := render(r, o)
	// more members in front: standard ones that are null or of other types, and texts the program mentions
	front := func(s string) {
		nb := append([]byte("{"+s), b[1:]...)
		if !json.Valid(nb) {
			nb = append([]byte("{"+s+","), b[1:]...)
		}
		if !json.Valid(nb) {
			nb = bytes.TrimSuffix(append([]byte("{"+s), b[1:]...), []byte(",}"))
		}
		if _, err := rdap.NewDecoder(nb).Decode(); err == nil && json.Valid(nb) {
			b = nb
		}
	}
	for range r.IntN(3) {
		if r.Chance(0.4) {
			front(fmt.Sprintf("%q:%s", pick(r, []string{"lang", "port43", "handle", "links", "remarks", "notices", "status", "entities", "x", "", "ldhName"}), pick(r, []string{"null", "[]", "{}", "0", "1.50", "true", `""`, "[null]", `" "`})))
		}
		if dictChance(r, 0.1) {
			w := r.word("x")
			front(w)
			front(fmt.Sprintf(`%s:%s`, mustJSON(w), mustJSON(r.word(" "))))
			front(`"remarks":[{"description":[` + string(mustJSON(w)) + `]}]`)
		}
	}
	ws := func(n int) (s string) {
		for range r.IntN(n) {
			s += pick(r, []string{" ", "\t", "\r", "\n"})
		}
		return s
	}
	switch r.IntN(8) {
	case 0, 1:
		b = []byte(ws(4) + string(b) + ws(4))
	case 2: // numbers, escapes and duplicate members must survive as written
		b = append([]byte(`{"x_n":[1.0,1E5,-0.0,0.10,123456789012345678901234567890,1e-7],"x_e":"\u0041\/\ud83d\ude00\u2028<>&%s%d%%","x_d":1,"x_d":2,`), b[1:]...)
		b = bytes.Replace(b, []byte(",}"), []byte("}"), 1)
	case 3: // bytes that are not UTF-8
		b = append([]byte("{\"x_bad\":\"\xff\xfe\xc3(\",\"x_del\":\"\x7f\","), b[1:]...)
		b = bytes.Replace(b, []byte(",}"), []byte("}"), 1)
	case 4:
		var buf bytes.Buffer
		_ = json.Indent(&buf, b, "", "\t")
		b = buf.Bytes()
	case 5: // large
		if r.Chance(0.3) {
			b = append([]byte(fmt.Sprintf(`{"x_big":"%s",`, strings.Repeat("z", 1<<19))), b[1:]...)
			b = bytes.Replace(b, []byte(",}"), []byte("}"), 1)
		}
	}
	return b
}

var c29Formats = []struct {
	name  string
	flags []string
}{{"text", []string{"--text"}}, {"raw", []string{"--raw", "-r"}}, {"json", []string{"--json", "-j"}}, {"whois", []string{"--whois", "-w"}}}

func TestC29(t *testing.T) {
	monitor(t, "C29", "a command line run whose standard output was compared with the body of the server that answered; non-trivial when the body is not a bare object", 900, func(m *M) {
		m.Assume("standard output accepts all writes")
		w := newCLIWorld(false)
		defer w.stop()
		for i := range m.N(320) {
			c29One(m, w, NewRand(m.Seed, fmt.Sprintf("C29/%d", i)), i)
		}
		c29Big(m, w)
	})
}

func c29One(m *M, w *cliWorld, r *Rand, i int) {
	g := newDocGen(r)
	g.hostile = r.Chance(0.3)
	class := topClasses[i%len(topClasses)]
	var o *obj
	if class == "domain" || i%7 == 0 {
		o = whoisDomain(g)
	} else {
		o = g.top(class)
	}
	body := c29Body(r, o)
	if !json.Valid(body) {
		panic("bad body " + string(body))
	}

	// Who answers: the given server, or the n-th of the bootstrapped ones.
	var base []string
	nfail := 0
	kase := ""
	status := pick(r, []int{200, 200, 200, 203, 201})
	gz := r.Chance(0.1)
	answer := func(rw http.ResponseWriter, req *http.Request) {
		if gz && strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") {
			rw.Header().Set("Content-Encoding", "gzip")
			rw.WriteHeader(status)
			zw := gzip.NewWriter(rw)
			_, _ = zw.Write(body)
			zw.Close()
			return
		}
		rw.WriteHeader(status)
		_, _ = rw.Write(body)
	}
	switch mode := i % 3; mode {
	case 0:
		base = []string{"--cache-dir=", "-T", "60", "-s", w.URL, "-t", "domain", "x.example"}
		redirect := r.Chance(0.2)
		kase = fmt.Sprintf("one server, redirected %v", redirect)
		w.serve(func(rw http.ResponseWriter, req *http.Request) {
			if redirect && !strings.HasSuffix(req.URL.Path, "/moved") {
				rw.Header().Set("Location", req.URL.Path+"/moved")
				rw.WriteHeader(pick(NewRand(1, req.URL.Path), []int{301, 302, 307, 308}))
				io.WriteString(rw, `{"objectClassName":"domain","handle":"WRONG-redirect"}`)
				return
			}
			answer(rw, req)
		})
	default:
		n := r.Range(1, 4)
		nfail = r.IntN(n)
		if mode == 2 && n > 1 {
			nfail = r.Range(1, n-1)
		}
		var fails []int
		var names []string
		for range nfail {
			f := r.IntN(len(c29Failing))
			fails = append(fails, f)
			names = append(names, c29Failing[f].name)
		}
		kase = fmt.Sprintf("%d servers, first %d fail: %v", n, nfail, names)
		base = []string{"--cache-dir=", "-T", "60", "--bs-url=" + w.URL + "/boot", "x.example"}
		w.serve(func(rw http.ResponseWriter, req *http.Request) {
			if strings.HasPrefix(req.URL.Path, "/boot/") {
				var urls []string
				for k := range n {
					urls = append(urls, fmt.Sprintf("http://%s/s%d/", req.Host, k))
				}
				_, _ = rw.Write(regDoc([]svc{{[]string{"example"}, urls}}, false, nil))
				return
			}
			var k int
			if _, err := fmt.Sscanf(req.URL.Path, "/s%d/", &k); err != nil {
				rw.WriteHeader(404)
				return
			}
			if k < nfail {
				c29Failing[fails[k]].f(rw, req, k)
				return
			}
			if k > nfail { // never to be asked
				fmt.Fprintf(rw, `{"objectClassName":"domain","handle":"WRONG-later-%d"}`, k)
				return
			}
			answer(rw, req)
		})
	}
	kase = fmt.Sprintf("%s, status %d, gzip %v, body %s", kase, status, gz, body)
	run := func(flags ...string) (string, bool) {
		args := append(append([]string{}, flags...), base...)
		if r.Chance(0.5) {
			args = append(append([]string{}, base...), flags...)
		}
		var out string
		ok := m.Try(fmt.Sprintf("%q %s", args, clip(kase)), func() {
			res := runCLI(false, args...)
			out = res.stdout
			m.Count("runs", 1)
			if res.rc != 0 {
				m.Violate("the run failed", fmt.Sprintf("%q %s", args, kase), 0, res.err)
			}
		})
		return out, ok
	}
	single := map[string]string{}
	for _, f := range c29Formats {
		flags := []string{pick(r, f.flags)}
		if r.Chance(0.15) {
			flags = append(flags, "-v")
		}
		out, ok := run(flags...)
		if !ok {
			return
		}
		single[f.name] = out
		bad := ""
		switch f.name {
		case "raw":
			if out != string(body) {
				bad = "raw output is not the answering server's body"
			}
		case "json":
			var a, b bytes.Buffer
			if json.Compact(&a, []byte(out)) != nil || json.Compact(&b, body) != nil || a.String() != b.String() {
				bad = "JSON output differs from the answering server's body in more than whitespace"
			}
		default:
			v, err := rdap.NewDecoder(body).Decode()
			if err != nil {
				m.Violate("a well-formed response failed to decode", string(body), nil, err.Error())
				return
			}
			if f.name == "text" {
				if want := printWith(rdap.Printer{BriefLinks: true}, v); out != want {
					bad = "text output is not the rendering of the answering server's response"
				}
			} else {
				var want []kv
				res := (&rdap.Response{Object: v}).ToWhoisStyleResponse()
				for _, k := range res.KeyDisplayOrder {
					for _, x := range res.Data[k] {
						want = append(want, kv{k, x})
					}
				}
				if d := compareWhoisText(want, out); d != "" {
					bad = "WHOIS output: " + d
				}
			}
		}
		if bad != "" {
			m.Violate(bad, fmt.Sprintf("%q %s", flags, kase), string(body), out)
		}
		m.Saw(fmt.Sprint(f.name, kase), len(o.m) > 1)
		m.Count("format "+f.name, 1)
		if nfail > 0 {
			m.Count("answers after failed servers", 1)
		}
	}
	if out, ok := run(); ok && out != single["text"] {
		m.Violate("without a format option the output is not the text format", kase, single["text"], out)
	}
	// several formats at once: their outputs one after another
	set := r.Range(1, 15)
	var flags []string
	var parts []string
	for k, f := range c29Formats {
		if set&(1<<k) != 0 {
			flags = append(flags, pick(r, f.flags))
			parts = append(parts, single[f.name])
		}
	}
	flags = shuffled(r, flags)
	if r.Chance(0.3) {
		flags = append(flags, "--verbose")
	}
	if out, ok := run(flags...); ok {
		if !isPermutation(out, parts) {
			m.Violate("the output is not that of the selected formats", fmt.Sprintf("%q %s", flags, kase), strings.Join(parts, ""), out)
		}
		m.Saw(fmt.Sprint(flags, kase), len(parts) > 1)
		m.Count("several formats at once", 1)
	}
	m.Sample(kase)
}

// isPermutation: out is the parts one after another in some order.
func isPermutation(out string, parts []string) bool {
	if len(parts) == 0 {
		return out == ""
	}
	for i, p := range parts {
		if strings.HasPrefix(out, p) {
			rest := append(append([]string{}, parts[:i]...), parts[i+1:]...)
			if isPermutation(out[len(p):], rest) {
				return true
			}
		}
	}
	return false
}
