package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
	"github.com/openrdap/rdap/sandbox"
)

// op is an operation that may be run from any number of goroutines, with a result that must not depend on that.
type op struct {
	name string
	f    func() string
}

// c18Ops builds the operations; everything they share is shared on purpose.
// dir is a cache directory shared by separate clients; base the URL of a loopback server.
func c18Ops(r *Rand, dir, base string) (out []op) {
	p12 := filepath.Join(dir, "..", filepath.Base(dir)+".p12")
	if err := os.WriteFile(p12, fixture("a.p12"), 0o600); err != nil {
		panic(err)
	}
	add := func(name string, f func() string) { out = append(out, op{name, f}) }
	hdr := func(req *http.Request) (*http.Response, error) {
		if req.URL.Host == "boot.example" {
			for _, k := range bootKinds {
				if strings.HasSuffix(req.URL.Path, "/"+registryFile[k.reg]) {
					return httpResp(200, regDoc([]svc{{[]string{k.entry}, []string{"https://s0.example/x?k=v", "https://s1.example/", "https://s2.example/y/"}}}, k.reg == bootstrap.ServiceProvider, nil), nil), nil
				}
			}
			return httpResp(404, nil, nil), nil
		}
		if req.URL.Host == "s0.example" {
			return httpResp(500, nil, nil), nil
		}
		return httpResp(200, []byte(okDoc(req.URL.Path)), nil), nil
	}
	shared := (&script{fn: hdr}).client()
	for i, class := range topClasses {
		for j := range 2 {
			g := newDocGen(NewRand(r.Uint64(), "doc"))
			g.density, g.depth, g.hostile = 0.7, 2, j == 1
			o := g.top(class)
			if j == 1 {
				corruptSome(g.r, o)
			}
			b := render(g.r, o)
			add(fmt.Sprintf("decode %s/%d", class, j), func() string {
				v, err := rdap.NewDecoder(b).Decode()
				return fmt.Sprint(err) + dump(v)
			})
			// one decoded object, printed from everywhere
			var once sync.Once
			var v any
			pr := allPrinterOptions()[(i*2+j)%16]
			add(fmt.Sprintf("decode once, print %s/%d", class, j), func() string {
				once.Do(func() { v, _ = rdap.NewDecoder(b).Decode() })
				w := (&rdap.Response{Object: v}).ToWhoisStyleResponse()
				return printWith(pr, v) + dump(w)
			})
		}
	}
	g := newDocGen(NewRand(r.Uint64(), "card"))
	cardDoc := jsonNoEscape(genCard(g).plain())
	add("NewVCard", func() string {
		v, err := rdap.NewVCard(cardDoc)
		if err != nil {
			return err.Error()
		}
		return cardCalls(v) + dump(v)
	})
	for i := range 4 {
		rt := reqTypes[r.IntN(len(reqTypes))]
		req := &rdap.Request{Type: rt.t, Query: hostileText(r), Server: mustURL(pick(r, c11Servers)), Params: genParams(r, rt)}
		add(fmt.Sprintf("URL of a shared request %d", i), func() string { return fmt.Sprint(req.URL()) })
	}
	add("auto requests", func() string {
		var sb strings.Builder
		for _, s := range []string{"AS5", "10.0.0.1", "example.com", "http://x.example/y", "x-Y", "2001:db8::/32"} {
			rq := rdap.NewAutoRequest(s)
			fmt.Fprintln(&sb, rq.Type, rq.Query, rq.Server)
		}
		return sb.String()
	})
	for _, k := range bootKinds {
		req := &rdap.Request{Type: k.typ, Query: k.query}
		add("separate clients, shared request "+k.query, func() string {
			c := &rdap.Client{HTTP: shared, Bootstrap: &bootstrap.Client{HTTP: shared, BaseURL: mustURL("https://boot.example/b/")}}
			resp, err := c.Do(req)
			return fmt.Sprint(err) + dump(resp.Object) + fmt.Sprint(len(resp.HTTP)) + urlsOf(resp)
		})
		sreq := req.WithServer(mustURL("https://s1.example/base/"))
		add("separate clients, shared explicit request "+k.query, func() string {
			resp, err := (&rdap.Client{HTTP: shared}).Do(sreq)
			return fmt.Sprint(err) + dump(resp.Object) + urlsOf(resp)
		})
		add("separate clients, shared cache directory "+k.query, func() string {
			dc := cache.NewDiskCache()
			dc.Dir = dir
			bc := &bootstrap.Client{HTTP: shared, BaseURL: mustURL("https://boot.example/b/"), Cache: dc}
			a, err := bc.Lookup(&bootstrap.Question{RegistryType: k.reg, Query: k.query})
			if err != nil {
				return err.Error()
			}
			return fmt.Sprint(a.Entry, a.Query, urlStrings(a.URLs))
		})
	}
	add("helpers on separate clients", func() string {
		c := &rdap.Client{HTTP: shared, Bootstrap: &bootstrap.Client{HTTP: shared, BaseURL: mustURL("https://boot.example/b/")}}
		d, err := c.QueryDomain("a.example")
		_, err2 := c.QueryAutnum("AS5")
		_, err3 := c.QueryIP("10.1.2.3")
		return fmt.Sprint(dump(d), err, err2, err3)
	})
	// Servers that fail in every way, registries that fail or list nothing, limits that are not reached:
	// error paths may keep state too. One HTTP client (with no redirect policy of its own) serves all.
	rough := (&script{fn: c18Rough}).client()
	roughBase := mustURL("https://boot.example/no-slash?k=v")
	limited := &rdap.Request{Type: rdap.DomainRequest, Query: "t.limited", Timeout: 10 * time.Minute}
	for _, q := range []string{"a.errors", "a.busy", "a.broken", "a.empty", "a.gone", "a.moved", "a.rdaperr", "a.unlisted", "a.all", "é.all", "limited"} {
		req := &rdap.Request{Type: rdap.DomainRequest, Query: q, Params: url.Values{"x": {"1", "2"}}}
		if q == "limited" {
			req = limited
		}
		add("separate clients, failing servers "+q, func() string {
			var lines []string
			c := &rdap.Client{HTTP: rough, UserAgent: "agent", Verbose: func(t string) { lines = append(lines, t) }, Bootstrap: &bootstrap.Client{HTTP: rough, BaseURL: roughBase}}
			resp, err := c.Do(req)
			out := fmt.Sprint(err) + dump(resp.Object) + urlsOf(resp) + fmt.Sprint(len(lines) > 0)
			for _, h := range resp.HTTP {
				out += fmt.Sprint(h.Error, string(h.Body))
			}
			return out
		})
		add("separate clients, typed query "+q, func() string {
			c := &rdap.Client{HTTP: rough, Bootstrap: &bootstrap.Client{HTTP: rough, BaseURL: roughBase}}
			d, err := c.QueryDomain(req.Query)
			return dump(d) + fmt.Sprint(err)
		})
	}
	for _, k := range bootKinds[1:] {
		add("separate clients, failing registry "+k.query, func() string {
			bc := &bootstrap.Client{HTTP: rough, BaseURL: roughBase}
			_, err := bc.Lookup(&bootstrap.Question{RegistryType: k.reg, Query: k.query})
			err2 := bc.Download(k.reg)
			return fmt.Sprint(err, err2, bc.DNS() == nil)
		})
		// one parsed registry, asked from everywhere
		var once sync.Once
		var reg bootstrap.Registry
		add("registry lookups "+k.query, func() string {
			once.Do(func() {
				doc := regDoc([]svc{{[]string{k.entry}, []string{"https://s0.example/x?k=v", "https://s1.example/"}}, {[]string{"zz", "11.0.0.0/8", "2001:db9::/32", "200-300", "ZZZZ"}, []string{"https://z.example"}}}, k.reg == bootstrap.ServiceProvider, nil)
				reg = mustRegistry(k.reg, doc)
			})
			var out string
			for _, q := range []string{k.query, "nothing", "12.0.0.0/33", "AS250", "x-ZZZZ", "a.zz."} {
				a, err := reg.Lookup(&bootstrap.Question{RegistryType: k.reg, Query: q})
				if err != nil {
					out += err.Error()
					continue
				}
				out += fmt.Sprint(a.Query, a.Entry, urlStrings(a.URLs))
			}
			return out + fmt.Sprint(len(reg.File().Entries))
		})
	}
	cancelled, cancel := context.WithCancel(context.Background())
	cancel()
	creq := (&rdap.Request{Type: rdap.DomainRequest, Query: "a.all", Timeout: time.Minute}).WithContext(cancelled)
	add("separate clients, cancelled request", func() string {
		c := &rdap.Client{HTTP: rough, Bootstrap: &bootstrap.Client{HTTP: rough, BaseURL: roughBase}}
		_, err := c.Do(creq)
		_, err2 := c.Do(creq.WithServer(roughBase))
		return fmt.Sprint(err != nil, err2 != nil, creq.Context() == cancelled)
	})
	for i, class := range []string{"domain", "entity"} {
		g := newDocGen(NewRand(r.Uint64(), "contacts"))
		g.density, g.depth = 0.9, 2
		o := g.top(class)
		var ents []any
		for _, role := range []string{"registrar", "registrant", "administrative", "technical", "abuse"} {
			e := g.top("entity")
			e.m["roles"] = []any{role}
			e.m["vcardArray"] = genCard(g)
			ents = append(ents, e)
		}
		o.m["entities"] = ents
		b := render(g.r, o)
		var once sync.Once
		var v any
		add(fmt.Sprintf("contacts of a shared object %d", i), func() string {
			once.Do(func() { v, _ = rdap.NewDecoder(b).Decode() })
			out := dump((&rdap.Response{Object: v}).ToWhoisStyleResponse())
			var es []rdap.Entity
			switch v := v.(type) {
			case *rdap.Domain:
				es = v.Entities
			case *rdap.Entity:
				es = v.Entities
			}
			for _, e := range es {
				if e.VCard != nil {
					out += cardCalls(e.VCard) + e.VCard.String()
				}
				if dd := e.DecodeData; dd != nil {
					f, u := dd.Fields(), dd.UnknownFields()
					slices.Sort(f)
					slices.Sort(u)
					out += fmt.Sprint(f, u, dd.Value("roles"), dd.Notes("roles"))
				}
			}
			return out
		})
	}
	add("default HTTP client", func() string {
		c := &rdap.Client{}
		resp, err := c.Do(&rdap.Request{Type: rdap.DomainRequest, Query: "a.example", Server: mustURL(base + "/plain/")})
		if err != nil {
			return err.Error()
		}
		return dump(resp.Object)
	})
	for _, f := range []string{"DigiCert_RDAP_Pilot_Client_Certificate.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12", "nope.p12", "../cli.go"} {
		add("sandbox file "+f, func() string {
			b, err := sandbox.LoadFile(f)
			return fmt.Sprint(len(b), err, sandbox.IsFileInSandbox(f))
		})
	}
	for _, args := range [][]string{
		{"-s", base + "/plain/", "a.example"},
		{"-s", base + "/plain/", "-j", "-r", "-w", "--text", "-t", "domain", "b.example"},
		{"--cache-dir=" + dir, "--bs-url=" + base + "/boot/", "c.example"},
		{"--cache-dir=", "--bs-url=" + base + "/boot/", "d.example"},
		{"--help"}, {"--version"}, {"-t", "nonsense", "x"}, {"--bogus"}, {"-t", "asn", "x"},
		{"-s", base + "/missing/", "a.example"},
		{"--exp=sandbox", "-P", "DigiCert_RDAP_Pilot_Client_Certificate.p12:wrong", "-s", base + "/plain/", "a.example"},
		{"-v", "-T", "60", "-s", base + "/busy/", "a.example"},
		{"-k", "-C", "/nonexistent/c.pem", "-K", "/nonexistent/k.pem", "-s", base + "/plain/", "a.example"},
		{"-P", p12 + ":secret", "-s", base + "/plain/", "a.example"},
		{"--bs-url=" + base + "/boot/", "--cache-dir=" + dir, "--bs-ttl=60", "-e", "x.unlisted"},
		{"--bs-url=" + base + "/boot/", "--cache-dir=", "AS5"},
		{"-t", "help", "-s", base + "/plain/"},
		{"-t", "url", base + "/plain/domain/x.example"},
		{"--exp=sandbox", "-P", "x.p12", "-s", base + "/plain/", "a.example"},
	} {
		add(fmt.Sprintf("command line %q", args), func() string {
			var so, se bytes.Buffer
			rc := rdap.RunCLI(args, &so, &se, rdap.CLIOptions{})
			if slices.Contains(args, "-v") { // durations
				return fmt.Sprintf("%d\n%s\n--\n%v", rc, so.String(), strings.HasPrefix(se.String(), "# "))
			}
			return fmt.Sprintf("%d\n%s\n--\n%s", rc, so.String(), se.String())
		})
	}
	return
}

// c18Rough answers for bootstrap services and RDAP servers that fail in every way.
func c18Rough(req *http.Request) (*http.Response, error) {
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	host := req.URL.Host
	if host == "boot.example" {
		switch req.URL.Path {
		case "/no-slash/dns.json":
			all := []string{"https://errors.example/", "https://busy.example", "https://broken.example/x", "https://empty.example/", "https://rdaperr.example/"}
			var ss []svc
			for _, n := range []string{"errors", "busy", "broken", "empty", "gone", "moved", "rdaperr", "limited"} {
				ss = append(ss, svc{[]string{n}, []string{"https://" + n + ".example/", "https://" + n + ".example/second"}})
			}
			return httpResp(200, regDoc(append(ss, svc{[]string{"all"}, all}), false, nil), nil), nil
		case "/no-slash/asn.json":
			return httpResp(503, nil, nil), nil
		case "/no-slash/ipv4.json":
			return httpResp(200, []byte(`{"services":[[["10.0.0.0/8"],5]]}`), nil), nil
		case "/no-slash/ipv6.json":
			return nil, errors.New("no route")
		}
		return httpResp(200, []byte(`{`), nil), nil
	}
	switch host {
	case "errors.example":
		return nil, errors.New("refused")
	case "busy.example":
		return httpResp(429, []byte(`{"errorCode":429}`), nil), nil
	case "broken.example":
		return httpResp(200, []byte(`{"objectClassName":"what"}`), nil), nil
	case "empty.example":
		return httpResp(200, nil, nil), nil
	case "gone.example":
		return httpResp(404, nil, nil), nil
	case "moved.example":
		return httpResp(302, nil, map[string]string{"Location": "https://target.example/domain/moved"}), nil
	case "rdaperr.example":
		return httpResp(200, []byte(`{"errorCode":500,"title":"t","description":["d"]}`), nil), nil
	}
	return httpResp(200, []byte(okDoc(req.URL.Path)), nil), nil
}

func mustRegistry(t bootstrap.RegistryType, doc []byte) bootstrap.Registry {
	var reg bootstrap.Registry
	var err error
	switch t {
	case bootstrap.DNS:
		reg, err = bootstrap.NewDNSRegistry(doc)
	case bootstrap.ASN:
		reg, err = bootstrap.NewASNRegistry(doc)
	case bootstrap.ServiceProvider:
		reg, err = bootstrap.NewServiceProviderRegistry(doc)
	case bootstrap.IPv4:
		reg, err = bootstrap.NewNetRegistry(doc, 4)
	case bootstrap.IPv6:
		reg, err = bootstrap.NewNetRegistry(doc, 6)
	}
	if err != nil {
		panic(err)
	}
	return reg
}

func urlsOf(resp *rdap.Response) string {
	var out []string
	for _, h := range resp.HTTP {
		out = append(out, h.URL)
	}
	return strings.Join(out, " ")
}

type c18Arg struct {
	Seed uint64
	Kind string // which operations
	G    int
	Reps int
	Base string
	Dir  string
}

type c18Out struct {
	Ops      int
	Names    []string
	Mismatch []string
}

// c18Concurrent runs the chosen operations from G goroutines released together, then compares with running alone.
func c18Concurrent(a c18Arg) (out c18Out) {
	r := NewRand(a.Seed, "C18ops")
	var ops []op
	for _, o := range c18Ops(r, a.Dir, a.Base) {
		if strings.Contains(o.name, a.Kind) {
			ops = append(ops, o)
		}
	}
	if len(ops) == 0 {
		panic("no operation " + a.Kind)
	}
	type got struct {
		i int
		s string
	}
	res := make([][]got, a.G)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range a.G {
		wg.Add(1)
		order := r.Perm(len(ops))
		go func() {
			defer wg.Done()
			<-start
			for range a.Reps {
				for _, i := range order {
					res[g] = append(res[g], got{i, ops[i].f()})
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	alone := make([]string, len(ops))
	for i, o := range ops {
		alone[i] = o.f()
		out.Names = append(out.Names, o.name)
	}
	for _, gs := range res {
		for _, x := range gs {
			out.Ops++
			if x.s != alone[x.i] && len(out.Mismatch) < 3 {
				out.Mismatch = append(out.Mismatch, fmt.Sprintf("%s: alone %.1500q, concurrently %.1500q", ops[x.i].name, alone[x.i], x.s))
			}
		}
	}
	return
}

func init() {
	children["c18"] = func(arg []byte) any {
		var a c18Arg
		if err := json.Unmarshal(arg, &a); err != nil {
			panic(err)
		}
		return c18Concurrent(a)
	}
}

var goroutineNo = regexp.MustCompile(`(?m)Goroutine \d+|goroutine \d+|0x[0-9a-f]+|Previous|Write at|Read at|by main`)

// raceReports returns the distinct data races the detector has logged so far.
func raceReports() []string {
	m := regexp.MustCompile(`log_path=(\S+)`).FindStringSubmatch(os.Getenv("GORACE"))
	if m == nil {
		panic("C18 must run with the race detector's log enabled")
	}
	files, _ := filepath.Glob(m[1] + ".*")
	seen := map[string]bool{}
	var out []string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "DATA RACE") {
				continue
			}
			if !strings.Contains(rep, "github.com/openrdap/rdap") {
				panic("a race in the harness: " + rep)
			}
			k := goroutineNo.ReplaceAllString(rep, "")
			if !seen[k] {
				seen[k] = true
				out = append(out, rep)
			}
		}
	}
	return out
}

func TestC18(t *testing.T) {
	monitor(t, "C18", "the Go race detector (whole library and harness compiled with -race) over goroutines released together that decode, print one shared object, build URLs of shared requests, query on separate clients sharing an HTTP client, requests or a cache directory, and run the command line (sandbox files included); each result is compared with the same operation run alone. Every kind of operation also runs as the very first use in fresh processes. Non-trivial: at least two goroutines executed the operation. Distinct by (operation, process).", 60, func(m *M) {
		s := newConnServer(false, func(s *connServer, w http.ResponseWriter, req *http.Request) {
			switch {
			case strings.HasPrefix(req.URL.Path, "/boot/"):
				w.Write(regDoc([]svc{{[]string{"example"}, []string{"http://" + req.Host + "/missing500/", "http://" + req.Host + "/plain/"}}}, false, nil))
			case strings.HasPrefix(req.URL.Path, "/missing500/"):
				w.WriteHeader(500)
			case strings.HasPrefix(req.URL.Path, "/busy/"):
				w.WriteHeader(429)
			case strings.HasPrefix(req.URL.Path, "/missing/"):
				w.WriteHeader(404)
			default:
				w.Write([]byte(okDoc(req.URL.Path)))
			}
		})
		defer s.stop()
		report := func(a c18Arg, where string, out c18Out, serr string, err error) {
			kase := fmt.Sprintf("%s %+v", where, a)
			if err != nil {
				m.Violate("concurrent operations ended the process", kase, "normal end", fmt.Sprintf("%v\n%.3000s", err, serr))
				return
			}
			for _, n := range out.Names {
				m.Saw(where+fmt.Sprint(a.Seed)+n, a.G > 1)
			}
			m.Count("operations_run_concurrently", out.Ops)
			m.Sample(fmt.Sprintf("%s: %d runs of %.300q on %d goroutines", where, out.Ops, out.Names, a.G))
			for _, mm := range out.Mismatch {
				m.Violate("an operation gave another result when run concurrently", kase, "same", mm)
			}
		}
		// first use in fresh processes, one kind of operation at a time
		kinds := []string{"", "decode domain", "decode entity", "decode once", "NewVCard", "URL of", "separate clients, shared request", "shared cache directory", "sandbox file", "command line", "helpers", "auto", "default HTTP", "decode", "failing", "typed query", "registry lookups", "contacts", "cancelled"}
		for round := range m.N(2) {
			for i, k := range kinds {
				a := c18Arg{Seed: m.Seed*1000 + uint64(round), Kind: k, G: 8 + 8*(i%2), Reps: 1, Base: s.URL, Dir: scratchDir(m)}
				m.Begin(fmt.Sprintf("C18 child %+v", a))
				var out c18Out
				serr, err := runChild("c18", a, &out)
				m.End()
				m.Count("fresh_processes", 1)
				report(a, fmt.Sprintf("process %d/%d", round, i), out, serr, err)
			}
		}
		// long mixed runs in this process
		for round := range m.N(6) {
			a := c18Arg{Seed: m.Seed*7777 + uint64(round), G: []int{4, 16, 32}[round%3], Reps: []int{6, 2, 1}[round%3], Base: s.URL, Dir: scratchDir(m)}
			m.Try(fmt.Sprintf("C18 %+v", a), func() {
				report(a, fmt.Sprintf("mixed %d", round), c18Concurrent(a), "", nil)
			})
		}
		for _, rep := range raceReports() {
			m.Violate("data race", "race detector report", "no race", rep)
		}
		m.Count("race_reports", len(raceReports()))
	})
}
