package harness

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

func init() {
	children["c35"] = func(arg []byte) any {
		var a c35Arg
		if err := json.Unmarshal(arg, &a); err != nil {
			panic(err)
		}
		data, err := os.ReadFile(a.File)
		if err != nil {
			panic(err)
		}
		var ins []c35In
		if err := json.Unmarshal(data, &ins); err != nil {
			panic(err)
		}
		var out []string
		for _, in := range ins {
			out = append(out, hash(c35Eval(in)))
		}
		return out
	}
}

type c35Arg struct{ File string }

func hash(s string) string { h := sha256.Sum256([]byte(s)); return hex.EncodeToString(h[:]) }

// c35In is an input whose result is to be always the same.
type c35In struct {
	Kind string // response, card, or a registry type
	Body []byte
	Qs   []string
	Opts int
}

// manyUnknowns adds members so that map iteration orders differ between runs.
func manyUnknowns(g *docGen, v any) {
	switch x := v.(type) {
	case *obj:
		if g.r.Chance(0.6) {
			for range g.r.Range(2, 9) {
				x.m[g.unknownName(x.class)] = g.unknownValue(2)
			}
		}
		for _, k := range x.names() {
			manyUnknowns(g, x.m[k])
		}
	case []any:
		for _, e := range x {
			manyUnknowns(g, e)
		}
	}
}

func c35Input(seed uint64, i int) c35In {
	r := NewRand(seed, fmt.Sprintf("C35/%d", i))
	switch k := i % 8; k {
	case 0, 1, 2, 3:
		g := newDocGen(r)
		g.nulls = true
		g.hostile = r.Chance(0.3)
		g.decoys = r.Chance(0.5)
		o := g.top(topClasses[(i/8+k)%len(topClasses)])
		manyUnknowns(g, o)
		if k == 1 {
			corruptTree(r, o)
		}
		b := render(r, o)
		if k == 2 { // spell members differently, and more than once
			var extra []string
			for _, n := range o.names() {
				if r.Chance(0.5) {
					extra = append(extra, string(mustJSON(pick(r, []string{strings.ToUpper(n), strings.ToLower(n), n})))+":"+pick(r, []string{`"dup"`, `5`, `[]`, `{}`, `["a","b"]`, `null`}))
				}
			}
			if s := strings.TrimSpace(string(b)); len(extra) > 0 && strings.HasSuffix(s, "}") {
				b = []byte(s[:len(s)-1] + "," + strings.Join(extra, ",") + "}")
			}
		}
		return c35In{Kind: "response", Body: b, Opts: r.IntN(16)}
	case 4:
		g := newCardGen(r)
		var v any = genCards(g)
		if r.Chance(0.4) {
			v, _ = badCard(g, v.(*card).plain())
		}
		return c35In{Kind: "card", Body: render(r, v)}
	}
	t := []bootstrap.RegistryType{bootstrap.ASN, bootstrap.IPv4, bootstrap.IPv6, bootstrap.DNS, bootstrap.ServiceProvider}[(i/8)%5]
	var svcs []svc
	var qs []string
	for s := range r.Range(2, 14) {
		var es []string
		for range r.Range(1, 4) {
			es = append(es, c35Entry(r, t))
		}
		svcs = append(svcs, svc{es, []string{fmt.Sprintf("https://s%d.example/", s), fmt.Sprintf("http://s%d.example/", s)}[:r.Range(1, 2)]})
	}
	for range 24 {
		q := c35Entry(r, t)
		switch t {
		case bootstrap.ASN:
			q = fmt.Sprint(r.IntN(60))
		case bootstrap.IPv4:
			if r.Chance(0.7) {
				q = fmt.Sprintf("10.%d.%d.%d", r.IntN(4), r.IntN(4), r.IntN(4))
			}
		case bootstrap.IPv6:
			if r.Chance(0.7) {
				q = fmt.Sprintf("2001:db8:%x::%x", r.IntN(4), r.IntN(4))
			}
		case bootstrap.DNS:
			q = "www." + q
		default:
			q = "handle" + pick(r, []string{"-", "~"}) + q
		}
		qs = append(qs, q)
	}
	return c35In{Kind: t.Filename(), Body: regDoc(svcs, t == bootstrap.ServiceProvider, nil), Qs: qs, Opts: int(t)}
}

// c35Entry makes entries that overlap and coincide often, in different spellings.
func c35Entry(r *Rand, t bootstrap.RegistryType) string {
	switch t {
	case bootstrap.ASN:
		a := r.IntN(40)
		b := a + pick(r, []int{0, 0, 1, 3, 10, 30})
		return pick(r, []string{fmt.Sprint(a), fmt.Sprintf("%d-%d", a, b), fmt.Sprintf("%d-%d", a, b), fmt.Sprintf("%02d-%02d", a, b), fmt.Sprintf("AS%d", a)})
	case bootstrap.IPv4:
		return fmt.Sprintf("10.%d.%d.%d/%d", r.IntN(4), r.IntN(2), r.IntN(3), pick(r, []int{8, 9, 14, 15, 16, 22, 24, 31, 32}))
	case bootstrap.IPv6:
		f := pick(r, []string{"2001:db8:%x::%x/%d", "2001:0DB8:%x::%x/%d", "2001:DB8:%x:0::%x/%d"})
		return fmt.Sprintf(f, r.IntN(3), r.IntN(3), pick(r, []int{16, 32, 33, 47, 48, 64, 127, 128}))
	case bootstrap.DNS:
		return pick(r, []string{"com", "net", "a.com", "b.a.com", "", "xn--e1afmkfd", "uk", "co.uk", "COM", "Net"})
	default:
		return pick(r, []string{"VRSN", "RIPE", "ARIN", "X", "vrsn", "Y-Z"})
	}
}

// c35Eval renders everything observable about an input.
func c35Eval(in c35In) string {
	var sb strings.Builder
	switch in.Kind {
	case "response":
		x, err := rdap.NewDecoder(append([]byte{}, in.Body...)).Decode()
		fmt.Fprintf(&sb, "err %v\n%s\n", err, dump(x))
		if err != nil {
			return sb.String()
		}
		opts := allPrinterOptions()
		sb.WriteString(printWith(opts[in.Opts], x))
		sb.WriteString(printWith(opts[0], x))
		resp := &rdap.Response{Object: x}
		w := resp.ToWhoisStyleResponse()
		sb.WriteString(dump(w))
		if e, ok := x.(*rdap.Entity); ok && e.VCard != nil {
			sb.WriteString(cardCalls(e.VCard))
		}
	case "card":
		for _, ignore := range []bool{false, true} {
			v, err := rdap.NewVCardWithOptions(append([]byte{}, in.Body...), rdap.VCardOptions{IgnoreInvalidProperties: ignore})
			fmt.Fprintf(&sb, "err %v\n", err)
			if err == nil {
				sb.WriteString(dump(v) + cardCalls(v) + v.String())
			}
		}
	default:
		t := bootstrap.RegistryType(in.Opts)
		srv := &script{fn: func(*http.Request) (*http.Response, error) { return httpResp(200, in.Body, nil), nil }}
		bc := &bootstrap.Client{HTTP: srv.client()}
		for _, q := range in.Qs {
			a, err := bc.Lookup(&bootstrap.Question{RegistryType: t, Query: q})
			if err != nil {
				fmt.Fprintf(&sb, "%s: error %v\n", q, err)
				continue
			}
			fmt.Fprintf(&sb, "%s: %q %q %v\n", q, a.Query, a.Entry, urlStrings(a.URLs))
		}
	}
	return sb.String()
}

// firstDiff shows where two texts part.
func firstDiff(a, b string) (string, string) {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, i-150):min(len(s), i+150)] }
	return cut(a), cut(b)
}

func TestC35(t *testing.T) {
	monitor(t, "C35", "an input (response, card or registry with questions) evaluated again and again in this process and once in each of several other processes, with everything observable compared; non-trivial: it has many members, or overlapping registry entries", 700, func(m *M) {
		m.Assume("the order in which the names of raw members are listed is not part of the result")
		n := m.N(1600)
		const procs = 5
		var first []string
		var ins []c35In
		for i := range n {
			in := c35Input(m.Seed, i)
			ins = append(ins, in)
			kase := fmt.Sprintf("%s %s", in.Kind, in.Body)
			m.Try(kase, func() {
				a := c35Eval(in)
				first = append(first, hash(a))
				reps := 5
				if strings.HasSuffix(in.Kind, ".json") {
					reps = 12
				}
				for k := range reps {
					if b := c35Eval(in); a != b {
						x, y := firstDiff(a, b)
						m.Violate(fmt.Sprintf("repetition %d of the same evaluation gave another result", k+2), kase, x, y)
						return
					}
					m.Count("repetitions", 1)
				}
				m.Saw(kase, len(in.Body) > 300 && len(a) > 600)
				m.Count(in.Kind+" inputs", 1)
			})
			m.Sample(kase)
		}
		if len(first) != n {
			return
		}
		file := filepath.Join(scratchDir(m), "inputs.json")
		if err := os.WriteFile(file, mustJSON(ins), 0o600); err != nil {
			panic(err)
		}
		envs := [][]string{{"TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8"}, {"TZ=UTC", "GOMAXPROCS=1"}, {"TZ=America/New_York", "LANG=C"}, {"COLUMNS=20", "TERM=dumb", "NO_COLOR=1"}, {"HOME=/nonexistent", "USER=nobody"}}
		for p := range procs {
			var got []string
			m.Try(fmt.Sprintf("process %d", p), func() {
				stderr, err := runChild("c35", c35Arg{file}, &got, envs[p]...)
				if err != nil {
					m.Violate("another process could not evaluate the inputs", envs[p], nil, fmt.Sprint(err, stderr))
					return
				}
				for i := range got {
					m.Count("results compared across processes", 1)
					if got[i] != first[i] {
						in := ins[i]
						m.Violate("another process got another result", fmt.Sprintf("%v: %s %s", envs[p], in.Kind, in.Body), first[i], got[i])
					}
				}
			})
		}
		c35CLI(m)
	})
}

// c35CLI repeats command line runs over the same server.
func c35CLI(m *M) {
	w := newCLIWorld(false)
	defer w.stop()
	for i := range m.N(60) {
		in := c35Input(m.Seed, i*8)
		body := in.Body
		w.serveBody(200, body)
		for _, f := range []string{"--text", "--json", "--raw", "--whois"} {
			args := []string{"--cache-dir=", "-s", w.URL, f, "a.example"}
			m.Try(fmt.Sprintf("%q %s", args, body), func() {
				a := runCLI(false, append([]string{}, args...)...)
				for range 3 {
					if b := runCLI(false, append([]string{}, args...)...); a != b {
						x, y := firstDiff(a.stdout, b.stdout)
						m.Violate("the same command line printed something else", fmt.Sprintf("%s %s", f, body), x, y)
						return
					}
				}
				m.Count("command lines repeated", 1)
				m.Saw(f+string(body), true)
			})
		}
	}
}
