package harness

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/openrdap/rdap"
)

type kv struct{ k, v string }

// wantWhois is the harness's own reading of the WHOIS-style form of a domain.
func wantWhois(o *obj) (out []kv) {
	add := func(k, v string) {
		if v != "" {
			out = append(out, kv{k, v})
		}
	}
	s := func(o *obj, n string) string { v, _ := o.m[n].(string); return v }
	list := func(o *obj, n string) []any { l, _ := o.m[n].([]any); return l }
	if o.class != "domain" {
		return nil
	}
	add("Domain Name", s(o, "ldhName"))
	add("Handle", s(o, "handle"))
	add("WHOIS Server", s(o, "port43"))
	for _, e := range list(o, "events") {
		key := map[string]string{"last changed": "Updated Date", "registration": "Creation Date", "expiration": "Expiration Date"}[s(e.(*obj), "eventAction")]
		if key != "" {
			add(key, s(e.(*obj), "eventDate"))
		}
	}
	first := func(role string) *obj {
		for _, e := range list(o, "entities") {
			for _, x := range list(e.(*obj), "roles") {
				if x == role {
					return e.(*obj)
				}
			}
		}
		return nil
	}
	if e := first("registrar"); e != nil {
		if c, ok := e.m["vcardArray"].(*card); ok {
			add("Registrar", wantOf(c).name)
		}
		for _, p := range list(e, "publicIds") {
			if s(p.(*obj), "type") == "IANA Registrar ID" {
				add("Registrar IANA ID", s(p.(*obj), "identifier"))
			}
		}
	}
	for _, x := range list(o, "status") {
		add("Domain Status", x.(string))
	}
	for _, t := range [][2]string{{"Registrant", "registrant"}, {"Admin", "administrative"}, {"Tech", "technical"}, {"Abuse", "abuse"}} {
		e := first(t[1])
		if e == nil {
			continue
		}
		c, ok := e.m["vcardArray"].(*card)
		if !ok {
			continue
		}
		w := wantOf(c)
		for _, x := range []kv{{"Name", w.name}, {"PO Box", w.adr[0]}, {"Extended Address", w.adr[1]}, {"Street", w.adr[2]}, {"Locality", w.adr[3]}, {"Post Code", w.adr[5]}, {"Country", w.adr[6]}, {"Tel", w.tel}, {"Fax", w.fax}, {"Email", w.email}} {
			add(t[0]+" "+x.k, x.v)
		}
	}
	for _, n := range list(o, "nameservers") {
		add("Name Server", s(n.(*obj), "ldhName"))
	}
	return out
}

// structuredOnly makes every address a structured one.
func structuredOnly(g *docGen, c *card) *card {
	for i, p := range c.props {
		if p.name == "adr" {
			if _, ok := p.want().([]any); !ok {
				c.props[i].values = []any{[]any{"", "", g.str(), g.str(), "", "", g.str()}}
			}
		}
	}
	return c
}

var whoisRoles = []string{"registrar", "registrant", "administrative", "technical", "abuse", "billing", "Registrant", "reseller", "registrar ", "admin", "tech", "noc"}

func whoisEntity(g *docGen, depth int) *obj {
	r := g.r
	e := g.object("entity", 1)
	e.m["objectClassName"] = "entity"
	delete(e.m, "roles")
	if r.Chance(0.95) {
		roles := []any{}
		for range r.size(0, 3, 40) {
			if r.Chance(0.75) {
				roles = append(roles, whoisRoles[r.IntN(5)])
			} else {
				roles = append(roles, pick(r, append([]string{g.str(), ""}, whoisRoles...)))
			}
		}
		e.m["roles"] = roles
	}
	delete(e.m, "vcardArray")
	if r.Chance(0.85) {
		e.m["vcardArray"] = structuredOnly(g, genContact(g))
	}
	delete(e.m, "publicIds")
	if r.Chance(0.5) {
		l := []any{}
		for range r.Range(0, 3) {
			p := &obj{"publicid", map[string]any{"type": pick(r, []string{"IANA Registrar ID", "IANA Registrar ID", "IANA Registrar ID", "iana registrar id", "IANA", "Other ID", "", "IANA Registrar ID ", " IANA Registrar ID", "IANA RegistrarID", "IANA Registrar", "Registrar ID", "IANA ID", "IANA Registrar IDs", "ICANN Registrar ID", g.str()}), "identifier": g.str()}}
			if r.Chance(0.15) {
				delete(p.m, "type")
			}
			if r.Chance(0.1) {
				delete(p.m, "identifier")
			}
			if r.Chance(0.1) {
				p.m["identifier"] = pick(r, []string{"", "9999", "376", "0", "292"})
			}
			l = append(l, p)
		}
		e.m["publicIds"] = l
	}
	delete(e.m, "entities")
	if depth > 0 && r.Chance(0.3) { // contacts of contacts are not the domain's
		e.m["entities"] = []any{whoisEntity(g, depth-1)}
	}
	return e
}

func whoisDomain(g *docGen) *obj {
	r := g.r
	g.density = pick(r, []float64{0.1, 0.5, 0.9})
	g.depth = 1
	o := g.top("domain")
	delete(o.m, "entities")
	if r.Chance(0.9) {
		l := []any{}
		for range r.size(0, 6, 60) {
			l = append(l, whoisEntity(g, 1))
		}
		o.m["entities"] = l
	}
	if r.Chance(0.8) {
		l := []any{}
		for range r.size(0, 5, 60) {
			e := g.object("event", 0)
			e.m["eventAction"] = pick(r, []string{g.str(), "", "LAST CHANGED", "last  changed", "lastchanged", "last changed ", "expired", "expires", "last changed", "registration", "expiration", "last changed", "registration", "expiration", "Registration", "transfer", "last update of RDAP database", "expiration ", "reregistration", "deletion", "registrar expiration", "locked"})
			if r.Chance(0.85) {
				e.m["eventDate"] = g.str()
			}
			l = append(l, e)
		}
		o.m["events"] = l
	}
	if r.Chance(0.6) {
		l := []any{}
		for range r.size(0, 5, 130) {
			n := g.object("nameserver", 1)
			delete(n.m, "objectClassName")
			l = append(l, n)
		}
		o.m["nameservers"] = l
	}
	return o
}

func compareWhois(want []kv, got *rdap.WhoisStyleResponse) string {
	if got == nil {
		return "no result at all"
	}
	var order []string
	data := map[string][]string{}
	for _, x := range want {
		if data[x.k] == nil {
			order = append(order, x.k)
		}
		data[x.k] = append(data[x.k], x.v)
	}
	if !eqStrings(order, got.KeyDisplayOrder) {
		return fmt.Sprintf("the keys should be %q, are %q", order, got.KeyDisplayOrder)
	}
	if len(got.Data) != len(data) {
		return fmt.Sprintf("the data should have %d keys, has %d", len(data), len(got.Data))
	}
	for _, k := range order {
		if !eqStrings(data[k], got.Data[k]) {
			return fmt.Sprintf("%s should be %q, is %q", k, data[k], got.Data[k])
		}
	}
	return ""
}

func TestC28(t *testing.T) {
	monitor(t, "C28", "a response converted to WHOIS style (in the library, and for a part of them through the command line) and compared key by key with the harness's own table; non-trivial when it has at least 3 values", 1300, func(m *M) {
		m.Assume("how a line break inside a value is replaced when printed is not judged, only that it cannot start a line")
		w := newCLIWorld(false)
		defer w.stop()
		seen := map[string]bool{}
		for i := range m.N(4000) {
			r := NewRand(m.Seed, fmt.Sprintf("C28/%d", i))
			g := newDocGen(r)
			g.hostile = i%4 == 3
			o := whoisDomain(g)
			if i%20 == 19 {
				o = newDocGen(r).top(topClasses[(i/20)%len(topClasses)])
				if o.class == "domain" {
					o = whoisDomain(g)
				}
			}
			b := render(r, o)
			want := wantWhois(o)
			for _, x := range want {
				seen[x.k] = true
			}
			m.Try(string(b), func() {
				v := decodeOr(m, b)
				if v == nil {
					return
				}
				if d := compareWhois(want, (&rdap.Response{Object: v}).ToWhoisStyleResponse()); d != "" {
					m.Violate(d, string(b), nil, nil)
				}
				if i%5 == 0 || g.hostile && i%2 == 0 || i%8 == 3 {
					w.serveBody(200, b)
					res := runCLI(false, "--cache-dir=", "-T", "60", "-s", w.URL, "-t", "domain", "--whois", "x.example")
					m.Count("command line runs", 1)
					if res.rc != 0 {
						m.Violate("the command line run failed", string(b), 0, res.err)
					} else if d := compareWhoisText(want, res.stdout); d != "" {
						m.Violate("command line: "+d, string(b), want, res.stdout)
					}
				}
			})
			m.Count("values compared", len(want))
			m.Saw(string(b), len(want) >= 3)
			m.Sample(string(b))
		}
		m.Count("distinct keys seen", len(seen))
		m.Try("nil object", func() {
			for _, r := range []*rdap.Response{{}, {Object: nil}, {Object: &rdap.Domain{}}, {Object: &rdap.Help{}}} {
				if d := compareWhois(nil, r.ToWhoisStyleResponse()); d != "" {
					m.Violate("empty response: "+d, nil, nil, nil)
				}
			}
		})
		if len(seen) < 49 {
			m.T.Logf("only %d keys", len(seen))
		}
	})
}

func compareWhoisText(want []kv, out string) string {
	// values of one key are printed together
	var order []string
	for _, x := range want {
		if !slices.Contains(order, x.k) {
			order = append(order, x.k)
		}
	}
	var lines []kv
	for _, k := range order {
		for _, x := range want {
			if x.k == k {
				lines = append(lines, x)
			}
		}
	}
	if strings.ContainsAny(out, "\r\x00") {
		return "the output contains a carriage return or NUL"
	}
	if len(lines) == 0 {
		if out != "" {
			return fmt.Sprintf("there should be no output, is %q", out)
		}
		return ""
	}
	if !strings.HasSuffix(out, "\n") {
		return "the output does not end with a line end"
	}
	got := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(got) != len(lines) {
		return fmt.Sprintf("there should be %d lines, there are %d", len(lines), len(got))
	}
	squeeze := func(s string) string { return strings.ReplaceAll(cleaner.Replace(s), " ", "") }
	for i, x := range lines {
		w := x.k + ": " + x.v
		if got[i] != w && (!strings.ContainsAny(x.v, "\n\r\x00") || squeeze(got[i]) != squeeze(w)) {
			return fmt.Sprintf("line %d should be %q, is %q", i+1, w, got[i])
		}
	}
	return ""
}
