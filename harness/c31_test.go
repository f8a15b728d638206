package harness

import (
	"fmt"
	"math/big"
	"net/netip"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/openrdap/rdap"
)

// typeNames: the type names the command line documents, with their aliases.
var typeNames = map[string]rdap.RequestType{
	"domain": rdap.DomainRequest, "dns": rdap.DomainRequest, "autnum": rdap.AutnumRequest, "as": rdap.AutnumRequest, "asn": rdap.AutnumRequest,
	"ip": rdap.IPRequest, "nameserver": rdap.NameserverRequest, "ns": rdap.NameserverRequest, "entity": rdap.EntityRequest, "help": rdap.HelpRequest,
	"domain-search": rdap.DomainSearchRequest, "domain-search-by-nameserver": rdap.DomainSearchByNameserverRequest,
	"domain-search-by-nameserver-ip": rdap.DomainSearchByNameserverIPRequest, "nameserver-search": rdap.NameserverSearchRequest,
	"nameserver-search-by-ip": rdap.NameserverSearchByNameserverIPRequest, "entity-search": rdap.EntitySearchRequest,
	"entity-search-by-handle": rdap.EntitySearchByHandleRequest, "autnum-search": rdap.AutnumSearchRequest,
}

func reqTypeOf(t rdap.RequestType) reqType {
	for _, rt := range reqTypes {
		if rt.t == t {
			return rt
		}
	}
	panic("no such type")
}

// opt writes an option in one of its spellings.
func opt(r *Rand, long, short, v string) []string {
	n := 2
	if short != "" && v != "" {
		n = 4
	}
	switch r.IntN(n) {
	case 1:
		if !strings.HasPrefix(v, "-") && !strings.HasPrefix(v, "@") && v != "" {
			return []string{"--" + long, v}
		}
	case 2:
		return []string{"-" + short, v}
	case 3:
		return []string{"-" + short + v}
	}
	return []string{"--" + long + "=" + v}
}

// weave puts the query somewhere among the option groups.
func weave(r *Rand, groups [][]string, query *string) (out []string) {
	groups = shuffled(r, groups)
	at := r.Range(0, len(groups))
	for i, g := range groups {
		if i == at && query != nil {
			out = append(out, *query)
		}
		out = append(out, g...)
	}
	if at == len(groups) && query != nil {
		out = append(out, *query)
	}
	return out
}

var c31Servers = []string{
	"http://s0.example/", "http://s0.example", "http://s1.example:8080/rdap", "http://s2.example/rdap/", "https://s3.example/a/b/c", "http://s0.example/a%2Fb/",
	"http://s0.example/a%20b/x", "http://s0.example/rdap/?k=v", "http://s0.example/rdap?k=v&k=w&z=%26%3D", "http://s0.example/rdap#frag", "http://[2001:db8::1]:8080",
	"http://192.0.2.1:81/x/", "https://s4.example:8443", "//s0.example/r/", "//s0.example",
}

var c31Entries = map[string][]svc{
	"dns.json":         {{[]string{"one"}, []string{"http://d1.example/"}}, {[]string{"two", "sub.one"}, []string{"http://d2.example/rdap"}}, {[]string{"xn--e1afmkfd"}, []string{"https://d3.example/r/"}}},
	"ipv4.json":        {{[]string{"10.0.0.0/8"}, []string{"http://d1.example/"}}, {[]string{"10.9.0.0/16", "192.0.2.0/24"}, []string{"http://d2.example/rdap"}}},
	"ipv6.json":        {{[]string{"2001:db8::/32"}, []string{"http://d1.example/"}}, {[]string{"2001:db8:9::/48"}, []string{"http://d2.example/rdap"}}},
	"asn.json":         {{[]string{"1-100"}, []string{"http://d1.example/"}}, {[]string{"200", "300-400"}, []string{"http://d2.example/rdap"}}},
	"object-tags.json": {{[]string{"VRSN"}, []string{"http://d1.example/"}}, {[]string{"RIPE"}, []string{"http://d2.example/rdap"}}},
}

// c31Boot lists query texts with their registry and server.
var c31Boot = []struct{ typ, text, file, server string }{
	{"domain", "a.one", "dns.json", "http://d1.example/"}, {"domain", "a.b.two", "dns.json", "http://d2.example/rdap"}, {"domain", "x.sub.one", "dns.json", "http://d2.example/rdap"},
	{"domain", "a.xn--e1afmkfd", "dns.json", "https://d3.example/r/"}, {"domain", "two", "dns.json", "http://d2.example/rdap"},
	{"ip", "10.1.2.3", "ipv4.json", "http://d1.example/"}, {"ip", "10.9.2.3", "ipv4.json", "http://d2.example/rdap"}, {"ip", "192.0.2.255", "ipv4.json", "http://d2.example/rdap"},
	{"ip", "2001:db8::1", "ipv6.json", "http://d1.example/"}, {"ip", "2001:db8:9::1", "ipv6.json", "http://d2.example/rdap"},
	{"autnum", "5", "asn.json", "http://d1.example/"}, {"autnum", "AS200", "asn.json", "http://d2.example/rdap"}, {"autnum", "as400", "asn.json", "http://d2.example/rdap"}, {"autnum", "AS007", "asn.json", "http://d1.example/"},
	{"entity", "ABC-VRSN", "object-tags.json", "http://d1.example/"}, {"entity", "A-B-RIPE", "object-tags.json", "http://d2.example/rdap"},
	{"", "10.9.0.0/17", "ipv4.json", "http://d2.example/rdap"}, {"", "2001:db8:9:1::/64", "ipv6.json", "http://d2.example/rdap"},
}

// c31World serves the registries at any base URL and answers everything else.
func c31World(doc string) func(netReq) netReply {
	return func(q netReq) netReply {
		u := mustURL(q.url)
		if h := u.Hostname(); h == "boot.example" || h == "data.iana.org" || h == "test.rdap.net" {
			f := u.Path[strings.LastIndex(u.Path, "/")+1:]
			if s, ok := c31Entries[f]; ok {
				return netReply{status: 200, body: regDoc(s, f == "object-tags.json", nil)}
			}
			return netReply{status: 404}
		}
		return okReply(doc)
	}
}

type c31Ctx struct {
	m  *M
	w  *netWorld
	ua string
}

// judge compares the requests seen with the expectation: at most one registry download, then one RDAP request.
func (c *c31Ctx) judge(kase string, reqs []netReq, registryURL string, rt reqType, server, text, raw string) bool {
	var urls []string
	for _, q := range reqs {
		urls = append(urls, q.method+" "+q.url)
	}
	want := fmt.Sprintf("registry %q, then type %v of %q at %q %s", registryURL, rt.t, text, server, raw)
	bad := func(what string) bool {
		c.m.Violate(what, kase, want, fmt.Sprint(urls))
		return false
	}
	i := 0
	if registryURL != "" {
		if len(reqs) == 0 || reqs[0].url != registryURL {
			return bad("the registry was not downloaded from where the options say")
		}
		i = 1
	}
	if len(reqs) != i+1 {
		return bad("not exactly the requests the options describe")
	}
	q := reqs[i]
	for _, q := range reqs {
		if q.method != "GET" {
			return bad("method is not GET")
		}
	}
	if raw != "" {
		a, b := mustURL(raw), mustURL(q.url)
		a.Fragment = ""
		a.RawFragment = ""
		if a.Path == "" {
			a.Path = "/"
		}
		a.Host = strings.TrimSuffix(a.Host, ":") // HTTP leaves out an empty port
		if a.String() != b.String() {
			return bad("the URL asked for was not requested as it is")
		}
	} else {
		u, err := url.Parse(q.url)
		if err != nil {
			return bad("the request URL does not parse")
		}
		su := mustURL(server)
		if su.Scheme == "" {
			su.Scheme = "http"
		}
		if why := c11Check(rt, su, text, nil, u); why != "" {
			return bad("the RDAP request is not the one described: " + why)
		}
	}
	if ua := q.header.Get("User-Agent"); ua != c.ua {
		c.m.Violate("the RDAP request does not carry the client's user agent", kase, c.ua, ua)
		return false
	}
	if acc := strings.Join(q.header.Values("Accept"), ","); !strings.Contains(acc, "application/rdap+json") {
		c.m.Violate("the RDAP request does not ask for RDAP", kase, "application/rdap+json", acc)
		return false
	}
	return true
}

// noise: options that do not change the requests.
func noise(r *Rand) (out [][]string) {
	for range r.IntN(3) {
		out = append(out, pick(r, [][]string{{"-j"}, {"--raw"}, {"-v"}, {"--text"}, {"-w"}, {"-k"}, {"-T", "25"}, {"--timeout=300"}, {"-f", "all"}, {"--bs-ttl=77"}, {"-jr"}, {"--exp=object_tag"}, {"--exp", "object_tag"}, {"-T", "65535"}, {"-T", pick(r, []string{"256", "512", "768", "1024", "4096", "32768", "65280"})}, {"--fetch=registrant"}}))
	}
	seen := map[string]bool{}
	var ded [][]string
	for _, g := range out {
		k := strings.Trim(strings.Split(g[0], "=")[0], "-")
		if k == "exp" {
			ded = append(ded, g)
			continue
		}
		if strings.HasPrefix(k, "j") || k == "raw" {
			k = "j"
		}
		if k == "timeout" {
			k = "T"
		}
		if !seen[k] {
			seen[k] = true
			ded = append(ded, g)
		}
	}
	return ded
}

func c31Text(r *Rand) string {
	t := hostileText(r)
	if strings.HasPrefix(t, "-") || strings.HasPrefix(t, "@") {
		t = "x" + t
	}
	return t
}

func (c *c31Ctx) run(args []string, bin bool) (cliResult, []netReq) {
	c.w.set(c31World(okDoc("c31")))
	var res cliResult
	if bin {
		var err error
		if res, err = runBin(args...); err != nil {
			panic(err)
		}
		c.m.Count("runs of the real command", 1)
	} else {
		res = runCLI(false, append([]string{}, args...)...)
	}
	return res, c.w.seen()
}

func (c *c31Ctx) explicit(r *Rand, i int) {
	names := sortedKeys(typeNames)
	name := names[i%len(names)]
	server := pick(r, c31Servers)
	text := c31Text(r)
	var want string
	switch typeNames[name] {
	case rdap.AutnumRequest:
		n := uint32(r.IntN(1 << 30))
		if r.Chance(0.3) {
			n = pick(r, []uint32{0, 1, 4294967295, 65535, 65536})
		}
		want = fmt.Sprint(n)
		text = pick(r, []string{"", "AS", "as", "aS", "As"}) + pick(r, []string{"", "", "0", "00"}) + want
	case rdap.IPRequest:
		var a netip.Addr
		if r.Chance(0.5) {
			a = netip.AddrFrom4([4]byte{byte(r.IntN(256)), byte(r.IntN(256)), byte(r.IntN(256)), byte(r.IntN(256))})
		} else {
			var b [16]byte
			for k := range b {
				if r.Chance(0.5) {
					b[k] = byte(r.IntN(256))
				}
			}
			b[0] = 0x20
			a = netip.AddrFrom16(b)
		}
		if r.Chance(0.25) { // addresses with a meaning of their own are looked up like any other
			a = netip.MustParseAddr(pick(r, []string{"::", "::1", "fe80::1", "fe80::1:2:3", "fe80:0:0:1::", "ff02::1", "ff0e::1:ff", "fc00::1", "fd12:3456::1", "2002:c000:201::1", "64:ff9b::1", "100::1", "::2", "::1:0:0", "0.0.0.0", "127.0.0.1", "169.254.1.1", "224.0.0.1", "255.255.255.255", "10.0.0.1", "192.168.0.1", "100.64.0.1", "0.0.0.1"}))
		}
		want = a.String()
		text = want
		if r.Chance(0.3) {
			text = pick(r, []string{strings.ToUpper(want), a.StringExpanded()})
		}
	default:
		want = text
	}
	q := &text
	if name == "help" && r.Chance(0.5) {
		q = nil
	}
	args := weave(r, append(noise(r), opt(r, "type", "t", name), opt(r, "server", "s", server), []string{"--cache-dir="}), q)
	kase := fmt.Sprintf("%q", args)
	bin := i%29 == 0 && !strings.Contains(kase, `\x00`)
	c.m.Try(kase, func() {
		res, reqs := c.run(args, bin)
		c.m.Saw(kase, true)
		c.m.Count("explicit server", 1)
		if c.judge(kase, reqs, "", reqTypeOf(typeNames[name]), server, want, "") && res.rc != 0 {
			c.m.Violate("the answered request did not succeed", kase, 0, fmt.Sprintf("%+v", res))
		}
	})
	c.m.Sample(kase)
}

var c31Bases = []struct {
	args []string
	url  string
}{
	{nil, "https://data.iana.org/rdap/"}, {[]string{"--bs-url=http://boot.example/b"}, "http://boot.example/b/"}, {[]string{"--bs-url", "http://boot.example/b/"}, "http://boot.example/b/"},
	{[]string{"--bs-url=https://boot.example:444/x/y"}, "https://boot.example:444/x/y/"}, {[]string{"-e"}, "https://test.rdap.net/rdap/"}, {[]string{"--experimental"}, "https://test.rdap.net/rdap/"},
	{[]string{"--exp=test_rdap_net"}, "https://test.rdap.net/rdap/"}, {[]string{"--exp", "test_rdap_net", "--exp=object_tag"}, "https://test.rdap.net/rdap/"},
	{[]string{"-e", "--bs-url=http://boot.example/b"}, "http://boot.example/b/"}, {[]string{"--exp=object_tag"}, "https://data.iana.org/rdap/"}, {[]string{"--exp=object_tag", "--exp=object_tag"}, "https://data.iana.org/rdap/"}, {[]string{"--bs-url=default"}, "https://data.iana.org/rdap/"},
}

// c31Base: a bootstrap service, as options and as the URL its files are beneath.
func c31Base(r *Rand) (b struct {
	args []string
	url  string
}) {
	if r.Chance(0.5) {
		return pick(r, c31Bases)
	}
	u := pick(r, []string{"http", "https"}) + "://boot.example" + pick(r, []string{"", ":81", ":8443"})
	for range r.IntN(4) {
		seg := pick(r, []string{"rdap", "a", "b.c", "v1.json", "dns.json", "x.html", "index", "%20", "a%2Fb", "~x", "rdap.", "1", "A", "..x", "bootstrap", "s;p=1", "a,b", "a:b"})
		if dictChance(r, 0.1) {
			seg = url.PathEscape(r.word(pick(r, []string{"x", "v1", ".a"})))
			if d := mustURL("http://h/" + seg); d.Path == "/." || d.Path == "/.." || d.Host != "h" {
				seg = "x"
			}
		}
		u += "/" + seg
	}
	b.url = u + "/"
	if r.Chance(0.5) {
		u += "/"
	}
	b.args = []string{"--bs-url=" + u}
	if r.Chance(0.2) {
		b.args = append(b.args, pick(r, []string{"-e", "--exp=test_rdap_net"}))
	}
	return b
}

// wantText is how a bootstrapped text appears in the request.
func wantText(typ, text string) string {
	if typ == "autnum" {
		n, _ := new(big.Int).SetString(strings.TrimPrefix(strings.ToUpper(text), "AS"), 10)
		return n.String()
	}
	return text
}

func (c *c31Ctx) bootstrapped(r *Rand, i int) {
	b := c31Boot[i%len(c31Boot)]
	base := c31Base(r)
	groups := append(noise(r), []string{"--cache-dir="}, base.args)
	rt := reqTypeOf(rdap.IPRequest)
	if b.typ != "" {
		rt = reqTypeOf(typeNames[b.typ])
	}
	typed := b.typ != "" && (r.Chance(0.5) || b.text == "two")
	if typed {
		var alias []string
		for _, n := range sortedKeys(typeNames) {
			if typeNames[n] == rt.t {
				alias = append(alias, n)
			}
		}
		groups = append(groups, opt(r, "type", "t", pick(r, alias)))
	}
	args := weave(r, groups, &b.text)
	kase := fmt.Sprintf("%q", args)
	c.m.Try(kase, func() {
		res, reqs := c.run(args, i%29 == 0)
		c.m.Saw(kase, true)
		c.m.Count("bootstrapped", 1)
		if c.judge(kase, reqs, base.url+b.file, rt, b.server, wantText(b.typ, b.text), "") && res.rc != 0 {
			c.m.Violate("the answered request did not succeed", kase, 0, fmt.Sprintf("%+v", res))
		}
	})
	c.m.Sample(kase)
}

// auto: detected types with an explicit server, and URLs.
func (c *c31Ctx) auto(r *Rand) {
	text := c13Text(r)
	if strings.HasPrefix(text, "-") || strings.HasPrefix(text, "@") {
		return
	}
	cl, ok := classify(text)
	if !ok {
		return
	}
	server := pick(r, c31Servers)
	groups := append(noise(r), []string{"--cache-dir="})
	if cl.t == rdap.RawRequest {
		u, err := url.Parse(cl.raw)
		if err != nil || u.Host == "" || u.User != nil || strings.ContainsAny(u.Host, "% []") || u.Port() != "" || u.RawPath != "" && strings.Contains(u.Path, " ") || u.Hostname() != strings.ToLower(u.Hostname()) {
			return
		}
	} else {
		groups = append(groups, opt(r, "server", "s", server))
	}
	args := weave(r, groups, &text)
	kase := fmt.Sprintf("%q", args)
	c.m.Try(kase, func() {
		_, reqs := c.run(args, false)
		c.m.Saw(kase, true)
		if cl.t == rdap.RawRequest {
			c.m.Count("detected URLs", 1)
			c.judge(kase, reqs, "", reqType{}, "", "", cl.raw)
			return
		}
		c.m.Count("detected types", 1)
		c.judge(kase, reqs, "", reqTypeOf(cl.t), server, cl.query, "")
	})
}

func (c *c31Ctx) urls(r *Rand) {
	text := pick(r, []string{"http", "https"}) + "://" + pick(r, []string{"s0.example", "s1.example:8080", "192.0.2.7"}) + pick(r, []string{"", "/", "/domain/x", "/a%2Fb/c", "/?q=1", "/x?y=z&y=%26", "//a//b", "/a/../b", "/x#frag", "/%41", "/help"})
	args := weave(r, append(noise(r), []string{"--cache-dir="}, opt(r, "type", "t", "url")), &text)
	kase := fmt.Sprintf("%q", args)
	c.m.Try(kase, func() {
		_, reqs := c.run(args, false)
		c.m.Saw(kase, true)
		c.m.Count("url type", 1)
		c.judge(kase, reqs, "", reqType{}, "", "", text)
	})
}

// invalid input sends nothing.
func (c *c31Ctx) invalid(r *Rand, f cliFiles) {
	groups := append(noise(r), []string{"--cache-dir="})
	srv := func() { groups = append(groups, opt(r, "server", "s", pick(r, c31Servers))) }
	text := pick(r, []string{"a.one", "10.1.2.3", "AS5", "x-VRSN"})
	q := &text
	switch r.IntN(9) {
	case 0, 1:
		text = pick(r, []string{"x", "", "AS", "4294967296", "AS4294967296", "99999999999999999999999", "1.2", "1.0", "ASAS5", "5x", "0x5", "+5", " 5", "5 ", "A5", "S5", "5AS", "1_0", "1e1", "AS-5", "AS 5", "\u0665", "a.one"})
		if r.Chance(0.6) {
			text = c31Text(r)
			if r.Chance(0.5) { // almost a number
				v := pick(r, []string{"", "AS", "as"}) + pick(r, []string{"5", "64512", "4294967295"})
				w := pick(r, []string{".", "0.", "-", "_", ",", "AS", "as", " ", "0x", "+", "#", "x", "/", ":", "\t", "\u00a0", "ASN", "1-", "%", "e0", ".0", "\u200b"})
				if dictChance(r, 0.3) {
					w = r.word("1")
				}
				k := r.IntN(len(v) + 1)
				text = v[:k] + w + v[k:]
				if strings.HasPrefix(text, "-") || strings.HasPrefix(text, "@") {
					return
				}
			}
			if asRE.MatchString(text) || strings.ContainsAny(text, "\u017f\u212a") {
				return
			}
		}
		groups = append(groups, opt(r, "type", "t", pick(r, []string{"as", "asn", "autnum"})))
		if r.Chance(0.7) {
			srv()
		}
	case 2, 3:
		text = pick(r, []string{"x", "", "1.2.3", "256.1.1.1", "10.0.0.0/8", "2001:db8::/32", "fe80::1%eth0", "1.2.3.4:80", "[::1]", "::g", "a.one", "01.2.3.4", "1.2.3.4.5", " 1.2.3.4", "1.2.3.4 ", "1:2", "::1::", "AS5", "5"})
		if r.Chance(0.6) {
			text = c31Text(r)
			if r.Chance(0.5) { // almost an address
				v := pick(r, []string{"192.0.2.1", "2001:db8::1", "::1", "10.1.2.3"})
				w := pick(r, []string{".", "-", "/", "/32", "[", "]", " ", "%0", ":", "x", ",", "\t", "\u00a0", "0", "::", "/128", ":80", "0x", "1.", "http://"})
				if dictChance(r, 0.3) {
					w = r.word("1")
				}
				k := pick(r, []int{0, len(v), r.IntN(len(v))})
				text = v[:k] + w + v[k:]
				if strings.HasPrefix(text, "-") || strings.HasPrefix(text, "@") {
					return
				}
			}
			if _, err := netip.ParseAddr(text); err == nil {
				return
			}
		}
		groups = append(groups, opt(r, "type", "t", "ip"))
		if r.Chance(0.7) {
			srv()
		}
	case 4:
		text = pick(r, []string{"http://s0.example/%zz", "http://[::1/x", ":bad", "http://s0.example:port/", "http://a b/", "http://s0.example/\x7f", "%", "1:"})
		groups = append(groups, opt(r, "type", "t", "url"))
	case 5:
		groups = append(groups, opt(r, "type", "t", pick(r, []string{"nosuch", "Domain", "domains", "DNS", "raw", "auto", "ipv4", "search", "domain ", "nameserver-search-by-nameserver-ip", "entities", "URL", "whois"})))
		if dictChance(r, 0.15) {
			w := r.word(pick(r, []string{"-", "s", "search", "-search"}))
			if _, ok := typeNames[w]; ok || w == "url" || w == "" || strings.HasPrefix(w, "@") {
				return
			}
			groups[len(groups)-1] = []string{"--type=" + w}
		}
		if r.Chance(0.7) {
			srv()
		}
	case 6:
		text = pick(r, []string{"http://s0.example/domain/x", "https://s1.example/x?y"})
		if r.Chance(0.5) {
			groups = append(groups, opt(r, "type", "t", "url"))
		}
		if r.Chance(0.4) {
			groups = append(groups, opt(r, "server", "s", pick(r, []string{text, strings.TrimSuffix(text, "x"), "http://s0.example/domain/x", "//s0.example/domain/x"})))
		} else {
			srv()
		}
	case 7:
		switch r.IntN(6) {
		case 0:
			groups = append(groups, opt(r, "server", "s", pick(r, []string{"http://%zz", "http://[::1", ":x", "http://a b/", "http://s0.example:port", "ftp://s0.example/", "HTTPX://s0.example/r", "file:///etc/", "gopher://s0.example:70/", "ws://s0.example/", "urn:x", "http:///x", "https://"})))
		case 1:
			groups = append(groups, []string{"--bs-url=" + pick(r, []string{"http://%zz", "http://[::1", ":x", "http://a b/"})})
		case 2:
			groups = append(groups, []string{"--exp=nosuch"})
			srv()
		case 3:
			groups = append(groups, pick(r, [][]string{{"--timeout=x"}, {"--timeout=65536"}, {"--timeout=-1"}, {"-T", "1.5"}, {"-T", "10s"}}))
			srv()
			for k := len(groups) - 3; k >= 0; k-- {
				if g := groups[k][0]; g == "-T" || strings.HasPrefix(g, "--timeout") {
					groups = append(groups[:k], groups[k+1:]...)
				}
			}
		case 4:
			groups = append(groups, pick(r, [][]string{{"--nosuch"}, {"--nosuch=1"}, {"-Z"}, {"-jZ"}}))
			srv()
		default:
			groups = append(groups, pick(r, [][]string{{"-C", f.cert}, {"-K", f.key}, {"-C", f.cert, "-K", f.key, "-P", f.file}, {"-C", f.cert, "-P", f.file}, {"-P", f.file}, {"-C", f.cert, "-K", f.otherKey}, {"--cert=" + f.badPEM, "-K", f.key}}))
			srv()
		}
	default:
		q = nil
		srv()
		if r.Chance(0.5) {
			groups = append(groups, opt(r, "type", "t", pick(r, []string{"domain", "ip", "url", "entity-search"})))
		}
	}
	args := weave(r, groups, q)
	kase := fmt.Sprintf("%q", args)
	c.m.Try(kase, func() {
		res, reqs := c.run(args, false)
		c.m.Saw(kase, true)
		c.m.Count("invalid", 1)
		c.w.mu.Lock()
		conns := append([]string{}, c.w.connects...)
		c.w.mu.Unlock()
		if len(reqs) != 0 || len(conns) != 0 {
			c.m.Violate("invalid input sent a request", kase, "no request", fmt.Sprint(c.w.urls(), conns, res))
		} else if res.rc != 1 {
			c.m.Violate("invalid input was accepted", kase, 1, fmt.Sprintf("%+v", res))
		}
	})
}

// unserved: types whose server cannot be determined, and texts without a match, send no RDAP request.
func (c *c31Ctx) unserved(r *Rand) {
	groups := append(noise(r), []string{"--cache-dir="}, []string{"--bs-url=http://boot.example/b"})
	text := c31Text(r)
	file := ""
	if r.Chance(0.6) {
		groups = append(groups, opt(r, "type", "t", pick(r, []string{"nameserver", "ns", "help", "domain-search", "domain-search-by-nameserver", "domain-search-by-nameserver-ip", "nameserver-search", "nameserver-search-by-ip", "entity-search", "entity-search-by-handle", "autnum-search"})))
	} else {
		e := pick(r, [][2]string{{"a.three", "dns.json"}, {"11.1.2.3", "ipv4.json"}, {"2001:db9::1", "ipv6.json"}, {"AS101", "asn.json"}, {"AS201", "asn.json"}, {"x-NOSUCH", "object-tags.json"}})
		text, file = e[0], e[1]
	}
	args := weave(r, groups, &text)
	kase := fmt.Sprintf("%q", args)
	c.m.Try(kase, func() {
		res, reqs := c.run(args, false)
		c.m.Saw(kase, true)
		c.m.Count("unserved", 1)
		var want []string
		if file != "" {
			want = []string{"http://boot.example/b/" + file}
		}
		if !eqStrings(c.w.urls(), want) || res.rc != 1 {
			c.m.Violate("a query without a server sent other requests", kase, fmt.Sprint(want), fmt.Sprint(len(reqs), c.w.urls(), res))
		}
	})
}

// cache runs a sequence of command lines over one cache directory, ageing its files in between.
func (c *c31Ctx) cache(r *Rand, i int) {
	m := c.m
	root := scratchDir(m)
	var env, dirArgs []string
	dir := filepath.Join(root, "c", "deep")
	bin := false
	disk := true
	mode := []string{"given", "relative", "XDG", "HOME", "memory", "given", "relative XDG"}[i%7]
	switch mode {
	case "given":
		dirArgs = opt(r, "cache-dir", "", dir)
		env = []string{"HOME=" + filepath.Join(root, "h")}
	case "relative":
		w := pick(r, []string{"none", "off", "no", "false", "0", "cache", "memory", "default/x", "Default", "DEFAULT", "a b", "./default", "null", "-", " "})
		if dictChance(r, 0.3) {
			if d := r.word("x"); filepath.Clean(d) == d && !strings.ContainsAny(d, "/\x00") && d != "default" && d != "." && d != ".." && len(d) < 100 && d != "h" && d != "xdg" {
				w = d
			}
		}
		dirArgs = []string{"--cache-dir=" + w}
		dir = filepath.Join(root, w)
		old, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		if err := os.Chdir(root); err != nil {
			panic(err)
		}
		defer func() { _ = os.Chdir(old) }()
	case "relative XDG": // ignored, as its specification says
		bin = true
		env = []string{"XDG_CACHE_HOME=" + pick(r, []string{"xdg", "./xdg", "../xdg", "x y"}), "HOME=" + filepath.Join(root, "h")}
		dir = filepath.Join(root, "h", ".cache", "openrdap")
	case "XDG":
		bin = true
		env = []string{"XDG_CACHE_HOME=" + filepath.Join(root, "xdg"), "HOME=" + filepath.Join(root, "h")}
		dir = filepath.Join(root, "xdg", "openrdap")
		if r.Chance(0.5) {
			dirArgs = []string{"--cache-dir=default"}
		}
	case "HOME":
		bin = true
		env = []string{"XDG_CACHE_HOME=", "HOME=" + filepath.Join(root, "h")}
		dir = filepath.Join(root, "h", ".cache", "openrdap")
	case "memory":
		disk = false
		bin = r.Chance(0.3)
		env = []string{"XDG_CACHE_HOME=" + filepath.Join(root, "xdg"), "HOME=" + filepath.Join(root, "h")}
		dirArgs = []string{"--cache-dir="}
	}
	for _, d := range []string{"xdg", "h"} {
		if err := os.Mkdir(filepath.Join(root, d), 0o700); err != nil {
			panic(err)
		}
	}
	age := map[string]time.Duration{} // registry file -> age
	ttls := []int{3600, 3600, 3600, 0, pick(r, []int{2147483647, 2147483648, 3000000000, 4294967295, 65536, 131072}), pick(r, []int{100, 1000, 100000, 4000000, 86400, 604800}), r.Range(60, 500000), int(r.number(60, 4294967295, 7200))}
	base := c31Base(r)
	var hist []string
	for range r.Range(3, 7) {
		b := c31Boot[r.IntN(16)]
		if r.Chance(0.6) {
			b = c31Boot[r.IntN(5)]
		}
		groups := append([][]string{}, dirArgs)
		ttl := 3600
		if r.Chance(0.5) {
			ttl = pick(r, ttls[3:])
			groups = append(groups, opt(r, "bs-ttl", "", fmt.Sprint(ttl)))
		}
		if b.typ != "" {
			groups = append(groups, opt(r, "type", "t", b.typ))
		}
		groups = append(groups, base.args)
		args := weave(r, groups, &b.text)
		a, have := age[b.file]
		fresh := disk && have && a < time.Duration(ttl)*time.Second
		hist = append(hist, fmt.Sprintf("%q (file age %v)", args, a))
		kase := fmt.Sprintf("%s: %s", mode, strings.Join(hist, "; "))
		ok := m.Try(kase, func() {
			c.w.set(c31World(okDoc("c31")))
			if bin {
				if _, err := runBinEnv(env, args...); err != nil {
					panic(err)
				}
			} else {
				runCLI(false, append([]string{}, args...)...)
			}
			m.Saw(kase, true)
			reg := base.url + b.file
			if fresh {
				reg = ""
				m.Count("downloads suppressed by a fresh cache", 1)
			} else if have {
				m.Count("downloads after expiry", 1)
			}
			c.judge(kase, c.w.seen(), reg, reqTypeOf(typeNames[b.typ]), b.server, wantText(b.typ, b.text), "")
		})
		if !ok {
			return
		}
		if !fresh {
			age[b.file] = 0
		}
		// age everything, staying clear of the boundaries
		by := pick(r, []time.Duration{0, 0, 40 * time.Second, 200 * time.Second, 950 * time.Second, 3000 * time.Second, 3500 * time.Second, 3700 * time.Second, 101000 * time.Second})
		if r.Chance(0.6) { // just before or after the limit of one of the files
			by = max(0, time.Duration(pick(r, ttls[2:]))*time.Second-age[b.file]+pick(r, []time.Duration{-40, 40, -60, 60})*time.Second)
		}
		for _, a := range age {
			if a+by > 40*365*24*time.Hour || by > 1<<61 { // beyond what file systems can store
				by = 0
			}
			for _, t := range ttls {
				if t == 0 || by > 1<<61 {
					continue
				}
				if d := a + by - time.Duration(t)*time.Second; d > -30*time.Second && d < 30*time.Second {
					by = 0
				}
			}
		}
		if by == 0 {
			continue
		}
		for k := range age {
			age[k] += by
		}
		if disk {
			es, err := os.ReadDir(dir)
			if err != nil {
				m.Violate("the cache directory was not created where the options say", kase, dir, err.Error())
				return
			}
			for _, e := range es {
				st, err := e.Info()
				if err != nil {
					panic(err)
				}
				at := st.ModTime().Add(-by)
				if err := os.Chtimes(filepath.Join(dir, e.Name()), at, at); err != nil {
					panic(err)
				}
			}
		}
	}
	// nothing written elsewhere
	var files []string
	_ = filepath.WalkDir(root, func(p string, d os.DirEntry, _ error) error {
		if d != nil && !d.IsDir() && !strings.HasPrefix(p, dir+"/") {
			files = append(files, p)
		}
		return nil
	})
	if len(files) > 0 {
		m.Violate("files were cached somewhere else", strings.Join(hist, "; "), dir, fmt.Sprint(files))
	}
	m.Sample(mode + ": " + strings.Join(hist, "; "))
}

// timeouts: hanging servers.
func (c *c31Ctx) timeouts() {
	type tcase struct {
		args []string
		want time.Duration
		rep  func(stop chan struct{}) func(netReq) netReply
	}
	hang := func(stop chan struct{}) func(netReq) netReply {
		return func(netReq) netReply { <-stop; return netReply{} }
	}
	hangAfterBoot := func(stop chan struct{}) func(netReq) netReply {
		return func(q netReq) netReply {
			if strings.HasPrefix(q.url, "http://boot.example/") {
				time.Sleep(600 * time.Millisecond)
				return c31World("")(q)
			}
			<-stop
			return netReply{}
		}
	}
	for _, t := range []tcase{
		{[]string{"--timeout=1", "-s", "http://s0.example/", "x.one"}, time.Second, hang},
		{[]string{"-T2", "--bs-url=http://boot.example/b", "x.one"}, 2 * time.Second, hang},
		{[]string{"-T", "1", "--bs-url=http://boot.example/b", "x.one"}, time.Second, hangAfterBoot},
		{[]string{"--bs-url=http://boot.example/b", "x.one"}, 30 * time.Second, hangAfterBoot},
	} {
		kase := fmt.Sprintf("hanging server, %q", t.args)
		stop := make(chan struct{})
		c.w.set(t.rep(stop))
		giveUp := time.AfterFunc(t.want+120*time.Second, func() { close(stop) })
		start := time.Now()
		res := runCLI(false, append([]string{"--cache-dir="}, t.args...)...)
		d := time.Since(start)
		if giveUp.Stop() {
			close(stop)
		} else {
			c.m.Violate("the timeout option does not bound the query", kase, t.want.String(), d.String())
			continue
		}
		c.m.Saw(kase, true)
		c.m.Count("timeouts observed", 1)
		if res.rc != 1 || d < t.want-50*time.Millisecond {
			c.m.Violate("the query ended before its timeout", kase, t.want.String(), fmt.Sprint(d, res))
		} else if d > t.want+20*time.Second {
			c.m.Violate("the query outlived its timeout", kase, t.want.String(), fmt.Sprint(d, res))
		}
	}
	for _, a := range [][]string{{"-T", "0", "-s", "http://s0.example/", "x.one"}, {"--timeout=0", "--bs-url=http://boot.example/b", "x.one"}, {"-T0", "http://s0.example/domain/x"}} {
		c.w.set(c31World(okDoc("c31")))
		start := time.Now()
		res := runCLI(false, append([]string{"--cache-dir="}, a...)...)
		c.m.Saw(fmt.Sprint(a), true)
		if res.rc != 1 || time.Since(start) > 20*time.Second {
			c.m.Violate("a query outlived its timeout of 0 seconds", fmt.Sprint(a), 1, fmt.Sprintf("%+v", res))
		}
	}
	// a slow answer within the timeout
	c.w.set(func(q netReq) netReply { time.Sleep(1500 * time.Millisecond); return okReply(okDoc("slow")) })
	if res := runCLI(false, "--cache-dir=", "-T", "60", "-s", "http://s0.example/", "x.one"); res.rc != 0 {
		c.m.Violate("an answer within the timeout was not used", "-T 60, answer after 1.5 s", 0, fmt.Sprintf("%+v", res))
	}
	c.m.Saw("slow answer", true)
}

func TestC31(t *testing.T) {
	monitor(t, "C31", "a command line run whose HTTP requests, as received by the simulated network, were compared with the options; distinct by argument list (and cache history)", 2000, func(m *M) {
		m.Assume("query texts do not start with - or @; cached files are at least 30 s away from their expiry; hosts are reached through an HTTP proxy that plays the network")
		w := newNetWorld(m)
		defer w.stop()
		c := &c31Ctx{m: m, w: w, ua: strings.TrimSpace(runCLI(false, "--version").stdout)}
		f := newCLIFiles(m)
		for i := range m.N(1200) {
			r := NewRand(m.Seed, fmt.Sprintf("C31/%d", i))
			c.explicit(r, i)
			c.bootstrapped(r, i)
			c.auto(r)
			if i%4 == 0 {
				c.urls(r)
				c.unserved(r)
			}
			c.invalid(r, f)
		}
		for i := range m.N(60) {
			c.cache(NewRand(m.Seed, fmt.Sprintf("C31c/%d", i)), i)
		}
		c.timeouts()
	})
}
