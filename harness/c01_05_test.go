package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/netip"
	"net/url"
	"reflect"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/openrdap/rdap/bootstrap"
)

// lookuper answers a question, directly on a registry or through a bootstrap client.
type lookuper func(q string) (*bootstrap.Answer, error)

// lookupersFor builds the registry from doc in the given number of independent ways.
func lookupersFor(m *M, t bootstrap.RegistryType, doc []byte, direct int) []lookuper {
	var out []lookuper
	for range direct {
		var reg bootstrap.Registry
		var err error
		switch t {
		case bootstrap.DNS:
			reg, err = bootstrap.NewDNSRegistry(doc)
		case bootstrap.IPv4:
			reg, err = bootstrap.NewNetRegistry(doc, 4)
		case bootstrap.IPv6:
			reg, err = bootstrap.NewNetRegistry(doc, 6)
		case bootstrap.ASN:
			reg, err = bootstrap.NewASNRegistry(doc)
		case bootstrap.ServiceProvider:
			reg, err = bootstrap.NewServiceProviderRegistry(doc)
		}
		if err != nil {
			m.Violate("a well-formed registry file was rejected", string(doc), "accepted", err.Error())
			continue
		}
		out = append(out, func(q string) (*bootstrap.Answer, error) {
			return reg.Lookup(&bootstrap.Question{RegistryType: t, Query: q})
		})
	}
	rt := &script{fn: func(req *http.Request) (*http.Response, error) { return httpResp(200, doc, nil), nil }}
	cl := &bootstrap.Client{HTTP: rt.client()}
	out = append(out, func(q string) (*bootstrap.Answer, error) {
		return cl.Lookup(&bootstrap.Question{RegistryType: t, Query: q})
	})
	return out
}

// judge compares one answer with the model. wantEntry is nil if only an error is acceptable.
type want struct {
	err   bool
	entry func(string) bool // nil: must be empty
	desc  string
	urls  []string
	query *string
}

func judge(m *M, kind, doc, qtext string, a *bootstrap.Answer, err error, w want) {
	kase := fmt.Sprintf("%s question %q on registry %s", kind, qtext, doc)
	if w.err {
		if err == nil {
			m.Violate("a malformed question was answered", kase, "error", fmt.Sprintf("%+v", a))
		}
		return
	}
	if err != nil || a == nil {
		m.Violate("a well-formed question failed", kase, w.desc, fmt.Sprint(a, err))
		return
	}
	got := urlStrings(a.URLs)
	okEntry := a.Entry == ""
	if w.entry != nil {
		okEntry = w.entry(a.Entry)
	}
	if !okEntry || !eqStrings(got, w.urls) {
		m.Violate("wrong answer", kase, fmt.Sprintf("entry %s urls %v", w.desc, w.urls), fmt.Sprintf("entry %q urls %v", a.Entry, got))
		return
	}
	if w.query != nil && a.Query != *w.query {
		m.Violate("wrong query text in the answer", kase, *w.query, a.Query)
	}
}

// ---------------------------------------------------------------- C01

func TestC01(t *testing.T) {
	monitor(t, "C01", "registries of random nested/adjacent/disjoint networks plus junk entries; questions at both edges of every network, just outside, inside, parents and children, random, other family, malformed. Non-trivial: at least one network contains the question or the question is malformed; distinct by (registry, question).", 5000, func(m *M) {
		for i := range m.N(500) {
			four := i%2 == 0
			c01One(m, four)
		}
	})
}

// knownNets are networks with special meanings, which a registry may list like any other.
var knownNets = map[bool][]string{
	true:  {"0.0.0.0/0", "0.0.0.0/8", "0.0.0.0/32", "10.0.0.0/8", "127.0.0.0/8", "127.0.0.1/32", "169.254.0.0/16", "172.16.0.0/12", "192.0.0.0/24", "192.168.0.0/16", "192.88.99.0/24", "198.18.0.0/15", "224.0.0.0/4", "240.0.0.0/4", "255.255.255.255/32", "128.0.0.0/1", "0.0.0.0/1", "255.0.0.0/8", "100.64.0.0/10"},
	false: {"::/0", "::/128", "::1/128", "8000::/1", "2000::/3", "fe80::/10", "fc00::/7", "ff00::/8", "2002::/16", "64:ff9b::/96", "2001::/32", "2001:db8::/32", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/128", "2001:200::/23", "2001:500::/30", "ff02::1/128"},
}

func randPrefix(r *Rand, four bool, near []netip.Prefix) netip.Prefix {
	bitsMax := 128
	if four {
		bitsMax = 32
	}
	var a netip.Addr
	if len(near) > 0 && r.Chance(0.7) {
		p := pick(r, near)
		switch r.IntN(4) {
		case 0: // nested
			b := r.Range(p.Bits(), bitsMax)
			return netip.PrefixFrom(randAddrIn(r, p), b).Masked()
		case 1: // parent
			return netip.PrefixFrom(p.Addr(), r.Range(0, p.Bits())).Masked()
		case 2: // adjacent, same size
			n, ok := lastAddr(p), true
			_ = ok
			nx := n.Next()
			if nx.IsValid() {
				return netip.PrefixFrom(nx, p.Bits()).Masked()
			}
		case 3: // same size elsewhere close
			b := p.Bits()
			if b > 4 {
				par := netip.PrefixFrom(p.Addr(), b-4).Masked()
				return netip.PrefixFrom(randAddrIn(r, par), b).Masked()
			}
		}
	}
	if four {
		a = netip.AddrFrom4([4]byte{byte(r.IntN(256)), byte(r.IntN(256)), byte(r.IntN(256)), byte(r.IntN(256))})
	} else {
		var b [16]byte
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		if r.Chance(0.7) {
			b[0], b[1] = 0x20, 0x01
		}
		a = netip.AddrFrom16(b)
	}
	bits := r.Range(0, bitsMax)
	if r.Chance(0.5) {
		if four {
			bits = pick(r, []int{8, 16, 24, 22, 32})
		} else {
			bits = pick(r, []int{12, 19, 23, 29, 32, 48, 64, 128})
		}
	}
	if r.Chance(0.02) {
		bits = 0
	}
	if dictChance(r, 0.05) {
		bits = int(r.number(0, int64(bitsMax), int64(bits)))
	}
	return netip.PrefixFrom(a, bits).Masked()
}

func lastAddr(p netip.Prefix) netip.Addr {
	b := p.Addr().AsSlice()
	for i := p.Bits(); i < len(b)*8; i++ {
		b[i/8] |= 1 << (7 - i%8)
	}
	a, _ := netip.AddrFromSlice(b)
	return a
}

func randAddrIn(r *Rand, p netip.Prefix) netip.Addr {
	b := p.Addr().AsSlice()
	for i := p.Bits(); i < len(b)*8; i++ {
		if r.Chance(0.5) {
			b[i/8] |= 1 << (7 - i%8)
		}
	}
	a, _ := netip.AddrFromSlice(b)
	return a
}

func mapped(a netip.Addr) bool { return a.Is4In6() }

var junkNet = []string{"", "banana", "10.0.0.0", "2001:db8::", "10.0.0.0/33", "2001:db8::/129", "1.2.3/8", "10.0.0.0/8/8", "10.0.0.0/-1", "com", "AS5", "1-5", "256.0.0.0/8", "2001:zz::/32", "/8", "/"}

func c01One(m *M, four bool) {
	r := m.R
	n := pick(r, []int{0, 1, 2, 3, 5, 8, 13, 30, 60, 0, 1, 2, 3, 5, 8, 13, 30, 60, 250})
	if dictChance(r, 0.04) {
		n = int(r.number(0, 700, 4))
	}
	sameSize := r.Chance(0.15)
	seen := map[netip.Prefix]bool{}
	var nets []netip.Prefix
	for range n {
		p := randPrefix(r, four, nets)
		if r.Chance(0.05) {
			p = netip.MustParsePrefix(pick(r, knownNets[four]))
		}
		if sameSize && len(nets) > 0 { // one binary-searched table holding everything
			p = netip.PrefixFrom(p.Addr(), nets[0].Bits()).Masked()
		}
		if !four && (mapped(p.Addr()) || mapped(lastAddr(p))) {
			continue
		}
		if !seen[p] {
			seen[p] = true
			nets = append(nets, p)
		}
	}
	urls := map[netip.Prefix][]string{}
	var svcs []svc
	for i := 0; i < len(nets); {
		k := min(r.size(1, 4, 100), len(nets)-i)
		us := genURLs(r, r.size(1, 4, 40))
		var es []string
		for _, p := range nets[i : i+k] {
			urls[p] = us
			s := p.String()
			if !four && r.Chance(0.2) {
				s = p.Addr().StringExpanded() + "/" + strconv.Itoa(p.Bits())
			} else if a := randAddrIn(r, p); r.Chance(0.1) && (four || !mapped(a)) { // host bits set
				s = a.String() + "/" + strconv.Itoa(p.Bits())
			}
			es = append(es, s)
		}
		if r.Chance(0.3) {
			es = append(es, pick(r, junkNet))
		}
		if r.Chance(0.3) { // other family
			es = append(es, randPrefix(r, !four, nil).String())
		}
		svcs = append(svcs, svc{shuffled(r, es), us})
		i += k
	}
	if r.Chance(0.3) {
		svcs = append(svcs, svc{[]string{pick(r, junkNet), randPrefix(r, !four, nil).String()}, genURLs(r, 1)})
	}
	svcs = shuffled(r, svcs)
	doc := regDoc(svcs, false, nil)
	rt := bootstrap.IPv6
	if four {
		rt = bootstrap.IPv4
	}
	bitsMax := 128
	if four {
		bitsMax = 32
	}
	var qs []string
	addr := func(a netip.Addr) {
		if a.IsValid() && !mapped(a) {
			qs = append(qs, a.String())
		}
	}
	for _, p := range nets {
		addr(p.Addr())
		addr(lastAddr(p))
		addr(p.Addr().Prev())
		addr(lastAddr(p).Next())
		addr(randAddrIn(r, p))
		qs = append(qs, p.String())
		if p.Bits() > 0 {
			par := netip.PrefixFrom(p.Addr(), p.Bits()-1).Masked()
			qs = append(qs, par.String())
		}
		if p.Bits() < bitsMax {
			ch := netip.PrefixFrom(randAddrIn(r, p), p.Bits()+1).Masked()
			qs = append(qs, ch.String())
			// host bits set
			a := randAddrIn(r, p)
			if !mapped(a) {
				qs = append(qs, a.String()+"/"+strconv.Itoa(r.Range(p.Bits(), bitsMax)))
			}
		}
	}
	for range 5 {
		qs = append(qs, randPrefix(r, four, nets).String(), randPrefix(r, four, nets).Addr().String())
	}
	for _, s := range knownNets[four] {
		if r.Chance(0.3) {
			qs = append(qs, s, netip.MustParsePrefix(s).Addr().String())
		}
	}
	if !four {
		for range 3 {
			a := randPrefix(r, four, nets).Addr()
			if !mapped(a) {
				qs = append(qs, a.StringExpanded(), strings.ToUpper(a.String()))
			}
		}
	}
	bad := []string{"", "banana", "/", "1.2.3", "1.2.3.4.5", "300.1.1.1", "1.2.3.4/33", "1.2.3.4/", "1.2.3.4/a", "::g", "2001:db8::/129", "AS5", "com", " 1.2.3.4", "1.2.3.4 ", "10.0.0.0/8/8"}
	for _, lk := range lookupersFor(m, rt, doc, 2) {
		for _, qt := range append(shuffled(r, qs), pick(r, qs), pick(r, qs), pick(r, qs)) {
			m.Try(fmt.Sprintf("C01 %q on %s", qt, doc), func() {
				p, isNet := parseQ(qt)
				if isNet && p.Addr().Is4() != four {
					return
				}
				if mapped(p.Addr()) {
					return
				}
				var best netip.Prefix
				for _, np := range nets {
					if np.Bits() <= p.Bits() && np.Contains(p.Addr()) && (!best.IsValid() || np.Bits() > best.Bits()) {
						best = np
					}
				}
				w := want{desc: "(none)", urls: []string{}}
				if best.IsValid() {
					w.desc = best.String()
					w.urls = normURLs(urls[best])
					w.entry = func(e string) bool {
						ep, err := netip.ParsePrefix(e)
						return err == nil && ep.Masked() == best
					}
				}
				a, err := lk(qt)
				m.Saw(string(doc)+qt, best.IsValid())
				m.Count("answers", 1)
				if best.IsValid() {
					m.Count("matches", 1)
				}
				judge(m, "ip", string(doc), qt, a, err, w)
				if best.IsValid() {
					m.Sample(fmt.Sprintf("%s -> %s among %d networks", qt, best, len(nets)))
				}
			})
		}
		for _, qt := range append([]string{randPrefix(r, !four, nil).String(), otherAddr(r, !four)}, bad...) {
			m.Try(fmt.Sprintf("C01 bad %q on %s", qt, doc), func() {
				a, err := lk(qt)
				m.Saw(string(doc)+qt, true)
				m.Count("malformed", 1)
				judge(m, "ip", string(doc), qt, a, err, want{err: true})
			})
		}
	}
}

func otherAddr(r *Rand, four bool) string {
	for {
		a := randPrefix(r, four, nil).Addr()
		if !mapped(a) {
			return a.String()
		}
	}
}

func parseQ(s string) (netip.Prefix, bool) {
	if strings.Contains(s, "/") {
		p, err := netip.ParsePrefix(s)
		if err != nil {
			return netip.Prefix{}, false
		}
		return p.Masked(), true
	}
	a, err := netip.ParseAddr(s)
	if err != nil {
		return netip.Prefix{}, false
	}
	return netip.PrefixFrom(a, a.BitLen()), true
}

// ---------------------------------------------------------------- C02

func TestC02(t *testing.T) {
	monitor(t, "C02", "registries of dotted names sharing labels and suffixes (with and without a root entry); questions built by adding labels, gluing characters to labels, changing case and adding one trailing dot. Non-trivial: a suffix is listed, or a listed entry is a plain string suffix of the name without being a label suffix.", 5000, func(m *M) {
		r := m.R
		labels := []string{"com", "net", "org", "co", "uk", "example", "a", "b", "xn--p1ai", "test", "om", "m", "xcom", "example-x", "1", "рф", "中国", "arpa", "in-addr", "ip6", "e164", "www", "gov", "museum"}
		name := func(n int) string {
			var ls []string
			for range n {
				if dictChance(r, 0.03) {
					if w := strings.ToLower(strings.NewReplacer(".", "", "\x00", "").Replace(r.word("w"))); w != "" {
						ls = append(ls, w)
						continue
					}
				}
				ls = append(ls, pick(r, labels))
			}
			return strings.Join(ls, ".")
		}
		for range m.N(1200) {
			ents := map[string][]string{}
			var svcs []svc
			for range pick(r, []int{0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 40, r.size(0, 20, 400)}) {
				us := genURLs(r, r.size(1, 3, 40))
				s := svc{URLs: us}
				for range r.Range(1, 4) {
					e := name(pick(r, []int{1, 1, 1, 2, 2, 3, 4, r.size(1, 5, 40)}))
					if _, dup := ents[e]; dup {
						continue
					}
					ents[e] = us
					s.Entries = append(s.Entries, e)
				}
				svcs = append(svcs, s)
			}
			if r.Chance(0.3) {
				us := genURLs(r, 2)
				ents[""] = us
				svcs = append(svcs, svc{[]string{""}, us})
			}
			svcs = shuffled(r, svcs)
			doc := regDoc(svcs, false, nil)
			var qs []string
			keys := sortedKeys(ents)
			for _, e := range keys {
				if e == "" {
					continue
				}
				qs = append(qs, e, name(1)+"."+e, name(2)+"."+e, "x"+e, name(1)+".y-"+e, e+".zz", e+"z")
				if i := strings.IndexByte(e, '.'); i > 0 {
					qs = append(qs, e[i+1:], "q"+e[i:], e[:i]+e[i+1:], e[i:])
				}
			}
			for range 8 {
				qs = append(qs, name(r.size(1, 5, 150)))
			}
			for range 3 { // very long and very deep names, ending in a listed or unlisted suffix
				tail := name(r.Range(1, 3))
				if len(keys) > 0 && r.Chance(0.7) {
					tail = pick(r, keys)
				}
				switch r.IntN(4) {
				case 0:
					qs = append(qs, strings.Repeat("a.", pick(r, []int{9, 10, 15, 16, 31, 32, 63, 64, 126, 127, 128, 300}))+tail)
				case 1:
					qs = append(qs, strings.Repeat("x", pick(r, []int{62, 63, 64, 100, 255, 256, 1000}))+"."+tail)
				case 2:
					qs = append(qs, strings.Repeat(strings.Repeat("b", r.Range(1, 63))+".", r.Range(1, 40))+tail)
				case 3:
					n := pick(r, []int{253, 254, 255, 256, 63, 64, 127, 128})
					if k := n - len(tail) - 1; k > 0 {
						qs = append(qs, strings.Repeat("c", k)+"."+tail)
					}
				}
			}
			for range 4 { // odd but legal label characters in front of and glued to entries
				tail := name(1)
				if len(keys) > 0 {
					tail = pick(r, keys)
				}
				qs = append(qs, pick(r, []string{"_dmarc.", "*.", "a_b.", "a-b.", "-.", "1.2.3.4.", "3.2.1.in-addr.", "www.", "xn--e1afmkfd.", "ПРИМЕР.", "a b.", "a/b.", "a%2Eb.", "my-", "a_", "*", "@", "/", ":", " ", "a/", "http://", "x%2e", "x。"})+tail)
			}
			qs = append(qs, "", "a..com", ".com", "localhost", "com.example")
			for _, lk := range lookupersFor(m, bootstrap.DNS, doc, 1) {
				for _, base := range qs {
					qt := base
					if r.Chance(0.4) {
						qt = mixCase(r, qt)
					}
					if r.Chance(0.3) && !strings.HasSuffix(qt, ".") {
						qt += "."
					}
					if r.Chance(0.05) {
						qt += pick(r, []string{".", "..", "...."}) // only one of them is ignored
					}
					m.Try(fmt.Sprintf("C02 %q on %s", qt, doc), func() {
						low := strings.ToLower(strings.TrimSuffix(qt, "."))
						ls := strings.Split(low, ".")
						w := want{desc: "(none)", urls: []string{}, query: &low}
						hit := false
						for i := range ls {
							suf := strings.Join(ls[i:], ".")
							if us, ok := ents[suf]; ok && suf != "" {
								w.desc, w.urls = suf, normURLs(us)
								w.entry = func(e string) bool { return e == suf }
								hit = true
								break
							}
						}
						trap := false
						if !hit {
							if us, ok := ents[""]; ok {
								w.desc, w.urls, hit = "(root)", normURLs(us), true
							}
							for e := range ents {
								trap = trap || (e != "" && strings.HasSuffix(low, e))
							}
						}
						a, err := lk(qt)
						m.Saw(string(doc)+qt, hit || trap)
						m.Count("answers", 1)
						if hit {
							m.Count("matches", 1)
							m.Sample(fmt.Sprintf("%q -> %s", qt, w.desc))
						}
						if trap {
							m.Count("partial_label_traps", 1)
						}
						judge(m, "domain", string(doc), qt, a, err, w)
					})
				}
			}
		}
	})
}

func mixCase(r *Rand, s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c < utf8.RuneSelf && r.Chance(0.5) {
			sb.WriteString(strings.ToUpper(string(c)))
		} else {
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

// ---------------------------------------------------------------- C03

func TestC03(t *testing.T) {
	digits := regexp.MustCompile(`[0-9]+`)
	monitor(t, "C03", "registries of disjoint ranges and single numbers over 0..4294967295 plus junk entries; questions at each edge, one beyond, inside, random, with every prefix spelling; malformed numbers. Non-trivial: in a range, one off a range edge, or malformed.", 5000, func(m *M) {
		r := m.R
		for range m.N(400) {
			n := pick(r, []int{0, 1, 2, 5, 10, 40, 80, 300, r.size(0, 20, 1100)})
			// cut points
			type rg struct{ lo, hi uint64 }
			var rgs []rg
			pos := uint64(0)
			if r.Chance(0.5) {
				pos = uint64(r.IntN(1000))
			}
			if dictChance(r, 0.1) {
				pos = uint64(r.number(0, 4294967295, 0))
			}
			for range n {
				span := uint64(0)
				switch r.IntN(4) {
				case 1:
					span = uint64(r.IntN(20))
				case 2:
					span = uint64(r.IntN(100000))
				case 3:
					span = uint64(r.IntN(50000000))
				}
				if pos+span > 4294967295 {
					break
				}
				rgs = append(rgs, rg{pos, pos + span})
				pos += span + 1
				if r.Chance(0.6) {
					pos += uint64(r.IntN(pick(r, []int{2, 100, 90000000})))
				}
				if pos > 4294967295 {
					break
				}
			}
			if r.Chance(0.3) && (len(rgs) == 0 || rgs[len(rgs)-1].hi < 4294967290) {
				rgs = append(rgs, rg{4294967290, 4294967295})
			}
			urls := map[rg][]string{}
			var svcs []svc
			rest := shuffled(r, rgs)
			for len(rest) > 0 {
				k := min(r.Range(1, 5), len(rest))
				us := genURLs(r, r.Range(1, 3))
				s := svc{URLs: us}
				for _, x := range rest[:k] {
					urls[x] = us
					if x.lo == x.hi && r.Chance(0.5) {
						s.Entries = append(s.Entries, fmt.Sprint(x.lo))
					} else if r.Chance(0.1) { // bounds reversed
						s.Entries = append(s.Entries, fmt.Sprintf("%d-%d", x.hi, x.lo))
					} else {
						s.Entries = append(s.Entries, fmt.Sprintf("%d-%d", x.lo, x.hi))
					}
				}
				if r.Chance(0.2) {
					s.Entries = append(s.Entries, pick(r, []string{"", "banana", "1-2-3", "5-", "-7", "4294967296", "0-4294967296", "a-b", "1.5", "10.0.0.0/8"}))
				}
				svcs = append(svcs, s)
				rest = rest[k:]
			}
			doc := regDoc(shuffled(r, svcs), false, nil)
			var qs []uint64
			for _, x := range rgs {
				qs = append(qs, x.lo, x.hi, x.lo+(x.hi-x.lo)/2)
				if x.lo > 0 {
					qs = append(qs, x.lo-1)
				}
				if x.hi < 4294967295 {
					qs = append(qs, x.hi+1)
				}
			}
			for _, c := range dictAll.Nums {
				if c > 0 && c < 4294967295 && r.Chance(0.2) {
					qs = append(qs, uint64(c), uint64(c)+1)
				}
			}
			for _, c := range dictFresh.Nums {
				if c > 0 && c < 4294967295 {
					qs = append(qs, uint64(c), uint64(c)+1, uint64(c)-1)
				}
			}
			for e := range 32 {
				qs = append(qs, 1<<e, 1<<e-1, 1<<e+1)
			}
			qs = append(qs, 0, 1, 4294967295, 4294967294, 65535, 65536, 23456, 2147483647, 2147483648, 4200000000, uint64(r.Uint32()), uint64(r.IntN(100000)))
			bad := []string{"", "AS", "as", "ASAS5", "SA5", "A5", "S5", "5AS", "-1", "+1", " 5", "5 ", "4294967296", "AS4294967296", "18446744073709551621", "1_000", "0x10", "1.5", "AS-5", "5-10", "AS5-AS10", "AS 5", "banana", "assa7", "ASS7", "AAS7", "sas9"}
			for _, lk := range lookupersFor(m, bootstrap.ASN, doc, 2) {
				for _, x := range qs {
					qt := pick(r, []string{"", "", "AS", "as", "As", "aS"}) + fmt.Sprint(x)
					m.Try(fmt.Sprintf("C03 %q on %s", qt, doc), func() {
						plain := fmt.Sprint(x)
						w := want{desc: "(none)", urls: []string{}, query: &plain}
						edge := false
						for _, g := range rgs {
							if x >= g.lo && x <= g.hi {
								w.desc, w.urls = fmt.Sprintf("%d-%d", g.lo, g.hi), normURLs(urls[g])
								w.entry = func(e string) bool {
									ds := digits.FindAllString(e, -1)
									if len(ds) == 1 {
										return g.lo == g.hi && ds[0] == fmt.Sprint(g.lo)
									}
									return len(ds) == 2 && ds[0] == fmt.Sprint(g.lo) && ds[1] == fmt.Sprint(g.hi)
								}
							}
							edge = edge || x+1 == g.lo || x == g.hi+1
						}
						a, err := lk(qt)
						m.Saw(string(doc)+qt, w.entry != nil || edge)
						m.Count("answers", 1)
						if w.entry != nil {
							m.Count("matches", 1)
							m.Sample(fmt.Sprintf("%q -> %s of %d ranges", qt, w.desc, len(rgs)))
						}
						judge(m, "asn", string(doc), qt, a, err, w)
					})
				}
				for _, qt := range bad {
					m.Try(fmt.Sprintf("C03 bad %q on %s", qt, doc), func() {
						a, err := lk(qt)
						m.Saw("bad"+qt+string(doc), true)
						m.Count("malformed", 1)
						judge(m, "asn", string(doc), qt, a, err, want{err: true})
					})
				}
			}
		}
	})
}

// ---------------------------------------------------------------- C04

func TestC04(t *testing.T) {
	monitor(t, "C04", "object tag registries with tags that are prefixes/suffixes/case variants of each other; handles with zero to four separators of both kinds. Non-trivial: the handle has a separator.", 3000, func(m *M) {
		r := m.R
		tags := []string{"VRSN", "ARIN", "RIPE", "RIP", "IPE", "vrsn", "Vrsn", "AP", "A", "YOYO", "X1", "タグ", "FRNIC", "NIC", "DENIC", "tag.dot", "sp ace"}
		for range m.N(1200) {
			ents := map[string][]string{}
			var svcs []svc
			tags := tags
			if r.Chance(0.3) { // entries no handle can name
				tags = append(append([]string{}, tags...), "", "A-B", "VRSN-ARIN", "-VRSN", "~RIPE", "VRSN-")
			}
			if r.Chance(0.5) {
				tags = append([]string{}, tags...)
				for i := range r.size(1, 6, 200) {
					tg := strings.NewReplacer("-", "", "~", "").Replace(r.word(fmt.Sprint("T", i)))
					if r.Chance(0.5) {
						tg = fmt.Sprintf("T%d%s", i, strings.Repeat("x", r.size(0, 4, 70)))
					}
					if tg != "" && !slices.Contains(tags, tg) {
						tags = append(tags, tg)
					}
				}
			}
			for _, tg := range shuffled(r, tags)[:r.Range(0, len(tags))] {
				if len(svcs) > 0 && r.Chance(0.4) {
					s := &svcs[len(svcs)-1]
					s.Entries = append(s.Entries, tg)
					ents[tg] = s.URLs
					continue
				}
				us := genURLs(r, r.Range(1, 3))
				ents[tg] = us
				svcs = append(svcs, svc{[]string{tg}, us})
			}
			doc := regDoc(svcs, true, nil)
			var qs []string
			for range 40 {
				var sb strings.Builder
				for range r.size(0, 3, 70) {
					sb.WriteString(pick(r, []string{"12", "x", "53774930", "", "VRSN", "ARIN", "é", strings.Repeat("L", r.size(1, 9, 300)), "a.b", " ", "AS5", "10.0.0.1"}))
					sb.WriteString(pick(r, []string{"-", "-", "-", "~"}))
				}
				sb.WriteString(pick(r, tags))
				sfx := pick(r, []string{"", "", "", "", "x", "-", "~", "."})
				qs = append(qs, sb.String()+sfx)
			}
			qs = append(qs, "", "-", "~", "--", "VRSN", "-VRSN", "~VRSN", "1-", "1~", "1-VRSN-", "1-ARIN~VRSN", "1~ARIN-VRSN", "1-unlisted", "1-VRSN-unlisted")
			for _, lk := range lookupersFor(m, bootstrap.ServiceProvider, doc, 1) {
				for _, qt := range qs {
					m.Try(fmt.Sprintf("C04 %q on %s", qt, doc), func() {
						i := max(strings.LastIndexByte(qt, '-'), strings.LastIndexByte(qt, '~'))
						w := want{desc: "(none)", urls: []string{}}
						if i >= 0 && i+1 < len(qt) {
							tg := qt[i+1:]
							if us, ok := ents[tg]; ok {
								w.desc, w.urls = tg, normURLs(us)
								w.entry = func(e string) bool { return e == tg }
							}
						}
						a, err := lk(qt)
						m.Saw(string(doc)+qt, i >= 0)
						m.Count("answers", 1)
						if w.entry != nil {
							m.Count("matches", 1)
							m.Sample(fmt.Sprintf("%q -> %s", qt, w.desc))
						}
						judge(m, "entity", string(doc), qt, a, err, w)
					})
				}
			}
		}
	})
}

// ---------------------------------------------------------------- C05

func TestC05(t *testing.T) {
	monitor(t, "C05", "well-formed registry files with unparseable URLs, empty lists and odd strings; files with one structural defect; byte-level mutations of both. Oracle: an independent structural parse. Non-trivial: rejected for one service, or has an unparseable URL, or a mutated document.", 3000, func(m *M) {
		r := m.R
		badURLs := []string{"http://[::1", "https://a b/", "http://x:port/", "%zz://", "http://%zz/", ":foo", "\u0001http://x", "http://x\n/"}
		for i := range m.N(15000) {
			var svcs []any
			nbad := 0
			serial := 0
			for range r.size(0, 6, 300) {
				es, us := []any{}, []any{}
				for range r.size(0, 4, 200) {
					serial++
					es = append(es, pick(r, []string{"com", "10.0.0.0/8", "1-5", "VRSN", "é\n\"", "X", r.word("w"), strings.Repeat("l", r.size(1, 9, 400)) + "."})+fmt.Sprint(serial))
					if r.Chance(0.06) {
						es = append(es, pick(r, []any{es[len(es)-1], es[0], "dup"})) // listed again, here or elsewhere
					}
				}
				for range r.size(0, 4, 100) {
					if r.Chance(0.3) {
						us = append(us, c05Bad(r, badURLs))
						nbad++
					} else {
						us = append(us, genURLs(r, 1)[0])
					}
				}
				if r.Chance(0.35) {
					svcs = append(svcs, []any{[]any{"c@x", "second"}[:r.Range(0, 2)], es, us})
				} else {
					svcs = append(svcs, []any{es, us})
				}
			}
			doc := map[string]any{
				"description": pick(r, []string{"", "Some text", "é😀\"\\"}), "publication": pick(r, []string{"", "2024-01-07T10:11:12Z"}),
				"version": pick(r, []string{"1.0", "", "2.5.1"}), "services": svcs,
			}
			if svcs == nil {
				doc["services"] = []any{}
			}
			if r.Chance(0.2) {
				doc["extra"] = map[string]any{"services": 5, "x": []any{1, "two", nil}}
			}
			for _, k := range []string{"description", "publication", "version"} {
				if r.Chance(0.1) {
					delete(doc, k)
				}
			}
			mode := r.IntN(4)
			if mode == 1 && len(svcs) > 0 {
				breakService(r, svcs)
			}
			b := jsonNoEscape(doc)
			if r.Chance(0.3) {
				var out bytes.Buffer
				_ = json.Indent(&out, b, " ", "\t")
				b = append([]byte("\n  "), append(out.Bytes(), " \r\n"...)...)
			}
			if mode == 2 {
				b = mutateBytes(r, b)
			}
			if mode == 3 && r.Chance(0.3) {
				b = b[:r.IntN(len(b)+1)]
			}
			c05One(m, b, nbad > 0 || mode > 0, i)
		}
		for _, s := range []string{"", "null", "[]", "5", "\"x\"", "{}", "{\"services\":5}", "{\"services\":{}}", "{\"services\":[5]}", "{\"services\":[[5,6]]}", "{\"services\":[[\"a\",\"b\"]]}", "{\"services\":[[[\"a\"]]]}", "{\"services\":[[]]}", "{\"services\":[[[\"a\"],[\"http://x/\"],[\"http://y/\"],[\"z\"]]]}", "{\"services\":[[[\"a\"],[\"http://x/\"]]]} trailing", "\x00", "{\"services\":[[[\"a\"],[[\"http://x/\"]]]]}", "{\"services\":[[[\"a\"],[{}]]]}", "\xef\xbb\xbf{}"} {
			c05One(m, []byte(s), true, -1)
		}
		c05Big(m)
	})
}

// c05Bad is a base URL that is damaged: unparseable, or strange.
func c05Bad(r *Rand, bad []string) string {
	u := genURLs(r, 1)[0]
	switch r.IntN(5) {
	case 0:
		return pick(r, []string{" ", "\t", "\n", "\u00a0", "\ufeff", "<", "\"", "'", "\x7f"}) + u
	case 1:
		return u + pick(r, []string{" ", "\t", "\n", "\u00a0", ">", "\x7f", "%", "%2"})
	case 2:
		k := r.IntN(len(u) + 1)
		return u[:k] + pick(r, []string{" ", "%", "%zz", "\n", "[", "]", ":", "\x00", "#", "?", "@", r.word("x")}) + u[k:]
	}
	return pick(r, bad)
}

func breakService(r *Rand, svcs []any) {
	i := r.IntN(len(svcs))
	s := svcs[i].([]any)
	strs := []any{"a"}
	switch r.IntN(9) {
	case 0:
		svcs[i] = s[:1]
	case 1:
		svcs[i] = []any{}
	case 2:
		for len(s) < 4 {
			s = append(s, strs)
		}
		svcs[i] = s
	case 3:
		svcs[i] = "service"
	case 4:
		svcs[i] = map[string]any{"a": s}
	case 5:
		s[r.IntN(len(s))] = "notarray"
	case 6:
		s[r.IntN(len(s))] = []any{"x", 5}
	case 7:
		s[r.IntN(len(s))] = []any{[]any{"x"}}
	case 8:
		s[r.IntN(len(s))] = map[string]any{}
	}
}

func mutateBytes(r *Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	frag := []string{"\"", "{", "}", "[", "]", ",", ":", "null", "true", "1e999", "\\u0000", "\\", "\x00", "\xff", "[[", "]]", "\"services\":", "0", "-", "é", " ", "\n"}
	for range r.Range(1, 4) {
		if len(b) == 0 {
			break
		}
		p := r.IntN(len(b))
		switch r.IntN(5) {
		case 0:
			b[p] = byte(r.IntN(256))
		case 1:
			b = append(b[:p], b[p+1:]...)
		case 2:
			b = append(b[:p], append([]byte(pick(r, frag)), b[p:]...)...)
		case 3:
			e := min(len(b), p+r.Range(1, 20))
			b = append(b[:p], b[e:]...)
		case 4:
			e := min(len(b), p+r.Range(1, 20))
			b = append(b[:e], append(append([]byte(nil), b[p:e]...), b[e:]...)...)
		}
	}
	return b
}

// c05Model returns what a correct parse of b must give: reject, accept with entries, or unspecified.
// c05Model returns, for each entry that must be present, the URL lists of the services that list it.
func c05Model(b []byte) (verdict string, entries map[string][][]string, meta [3]string) {
	if !json.Valid(b) {
		return "reject", nil, meta
	}
	var top any
	dec := json.NewDecoder(bytes.NewReader(b))
	if dec.Decode(&top) != nil {
		return "unspecified", nil, meta
	}
	obj, ok := top.(map[string]any)
	if !ok {
		if top == nil {
			return "unspecified", nil, meta
		}
		return "reject", nil, meta
	}
	if dupOrCaseKeys(b) {
		return "unspecified", nil, meta
	}
	for i, k := range []string{"description", "publication", "version"} {
		if v, has := obj[k]; has {
			s, ok := v.(string)
			if !ok {
				return "unspecified", nil, meta
			}
			meta[i] = s
		}
	}
	sv, has := obj["services"]
	if !has || sv == nil {
		return "unspecified", nil, meta
	}
	list, ok := sv.([]any)
	if !ok {
		return "reject", nil, meta
	}
	entries = map[string][][]string{}
	null := false
	bad := false
	for _, s := range list {
		if s == nil {
			null = true
			continue
		}
		parts, ok := s.([]any)
		if !ok || len(parts) < 2 || len(parts) > 3 {
			bad = true
			continue
		}
		var strs [][]string
		for _, p := range parts {
			if p == nil {
				null = true
				continue
			}
			pa, ok := p.([]any)
			if !ok {
				bad = true
				continue
			}
			var ss []string
			for _, x := range pa {
				if x == nil {
					null = true
					continue
				}
				xs, ok := x.(string)
				if !ok {
					bad = true
				}
				ss = append(ss, xs)
			}
			strs = append(strs, ss)
		}
		if bad || null {
			continue
		}
		es, us := strs[len(strs)-2], strs[len(strs)-1]
		good := normURLs(us)
		for _, e := range es {
			if len(good) > 0 {
				entries[e] = append(entries[e], good)
			}
		}
	}
	if bad {
		return "reject", nil, meta
	}
	if null {
		return "unspecified", nil, meta
	}
	return "accept", entries, meta
}

// dupOrCaseKeys reports whether the top-level object has duplicate keys or case variants of the known keys.
func dupOrCaseKeys(b []byte) bool {
	dec := json.NewDecoder(bytes.NewReader(b))
	if _, err := dec.Token(); err != nil {
		return true
	}
	seen := map[string]bool{}
	for dec.More() {
		tk, err := dec.Token()
		if err != nil {
			return true
		}
		k, ok := tk.(string)
		if !ok {
			return true
		}
		l := strings.ToLower(k)
		if seen[l] {
			return true
		}
		for _, kn := range []string{"description", "publication", "version", "services"} {
			if strings.EqualFold(k, kn) && k != kn {
				return true
			}
		}
		seen[l] = true
		var v json.RawMessage
		if dec.Decode(&v) != nil {
			return true
		}
	}
	return false
}

func c05One(m *M, b []byte, nontrivial bool, i int) {
	m.Try("C05 NewFile "+q(string(b)), func() {
		in := append([]byte(nil), b...)
		verdict, ents, meta := c05Model(b)
		f, err := bootstrap.NewFile(b)
		m.Saw(string(b), nontrivial)
		m.Count("documents_"+verdict, 1)
		kase := "NewFile(" + q(string(in)) + ")"
		if (f == nil) == (err == nil) {
			m.Violate("neither or both of file and error", kase, "exactly one", fmt.Sprint(f, err))
			return
		}
		if verdict == "reject" && err == nil {
			m.Violate("a malformed registry file was accepted", kase, "error", fmt.Sprintf("%+v", f.Entries))
			return
		}
		if verdict == "accept" {
			if err != nil {
				m.Violate("a well-formed registry file was rejected", kase, "accepted", err.Error())
				return
			}
			got := map[string][]string{}
			for k, v := range f.Entries {
				got[k] = urlStrings(v)
			}
			same := len(got) == len(ents)
			for k, lists := range ents {
				one := false
				for _, l := range lists {
					one = one || eqStrings(got[k], l)
				}
				same = same && one
				if len(lists) > 1 {
					m.Count("entries_listed_twice", 1)
				}
			}
			if !same {
				m.Violate("entries differ", kase, ents, got)
			}
			if [3]string{f.Description, f.Publication, f.Version} != meta {
				m.Violate("description/publication/version differ", kase, meta, []string{f.Description, f.Publication, f.Version})
			}
			m.Sample(fmt.Sprintf("%d bytes, %d entries: %s", len(b), len(ents), clip(string(b))))
		}
		if f != nil && !bytes.Equal(f.JSON, in) {
			m.Violate("document bytes not preserved", kase, string(in), string(f.JSON))
		}
		// The typed registries report the same file, or the same rejection.
		if i%7 == 0 || i < 0 {
			type mk struct {
				n string
				f func() (bootstrap.Registry, error)
			}
			for _, k := range []mk{
				{"dns", func() (bootstrap.Registry, error) { return bootstrap.NewDNSRegistry(b) }},
				{"asn", func() (bootstrap.Registry, error) { return bootstrap.NewASNRegistry(b) }},
				{"ipv4", func() (bootstrap.Registry, error) { return bootstrap.NewNetRegistry(b, 4) }},
				{"ipv6", func() (bootstrap.Registry, error) { return bootstrap.NewNetRegistry(b, 6) }},
				{"tags", func() (bootstrap.Registry, error) { return bootstrap.NewServiceProviderRegistry(b) }},
			} {
				reg, err2 := k.f()
				if (err2 == nil) != (err == nil) {
					m.Violate("registry type "+k.n+" disagrees on acceptance", kase, fmt.Sprint(err), fmt.Sprint(err2))
					continue
				}
				if err2 == nil {
					rf := reg.File()
					if !reflect.DeepEqual(entryStrings(rf.Entries), entryStrings(f.Entries)) || !bytes.Equal(rf.JSON, in) ||
						rf.Description != f.Description || rf.Publication != f.Publication || rf.Version != f.Version {
						m.Violate("registry type "+k.n+" exposes a different file", kase, f, rf)
					}
				}
			}
		}
	})
}

func entryStrings(e map[string][]*url.URL) map[string][]string {
	out := map[string][]string{}
	for k, v := range e {
		out[k] = urlStrings(v)
	}
	return out
}
