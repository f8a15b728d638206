package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/openrdap/rdap"
)

// ---- C19

// eachPtr calls f for every value of type T reachable through exported fields of v.
func eachPtr[T any](v reflect.Value, f func(T)) {
	if !v.IsValid() {
		return
	}
	if v.CanInterface() {
		if x, ok := v.Interface().(T); ok && v.Kind() == reflect.Pointer && !v.IsNil() {
			f(x)
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			eachPtr(v.Elem(), f)
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				eachPtr(v.Field(i), f)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := range v.Len() {
			eachPtr(v.Index(i), f)
		}
	}
}

var docTypes = map[string]bool{}

func init() {
	for _, t := range classGoType {
		docTypes[t] = true
	}
}

// c19Use exercises everything a caller does with received bytes.
func c19Use(m *M, b []byte, full bool, indents []uint) (decoded bool) {
	v, err := rdap.NewDecoder(b).Decode()
	if err == nil {
		decoded = true
		if !docTypes[fmt.Sprintf("%T", v)] || reflect.ValueOf(v).IsNil() {
			m.Violate("decoding returned neither an error nor a documented object", string(b), "documented type", fmt.Sprintf("%T", v))
			return
		}
		opts := allPrinterOptions()
		for i, p := range opts {
			if !full && i%5 != len(b)%5 {
				continue
			}
			p.IndentSize = indents[(i+len(b))%len(indents)]
			p.IndentChar = []rune{0, ' ', '\t', '.', '\u2003', '\U0001F600', -1, 0x10ffff + 5}[(i+len(b)/3)%8]
			out := printWith(p, v)
			m.Count("bytes_printed", len(out))
		}
		w := (&rdap.Response{Object: v}).ToWhoisStyleResponse()
		if w == nil {
			m.Violate("WHOIS conversion returned nil", string(b), "response", nil)
		}
		eachPtr(reflect.ValueOf(v), func(c *rdap.VCard) {
			cardCalls(c)
			_ = c.String()
			m.Count("cards_queried", 1)
		})
		eachPtr(reflect.ValueOf(v), func(d *rdap.DecodeData) {
			_ = d.String()
			for _, f := range append(d.Fields(), "x") {
				_, _ = d.Notes(f), d.Value(f)
			}
			_ = d.UnknownFields()
		})
	}
	c19Card(m, b)
	return
}

func c19Card(m *M, b []byte) bool {
	ok := false
	for _, opt := range []rdap.VCardOptions{{}, {IgnoreInvalidProperties: true}} {
		c, err := rdap.NewVCardWithOptions(b, opt)
		if (c == nil) == (err == nil) {
			m.Violate("card parsing returned neither exactly a card nor an error", string(b), "one of them", fmt.Sprint(c, err))
			return false
		}
		if c != nil {
			ok = true
			cardCalls(c)
			_ = c.String()
			for _, p := range c.Properties {
				_ = p.Values()
			}
		}
	}
	_, _ = rdap.NewVCard(b)
	return ok
}

var weird = []any{nil, true, false, 0.0, -1.0, 1.5, 255.0, 256.0, 65535.0, 65536.0, 4294967295.0, 4294967296.0, 1e19, 1.8446744073709552e19, 1e308, -1e308, 5e-324, math.MaxInt64 * 1.0,
	"", "x", "0", "-1", "18446744073709551615", "99999999999999999999999", "1e5", "NaN", "true", "\x00", "\u2028", "domain", "entity", "vcard", []any{}, []any{nil}, []any{[]any{}}, map[string]any{}, map[string]any{"": nil},
	map[string]any{"objectClassName": "entity"}, []any{"vcard"}, []any{"vcard", nil}, []any{"vcard", []any{}}, []any{"vcard", []any{nil}}, []any{"vcard", []any{[]any{"fn", map[string]any{}, "text"}}},
	[]any{"vcard", []any{[]any{"fn", map[string]any{}, "text", map[string]any{"a": 1.0}}}}, []any{"vcard", []any{[]any{"adr", map[string]any{"type": 5.0}, "text", []any{[]any{[]any{"x"}}}}}},
	[]any{"vcard", []any{[]any{"adr", map[string]any{}, "text", []any{}}, []any{"tel", map[string]any{"type": []any{1.0, nil}}, "uri", []any{}}}}, []any{map[string]any{}, 5.0, "x", nil, []any{}}}

// mutateJSON replaces random nodes of a JSON value.
func mutateJSON(r *Rand, v any, p float64) any {
	if r.Chance(p) {
		switch r.IntN(6) {
		case 0:
			return []any{v}
		case 1:
			return map[string]any{"x": v}
		case 2:
			return []any{v, v, pick(r, weird)}
		}
		return pick(r, weird)
	}
	switch v := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for _, k := range sortedKeys(v) {
			x := v[k]
			nk := k
			if r.Chance(p / 2) {
				nk = pick(r, []string{"entities", "links", "vcardArray", "errorCode", "objectClassName", "", "events", "notices", "secureDNS", "ipAddresses", "network", "\n"})
			}
			out[nk] = mutateJSON(r, x, p)
		}
		return out
	case []any:
		out := []any{}
		for _, x := range v {
			out = append(out, mutateJSON(r, x, p))
			if r.Chance(p / 2) {
				out = append(out, mutateJSON(r, x, p))
			}
		}
		if r.Chance(p/2) && len(out) > 0 {
			out = out[:r.IntN(len(out))]
		}
		return out
	}
	return v
}

func corpus() (out [][]byte) {
	for _, pat := range []string{"/repo/test/testdata/rdap/*/*", "/repo/test/testdata/jcard/*"} {
		fs, _ := filepath.Glob(pat)
		for _, f := range fs {
			if b, err := os.ReadFile(f); err == nil {
				out = append(out, b)
			}
		}
	}
	return
}

func TestC19(t *testing.T) {
	monitor(t, "C19", "hostile bytes as responses and cards: valid documents of all types with nodes replaced, wrapped, duplicated or renamed, byte-level mutations, truncations, random bytes, deep and wide nesting; whatever decodes is printed with all 16 option combinations (several indents), converted to WHOIS style and queried through all accessors, under crash, hang and memory monitors. Non-trivial: the bytes are not a valid unmodified document. Distinct by bytes.", 2500, func(m *M) {
		use := func(kase string, b []byte, full bool) {
			m.Try("C19 "+kase+" "+string(b), func() {
				ok := c19Use(m, b, full, []uint{0, 1, 2, 7, 64})
				m.Saw(string(b), true)
				if ok {
					m.Count("decoded", 1)
				} else {
					m.Count("rejected", 1)
				}
			})
		}
		cp := corpus()
		m.Count("corpus_documents", len(cp))
		for i := range m.N(3500) {
			r := NewRand(m.Seed, fmt.Sprintf("C19/%d", i))
			g := newDocGen(r)
			g.hostile, g.nulls = i%3 == 0, true
			var v any
			if len(cp) > 0 && r.Chance(0.15) {
				_ = json.Unmarshal(pick(r, cp), &v)
			}
			if v == nil {
				v = plain(g.top(topClasses[i%len(topClasses)]))
			}
			v = mutateJSON(r, v, pick(r, []float64{0.01, 0.05, 0.15}))
			b := render(r, v)
			m.Sample(string(b))
			use("structure", b, i%10 == 0)
			if i%2 == 0 {
				for range r.Range(1, 4) {
					b = mutateBytes(r, b)
				}
				use("bytes", b, false)
			}
			if i%3 == 0 {
				c := jsonNoEscape(mutateJSON(r, genCard(g).plain(), pick(r, []float64{0.02, 0.1, 0.3})))
				m.Try("C19 card "+string(c), func() {
					if c19Card(m, c) {
						m.Count("cards_accepted", 1)
					}
					m.Saw(string(c), true)
				})
			}
			if i%20 == 0 {
				rb := make([]byte, r.IntN(64))
				for j := range rb {
					rb[j] = byte(r.Uint32())
				}
				use("random", rb, true)
			}
		}
		// every weird value as each member of each class, alone
		for _, class := range sortedKeys(schema) {
			for _, f := range append(append([]field{}, schema[class]...), field{json: "unknownMember"}) {
				for wi, w := range weird {
					if !m.Thorough && wi%2 == len(f.json)%2 {
						continue
					}
					leaf := &obj{class, map[string]any{f.json: w}}
					if class == "notice" || len(f.json)%3 == 0 {
						leaf.m[f.json] = []any{w}
					}
					top := wrapObjKeep(leaf)
					use("member", jsonNoEscape(plain(top)), false)
				}
			}
		}
		// nesting
		deep := func(open, close, mid string, n int) []byte {
			return []byte(strings.Repeat(open, n) + mid + strings.Repeat(close, n))
		}
		for _, n := range []int{1, 2, 50, 500, 3000, 9000, 20000, 200000} {
			for name, b := range map[string][]byte{
				"arrays":         deep("[", "]", "", n),
				"objects":        deep(`{"a":`, "}", "1", n),
				"entities":       deep(`{"objectClassName":"entity","entities":[`, "]}", "", n),
				"unknown":        []byte(`{"objectClassName":"domain","x":` + string(deep("[", "]", "1", n)) + "}"),
				"unknownObj":     []byte(`{"objectClassName":"domain","x":` + string(deep(`{"y":`, "}", "1", n)) + "}"),
				"card":           []byte(`["vcard",[["fn",{},"text",` + string(deep("[", "]", "1", n)) + "]]]"),
				"networks":       deep(`{"objectClassName":"entity","networks":[{"entities":[`, "]}]}", "", n/2+1),
				"unclosed":       []byte(strings.Repeat(`{"entities":[`, n)),
				"wide":           []byte(`{"objectClassName":"domain","status":[` + strings.TrimSuffix(strings.Repeat(`"x",`, n), ",") + "]}"),
				"wideEntities":   []byte(`{"objectClassName":"domain","entities":[` + strings.TrimSuffix(strings.Repeat(`{},`, n), ",") + "]}"),
				"longName":       []byte(`{"objectClassName":"domain","` + strings.Repeat("\u00e9", n) + `":1,"handle":"` + strings.Repeat("\\n", n) + `"}`),
				"number":         []byte(`{"errorCode":` + strings.Repeat("9", n) + "}"),
				"numberFraction": []byte(`{"errorCode":0.` + strings.Repeat("9", n) + `,"title":1e` + strconv.Itoa(min(n, 308)) + "}"),
			} {
				if n > 500 && (name == "entities" || name == "networks" || name == "unknownObj") {
					// the output of a document nested n deep is n*n*indent/2 characters
					m.Try(fmt.Sprintf("C19 %s nested %d", name, n), func() {
						ind := []uint{1}
						ok := c19Use(m, b, false, ind)
						m.Saw(fmt.Sprintf("%s %d", name, n), true)
						m.Count(fmt.Sprintf("nested_%d_decoded_%v", n, ok), 1)
					})
					continue
				}
				m.Try(fmt.Sprintf("C19 %s nested %d", name, n), func() {
					ok := c19Use(m, b, n <= 50, []uint{0, 1, 2})
					m.Saw(fmt.Sprintf("%s %d", name, n), true)
					m.Count(fmt.Sprintf("nested_%d_decoded_%v", n, ok), 1)
				})
			}
		}
		for _, b := range [][]byte{nil, {}, []byte(" "), []byte("null"), []byte("true"), []byte("0"), []byte(`""`), []byte("[]"), []byte("{}"), []byte("{}{}"), []byte("{} x"), []byte("\xef\xbb\xbf{}"), []byte("{\"a\":\"\xff\xfe\"}"), []byte(`{"a":"\ud800"}`), []byte(`{"handle":"\ud800\udc00\ud800"}`), []byte("{\"\x00\":1}"), []byte(`{"a":1,"a":2}`), []byte(`{"entities":null,"vcardArray":null}`), []byte(`{"objectClassName":"entity","vcardArray":null}`), []byte(`{"objectClassName":"nameserver","ipAddresses":null}`)} {
			use("special", b, true)
		}
		var np *rdap.Printer = &rdap.Printer{}
		m.Try("C19 print of nil and foreign values", func() {
			for _, v := range []any{nil, 5, "x", struct{}{}, rdap.Domain{}, []int{1}, map[string]any{}} {
				if out := printWith(*np, v); v == nil && out != "" {
					m.Violate("printing nothing printed something", "nil", "", out)
				}
				w := (&rdap.Response{Object: v}).ToWhoisStyleResponse()
				if len(w.Data) != 0 {
					m.Violate("WHOIS conversion of a foreign value", fmt.Sprint(v), "", dump(w))
				}
			}
		})
	})
}

// wrapObjKeep is wrapObj without overwriting the member under test.
func wrapObjKeep(o *obj) *obj {
	keep := map[string]any{}
	for k, v := range o.m {
		keep[k] = v
	}
	t := wrapObj(o)
	for k, v := range keep {
		o.m[k] = v
	}
	return t
}

// ---- C20

func TestC20(t *testing.T) {
	monitor(t, "C20", "every combination of presence and value (right, wrong, null) of the five deciding members, with random other members, decoy spellings and nested deciders around them, decoded and compared with the documented precedence; non-object documents must be errors. Non-trivial: at least two deciding members. Distinct by document.", 2500, func(m *M) {
		absent := struct{}{}
		ecs := []any{absent, nil, 404.0, "404", map[string]any{}, 0.0}
		classes := []any{absent, "autnum", "domain", "entity", "ip network", "nameserver", "Domain", "", "ip", "domain ", nil, 5.0, []any{"domain"}, map[string]any{"domain": 1.0}, true, "help", "error", "ipnetwork", "DOMAIN", "domains"}
		srch := []any{absent, nil, []any{}, "x", []any{map[string]any{"objectClassName": "autnum", "errorCode": 1.0}}}
		n := 0
		for _, e := range ecs {
			for _, c := range classes {
				for _, ds := range srch {
					for _, es := range srch {
						for _, ns := range srch {
							n++
							if !m.Thorough && c != absent && n%3 != 0 {
								continue
							}
							r := NewRand(m.Seed, fmt.Sprintf("C20/%d", n))
							doc := map[string]any{}
							deciders := 0
							for k, v := range map[string]any{"errorCode": e, "objectClassName": c, "domainSearchResults": ds, "entitySearchResults": es, "nameserverSearchResults": ns} {
								if v != absent {
									doc[k] = v
									deciders++
								}
							}
							want := "*rdap.Help"
							switch {
							case e != absent:
								want = "*rdap.Error"
							case c != absent:
								want = "error"
								if s, ok := c.(string); ok {
									if _, std := map[string]bool{"autnum": true, "domain": true, "entity": true, "ip network": true, "nameserver": true}[s]; std {
										want = classGoType[s]
									}
								}
							case ds != absent:
								want = "*rdap.DomainSearchResults"
							case es != absent:
								want = "*rdap.EntitySearchResults"
							case ns != absent:
								want = "*rdap.NameserverSearchResults"
							}
							for range r.IntN(4) {
								switch r.IntN(4) {
								case 0:
									doc[pick(r, []string{"ErrorCode", "errorcode", "ERRORCODE", "error_code", "errorCode ", "objectclassname", "ObjectClassName", "OBJECTCLASSNAME", "DomainSearchResults", "domainsearchresults", "domainSearchResult", "EntitySearchResults", "nameServerSearchResults", "autnumSearchResults"})] = pick(r, []any{404.0, "domain", nil, []any{}})
								case 1:
									doc[pick(r, []string{"handle", "title", "description", "notices", "lang", "entities", "ldhName"})] = pick(r, weird)
								case 2:
									doc["x"] = map[string]any{"errorCode": 1.0, "objectClassName": "domain", "domainSearchResults": []any{}}
								default:
									doc["entities"] = []any{map[string]any{"objectClassName": "entity", "errorCode": 5.0}}
								}
							}
							if dictChance(r, 0.1) { // many other members, named anyhow
								for i := range r.number(1, 300, 20) {
									k := fmt.Sprintf("x%d", i)
									if r.Chance(0.3) {
										k = r.word(k)
									}
									if _, is := map[string]bool{"errorCode": true, "objectClassName": true, "domainSearchResults": true, "entitySearchResults": true, "nameserverSearchResults": true}[k]; !is {
										doc[k] = pick(r, weird)
									}
								}
								m.Max("most members", len(doc))
							}
							b := render(r, doc)
							m.Try("C20 "+string(b), func() {
								v, err := rdap.NewDecoder(b).Decode()
								m.Saw(string(b), deciders >= 2)
								m.Count("want_"+want, 1)
								m.Sample(string(b) + " -> " + want)
								got := fmt.Sprintf("%T", v)
								if want == "error" {
									if err == nil {
										m.Violate("an unrecognised objectClassName was accepted", string(b), "error", got)
									}
								} else if err != nil || got != want {
									m.Violate("the response type does not follow the documented precedence", string(b), want, fmt.Sprintf("%s %v", got, err))
								}
							})
						}
					}
				}
			}
		}
		for _, s := range []string{"", " ", "[]", `[{"objectClassName":"domain"}]`, `"domain"`, "5", "true", "false", "nul", "{", "}", `{"objectClassName":"domain"`, `{"objectClassName":"domain"}}`, `{"objectClassName":"domain"} {}`, `{'objectClassName':'domain'}`, `{"objectClassName":"domain",}`, `{objectClassName:"domain"}`, "<html></html>", "\xef\xbb\xbf{}", `{"a":01}`, `{"a":+1}`, `{"a":.5}`, "{\"a\":\"\n\"}", `{"a":NaN}`, `{"a":1}garbage`, "//c\n{}", `{"a":'x'}`, `{"a":"\x"}`, "\x00{}", "{}\x00", "[]{}"} {
			m.Try("C20 "+s, func() {
				v, err := rdap.NewDecoder([]byte(s)).Decode()
				m.Saw(s, true)
				m.Count("not_an_object", 1)
				if err == nil {
					m.Violate("a document that is not a JSON object was accepted", s, "error", fmt.Sprintf("%T", v))
				}
			})
		}
		for _, s := range []string{"{}", " \t\r\n{ } \n", `{"a":1}`, `{"rdapConformance":["x"]}`, `{"":null}`} {
			m.Try("C20 "+s, func() {
				v, err := rdap.NewDecoder([]byte(s)).Decode()
				m.Saw(s, true)
				if got := fmt.Sprintf("%T", v); err != nil || got != "*rdap.Help" {
					m.Violate("a plain object is not a help response", s, "*rdap.Help", fmt.Sprintf("%s %v", got, err))
				}
			})
		}
	})
}

// ---- C22

// copyObj deep-copies a generated tree; pairs maps each copy to nothing but keeps positions aligned.
func copyObj(v any) any {
	switch v := v.(type) {
	case *obj:
		c := &obj{v.class, map[string]any{}}
		for k, x := range v.m {
			c.m[k] = copyObj(x)
		}
		return c
	case []any:
		out := []any{}
		for _, x := range v {
			out = append(out, copyObj(x))
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, x := range v {
			out[k] = copyObj(x)
		}
		return out
	}
	return v
}

type badSpot struct {
	path    string
	bad     *obj // in the document sent
	want    *obj // in the expected tree
	f       field
	isTop   bool
	noted   bool
	exact   *uint64
	nilZero bool
	what    string
	force   any // the value to use, if not nil
}

// spots pairs the objects of two equal trees and lists every member that can be corrupted.
func spots(path string, bad, want *obj, top bool) (out []*badSpot) {
	for _, f := range schema[bad.class] {
		x, ok := bad.m[f.json]
		if !ok {
			continue
		}
		if !(top && f.json == "objectClassName") {
			out = append(out, &badSpot{path: path + "/" + f.json, bad: bad, want: want, f: f, isTop: top})
		}
		switch f.k {
		case kObj:
			out = append(out, spots(path+"/"+f.json, x.(*obj), want.m[f.json].(*obj), false)...)
		case kObjList:
			for i, y := range x.([]any) {
				out = append(out, spots(fmt.Sprintf("%s/%s/%d", path, f.json, i), y.(*obj), want.m[f.json].([]any)[i].(*obj), false)...)
			}
		}
	}
	return
}

func anyJSON(r *Rand, kinds string) any {
	switch kinds[r.IntN(len(kinds))] {
	case 'n':
		return nil
	case 'b':
		return r.Chance(0.5)
	case 'f':
		return (&docGen{r: r}).anyNum()
	case 's':
		if r.Chance(0.2) {
			return r.word("5")
		}
		return pick(r, []string{"abc", "5", "", "true", "null", "[]", "x y"})
	case 'a':
		return pick(r, []any{[]any{}, []any{"a"}, []any{"a", 1.0, nil}, []any{[]any{"x"}}, []any{map[string]any{}}})
	default:
		return pick(r, []any{map[string]any{}, map[string]any{"a": "b"}, map[string]any{"handle": "x", "title": "y", "href": "z"}, map[string]any{"0": "a"}})
	}
}

// strOf is the documented conversion of a scalar to text; ok=false: not convertible.
func strOf(v any) (string, bool) {
	switch v := v.(type) {
	case nil:
		return "", true
	case bool:
		return strconv.FormatBool(v), true
	case float64:
		return strconv.FormatFloat(v, 'f', -1, 64), true
	case string:
		return v, true
	}
	return "", false
}

func maxOf(k kind) uint64 {
	switch k {
	case kU8:
		return math.MaxUint8
	case kU16:
		return math.MaxUint16
	case kU32:
		return math.MaxUint32
	}
	return math.MaxUint64
}

// corrupt replaces the spot's member and adjusts the expectation.
func (s *badSpot) corrupt(r *Rand) {
	f := s.f
	empty := func() { delete(s.want.m, f.json) }
	set := func(v any) { s.bad.m[f.json] = v; s.what = string(canonJSON(plain(v))) }
	s.noted = true
	switch f.k {
	case kStr:
		v := anyJSON(r, "nbbffaao")
		set(v)
		if t, ok := strOf(v); ok {
			s.want.m[f.json] = t
		} else {
			empty()
		}
	case kStrList:
		l, _ := s.bad.m[f.json].([]any)
		if len(l) == 0 || r.Chance(0.3) {
			v := anyJSON(r, "nbfso")
			set(v)
			empty()
			return
		}
		i := r.IntN(len(l))
		v := anyJSON(r, "nbbffao")
		nl := append([]any{}, l...)
		nl[i] = v
		set(nl)
		wl := append([]any{}, l[:i]...)
		if t, ok := strOf(v); ok {
			wl = append(wl, t)
		}
		s.want.m[f.json] = append(wl, l[i+1:]...)
	case kU8, kU16, kU32, kU64:
		mx := maxOf(f.k)
		if x, ok := s.force.(float64); ok { // a number: kept if it fits, dropped otherwise
			set(x)
			if x < 0 || x > float64(mx) || x == 18446744073709551616.0 {
				empty()
			} else {
				u := uint64(x)
				s.exact, s.noted = &u, false
			}
			return
		}
		switch r.IntN(8) {
		case 0:
			set(nil)
			s.nilZero = true
		case 1:
			b := r.Chance(0.5)
			set(b)
			u := uint64(0)
			if b {
				u = 1
			}
			s.exact = &u
		case 2, 3:
			u := pick(r, []uint64{0, 1, mx, mx - 1, r.Uint64N(mx), 7})
			set(strconv.FormatUint(u, 10))
			s.exact = &u
		case 4:
			set(pick(r, []any{"", "abc", "-1", "1.5", " 5", "5 ", "0x10", "99999999999999999999", "18446744073709551616", "1e2", "NaN", "five", "+5", "1_000", "0b1", "\u0665", "5\u0000", "0x", "5.0"}))
			empty()
		case 5:
			set(anyJSON(r, "ao"))
			empty()
		case 6: // does not fit
			if f.k == kU64 {
				set(pick(r, []any{18446744073709551616.0, 1e20, 1e300, -1.0, -1e20}))
			} else {
				set(pick(r, []any{float64(mx) + 1, float64(mx) + 2, float64(mx)*2 + 2, 1e15, 1e20, 1e300, -1.0, -2.0, -float64(mx), -float64(mx) - 1, -1e20, -4294967295.0, -255.0, -65535.0, strconv.FormatUint(mx+1, 10), float64(mx) + 1 + float64(r.IntN(1000)), (float64(mx) + 1) * float64(r.Range(1, 300)), (float64(mx)+1)*float64(r.Range(1, 300)) + float64(r.IntN(256)), 18446744073709551616.0, 18446744073709551617.0 + 4096}))
			}
			empty()
		default:
			v := pick(r, []float64{0, 1, 200, float64(min(mx, 1<<53))})
			set(v)
			u := uint64(v)
			s.exact, s.noted = &u, false
		}
	case kBool:
		switch r.IntN(5) {
		case 0:
			set(nil)
			s.nilZero = true
		case 1:
			set(pick(r, []any{0.0, 1.0, 5.0, -1.0, 0.5, -0.25, 1e-300, 1e30, -1e300, 4294967296.0, 256.0}))
			s.want.m[f.json] = s.bad.m[f.json].(float64) != 0
		case 2:
			b := pick(r, []string{"true", "false", "1", "0", "TRUE", "False", "t", "F"})
			set(b)
			s.want.m[f.json] = strings.Contains("true 1 TRUE t", b)
		case 3:
			set(pick(r, []any{"", "yes", "no", "abc", "2", "tru", "falsey", " true", "true ", "false\n", "tRUE", "on", "1.0", "-1", "01", "null"}))
			empty()
		default:
			set(anyJSON(r, "ao"))
			empty()
		}
	case kObj:
		set(anyJSON(r, "nbfsa"))
		empty()
	case kObjList:
		l, _ := s.bad.m[f.json].([]any)
		if len(l) == 0 || r.Chance(0.3) {
			set(anyJSON(r, "nbfso"))
			empty()
			return
		}
		i := r.IntN(len(l))
		nl := append([]any{}, l...)
		v := anyJSON(r, "nbfsa")
		if r.Chance(0.3) {
			nl = append(nl[:i:i], append([]any{v}, nl[i:]...)...) // inserted rather than replacing
			set(nl)
			return
		}
		nl[i] = v
		set(nl)
		wl := s.want.m[f.json].([]any)
		s.want.m[f.json] = append(append([]any{}, wl[:i]...), wl[i+1:]...)
	case kCard:
		good := s.bad.m[f.json].(*card).plain()
		bad := pick(r, []any{nil, true, 5.0, "vcard", map[string]any{}, []any{}, []any{"vcard"}, []any{"VCARD", []any{}}, []any{"vcard", "x"}, []any{"vcard", []any{}, 1.0}, []any{5.0, []any{}},
			[]any{"vcard", append(append([]any{}, good.([]any)[1].([]any)...), "bad")}, []any{"vcard", append([]any{[]any{"fn", map[string]any{}, "text"}}, good.([]any)[1].([]any)...)}, []any{"vcard", []any{[]any{"fn", []any{}, "text", "x"}}}})
		set(bad)
		empty()
	}
}

func TestC22(t *testing.T) {
	monitor(t, "C22", "well-formed documents of all types in which one to four members at any depth (or elements of their lists) are replaced by values of another JSON type or out of range; the decoded object is compared field by field with the expectation computed from a conversion table, and the notes of every object are checked. Every (class, member) pair is covered. Non-trivial: the corrupted member is not numeric-to-numeric. Distinct by document.", 1500, func(m *M) {
		one := func(r *Rand, o *obj, sel func([]*badSpot) []*badSpot) {
			bad := copyObj(o).(*obj)
			want := copyObj(o).(*obj)
			all := spots("", bad, want, true)
			if len(all) == 0 {
				return
			}
			chosen := sel(all)
			var done []*badSpot
			for _, s := range chosen {
				overlap := false
				for _, d := range done {
					if strings.HasPrefix(s.path+"/", d.path+"/") || strings.HasPrefix(d.path+"/", s.path+"/") {
						overlap = true
					}
				}
				if !overlap {
					done = append(done, s)
				}
			}
			nt := false
			var what []string
			for _, s := range done {
				s.corrupt(r)
				nt = nt || s.noted
				what = append(what, s.path+"="+s.what)
				m.Count(fmt.Sprintf("corrupted_kind_%d", s.f.k), 1)
			}
			b := render(r, bad)
			kase := fmt.Sprintf("corrupted %v in %s", what, b)
			m.Try("C22 "+kase, func() {
				v, err := rdap.NewDecoder(b).Decode()
				m.Saw(string(b), nt)
				m.Sample(kase)
				if err != nil {
					m.Violate("a bad member made the whole response undecodable", kase, "object", err.Error())
					return
				}
				if tn := fmt.Sprintf("%T", v); tn != classGoType[o.class] {
					m.Violate("a bad member changed the response type", kase, classGoType[o.class], tn)
					return
				}
				rv := reflect.ValueOf(v).Elem()
				// values whose expectation is not a plain generated value are checked apart
				byObj := map[*obj]map[string]*badSpot{}
				for _, s := range done {
					if byObj[s.want] == nil {
						byObj[s.want] = map[string]*badSpot{}
					}
					byObj[s.want][s.f.json] = s
				}
				problem := ""
				compareObjSpecial(want, rv, byObj, &problem)
				if problem != "" {
					m.Violate("the decoded object differs from the expectation", kase, "bad member contained", problem)
					return
				}
				walkObjs("", want, rv, func(path string, wo *obj, ov reflect.Value) {
					dd, _ := ov.FieldByName("DecodeData").Interface().(*rdap.DecodeData)
					if dd == nil {
						problem = path + " has no decode data"
						return
					}
					m.Count("objects_with_notes_checked", 1)
					for _, f := range schema[wo.class] {
						notes := dd.Notes(f.json)
						s := byObj[wo][f.json]
						if s != nil {
							if s.noted && len(notes) == 0 {
								problem = fmt.Sprintf("no note for %s", s.path)
							}
							continue
						}
						if (f.k == kStr || f.k == kBool || f.k == kStrList) && len(notes) != 0 {
							problem = fmt.Sprintf("note %q for the good member %s/%s", notes, path, f.json)
						}
					}
				})
				if problem != "" {
					m.Violate("notes", kase, "a note for each bad member and none for good ones", problem)
				}
			})
		}
		for i := range m.N(9000) {
			r := NewRand(m.Seed, fmt.Sprintf("C22/%d", i))
			g := newDocGen(r)
			o := g.top(topClasses[i%len(topClasses)])
			one(r, o, func(all []*badSpot) []*badSpot {
				return shuffled(r, all)[:min(len(all), pick(r, []int{1, 1, 1, 2, 4}))]
			})
		}
		reps := 30
		if m.Thorough {
			reps = 200
		}
		for _, class := range sortedKeys(schema) {
			for _, f := range schema[class] {
				for k := range reps {
					r := NewRand(m.Seed, fmt.Sprintf("C22each/%s/%s/%d", class, f.json, k))
					g := newDocGen(r)
					g.unknown = 0.1
					leaf := g.object(class, 1)
					if f.json != "objectClassName" {
						leaf.m[f.json] = g.value(f, 1)
					} else {
						leaf.m[f.json] = class
					}
					o := wrapObj(leaf)
					one(r, o, func(all []*badSpot) []*badSpot {
						for _, s := range all {
							if s.bad.class == class && s.f.json == f.json {
								return []*badSpot{s}
							}
						}
						return nil
					})
				}
				if f.k != kU8 && f.k != kU16 && f.k != kU32 && f.k != kU64 {
					continue
				}
				var xs []float64
				for _, e := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 30, 31, 32, 33, 40, 48, 52, 53, 62, 63, 64, 65, 100} {
					for _, d := range []float64{-2, -1, 0, 1, 2, 44} {
						for _, k := range []float64{1, -1, 2, 3} {
							xs = append(xs, k*math.Pow(2, float64(e))+d)
						}
					}
				}
				for n := range 700 {
					xs = append(xs, float64(n))
				}
				for _, n := range dictAll.Nums {
					xs = append(xs, float64(n))
				}
				for _, n := range dictFresh.Nums {
					xs = append(xs, float64(n-1), float64(n+1), float64(-n), float64(n*2))
				}
				for j, x := range xs {
					if !m.Thorough && j%2 == len(f.json)%2 && len(dictFresh.Nums) == 0 && x > 20 && x != float64(maxOf(f.k))+1 && x != float64(maxOf(f.k)) {
						continue
					}
					r := NewRand(m.Seed, fmt.Sprintf("C22num/%s/%s/%v", class, f.json, x))
					o := wrapObj(&obj{class, map[string]any{f.json: 1.0}})
					m.Count("numbers_swept", 1)
					one(r, o, func(all []*badSpot) []*badSpot {
						for _, s := range all {
							if s.bad.class == class && s.f.json == f.json {
								s.force = x
								return []*badSpot{s}
							}
						}
						return nil
					})
				}
			}
		}
	})
}

// compareObjSpecial is compareObj that handles the corrupted numeric and null members itself.
func compareObjSpecial(want *obj, v reflect.Value, by map[*obj]map[string]*badSpot, problem *string) {
	for _, f := range schema[want.class] {
		if *problem != "" {
			return
		}
		fv := v.FieldByName(f.gof)
		x, sent := want.m[f.json]
		s := by[want][f.json]
		if s != nil && (s.nilZero || s.exact != nil) {
			if s.nilZero {
				if !fv.IsNil() && !fv.Elem().IsZero() {
					*problem = fmt.Sprintf("%s: null decoded to %s", s.path, dump(fv.Interface()))
				}
			} else if fv.IsNil() || fv.Elem().Uint() != *s.exact {
				*problem = fmt.Sprintf("%s: sent %s, decoded %s, should be %d", s.path, s.what, dump(fv.Interface()), *s.exact)
			}
			continue
		}
		if !sent {
			if !isEmptyValue(fv) {
				why := "was not sent"
				if s != nil {
					why = "could not be converted (" + s.path + "=" + s.what + ")"
				}
				*problem = fmt.Sprintf("%s.%s %s but is set to %s", want.class, f.json, why, dump(fv.Interface()))
			}
			continue
		}
		switch f.k {
		case kObj:
			if fv.IsNil() {
				*problem = want.class + "." + f.json + " is missing"
			} else {
				compareObjSpecial(x.(*obj), fv.Elem(), by, problem)
			}
		case kObjList:
			l := x.([]any)
			if fv.Len() != len(l) {
				*problem = fmt.Sprintf("%s.%s has %d elements, should have %d", want.class, f.json, fv.Len(), len(l))
				return
			}
			for i := range l {
				compareObjSpecial(l[i].(*obj), fv.Index(i), by, problem)
			}
		default:
			if why := compareValue(want.class+"."+f.json, f, x, fv, ""); why != "" {
				*problem = why
			}
		}
	}
}

// ---- C34

func TestC34(t *testing.T) {
	monitor(t, "C34", "documents of all types with unknown members of every JSON type (names in other capitals, Go field names, labels, empty names) and wrongly typed standard members; every object that records its raw members is compared with what was sent: names, raw values, unknown names, absent names. Non-trivial: the document has unknown members. Distinct by document.", 1000, func(m *M) {
		for i := range m.N(4000) {
			r := NewRand(m.Seed, fmt.Sprintf("C34/%d", i))
			g := newDocGen(r)
			g.unknown, g.decoys, g.nulls, g.hostile = pick(r, []float64{0.3, 0.8, 1}), i%2 == 0, true, i%5 == 0
			o := g.top(topClasses[i%len(topClasses)])
			if i%4 == 0 {
				corruptTree(r, o)
			}
			c34One(m, o, render(r, o))
		}
		longDocs(m, func(o *obj) { c34One(m, o, mustJSON(plain(o))) })
	})
}

func c34One(m *M, o *obj, b []byte) {
	m.Try("C34 "+string(b), func() {
		v, err := rdap.NewDecoder(b).Decode()
		if err != nil {
			m.Violate("the document does not decode", string(b), "object", err.Error())
			return
		}
		m.Sample(string(b))
		unknowns := 0
		walkObjs("", o, reflect.ValueOf(v).Elem(), func(path string, so *obj, ov reflect.Value) {
			dd, _ := ov.FieldByName("DecodeData").Interface().(*rdap.DecodeData)
			if dd == nil {
				m.Violate("an object has no record of its raw members", string(b), path, nil)
				return
			}
			m.Count("objects_checked", 1)
			var unk []string
			for _, n := range so.names() {
				if _, known := findField(so.class, n); !known {
					unk = append(unk, n)
				}
				got, want := dd.Value(n), plain(so.m[n])
				if dump(got) != dump(want) {
					m.Violate("a raw value is not the one sent", string(b), fmt.Sprintf("%s/%s=%s", path, n, dump(want)), dump(got))
				}
			}
			unknowns += len(unk)
			if f := sortedCopy(dd.Fields()); !eqStrings(f, so.names()) {
				m.Violate("the recorded names are not the members sent", string(b), fmt.Sprintf("%s %q", path, so.names()), f)
			}
			if f := sortedCopy(dd.UnknownFields()); !eqStrings(f, sortedCopy(unk)) {
				m.Violate("the unknown names are not the non-standard members", string(b), fmt.Sprintf("%s %q", path, unk), f)
			}
			for _, f := range schema[so.class] {
				if _, sent := so.m[f.json]; !sent && dd.Value(f.json) != nil {
					m.Violate("a raw value for a member that was not sent", string(b), path+"/"+f.json, dump(dd.Value(f.json)))
				}
			}
			for _, n := range []string{"", "nope", "Handle", "decodeData"} {
				if _, sent := so.m[n]; !sent && dd.Value(n) != nil {
					m.Violate("a raw value for a member that was not sent", string(b), path+"/"+n, dump(dd.Value(n)))
				}
			}
		})
		m.Saw(string(b), unknowns > 0)
		m.Count("unknown_members", unknowns)
	})
}

func corruptTree(r *Rand, o *obj) {
	for _, n := range o.names() {
		switch x := o.m[n].(type) {
		case *obj:
			corruptTree(r, x)
		case []any:
			for _, y := range x {
				if c, ok := y.(*obj); ok {
					corruptTree(r, c)
				}
			}
		}
	}
	for _, k := range o.names() {
		if f, ok := findField(o.class, k); ok && k != "objectClassName" && f.k != kObj && f.k != kObjList && r.Chance(0.1) {
			o.m[k] = pick(r, []any{nil, true, 5.0, "text", []any{}, map[string]any{"a": 1.0}, []any{1.0, "x", nil}, -3.0, 1e30})
		}
	}
}
