package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// The harness's own description of RDAP responses: what the library documents, written out independently of its code.

type kind int

const (
	kStr kind = iota
	kStrList
	kU8
	kU16
	kU32
	kU64
	kBool
	kObj
	kObjList
	kCard
)

type field struct {
	json  string
	gof   string
	k     kind
	ref   string // class of objects
	label string // how it is printed; "" = not printed
	cat   string // what the printer options call it: conformance, notice, remark, event, port43, variant, securedns, nested, link
}

var fConf = field{"rdapConformance", "Conformance", kStrList, "", "Conformance", "conformance"}
var fLang = field{"lang", "Lang", kStr, "", "", ""}
var fClass = field{"objectClassName", "ObjectClassName", kStr, "", "", ""}
var fNotices = field{"notices", "Notices", kObjList, "notice", "Notice", "notice"}
var fRemarks = field{"remarks", "Remarks", kObjList, "remark", "Remark", "remark"}
var fLinks = field{"links", "Links", kObjList, "link", "Link", "link"}
var fEvents = field{"events", "Events", kObjList, "event", "Event", "event"}
var fPort43 = field{"port43", "Port43", kStr, "", "Port43", "port43"}
var fEntities = field{"entities", "Entities", kObjList, "entity", "Entity", ""}
var fStatus = field{"status", "Status", kStrList, "", "Status", ""}
var fHandle = field{"handle", "Handle", kStr, "", "Handle", ""}
var fPubIDs = field{"publicIds", "PublicIDs", kObjList, "publicid", "Public ID", ""}

var schema = map[string][]field{
	"link": {{"value", "Value", kStr, "", "Value", ""}, {"rel", "Rel", kStr, "", "Rel", ""}, {"href", "Href", kStr, "", "Href", ""},
		{"hreflang", "HrefLang", kStrList, "", "HrefLang", ""}, {"title", "Title", kStr, "", "Title", ""}, {"media", "Media", kStr, "", "Media", ""}, {"type", "Type", kStr, "", "Type", ""}},
	"notice":   {{"title", "Title", kStr, "", "Title", ""}, {"type", "Type", kStr, "", "Type", ""}, {"description", "Description", kStrList, "", "Description", ""}, fLinks},
	"remark":   {{"title", "Title", kStr, "", "Title", ""}, {"type", "Type", kStr, "", "Type", ""}, {"description", "Description", kStrList, "", "Description", ""}, fLinks},
	"event":    {{"eventAction", "Action", kStr, "", "Action", ""}, {"eventActor", "Actor", kStr, "", "Actor", ""}, {"eventDate", "Date", kStr, "", "Date", ""}, fLinks},
	"publicid": {{"type", "Type", kStr, "", "Type", ""}, {"identifier", "Identifier", kStr, "", "Identifier", ""}},
	"domain": {fLang, fConf, fClass, fNotices, fHandle, {"ldhName", "LDHName", kStr, "", "Domain Name", ""}, {"unicodeName", "UnicodeName", kStr, "", "Domain Name (Unicode)", ""},
		{"variants", "Variants", kObjList, "variant", "Variant", "variant"}, {"nameservers", "Nameservers", kObjList, "nameserver", "Nameserver", ""},
		{"secureDNS", "SecureDNS", kObj, "securedns", "Secure DNS", "securedns"}, fEntities, fStatus, fPubIDs, fRemarks, fLinks, fPort43, fEvents,
		{"network", "Network", kObj, "ip network", "IP Network", ""}},
	"variant":     {fLang, {"relation", "Relation", kStrList, "", "Relation", ""}, {"idnTable", "IDNTable", kStr, "", "IDN Table", ""}, {"variantNames", "VariantNames", kObjList, "variantname", "Variant Name", ""}},
	"variantname": {fLang, {"ldhName", "LDHName", kStr, "", "Domain Name", ""}, {"unicodeName", "UnicodeName", kStr, "", "Domain Name (Unicode)", ""}},
	"securedns": {fLang, {"zoneSigned", "ZoneSigned", kBool, "", "Zone Signed", ""}, {"delegationSigned", "DelegationSigned", kBool, "", "Delegation Signed", ""},
		{"maxSigLife", "MaxSigLife", kU64, "", "Max Signature Life", ""}, {"dsData", "DS", kObjList, "ds", "DSData", ""}, {"keyData", "Keys", kObjList, "key", "Key", ""}},
	"ds": {fLang, {"keyTag", "KeyTag", kU64, "", "Key Tag", ""}, {"algorithm", "Algorithm", kU8, "", "Algorithm", ""}, {"digest", "Digest", kStr, "", "Digest", ""},
		{"digestType", "DigestType", kU8, "", "DigestType", ""}, fEvents, fLinks},
	"key": {{"flags", "Flags", kU16, "", "Flags", ""}, {"protocol", "Protocol", kU8, "", "Protocol", ""}, {"algorithm", "Algorithm", kU8, "", "Algorithm", ""},
		{"publicKey", "PublicKey", kStr, "", "Public Key", ""}, fEvents, fLinks},
	"entity": {fLang, fConf, fClass, fNotices, fHandle, {"vcardArray", "VCard", kCard, "", "vCard", ""}, {"roles", "Roles", kStrList, "", "Role", ""}, fPubIDs,
		{"entities", "Entities", kObjList, "entity", "Entity", "nested"}, fRemarks, fLinks, fEvents, {"asEventActor", "AsEventActor", kObjList, "event", "AsEventActor", "event"}, fStatus, fPort43,
		{"networks", "Networks", kObjList, "ip network", "IP Network", "nested"}, {"autnums", "Autnums", kObjList, "autnum", "Autnum", "nested"}},
	"ip network": {fLang, fConf, fClass, fNotices, fHandle, {"startAddress", "StartAddress", kStr, "", "Start Address", ""}, {"endAddress", "EndAddress", kStr, "", "End Address", ""},
		{"ipVersion", "IPVersion", kStr, "", "IP Version", ""}, {"name", "Name", kStr, "", "Name", ""}, {"type", "Type", kStr, "", "Type", ""}, {"country", "Country", kStr, "", "Country", ""},
		{"parentHandle", "ParentHandle", kStr, "", "ParentHandle", ""}, fStatus, fEntities, fRemarks, fLinks, fPort43, fEvents},
	"autnum": {fLang, fConf, fClass, fNotices, fHandle, {"startAutnum", "StartAutnum", kU32, "", "StartAutnum", ""}, {"endAutnum", "EndAutnum", kU32, "", "EndAutnum", ""},
		{"ipVersion", "IPVersion", kStr, "", "IP Version", ""}, {"name", "Name", kStr, "", "Name", ""}, {"type", "Type", kStr, "", "Type", ""}, fStatus, {"country", "Country", kStr, "", "Country", ""},
		fEntities, fRemarks, fLinks, fPort43, fEvents},
	"nameserver": {fLang, fConf, fClass, fNotices, fHandle, {"ldhName", "LDHName", kStr, "", "Nameserver", ""}, {"unicodeName", "UnicodeName", kStr, "", "Nameserver (Unicode)", ""},
		{"ipAddresses", "IPAddresses", kObj, "ipaddrs", "IP Addresses", ""}, fEntities, fStatus, fRemarks, fLinks, fPort43, fEvents},
	"ipaddrs":           {fLang, {"v6", "V6", kStrList, "", "IPv6", ""}, {"v4", "V4", kStrList, "", "IPv4", ""}},
	"help":              {fLang, fConf, fNotices},
	"error":             {fLang, fConf, fNotices, {"errorCode", "ErrorCode", kU16, "", "Error Code", ""}, {"title", "Title", kStr, "", "Title", ""}, {"description", "Description", kStrList, "", "Description", ""}},
	"domain search":     {fLang, fConf, fNotices, {"domainSearchResults", "Domains", kObjList, "domain", "Domain", ""}},
	"nameserver search": {fLang, fConf, fNotices, {"nameserverSearchResults", "Nameservers", kObjList, "nameserver", "Nameserver", ""}},
	"entity search":     {fLang, fConf, fNotices, {"entitySearchResults", "Entities", kObjList, "entity", "Entity", ""}},
}

var topClasses = []string{"domain", "entity", "ip network", "autnum", "nameserver", "help", "error", "domain search", "entity search", "nameserver search"}

var topHeading = map[string]string{"domain": "Domain", "entity": "Entity", "ip network": "IP Network", "autnum": "Autnum", "nameserver": "Nameserver", "help": "Help", "error": "Error",
	"domain search": "Domain Search Results", "entity search": "Entity Search Results", "nameserver search": "Nameserver Search Results"}

var classGoType = map[string]string{"domain": "*rdap.Domain", "entity": "*rdap.Entity", "ip network": "*rdap.IPNetwork", "autnum": "*rdap.Autnum", "nameserver": "*rdap.Nameserver", "help": "*rdap.Help",
	"error": "*rdap.Error", "domain search": "*rdap.DomainSearchResults", "entity search": "*rdap.EntitySearchResults", "nameserver search": "*rdap.NameserverSearchResults"}

func (f field) isList() bool { return f.k == kStrList || f.k == kObjList }

func findField(class, name string) (field, bool) {
	for _, f := range schema[class] {
		if f.json == name {
			return f, true
		}
	}
	return field{}, false
}

// obj is a generated RDAP object. Member values: string, float64, bool, []any (of string or *obj), *obj, *card, and for
// unknown members any JSON value (maps as map[string]any).
type obj struct {
	class string
	m     map[string]any
}

func (o *obj) names() []string { return sortedKeys(o.m) }

// plain converts to ordinary JSON values.
func plain(v any) any {
	switch v := v.(type) {
	case *obj:
		out := map[string]any{}
		for k, x := range v.m {
			out[k] = plain(x)
		}
		return out
	case *card:
		return v.plain()
	case []any:
		out := []any{}
		for _, x := range v {
			out = append(out, plain(x))
		}
		return out
	default:
		return v
	}
}

// render writes JSON with members in random order.
func render(r *Rand, v any) []byte {
	var sb strings.Builder
	renderTo(r, &sb, plain(v), r.IntN(3))
	return []byte(sb.String())
}

func renderTo(r *Rand, sb *strings.Builder, v any, style int) {
	ws := func() {
		if style == 2 {
			sb.WriteString(pick(r, []string{"", " ", "\n", "\t", "\r\n  "}))
		}
	}
	switch v := v.(type) {
	case map[string]any:
		sb.WriteByte('{')
		for i, k := range shuffled(r, sortedKeys(v)) {
			if i > 0 {
				sb.WriteByte(',')
			}
			ws()
			sb.Write(jsonString(r, k, style))
			ws()
			sb.WriteByte(':')
			ws()
			renderTo(r, sb, v[k], style)
			ws()
		}
		sb.WriteByte('}')
	case []any:
		sb.WriteByte('[')
		for i, x := range v {
			if i > 0 {
				sb.WriteByte(',')
			}
			ws()
			renderTo(r, sb, x, style)
			ws()
		}
		sb.WriteByte(']')
	case string:
		sb.Write(jsonString(r, v, style))
	default:
		sb.Write(jsonNoEscape(v))
	}
}

// jsonString encodes s, sometimes with needless escapes.
func jsonString(r *Rand, s string, style int) []byte {
	if style != 1 || !r.Chance(0.2) {
		return jsonNoEscape(s)
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for _, c := range s {
		if c < 0x10000 && (c < 32 || c == '"' || c == '\\' || r.Chance(0.3)) {
			fmt.Fprintf(&sb, `\u%04x`, c)
		} else {
			sb.WriteRune(c)
		}
	}
	sb.WriteByte('"')
	return []byte(sb.String())
}

// docGen generates documents.
type docGen struct {
	r       *Rand
	n       int
	density float64
	depth   int
	unknown float64 // chance of unknown members per object
	hostile bool    // strings with control characters and the like
	card    bool
	empties bool // also empty strings and lists
	nulls   bool // null among unknown values
	size    int
	decoys  bool     // unknown members named like Go fields and labels
	echo    []string // when set, most strings come from here: different members with equal values
}

func newDocGen(r *Rand) *docGen {
	g := &docGen{r: r, density: pick(r, []float64{0.15, 0.35, 0.7, 1}), depth: r.Range(1, 3), unknown: 0.25, card: true, empties: true}
	if r.Chance(0.12) {
		g.echo = []string{"same", "Same", "same value", "0", "x.example", "https://x.example/"}[:r.Range(1, 6)]
	}
	return g
}

// str returns a string, unique within the document unless the generator echoes.
func (g *docGen) str() string {
	g.n++
	if len(g.echo) > 0 && g.r.Chance(0.8) {
		return pick(g.r, g.echo)
	}
	if g.hostile && g.r.Chance(0.6) {
		return g.hostileStr()
	}
	base := fmt.Sprintf("v%d", g.n)
	if dictChance(g.r, 0.02) {
		return g.r.word(base)
	}
	if g.r.Chance(0.003) {
		return base + strings.Repeat(pick(g.r, []string{"x", "\u00e9", "ab ", "\u65e5"}), int(g.r.number(1, 5000, 300)))
	}
	switch g.r.IntN(9) {
	case 0:
		return base + " with words"
	case 1:
		return base + " \u00e9\u65e5\u672c"
	case 2:
		return "  " + base
	case 3:
		return base + ": colon"
	case 4:
		return base + "\t\"quoted\" <b>&amp;"
	case 5:
		return "https://x.example/" + base + "?a=b#c"
	case 6:
		return "2026-01-02T03:04:05Z/" + base
	}
	return base
}

var hostileBits = []string{"\n", "\r", "\r\n", "\x00", "\t", "\x1b[31m", "\u2028", "\u0085", ": ", ":", " ", "Handle: x", "\nHandle: forged", "\n\n", "%s%d", "\u202e", "\x7f", "\v", "\f", "\\n", "a", "\u00e9", "Entity:", "\nEntity:\n  Handle: y", "  ", "-", "\ufffd"}

func (g *docGen) hostileStr() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "h%d", g.n)
	if g.r.Chance(0.01) { // far into the string
		sb.WriteString(strings.Repeat(pick(g.r, []string{"x", "\u00e9", "ab "}), g.r.Range(50, 3000)))
	}
	for range g.r.Range(1, 4) {
		sb.WriteString(pick(g.r, hostileBits))
	}
	if g.r.Chance(0.3) {
		return pick(g.r, hostileBits) + sb.String()
	}
	return sb.String()
}

func (g *docGen) num(k kind) float64 {
	g.n++
	var maxv uint64
	switch k {
	case kU8:
		maxv = math.MaxUint8
	case kU16:
		maxv = math.MaxUint16
	case kU32:
		maxv = math.MaxUint32
	default:
		maxv = 1 << 53
	}
	if dictChance(g.r, 0.05) {
		return float64(g.r.number(0, int64(maxv), 7))
	}
	switch g.r.IntN(5) {
	case 0:
		return float64(maxv)
	case 1:
		return 0
	case 2:
		return float64(g.r.Uint64N(256) % (maxv + 1))
	}
	return float64(g.r.Uint64N(maxv))
}

func (g *docGen) top(class string) *obj {
	o := g.object(class, g.depth)
	switch class {
	case "domain", "entity", "ip network", "autnum", "nameserver":
		o.m["objectClassName"] = class
	case "error":
		if _, ok := o.m["errorCode"]; !ok {
			o.m["errorCode"] = g.num(kU16)
		}
	case "domain search", "entity search", "nameserver search":
		f := schema[class][len(schema[class])-1]
		if _, ok := o.m[f.json]; !ok {
			o.m[f.json] = []any{}
		}
	}
	return o
}

func (g *docGen) object(class string, depth int) *obj {
	o := &obj{class, map[string]any{}}
	for _, f := range schema[class] {
		if f.json == "objectClassName" {
			if g.r.Chance(0.8) {
				o.m[f.json] = class
			}
			continue
		}
		p := g.density
		if f.k == kObj || f.k == kObjList {
			if depth <= 0 || g.size > 400 {
				continue
			}
			p *= 0.8
			if f.cat == "nested" || f.ref == "ip network" || f.ref == "autnum" {
				p *= 0.6
			}
		}
		if !g.r.Chance(p) {
			continue
		}
		o.m[f.json] = g.value(f, depth)
	}
	if g.r.Chance(g.unknown) {
		for range g.r.size(1, 3, 120) {
			o.m[g.unknownName(class)] = g.unknownValue(2)
		}
	}
	return o
}

func (g *docGen) value(f field, depth int) any {
	g.size++
	r := g.r
	switch f.k {
	case kStr:
		if g.empties && r.Chance(0.05) {
			return ""
		}
		return g.str()
	case kStrList:
		l := []any{}
		n := r.size(1, 3, 1100)
		if g.empties && r.Chance(0.08) {
			n = 0
		}
		for range n {
			if g.empties && r.Chance(0.03) {
				l = append(l, "")
			} else {
				l = append(l, g.str())
			}
		}
		if len(l) > 1 && r.Chance(0.1) {
			l[1] = l[0] // repeated values are shown as often as they occur
		}
		return l
	case kBool:
		return r.Chance(0.5)
	case kObj:
		return g.object(f.ref, depth-1)
	case kObjList:
		l := []any{}
		n := r.Range(1, 2)
		if depth >= 2 && r.Chance(0.2) {
			n = 3
		}
		if g.size < 300 && dictChance(r, 0.01) {
			n = int(r.number(1, 270, 5))
		}
		if g.empties && r.Chance(0.08) {
			n = 0
		}
		for range n {
			l = append(l, g.object(f.ref, depth-1))
		}
		return l
	case kCard:
		return genCard(g)
	default:
		return g.num(f.k)
	}
}

func (g *docGen) unknownName(class string) string {
	g.n++
	for {
		var n string
		switch g.r.IntN(6) {
		case 0:
			n = pick(g.r, []string{"cidr0_cidrs", "arin_originas0_originautnums", "redacted", "nicbr_autnum", "lunarNic_beforeOneSmallStep"})
		case 1: // a standard name with other capitals
			f := pick(g.r, schema[class])
			n = strings.ToUpper(f.json)
		case 2:
			n = fmt.Sprintf("x%d \u00e9", g.n)
		case 3:
			n = fmt.Sprintf("x%d_%s", g.n, pick(g.r, []string{"", "Handle", "links", "a.b", "$", "\"q\"", "ids", "s", "Id", "_x", "0", "data", "date", "url", "list", "type"}))
		case 4: // an extension's prefix or suffix around a standard name
			f := pick(g.r, schema[pick(g.r, topClasses)])
			n = pick(g.r, []string{"x%d_", "ext%d", "X-%d-", "%d:", "_%d_"})
			n = fmt.Sprintf(n, g.n) + f.json
		default:
			n = fmt.Sprintf("x%d", g.n)
		}
		if g.hostile && g.r.Chance(0.5) {
			n = g.hostileStr()
		}
		if dictChance(g.r, 0.06) {
			n = g.r.word(fmt.Sprintf("x%d", g.n))
		}
		if g.decoys && g.r.Chance(0.5) {
			f := pick(g.r, schema[class])
			n = pick(g.r, []string{"decodeData", "DecodeData", "common", "Common", f.gof, strings.ToLower(f.gof), strings.ToLower(f.gof[:1]) + f.gof[1:], f.label, f.json + " ", " " + f.json, f.json + "s", strings.TrimSuffix(f.json, "s"), f.json + "\x00", "", "values", "notes", "isKnown"})
		}
		decides := n == "errorCode" || n == "domainSearchResults" || n == "entitySearchResults" || n == "nameserverSearchResults" // would change the type of a response
		if _, known := findField(class, n); !known && !decides && !strings.EqualFold(n, "objectClassName") {
			return n
		}
	}
}

// anyNum is any number JSON can carry exactly enough to compare.
func (g *docGen) anyNum() float64 {
	r := g.r
	switch r.IntN(6) {
	case 0:
		return pick(r, []float64{0, 1, -1, 1.5, 12345678901, 1e6, 0.25})
	case 1:
		return pick(r, []float64{1e20, 1e21, 1e22, 123456789012345680000, 1.5e25, 1e100, -1e21, 1e-6, 1e-7, 1.25e-9, -1e-7, 1 << 53, 1<<53 + 2, 1 << 63, 1 << 64, 4294967295, 4294967296, 2147483647, 2147483648, -2147483648, -2147483649, 65535, 65536, 255, 256, 100000, 999999, 1000000, 10000000, 1234567, 12345678, 0.1, 0.3, 1.0 / 3, 1e15, 1e16, 1e17, 2.5e6, -0.5})
	case 2:
		return float64(r.number(-1<<62, 1<<62, 1))
	case 3:
		return r.Float64() * math.Pow(10, float64(r.Range(-12, 30)))
	case 4:
		return float64(r.IntN(100000)) / pick(r, []float64{1, 1, 2, 4, -1, 3})
	}
	return float64(r.Uint64N(1 << pick(r, []int{4, 8, 16, 20, 24, 32, 53})))
}

func (g *docGen) unknownValue(depth int) any {
	r := g.r
	k := r.IntN(8)
	if depth <= 0 && k >= 6 {
		k = 0
	}
	switch k {
	case 4:
		return r.Chance(0.5)
	case 5:
		return g.anyNum()
	case 6:
		l := []any{}
		for range r.size(0, 3, 300) {
			l = append(l, g.unknownValue(depth-1))
		}
		return l
	case 7:
		mm := map[string]any{}
		for range r.size(0, 3, 120) {
			g.n++
			k := fmt.Sprintf("y%d", g.n)
			if dictChance(r, 0.03) {
				k = r.word(k)
			}
			if g.hostile && r.Chance(0.5) {
				k = g.hostileStr()
			}
			mm[k] = g.unknownValue(depth - 1)
		}
		return mm
	default:
		if g.nulls && r.Chance(0.3) {
			return nil
		}
		return g.str()
	}
}

// ---- jCards

type cardProp struct {
	name   string
	params map[string]any // string or []any of strings
	typ    string
	values []any // one or more
}

type card struct{ props []cardProp }

func (c *card) plain() any {
	ps := []any{}
	for _, p := range c.props {
		pm := map[string]any{}
		for k, v := range p.params {
			pm[k] = v
		}
		ps = append(ps, append([]any{p.name, pm, p.typ}, p.values...))
	}
	return []any{"vcard", ps}
}

func genCard(g *docGen) *card {
	r := g.r
	c := &card{}
	if r.Chance(0.7) {
		c.props = append(c.props, cardProp{"version", nil, "text", []any{"4.0"}})
	}
	for range r.size(0, 6, 70) {
		c.props = append(c.props, g.cardProp())
	}
	if r.Chance(0.3) {
		c.props = shuffled(r, c.props)
	}
	return c
}

var cardNames = []string{"fn", "fn", "adr", "adr", "tel", "tel", "email", "org", "n", "title", "kind", "url", "role", "note", "x-custom", "FN", "Tel", "lang"}

func (g *docGen) cardProp() cardProp {
	r := g.r
	p := cardProp{name: pick(r, cardNames), params: map[string]any{}, typ: pick(r, []string{"text", "text", "uri", "language-tag", "integer", "unknown"})}
	if g.hostile && r.Chance(0.2) {
		p.name = g.hostileStr()
	}
	if dictChance(r, 0.02) {
		p.name = r.word(fmt.Sprintf("p%d", g.n))
	}
	if dictChance(r, 0.02) {
		p.typ = r.word("t")
	}
	if p.name == "tel" && r.Chance(0.7) {
		p.params["type"] = pick(r, []any{"voice", "fax", "work", []any{"voice"}, []any{"work", "voice"}, []any{"fax", "work"}, []any{"home"}, []any{"voice", "fax"}, "VOICE", "cell", []any{"text", "voice"}, []any{"voice", "voice"}, []any{"work", "work", "voice"}, []any{"fax", "fax"}})
	}
	for range r.size(0, 2, 40) {
		g.n++
		k := pick(r, []string{"pref", "label", "language", "cc", "x-p", "TYPE", fmt.Sprintf("x-%d", g.n)})
		if dictChance(r, 0.03) {
			k = r.word("k")
		}
		if k == "type" {
			continue // tel types are chosen above
		}
		switch r.IntN(4) {
		case 0, 1:
			p.params[k] = g.str()
			if r.Chance(0.1) {
				p.params[k] = ""
			}
		case 2:
			p.params[k] = []any{g.str(), g.str()}[:r.Range(1, 2)]
		default: // lists with repeated and empty values
			vals := []any{g.str(), g.str(), "", "a"}
			l := []any{}
			for range r.size(1, 5, 40) {
				l = append(l, pick(r, vals))
			}
			p.params[k] = l
		}
	}
	if p.name == "adr" {
		if r.Chance(0.1) {
			p.values = []any{g.str()}
			return p
		}
		comps := []any{}
		n := 7
		if r.Chance(0.15) {
			n = r.Range(1, 8)
		}
		for range n {
			switch r.IntN(7) {
			case 0, 1:
				comps = append(comps, "")
			case 2:
				l := []any{}
				for range r.Range(1, 3) {
					l = append(l, g.str())
				}
				comps = append(comps, l)
			default:
				comps = append(comps, g.str())
			}
		}
		p.values = []any{comps}
		return p
	}
	nv := 1
	if r.Chance(0.15) {
		nv = r.size(2, 3, 40)
	}
	for range nv {
		p.values = append(p.values, g.cardValue(0))
	}
	return p
}

func (g *docGen) cardValue(depth int) any {
	r := g.r
	switch r.IntN(10) {
	case 0:
		return r.Chance(0.5)
	case 1:
		return g.anyNum()
	case 2:
		if depth < 2 {
			l := []any{}
			for range r.size(0, 3, 60) {
				l = append(l, g.cardValue(depth+1))
			}
			return l
		}
	case 3:
		return nil
	case 4:
		return ""
	}
	return g.str()
}

// want is the value a decoded property must have.
func (p cardProp) want() any {
	if len(p.values) == 1 {
		return p.values[0]
	}
	return p.values
}

func (p cardProp) wantParams() map[string][]string {
	out := map[string][]string{}
	for k, v := range p.params {
		switch v := v.(type) {
		case string:
			out[k] = []string{v}
		case []any:
			for _, s := range v {
				out[k] = append(out[k], s.(string))
			}
		}
	}
	return out
}

// flat lists the scalars of v in order as text.
func flat(v any) []string {
	switch v := v.(type) {
	case nil:
		return []string{""}
	case bool:
		return []string{strconv.FormatBool(v)}
	case float64:
		return []string{strconv.FormatFloat(v, 'f', -1, 64)}
	case string:
		return []string{v}
	case []any:
		out := []string{}
		for _, x := range v {
			out = append(out, flat(x)...)
		}
		return out
	}
	panic("flat")
}

// jsonEqual compares two JSON values structurally.
func jsonEqual(a, b any) bool {
	return string(canonJSON(a)) == string(canonJSON(b))
}

func canonJSON(v any) []byte {
	b, err := json.Marshal(v) // maps are written in key order
	if err != nil {
		panic(err)
	}
	return b
}

func sortedCopy(s []string) []string {
	out := append([]string{}, s...)
	sort.Strings(out)
	return out
}
