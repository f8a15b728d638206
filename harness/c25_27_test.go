package harness

import (
	"fmt"
	"io"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/openrdap/rdap"
)

// pnode is one line of the text output a document should give, with the lines nested below it.
type pnode struct {
	label   string
	value   string
	heading bool
	null    bool // an unknown null: how it is shown is not specified
	kids    []*pnode
}

type popts struct{ omitNotices, omitRemarks, brief, briefLinks bool }

func (o popts) omits(cat string) bool {
	switch cat {
	case "notice":
		return o.omitNotices || o.brief
	case "remark":
		return o.omitRemarks || o.brief
	case "conformance", "event", "port43", "variant", "securedns", "nested":
		return o.brief
	}
	return false
}

func valueNode(label, v string) *pnode { return &pnode{label: label, value: v} }

// expectObj is the harness's own reading of what printing o shows.
func expectObj(heading string, o *obj, opt popts) *pnode {
	n := &pnode{label: heading, heading: true}
	add := func(k *pnode) { n.kids = append(n.kids, k) }
	known := map[string]bool{}
	for _, f := range schema[o.class] {
		known[f.json] = true
		x, ok := o.m[f.json]
		if !ok || f.label == "" || opt.omits(f.cat) {
			continue
		}
		switch f.k {
		case kStr:
			if x.(string) != "" {
				add(valueNode(f.label, x.(string)))
			}
		case kStrList:
			for _, s := range x.([]any) {
				if s.(string) != "" {
					add(valueNode(f.label, s.(string)))
				}
			}
		case kBool:
			add(valueNode(f.label, strconv.FormatBool(x.(bool))))
		case kU8, kU16, kU32, kU64:
			add(valueNode(f.label, strconv.FormatUint(uint64(x.(float64)), 10)))
		case kObj:
			add(expectObj(f.label, x.(*obj), opt))
		case kObjList:
			for _, c := range x.([]any) {
				if f.cat == "link" && opt.briefLinks {
					if h, _ := c.(*obj).m["href"].(string); h != "" {
						add(valueNode("Link", h))
					}
					continue
				}
				add(expectObj(f.label, c.(*obj), opt))
			}
		case kCard:
			for _, p := range x.(*card).props {
				for _, s := range flat(p.want()) {
					if s != "" {
						add(valueNode("vCard "+p.name, s))
					}
				}
			}
		}
	}
	for _, k := range o.names() {
		if !known[k] {
			n.kids = append(n.kids, expectUnknown(k, o.m[k])...)
		}
	}
	return n
}

func expectUnknown(key string, v any) []*pnode {
	switch v := v.(type) {
	case bool:
		return []*pnode{valueNode(key, strconv.FormatBool(v))}
	case float64:
		return []*pnode{valueNode(key, strconv.FormatFloat(v, 'f', -1, 64))}
	case string:
		if v == "" {
			return nil
		}
		return []*pnode{valueNode(key, v)}
	case []any:
		var out []*pnode
		for _, x := range v {
			out = append(out, expectUnknown(key, x)...)
		}
		return out
	case map[string]any:
		n := &pnode{label: key, heading: true}
		for _, k := range sortedKeys(v) {
			n.kids = append(n.kids, expectUnknown(k, v[k])...)
		}
		return []*pnode{n}
	}
	return []*pnode{{label: key, null: true}}
}

var cleaner = strings.NewReplacer("\n", "", "\r", "", "\x00", "")

func (n *pnode) text() string {
	if n.heading {
		return cleaner.Replace(n.label) + ":"
	}
	return cleaner.Replace(n.label) + ": " + cleaner.Replace(n.value)
}

func (n *pnode) count() int {
	c := 1
	for _, k := range n.kids {
		c += k.count()
	}
	return c
}

func (n *pnode) render(sb *strings.Builder, unit string, level int) {
	sb.WriteString(strings.Repeat(unit, level) + n.text() + "\n")
	for _, k := range n.kids {
		k.render(sb, unit, level+1)
	}
}

// matchOutput decides whether out shows exactly the tree n: every line present once, nested where it belongs, and lines
// of one label in order. The order between different labels is left open.
func matchOutput(out string, n *pnode, unit string) string {
	if !strings.HasSuffix(out, "\n") {
		return "the output does not end with a line end"
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	pos := 0
	if lines[0] != n.text() {
		return fmt.Sprintf("the first line should be %q, is %q", n.text(), lines[0])
	}
	pos = 1
	if d := matchKids(lines, &pos, n, unit, 1, n.label); d != "" {
		return d
	}
	if pos != len(lines) {
		return fmt.Sprintf("line %d: nothing should show %q here", pos+1, lines[pos])
	}
	return ""
}

func matchKids(lines []string, pos *int, n *pnode, unit string, level int, path string) string {
	type group struct{ nodes []*pnode }
	var order []string
	groups := map[string]*group{}
	for _, k := range n.kids {
		key := k.label + "\x00v"
		if k.heading {
			key = k.label + "\x00h"
		}
		if groups[key] == nil {
			groups[key] = &group{}
			order = append(order, key)
		}
		groups[key].nodes = append(groups[key].nodes, k)
	}
	left := len(n.kids)
	ind := strings.Repeat(unit, level)
	for left > 0 {
		if *pos >= len(lines) {
			break
		}
		line := lines[*pos]
		found := false
		for _, key := range order {
			g := groups[key]
			if len(g.nodes) == 0 || line != ind+g.nodes[0].text() {
				continue
			}
			k := g.nodes[0]
			g.nodes = g.nodes[1:]
			left--
			*pos++
			found = true
			if k.heading {
				if d := matchKids(lines, pos, k, unit, level+1, path+" > "+k.label); d != "" {
					return d
				}
			}
			break
		}
		if !found {
			break
		}
	}
	if left > 0 {
		at := "the end of the output"
		if *pos < len(lines) {
			at = fmt.Sprintf("line %d %q", *pos+1, lines[*pos])
		}
		for _, key := range order {
			if g := groups[key]; len(g.nodes) > 0 {
				return fmt.Sprintf("in %q: %q is still to be shown (%d lines are), but %s comes instead", path, g.nodes[0].text(), left, at)
			}
		}
	}
	return ""
}

var printUnits = []struct {
	char rune
	size uint
}{{0, 0}, {0, 0}, {0, 4}, {'\t', 1}, {'-', 3}, {'\u2192', 2}, {' ', 1}, {'.', 7}, {'\t', 0}, {' ', 8},
	{' ', 16}, {'x', 33}, {' ', 64}, {'_', 100}, {0, 128}, {' ', 255}, {' ', 256}, {'\t', 3}, {' ', 5}, {'\U0001F600', 2}, {'\u00e9', 6}}

func init() {
	for _, n := range dictFresh.Nums {
		if n > 0 && n < 300 {
			printUnits = append(printUnits, struct {
				char rune
				size uint
			}{' ', uint(n)}, struct {
				char rune
				size uint
			}{' ', uint(n + 1)})
		}
	}
}

func unitOf(i int) string {
	u := printUnits[i]
	c, s := u.char, u.size
	if c == 0 {
		c = ' '
	}
	if s == 0 {
		s = 2
	}
	return strings.Repeat(string(c), int(s))
}

func printerOf(opt popts, unit int) rdap.Printer {
	return rdap.Printer{OmitNotices: opt.omitNotices, OmitRemarks: opt.omitRemarks, BriefOutput: opt.brief, BriefLinks: opt.briefLinks, IndentChar: printUnits[unit].char, IndentSize: printUnits[unit].size}
}

func decodeOr(m *M, b []byte) any {
	v, err := rdap.NewDecoder(b).Decode()
	if err != nil {
		m.Violate("a well-formed response failed to decode", string(b), "no error", err.Error())
		return nil
	}
	return v
}

// dropDecodeData makes a decoded object look like one a program built itself.
func dropDecodeData(v any) {
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			if _, ok := v.Interface().(*rdap.DecodeData); ok {
				if v.CanSet() {
					v.SetZero()
				}
				return
			}
			rec(v.Elem())
		case reflect.Struct:
			for i := range v.NumField() {
				if v.Type().Field(i).IsExported() {
					rec(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := range v.Len() {
				rec(v.Index(i))
			}
		}
	}
	rec(reflect.ValueOf(v))
}

// ---- C25

func TestC25(t *testing.T) {
	monitor(t, "C25", "a response full of hostile strings printed and every output line matched, character by character and at its depth, to a line the response calls for", 900, func(m *M) {
		m.Assume("how a null in an unrecognised member is shown is not judged")
		for i := range m.N(4000) {
			r := NewRand(m.Seed, fmt.Sprintf("C25/%d", i))
			g := newDocGen(r)
			g.hostile = true
			g.unknown = 0.5
			g.nulls = r.Chance(0.2)
			class := topClasses[i%len(topClasses)]
			o := g.top(class)
			b := render(r, o)
			unit := i % len(printUnits)
			opt := popts{}
			if i%3 == 2 { // lines must be right whatever is left out
				x := r.IntN(16)
				opt = popts{x&1 != 0, x&2 != 0, x&4 != 0, x&8 != 0}
			}
			m.Try(string(b), func() {
				v := decodeOr(m, b)
				if v == nil {
					return
				}
				out := printWith(printerOf(opt, unit), v)
				lines, d := c25Lines(out, expectObj(topHeading[class], o, popts{briefLinks: opt.briefLinks}), unitOf(unit))
				if d != "" {
					m.Violate(d, string(b), nil, out)
				}
				m.Count("lines matched", lines)
				m.Max("longest output", lines)
				m.Count("newlines in the strings of the response", strings.Count(string(b), `\n`)+strings.Count(string(b), `\u000a`))
				m.Saw(string(b)+fmt.Sprint(opt, unit), lines > 3)
			})
			m.Sample(string(b))
		}
		c25Each(m)
		c25Runes(m)
		longDocs(m, func(o *obj) {
			b := mustJSON(plain(o))
			for _, unit := range []int{0, 6, 7} {
				m.Try("C25 long", func() {
					if v := decodeOr(m, b); v != nil {
						out := printWith(printerOf(popts{}, unit), v)
						lines, d := c25Lines(out, expectObj(topHeading[o.class], o, popts{}), unitOf(unit))
						if d != "" {
							m.Violate(d, string(b), nil, out)
						}
						m.Count("lines matched", lines)
						m.Saw(string(b)+fmt.Sprint(unit), true)
					}
				})
			}
		})
	})
}

// c25Lines matches every line of out to a distinct line of the expected tree with the same depth and the same headings above.
func c25Lines(out string, n *pnode, unit string) (int, string) {
	if strings.ContainsAny(out, "\r\x00") {
		return 0, "the output contains a carriage return or NUL"
	}
	if out == "" {
		return 0, ""
	}
	if !strings.HasSuffix(out, "\n") {
		return 0, "the output does not end with a line end"
	}
	avail := map[string]int{}            // path of headings + line
	nulls := map[string]map[string]int{} // path of headings -> start of line
	var walk func(n *pnode, path string, level int)
	walk = func(n *pnode, path string, level int) {
		ind := strings.Repeat(unit, level)
		if n.null {
			if nulls[path] == nil {
				nulls[path] = map[string]int{}
			}
			nulls[path][ind+cleaner.Replace(n.label)+":"]++
			return
		}
		avail[path+"\n"+ind+n.text()]++
		for _, k := range n.kids {
			walk(k, path+"\n"+ind+n.text(), level+1)
		}
	}
	walk(n, "", 0)
	var stack []string // the headings open at each level
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	for i, l := range lines {
		ok := false
		for lv := len(stack); lv >= 0 && !ok; lv-- {
			path := ""
			if lv > 0 {
				path = "\n" + strings.Join(stack[:lv], "\n")
			}
			if avail[path+"\n"+l] > 0 {
				avail[path+"\n"+l]--
				ok = true
				stack = stack[:lv]
				if strings.HasSuffix(l, ":") {
					stack = append(stack, l)
				}
				break
			}
			best := ""
			for p, k := range nulls[path] {
				if k > 0 && strings.HasPrefix(l, p) && len(p) > len(best) {
					best = p
				}
			}
			if best != "" {
				nulls[path][best]--
				ok = true
				stack = stack[:lv]
			}
		}
		if !ok {
			return i, fmt.Sprintf("line %d %q is not a line of the response at this place", i+1, l)
		}
	}
	return len(lines), ""
}

// c25Each puts hostile text into every member of every class, one at a time.
func c25Each(m *M) {
	texts := []string{"a\nb", "a\rb", "a\x00b", "\na", "a\n", "a\r\nHandle: forged", "\r", "\n", "\x00\x00", "a\u2028b", "%d%s%!", "a\tb", "x: y", "  lead", "trail  "}
	i := 0
	for _, class := range sortedKeys(schema) {
		for _, f := range schema[class] {
			if f.label == "" || (f.k != kStr && f.k != kStrList) {
				continue
			}
			for _, s := range texts {
				o := &obj{class, map[string]any{f.json: s}}
				if f.k == kStrList {
					o.m[f.json] = []any{s, "z", s}
				}
				c25Check(m, o, i)
				i++
			}
		}
		for _, s := range texts { // names of unknown members, at two depths
			c25Check(m, &obj{class, map[string]any{"q" + s: "v", "m": map[string]any{s: "w", "k" + s: map[string]any{s + "2": s}}}}, i)
			i++
		}
	}
	for _, n := range []int{63, 64, 79, 80, 127, 255, 256, 511, 1023, 1024, 2047, 4095, 4096, 8191, 16384, 32767, 65535, 65536, 131072} {
		for _, bad := range []string{"\n", "\r", "\x00", "\nHandle: forged"} {
			s := strings.Repeat("x", n) + bad
			c25Check(m, &obj{"domain", map[string]any{"handle": s, "x": s + "y", "k" + s: "v", "status": []any{s + "z"}}}, i)
			i++
		}
	}
	for _, s := range texts {
		c25Check(m, &obj{"entity", map[string]any{"vcardArray": &card{[]cardProp{{s, nil, "text", []any{"v"}}, {"fn", nil, "text", []any{s, []any{s, "x"}}}}}}}, i)
		i++
	}
}

func c25Check(m *M, o *obj, i int) {
	top := wrapObj(o)
	b := mustJSON(plain(top))
	m.Try(string(b), func() {
		v := decodeOr(m, b)
		if v == nil {
			return
		}
		unit := i % len(printUnits)
		out := printWith(printerOf(popts{}, unit), v)
		lines, d := c25Lines(out, expectObj(topHeading[top.class], top, popts{}), unitOf(unit))
		if d != "" {
			m.Violate(d, string(b), nil, out)
		}
		m.Count("lines matched", lines)
		m.Saw(string(b), lines > 1)
	})
}

// c25Runes sends every code point (in blocks) through a value.
func c25Runes(m *M) {
	step := 997
	if m.Thorough {
		step = 1
	}
	var block []rune
	flush := func() {
		if len(block) == 0 {
			return
		}
		c25Check(m, &obj{"domain", map[string]any{"handle": string(block), "x" + string(block[:1]): string(block)}}, int(block[0]))
		m.Count("code points printed", len(block))
		block = block[:0]
	}
	for c := rune(0); c <= 0x10ffff; c++ {
		if c >= 0xd800 && c < 0xe000 || (c > 0x3000 && int(c)%step != 0) {
			continue
		}
		block = append(block, c)
		if len(block) == 64 {
			flush()
		}
	}
	flush()
}

// ---- C26

func TestC26(t *testing.T) {
	monitor(t, "C26", "a response printed in full and its output matched line by line, as a tree, to everything the response contains", 900, func(m *M) {
		m.Assume("the order of lines with different labels within one object, and how empty or null unrecognised members are shown, are not judged")
		for i := range m.N(6000) {
			r := NewRand(m.Seed, fmt.Sprintf("C26/%d", i))
			g := newDocGen(r)
			class := topClasses[i%len(topClasses)]
			o := g.top(class)
			own := r.Chance(0.15)
			if own {
				g.unknown = 0
				o = g.top(class)
			}
			b := render(r, o)
			opt := popts{briefLinks: r.Chance(0.4)}
			unit := r.IntN(len(printUnits))
			m.Try(string(b), func() {
				v := decodeOr(m, b)
				if v == nil {
					return
				}
				if own {
					dropDecodeData(v)
					m.Count("objects without decode data", 1)
				}
				c26Match(m, string(b), printWith(printerOf(opt, unit), v), expectObj(topHeading[class], o, opt), unit)
			})
			m.Saw(string(b)+fmt.Sprint(opt), len(o.m) > 2)
			m.Sample(string(b))
		}
		c26Each(m)
		c26Long(m)
	})
}

func c26Match(m *M, kase, out string, want *pnode, unit int) {
	if d := matchOutput(out, want, unitOf(unit)); d != "" {
		var sb strings.Builder
		want.render(&sb, unitOf(unit), 0)
		m.Violate(d, kase, sb.String(), out)
	}
	m.Count("lines matched", want.count())
	m.Max("lines of the longest output", want.count())
}

// c26Each prints every member of every class alone and with each sibling absent.
func c26Each(m *M) {
	i := 0
	for _, class := range sortedKeys(schema) {
		for _, f := range schema[class] {
			for rep := range 3 {
				r := NewRand(m.Seed, fmt.Sprintf("C26e/%s/%s/%d", class, f.json, rep))
				g := newDocGen(r)
				g.density = 0.6
				g.empties = false
				var o *obj
				switch rep {
				case 0: // alone
					o = &obj{class, map[string]any{f.json: g.value(f, 2)}}
				case 1: // all but this one
					g.density = 1
					o = g.object(class, 2)
					delete(o.m, f.json)
				case 2: // long lists
					v := g.value(f, 2)
					if l, ok := v.([]any); ok {
						for range 9 {
							l = append(l, g.value(f, 1).([]any)...)
						}
						v = l
					}
					o = &obj{class, map[string]any{f.json: v}}
				}
				if f.json == "objectClassName" {
					o.m[f.json] = class
				}
				top := wrapObj(o)
				b := render(r, top)
				unit := i % len(printUnits)
				i++
				m.Try(string(b), func() {
					if v := decodeOr(m, b); v != nil {
						c26Match(m, string(b), printWith(printerOf(popts{}, unit), v), expectObj(topHeading[top.class], top, popts{}), unit)
					}
				})
				m.Saw(string(b), true)
				m.Count("single member documents", 1)
			}
		}
	}
}

// longDocs calls f with very long values and lists and deeply nested objects.
func longDocs(m *M, f func(*obj)) {
	deep := func(n int) *obj {
		o := &obj{"entity", map[string]any{"handle": "inner"}}
		for i := range n {
			o = &obj{"entity", map[string]any{"handle": fmt.Sprintf("e%d", i), "entities": []any{o}, "xtra": fmt.Sprintf("u%d", i)}}
		}
		o.m["objectClassName"] = "entity"
		return o
	}
	deepUnknown := func(n int) *obj {
		v := any("inner")
		for i := range n {
			mm := map[string]any{fmt.Sprintf("k%d", i): v}
			if i%3 == 0 {
				mm["side"] = float64(i)
			}
			v = mm
		}
		return &obj{"domain", map[string]any{"objectClassName": "domain", "x_deep": v, "handle": "H"}}
	}
	nameless := &obj{"domain", map[string]any{"objectClassName": "domain", "": "v", "handle": "H", "x": map[string]any{"": "w", " ": "s", "y": map[string]any{"": []any{"a", "b", map[string]any{"": true}}}}}}
	deepMixed := func(n int) *obj { // entities with networks with entities
		o := &obj{"entity", map[string]any{"handle": "inner", "links": []any{&obj{"link", map[string]any{"href": "h", "title": "t"}}}}}
		for i := range n {
			w := &obj{"ip network", map[string]any{"handle": fmt.Sprintf("n%d", i), "entities": []any{o}}}
			o = &obj{"entity", map[string]any{"handle": fmt.Sprintf("e%d", i), "networks": []any{w}, "status": []any{"a", "b"}}}
		}
		return &obj{"domain", map[string]any{"objectClassName": "domain", "entities": []any{o}}}
	}
	many := func(n int) *obj {
		l, s := []any{}, []any{}
		for i := range n {
			l = append(l, &obj{"nameserver", map[string]any{"ldhName": fmt.Sprintf("ns%d.example", i)}})
			s = append(s, fmt.Sprintf("s%d", i%7))
		}
		return &obj{"domain", map[string]any{"objectClassName": "domain", "nameservers": l, "status": s, "handle": strings.Repeat("h", n*50)}}
	}
	manyUnknown := func(n int) *obj {
		o := &obj{"autnum", map[string]any{"objectClassName": "autnum", "handle": "H"}}
		for i := range n {
			o.m[fmt.Sprintf("x_%d", i)] = []any{fmt.Sprintf("v%d", i), float64(i), map[string]any{"a": "b"}}
		}
		return o
	}
	docs := []*obj{nameless, deep(5), deep(40), deep(70), deep(130), deep(260), deepUnknown(20), deepUnknown(140), deepUnknown(270), deepMixed(10), deepMixed(40), deepMixed(70), many(10), many(300), many(2000), manyUnknown(20), manyUnknown(300)}
	for _, n := range dictFresh.Nums {
		if n >= 4 && n <= 300 {
			docs = append(docs, deep(int(n)+1), deepUnknown(int(n)+1), deepMixed(int(n)/2+1))
		}
		if n >= 4 && n <= 5000 {
			docs = append(docs, many(int(n)+1), manyUnknown(int(n)+1))
		}
	}
	if m.Thorough {
		docs = append(docs, deep(520), deep(1030), deepUnknown(1030), deepMixed(520), many(20000), manyUnknown(5000))
	}
	for _, o := range docs {
		f(o)
	}
	m.Count("long or deep documents", len(docs))
}

func c26Long(m *M) {
	longDocs(m, func(o *obj) {
		b := mustJSON(plain(o))
		for _, unit := range []int{0, 6, 7} {
			m.Try("C26 long", func() {
				if v := decodeOr(m, b); v != nil {
					c26Match(m, string(b), printWith(printerOf(popts{}, unit), v), expectObj(topHeading[o.class], o, popts{}), unit)
				}
			})
			m.Saw(string(b)+fmt.Sprint(unit), true)
		}
	})
}

// ---- C27

func TestC27(t *testing.T) {
	monitor(t, "C27", "a response printed under one combination of printer options and its output matched, as a tree, to the response minus exactly what the options remove", 3000, func(m *M) {
		m.Assume("the order of lines with different labels within one object is not judged")
		for i := range m.N(1000) {
			r := NewRand(m.Seed, fmt.Sprintf("C27/%d", i))
			g := newDocGen(r)
			if i%2 == 0 {
				g.density = 0.9
			}
			class := topClasses[i%len(topClasses)]
			o := g.top(class)
			b := render(r, o)
			m.Try(string(b), func() {
				v := decodeOr(m, b)
				if v == nil {
					return
				}
				full := expectObj(topHeading[class], o, popts{}).count()
				for x := range 16 {
					opt := popts{x&1 != 0, x&2 != 0, x&4 != 0, x&8 != 0}
					unit := (i + x) % len(printUnits)
					want := expectObj(topHeading[class], o, opt)
					c26Match(m, fmt.Sprintf("options %+v, response %s", opt, b), printWith(printerOf(opt, unit), v), want, unit)
					m.Saw(string(b)+fmt.Sprint(opt), x == 0 || want.count() < full)
					m.Count("lines removed by options", full-want.count())
				}
			})
			m.Sample(string(b))
		}
		c27Defaults(m)
		longDocs(m, func(o *obj) {
			b := mustJSON(plain(o))
			for x := range 16 {
				opt := popts{x&1 != 0, x&2 != 0, x&4 != 0, x&8 != 0}
				m.Try("C27 long", func() {
					if v := decodeOr(m, b); v != nil {
						c26Match(m, fmt.Sprintf("options %+v, response %s", opt, b), printWith(printerOf(opt, 6), v), expectObj(topHeading[o.class], o, opt), 6)
					}
				})
				m.Saw(string(b)+fmt.Sprint(opt), true)
			}
		})
	})
}

// c27Defaults prints with the zero Printer: to standard output, with spaces, two per level.
func c27Defaults(m *M) {
	for i := range m.N(60) {
		r := NewRand(m.Seed, fmt.Sprintf("C27d/%d", i))
		g := newDocGen(r)
		class := topClasses[i%len(topClasses)]
		o := g.top(class)
		b := render(r, o)
		m.Try(string(b), func() {
			v := decodeOr(m, b)
			if v == nil {
				return
			}
			var out string
			p := &rdap.Printer{}
			switch i % 3 {
			case 0:
				out = captureStdout(m, func() { p.Print(v) })
			case 1:
				p.IndentSize = 2
				out = captureStdout(m, func() { p.Print(v) })
			default:
				p.IndentChar = ' '
				out = captureStdout(m, func() { p.Print(v) })
			}
			c26Match(m, "default printer, response "+string(b), out, expectObj(topHeading[class], o, popts{}), 0)
			m.Count("prints to standard output", 1)
			m.Saw("default "+string(b), true)
		})
	}
}

// captureStdout runs f with os.Stdout going to a scratch file.
func captureStdout(m *M, f func()) string {
	tmp, err := os.CreateTemp(scratchDir(m), "stdout")
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = tmp
	defer func() { os.Stdout = old; tmp.Close() }()
	f()
	os.Stdout = old
	_, _ = tmp.Seek(0, io.SeekStart)
	b, _ := io.ReadAll(tmp)
	return string(b)
}
