package harness

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/openrdap/rdap"
)

// badCardProp returns a property no jCard reader may accept.
func badCardProp(g *docGen) (any, string) {
	r := g.r
	good := func() []any {
		p := g.cardProp()
		if r.Chance(0.3) {
			p.name = pick(r, []string{"version", "fn", "kind", "n", "adr", "tel", "email", "uid", "lang", "org"})
		}
		return (&card{[]cardProp{p}}).plain().([]any)[1].([]any)[0].([]any)
	}
	deepObj := func(v any, depth int) any {
		for range depth {
			l := []any{g.str(), v}
			if r.Chance(0.5) {
				l = []any{v, g.str(), ""}
			}
			v = l
		}
		return v
	}
	switch r.IntN(8) {
	case 7:
		p := good()
		p = append(p[:3], deepObj(pick(r, []any{nil, g.str(), 1.5, []any{}}), r.Range(4, 9)))
		return p, "lists nested too deep"
	case 0:
		return pick(r, []any{nil, "fn", 4.5, true, map[string]any{}, map[string]any{"0": "fn", "1": map[string]any{}, "2": "text", "3": "x"}}), "not an array"
	case 1:
		p := good()
		return p[:r.IntN(4)], "too short"
	case 2:
		p := good()
		p[0] = pick(r, []any{nil, 5.0, true, []any{"fn"}, map[string]any{}})
		return p, "bad name"
	case 3:
		p := good()
		p[1] = pick(r, []any{nil, "", 5.0, true, []any{}, []any{map[string]any{}}})
		return p, "bad parameters"
	case 4:
		p := good()
		p[2] = pick(r, []any{nil, 5.0, true, []any{"text"}, map[string]any{}})
		return p, "bad type"
	case 5:
		p := good()
		d := r.IntN(3)
		p = append(p[:3], deepObj(map[string]any{"a": "b"}, d))
		return p, fmt.Sprintf("object in the value, depth %d", d)
	default:
		p := good()
		at := r.Range(3, len(p))
		p = slices.Insert(p, at, any(deepObj(map[string]any{}, r.IntN(2))))
		return p, "object among the values"
	}
}

// badCard returns a document that is not a jCard at all.
func badCard(g *docGen, good any) (any, string) {
	r := g.r
	t := slices.Clone(good.([]any))
	switch r.IntN(8) {
	case 0:
		return pick(r, []any{nil, "vcard", 1.0, true, map[string]any{"vcard": t[1]}}), "not an array"
	case 1:
		return t[:r.IntN(2)], "too short"
	case 2:
		return append(t, pick(r, []any{nil, "x", []any{}, t[1]})), "too long"
	case 3:
		t[0] = pick(r, []any{"vcards", "VCARD", "vCard", "", " vcard", "jcard", "vcard\x00"})
		return t, "bad label"
	case 4:
		t[0] = pick(r, []any{nil, 1.0, false, []any{"vcard"}, map[string]any{}})
		return t, "label not a string"
	case 5:
		t[1] = pick(r, []any{nil, "fn", 1.0, true, map[string]any{}})
		return t, "properties not an array"
	case 6:
		return []any{t[1], t[0]}, "swapped"
	default:
		return []any{t}, "wrapped"
	}
}

func newCardGen(r *Rand) *docGen {
	g := newDocGen(r)
	g.hostile = r.Chance(0.3)
	return g
}

func genCards(g *docGen) *card {
	c := genCard(g)
	if g.r.Chance(0.15) { // longer cards, with a property per value shape
		for range g.r.Range(5, 25) {
			c.props = append(c.props, g.cardProp())
		}
	}
	if g.r.Chance(0.02) {
		lengthen(g, c)
	}
	return c
}

// lengthen makes one dimension of the card remarkably long.
func lengthen(g *docGen, c *card) {
	r := g.r
	n := int(r.number(8, 1300, 40))
	long := func() []any {
		l := []any{}
		for i := range n {
			l = append(l, pick(r, []any{fmt.Sprintf("v%d", i), "", "same"}))
		}
		return l
	}
	p := cardProp{name: pick(r, cardNames), params: map[string]any{}, typ: "text", values: []any{"x"}}
	switch r.IntN(6) {
	case 0, 1:
		for i := range n {
			c.props = append(c.props, cardProp{pick(r, cardNames), nil, "text", []any{fmt.Sprintf("long %d", i)}})
		}
		return
	case 2:
		for i := range n {
			p.params[fmt.Sprintf("x-%d", i)] = fmt.Sprintf("p%d", i)
		}
	case 3:
		p.params["x-long"] = long()
	case 4:
		p.values = long()
	default:
		p.values = []any{[]any{long(), "tail"}}
	}
	c.props = append(c.props, p)
}

func TestC23(t *testing.T) {
	monitor(t, "C23", "a contact card parse (alone or inside an entity) whose verdict and every property (name, type, parameters, value, flattened value) were compared with the card generated", 2500, func(m *M) {
		m.Assume("parameters with entries that are not strings and empty parameter lists are not judged beyond not crashing; jCard values nest at most three lists (several values, structured, with several values in a component)")
		for range m.N(15000) {
			c23One(m)
		}
		c23Depth(m)
	})
}

func c23One(m *M) {
	r := m.R
	g := newCardGen(r)
	c := genCards(g)
	doc := c.plain()
	kinds := []string{}
	if r.Chance(0.2) { // structurally invalid
		bad, why := badCard(g, doc)
		b := render(r, bad)
		m.Try(string(b), func() {
			for _, ign := range []bool{false, true} {
				vc, err := rdap.NewVCardWithOptions(b, rdap.VCardOptions{IgnoreInvalidProperties: ign})
				if err == nil {
					m.Violate("a structurally invalid card was accepted ("+why+")", string(b), "an error", dump(vc))
				}
			}
			if vc, err := rdap.NewVCard(b); err == nil {
				m.Violate("a structurally invalid card was accepted ("+why+")", string(b), "an error", dump(vc))
			}
			c23InEntity(m, r, bad, nil, false)
		})
		m.Saw("struct "+string(b), true)
		m.Count("structurally invalid: "+why, 1)
		return
	}
	props := doc.([]any)[1].([]any)
	if r.Chance(0.4) { // some invalid properties
		for range r.Range(1, 3) {
			bad, why := badCardProp(g)
			kinds = append(kinds, why)
			props = slices.Insert(props, r.IntN(len(props)+1), bad)
		}
	}
	doc = []any{"vcard", props}
	b := render(r, doc)
	m.Try(string(b), func() {
		vc, err := rdap.NewVCard(b)
		vc2, err2 := rdap.NewVCardWithOptions(b, rdap.VCardOptions{})
		if (err == nil) != (err2 == nil) || dump(vc) != dump(vc2) {
			m.Violate("NewVCard and NewVCardWithOptions with no options disagree", string(b), dump(vc), dump(vc2))
		}
		if len(kinds) > 0 {
			if err == nil {
				m.Violate("a card with an invalid property ("+strings.Join(kinds, ", ")+") was accepted", string(b), "an error", dump(vc))
			}
		} else if err != nil {
			m.Violate("a valid card was rejected", string(b), "no error", err.Error())
		} else if d := compareCard(c.props, vc); d != "" {
			m.Violate("card decoded wrongly: "+d, string(b), nil, nil)
		}
		vc, err = rdap.NewVCardWithOptions(b, rdap.VCardOptions{IgnoreInvalidProperties: true})
		if err != nil {
			m.Violate("the ignore option did not ignore an invalid property ("+strings.Join(kinds, ", ")+")", string(b), "no error", err.Error())
		} else if d := compareCard(c.props, vc); d != "" {
			m.Violate("with the ignore option: "+d, string(b), "all valid properties and nothing else", vc.String())
		}
		c23InEntity(m, r, doc, c, len(kinds) == 0)
	})
	for _, p := range c.props {
		m.Count("properties compared", 1)
		m.Max("values in one property", len(flat(p.want())))
	}
	for _, k := range kinds {
		m.Count("invalid property: "+k, 1)
	}
	m.Saw(string(b), len(c.props) > 1 || len(kinds) > 0)
	m.Sample(string(b))
}

// c23InEntity checks the same card inside an entity response.
func c23InEntity(m *M, r *Rand, doc any, c *card, valid bool) {
	if !r.Chance(0.4) {
		return
	}
	b := render(r, map[string]any{"objectClassName": "entity", "handle": "H1", "vcardArray": doc, "roles": []any{"r1"}})
	v, err := rdap.NewDecoder(b).Decode()
	if err != nil {
		m.Violate("an entity with a card failed to decode", string(b), "no error", err.Error())
		return
	}
	e, ok := v.(*rdap.Entity)
	if !ok || e.Handle != "H1" || !eqStrings(e.Roles, []string{"r1"}) {
		m.Violate("an entity with a card decoded wrongly", string(b), nil, dump(v))
		return
	}
	m.Count("cards inside an entity", 1)
	if !valid {
		if e.VCard != nil {
			m.Violate("an invalid card became the entity's card", string(b), "no card", e.VCard.String())
		}
		return
	}
	if e.VCard == nil {
		m.Violate("a valid card is missing from the entity", string(b), "a card", nil)
	} else if d := compareCard(c.props, e.VCard); d != "" {
		m.Violate("in an entity: "+d, string(b), nil, nil)
	}
}

// c23Depth sweeps nesting and value counts.
func c23Depth(m *M) {
	for depth := 0; depth <= 6; depth++ {
		for nv := 1; nv <= 3; nv++ {
			for _, leaf := range []any{"x", true, 1.5, nil, ""} {
				var v any = leaf
				for range depth {
					v = []any{v}
				}
				p := cardProp{"x-deep", map[string]any{}, "text", nil}
				for range nv {
					p.values = append(p.values, v)
				}
				c := &card{[]cardProp{{"fn", nil, "text", []any{"a"}}, p, {"fn", nil, "text", []any{"b"}}}}
				b := mustJSON(c.plain())
				m.Try(string(b), func() {
					total := depth
					if nv > 1 {
						total++
					}
					vc, err := rdap.NewVCard(b)
					if err == nil && total > 3 {
						m.Violate("lists nested too deep were accepted", string(b), "an error", fmt.Sprint(vc))
					} else if err == nil {
						if d := compareCard(c.props, vc); d != "" {
							m.Violate("nested value: "+d, string(b), nil, nil)
						}
					} else if total <= 3 {
						m.Violate("a valid card was rejected", string(b), "no error", err.Error())
					}
					vc, err = rdap.NewVCardWithOptions(b, rdap.VCardOptions{IgnoreInvalidProperties: true})
					if err != nil {
						m.Violate("the ignore option did not ignore a bad property", string(b), nil, err.Error())
					} else if total > 3 {
						if d := compareCard([]cardProp{c.props[0], c.props[2]}, vc); d != "" {
							m.Violate("with the ignore option: "+d, string(b), nil, nil)
						}
					} else if d := compareCard(c.props, vc); d != "" {
						m.Violate("with the ignore option: "+d, string(b), nil, nil)
					}
				})
				m.Saw(string(b), true)
			}
		}
	}
}

// ---- C24

func textOf(v any) string { return strings.Join(flat(v), " ") }

// cardWant is the harness's own reading of a card.
type cardWant struct {
	name, org, email string
	adr              [7]string
	adrJudged        [7]bool
	tel, fax         string
}

func wantOf(c *card) cardWant {
	var w cardWant
	first := func(name string) (cardProp, bool) {
		for _, p := range c.props {
			if p.name == name {
				return p, true
			}
		}
		return cardProp{}, false
	}
	if p, ok := first("fn"); ok {
		w.name = textOf(p.want())
	}
	if p, ok := first("org"); ok {
		w.org = textOf(p.want())
	}
	if p, ok := first("email"); ok {
		w.email = textOf(p.want())
	}
	for i := range w.adrJudged {
		w.adrJudged[i] = true
	}
	if p, ok := first("adr"); ok {
		if comps, ok := p.want().([]any); ok {
			for i := 0; i < 7 && i < len(comps); i++ {
				w.adr[i] = textOf(comps[i])
			}
		} else {
			w.adrJudged[0] = false // an unstructured address: which accessor shows it is not specified
		}
	}
	types := func(p cardProp) (l []string, typed bool) {
		l, typed = p.wantParams()["type"]
		return
	}
	for _, p := range c.props {
		if p.name != "tel" || len(flat(p.want())) == 0 {
			continue
		}
		if l, typed := types(p); !typed || slices.Contains(l, "voice") {
			w.tel = flat(p.want())[0]
			break
		}
	}
	for _, p := range c.props {
		if p.name != "tel" || len(flat(p.want())) == 0 {
			continue
		}
		if l, _ := types(p); slices.Contains(l, "fax") {
			w.fax = flat(p.want())[0]
			break
		}
	}
	return w
}

var adrAccessors = []struct {
	name string
	f    func(*rdap.VCard) string
}{
	{"POBox", (*rdap.VCard).POBox}, {"ExtendedAddress", (*rdap.VCard).ExtendedAddress}, {"StreetAddress", (*rdap.VCard).StreetAddress}, {"Locality", (*rdap.VCard).Locality},
	{"Region", (*rdap.VCard).Region}, {"PostalCode", (*rdap.VCard).PostalCode}, {"Country", (*rdap.VCard).Country},
}

// tidyCard removes what C24 leaves open: empty telephone numbers, other spellings of the type parameter and its values.
func tidyCard(g *docGen, c *card) {
	for i, p := range c.props {
		switch p.name {
		case "tel":
			delete(p.params, "TYPE")
			if p.params["type"] == "VOICE" {
				p.params["type"] = []any{"fax", "voice"}
			}
			if f := flat(p.want()); len(f) > 0 && f[0] == "" {
				c.props[i].values = []any{g.str()}
			}
		}
	}
}

func genContact(g *docGen) *card {
	r := g.r
	c := &card{}
	for range r.Range(0, 4) {
		c.props = append(c.props, g.cardProp())
	}
	if r.Chance(0.02) { // many properties of other names before and between
		for i := range r.number(8, 700, 40) {
			c.props = append(c.props, cardProp{fmt.Sprintf("x-%d", i), nil, "text", []any{"x"}})
		}
	}
	for range r.size(1, 6, 300) {
		p := g.cardProp()
		p.name = pick(r, []string{"fn", "org", "email", "tel", "tel", "adr"})
		switch p.name {
		case "tel":
			delete(p.params, "type")
			if r.Chance(0.75) {
				n := r.Range(1, 4)
				l := []any{}
				for range n {
					l = append(l, pick(r, []string{"voice", "fax", "work", "cell", "text", "video", "home", "pager"}))
				}
				p.params["type"] = l
				if n == 1 && r.Chance(0.5) {
					p.params["type"] = l[0]
				}
			}
			if r.Chance(0.1) {
				p.values = []any{[]any{}}
			}
		case "adr":
			p.values = genAdr(g)
		}
		c.props = append(c.props, p)
	}
	c.props = shuffled(r, c.props)
	tidyCard(g, c)
	return c
}

func genAdr(g *docGen) []any {
	r := g.r
	if r.Chance(0.06) {
		return []any{g.str()}
	}
	n := 7
	if r.Chance(0.25) {
		n = r.Range(0, 9)
	}
	comps := []any{}
	for range n {
		switch r.IntN(8) {
		case 0, 1:
			comps = append(comps, "")
		case 2, 3:
			l := []any{}
			for range r.size(1, 4, 100) {
				l = append(l, g.str())
			}
			comps = append(comps, l)
		case 4:
			comps = append(comps, pick(r, []any{nil, true, 12345.0, 0.5, []any{}}))
		default:
			comps = append(comps, g.str())
		}
	}
	if n >= 2 && r.Chance(0.1) { // the components as values of their own
		flatComps := []any{}
		for _, c := range comps {
			flatComps = append(flatComps, textOf(c))
		}
		return flatComps
	}
	return []any{comps}
}

func checkContact(c *card, vc *rdap.VCard) string {
	w := wantOf(c)
	for _, x := range []struct{ n, want, got string }{{"Name", w.name, vc.Name()}, {"Org", w.org, vc.Org()}, {"Email", w.email, vc.Email()}, {"Tel", w.tel, vc.Tel()}, {"Fax", w.fax, vc.Fax()}} {
		if x.want != x.got {
			return fmt.Sprintf("%s() should be %q, is %q", x.n, x.want, x.got)
		}
	}
	for i, a := range adrAccessors {
		if got := a.f(vc); w.adrJudged[i] && got != w.adr[i] {
			return fmt.Sprintf("%s() should be %q, is %q", a.name, w.adr[i], got)
		}
	}
	names := map[string]bool{"": true, "nosuch": true, "f": true, "fnn": true, "adr ": true}
	for _, n := range cardNames {
		names[n] = true
	}
	for _, p := range c.props {
		names[p.name] = true
	}
	for _, n := range sortedKeys(names) {
		got := vc.Get(n)
		k := 0
		for i, p := range c.props {
			if p.name != n {
				continue
			}
			if k >= len(got) || got[k] == nil || dump(got[k]) != dump(vc.Properties[i]) {
				return fmt.Sprintf("Get(%q): entry %d should be property %d", n, k, i)
			}
			if k == 0 {
				if f := vc.GetFirst(n); f == nil || dump(f) != dump(vc.Properties[i]) {
					return fmt.Sprintf("GetFirst(%q) should be property %d", n, i)
				}
			}
			k++
		}
		if k != len(got) {
			return fmt.Sprintf("Get(%q) returned %d properties, the card has %d", n, len(got), k)
		}
		if k == 0 && vc.GetFirst(n) != nil {
			return fmt.Sprintf("GetFirst(%q) returned a property", n)
		}
	}
	return ""
}

func TestC24(t *testing.T) {
	monitor(t, "C24", "a decoded card all of whose accessors were compared with the harness's own reading of the card sent; non-trivial when it has an address, telephone or two properties of one name", 3000, func(m *M) {
		m.Assume("not judged: which accessor shows an unstructured address, upper-case TYPE parameters, empty telephone numbers followed by others")
		for range m.N(15000) {
			r := m.R
			g := newCardGen(r)
			c := genContact(g)
			b := render(r, c.plain())
			m.Try(string(b), func() {
				vc, err := rdap.NewVCard(b)
				if err != nil {
					m.Violate("a valid card was rejected", string(b), "no error", err.Error())
					return
				}
				if d := checkContact(c, vc); d != "" {
					m.Violate(d, string(b), nil, nil)
				}
				if r.Chance(0.2) { // as an entity's card
					eb := render(r, map[string]any{"objectClassName": "entity", "vcardArray": c.plain()})
					v, err := rdap.NewDecoder(eb).Decode()
					if e, ok := v.(*rdap.Entity); err != nil || !ok || e.VCard == nil {
						m.Violate("an entity's card is missing", string(eb), nil, dump(v))
					} else if d := checkContact(c, e.VCard); d != "" {
						m.Violate("in an entity: "+d, string(eb), nil, nil)
					}
					m.Count("cards inside an entity", 1)
				}
			})
			w := wantOf(c)
			adrs, tels := 0, 0
			for _, p := range c.props {
				if p.name == "adr" {
					adrs++
					if l, ok := p.want().([]any); ok {
						for _, x := range l {
							if _, ok := x.([]any); ok {
								m.Count("multi-valued address components", 1)
							}
						}
					}
				}
				if p.name == "tel" {
					tels++
				}
			}
			m.Count("addresses", adrs)
			m.Count("telephones", tels)
			for n, v := range map[string]string{"voice number expected": w.tel, "fax expected": w.fax, "name expected": w.name} {
				if v != "" {
					m.Count(n, 1)
				}
			}
			m.Saw(string(b), adrs+tels > 0 || w.name+w.org+w.email != "")
			m.Sample(string(b))
		}
	})
}
