package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/openrdap/rdap"
)

// compareObj compares a decoded struct with the generated object, member by member.
// skip suppresses the comparison of the member at the given path ("" = none).
func compareObj(path string, o *obj, v reflect.Value, skip string) string {
	for _, f := range schema[o.class] {
		p := path + "/" + f.json
		if p == skip {
			continue
		}
		fv := v.FieldByName(f.gof)
		if !fv.IsValid() {
			panic("no Go field " + f.gof + " in " + v.Type().String())
		}
		x, sent := o.m[f.json]
		if !sent {
			if !isEmptyValue(fv) {
				return fmt.Sprintf("%s was not sent but is set to %s", p, dump(fv.Interface()))
			}
			continue
		}
		if why := compareValue(p, f, x, fv, skip); why != "" {
			return why
		}
	}
	return ""
}

func isEmptyValue(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	}
	return v.IsZero()
}

func compareValue(p string, f field, x any, fv reflect.Value, skip string) string {
	diff := func(want any) string {
		return fmt.Sprintf("%s: sent %s, decoded %s", p, dump(want), dump(fv.Interface()))
	}
	switch f.k {
	case kStr:
		if fv.String() != x.(string) {
			return diff(x)
		}
	case kStrList:
		l := x.([]any)
		if fv.Len() != len(l) {
			return diff(x)
		}
		for i := range l {
			if fv.Index(i).String() != l[i].(string) {
				return diff(x)
			}
		}
	case kU8, kU16, kU32, kU64:
		if fv.IsNil() || float64(fv.Elem().Uint()) != x.(float64) {
			return diff(x)
		}
	case kBool:
		if fv.IsNil() || fv.Elem().Bool() != x.(bool) {
			return diff(x)
		}
	case kObj:
		if fv.IsNil() {
			return diff("object")
		}
		return compareObj(p, x.(*obj), fv.Elem(), skip)
	case kObjList:
		l := x.([]any)
		if fv.Len() != len(l) {
			return fmt.Sprintf("%s: sent %d elements, decoded %d", p, len(l), fv.Len())
		}
		for i := range l {
			pi := fmt.Sprintf("%s/%d", p, i)
			if pi == skip {
				continue
			}
			if why := compareObj(pi, l[i].(*obj), fv.Index(i), skip); why != "" {
				return why
			}
		}
	case kCard:
		vc, _ := fv.Interface().(*rdap.VCard)
		if vc == nil {
			return diff("vcard")
		}
		if why := compareCard(x.(*card).props, vc); why != "" {
			return p + ": " + why
		}
	}
	return ""
}

func compareCard(props []cardProp, vc *rdap.VCard) string {
	if len(vc.Properties) != len(props) {
		return fmt.Sprintf("sent %d properties, decoded %d", len(props), len(vc.Properties))
	}
	for i, p := range props {
		d := vc.Properties[i]
		if d.Name != p.name || d.Type != p.typ {
			return fmt.Sprintf("property %d: sent name %q type %q, decoded %q %q", i, p.name, p.typ, d.Name, d.Type)
		}
		if w := p.wantParams(); dump(w) != dump(d.Parameters) {
			return fmt.Sprintf("property %d (%s): parameters sent %v, decoded %v", i, p.name, w, d.Parameters)
		}
		if !jsonEqual(p.want(), d.Value) || dump(p.want()) != dump(d.Value) {
			return fmt.Sprintf("property %d (%s): value sent %s, decoded %s", i, p.name, dump(p.want()), dump(d.Value))
		}
		if w := flat(p.want()); !eqStrings(w, d.Values()) {
			return fmt.Sprintf("property %d (%s): flattened value should be %q, is %q", i, p.name, w, d.Values())
		}
	}
	return ""
}

// walkObjs calls f for every generated object with its decoded counterpart.
func walkObjs(path string, o *obj, v reflect.Value, f func(path string, o *obj, v reflect.Value)) {
	f(path, o, v)
	for _, fd := range schema[o.class] {
		x, ok := o.m[fd.json]
		if !ok {
			continue
		}
		fv := v.FieldByName(fd.gof)
		switch fd.k {
		case kObj:
			if c, ok := x.(*obj); ok && !fv.IsNil() {
				walkObjs(path+"/"+fd.json, c, fv.Elem(), f)
			}
		case kObjList:
			if l, ok := x.([]any); ok && fv.Len() == len(l) {
				for i := range l {
					if c, ok := l[i].(*obj); ok {
						walkObjs(fmt.Sprintf("%s/%s/%d", path, fd.json, i), c, fv.Index(i), f)
					}
				}
			}
		}
	}
}

func countObjs(o *obj) (n int) {
	n = 1
	for _, x := range o.m {
		switch x := x.(type) {
		case *obj:
			n += countObjs(x)
		case []any:
			for _, y := range x {
				if c, ok := y.(*obj); ok {
					n += countObjs(c)
				}
			}
		}
	}
	return
}

func TestC21(t *testing.T) {
	monitor(t, "C21", "well-formed responses of all ten types generated from the harness's own member table (nesting to 3, every member, optional unknown members, random member order, escapes and whitespace), decoded and compared field by field, list by list, card by card. Non-trivial: at least 3 members were compared. Distinct by document.", 800, func(m *M) {
		for i := range m.N(8000) {
			r := NewRand(m.Seed, fmt.Sprintf("C21/%d", i))
			g := newDocGen(r)
			g.decoys = i%2 == 0
			class := topClasses[i%len(topClasses)]
			o := g.top(class)
			b := render(r, o)
			m.Try("C21 "+string(b), func() {
				got, err := rdap.NewDecoder(b).Decode()
				m.Saw(string(b), len(o.m) >= 3)
				m.Count("objects_compared", countObjs(o))
				m.Count("type_"+class, 1)
				m.Sample(string(b))
				if err != nil {
					m.Violate("a well-formed response does not decode", string(b), class, err.Error())
					return
				}
				if tn := fmt.Sprintf("%T", got); tn != classGoType[class] {
					m.Violate("wrong response type", string(b), classGoType[class], tn)
					return
				}
				if why := compareObj("", o, reflect.ValueOf(got).Elem(), ""); why != "" {
					m.Violate("a decoded value differs from the one sent", string(b), "equal", why)
				}
			})
		}
		c21Each(m)
		c21Long(m)
	})
}

// c21Long: deep nesting, and every list and text member far longer than usual.
func c21Long(m *M) {
	check := func(kase string, o *obj) {
		b := mustJSON(plain(o))
		m.Try("C21 "+kase, func() {
			got, err := rdap.NewDecoder(b).Decode()
			m.Saw(fmt.Sprintf("%s %d", kase, len(b)), true)
			m.Count("long or deep documents compared", 1)
			m.Max("longest document", len(b))
			if err != nil {
				m.Violate("a well-formed response does not decode", fmt.Sprint(kase, " ", clip(string(b))), o.class, err.Error())
				return
			}
			if why := compareObj("", o, reflect.ValueOf(got).Elem(), ""); why != "" {
				m.Violate("a decoded value differs from the one sent", fmt.Sprint(kase, " ", clip(string(b))), "equal", clip(why))
			}
		})
	}
	i := 0
	longDocs(m, func(o *obj) {
		i++
		check(fmt.Sprintf("long document %d", i), o)
	})
	for _, class := range sortedKeys(schema) {
		for _, f := range schema[class] {
			r := NewRand(m.Seed, "C21long/"+class+f.json)
			g := newDocGen(r)
			g.unknown, g.empties, g.density = 0, false, 0.3
			put := func(kase string, v any) {
				o := &obj{class, map[string]any{f.json: v}}
				check(fmt.Sprintf("%s/%s %s", class, f.json, kase), wrapObj(o))
			}
			switch f.k {
			case kStr:
				if f.json == "objectClassName" {
					continue
				}
				for _, n := range bigSizes(m) {
					if n < 2<<20 || r.Chance(0.1) {
						put(fmt.Sprintf("of %d bytes", n), strings.Repeat("abcdefg", n/7)+"end")
					}
				}
			case kStrList, kObjList:
				for _, n := range bigCounts(m) {
					l := []any{}
					for j := range n {
						if f.k == kStrList {
							l = append(l, fmt.Sprintf("v%d", j))
							continue
						}
						e := &obj{f.ref, map[string]any{}}
						for _, ef := range schema[f.ref] {
							if ef.k == kStr && ef.json != "objectClassName" && len(e.m) < 2 {
								e.m[ef.json] = fmt.Sprintf("v%d", j)
							}
						}
						l = append(l, e)
					}
					put(fmt.Sprintf("of %d elements", n), l)
				}
				if f.k == kStrList {
					put("with long elements", []any{strings.Repeat("x", 1<<16+1), "y", strings.Repeat("z", 1<<20+1)})
				}
			case kCard:
				for _, n := range bigCounts(m) {
					c := &card{}
					l := []any{}
					for j := range n {
						c.props = append(c.props, cardProp{"note", map[string]any{"x": fmt.Sprint(j)}, "text", []any{fmt.Sprintf("v%d", j)}})
						l = append(l, fmt.Sprint("w", j))
					}
					c.props = append(c.props, cardProp{"x-many", nil, "text", l}, cardProp{"x-text", nil, "text", []any{strings.Repeat("t", n*40)}}, cardProp{"x-params", map[string]any{"l": l}, "text", []any{"v"}})
					put(fmt.Sprintf("of %d properties", n), c)
				}
			}
		}
	}
}

// c21Each sends every member of every class alone, inside the smallest response that can carry it.
func c21Each(m *M) {
	for _, class := range sortedKeys(schema) {
		for _, f := range schema[class] {
			r := NewRand(m.Seed, "C21each/"+class+f.json)
			g := newDocGen(r)
			g.unknown, g.empties = 0, false
			leaf := &obj{class, map[string]any{}}
			if f.json == "objectClassName" {
				leaf.m[f.json] = class
			} else {
				leaf.m[f.json] = g.value(f, 1)
			}
			top := wrapObj(leaf)
			b := render(r, top)
			m.Try("C21 "+string(b), func() {
				got, err := rdap.NewDecoder(b).Decode()
				m.Saw(string(b), true)
				m.Count("single_members", 1)
				if err != nil {
					m.Violate("a well-formed response does not decode", string(b), class, err.Error())
					return
				}
				if why := compareObj("", top, reflect.ValueOf(got).Elem(), ""); why != "" {
					m.Violate("a decoded value differs from the one sent", string(b), "equal", why)
				}
			})
		}
	}
	_ = json.Valid
}

// wrapObj puts an object into the smallest response that carries it.
func wrapObj(o *obj) *obj {
	for _, t := range topClasses {
		if o.class != t {
			continue
		}
		switch t {
		case "domain", "entity", "ip network", "autnum", "nameserver":
			o.m["objectClassName"] = t
		case "error":
			if o.m["errorCode"] == nil {
				o.m["errorCode"] = float64(404)
			}
		case "domain search", "entity search", "nameserver search":
			f := schema[t][len(schema[t])-1]
			if o.m[f.json] == nil {
				o.m[f.json] = []any{}
			}
		}
		return o
	}
	for _, parent := range []string{"domain", "nameserver", "entity", "securedns", "ds", "key", "variant", "notice"} {
		for _, f := range schema[parent] {
			if f.ref != o.class {
				continue
			}
			p := &obj{parent, map[string]any{}}
			if f.k == kObj {
				p.m[f.json] = o
			} else {
				p.m[f.json] = []any{o}
			}
			return wrapObj(p)
		}
	}
	panic("no parent for " + o.class)
}
