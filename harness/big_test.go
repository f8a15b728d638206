package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

// bigSizes are byte lengths beyond the limits programs tend to have, and beyond those this program mentions.
func bigSizes(m *M) []int {
	out := []int{1<<16 + 1, 1<<20 + 1, 5<<20 + 1, 17<<20 + 1}
	if m.Thorough {
		out = append(out, 33<<20+1, 65<<20+1)
	}
	var fresh []int
	for _, n := range dictFresh.Nums {
		if n >= 4096 && n <= 64<<20 {
			fresh = append(fresh, int(n)+1)
		}
	}
	slices.Sort(fresh)
	slices.Reverse(fresh)
	return append(out, fresh[:min(len(fresh), 4)]...)
}

// bigCounts are numbers of list elements, likewise.
func bigCounts(m *M) []int {
	out := []int{300, 1100, 5000, 20001}
	var fresh []int
	for _, n := range dictFresh.Nums {
		if n >= 16 && n <= 200000 {
			fresh = append(fresh, int(n)+1)
		}
	}
	slices.Sort(fresh)
	slices.Reverse(fresh)
	return append(out, fresh[:min(len(fresh), 4)]...)
}

// bigAnswer is a response of about n bytes whose last member tells whether all of it was read.
func bigAnswer(n int) string {
	return `{"objectClassName":"domain","x_pad":"` + strings.Repeat("z", max(n-80, 0)) + `","handle":"the end"}`
}

// c14Big: answers of any size are usable, and recorded whole.
func c14Big(m *M, r *Rand) {
	for _, n := range bigSizes(m) {
		doc := bigAnswer(n)
		b := statusB(200, doc, "answer", false)
		b.name = fmt.Sprintf("200 with %d bytes", n)
		slow := behaviour{name: fmt.Sprintf("200 with %d bytes, length not announced", n), what: "answer", body: doc, do: func() (*http.Response, error) {
			x := httpResp(200, []byte(doc), nil)
			x.ContentLength = -1
			return x, nil
		}}
		fail := statusB(503, doc, "next", false)
		fail.name = fmt.Sprintf("503 with %d bytes", n)
		c14One(m, anyKind(r), c14Servers(r, 1), []behaviour{b}, true)
		c14One(m, anyKind(r), c14Servers(r, 3), []behaviour{fail, slow, b}, false)
		m.Max("largest_answer_bytes", n)
	}
}

// c29Big: outputs of any size are whole.
func c29Big(m *M, w *cliWorld) {
	for _, n := range bigSizes(m) {
		body := []byte(bigAnswer(n))
		w.serveBody(200, body)
		for _, f := range []string{"-r", "-j", "--text"} {
			kase := fmt.Sprintf("%s, a body of %d bytes", f, len(body))
			m.Try(kase, func() {
				res := runCLI(false, "--cache-dir=", "-T", "120", "-s", w.URL, "-t", "domain", f, "x.example")
				m.Saw(kase, true)
				m.Max("largest body", len(body))
				ok := res.rc == 0
				switch f {
				case "-r":
					ok = ok && res.stdout == string(body)
				case "-j":
					var a bytes.Buffer
					ok = ok && json.Compact(&a, []byte(res.stdout)) == nil && a.String() == string(body)
				default:
					ok = ok && strings.Contains(res.stdout, "the end\n") && len(res.stdout) > len(body)-100
				}
				if !ok {
					m.Violate("a large body is not reproduced", kase, len(body), fmt.Sprintf("rc %d, %d bytes, %s", res.rc, len(res.stdout), clip(res.err)))
				}
			})
		}
	}
}

// c06Big: registry files of any size are fetched once and answered from to the last entry.
func c06Big(m *M, r *Rand) {
	for i, n := range bigSizes(m) {
		t := allRegistries[(i+r.IntN(5))%len(allRegistries)]
		doc := bytes.Replace(taggedDoc(t, "big"), []byte("{"), []byte(`{"x_pad":"`+strings.Repeat("z", n)+`",`), 1)
		srv := &script{}
		srv.fn = func(*http.Request) (*http.Response, error) { return httpResp(200, doc, nil), nil }
		dir := scratchDir(m)
		kase := fmt.Sprintf("a %s registry file of %d bytes", t, len(doc))
		m.Try(kase, func() {
			for round := range 4 {
				c := &bootstrap.Client{HTTP: srv.client()}
				if round < 3 {
					dc := cache.NewDiskCache()
					dc.Dir = dir
					c.Cache = dc
				}
				for range 2 {
					qt, qn := taggedQuestion(r, t)
					a, err := c.Lookup(&bootstrap.Question{RegistryType: t, Query: qt})
					m.Saw(fmt.Sprint(kase, round), true)
					if err != nil || a == nil {
						m.Violate("lookup in a large registry failed", kase, "answer", fmt.Sprint(err))
						return
					}
					if got := urlStrings(a.URLs); !eqStrings(got, taggedURLs(t, "big", qn)) {
						m.Violate("answer from a large registry", kase, taggedURLs(t, "big", qn), got)
						return
					}
				}
				want := 1
				if round == 3 { // a client of its own
					want = 2
				}
				if srv.count() != want {
					m.Violate("a large registry was not fetched exactly once", fmt.Sprintf("%s, client %d", kase, round), want, srv.urls())
					return
				}
			}
			m.Max("largest_registry_bytes", len(doc))
		})
	}
}

// c10Big: values of any size come back whole.
func c10Big(m *M) {
	for _, n := range bigSizes(m) {
		data := []byte(strings.Repeat("0123456789abcde\n", n/16+1)[:n])
		for _, kind := range []string{"memory", "disk"} {
			kase := fmt.Sprintf("%d bytes in a %s cache", n, kind)
			m.Try(kase, func() {
				var c, d cache.RegistryCache
				if kind == "memory" {
					c = cache.NewMemoryCache()
					d = c
				} else {
					dir := scratchDir(m)
					a, b := cache.NewDiskCache(), cache.NewDiskCache()
					a.Dir, b.Dir = dir, dir
					c, d = a, b
				}
				if err := c.Save("dns.json", data); err != nil {
					m.Violate("saving failed", kase, nil, err.Error())
					return
				}
				got, err := d.Load("dns.json")
				m.Saw(kase, true)
				if err != nil || !bytes.Equal(got, data) {
					m.Violate("loading did not return what was saved", kase, len(data), fmt.Sprint(len(got), err))
				}
			})
		}
	}
}

// c05Big: registry files with many services, entries and URLs.
func c05Big(m *M) {
	for _, n := range bigCounts(m) {
		for _, three := range []bool{false, true} {
			for _, shape := range []string{"entries", "services", "urls"} {
				var svcs []svc
				name := func(i int) string { return fmt.Sprintf("e%d", i) }
				u := func(i int) string { return fmt.Sprintf("https://u%d.example/", i) }
				switch shape {
				case "entries":
					s := svc{URLs: []string{u(1), u(2)}}
					for i := range n {
						s.Entries = append(s.Entries, name(i))
					}
					svcs = []svc{s}
				case "services":
					for i := range n {
						svcs = append(svcs, svc{Entries: []string{name(i)}, URLs: []string{u(i)}})
					}
				case "urls":
					s := svc{Entries: []string{name(0), name(n - 1)}}
					for i := range n {
						s.URLs = append(s.URLs, u(i))
					}
					svcs = []svc{s}
				}
				kase := fmt.Sprintf("%d %s, three-part %v", n, shape, three)
				m.Try("C05 "+kase, func() {
					doc := regDoc(svcs, three, nil)
					f, err := bootstrap.NewFile(doc)
					m.Saw(kase, true)
					m.Max("most_"+shape, n)
					if err != nil {
						m.Violate("a long registry file was rejected", kase, nil, err.Error())
						return
					}
					if !bytes.Equal(f.JSON, doc) {
						m.Violate("the document is not preserved", kase, len(doc), len(f.JSON))
					}
					count := 0
					for _, s := range svcs {
						for _, e := range s.Entries {
							count++
							if got := urlStrings(f.Entries[e]); !eqStrings(got, s.URLs) {
								m.Violate("an entry of a long registry file", kase+" "+e, fmt.Sprintf("%d URLs", len(s.URLs)), fmt.Sprintf("%d: %.200v", len(got), got))
								return
							}
						}
					}
					if len(f.Entries) != count {
						m.Violate("the entries of a long registry file", kase, count, len(f.Entries))
					}
				})
			}
		}
	}
}

// c10Ahead: a copy stored by a user whose clock is ahead is like any other.
func c10Ahead(m *M, r *Rand) {
	for i, ahead := range []time.Duration{time.Second, time.Minute, 2 * time.Minute, time.Hour, 25 * time.Hour, 400 * time.Hour, 5 * 365 * 24 * time.Hour} {
		for _, timeout := range []time.Duration{24 * time.Hour, time.Hour, 100 * 365 * 24 * time.Hour} {
			kase := fmt.Sprintf("stored %s ahead, timeout %s", ahead, timeout)
			m.Try("C10 "+kase, func() {
				dir := scratchDir(m)
				mk := func() *cache.DiskCache {
					c := cache.NewDiskCache()
					c.Dir = dir
					c.SetTimeout(timeout)
					return c
				}
				data := []byte(fmt.Sprintf("data %d", i))
				name := pick(r, []string{"dns.json", "asn.json", "x"})
				if err := mk().Save(name, data); err != nil {
					m.Violate("save failed", kase, nil, err.Error())
					return
				}
				at := time.Now().Add(ahead)
				if err := os.Chtimes(filepath.Join(dir, name), at, at); err != nil {
					panic(err)
				}
				if err := os.Mkdir(filepath.Join(dir, "d.json"), 0o755); err != nil {
					panic(err)
				}
				if b, err := mk().Load("d.json"); err == nil {
					m.Violate("a load with nothing to load succeeded", kase+", the name is a directory", "an error", string(b))
				}
				if err := mk().Save("d.json", data); err == nil {
					m.Violate("a save that cannot be done reported success", kase+", the name is a directory", "an error", nil)
				}
				if es, _ := os.ReadDir(dir); len(es) != 2 {
					m.Violate("a failed save left files behind", kase, 2, len(es))
				}
				for range 2 {
					c := mk()
					states := []cache.FileState{c.State(name)} // not as text: two states read the same
					b, err := c.Load(name)
					states = append(states, c.State(name), c.State(name))
					m.Saw(kase, true)
					m.Count("states_checked", len(states))
					if want := []cache.FileState{cache.ShouldReload, cache.Good, cache.Good}; !slices.Equal(states, want) {
						m.Violate("states of a copy stored by a clock ahead", kase, fmt.Sprintf("%d", want), fmt.Sprintf("%d", states))
					}
					if err != nil || !bytes.Equal(b, data) {
						m.Violate("load returned other bytes than were saved", kase, string(data), fmt.Sprint(string(b), err))
					}
				}
			})
		}
	}
}
