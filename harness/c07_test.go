package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

// faultCache delegates to a real cache and can refuse saves.
type faultCache struct {
	inner  cache.RegistryCache
	refuse bool
	saves  int
}

func (f *faultCache) Load(n string) ([]byte, error) { return f.inner.Load(n) }
func (f *faultCache) Save(n string, d []byte) error {
	f.saves++
	if f.refuse {
		return errors.New("scripted: cache refuses to store")
	}
	return f.inner.Save(n, d)
}
func (f *faultCache) State(n string) cache.FileState { return f.inner.State(n) }
func (f *faultCache) SetTimeout(t time.Duration)     { f.inner.SetTimeout(t) }

// failure is one way a download can fail.
type failure struct {
	name string
	resp func(doc []byte) (*http.Response, error)
	save bool // refuse the save instead
	ctx  bool // cancelled context
}

func c07Failures(r *Rand, doc []byte, thorough bool) []failure {
	var fs []failure
	fs = append(fs, failure{name: "transport error", resp: func(d []byte) (*http.Response, error) { return nil, errors.New("scripted transport error") }})
	for _, st := range []int{201, 202, 203, 204, 206, 226, 299, 300, 304, 400, 401, 403, 404, 408, 410, 418, 429, 500, 502, 503, 504, 599} {
		fs = append(fs, failure{name: fmt.Sprintf("status %d with a valid body", st), resp: func(d []byte) (*http.Response, error) { return httpResp(st, d, nil), nil }})
	}
	step := 1
	if !thorough {
		step = 7
	}
	for k := 0; k <= len(doc); k += step {
		k := k
		fs = append(fs, failure{name: fmt.Sprintf("body fails after %d of %d bytes", k, len(doc)), resp: func(d []byte) (*http.Response, error) {
			h := httpResp(200, nil, nil)
			h.ContentLength = int64(len(d))
			h.Body = &brokenBody{append([]byte(nil), d[:min(k, len(d))]...), io.ErrUnexpectedEOF}
			return h, nil
		}})
		if k < len(doc) {
			fs = append(fs, failure{name: fmt.Sprintf("body ends after %d of %d bytes", k, len(doc)), resp: func(d []byte) (*http.Response, error) {
				return httpResp(200, d[:min(k, len(d)-1)], nil), nil
			}})
		}
	}
	fs = append(fs, failure{name: "body fails after all bytes", resp: func(d []byte) (*http.Response, error) {
		h := httpResp(200, nil, nil)
		h.Body = &brokenBody{append([]byte(nil), d...), errors.New("connection reset")}
		return h, nil
	}})
	for _, g := range []string{"", "<html>moved</html>", "not json", "[]", "5", "\"x\"", "{\"services\":7}", "{\"services\":[[\"a\"]]}", "{\"services\":[[[\"com\",\"example.org\",\"10.0.0.0/8\",\"1-100\",\"VRSN\"]]]}"} {
		fs = append(fs, failure{name: "body " + q(g), resp: func(d []byte) (*http.Response, error) { return httpResp(200, []byte(g), nil), nil }})
	}
	// good services plus one malformed one
	for _, bad := range []string{`[["x"]]`, `[]`, `[["x"],["http://y/"],["z"],["w"]]`, `"s"`, `[["x"],[5]]`, `[5,6]`, `{"a":1}`} {
		fs = append(fs, failure{name: "malformed service " + bad, resp: func(d []byte) (*http.Response, error) {
			i := bytes.LastIndex(d, []byte("]]]"))
			nd := append([]byte(nil), d[:i+2]...)
			nd = append(nd, []byte(","+bad)...)
			nd = append(nd, d[i+2:]...)
			return httpResp(200, nd, nil), nil
		}})
		fs = append(fs, failure{name: "malformed first service " + bad, resp: func(d []byte) (*http.Response, error) {
			return httpResp(200, bytes.Replace(d, []byte(`"services":[`), []byte(`"services":[`+bad+","), 1), nil), nil
		}})
	}
	fs = append(fs, failure{name: "trailing garbage", resp: func(d []byte) (*http.Response, error) {
		return httpResp(200, append(append([]byte(nil), d...), "}x"...), nil), nil
	}})
	fs = append(fs, failure{name: "cache refuses to store", save: true})
	fs = append(fs, failure{name: "context cancelled", ctx: true})
	return fs
}

func TestC07(t *testing.T) {
	monitor(t, "C07", "every failure kind (transport, 22 statuses, body cut with an error or a clean end at many offsets, non-JSON, malformed services, cache refusing, unusable cache directory, out of space, cancellation) x registry type x prior state (nothing, good, expired, newer copy by another user, newer damaged copy by another user) x cache kind. Snapshots of bytes, state and registry before and after. Non-trivial: the download failed. Distinct by (cache, type, prior, failure).", 1000, func(m *M) {
		r := m.R
		docLen := taggedDoc(bootstrap.DNS, "bad")
		fails := c07Failures(r, docLen, true)
		if !m.Thorough {
			fails = c07Failures(r, docLen, false)
		}
		for _, disk := range []bool{false, true} {
			for ti, t := range allRegistries {
				for pi, prior := range []string{"none", "good", "expired", "other", "damaged"} {
					if (prior == "other" || prior == "damaged") && !disk {
						continue
					}
					for fi, f := range fails {
						if !m.Thorough && (fi+ti+pi)%3 != 0 && strings.HasPrefix(f.name, "body ") {
							continue
						}
						m.Try(fmt.Sprintf("C07 disk=%v %s prior=%s failure=%s", disk, t, prior, f.name), func() { c07One(m, r, disk, t, prior, f) })
					}
				}
			}
		}
		for _, t := range allRegistries {
			for _, how := range []string{"dir-is-file", "name-is-dir"} {
				m.Try("C07 unusable cache "+how, func() { c07Unusable(m, t, how) })
			}
		}
		for i := range m.N(12) {
			m.Try("C07 out of space", func() { c07Space(m, r, i) })
		}
	})
}

type c07Snap struct {
	State cache.FileState
	Bytes string
	Desc  string
	JSON  string
}

func c07One(m *M, r *Rand, disk bool, t bootstrap.RegistryType, prior string, f failure) {
	var inner cache.RegistryCache
	dir := ""
	if disk {
		dc := cache.NewDiskCache()
		dir = scratchDir(m)
		defer os.RemoveAll(dir)
		dc.Dir = dir
		inner = dc
	} else {
		inner = cache.NewMemoryCache()
	}
	fc := &faultCache{inner: inner}
	old := taggedDoc(t, "old")
	cur := func(req *http.Request) (*http.Response, error) { return httpResp(200, old, nil), nil }
	srv := &script{fn: func(req *http.Request) (*http.Response, error) { return cur(req) }}
	c := &bootstrap.Client{HTTP: srv.client(), Cache: fc}
	name := registryFile[t]
	wantDesc := ""
	if prior != "none" {
		if err := c.Download(t); err != nil {
			m.Violate("download of a good file failed", fmt.Sprint(disk, t, prior), "success", err.Error())
			return
		}
		wantDesc = "old"
	}
	if prior == "expired" {
		fc.SetTimeout(-time.Hour)
	}
	if prior == "other" || prior == "damaged" {
		b := taggedDoc(t, "newer")
		if prior == "damaged" {
			b = pick(r, [][]byte{nil, b[:len(b)/2], b[:r.IntN(len(b))], []byte("[]"), []byte("<html>"), []byte(`{"services":[[["x"]]]}`), append(b, '}')})
		}
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, b, 0o600); err != nil {
			panic(err)
		}
		ft := time.Now().Add(30 * time.Second)
		_ = os.Chtimes(p, ft, ft)
	}
	readBytes := func() string {
		if disk {
			b, err := os.ReadFile(filepath.Join(dir, name))
			if err != nil {
				return "(absent)"
			}
			return string(b)
		}
		b, err := fc.Load(name)
		if err != nil {
			return "(absent)"
		}
		return string(b)
	}
	snap := func(withReg bool) c07Snap {
		s := c07Snap{State: fc.State(name), Bytes: readBytes()}
		if withReg {
			if fl := accessor(c, t); fl != nil {
				s.Desc, s.JSON = fl.Description, string(fl.JSON)
			}
		}
		return s
	}
	withReg := prior != "other" && prior != "damaged" // the accessor would pick the other copy up
	before := snap(withReg)
	badDoc := taggedDoc(t, "bad")
	srv.mu.Lock()
	fails := func(req *http.Request) (*http.Response, error) {
		if f.resp != nil {
			return f.resp(badDoc)
		}
		return httpResp(200, badDoc, nil), nil
	}
	cur = fails
	srv.mu.Unlock()
	fc.refuse = f.save
	ctx := context.Background()
	if f.ctx {
		cctx, cancel := context.WithCancel(ctx)
		cancel()
		ctx = cctx
		cur = func(req *http.Request) (*http.Response, error) { return nil, req.Context().Err() }
	}
	err := c.DownloadWithContext(ctx, t)
	kase := fmt.Sprintf("disk=%v type=%s prior=%s failure=%s", disk, t, prior, f.name)
	m.Saw(kase, true)
	m.Count("failed_downloads", 1)
	m.Sample(kase)
	if err == nil {
		m.Violate("a failed download reported success", kase, "error", "nil")
		return
	}
	after := snap(withReg)
	if before != after {
		m.Violate("a failed download changed the cache or the registry", kase, fmt.Sprintf("%+v", before), fmt.Sprintf("%+v", after))
		return
	}
	// A lookup that hits the same failure never answers from the bad file.
	qt, qn := taggedQuestion(r, t)
	a, err := c.Lookup((&bootstrap.Question{RegistryType: t, Query: qt}).WithContext(ctx))
	m.Count("lookups_after_failure", 1)
	tag := wantDesc
	if prior == "other" {
		tag = "newer"
	}
	switch prior {
	case "damaged":
		// Whatever the lookup did about the damaged copy, the registry in use stays.
		m.Count("damaged_copies", 1)
		for i := range 2 {
			if err == nil && !eqStrings(urlStrings(a.URLs), taggedURLs(t, "old", qn)) {
				m.Violate("an answer was computed from a file that failed to download", kase, taggedURLs(t, "old", qn), urlStrings(a.URLs))
				return
			}
			if fl := accessor(c, t); fl == nil || fl.Description != "old" || string(fl.JSON) != string(old) {
				m.Violate("a failed download lost the registry in use", kase+fmt.Sprint(" after lookup ", i+1), "old", fmt.Sprintf("%+v", fl))
				return
			}
			a, err = c.Lookup((&bootstrap.Question{RegistryType: t, Query: qt}).WithContext(ctx))
		}
	case "none":
		if err == nil {
			m.Violate("a lookup answered although no file was ever downloaded", kase, "error", fmt.Sprint(a))
			return
		}
		if readBytes() != "(absent)" || fc.State(name) != cache.Absent {
			m.Violate("a failed lookup left something in the cache", kase, "absent", readBytes())
			return
		}
	default:
		if err != nil {
			if prior != "expired" {
				m.Violate("a failed download broke later lookups", kase, "answer from "+tag, err.Error())
				return
			}
		} else if got := urlStrings(a.URLs); !eqStrings(got, taggedURLs(t, tag, qn)) {
			m.Violate("an answer was computed from a file that failed to download", kase, taggedURLs(t, tag, qn), got)
			return
		}
	}
	if prior == "expired" {
		if s := snap(true); s != before {
			m.Violate("a failed refresh changed the cache or the registry", kase, fmt.Sprintf("%+v", before), fmt.Sprintf("%+v", s))
			return
		}
	}
	// Recovery.
	fc.refuse = false
	cur = func(req *http.Request) (*http.Response, error) {
		return httpResp(200, taggedDoc(t, "recovered"), nil), nil
	}
	if err := c.Download(t); err != nil {
		m.Violate("download does not recover after a failure", kase, "success", err.Error())
		return
	}
	if fl := accessor(c, t); fl == nil || fl.Description != "recovered" || readBytes() != string(taggedDoc(t, "recovered")) {
		m.Violate("a download after a failure is not effective", kase, "recovered", fmt.Sprint(fl))
	}
}

func c07Unusable(m *M, t bootstrap.RegistryType, how string) {
	base := scratchDir(m)
	defer os.RemoveAll(base)
	dc := cache.NewDiskCache()
	dc.Dir = filepath.Join(base, "c")
	name := registryFile[t]
	if how == "dir-is-file" {
		_ = os.WriteFile(dc.Dir, []byte("file"), 0o600)
	} else {
		_ = os.MkdirAll(filepath.Join(dc.Dir, name, "sub"), 0o755)
	}
	srv := &script{fn: func(req *http.Request) (*http.Response, error) { return httpResp(200, taggedDoc(t, "bad"), nil), nil }}
	c := &bootstrap.Client{HTTP: srv.client(), Cache: dc}
	kase := fmt.Sprintf("type=%s cache %s", t, how)
	m.Saw(kase, true)
	err := c.Download(t)
	if err == nil {
		m.Violate("a download that could not be stored reported success", kase, "error", "nil")
		return
	}
	if fl := accessor(c, t); fl != nil {
		m.Violate("a download that could not be stored is in use", kase, "no registry", fl.Description)
	}
	qt, _ := taggedQuestion(m.R, t)
	if a, err := c.Lookup(&bootstrap.Question{RegistryType: t, Query: qt}); err == nil {
		m.Violate("a lookup answered from a file that could not be stored", kase, "error", fmt.Sprint(a))
	}
}

// ---- out of space: a child whose file size limit stops the write

type spaceArg struct {
	Dir   string
	Type  int
	Limit uint64
	Prior bool
}

type spaceOut struct {
	Err          string
	Before       string
	After        string
	StateBefore  int
	StateAfter   int
	DescBefore   string
	DescAfter    string
	LookupErr    string
	LookupURLs   []string
	Files        []string
	LimitReached bool
}

func bigDoc(t bootstrap.RegistryType, tag string, size int) []byte {
	var d map[string]any
	_ = json.Unmarshal(taggedDoc(t, tag), &d)
	d["padding"] = strings.Repeat("x", size)
	return mustJSON(d)
}

func init() {
	children["space"] = func(arg []byte) any {
		var a spaceArg
		_ = json.Unmarshal(arg, &a)
		t := bootstrap.RegistryType(a.Type)
		signal.Ignore(syscall.SIGXFSZ)
		dc := cache.NewDiskCache()
		dc.Dir = a.Dir
		tag := "old"
		srv := &script{}
		srv.fn = func(req *http.Request) (*http.Response, error) { return httpResp(200, bigDoc(t, tag, 20000), nil), nil }
		c := &bootstrap.Client{HTTP: srv.client(), Cache: dc}
		var o spaceOut
		name := registryFile[t]
		read := func() string {
			b, err := os.ReadFile(filepath.Join(a.Dir, name))
			if err != nil {
				return "(absent)"
			}
			return string(b)
		}
		desc := func() string {
			if f := accessor(c, t); f != nil {
				return f.Description
			}
			return ""
		}
		if a.Prior {
			if err := c.Download(t); err != nil {
				o.Err = "prior download failed: " + err.Error()
				return o
			}
		}
		o.Before, o.StateBefore, o.DescBefore = read(), int(dc.State(name)), desc()
		var lim syscall.Rlimit
		_ = syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
		soft := lim
		soft.Cur = a.Limit
		_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &soft)
		// positive control: the limit works
		if err := os.WriteFile(filepath.Join(filepath.Dir(a.Dir), "control"), make([]byte, a.Limit+1), 0o600); err != nil {
			o.LimitReached = true
		}
		tag = "bad"
		if err := c.Download(t); err != nil {
			o.Err = err.Error()
		}
		_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
		o.After, o.StateAfter, o.DescAfter = read(), int(dc.State(name)), desc()
		qt, _ := taggedQuestion(NewRand(1, "space"), t)
		srv.fn = func(req *http.Request) (*http.Response, error) { return nil, errors.New("offline") }
		an, err := c.Lookup(&bootstrap.Question{RegistryType: t, Query: qt})
		if err != nil {
			o.LookupErr = err.Error()
		} else {
			o.LookupURLs = urlStrings(an.URLs)
		}
		return o
	}
}

func c07Space(m *M, r *Rand, i int) {
	base := scratchDir(m)
	defer os.RemoveAll(base)
	a := spaceArg{Dir: filepath.Join(base, "c"), Type: int(allRegistries[i%5]), Limit: uint64(pick(r, []int{0, 1, 100, 4096, 19000})), Prior: i%4 != 3}
	var o spaceOut
	se, err := runChild("space", a, &o)
	if err != nil {
		m.Violate("process died on a failed store", fmt.Sprintf("%+v", a), "error", err.Error()+se)
		return
	}
	kase := fmt.Sprintf("store fails after %d bytes, type %s, prior copy %v", a.Limit, bootstrap.RegistryType(a.Type), a.Prior)
	if !o.LimitReached {
		return // the file size limit is not enforced here: nothing observed
	}
	m.Saw(kase, true)
	m.Count("out_of_space_runs", 1)
	if o.Err == "" {
		m.Violate("a download that could not be stored reported success", kase, "error", "nil")
		return
	}
	if o.Before != o.After || o.StateBefore != o.StateAfter || o.DescBefore != o.DescAfter {
		m.Violate("a download that could not be stored changed the cache", kase,
			fmt.Sprintf("%d bytes, state %d, registry %q", len(o.Before), o.StateBefore, o.DescBefore),
			fmt.Sprintf("%d bytes, state %d, registry %q", len(o.After), o.StateAfter, o.DescAfter))
		return
	}
	if a.Prior && (o.LookupErr != "" || len(o.LookupURLs) == 0 || !strings.Contains(o.LookupURLs[0], "//old.")) {
		m.Violate("lookups no longer answer from the old copy", kase, "old", o.LookupErr+fmt.Sprint(o.LookupURLs))
	}
}
