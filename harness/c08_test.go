package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"syscall"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

func diskClient(dir string, srv *script) *bootstrap.Client {
	dc := cache.NewDiskCache()
	dc.Dir = dir
	return &bootstrap.Client{HTTP: srv.client(), Cache: dc}
}

// cacheFiles lists the regular files beneath dir whose content is exactly doc.
func cacheFile(dir string, doc []byte) string {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		p := filepath.Join(dir, e.Name())
		if b, err := os.ReadFile(p); err == nil && bytes.Equal(b, doc) {
			return p
		}
	}
	return ""
}

// waitTick returns once a file written now gets a later mtime than t.
func waitTick(dir string, t time.Time) {
	p := filepath.Join(filepath.Dir(dir), "tick")
	for {
		if err := os.WriteFile(p, []byte("x"), 0o600); err != nil {
			panic(err)
		}
		fi, err := os.Stat(p)
		if err != nil {
			panic(err)
		}
		if fi.ModTime().After(t) {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

type reply func(*http.Request) (*http.Response, error)

func offline(*http.Request) (*http.Response, error) { return nil, errors.New("scripted: offline") }

func serveTag(t bootstrap.RegistryType, tag string) reply {
	return func(*http.Request) (*http.Response, error) { return httpResp(200, taggedDoc(t, tag), nil), nil }
}

func TestC08(t *testing.T) {
	monitor(t, "C08", "(a) torn/corrupt cache files planted at every cut point, found by fresh and by running clients, server up or down; (b) writer processes crashing at chosen bytes of the store; (c) writer processes racing and being SIGKILLed while readers look up, every version unique and large; (d) histories of several clients sharing a directory. Oracle: each answer comes from one complete published version, network use as required. Non-trivial: a damaged file, a crash, or a version change by another client was present. Distinct by case.", 800, func(m *M) {
		r := m.R
		for ti, t := range allRegistries {
			doc := taggedDoc(t, "torn")
			var bads []struct {
				name string
				b    []byte
			}
			add := func(n string, b []byte) {
				bads = append(bads, struct {
					name string
					b    []byte
				}{n, b})
			}
			step := 5
			if m.Thorough {
				step = 1
			}
			for k := ti % step; k < len(doc); k += step {
				add(fmt.Sprintf("cut at %d of %d", k, len(doc)), doc[:k])
				if k%3 == 0 {
					z := make([]byte, len(doc))
					copy(z, doc[:k])
					add(fmt.Sprintf("zeros from %d of %d", k, len(doc)), z)
				}
			}
			add("empty", nil)
			add("garbage", []byte("\x00\xff<html>garbage"))
			add("array", []byte("[]"))
			add("services of the wrong type", []byte(`{"version":"1.0","services":3}`))
			add("service with one part", bytes.Replace(doc, []byte(`"services":[`), []byte(`"services":[[["com"]],`), 1))
			add("extra tail", append(append([]byte{}, doc...), doc[len(doc)/2:]...))
			for _, b := range bads {
				for _, mem := range []bool{false, true} {
					for _, up := range []bool{true, false} {
						kase := fmt.Sprintf("type=%s damage=%s running client=%v server up=%v", t, b.name, mem, up)
						m.Try("C08 "+kase, func() { c08Corrupt(m, r, t, kase, b.b, mem, up) })
					}
				}
			}
		}
		// Crash points: kill the writer at its k-th system call of each kind, until it survives.
		n := 0
		for pass := range m.N(2) {
			for _, sys := range []string{"write", "openat", "close", "fstat", "newfstatat", "renameat", "renameat2", "unlinkat", "mkdirat", "fchmodat", "fsync"} {
				for k := 1; k <= 40; k++ {
					n++
					killed := false
					m.Try(fmt.Sprintf("C08 crash at %s #%d", sys, k), func() { killed = c08Crash(m, r, n, pass, sys, k) })
					if !killed {
						break
					}
				}
			}
		}
		for i := range m.N(20) {
			m.Try("C08 short write", func() { c08Crash(m, r, i, 1, "", 0) })
		}
		for i := range m.N(250) {
			m.Try(fmt.Sprintf("C08 history %d", i), func() { c08History(m, NewRand(m.Seed, fmt.Sprintf("C08h/%d", i)), i) })
		}
		m.Try("C08 slowed clients", func() { c08Slow(m, m.N(40)) })
		for i := range m.N(3) {
			m.Try(fmt.Sprintf("C08 processes %d", i), func() { c08Processes(m, r, i) })
		}
	})
}

func c08Corrupt(m *M, r *Rand, t bootstrap.RegistryType, kase string, damaged []byte, mem, up bool) {
	base := scratchDir(m)
	defer os.RemoveAll(base)
	dir := filepath.Join(base, "c")
	srv := &script{fn: serveTag(t, "old")}
	c := diskClient(dir, srv)
	if err := c.Download(t); err != nil {
		m.Violate("download failed", kase, "success", err.Error())
		return
	}
	p := cacheFile(dir, taggedDoc(t, "old"))
	if p == "" {
		m.Violate("the downloaded file is not in the cache directory", kase, dir, "")
		return
	}
	if err := os.WriteFile(p, damaged, 0o600); err != nil {
		panic(err)
	}
	ft := time.Now().Add(20 * time.Second)
	_ = os.Chtimes(p, ft, ft)
	if !mem {
		c = diskClient(dir, srv)
	}
	srv.fn = serveTag(t, "new")
	if !up {
		srv.fn = offline
	}
	srv.reset()
	qt, qn := taggedQuestion(r, t)
	m.Saw(kase, true)
	m.Count("damaged_files", 1)
	m.Sample(kase)
	a, err := c.Lookup(&bootstrap.Question{RegistryType: t, Query: qt})
	if !up {
		if err == nil && !(mem && eqStrings(urlStrings(a.URLs), taggedURLs(t, "old", qn))) {
			m.Violate("a damaged cache file was used", kase, "error, or the complete version already in memory", urlStrings(a.URLs))
			return
		}
		if !mem {
			// A later lookup recovers as soon as the server is reachable.
			srv.fn = serveTag(t, "new")
			srv.reset()
			a, err = c.Lookup(&bootstrap.Question{RegistryType: t, Query: qt})
			if err != nil || srv.count() != 1 || !eqStrings(urlStrings(a.URLs), taggedURLs(t, "new", qn)) {
				m.Violate("a client does not recover from a damaged cache file", kase, "one fetch, new version", fmt.Sprint(a, err, srv.urls()))
			}
		}
		return
	}
	if err != nil {
		m.Violate("a damaged cache file makes lookups fail although the server is reachable", kase, "answer", err.Error())
		return
	}
	if got := urlStrings(a.URLs); !eqStrings(got, taggedURLs(t, "new", qn)) || srv.count() != 1 {
		m.Violate("a damaged cache file is not replaced by a fresh download", kase, taggedURLs(t, "new", qn), fmt.Sprint(got, " fetches ", srv.urls()))
		return
	}
	if b, _ := os.ReadFile(p); !bytes.Equal(b, taggedDoc(t, "new")) {
		m.Violate("the damaged file is still in the cache", kase, string(taggedDoc(t, "new")), string(b))
		return
	}
	// and everybody else now uses the fresh copy
	srv2 := &script{fn: offline}
	a, err = diskClient(dir, srv2).Lookup(&bootstrap.Question{RegistryType: t, Query: qt})
	if err != nil || srv2.count() != 0 || !eqStrings(urlStrings(a.URLs), taggedURLs(t, "new", qn)) {
		m.Violate("the fresh copy is not usable by another client", kase, "new version without network", fmt.Sprint(a, err))
	}
}

// ---- crashes inside the store

type crashArg struct {
	Dir   string
	Type  int
	Tag   string
	Limit int64
	Size  int
}

func init() {
	children["crashwriter"] = func(arg []byte) any {
		var a crashArg
		_ = json.Unmarshal(arg, &a)
		t := bootstrap.RegistryType(a.Type)
		srv := &script{fn: func(*http.Request) (*http.Response, error) { return httpResp(200, bigDoc(t, a.Tag, a.Size), nil), nil }}
		c := diskClient(a.Dir, srv)
		runtime.LockOSThread() // the crash injector counts system calls per thread
		signal.Ignore(syscall.SIGXFSZ)
		if a.Limit >= 0 {
			// The write that crosses the limit is cut short there.
			_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(a.Limit), Max: uint64(a.Limit)})
		}
		if err := c.Download(t); err != nil {
			return "error: " + err.Error()
		}
		return "stored"
	}
	children["racewriter"] = func(arg []byte) any {
		var a raceArg
		_ = json.Unmarshal(arg, &a)
		n := 0
		for {
			n++
			t := bootstrap.RegistryType(a.Types[n%len(a.Types)])
			ver := a.ID*1000000 + n
			srv := &script{fn: func(*http.Request) (*http.Response, error) { return httpResp(200, verDoc(t, ver), nil), nil }}
			c := diskClient(a.Dir, srv)
			if err := c.Download(t); err != nil {
				return "error: " + err.Error()
			}
			fmt.Fprintln(os.Stderr, n)
		}
	}
}

func c08Crash(m *M, r *Rand, i, pass int, sys string, k int) (killed bool) {
	base := scratchDir(m)
	defer os.RemoveAll(base)
	dir := filepath.Join(base, "c")
	t := allRegistries[r.IntN(5)]
	size := pick(r, []int{200, 5000, 70000})
	full := len(bigDoc(t, "crashed", size))
	limit := int64(-1)
	if pass%2 == 1 {
		limit = int64(r.IntN(full))
	}
	prior := r.Chance(0.7)
	if prior {
		srv := &script{fn: func(*http.Request) (*http.Response, error) { return httpResp(200, bigDoc(t, "old", size), nil), nil }}
		if err := diskClient(dir, srv).Download(t); err != nil {
			m.Violate("download failed", i, "success", err.Error())
			return
		}
	}
	c := childCmd("crashwriter", crashArg{dir, int(t), "crashed", limit, size})
	if sys != "" {
		st, err := exec.LookPath("strace")
		if err != nil {
			return false
		}
		c.Args = []string{st, "-f", "-qq", "-o", filepath.Join(base, "trace"), "-e", "trace=" + sys, "-e", "inject=" + sys + ":signal=KILL:when=" + strconv.Itoa(k), c.Path}
		c.Path = st
	}
	var so bytes.Buffer
	c.Stdout = &so
	err := c.Run()
	out := strings.Trim(so.String(), "\"")
	where := fmt.Sprintf("process killed at its %s #%d", sys, k)
	if err != nil {
		if b, _ := os.ReadFile(filepath.Join(base, "trace")); bytes.Contains(b, []byte("killed by SIGKILL")) {
			killed = true
			ls := strings.Split(strings.TrimSpace(string(b)), "\n")
			for _, l := range ls {
				if strings.Contains(l, "= ?") {
					where += ": " + clip(l).(string)
				}
			}
			m.Count("writer_crashes", 1)
			if strings.Contains(where, dir) || sys == "write" {
				m.Count("crashes_inside_store", 1)
			}
		} else {
			m.Count("crash_injector_unusable", 1)
			return false
		}
	}
	kase := fmt.Sprintf("type=%s prior=%v size=%d limit=%d %s, output %q", t, prior, full, limit, where, out)
	m.Saw(kase, killed || out != "stored")
	m.Count("writer_short_writes", b2i(limit >= 0 && out != "stored" && !killed))
	qt, qn := taggedQuestion(r, t)
	for _, up := range []bool{false, true} {
		srv := &script{fn: offline}
		if up {
			srv.fn = serveTag(t, "new")
		}
		a, err := diskClient(dir, srv).Lookup(&bootstrap.Question{RegistryType: t, Query: qt})
		if err != nil {
			if up {
				m.Violate("lookups fail after a writer crashed", kase, "answer", err.Error())
				return killed
			}
			continue
		}
		got := urlStrings(a.URLs)
		ok := prior && srv.count() == 0 && eqStrings(got, taggedURLs(t, "old", qn)) ||
			srv.count() == 0 && (killed || out == "stored") && eqStrings(got, taggedURLs(t, "crashed", qn)) ||
			up && srv.count() == 1 && eqStrings(got, taggedURLs(t, "new", qn))
		if !ok {
			m.Violate("an answer was not computed from one complete version", kase, "old without network, or new after one fetch", fmt.Sprint(got, srv.urls()))
			return killed
		}
	}
	return killed
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- several clients, one directory

func c08History(m *M, r *Rand, id int) {
	base := scratchDir(m)
	defer os.RemoveAll(base)
	dir := filepath.Join(base, "c")
	t := pick(r, allRegistries)
	ver := 0
	var cur string
	srv := &script{}
	up := true
	srv.fn = func(*http.Request) (*http.Response, error) {
		if !up {
			return offline(nil)
		}
		ver++
		cur = fmt.Sprintf("v%d", ver)
		return httpResp(200, taggedDoc(t, cur), nil), nil
	}
	type cl struct {
		c   *bootstrap.Client
		ver string
		mt  time.Time // mtime of the copy in use
	}
	cls := []*cl{}
	for range r.Range(2, 4) {
		cls = append(cls, &cl{c: diskClient(dir, srv)})
	}
	file, fmt_ := "", time.Time{}
	var path string
	var hist []string
	log := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	kase := func() string { return fmt.Sprintf("history %d type=%s: %s", id, t, strings.Join(hist, "; ")) }
	stat := func() {
		if path == "" {
			path = cacheFile(dir, taggedDoc(t, cur))
		}
		fi, err := os.Stat(path)
		if err != nil {
			m.Violate("the cache file is missing after a successful download", kase(), path, err.Error())
			return
		}
		fmt_ = fi.ModTime()
	}
	changes := 0
	for range r.Range(8, 30) {
		i := r.IntN(len(cls))
		x := cls[i]
		if file != "" {
			waitTick(dir, fmt_)
		}
		srv.reset()
		switch op := r.IntN(12); {
		case op < 6:
			qt, qn := taggedQuestion(r, t)
			needFetch := x.ver == "" && file == ""
			pickup := file != "" && (x.ver == "" || fmt_.After(x.mt))
			a, err := x.c.Lookup(&bootstrap.Question{RegistryType: t, Query: qt})
			log("client %d looks up -> %d fetches, %v", i, srv.count(), err)
			m.Count("lookups", 1)
			if needFetch {
				if !up {
					if err == nil {
						m.Violate("a lookup succeeded without any data", kase(), "error", fmt.Sprint(a))
						return
					}
					continue
				}
				file = cur
				x.ver = cur
				stat()
				x.mt = fmt_
			} else if srv.count() != 0 {
				m.Violate("a network request was made although a usable copy is in the cache directory", kase(), "none", srv.urls())
				return
			}
			if pickup {
				m.Count("pickups", 1)
				changes++
				x.ver, x.mt = file, fmt_
			}
			if err != nil || !eqStrings(urlStrings(a.URLs), taggedURLs(t, x.ver, qn)) {
				m.Violate("an answer is not from the version this client must use", kase(), x.ver, fmt.Sprint(a, err))
				return
			}
		case op < 8:
			err := x.c.Download(t)
			log("client %d downloads -> %v", i, err)
			if (err == nil) != up {
				m.Violate("download result", kase(), up, fmt.Sprint(err))
				return
			}
			if err == nil {
				file, x.ver = cur, cur
				stat()
				x.mt = fmt_
			}
		case op == 8 && file != "": // another user puts back an older file
			ver++
			cur = fmt.Sprintf("v%d", ver)
			d := time.Duration(r.Range(10, 3600)) * time.Second
			if err := os.WriteFile(path, taggedDoc(t, cur), 0o600); err != nil {
				panic(err)
			}
			mt := fmt_.Add(-d)
			_ = os.Chtimes(path, mt, mt)
			fi, _ := os.Stat(path)
			file, fmt_ = cur, fi.ModTime()
			log("a file %s older %s is stored", cur, d)
			m.Count("older_files", 1)
			changes++
		case op == 9:
			cls[i] = &cl{c: diskClient(dir, srv)}
			log("client %d restarts", i)
		case op == 10:
			up = !up
			log("server up=%v", up)
		default: // accessor
			f := accessor(x.c, t)
			log("client %d accessor", i)
			if srv.count() != 0 {
				m.Violate("an accessor used the network", kase(), "none", srv.urls())
				return
			}
			if file != "" && (x.ver == "" || fmt_.After(x.mt)) {
				x.ver, x.mt = file, fmt_
				changes++
			}
			d := ""
			if f != nil {
				d = f.Description
			}
			if d != x.ver {
				m.Violate("an accessor returned another version than the one in use", kase(), x.ver, d)
				return
			}
		}
	}
	m.Saw(kase(), changes > 0)
}

// ---- racing processes

type raceArg struct {
	Dir   string
	ID    int
	Types []int
}

// verDoc is a large registry file whose every part names its version.
func verDoc(t bootstrap.RegistryType, ver int) []byte {
	d := taggedDoc(t, "x"+strconv.Itoa(ver))
	var fill strings.Builder
	n := 30 + ver*7919%400
	for i := range n {
		fmt.Fprintf(&fill, "%d:%d;", ver, i)
		if i%3 == 0 {
			fill.WriteString(strings.Repeat("-", 100+ver%50))
		}
	}
	return bytes.Replace(d, []byte(`"version":`), []byte(`"fill":"`+fill.String()+`","version":`), 1)
}

func c08Processes(m *M, r *Rand, round int) {
	base := scratchDir(m)
	defer os.RemoveAll(base)
	dir := filepath.Join(base, "c")
	types := []int{int(bootstrap.DNS), int(bootstrap.ASN)}
	start := func(id int) *exec.Cmd {
		c := childCmd("racewriter", raceArg{dir, round*1000 + id, types})
		if err := c.Start(); err != nil {
			panic(err)
		}
		return c
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var mu sync.Mutex
	var pv []pendingViol
	seen := map[string]bool{}
	lookups, fallbacks := 0, 0
	for reader := range 4 {
		rr := NewRand(m.Seed, fmt.Sprintf("C08r/%d/%d", round, reader))
		wg.Add(1)
		go func() {
			defer wg.Done()
			bad := func(what string, exp, got any) {
				mu.Lock()
				if len(pv) < 3 {
					pv = append(pv, pendingViol{what, fmt.Sprintf("processes round %d reader %d", round, reader), exp, got})
				}
				mu.Unlock()
			}
			defer func() {
				if e := recover(); e != nil {
					bad("panic", "no panic", fmt.Sprint(e))
				}
			}()
			own := 900000000 + reader
			var c *bootstrap.Client
			srv := &script{}
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				t := bootstrap.RegistryType(types[k%2])
				if c == nil || rr.Chance(0.3) {
					c = diskClient(dir, srv)
				}
				srv.mu.Lock()
				srv.fn = func(*http.Request) (*http.Response, error) { return httpResp(200, verDoc(t, own), nil), nil }
				srv.bodies = nil
				srv.events = nil
				srv.mu.Unlock()
				qt, qn := taggedQuestion(rr, t)
				a, err := c.Lookup(&bootstrap.Question{RegistryType: t, Query: qt})
				mu.Lock()
				lookups++
				if srv.count() > 0 {
					fallbacks++
				}
				mu.Unlock()
				if err != nil {
					bad("a lookup failed although the server is reachable", "answer", err.Error())
					return
				}
				// The answer must be exactly the one of a single version.
				got := urlStrings(a.URLs)
				if len(got) == 0 {
					bad("an answer was computed from an incomplete file", "URLs", a)
					return
				}
				tag := strings.TrimPrefix(strings.SplitN(got[0], ".", 2)[0], "https://")
				v, _ := strconv.Atoi(strings.TrimPrefix(tag, "x"))
				if !eqStrings(got, taggedURLs(t, tag, qn)) || v == 0 {
					bad("an answer mixes versions", taggedURLs(t, tag, qn), got)
					return
				}
				if f := accessor(c, t); f != nil {
					fv, _ := strconv.Atoi(strings.TrimPrefix(f.Description, "x"))
					if !bytes.Equal(f.JSON, verDoc(t, fv)) {
						bad("a registry in use is not one complete published version", fmt.Sprintf("document of version %d", fv), fmt.Sprintf("%d bytes", len(f.JSON)))
						return
					}
				}
				mu.Lock()
				seen[tag] = true
				mu.Unlock()
			}
		}()
	}
	live := map[int]*exec.Cmd{}
	next := 0
	for range 4 {
		next++
		live[next] = start(next)
	}
	kills := 25
	for range kills {
		time.Sleep(time.Duration(r.Range(5, 60)) * time.Millisecond)
		ids := []int{}
		for id := range live {
			ids = append(ids, id)
		}
		sortInts(ids)
		id := ids[r.IntN(len(ids))]
		_ = live[id].Process.Kill()
		_ = live[id].Wait()
		delete(live, id)
		next++
		live[next] = start(next)
	}
	for _, c := range live {
		_ = c.Process.Kill()
		_ = c.Wait()
	}
	close(stop)
	wg.Wait()
	m.Count("writer_kills", kills+len(live))
	m.Count("reader_lookups", lookups)
	m.Count("reader_fetches", fallbacks)
	m.Count("versions_seen", len(seen))
	m.Saw(fmt.Sprintf("processes %d", round), len(seen) > 3)
	m.flush(pv)
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}
