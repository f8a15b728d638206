package harness

import (
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

// verServer publishes a new version of every registry file at each fetch.
type verServer struct {
	script
	n    int
	down string // "", "error", "500", "garbage"
	same bool   // nothing new is published: the file served last is served again
	last map[string]string
	move int // the base URL redirects to another host, with this status
}

// chain is what one fetch of u looks like.
func (s *verServer) chain(u string) []string {
	if s.move == 0 || s.down == "error" {
		return []string{u}
	}
	return []string{u, "https://mirror.example/moved/" + u[strings.LastIndex(u, "/")+1:]}
}

func newVerServer() *verServer {
	s := &verServer{last: map[string]string{}}
	s.fn = func(req *http.Request) (*http.Response, error) {
		switch s.down {
		case "error":
			return nil, errors.New("scripted transport error")
		}
		if s.move != 0 && req.URL.Host != "mirror.example" {
			return httpResp(s.move, nil, map[string]string{"Location": s.chain(req.URL.String())[1]}), nil
		}
		switch s.down {
		case "500":
			return httpResp(500, []byte("oops"), nil), nil
		case "garbage":
			return httpResp(200, []byte("<html>"), nil), nil
		}
		for t, f := range registryFile {
			if strings.HasSuffix(req.URL.Path, "/"+f) {
				if !s.same || s.last[f] == "" {
					s.n++
					s.last[f] = fmt.Sprintf("v%d", s.n)
				}
				tag := s.last[f]
				return httpResp(200, taggedDoc(t, tag), nil), nil
			}
		}
		return httpResp(404, nil, nil), nil
	}
	return s
}

func accessor(c *bootstrap.Client, t bootstrap.RegistryType) *bootstrap.File {
	switch t {
	case bootstrap.DNS:
		if r := c.DNS(); r != nil {
			return r.File()
		}
	case bootstrap.IPv4:
		if r := c.IPv4(); r != nil {
			return r.File()
		}
	case bootstrap.IPv6:
		if r := c.IPv6(); r != nil {
			return r.File()
		}
	case bootstrap.ASN:
		if r := c.ASN(); r != nil {
			return r.File()
		}
	case bootstrap.ServiceProvider:
		if r := c.ServiceProvider(); r != nil {
			return r.File()
		}
	}
	return nil
}

type pendingViol struct {
	what          string
	kase          any
	expected, got any
}

func TestC06(t *testing.T) {
	monitor(t, "C06", "random histories of lookups (5 registry types), forced downloads, accessor calls, elapsed time, server outages, timeout changes and process restarts; memory cache in virtual time, disk cache by ageing mtimes. Oracle: a model of each type's current copy and its age. Non-trivial: the history contains a cached lookup and either an expiry, a forced download or an outage.", 300, func(m *M) {
		n := m.N(2000)
		for i := range n {
			r := NewRand(m.Seed, fmt.Sprintf("C06/%d", i))
			m.Begin(fmt.Sprintf("C06 history %d", i))
			if i%2 == 0 {
				var pv []pendingViol
				synctest.Test(m.T, func(t *testing.T) {
					defer func() {
						if e := recover(); e != nil {
							pv = append(pv, pendingViol{"panic", i, "no panic", fmt.Sprint(e)})
						}
					}()
					pv = c06History(m, r, i, false)
				})
				m.flush(pv)
			} else {
				m.Try(fmt.Sprintf("C06 history %d", i), func() { m.flush(c06History(m, r, i, true)) })
			}
			m.End()
		}
		c06Big(m, NewRand(m.Seed, "C06/big"))
	})
}

func (m *M) flush(pv []pendingViol) {
	for _, v := range pv {
		m.Violate(v.what, v.kase, v.expected, v.got)
	}
}

func c06History(m *M, r *Rand, id int, disk bool) (pv []pendingViol) {
	srv := newVerServer()
	timeout := 24 * time.Hour
	var dir string
	newClient := func() *bootstrap.Client {
		c := &bootstrap.Client{HTTP: srv.client()}
		if disk {
			dc := cache.NewDiskCache()
			dc.Dir = dir
			c.Cache = dc
			if timeout != 24*time.Hour {
				dc.SetTimeout(timeout)
			}
		}
		return c
	}
	if r.Chance(0.4) {
		timeout = max(randTimeout(r), 20*time.Minute)
	}
	customBase := r.Chance(0.3)
	moves := r.Chance(0.15)
	if disk {
		dir = filepath.Join(scratchDir(m), "sub", "cache")
	}
	c := newClient()
	if customBase {
		c.BaseURL, _ = url.Parse("https://boot.example/reg")
	}
	if !disk && timeout != 24*time.Hour {
		mc := cache.NewMemoryCache()
		mc.SetTimeout(timeout)
		c.Cache = mc
	}
	// model
	type copyState struct {
		have bool // the cache has a copy
		mem  bool // this client instance has used it
		ver  string
		at   time.Time
	}
	st := map[bootstrap.RegistryType]*copyState{}
	for _, t := range allRegistries {
		st[t] = &copyState{}
	}
	types := shuffled(r, allRegistries)[:r.Range(1, 3)]
	now := func() time.Time {
		return time.Now()
	}
	var age time.Duration // disk: total aged, applied per file by Chtimes
	_ = age
	var hist []string
	log := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	bad := func(what string, exp, got any) {
		pv = append(pv, pendingViol{what, fmt.Sprintf("history %d (disk=%v timeout=%s): %s", id, disk, timeout, strings.Join(hist, "; ")), exp, got})
	}
	sawCached, sawOther := false, false
	elapsed := map[bootstrap.RegistryType]time.Duration{} // disk ages
	ageOf := func(t bootstrap.RegistryType) time.Duration {
		if disk {
			return elapsed[t]
		}
		return now().Sub(st[t].at)
	}
	// A copy stored by another process that c has not looked at yet: files are aged by moving their
	// mtimes, which would hide it, so time stands still until c has seen it.
	unseen := map[bootstrap.RegistryType]bool{}
	elapse := func(d time.Duration) {
		if len(unseen) > 0 {
			return
		}
		log("elapse %s", d)
		if !disk {
			time.Sleep(d)
			return
		}
		for t := range st {
			elapsed[t] += d
		}
		fs, _ := filepath.Glob(filepath.Join(dir, "*.json"))
		for _, f := range fs {
			fi, err := os.Stat(f)
			if err == nil {
				mt := fi.ModTime().Add(-d)
				_ = os.Chtimes(f, mt, mt)
			}
		}
	}
	var lastObtained time.Time
	base := "https://data.iana.org/rdap/"
	if customBase {
		base = "https://boot.example/reg/"
	}
	for range r.Range(6, 30) {
		if len(pv) > 0 {
			return
		}
		t := pick(r, types)
		s := st[t]
		srv.same = r.Chance(0.3)
		srv.move = 0
		if moves && r.Chance(0.5) {
			srv.move = pick(r, []int{301, 302, 307, 308})
		}
		if disk {
			for x := range st {
				if st[x].at.After(lastObtained) {
					lastObtained = st[x].at
				}
			}
		}
		switch op := r.IntN(22); {
		case op < 9: // lookup
			// stay clear of the exact boundary
			if a := ageOf(t) - timeout; s.have && a > -time.Minute && a < time.Minute {
				if len(unseen) > 0 {
					continue
				}
				elapse(3 * time.Minute)
			}
			delete(unseen, t)
			expired := s.have && ageOf(t) > timeout
			wantFetch := !s.have || expired
			srv.reset()
			qt, qn := taggedQuestion(r, t)
			a, err := c.Lookup(&bootstrap.Question{RegistryType: t, Query: qt})
			log("lookup %s %q (server %q) -> fetches %v err %v", t, qt, srv.down, srv.urls(), err)
			m.Count("lookups", 1)
			us := srv.urls()
			if wantFetch {
				if !eqStrings(us, srv.chain(base+registryFile[t])) {
					bad("a lookup without a usable copy must fetch the file exactly once", base+registryFile[t], us)
					return
				}
				m.Count("fetches", 1)
				if expired {
					m.Count("expiries", 1)
					sawOther = true
				}
				if srv.down == "" {
					s.have, s.mem, s.ver, s.at = true, true, srv.last[registryFile[t]], now()
					elapsed[t] = 0
				}
			} else {
				sawCached = true
				s.mem = true
				if len(us) != 0 {
					bad("a lookup with a usable copy made a network request", "no request", us)
					return
				}
				m.Count("cached_lookups", 1)
			}
			failed := wantFetch && srv.down != ""
			if failed {
				sawOther = true
				if !s.have {
					if err == nil {
						bad("a lookup without any copy succeeded although the fetch failed", "error", fmt.Sprint(a))
					}
					continue
				}
				if err != nil {
					continue // reporting the failure is fine, and so is answering from the old copy
				}
			}
			if err != nil || a == nil {
				bad("lookup failed", "answer from "+s.ver, fmt.Sprint(err))
				return
			}
			if got := urlStrings(a.URLs); !eqStrings(got, taggedURLs(t, s.ver, qn)) {
				bad("answer is not from the most recently obtained copy", taggedURLs(t, s.ver, qn), got)
				return
			}
		case op < 11: // forced download
			srv.reset()
			err := c.Download(t)
			if err == nil {
				delete(unseen, t)
			}
			log("download %s (server %q) -> %v %v", t, srv.down, srv.urls(), err)
			m.Count("downloads", 1)
			sawOther = true
			us := srv.urls()
			if !eqStrings(us, srv.chain(base+registryFile[t])) {
				bad("a forced download must fetch exactly once", base+registryFile[t], us)
				return
			}
			if (err == nil) != (srv.down == "") {
				bad("download result", srv.down, fmt.Sprint(err))
				return
			}
			if err == nil {
				s.have, s.mem, s.ver, s.at = true, true, srv.last[registryFile[t]], now()
				elapsed[t] = 0
			}
		case op < 14:
			d := pick(r, []time.Duration{time.Second, time.Minute, timeout / 3, timeout / 2, timeout - 5*time.Minute, timeout + 5*time.Minute, 3 * timeout})
			elapse(d)
		case op < 16: // accessor
			srv.reset()
			delete(unseen, t)
			f := accessor(c, t)
			desc := ""
			if f != nil {
				desc = f.Description
			}
			log("accessor %s -> %q", t, desc)
			m.Count("accessor_calls", 1)
			if n := srv.count(); n != 0 {
				bad("a registry accessor touched the network", "no request", srv.urls())
				return
			}
			if desc != "" && desc != s.ver {
				bad("a registry accessor returned something other than the current copy", s.ver, desc)
				return
			}
			if s.mem && desc != s.ver {
				bad("a registry accessor lost the current copy", s.ver, desc)
				return
			}
			if desc != "" {
				s.mem = true
			}
		case op < 18:
			srv.down = pick(r, []string{"", "", "", "error", "500", "garbage"})
			log("server %q", srv.down)
		case op == 19 && c.Cache != nil:
			timeout = max(randTimeout(r), 20*time.Minute)
			c.Cache.SetTimeout(timeout)
			log("timeout %s", timeout)
		case op >= 20 && disk && srv.down == "": // another process fetches a newer copy
			if len(unseen) > 0 && !unseen[t] {
				continue
			}
			fs, _ := filepath.Glob(filepath.Join(dir, "*.json"))
			tickDir := filepath.Dir(filepath.Dir(dir))
			for _, f := range fs { // strictly newer than every copy seen so far, as far as the clock can tell
				if fi, err := os.Stat(f); err == nil {
					waitTick(tickDir, fi.ModTime())
				}
			}
			waitTick(tickDir, lastObtained)
			o := newClient()
			o.BaseURL = c.BaseURL
			if err := o.Download(t); err != nil {
				bad("download by a second client", "success", err.Error())
				return
			}
			s.have, s.mem, s.ver, s.at = true, false, srv.last[registryFile[t]], now()
			elapsed[t] = 0
			unseen[t] = true
			sawOther = true
			log("another process downloads %s", t)
			m.Count("foreign_downloads", 1)
		case op == 18 && disk: // restart
			b := c.BaseURL
			c = newClient()
			c.BaseURL = b
			for _, x := range st {
				x.mem = false
			}
			clear(unseen)
			log("restart")
			m.Count("restarts", 1)
		}
	}
	m.Saw(strings.Join(hist, ";"), sawCached && sawOther)
	if sawCached && sawOther {
		m.Sample(strings.Join(hist, "; "))
	}
	return
}
