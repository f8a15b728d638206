package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

// slowServer is how one server uses up time. Everything it does obeys the request's context, as a real transport does.
type slowServer struct {
	headers time.Duration // before the response starts; <0: never
	chunks  int           // body pieces
	chunk   time.Duration // between pieces; <0: never
	status  int
	fail    bool // connection error instead of a response
}

func (s slowServer) String() string {
	return fmt.Sprintf("{headers=%v chunks=%dx%v status=%d fail=%v}", s.headers, s.chunks, s.chunk, s.status, s.fail)
}

const forever = 1000 * time.Hour

// total is how long the exchange takes if nothing interrupts it. The body of an unusable response need not be read:
// unread asks for the time without it.
func (s slowServer) total(unread bool) time.Duration {
	if s.headers < 0 {
		return forever
	}
	if s.fail || (unread && s.status != 200) {
		return s.headers
	}
	if s.chunks > 0 && s.chunk < 0 {
		return forever
	}
	return s.headers + time.Duration(s.chunks)*s.chunk
}

func ctxWait(ctx context.Context, d time.Duration) error {
	if d == 0 {
		return ctx.Err()
	}
	never := d < 0
	if never {
		d = 7 * 24 * time.Hour // by then any limit has long passed
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		if never {
			return errors.New("scripted: gave up after a week")
		}
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

type slowBody struct {
	ctx    context.Context
	pieces [][]byte
	delay  time.Duration
	buf    []byte
}

func (b *slowBody) Read(p []byte) (int, error) {
	for len(b.buf) == 0 {
		if len(b.pieces) == 0 {
			return 0, io.EOF
		}
		if err := ctxWait(b.ctx, b.delay); err != nil {
			return 0, err
		}
		b.buf, b.pieces = b.pieces[0], b.pieces[1:]
	}
	n := copy(p, b.buf)
	b.buf = b.buf[n:]
	return n, nil
}
func (b *slowBody) Close() error { return nil }

func split(b []byte, n int) [][]byte {
	if n <= 1 {
		return [][]byte{b}
	}
	var out [][]byte
	for i := range n {
		out = append(out, b[len(b)*i/n:len(b)*(i+1)/n])
	}
	return out
}

func (s slowServer) serve(req *http.Request, body []byte) (*http.Response, error) {
	ctx := req.Context()
	if err := ctxWait(ctx, s.headers); err != nil {
		return nil, err
	}
	if s.fail {
		return nil, io.ErrUnexpectedEOF
	}
	r := httpResp(s.status, nil, nil)
	r.ContentLength = -1
	n := s.chunks
	if n == 0 {
		r.Body = io.NopCloser(bytes.NewReader(body))
	} else {
		r.Body = &slowBody{ctx: ctx, pieces: split(body, n), delay: s.chunk}
	}
	return r, nil
}

type c16Case struct {
	op       string // do, domain, autnum, ip, lookup, download
	explicit bool
	stale    bool // the client holds an expired copy of the registry
	boot     slowServer
	servers  []slowServer
	timeout  time.Duration // Request.Timeout
	deadline time.Duration // context deadline
	cancel   time.Duration // cancellation time
}

func (c c16Case) String() string {
	return fmt.Sprintf("op=%s explicit=%v stale=%v registry=%v servers=%v Timeout=%v deadline=%v cancel=%v", c.op, c.explicit, c.stale, c.boot, c.servers, c.timeout, c.deadline, c.cancel)
}

// limit is when the operation must have ended; ok=false: no limit.
func (c c16Case) limit() (l time.Duration, ok bool) {
	use := func(d time.Duration) {
		if !ok || d < l {
			l, ok = d, true
		}
	}
	if c.timeout > 0 {
		use(c.timeout)
	}
	if c.deadline != 0 {
		use(max(c.deadline, 0))
	}
	if c.cancel != 0 {
		use(max(c.cancel, 0))
	}
	switch c.op {
	case "domain", "autnum", "ip":
		use(30 * time.Second)
	}
	return
}

type c16Result struct {
	elapsed time.Duration
	err     error
	object  bool
	calls   []time.Duration // when each HTTP request was issued
	urls    []string
}

// c16Run executes the case in a bubble of virtual time.
func c16Run(c c16Case, limited bool) (res c16Result) {
	start := time.Now()
	var mu sync.Mutex
	srv := &script{}
	next, warm := 0, c.stale
	srv.fn = func(req *http.Request) (*http.Response, error) {
		mu.Lock()
		if !warm {
			res.calls = append(res.calls, time.Since(start))
			res.urls = append(res.urls, req.URL.String())
		}
		var s slowServer
		isBoot := req.URL.Host == "boot.example"
		if warm {
			s.status = 200
		} else if isBoot {
			s = c.boot
		} else if next < len(c.servers) {
			s = c.servers[next]
			next++
		}
		mu.Unlock()
		if isBoot {
			for _, k := range bootKinds {
				if strings.HasSuffix(req.URL.Path, "/"+registryFile[k.reg]) {
					var urls []string
					for i := range c.servers {
						urls = append(urls, fmt.Sprintf("https://s%d.example/", i))
					}
					return s.serve(req, regDoc([]svc{{[]string{k.entry}, urls}}, k.reg == bootstrap.ServiceProvider, nil))
				}
			}
		}
		class := map[string]string{"autnum": "autnum", "ip": "ip network"}[c.op]
		if class == "" {
			class = "domain"
		}
		return s.serve(req, []byte(`{"objectClassName":"`+class+`","handle":"`+strings.Repeat("x", 200)+`"}`))
	}
	bc := &bootstrap.Client{HTTP: srv.client(), BaseURL: mustURL("https://boot.example/b/")}
	client := &rdap.Client{HTTP: srv.client(), Bootstrap: bc}
	if c.stale {
		for _, k := range bootKinds {
			if err := bc.Download(k.reg); err != nil {
				panic(err)
			}
		}
		time.Sleep(25 * time.Hour)
		warm, start = false, time.Now()
	}
	ctx := context.Background()
	if limited && c.deadline != 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithDeadline(ctx, start.Add(c.deadline))
		defer cancel()
	}
	if limited && c.cancel != 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithCancel(ctx)
		if c.cancel < 0 {
			cancel()
		} else {
			t := time.AfterFunc(c.cancel, cancel)
			defer t.Stop()
		}
		defer cancel()
	}
	switch c.op {
	case "domain":
		o, err := client.QueryDomain("a.example")
		res.object, res.err = o != nil, err
	case "autnum":
		o, err := client.QueryAutnum("AS5")
		res.object, res.err = o != nil, err
	case "ip":
		o, err := client.QueryIP("10.1.2.3")
		res.object, res.err = o != nil, err
	case "lookup":
		a, err := bc.Lookup((&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "a.example"}).WithContext(ctx))
		res.object, res.err = err == nil && a != nil, err
	case "download":
		res.err = bc.DownloadWithContext(ctx, bootstrap.IPv6)
		res.object = res.err == nil
	default:
		req := &rdap.Request{Type: rdap.DomainRequest, Query: "a.example"}
		if limited {
			req.Timeout = c.timeout
		}
		if c.explicit {
			req.Server = mustURL("https://s0.example/")
		}
		if ctx != context.Background() {
			req = req.WithContext(ctx)
		}
		resp, err := client.Do(req)
		res.object, res.err = err == nil && resp.Object != nil, err
	}
	res.elapsed = time.Since(start)
	return
}

// natural is when the operation would end by itself.
func (c c16Case) natural(unread bool) time.Duration {
	var t time.Duration
	if !c.explicit {
		t += c.boot.total(unread)
		bad := c.boot.fail || c.boot.status != 200
		if c.op == "lookup" || c.op == "download" || bad && (unread || !c.stale) { // with an expired copy a failed refresh may be the end or not
			return t
		}
	}
	for i, s := range c.servers {
		if c.explicit && i > 0 {
			break
		}
		t += s.total(unread)
		if !s.fail && (s.status == 200 || s.status == 404) {
			return t
		}
	}
	return t
}

func c16Gen(r *Rand) c16Case {
	odd := func(max int) time.Duration { // never coincides with another instant
		return time.Duration(r.Range(1, max))*time.Millisecond + time.Duration(r.Range(1, 999983))*time.Nanosecond
	}
	gen := func(okBias float64) slowServer {
		s := slowServer{status: 200}
		if r.Chance(0.7) {
			s.headers = odd(20000)
		}
		switch r.IntN(10) {
		case 0, 1:
			s.headers = -1
		case 2:
			s.chunks, s.chunk = r.Range(1, 4), -1
		case 3, 4:
			s.chunks, s.chunk = r.Range(1, 30), odd(3000)
		}
		if !r.Chance(okBias) {
			if r.Chance(0.5) {
				s.fail = true
			} else {
				s.status = pick(r, []int{500, 503, 429, 404})
			}
		}
		return s
	}
	c := c16Case{op: pick(r, []string{"do", "do", "do", "do", "domain", "autnum", "ip", "lookup", "download"})}
	c.stale = r.Chance(0.25)
	c.boot = gen(0.97)
	if c.stale {
		c.boot = gen(0.6)
	}
	if r.Chance(0.6) && !c.stale {
		c.boot = slowServer{status: 200, headers: odd(500)}
	}
	if c.op == "do" && r.Chance(0.3) {
		c.explicit = true
	}
	for range r.Range(1, 5) {
		c.servers = append(c.servers, gen(0.4))
	}
	if c.op != "do" && c.op != "lookup" && c.op != "download" {
		return c
	}
	lim := func() time.Duration {
		if r.Chance(0.1) { // down to a nanosecond
			return time.Duration(1 + r.IntN(int(pick(r, []time.Duration{1, 1000, time.Millisecond, 10 * time.Millisecond, 900 * time.Millisecond}))))
		}
		return odd(40000)
	}
	for {
		k := r.IntN(7)
		if (k == 0 || k == 3) && c.op == "do" {
			c.timeout = lim()
		}
		if k == 1 || k == 3 || k == 4 {
			c.deadline = lim()
		}
		if k == 2 || k == 4 {
			c.cancel = lim()
		}
		if k == 5 && r.Chance(0.3) {
			c.cancel = -1
		}
		if k == 6 && r.Chance(0.3) {
			c.deadline = -1
		}
		if _, ok := c.limit(); ok {
			break
		}
	}
	if r.Chance(0.15) { // servers and limits that take hours
		by := time.Duration(pick(r, []int{10, 100, 1000}))
		slow := func(s *slowServer) {
			s.headers, s.chunk = max(s.headers*by, -1), max(s.chunk*by, -1)
		}
		slow(&c.boot)
		for i := range c.servers {
			slow(&c.servers[i])
		}
		c.timeout, c.deadline, c.cancel = c.timeout*by, max(c.deadline*by, -1), max(c.cancel*by, -1)
	}
	return c
}

func TestC16(t *testing.T) {
	monitor(t, "C16", "in virtual time (testing/synctest), requests, typed helpers, lookups and downloads against registry and RDAP servers that stall, trickle, fail or answer at random moments, limited by Request.Timeout, context deadline, the helpers' 30 s, cancellation, and combinations; the recorded return time, result and issue times of all HTTP requests are judged against the limit, and against an unlimited run when the limit is not reached. Plus real loopback and command line runs with stalled servers under generous bounds. Non-trivial: the limit interrupts the operation. Distinct by case.", 400, func(m *M) {
		r := NewRand(m.Seed, "C16")
		for i := range m.N(1500) {
			c := c16Gen(r)
			if i < 200 {
				// every stalling place with every limit
				st := []slowServer{{headers: -1, status: 200}, {chunks: 2, chunk: -1, status: 200}, {status: 500, headers: 7 * time.Second}, {fail: true, headers: 9 * time.Second}}[i%4]
				c.boot, c.servers = slowServer{status: 200}, []slowServer{st, st, st, st, st, st}
				if i%8 >= 4 {
					c.boot = slowServer{headers: -1, status: 200}
				}
			}
			c16One(m, t, i, c)
		}
		c16Real(m)
	})
}

func c16One(m *M, t *testing.T, i int, c c16Case) {
	kase := c.String()
	limit, ok := c.limit()
	lo, hi := c.natural(true), c.natural(false)
	if !ok {
		return
	}
	if lo-time.Millisecond < limit && limit < hi+time.Millisecond {
		return // too close to call, or it depends on reading bodies that need not be read
	}
	m.Begin("C16 " + kase)
	defer m.End()
	interrupted := lo > limit
	var res, free c16Result
	crashed := ""
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if p := recover(); p != nil {
				crashed = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}()
		res = c16Run(c, true)
	})
	if crashed != "" {
		m.Violate("panic", kase, "no panic", crashed)
		return
	}
	m.Saw(kase, interrupted)
	m.Sample(fmt.Sprintf("%s -> %v err=%v requests at %v", kase, res.elapsed, res.err, res.calls))
	m.Count("http_requests_observed", len(res.calls))
	m.Max("longest_virtual_ms", int(res.elapsed.Milliseconds()))
	if interrupted {
		m.Count("interrupted_"+c.op, 1)
		if c.stale {
			m.Count("interrupted_with_expired_registry", 1)
		}
		if res.elapsed > limit {
			m.Violate("the operation returned after its limit", kase, limit, res.elapsed)
		}
		if res.err == nil || res.object {
			m.Violate("an interrupted operation did not return an error", kase, "error", fmt.Sprintf("object=%v err=%v", res.object, res.err))
		}
		late := 0
		for _, at := range res.calls {
			if at >= limit {
				late++
			}
		}
		allowed := 0
		if limit == 0 {
			allowed = 1 // the very first request is what discovers that the context has already ended
		}
		if late > allowed {
			m.Violate("servers were contacted after the limit", kase, allowed, res.calls)
		}
		return
	}
	m.Count("finished_in_time", 1)
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if p := recover(); p != nil {
				crashed = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}()
		free = c16Run(c, false)
	})
	if crashed != "" {
		m.Violate("panic", kase, "no panic", crashed)
		return
	}
	if res.elapsed != free.elapsed || res.object != free.object || (res.err == nil) != (free.err == nil) || fmt.Sprint(res.calls) != fmt.Sprint(free.calls) {
		m.Violate("a limit that was not reached changed the result", kase, fmt.Sprintf("%+v", free), fmt.Sprintf("%+v", res))
	}
	if res.elapsed < lo || res.elapsed > hi {
		m.Violate("the operation did not take the time its servers took", kase, fmt.Sprint(lo, hi), res.elapsed)
	}
}

// stallServer accepts requests and then does nothing until released or the client goes away.
type stallServer struct {
	*httptest.Server
	mu       sync.Mutex
	hits     int
	release  chan struct{}
	headers  bool // send headers and half a body first
	released sync.Once
}

func newStallServer(headers bool) *stallServer {
	s := &stallServer{release: make(chan struct{}), headers: headers}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		s.mu.Lock()
		s.hits++
		s.mu.Unlock()
		if s.headers {
			w.Header().Set("Content-Length", "400")
			io.WriteString(w, `{"objectClassName":"domain",`)
			w.(http.Flusher).Flush()
		}
		select {
		case <-s.release:
		case <-req.Context().Done():
		}
	}))
	return s
}

func (s *stallServer) stop() {
	s.released.Do(func() { close(s.release) })
	s.Server.CloseClientConnections()
	s.Server.Close()
}

const realBound = 45 * time.Second

// c16Real: the real transport. Verdicts only on a generous bound: a stalled server never lets go by itself.
func c16Real(m *M) {
	run := func(kase string, bound time.Duration, f func() error, servers ...*stallServer) {
		m.Begin("C16 " + kase)
		defer m.End()
		type out struct{ err error }
		ch := make(chan out, 1)
		start := time.Now()
		go func() { ch <- out{f()} }()
		select {
		case o := <-ch:
			m.Saw(kase, true)
			m.Count("real_stalls", 1)
			m.Max("real_stall_ms", int(time.Since(start).Milliseconds()))
			if o.err == nil {
				m.Violate("an operation on a stalled server succeeded", kase, "error", nil)
			}
		case <-time.After(bound):
			buf := make([]byte, 1<<16)
			m.Violate("the operation did not return although its limit passed long ago", kase, bound.String(), string(buf[:runtime.Stack(buf, true)]))
			for _, s := range servers {
				s.stop()
			}
		}
	}
	for _, headers := range []bool{false, true} {
		a, b := newStallServer(headers), newStallServer(headers)
		urls := []string{a.URL + "/", b.URL + "/"}
		mk := func() *rdap.Client {
			boot := &script{fn: func(*http.Request) (*http.Response, error) {
				return httpResp(200, regDoc([]svc{{[]string{"example"}, urls}}, false, nil), nil), nil
			}}
			return &rdap.Client{HTTP: &http.Client{Transport: &http.Transport{}}, Bootstrap: &bootstrap.Client{HTTP: boot.client()}}
		}
		req := &rdap.Request{Type: rdap.DomainRequest, Query: "a.example"}
		run(fmt.Sprintf("real Timeout headers=%v", headers), realBound, func() error {
			r2 := *req
			r2.Timeout = 300 * time.Millisecond
			_, err := mk().Do(&r2)
			return err
		}, a, b)
		run(fmt.Sprintf("real deadline headers=%v", headers), realBound, func() error {
			ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
			defer cancel()
			_, err := mk().Do(req.WithContext(ctx))
			return err
		}, a, b)
		run(fmt.Sprintf("real cancel headers=%v", headers), realBound, func() error {
			ctx, cancel := context.WithCancel(context.Background())
			time.AfterFunc(300*time.Millisecond, cancel)
			_, err := mk().Do(req.WithContext(ctx))
			return err
		}, a, b)
		run(fmt.Sprintf("real bootstrap stall headers=%v", headers), realBound, func() error {
			c := &rdap.Client{Bootstrap: &bootstrap.Client{BaseURL: mustURL(a.URL + "/")}}
			r2 := *req
			r2.Timeout = 300 * time.Millisecond
			_, err := c.Do(&r2)
			return err
		}, a, b)
		for _, args := range [][]string{{"-T", "1", "-s", a.URL, "a.example"}, {"--timeout=1", "--cache-dir=", "--bs-url=" + a.URL + "/", "a.example"}} {
			run(fmt.Sprintf("real command line %q headers=%v", args[0], headers), realBound, func() error {
				var so, se bytes.Buffer
				if rc := rdap.RunCLI(args, &so, &se, rdap.CLIOptions{}); rc != 0 && strings.HasPrefix(se.String(), "# ") && so.Len() == 0 {
					return fmt.Errorf("exit %d", rc)
				}
				return nil
			}, a, b)
		}
		b.mu.Lock()
		if b.hits != 0 {
			m.Violate("the second server was contacted after the limit", "real", 0, b.hits)
		}
		b.mu.Unlock()
		a.stop()
		b.stop()
	}
}

// ---- C17

// libGoroutines lists goroutines that run or were started by the library.
func libGoroutines() []string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "verif/harness") && !strings.Contains(g, "created by github.com/openrdap/rdap") {
			continue
		}
		if strings.Contains(g, "github.com/openrdap/rdap") {
			out = append(out, g)
		}
	}
	return out
}

// settle polls f for up to 30 s until it reports true.
func settle(f func() bool) bool {
	d := time.Millisecond
	for start := time.Now(); time.Since(start) < 30*time.Second; {
		if f() {
			return true
		}
		time.Sleep(d)
		if d < 100*time.Millisecond {
			d *= 2
		}
	}
	return false
}

func ledger(srv *script) string {
	srv.mu.Lock()
	defer srv.mu.Unlock()
	for _, b := range srv.bodies {
		b.mu.Lock()
		c := b.closed
		b.mu.Unlock()
		if c == 0 {
			return fmt.Sprintf("body of %s (status %d, %d bytes read) was never closed", b.url, b.status, b.read)
		}
	}
	return ""
}

func TestC17(t *testing.T) {
	monitor(t, "C17", "a ledger of every response body handed to the library (opened, closed), over all pairs of server behaviours, registry failures, downloads, lookups, helpers, cancelled and timed-out requests; goroutine snapshots; and real loopback servers whose connection states (StateNew..StateClosed) are recorded while library calls and command line runs of every outcome execute. Non-trivial: a body or connection was opened. Distinct by case.", 250, func(m *M) {
		r := NewRand(m.Seed, "C17")
		all := append(c14Behaviours(), c14More()...)
		check := func(kase string, srv *script) {
			m.Saw(kase, len(srv.bodies) > 0)
			m.Count("bodies_tracked", len(srv.bodies))
			m.Sample(kase)
			if why := ledger(srv); why != "" {
				m.Violate("a response body was not closed", kase, "closed", why)
			}
		}
		for i, a := range all {
			for j, b := range all {
				if i >= 14 && j >= 14 && !m.Thorough {
					continue
				}
				kase := fmt.Sprintf("Do %s then %s", a.name, b.name)
				m.Try("C17 "+kase, func() {
					n := 0
					srv := &script{}
					k := bootKinds[(i+j)%len(bootKinds)]
					srv.fn = func(req *http.Request) (*http.Response, error) {
						if req.URL.Host == "boot.example" {
							return httpResp(200, regDoc([]svc{{[]string{k.entry}, []string{"https://s0.example/", "https://s1.example/"}}}, k.reg == bootstrap.ServiceProvider, nil), nil), nil
						}
						n++
						if n == 1 {
							return a.do()
						}
						return b.do()
					}
					c := &rdap.Client{HTTP: srv.client(), Bootstrap: &bootstrap.Client{HTTP: srv.client(), BaseURL: mustURL("https://boot.example/b/")}}
					_, _ = c.Do(&rdap.Request{Type: k.typ, Query: k.query})
					check(kase, srv)
				})
			}
			// as the registry server
			for _, reg := range allRegistries {
				for _, op := range []string{"Download", "Lookup", "helper"} {
					kase := fmt.Sprintf("%s of %v with registry answering %s", op, reg, a.name)
					m.Try("C17 "+kase, func() {
						srv := &script{fn: func(req *http.Request) (*http.Response, error) { return a.do() }}
						bc := &bootstrap.Client{HTTP: srv.client(), BaseURL: mustURL("https://boot.example/b/")}
						switch op {
						case "Download":
							_ = bc.Download(reg)
						case "Lookup":
							qs, _ := taggedQuestion(r, reg)
							_, _ = bc.Lookup(&bootstrap.Question{RegistryType: reg, Query: qs})
						default:
							c := &rdap.Client{HTTP: srv.client(), Bootstrap: bc}
							_, _ = c.QueryDomain("a.com")
							_, _ = c.QueryIP("10.0.0.1")
							_, _ = c.QueryAutnum("AS5")
						}
						check(kase, srv)
					})
				}
			}
		}
		for _, reg := range allRegistries {
			for _, fault := range []bool{false, true} {
				kase := fmt.Sprintf("good download of %v cache fault=%v", reg, fault)
				m.Try("C17 "+kase, func() {
					srv := &script{fn: func(req *http.Request) (*http.Response, error) {
						return httpResp(200, taggedDoc(reg, "t"), nil), nil
					}}
					bc := &bootstrap.Client{HTTP: srv.client()}
					if fault {
						bc = diskClient("/proc/nonexistent/dir", srv)
					}
					_ = bc.Download(reg)
					check(kase, srv)
				})
			}
		}
		// redirects, and cancelled or timed-out requests
		for i := range m.N(60) {
			kase := fmt.Sprintf("redirects/%d", i)
			m.Try("C17 "+kase, func() {
				hops, last := r.Range(1, 12), pick(r, all)
				n := 0
				srv := &script{}
				srv.fn = func(req *http.Request) (*http.Response, error) {
					n++
					if n <= hops {
						return httpResp(pick(r, []int{301, 302, 303, 307, 308}), []byte("moved"), map[string]string{"Location": fmt.Sprintf("/hop%d", n)}), nil
					}
					return last.do()
				}
				c := &rdap.Client{HTTP: srv.client()}
				_, _ = c.Do(&rdap.Request{Type: rdap.DomainRequest, Query: "a.example", Server: mustURL("https://s.example/")})
				check(kase+fmt.Sprint(hops, last.name), srv)
			})
		}
		c17Slow(m, t)
		if g := libGoroutines(); len(g) > 0 && !settle(func() bool { return len(libGoroutines()) == 0 }) {
			m.Violate("goroutines of the library are left", "after scripted operations", 0, strings.Join(libGoroutines(), "\n\n"))
		}
		c17Real(m, r)
		c17CLI(m, r)
	})
}

// c17Slow: the interrupted operations of C16, with the ledger.
func c17Slow(m *M, t *testing.T) {
	r := NewRand(m.Seed, "C17slow")
	for i := range m.N(200) {
		c := c16Gen(r)
		kase := fmt.Sprintf("slow/%d %s", i, c)
		m.Begin("C17 " + kase)
		var left, why string
		var bodies int
		synctest.Test(t, func(t *testing.T) {
			defer func() {
				if p := recover(); p != nil {
					left = fmt.Sprintf("panic %v", p)
				}
			}()
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			defer cancel()
			var srv *script
			srv, bodies = c17SlowDo(ctx, c)
			cancel()
			synctest.Wait()
			why = ledger(srv)
			if g := libGoroutines(); len(g) > 0 {
				left = strings.Join(g, "\n\n")
			}
		})
		m.End()
		m.Saw(kase, bodies > 0)
		m.Count("bodies_tracked", bodies)
		if why != "" {
			m.Violate("a response body was not closed", kase, "closed", why)
		}
		if left != "" {
			m.Violate("a goroutine of the library is left after the operation", kase, "none", left)
		}
	}
}

func c17SlowDo(ctx context.Context, c c16Case) (*script, int) {
	srv := &script{}
	next := 0
	srv.fn = func(req *http.Request) (*http.Response, error) {
		if req.URL.Host == "boot.example" {
			return c.boot.serve(req, regDoc([]svc{{[]string{"example"}, []string{"https://s0.example/", "https://s1.example/", "https://s2.example/"}}}, false, nil))
		}
		var s slowServer
		if next < len(c.servers) {
			s = c.servers[next]
			next++
		}
		return s.serve(req, []byte(okDoc("x")))
	}
	cl := &rdap.Client{HTTP: srv.client(), Bootstrap: &bootstrap.Client{HTTP: srv.client(), BaseURL: mustURL("https://boot.example/b/")}}
	req := &rdap.Request{Type: rdap.DomainRequest, Query: "a.example", Timeout: c.timeout}
	_, _ = cl.Do(req.WithContext(ctx))
	return srv, len(srv.bodies)
}

// connServer is a loopback server recording its connections.
type connServer struct {
	*httptest.Server
	mu    sync.Mutex
	open  map[net.Conn]http.ConnState
	total int
	hits  []string
	log   []*http.Request
	close chan struct{}
}

func newConnServer(tls bool, h func(s *connServer, w http.ResponseWriter, req *http.Request)) *connServer {
	s := &connServer{open: map[net.Conn]http.ConnState{}, close: make(chan struct{})}
	s.Server = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		s.mu.Lock()
		s.hits = append(s.hits, req.Method+" "+req.URL.RequestURI())
		s.log = append(s.log, req)
		s.mu.Unlock()
		h(s, w, req)
	}))
	s.Server.Config.ErrorLog = discardLog
	s.Server.Config.ConnState = func(c net.Conn, st http.ConnState) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if st == http.StateNew {
			s.total++
		}
		if st == http.StateClosed || st == http.StateHijacked {
			delete(s.open, c)
		} else {
			s.open[c] = st
		}
	}
	if tls {
		s.Server.StartTLS()
	} else {
		s.Server.Start()
	}
	return s
}

func (s *connServer) conns() (open, total int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.open), s.total
}

func (s *connServer) requests() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.hits...)
}

func (s *connServer) stop() {
	close(s.close)
	s.Server.CloseClientConnections()
	s.Server.Close()
}

// realReply makes a loopback server behave in the named way.
func realReply(s *connServer, w http.ResponseWriter, req *http.Request, how string, body []byte) {
	switch how {
	case "ok":
		w.Write(body)
	case "big":
		w.Write(append(bytes.Repeat([]byte(" "), 1<<20), body...))
	case "chunked":
		for _, p := range split(body, 5) {
			w.Write(p)
			w.(http.Flusher).Flush()
		}
	case "404":
		w.WriteHeader(404)
		w.Write(bytes.Repeat([]byte("x"), 100000))
	case "500":
		w.WriteHeader(500)
		w.Write(bytes.Repeat([]byte("x"), 100000))
	case "500empty":
		w.WriteHeader(500)
	case "empty":
	case "garbage":
		io.WriteString(w, "<html>no</html>")
	case "short":
		w.Header().Set("Content-Length", "5000")
		w.Write(body)
	case "hangup":
		if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
			c.Close()
		}
	case "redirect":
		if strings.HasSuffix(req.URL.Path, "/moved") {
			w.Write(body)
		} else {
			http.Redirect(w, req, req.URL.Path+"/moved", http.StatusFound)
		}
	case "stall":
		select {
		case <-s.close:
		case <-req.Context().Done():
		}
	case "stallbody":
		w.Header().Set("Content-Length", "5000")
		w.Write(body)
		w.(http.Flusher).Flush()
		select {
		case <-s.close:
		case <-req.Context().Done():
		}
	}
}

var realHows = []string{"ok", "big", "chunked", "404", "500", "500empty", "empty", "garbage", "short", "hangup", "redirect"}

// c17Real: library calls over a caller-owned transport leave only idle connections.
func c17Real(m *M, r *Rand) {
	bad := 0
	for i := range m.N(30) {
		if bad >= 2 {
			return
		}
		bootHow, how := "ok", realHows[i%len(realHows)]
		if i%3 == 2 {
			bootHow = pick(r, realHows)
		}
		var s *connServer
		s = newConnServer(false, func(s *connServer, w http.ResponseWriter, req *http.Request) {
			if strings.HasPrefix(req.URL.Path, "/boot/") {
				realReply(s, w, req, bootHow, regDoc([]svc{{[]string{"example"}, []string{"http://" + req.Host + "/a/", "http://" + req.Host + "/b/"}}}, false, nil))
				return
			}
			realReply(s, w, req, how, []byte(okDoc("x")))
		})
		kase := fmt.Sprintf("real Do registry=%s server=%s", bootHow, how)
		m.Try("C17 "+kase, func() {
			tr := &http.Transport{}
			hc := &http.Client{Transport: tr}
			c := &rdap.Client{HTTP: hc, Bootstrap: &bootstrap.Client{HTTP: hc, BaseURL: mustURL(s.URL + "/boot/")}}
			for range 3 {
				_, _ = c.Do(&rdap.Request{Type: rdap.DomainRequest, Query: "a.example"})
			}
			tr.CloseIdleConnections()
			ok := settle(func() bool { n, _ := s.conns(); return n == 0 })
			_, total := s.conns()
			m.Saw(fmt.Sprint(i, kase), total > 0)
			m.Count("connections_tracked", total)
			if !ok {
				m.Violate("connections are still in use after the operations returned", kase, 0, fmt.Sprint(s.conns()))
				bad++
			}
			if !settle(func() bool { return len(libGoroutines()) == 0 }) {
				m.Violate("goroutines of the library are left", kase, 0, strings.Join(libGoroutines(), "\n\n"))
			}
		})
		s.stop()
	}
}

// c17CLI: a command line run leaves no open connection at all.
func c17CLI(m *M, r *Rand) {
	hows := append(append([]string{}, realHows...), "stall", "stallbody")
	n := len(hows) * 3
	if m.Thorough {
		n *= 6
	}
	bad := 0
	for i := range n {
		if bad >= 2 {
			return
		}
		how := hows[i%len(hows)]
		mode := []string{"server", "boot", "tls"}[(i/len(hows))%3]
		bootHow := "ok"
		if mode == "boot" && i%4 == 0 {
			bootHow = pick(r, hows)
		}
		s := newConnServer(mode == "tls", func(s *connServer, w http.ResponseWriter, req *http.Request) {
			if strings.HasPrefix(req.URL.Path, "/boot/") {
				realReply(s, w, req, bootHow, regDoc([]svc{{[]string{"example"}, []string{"http://" + req.Host + "/a/", "http://" + req.Host + "/b/"}}}, false, nil))
				return
			}
			realReply(s, w, req, how, []byte(okDoc("x")))
		})
		args := []string{"-T", "60", "--cache-dir=", "-s", s.URL, "-t", "domain", "a.example"}
		switch mode {
		case "boot":
			args = []string{"-T", "60", "--cache-dir=", "--bs-url=" + s.URL + "/boot", "a.example"}
		case "tls":
			args = append(args, "-k")
		}
		if strings.HasPrefix(how, "stall") || strings.HasPrefix(bootHow, "stall") {
			args[1] = "1"
		}
		args = append(args, pick(r, [][]string{{}, {"-j"}, {"-r"}, {"-w"}, {"-v"}})...)
		kase := fmt.Sprintf("command line %s registry=%s server=%s", mode, bootHow, how)
		m.Try("C17 "+kase, func() {
			var so, se bytes.Buffer
			rc := rdap.RunCLI(args, &so, &se, rdap.CLIOptions{})
			ok := settle(func() bool { n, _ := s.conns(); return n == 0 })
			_, total := s.conns()
			m.Saw(fmt.Sprint(i, kase), total > 0)
			m.Count("connections_tracked", total)
			m.Count(fmt.Sprintf("cli_exit_%d", rc), 1)
			if !ok {
				bad++
				m.Violate("a command line run left an open connection", kase+fmt.Sprintf(" %q", args), 0, fmt.Sprint(s.conns()))
			}
			if !settle(func() bool { return len(libGoroutines()) == 0 }) {
				m.Violate("goroutines of the library are left", kase, 0, strings.Join(libGoroutines(), "\n\n"))
			}
		})
		s.stop()
	}
}
