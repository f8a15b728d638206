package harness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/openrdap/rdap/bootstrap"
)

// Slowed clients: a client process whose file system calls are all delayed looks up, downloads or refreshes while the
// harness stores a newer file at a random moment. Once both are done, the client must know about the newer file.

type slowArg struct {
	Dir   string
	Type  int
	Query string
	Op    string
}

type slowReply struct {
	URLs    []string
	Desc    string
	Fetches int
	Err     string
}

func init() {
	children["slowclient"] = func(arg []byte) any {
		var a slowArg
		_ = json.Unmarshal(arg, &a)
		t := bootstrap.RegistryType(a.Type)
		runtime.LockOSThread()
		up := true
		srv := &script{}
		srv.fn = func(*http.Request) (*http.Response, error) {
			if !up {
				return offline(nil)
			}
			return httpResp(200, taggedDoc(t, "mine"), nil), nil
		}
		c := diskClient(a.Dir, srv)
		in := bufio.NewReader(os.Stdin)
		look := func() (o slowReply) {
			n := srv.count()
			an, err := c.Lookup(&bootstrap.Question{RegistryType: t, Query: a.Query})
			if err != nil {
				o.Err = err.Error()
			} else {
				o.URLs = urlStrings(an.URLs)
			}
			o.Fetches = srv.count() - n
			return o
		}
		for {
			l, err := in.ReadString('\n')
			if err != nil {
				return nil
			}
			var o slowReply
			switch strings.TrimSpace(l) {
			case "ready":
			case "warm", "lookup":
				o = look()
			case "download":
				if err := c.Download(t); err != nil {
					o.Err = err.Error()
				}
			case "accessor":
				if f := accessor(c, t); f != nil {
					o.Desc = f.Description
				}
			case "check":
				up = false
				o = look()
				if f := accessor(c, t); f != nil {
					o.Desc = f.Description
				}
			}
			os.Stdout.Write(append(mustJSON(o), '\n'))
		}
	}
}

type slowResult struct {
	kase  string
	used  bool
	pv    []pendingViol
	outof string
}

func c08Slow(m *M, rounds int) {
	st, err := exec.LookPath("strace")
	if err != nil {
		m.Count("delay_injector_unusable", 1)
		return
	}
	res := make([]slowResult, rounds)
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range rounds {
		wg.Add(1)
		sem <- true
		base := scratchDir(m)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			defer os.RemoveAll(base)
			res[i] = c08SlowOne(NewRand(m.Seed, fmt.Sprintf("C08s/%d", i)), st, base, i)
		}()
	}
	wg.Wait()
	orders := map[string]bool{}
	for _, x := range res {
		if !x.used {
			m.Count("delay_injector_unusable", 1)
			continue
		}
		m.Count("slowed_clients", 1)
		orders[x.outof] = true
		m.Count("slowed_"+x.outof, 1)
		m.Saw(x.kase, true)
		m.flush(x.pv)
	}
}

func c08SlowOne(r *Rand, st, base string, i int) (res slowResult) {
	dir := filepath.Join(base, "c")
	t := pick(r, allRegistries)
	op := []string{"lookup", "download", "lookup", "download", "accessor"}[i%5]
	prior := op != "download" || r.Chance(0.5)
	warm := prior && r.Chance(0.4)
	first := &script{fn: serveTag(t, "first")}
	if err := diskClient(dir, first).Download(t); err != nil {
		res.pv = append(res.pv, pendingViol{"download failed", i, "success", err.Error()})
		res.used = true
		return
	}
	p := cacheFile(dir, taggedDoc(t, "first"))
	age := func(p string, d time.Duration) {
		ft := time.Now().Add(d)
		if err := os.Chtimes(p, ft, ft); err != nil {
			panic(err)
		}
	}
	age(p, -2*time.Hour)
	if !prior {
		_ = os.Remove(p)
	}
	qt, qn := taggedQuestion(r, t)
	delay := pick(r, []int{8000, 15000, 25000})
	c := childCmd("slowclient", slowArg{dir, int(t), qt, op})
	sys := "openat,open,newfstatat,fstat,statx,read,pread64,write,pwrite64,close,rename,renameat,renameat2,unlinkat,link,linkat,mkdirat,fsync,utimensat,fchmod"
	have := []string{}
	for _, s := range strings.Split(sys, ",") {
		have = append(have, "?"+s)
	}
	sys = strings.Join(have, ",")
	trace := filepath.Join(base, "trace")
	c.Args = []string{st, "-f", "-qq", "-ttt", "-y", "-o", trace, "-e", "trace=" + sys, "-e", fmt.Sprintf("inject=%s:delay_enter=%d", sys, delay), c.Path}
	c.Path = st
	in, err := c.StdinPipe()
	if err != nil {
		panic(err)
	}
	so, err := c.StdoutPipe()
	if err != nil {
		panic(err)
	}
	var se bytes.Buffer
	c.Stderr = &se
	if err := c.Start(); err != nil {
		return
	}
	stuck := time.AfterFunc(60*time.Second, func() { _ = c.Process.Kill() })
	defer stuck.Stop()
	defer func() { in.Close(); _ = c.Wait() }()
	rd := bufio.NewReader(so)
	ask := func(cmd string) (o slowReply, ok bool) {
		if _, err := in.Write([]byte(cmd + "\n")); err != nil {
			return o, false
		}
		l, err := rd.ReadString('\n')
		if err != nil || json.Unmarshal([]byte(l), &o) != nil {
			return o, false
		}
		return o, true
	}
	if _, ok := ask("ready"); !ok {
		return
	}
	if warm {
		o, ok := ask("warm")
		if !ok || o.Err != "" || !eqStrings(o.URLs, taggedURLs(t, "first", qn)) {
			res.used = ok
			res.pv = append(res.pv, pendingViol{"a lookup of a cached file by a slowed client", i, taggedURLs(t, "first", qn), o})
			return
		}
		// somebody stores another version, which the slowed client goes on to pick up
		b := filepath.Join(base, "second")
		_ = os.WriteFile(b, taggedDoc(t, "second"), 0o600)
		age(b, -time.Hour)
		_ = os.Rename(b, p)
	}
	// the newer file, stored in one step at a random moment of the client's operation
	nf := filepath.Join(base, "newer")
	_ = os.WriteFile(nf, taggedDoc(t, "newer"), 0o600)
	age(nf, 10*time.Minute)
	span := time.Duration(delay) * time.Microsecond * 12
	at := time.Duration(r.IntN(int(span)))
	done := make(chan time.Time, 1)
	start := time.Now()
	go func() {
		time.Sleep(at)
		_ = os.Rename(nf, p)
		done <- time.Now()
	}()
	o, ok := ask(op)
	end := time.Now()
	stored := <-done
	res.kase = fmt.Sprintf("slowed client %d: type=%s op=%s cached before=%v in memory before=%v; each file system call delayed %d us; newer file stored %d ms after the start of the operation, which took %d ms", i, t, op, prior, warm, delay, at.Milliseconds(), end.Sub(start).Milliseconds())
	bad := func(what string, exp, got any) { res.pv = append(res.pv, pendingViol{what, res.kase, exp, got}) }
	res.used = true
	res.outof = "store_during_" + op
	if stored.After(end) {
		res.outof = "store_after_" + op
	}
	if !ok {
		bad("a client died", "reply", se.String())
		return
	}
	versions := []string{"first", "second", "newer", "mine"}
	isOne := func(o slowReply) bool {
		for _, v := range versions {
			if eqStrings(o.URLs, taggedURLs(t, v, qn)) {
				return true
			}
		}
		return false
	}
	if op == "lookup" && (o.Err != "" || !isOne(o)) || op == "download" && o.Err != "" {
		bad("the operation of a slowed client failed", "success", o)
		return
	}
	disk, _ := os.ReadFile(p)
	want := ""
	for _, v := range versions {
		if bytes.Equal(disk, taggedDoc(t, v)) {
			want = v
		}
	}
	if want == "" {
		bad("the cache file is not one complete version", versions, string(disk))
		return
	}
	// In the end the file there is the newest one or the client's own, so the client must use it.
	f, ok := ask("check")
	if !ok {
		bad("a client died", "reply", se.String())
		return
	}
	if f.Err != "" || f.Fetches != 0 || !eqStrings(f.URLs, taggedURLs(t, want, qn)) || f.Desc != want {
		bad("a client does not use the newer file stored by another client", want, f)
	}
	return
}
