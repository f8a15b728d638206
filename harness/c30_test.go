package harness

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"time"

	"github.com/openrdap/rdap"
)

// runBin runs the real command.
func runBin(args ...string) (cliResult, error) { return runBinEnv(nil, args...) }

func runBinEnv(env []string, args ...string) (cliResult, error) {
	c := exec.Command(os.Getenv("VERIF_BIN"), args...)
	c.Env = append(os.Environ(), env...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		return cliResult{}, err
	}
	tm := time.AfterFunc(120*time.Second, func() { _ = c.Process.Kill() })
	err := c.Wait()
	tm.Stop()
	res := cliResult{c.ProcessState.ExitCode(), so.String(), se.String()}
	if _, ok := err.(*exec.ExitError); ok {
		err = nil
	}
	return res, err
}

// cliCase is a command line with a known outcome.
type cliCase struct {
	name  string
	args  []string
	sand  bool
	ok    bool
	reply func(r netReq) netReply // nil: nothing answers
	noVar bool                    // no extra flags
	bin   bool                    // always with the real command
}

type cliFiles struct {
	dir, file, dirIsFile, dangling, badPEM, argsFile, cert, key, otherKey string
}

func newCLIFiles(m *M) cliFiles {
	d := scratchDir(m)
	f := cliFiles{dir: d, file: filepath.Join(d, "plain"), badPEM: filepath.Join(d, "bad.pem"), argsFile: filepath.Join(d, "args"),
		cert: filepath.Join(d, "c.pem"), key: filepath.Join(d, "c.key"), otherKey: filepath.Join(d, "o.key")}
	f.dirIsFile = filepath.Join(f.file, "sub")
	f.dangling = filepath.Join(f.dir, "dangling")
	if err := os.Symlink(filepath.Join(f.dir, "gone", "away"), f.dangling); err != nil {
		panic(err)
	}
	ca := newCertAuth("client CA")
	a, b := ca.issue("client-a", -time.Hour, time.Hour), ca.issue("client-b", -time.Hour, time.Hour)
	for p, data := range map[string][]byte{f.file: []byte("hello\n"), f.badPEM: []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"), f.argsFile: []byte("# comment\n--type\ndomain\n"),
		f.cert: certPEM(a), f.key: keyPEM(a), f.otherKey: keyPEM(b)} {
		if err := os.WriteFile(p, data, 0o600); err != nil {
			panic(err)
		}
	}
	return f
}

func okReply(body string) netReply { return netReply{status: 200, body: []byte(body)} }

// bootWorld answers bootstrap files beneath http://boot.example/b/ and RDAP servers http://s0.example/, s1, ...
func bootWorld(nServers int, rdapReply func(k int, r netReq) netReply) func(r netReq) netReply {
	return func(r netReq) netReply {
		if f, ok := strings.CutPrefix(r.url, "http://boot.example/b/"); ok {
			var urls []string
			for k := range nServers {
				urls = append(urls, fmt.Sprintf("http://s%d.example/", k))
			}
			for _, e := range []struct{ f, entry string }{{"dns.json", "example"}, {"ipv4.json", "10.0.0.0/8"}, {"ipv6.json", "2001:db8::/32"}, {"asn.json", "1-100"}, {"object-tags.json", "VRSN"}} {
				if e.f == f {
					return netReply{status: 200, body: regDoc([]svc{{[]string{e.entry}, urls}}, f == "object-tags.json", nil)}
				}
			}
			return netReply{status: 404}
		}
		var k int
		if _, err := fmt.Sscanf(r.url, "http://s%d.example/", &k); err == nil {
			return rdapReply(k, r)
		}
		return netReply{status: 404}
	}
}

var failReplies = []netReply{
	{status: 500}, {status: 403, body: []byte(`{"errorCode":403}`)}, {status: 0}, {status: 200}, {status: 200, body: []byte("<html>")}, {status: 200, body: []byte(`[1]`)},
	{status: 200, body: []byte(`{"objectClassName":"x"}`)}, {status: 200, body: []byte(`{"objectClassName":"domain"`)}, {status: 204}, {status: 503, body: []byte(`{"objectClassName":"domain"}`)},
}

func c30Cases(r *Rand, f cliFiles) []cliCase {
	boot := []string{"--cache-dir=", "--bs-url=http://boot.example/b"}
	w := func(more ...string) []string { return append(append([]string{}, boot...), more...) }
	srv := func(more ...string) []string {
		return append([]string{"--cache-dir=", "-s", "http://s0.example/"}, more...)
	}
	doc := okDoc("c30")
	all := func(k int, _ netReq) netReply { return okReply(doc) }
	var out []cliCase
	add := func(name string, ok bool, reply func(netReq) netReply, args ...string) {
		out = append(out, cliCase{name: name, args: args, ok: ok, reply: reply})
	}
	// successes
	for _, q := range []string{"a.example", "10.1.2.3", "10.0.0.0/9", "2001:db8::1", "AS5", "as5", "5", "x-VRSN"} {
		add("bootstrapped "+q, true, bootWorld(2, all), w(q)...)
	}
	for n := 1; n <= 4; n++ {
		fails := r.IntN(n)
		rep := pick(r, failReplies)
		add(fmt.Sprintf("%d of %d servers fail", fails, n), true, bootWorld(n, func(k int, _ netReq) netReply {
			if k < fails {
				return rep
			}
			return okReply(doc)
		}), w("a.example")...)
	}
	for _, t := range []string{"domain", "dns", "nameserver", "ns", "entity", "domain-search", "domain-search-by-nameserver", "domain-search-by-nameserver-ip", "nameserver-search", "nameserver-search-by-ip", "entity-search", "entity-search-by-handle", "autnum-search"} {
		add("type "+t, true, bootWorld(1, all), srv("-t", t, "some.text")...)
	}
	add("type help", true, bootWorld(1, all), srv("-t", "help")...)
	for _, t := range []string{"autnum", "as", "asn"} {
		add("type "+t, true, bootWorld(1, all), srv("-t", t, pick(r, []string{"5", "AS5", "as4294967295", "0"}))...)
	}
	add("type ip", true, bootWorld(1, all), srv("-t", "ip", pick(r, []string{"192.0.2.1", "2001:db8::1", "::ffff:1.2.3.4"}))...)
	add("raw URL", true, bootWorld(1, all), "--cache-dir=", "http://s0.example/domain/x.example?y=z")
	add("url type", true, bootWorld(1, all), "--cache-dir=", "-t", "url", "http://s0.example/anything")
	add("client certificate", true, bootWorld(1, all), srv("--cert="+f.cert, "-K", f.key, "x.example")...)
	add("argument file", true, bootWorld(1, all), srv("@"+f.argsFile, "x.example")...)
	add("argument file beside another experiment", true, bootWorld(1, all), srv(append(pick(r, [][]string{{"--exp", "object_tag"}, {"--exp=object_tag"}, {"--exp", "test_rdap_net"}, {"-e"}, {"--exp=object_tag", "--exp", "test_rdap_net"}}), "@"+f.argsFile, "x.example")...)...)
	add("new cache dir", true, bootWorld(1, all), "--bs-url=http://boot.example/b", "--cache-dir="+filepath.Join(f.dir, fmt.Sprint("cache", r.IntN(1000000)), "deep"), "a.example")
	add("search results", true, bootWorld(1, func(int, netReq) netReply { return okReply(`{"domainSearchResults":[]}`) }), srv("-t", "domain-search", "x*")...)
	add("help object", true, bootWorld(1, func(int, netReq) netReply { return okReply(`{"notices":[]}`) }), srv("-t", "help")...)
	add("redirect", true, bootWorld(1, func(k int, q netReq) netReply {
		if strings.HasSuffix(q.url, "/moved") {
			return okReply(doc)
		}
		return netReply{status: 302, header: map[string]string{"Location": "http://s0.example/moved"}}
	}), srv("x.example")...)

	// failures
	for _, a := range [][]string{{"--nosuch"}, {"-Z"}, {"--timeout=abc"}, {"--timeout=70000"}, {"--timeout=-1"}, {"-T"}, {"--bs-ttl=x"}, {"--bs-ttl=4294967296"}, {"--type"}, {"-s"}, {"--cache-dir"}, {"--raw=maybe=x", "--type"}, {"--exp=nosuch"}, {"--exp="},
		{"--type=nosuch"}, {"--type=Domain"}, {"--type=raw"}, {"-t", "domains"}, {"--text", "--text"}, {"-t", "domain", "-t", "ip"}} {
		if a[0] == "--raw=maybe=x" || a[0] == "--text" || (len(a) == 4) {
			continue // left open: repeated flags and values of switches
		}
		args := append(w("a.example"), a...)
		out = append(out, cliCase{name: "bad arguments", args: args, ok: false, reply: bootWorld(1, all), noVar: true})
	}
	out = append(out, cliCase{name: "no query", args: w(), reply: bootWorld(1, all)}, cliCase{name: "nothing at all", args: nil, reply: bootWorld(1, all)})
	for _, q := range []string{"x", "", "AS", "-1", "4294967296", "AS4294967296", "1.2", "ASAS5", "5x", "0x5", "+5", " 5"} {
		if q == "-1" {
			continue
		}
		add("bad AS number "+q, false, bootWorld(1, all), srv("-t", "asn", q)...)
	}
	for _, q := range []string{"x", "", "1.2.3", "256.1.1.1", "10.0.0.0/8", "2001:db8::/32", "fe80::1%eth0", "1.2.3.4:80", "[::1]", "::g", "a.example"} {
		add("bad IP "+q, false, bootWorld(1, all), srv("-t", "ip", q)...)
	}
	for _, q := range []string{"http://s0.example/%zz", "http://[::1/x", ":bad", "http://s0.example:port/"} {
		add("bad URL "+q, false, bootWorld(1, all), "--cache-dir=", "-t", "url", q)
	}
	add("server with a URL", false, bootWorld(1, all), srv("http://s0.example/domain/x")...)
	add("server with url type", false, bootWorld(1, all), srv("-t", "url", "http://s0.example/domain/x")...)
	add("bad server", false, bootWorld(1, all), "--cache-dir=", "-s", pick(r, []string{"http://%zz", "http://[::1", ":x", "http://a b/"}), "a.example")
	add("bad bootstrap URL", false, bootWorld(1, all), "--cache-dir=", "--bs-url="+pick(r, []string{"http://%zz", "http://[::1", ":x"}), "a.example")
	for _, t := range []string{"help", "nameserver", "domain-search", "entity-search", "autnum-search"} {
		add("no server for "+t, false, bootWorld(1, all), w("-t", t, "x.example")...)
	}
	add("no match", false, bootWorld(1, all), w(pick(r, []string{"a.nosuch", "11.1.1.1", "2001:db9::1", "AS5000", "x-NOSUCH", "noseparator"}))...)
	add("empty server list", false, bootWorld(0, all), w("a.example")...)
	for _, rep := range failReplies {
		add(fmt.Sprintf("server fails %d %s", rep.status, rep.body), false, bootWorld(r.Range(1, 3), func(int, netReq) netReply { return rep }), w("a.example")...)
		add(fmt.Sprintf("given server fails %d %s", rep.status, rep.body), false, bootWorld(1, func(int, netReq) netReply { return rep }), srv("a.example")...)
		add(fmt.Sprintf("registry fails %d %s", rep.status, rep.body), false, func(q netReq) netReply {
			if strings.HasPrefix(q.url, "http://boot.example/") {
				return rep
			}
			return okReply(doc)
		}, w("a.example")...)
	}
	// every failure of a server, for queries of every type
	for i, t := range []string{"domain", "nameserver", "entity", "domain-search", "domain-search-by-nameserver", "domain-search-by-nameserver-ip", "nameserver-search", "nameserver-search-by-ip", "entity-search", "entity-search-by-handle", "autnum-search", "help", "ip", "autnum", "url", ""} {
		for k, rep := range append([]netReply{{status: 404}, {status: 404, body: []byte(`{"errorCode":404,"title":"x"}`)}}, failReplies...) {
			if k > 1 && (i+k)%3 != r.IntN(3) {
				continue
			}
			text := pick(r, []string{"x.example", "some.text", "a.b.example"})
			a := srv()
			switch t {
			case "ip":
				text = pick(r, []string{"192.0.2.1", "2001:db8::1"})
			case "autnum":
				text = pick(r, []string{"5", "AS64512"})
			case "url":
				text, a = "http://s0.example/x/y", []string{"--cache-dir="}
			case "":
				text = pick(r, []string{"x.example", "192.0.2.1", "AS5", "10.0.0.0/8", "HANDLE", "2001:db8::/32"})
			}
			if t != "" {
				a = append(a, "-t", t)
			}
			add(fmt.Sprintf("type %q fails %d %s", t, rep.status, rep.body), false, bootWorld(1, func(int, netReq) netReply { return rep }), append(a, text)...)
		}
	}
	add("not found", false, bootWorld(2, func(int, netReq) netReply {
		return netReply{status: 404, body: []byte(`{"errorCode":404,"title":"no such object"}`)}
	}), w("a.example")...)
	add("not found after failures", false, bootWorld(2, func(k int, _ netReq) netReply {
		if k == 0 {
			return netReply{status: 500}
		}
		return netReply{status: 404}
	}), w("a.example")...)
	add("no time", false, bootWorld(1, all), w("-T", "0", "a.example")...)
	add("redirect loop", false, bootWorld(1, func(_ int, q netReq) netReply {
		return netReply{status: 302, header: map[string]string{"Location": q.url}}
	}), srv("x.example")...)
	// unusable files
	add("cache dir beneath a file", false, bootWorld(1, all), "--bs-url=http://boot.example/b", "--cache-dir="+f.dirIsFile, "a.example")
	for _, d := range []string{f.dirIsFile, f.file, f.cert + "/x/y", "/dev/null/x", f.dangling, "/proc/nosuch/x"} { // whether or not the cache would have been used
		add("unusable cache dir", false, bootWorld(1, all), "--cache-dir="+d, "-s", "http://s0.example/", "a.example")
		add("unusable cache dir", false, bootWorld(1, all), "--cache-dir="+d, "http://s0.example/domain/a.example")
		add("unusable cache dir", false, bootWorld(1, all), "--cache-dir="+d, "-s", "http://s0.example/", "-t", "help")
	}
	out = append(out, cliCase{name: "missing argument file", args: w("@"+filepath.Join(f.dir, "nosuch"), "a.example"), reply: bootWorld(1, all), noVar: true})
	for _, a := range [][]string{{"--cert=" + f.cert}, {"--key=" + f.key}, {"-C", filepath.Join(f.dir, "nosuch"), "-K", f.key}, {"-C", f.cert, "-K", filepath.Join(f.dir, "nosuch")}, {"-C", f.cert, "-K", f.otherKey},
		{"-C", f.badPEM, "-K", f.key}, {"-C", f.cert, "-K", f.cert}, {"-C", f.cert, "-K", f.key, "-P", f.file}, {"-C", f.cert, "-P", f.file}, {"-P", filepath.Join(f.dir, "nosuch")}, {"-P", f.file}, {"-P", f.file + ":pw"}, {"-P", f.dir}, {"-P", f.cert}, {"-P", ":pw"}} {
		add("bad client certificate options", false, bootWorld(1, all), append(srv("x.example"), a...)...)
	}
	for _, p := range []string{"nosuch.p12", "DigiCert_RDAP_Pilot_Client_Certificate.p12", "DigiCert_RDAP_Pilot_Client_Certificate.p12:wrong", "../sandbox/DigiCert_RDAP_Pilot_Client_Certificate.p12", f.cert, "/" + "DigiCert_RDAP_Pilot_Client_Certificate.p12", ""} {
		if p == "" {
			continue
		}
		out = append(out, cliCase{name: "bad sandbox certificate", args: srv("x.example", "-P", p), sand: true, reply: bootWorld(1, all)},
			cliCase{name: "bad sandbox certificate", args: srv("x.example", "-P", p, "--exp=sandbox"), reply: bootWorld(1, all)},
			cliCase{name: "bad sandbox certificate", args: srv("x.example", "-P", p, "--exp=sandbox"), reply: bootWorld(1, all), bin: true})
	}
	return out
}

func firstLine(s string) string { l, _, _ := strings.Cut(s, "\n"); return l }

func TestC30(t *testing.T) {
	monitor(t, "C30", "a command line run (in process, or the real command) whose exit status and streams were checked; non-trivial: all but plain successes", 1200, func(m *M) {
		m.Assume("shell completion requests are not judged beyond not crashing; a failing write reports its error")
		w := newNetWorld(m)
		defer w.stop()
		f := newCLIFiles(m)
		version := c30Version(m)
		c30Help(m, w)
		c30Unwritable(m, w)
		for i := range m.N(6) {
			r := NewRand(m.Seed, fmt.Sprintf("C30/%d", i))
			for k, c := range c30Cases(r, f) {
				c30One(m, w, r, c, c.bin || (i+k)%9 == 0)
			}
		}
		for i := range m.N(1500) {
			c30Fuzz(m, w, NewRand(m.Seed, fmt.Sprintf("C30f/%d", i)), f, version)
		}
	})
}

func c30Version(m *M) string {
	var v string
	for _, a := range [][]string{{"--version"}, {"-V"}, {"--version", "-t", "nosuch"}, {"-V", "a.example"}} {
		m.Try(fmt.Sprintf("%q", a), func() {
			res := runCLI(false, a...)
			if res.rc != 0 || strings.TrimSpace(res.stdout) == "" {
				m.Violate("asking for the version did not print it and exit 0", fmt.Sprintf("%q", a), nil, fmt.Sprintf("%+v", res))
			}
			v = res.stdout
			m.Saw(fmt.Sprint(a), true)
		})
	}
	if os.Getenv("VERIF_BIN") != "" {
		if res, err := runBin("--version"); err != nil || res.rc != 0 || res.stdout != v || res.err != "" {
			m.Violate("the command's --version differs", nil, v, fmt.Sprintf("%+v %v", res, err))
		}
	}
	return v
}

// brokenWriter takes |room| bytes, then fails: for good, or just once.
type brokenWriter struct {
	got    bytes.Buffer
	room   int
	once   bool
	failed bool
}

func (b *brokenWriter) Write(p []byte) (int, error) {
	if b.once && b.failed || len(p) <= b.room {
		b.room -= len(p)
		return b.got.Write(p)
	}
	n := max(b.room, 0)
	b.got.Write(p[:n])
	b.room, b.failed = 0, true
	return n, fmt.Errorf("no space left on device")
}

// c30Unwritable: results that cannot be written are a failure.
func c30Unwritable(m *M, w *netWorld) {
	r := NewRand(m.Seed, "C30u")
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err == nil {
		defer full.Close()
	}
	docs := []string{`{"objectClassName":"domain","ldhName":"a.example","status":["active"],"events":[{"eventAction":"registration","eventDate":"2001-02-03T04:05:06Z"}]}`, fmt.Sprintf(`{"objectClassName":"domain","ldhName":"a.example","handle":%q,"remarks":[{"title":"t","description":[%q,"end"]}]}`, strings.Repeat("h", 5000), strings.Repeat("long ", 20000))}
	srv := []string{"--cache-dir=", "-s", "http://s0.example/", "a.example"}
	for _, doc := range docs {
		for _, a := range [][]string{srv, append([]string{"--text"}, srv...), append([]string{"--raw"}, srv...), append([]string{"-j"}, srv...), append([]string{"-w"}, srv...), append([]string{"-v", "-w"}, srv...),
			append([]string{"-jrw", "--text"}, srv...), append([]string{"-v", "--raw", "-w"}, srv...), {"--version"}, {"-V", "a.example"}} {
			w.set(bootWorld(1, func(int, netReq) netReply { return okReply(doc) }))
			good := runCLI(false, append([]string{}, a...)...)
			size := len(good.stdout)
			if good.rc != 0 || size == 0 {
				m.Violate("a query that succeeds did not print its result and exit 0", fmt.Sprintf("%q", a), 0, fmt.Sprintf("%+v", good))
				continue
			}
			for i, room := range []int{0, 1, size / 2, size - 1, r.IntN(size), r.IntN(size), size, size + 10} {
				for _, once := range []bool{false, true} {
					kase := fmt.Sprintf("%q with room for %d of %d bytes, failing once %v", a, room, size, once)
					m.Try(kase, func() {
						out := &brokenWriter{room: room, once: once}
						var se bytes.Buffer
						rc := rdap.RunCLI(append([]string{}, a...), out, &se, rdap.CLIOptions{Sandbox: i%2 == 0})
						m.Saw(kase, true)
						m.Count("runs with an unwritable standard output", 1)
						switch {
						case !out.failed && out.got.String() != good.stdout:
							m.Violate("the same query printed something else", kase, good.stdout, out.got.String())
						case !out.failed && rc != 0:
							m.Violate("a query that succeeds did not exit 0", kase, 0, fmt.Sprintf("%d %s", rc, se.String()))
						case out.failed && rc != 1:
							m.Violate("a run whose results could not be written did not exit 1", kase, 1, fmt.Sprintf("%d %s", rc, se.String()))
						case out.failed && !errorShown(se.String()):
							m.Violate("a failing run printed no '#'-prefixed error", kase, "# ...", se.String())
						}
					})
				}
			}
			if full == nil {
				continue
			}
			kase := fmt.Sprintf("%q > /dev/full", a)
			m.Try(kase, func() {
				c := exec.Command(os.Getenv("VERIF_BIN"), a...)
				var se bytes.Buffer
				c.Stdout, c.Stderr = full, &se
				_ = c.Run()
				m.Saw(kase, true)
				m.Count("runs of the real command", 1)
				if rc := c.ProcessState.ExitCode(); rc != 1 || !errorShown(se.String()) {
					m.Violate("a run whose results could not be written did not exit 1 with a '#'-prefixed error", kase, 1, fmt.Sprintf("%d %s", rc, se.String()))
				}
			})
		}
	}
}

// c30Help: asking for help prints it and exits 1.
func c30Help(m *M, w *netWorld) {
	w.set(bootWorld(1, func(int, netReq) netReply { return okReply(okDoc("help")) }))
	for i, a := range [][]string{{"-h"}, {"--help"}, {"-h", "a.example"}, {"a.example", "--help"}, {"--help", "--raw"}, {"-vh"}, {"--help", "-t", "help"}, {"-s", "http://s0.example/", "-t", "help", "--help"}, {"--cache-dir=", "-j", "-h", "AS5"}, {"-T", "20", "-h", "-s", "http://s0.example/", "a.example"}, {"-s", "http://s0.example/", "-T", "20", "--cache-dir=", "-t", "domain", "a.example", "--help"}, {"--timeout=20", "--cache-dir=", "--bs-url=http://boot.example/b", "--bs-ttl=60", "a.example", "-h"}, {"--completion-script-bash"}, {"--completion-script-zsh"}} {
		for _, bin := range []bool{false, true} {
			if bin && i > 3 {
				continue
			}
			kase := fmt.Sprintf("%q binary %v", a, bin)
			m.Try(kase, func() {
				var res cliResult
				if bin {
					res, _ = runBin(a...)
				} else {
					res = runCLI(i%2 == 0, append([]string{}, a...)...)
				}
				m.Saw(kase, true)
				m.Count("help", 1)
				if us := w.urls(); len(us) > 0 {
					m.Violate("asking for help ran the query", kase, "no request", us)
				}
				// Completions go to the process's own stdout.
				if printed := res.stdout + res.err; res.rc != 1 || !strings.Contains(a[0], "completion") && (!strings.Contains(strings.ToLower(printed), "usage:") || !strings.Contains(printed, "--timeout") || strings.Contains(res.err, "# Error")) {
					m.Violate("asking for help did not print it and exit 1", kase, 1, fmt.Sprintf("%+v", res))
				}
			})
		}
	}
}

func c30One(m *M, w *netWorld, r *Rand, c cliCase, bin bool) {
	args := append([]string{}, c.args...)
	if !c.noVar {
		args = append(args, pick(r, [][]string{{}, {}, {"-j"}, {"--raw"}, {"--text"}, {"-w"}, {"-jrw", "--text"}, {"--json", "--raw"}, {"-k"}, {"-f", "all"}, {"--bs-ttl=5"}})...)
	}
	kase := fmt.Sprintf("%s: %q sandbox %v binary %v", c.name, args, c.sand, bin)
	run := func(verbose bool) cliResult {
		a := args
		if verbose {
			a = append([]string{pick(r, []string{"-v", "--verbose"})}, args...)
		}
		w.set(c.reply)
		if bin && !c.sand {
			res, err := runBin(a...)
			if err != nil {
				m.Violate("the command could not be run", kase, nil, err.Error())
			}
			m.Count("runs of the real command", 1)
			return res
		}
		return runCLI(c.sand, append([]string{}, a...)...)
	}
	m.Try(kase, func() {
		res := run(false)
		verb := run(true)
		m.Saw(kase, !c.ok || len(w.seen()) > 2)
		m.Count(fmt.Sprintf("exit %d", res.rc), 1)
		whoisOnly := false
		for _, a := range args {
			whoisOnly = whoisOnly || a == "-w"
		}
		show := func(x cliResult) string { return fmt.Sprintf("%+v", x) }
		switch {
		case c.ok && res.rc != 0:
			m.Violate("a query that succeeds did not exit 0", kase, 0, show(res))
		case c.ok && res.stdout == "" && !whoisOnly:
			m.Violate("a successful run printed no result", kase, nil, show(res))
		case !c.ok && res.rc != 1:
			m.Violate("a failing run did not exit 1", kase, 1, show(res))
		case !c.ok && res.stdout != "":
			m.Violate("a failing run wrote to standard output", kase, "", show(res))
		case !c.ok && !strings.HasPrefix(res.err, "# "):
			m.Violate("a failing run printed no '#'-prefixed error", kase, "# ...", show(res))
		case verb.rc != res.rc:
			m.Violate("the verbose option changed the exit status", kase, show(res), show(verb))
		case verb.stdout != res.stdout:
			m.Violate("the verbose option changed standard output", kase, show(res), show(verb))
		case !c.ok && !strings.Contains(verb.err, firstLine(res.err)) && !strings.Contains(res.err, "127.0.0.1"):
			m.Violate("the verbose option hides the error", kase, show(res), show(verb))
		case !c.noVar && len(verb.err) <= len(res.err):
			m.Violate("the verbose option printed nothing", kase, show(res), show(verb))
		}
	})
	m.Sample(kase)
}

// c30Fuzz runs arbitrary argument lists.
func c30Fuzz(m *M, w *netWorld, r *Rand, f cliFiles, version string) {
	paths := []string{f.file, f.dirIsFile, f.cert, f.key, f.badPEM, filepath.Join(f.dir, "nosuch"), f.dir, "default", "", ":", "x:y"}
	urls := []string{"http://s0.example/", "http://s0.example", "https://s1.example/r", "//s0.example/", "s0.example", "http://%zz", "", "ftp://s0.example/", "file:///etc/passwd", "http://", "http://[::1", "http://boot.example/b", "http://\x7f", "mailto:x"}
	queries := []string{"a.example", "x.nosuch", "10.1.2.3", "AS5", "5", "x-VRSN", "http://s0.example/d/x", "https://s0.example/", "", "-", "--", "@", "@" + f.argsFile, "@" + f.file, "@/nosuch", "a b", "\x00", "\xff", "%zz", "h\u00e9", "*", strings.Repeat("a", 300), strings.Repeat("a.", 200), "10.0.0.0/8", "::1", "help", "\n# x"}
	types := []string{"", "domain", "dns", "ip", "as", "asn", "autnum", "ns", "nameserver", "entity", "help", "url", "domain-search", "entity-search-by-handle", "nameserver-search-by-ip", "autnum-search", "nosuch", "\x00"}
	nums := []string{"0", "1", "5", "30", "65535", "65536", "-1", "abc", "", "1e3", "4294967295", "4294967296", " 5"}
	if r.Chance(0.5) { // mostly valid values
		urls, nums = urls[:3], []string{"5", "30", "3600"}
		queries = []string{"a.example", "10.1.2.3", "AS5", "x-VRSN", "2001:db8::1", "http://s0.example/d/x", "10.0.0.0/9", "x.nosuch"}
		types = types[1:16]
		paths = []string{filepath.Join(f.dir, "fc"), ""}
	}
	tok := func() []string {
		val := func(long, short string, vs []string) []string {
			v := pick(r, vs)
			if dictChance(r, 0.05) && long != "cache-dir" {
				v = r.word(pick(r, []string{"x", "=", "-", "1"}))
			}
			switch r.IntN(4) {
			case 0:
				return []string{"--" + long + "=" + v}
			case 1:
				return []string{"--" + long, v}
			case 2:
				if short != "" {
					return []string{"-" + short + v}
				}
				return []string{"--" + long + "=" + v}
			default:
				if short != "" {
					return []string{"-" + short, v}
				}
				return []string{"--" + long}
			}
		}
		switch r.IntN(16) {
		case 0:
			return []string{pick(r, []string{"-v", "--verbose", "-k", "--insecure", "-j", "-r", "-w", "--text", "--json", "--raw", "--whois", "-e", "--experimental", "-jr", "-vk", "-kv"})}
		case 1:
			return val("timeout", "T", nums)
		case 2:
			return val("type", "t", types)
		case 3:
			return val("server", "s", urls)
		case 4:
			return val("bs-url", "", urls)
		case 5:
			return val("bs-ttl", "", nums)
		case 6:
			return val("cache-dir", "", paths)
		case 7:
			return val("p12", "P", append([]string{"DigiCert_RDAP_Pilot_Client_Certificate.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12:x"}, paths...))
		case 8:
			return val("cert", "C", paths)
		case 9:
			return val("key", "K", paths)
		case 10:
			return val("exp", "", []string{"sandbox", "object_tag", "test_rdap_net", "nosuch", ""})
		case 11:
			return val("fetch", "f", []string{"all", "registrant", ""})
		case 12:
			return []string{pick(r, []string{"--version", "-V", "--nosuch", "-Z", "--", "-", "--=", "--type=", "-\u00e9", "--no-raw", "--no-text", "--no-version", "--verbose=x", "--v", "--raw=true", "--json=false", "---", "--\x00"})}
		default:
			if dictChance(r, 0.05) {
				return []string{r.word(pick(r, []string{"x", ".example", "-", "1"}))}
			}
			return []string{pick(r, queries)}
		}
	}
	var args []string
	if r.Chance(0.7) {
		args = append(args, "--cache-dir=")
	}
	if r.Chance(0.7) {
		args = append(args, "--bs-url=http://boot.example/b")
	}
	for range r.Range(0, 5) {
		args = append(args, tok()...)
	}
	if r.Chance(0.6) {
		args = append(args, pick(r, queries))
	}
	if r.Chance(0.2) {
		args = shuffled(r, args)
	}
	helpish := false
	versionish := false
	for i, a := range args {
		if strings.HasPrefix(a, "--help") || strings.HasPrefix(a, "--completion") || (strings.HasPrefix(a, "-") && !strings.HasPrefix(a, "--") && strings.Contains(a, "h")) {
			helpish = true
		}
		if a == "-V" || a == "--version" {
			versionish = true
		}
		_ = i
	}
	good := r.Chance(0.6)
	answered := 0
	doc := okDoc("fuzz")
	base := bootWorld(2, func(int, netReq) netReply { return okReply(doc) })
	w.set(func(q netReq) netReply {
		if !good {
			return netReply{status: 500, body: []byte(doc)}
		}
		if strings.HasPrefix(q.url, "http://boot.example/b/") {
			return base(q)
		}
		w.mu.Lock()
		answered++
		w.mu.Unlock()
		return okReply(doc)
	})
	sand := r.Chance(0.2)
	kase := fmt.Sprintf("%q sandbox %v, servers answer %v", args, sand, good)
	m.Try(kase, func() {
		a := append([]string{}, args...)
		res := runCLI(sand, a...)
		m.Saw(kase, len(args) > 2)
		m.Count(fmt.Sprintf("fuzzed exit %d", res.rc), 1)
		w.mu.Lock()
		n := answered
		w.mu.Unlock()
		if res.rc == 0 && n > 0 {
			m.Count("fuzzed successful queries", 1)
		}
		show := fmt.Sprintf("%+v", res)
		switch {
		case res.rc != 0 && res.rc != 1:
			m.Violate("the exit status is neither 0 nor 1", kase, "0 or 1", show)
		case helpish:
		case res.rc == 1 && res.stdout != "":
			m.Violate("a failing run wrote to standard output", kase, "", show)
		case res.rc == 1 && !errorShown(res.err):
			m.Violate("a failing run printed no '#'-prefixed error", kase, "# ...", show)
		case res.rc == 0 && res.stdout == version && versionish:
		case res.rc == 0 && n == 0:
			m.Violate("a run exited 0 although no server answered", kase, 1, show)
		}
	})
	m.Sample(kase)
}
