package harness

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/openrdap/rdap/sandbox"
)

// fileWatch reports every use of the files and directories beneath its roots, from the kernel.
type fileWatch struct {
	fd   int
	dirs map[int32]string
}

const watchMask = syscall.IN_OPEN | syscall.IN_ACCESS | syscall.IN_MODIFY | syscall.IN_CREATE | syscall.IN_DELETE | syscall.IN_MOVED_FROM | syscall.IN_MOVED_TO | syscall.IN_ATTRIB

func newFileWatch() *fileWatch {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		panic(err)
	}
	return &fileWatch{fd, map[int32]string{}}
}

func (f *fileWatch) add(dir string) {
	_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			wd, err := syscall.InotifyAddWatch(f.fd, p, watchMask)
			if err != nil {
				panic(err)
			}
			f.dirs[int32(wd)] = p
		}
		return nil
	})
	f.events()
}

// events returns and clears what happened since the last call.
func (f *fileWatch) events() (out []string) {
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(f.fd, buf)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || n <= 0 {
			return out
		}
		for b := buf[:n]; len(b) >= syscall.SizeofInotifyEvent; {
			wd := int32(binary.NativeEndian.Uint32(b[0:]))
			mask := binary.NativeEndian.Uint32(b[4:])
			l := int(binary.NativeEndian.Uint32(b[12:]))
			name := strings.TrimRight(string(b[16:16+l]), "\x00")
			b = b[16+l:]
			var what []string
			for _, k := range []struct {
				bit  uint32
				name string
			}{{syscall.IN_OPEN, "open"}, {syscall.IN_ACCESS, "read"}, {syscall.IN_MODIFY, "write"}, {syscall.IN_CREATE, "create"}, {syscall.IN_DELETE, "delete"}, {syscall.IN_MOVED_FROM, "rename from"}, {syscall.IN_MOVED_TO, "rename to"}, {syscall.IN_ATTRIB, "attributes"}, {syscall.IN_Q_OVERFLOW, "overflow"}} {
				if mask&k.bit != 0 {
					what = append(what, k.name)
				}
			}
			out = append(out, strings.Join(what, "+")+" "+filepath.Join(f.dirs[wd], name))
		}
	}
}

var sandboxNames = []string{"DigiCert_RDAP_Pilot_Client_Certificate.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12"}

type c32World struct {
	m      *M
	w      *netWorld
	root   string // the canaries
	cwd    string
	home   string
	xdg    string
	fw     *fileWatch
	paths  []string // names of canary files and directories, existing and not
	p12s   []string
	argFs  []string
	bootFs []string
}

func newC32World(m *M, w *netWorld) *c32World {
	base := scratchDir(m)
	c := &c32World{m: m, w: w, root: filepath.Join(base, "canary"), cwd: filepath.Join(base, "canary", "cwd"), home: filepath.Join(base, "home"), xdg: filepath.Join(base, "xdg")}
	mk := func(d string) {
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
	}
	sub := filepath.Join(c.root, "sub")
	cache := filepath.Join(c.root, "cache")
	mk(c.cwd)
	mk(sub)
	mk(cache)
	mk(c.home)
	mk(c.xdg)
	mk(filepath.Join(c.cwd, "sandbox"))
	ca := newCertAuth("client CA")
	cert := ca.issue("client", -time.Hour, time.Hour)
	write := func(p string, b []byte) {
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
	}
	for _, d := range []string{c.root, c.cwd, sub, filepath.Join(c.cwd, "sandbox")} {
		write(filepath.Join(d, "c.pem"), certPEM(cert))
		write(filepath.Join(d, "c.key"), keyPEM(cert))
		write(filepath.Join(d, "plain"), []byte("secret\n"))
		write(filepath.Join(d, "args"), []byte("--text\n"))
		write(filepath.Join(d, "x.p12"), []byte("not a p12"))
		for _, n := range sandboxNames {
			write(filepath.Join(d, n), []byte("not a p12"))
		}
		write(filepath.Join(d, strings.ToLower(sandboxNames[0])), []byte("not a p12"))
	}
	if err := os.Symlink(filepath.Join(sub, "c.pem"), filepath.Join(c.cwd, "link.pem")); err != nil {
		panic(err)
	}
	if err := os.Symlink(sub, filepath.Join(c.cwd, "linkdir")); err != nil {
		panic(err)
	}
	files := append([]string{"c.pem", "c.key", "plain", "args", "x.p12", "nosuch", strings.ToLower(sandboxNames[0])}, sandboxNames...)
	up, err := filepath.Rel(repoDir()+"/sandbox", c.root)
	if err != nil {
		panic(err)
	}
	for _, n := range files {
		for _, p := range []string{filepath.Join(c.root, n), filepath.Join(sub, n), "../" + n, "./" + n, "../sub/" + n, "../sub/../" + n, "linkdir/" + n, "sandbox/" + n, c.root + "//sub/./" + n, c.root + "/sub/../" + n} {
			c.paths = append(c.paths, p)
		}
		if n != sandboxNames[0] && n != sandboxNames[1] && n != sandboxNames[2] {
			c.paths = append(c.paths, n)
		}
		// relative to where the sandbox's own files are
		c.p12s = append(c.p12s, up+"/"+n, up+"/sub/"+n, sandboxNames[0]+"/../"+up+"/"+n, "./"+up+"/"+n)
	}
	c.paths = append(c.paths, "link.pem", c.root, c.cwd, ".", "..", "linkdir", sub+"/", cache, filepath.Join(c.root, "new"), filepath.Join(c.root, "new", "deep"), "newrel", "../newrel2", "~/x", "file://"+c.root+"/plain")
	c.p12s = append(c.p12s, "file.go", "./file.go", "../sandbox/file.go", "../cli.go", "../go.mod", "/file.go", "../sandbox/"+sandboxNames[0], "./"+sandboxNames[0], "x/../"+sandboxNames[0], "../README.md", "", ".", "..")
	for _, n := range sandboxNames {
		c.p12s = append(c.p12s, n, n+"/", n+"\x00", " "+n, n+" ", strings.ToUpper(n))
	}
	if err := os.Chdir(c.cwd); err != nil {
		panic(err)
	}
	os.Setenv("HOME", c.home)
	os.Setenv("XDG_CACHE_HOME", c.xdg)
	c.fw = newFileWatch()
	c.fw.add(c.root)
	c.fw.add(c.home)
	c.fw.add(repoDir() + "/sandbox")
	return c
}

// forbidden filters the events that sandbox mode does not allow.
func (c *c32World) forbidden(ev []string) (out []string) {
	for _, e := range ev {
		ok := false
		for _, n := range sandboxNames {
			if p := repoDir() + "/sandbox/" + n; e == "open "+p || e == "read "+p {
				ok = true
			}
		}
		if !ok {
			out = append(out, e)
		}
	}
	return out
}

func (c *c32World) args(r *Rand) []string {
	path := func() string {
		if r.Chance(0.1) {
			return pick(r, c.p12s)
		}
		if dictChance(r, 0.03) {
			if w := r.word("x"); !strings.Contains(w, "/") && w != "." && w != ".." && w != "cwd" && w != "default" {
				return pick(r, []string{"", "../", c.root + "/"}) + w
			}
		}
		return pick(r, c.paths)
	}
	groups := [][]string{}
	used := map[string]bool{}
	add := func(k string, g []string) {
		if !used[k] {
			used[k] = true
			groups = append(groups, g)
		}
	}
	for range r.Range(1, 3) {
		switch r.IntN(9) {
		case 0, 1:
			add("cache", opt(r, "cache-dir", "", path()))
		case 2:
			add("cert", append(opt(r, "cert", "C", path()), opt(r, "key", "K", path())...))
		case 3:
			add("cert", opt(r, "cert", "C", path()))
		case 4:
			add("cert", opt(r, "key", "K", path()))
		case 5, 6:
			p := pick(r, c.p12s)
			if r.Chance(0.5) {
				p = path()
			}
			if r.Chance(0.4) {
				p += ":" + pick(r, []string{"", "password", path()})
			}
			add("p12", opt(r, "p12", "P", p))
		default:
			at := "@" + path()
			if r.Chance(0.15) { // the same file by a long name
				at = "@" + c.cwd + strings.Repeat("/.", pick(r, []int{20, 120, 500, 1500})) + "/" + pick(r, []string{"args", "plain", "../args", "sub/../nosuch"})
			}
			switch r.IntN(5) {
			case 0:
				add("s", []string{pick(r, []string{"-s", "--server", "-t", "--type", "--bs-url", "--cache-dir", "-f", "-C", "-P"}), at})
			case 1:
				groups = append(groups, []string{pick(r, []string{"-jv", "-kv", "-vkj"}), at})
			case 2:
				groups = append(groups, []string{"--", at})
			default:
				groups = append(groups, []string{at})
			}
		}
	}
	for range r.IntN(5) {
		switch r.IntN(12) {
		case 7:
			add("k", []string{pick(r, []string{"-k", "--insecure"})})
		case 8:
			add("T", []string{pick(r, []string{"-T5", "--timeout=0", "-T60", "--timeout=1"})})
		case 9:
			add("e", []string{pick(r, []string{"-e", "--experimental"})})
		case 10:
			groups = append(groups, []string{pick(r, []string{"--exp=object_tag", "--exp=test_rdap_net"})})
		case 0:
			add("s", opt(r, "server", "s", pick(r, []string{"http://s0.example/", "file://" + c.root + "/plain", "file:///" + c.root, c.root + "/plain", "https://s0.example/"})))
		case 1:
			add("bs", []string{"--bs-url=" + pick(r, []string{"http://boot.example/b", "file://" + c.root + "/sub/", c.root, "http://boot.example/b"})})
		case 2:
			add("t", opt(r, "type", "t", pick(r, []string{"domain", "url", "help", "entity", "ip", path()})))
		case 3:
			add("f", opt(r, "fetch", "f", path()))
		case 4:
			add("v", []string{"-v"})
		case 5:
			add("ttl", []string{"--bs-ttl=" + pick(r, []string{"0", "5", "100000", path()})})
		default:
			add("j", []string{pick(r, []string{"-j", "-r", "-w", "--text"})})
		}
	}
	q := pick(r, []string{"a.example", "10.1.2.3", "AS5", "x-VRSN", "http://s0.example/x", "file://" + c.root + "/plain", path(), path()})
	if !used["bs"] && r.Chance(0.5) {
		groups = append(groups, []string{"--bs-url=http://boot.example/b"})
	}
	if r.Chance(0.1) {
		return weave(r, groups, nil)
	}
	return weave(r, groups, &q)
}

func TestC32(t *testing.T) {
	monitor(t, "C32", "a sandboxed command line run naming canary files, during which the kernel's file events on the canaries were watched; non-trivial: the same arguments without the sandbox touch a canary", 700, func(m *M) {
		m.Assume("looking at a path's metadata is not reading it; environment variables are not given by the user of a sandbox")
		w := newNetWorld(m)
		defer w.stop()
		c := newC32World(m, w)
		world := bootWorld(2, func(int, netReq) netReply { return okReply(okDoc("c32")) })
		n := m.N(6000)
		for i := range n {
			r := NewRand(m.Seed, fmt.Sprintf("C32/%d", i))
			args := c.args(r)
			sand := r.Chance(0.6)
			if !sand {
				e := pick(r, [][]string{{"--exp=sandbox"}, {"--exp", "sandbox"}, {"--exp=object_tag", "--exp=sandbox"}, {"--exp=sandbox", "--exp=sandbox"}, {"--exp=sandbox", "--exp=object_tag", "--exp", "sandbox"}, {"--exp=sandbox", "--exp=test_rdap_net"}})
				at := r.Range(0, len(args))
				// not inside another option
				if at > 0 && at < len(args) && (strings.HasPrefix(args[at-1], "-") || args[at-1] == "--") {
					at = 0
				}
				for k, a := range args[:at] {
					if a == "--" || k == at-1 && strings.HasPrefix(a, "-") {
						at = 0
						break
					}
				}
				args = append(append(append([]string{}, args[:at]...), e...), args[at:]...)
			}
			kase := fmt.Sprintf("%q sandbox option %v", args, sand)
			m.Try(kase, func() {
				w.set(world)
				c.fw.events()
				res := runCLI(sand, append([]string{}, args...)...)
				ev := c.fw.events()
				bad := c.forbidden(ev)
				if len(ev) > len(bad) {
					m.Count("runs loading a sandbox file", 1)
				}
				if len(bad) > 0 { // once more: another process may have looked at the directory
					c.repair()
					w.set(world)
					runCLI(sand, append([]string{}, args...)...)
					bad = c.forbidden(c.fw.events())
				}
				if len(bad) > 0 {
					m.Violate("a sandboxed run used a file named by the user", kase, "no access", fmt.Sprint(bad, res))
					c.repair()
					return
				}
				if res.rc == 0 {
					m.Count("sandboxed runs that succeeded", 1)
				}
				if sand && i%2 == 0 { // positive control: the same arguments outside the sandbox
					w.set(world)
					runCLI(false, append([]string{}, args...)...)
					ev := c.forbidden(c.fw.events())
					m.Saw(kase, len(ev) > 0)
					if len(ev) > 0 {
						m.Count("controls that touched a canary", 1)
					}
					c.repair()
				} else {
					m.Saw(kase, false)
				}
			})
			m.Sample(kase)
		}
		c.defaults(world)
		c.allowList()
	})
}

// repair removes what an unsandboxed (or escaping) run created among the canaries.
func (c *c32World) repair() {
	for _, p := range []string{"new", "newrel2", "nosuch"} {
		_ = os.RemoveAll(filepath.Join(c.root, p))
	}
	for _, d := range []string{c.root, c.cwd, filepath.Join(c.root, "sub"), filepath.Join(c.root, "cache"), filepath.Join(c.cwd, "sandbox")} {
		es, err := os.ReadDir(d)
		if err != nil {
			panic(err)
		}
		for _, e := range es {
			n := e.Name()
			keep := n == "sub" || n == "cache" || n == "cwd" || n == "sandbox" || strings.HasPrefix(n, "link") || n == "c.pem" || n == "c.key" || n == "plain" || n == "args" || n == "x.p12" || strings.HasPrefix(strings.ToLower(n), "digicert")
			if !keep {
				_ = os.RemoveAll(filepath.Join(d, n))
			}
		}
	}
	c.fw.events()
}

// defaults: the cache of a sandboxed run stays in its default location whatever --cache-dir says.
func (c *c32World) defaults(world func(netReq) netReply) {
	m := c.m
	def := filepath.Join(c.xdg, "openrdap")
	for i, p := range []string{filepath.Join(c.root, "cache"), filepath.Join(c.root, "new", "deep"), "newrel", "..", ".", "default", c.cwd, filepath.Join(c.root, "plain"), filepath.Join(def, "sub"), def + "x", filepath.Join(c.xdg, "other"), "~/.cache/openrdap", "~"} {
		for exp := range 3 {
			if err := os.RemoveAll(c.xdg); err != nil {
				panic(err)
			}
			if err := os.Mkdir(c.xdg, 0o755); err != nil {
				panic(err)
			}
			args := []string{"--cache-dir=" + p, "--bs-url=http://boot.example/b", "a.example"}
			for range exp {
				args = append(args, "--exp=sandbox")
			}
			kase := fmt.Sprintf("%q sandbox option %v", args, exp == 0)
			m.Try(kase, func() {
				for k := range 2 {
					c.w.set(world)
					c.fw.events()
					res := runCLI(exp == 0, append([]string{}, args...)...)
					bad := c.forbidden(c.fw.events())
					m.Saw(fmt.Sprint(kase, k, i), true)
					boot := 0
					for _, u := range c.w.urls() {
						if strings.HasPrefix(u, "http://boot.example/") {
							boot++
						}
					}
					es, _ := os.ReadDir(def)
					var odd []string
					if xs, _ := os.ReadDir(c.xdg); len(xs) > 1 {
						odd = append(odd, fmt.Sprint(xs))
					}
					for _, e := range es {
						if e.IsDir() {
							odd = append(odd, e.Name())
						}
					}
					switch {
					case len(bad) > 0:
						m.Violate("a sandboxed run used a directory named by the user", kase, "no access", fmt.Sprint(bad))
					case len(odd) > 0:
						m.Violate("a sandboxed run made a directory named by the user", kase, "nothing beside the default cache", fmt.Sprint(odd))
					case res.rc != 0 || boot != 1-k:
						m.Violate("a sandboxed run does not use the default cache", kase, fmt.Sprintf("run %d: %d downloads", k+1, 1-k), fmt.Sprint(boot, res))
					case len(es) == 0:
						m.Violate("a sandboxed run does not cache in the default location", kase, c.xdg, "empty")
					default:
						m.Count("default cache used", 1)
					}
				}
			})
			c.repair()
		}
	}
}

// allowList asks the sandbox itself, also for names the command line cannot carry.
func (c *c32World) allowList() {
	m := c.m
	for i := range m.N(3000) {
		r := NewRand(m.Seed, fmt.Sprintf("C32a/%d", i))
		n := pick(r, append(append([]string{}, c.p12s...), c.paths...))
		if r.Chance(0.3) {
			n = c31Text(r) + n
		}
		c.allowOne(n)
	}
}

func (c *c32World) allowOne(n string) {
	m := c.m
	listed := n == sandboxNames[0] || n == sandboxNames[1] || n == sandboxNames[2]
	kase := fmt.Sprintf("sandbox file %q", n)
	m.Try(kase, func() {
		c.fw.events()
		in := sandbox.IsFileInSandbox(n)
		b, err := sandbox.LoadFile(n)
		bad := c.forbidden(c.fw.events())
		if len(bad) > 0 {
			_, _ = sandbox.LoadFile(n)
			bad = c.forbidden(c.fw.events())
		}
		m.Saw(kase, listed || strings.Contains(n, "/"))
		switch {
		case len(bad) > 0:
			m.Violate("loading a sandbox file used another file", kase, "no access", fmt.Sprint(bad))
		case !listed && (in || err == nil || len(b) > 0):
			m.Violate("a name outside the fixed list was accepted", kase, "refused", fmt.Sprint(in, err, len(b)))
		case listed && (!in || err != nil || len(b) == 0):
			m.Violate("a file of the fixed list was refused", kase, "loaded", fmt.Sprint(in, err, len(b)))
		}
	})
}
