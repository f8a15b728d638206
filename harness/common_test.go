package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// Violation is one observed refutation of the property.
type Violation struct {
	Key      string `json:"key"`
	What     string `json:"what"`
	Case     any    `json:"case,omitempty"`
	Expected any    `json:"expected,omitempty"`
	Observed any    `json:"observed,omitempty"`
}

// M is the monitor of one property.
type M struct {
	T        *testing.T
	Prop     string
	Thorough bool
	Seed     uint64
	R        *Rand

	mu       sync.Mutex
	evals    int
	distinct map[uint64]struct{}
	counters map[string]int
	samples  []any
	viols    []Violation
	rule     string
	assume   []string
	minDist  int

	cur      []byte
	curStart atomic.Int64 // unix nanos of the running case, 0 if none
	hangFor  time.Duration
	done     atomic.Bool
}

const maxViolations = 12

type tooMany struct{}

func repoDir() string { return "/repo" }

// monitor runs body as the monitor of prop, and writes the result file.
func monitor(t *testing.T, prop, rule string, minDistinct int, body func(m *M)) {
	if os.Getenv("VERIF_PROP") != prop {
		t.Skip("run through run.py")
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	m := &M{T: t, Prop: prop, Seed: seed, rule: rule, minDist: minDistinct,
		Thorough: os.Getenv("VERIF_TIER") == "thorough",
		distinct: map[uint64]struct{}{}, counters: map[string]int{}, hangFor: 180 * time.Second}
	m.R = NewRand(seed, prop)
	if p := os.Getenv("VERIF_CURRENT"); p != "" {
		f, err := os.OpenFile(p, os.O_CREATE|os.O_RDWR, 0o600)
		if err == nil {
			_ = f.Truncate(1 << 16)
			m.cur, _ = syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			f.Close()
		}
	}
	go m.watch()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tooMany); !ok {
					panic(r)
				}
			}
		}()
		body(m)
	}()
	m.finish()
}

// N scales a case count by tier.
func (m *M) N(quick int) int {
	if m.Thorough {
		f := 25
		if s := os.Getenv("VERIF_SCALE"); s != "" {
			if n, err := strconv.Atoi(s); err == nil {
				f = n
			}
		}
		return quick * f
	}
	if os.Getenv("VERIF_BASIC") != "" { // for trying many mutants
		return quick
	}
	return quick * max(quickScale[m.Prop], 1)
}

// quickScale: how many times its basic case count a check runs in the quick tier, so that it takes some 10 to 40 s.
var quickScale = map[string]int{
	"C01": 2, "C02": 2, "C03": 2, "C04": 8, "C05": 6, "C06": 6, "C07": 4, "C09": 4, "C10": 2, "C11": 5, "C12": 5, "C13": 6, "C14": 4, "C15": 8,
	"C16": 2, "C17": 2, "C19": 3, "C20": 6, "C21": 4, "C22": 3, "C23": 4, "C24": 4, "C25": 4, "C26": 4, "C27": 4, "C28": 4, "C29": 4, "C30": 4,
	"C32": 4, "C33": 2, "C34": 4, "C35": 2,
}

// watch turns a case that never returns, or that eats all memory, into a verdict.
func (m *M) watch() {
	for !m.done.Load() {
		time.Sleep(200 * time.Millisecond)
		st := m.curStart.Load()
		if st == 0 {
			continue
		}
		why := ""
		if time.Since(time.Unix(0, st)) > m.hangFor {
			why = "the case did not return"
		} else {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 6<<30 {
				why = "the case used more than 6 GB of memory"
			}
		}
		if why == "" || m.curStart.Load() != st {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		stack := string(buf)
		if !strings.Contains(stack, "github.com/openrdap/rdap") {
			continue // not in the code under test: leave it to the outer watchdog
		}
		c := string(m.cur)
		if i := strings.IndexByte(c, 0); i >= 0 {
			c = c[:i]
		}
		if len(stack) > 8000 {
			stack = stack[:8000]
		}
		m.mu.Lock()
		m.viols = append(m.viols, Violation{Key: "hang", What: why, Case: c, Observed: stack})
		m.mu.Unlock()
		m.finish()
		os.Exit(0)
	}
}

func (m *M) finish() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.done.Store(true)
	res := map[string]any{
		"evaluations": m.evals, "distinct": len(m.distinct), "rule": m.rule, "samples": m.samples,
		"counters": m.counters, "violations": m.viols, "assumptions": m.assume,
	}
	if len(m.viols) == 0 && len(m.distinct) < m.minDist {
		res["inconclusive"] = fmt.Sprintf("only %d distinct non-trivial cases were observed, at least %d are needed", len(m.distinct), m.minDist)
	}
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	tmp := os.Getenv("VERIF_RESULT") + ".tmp"
	if err := os.WriteFile(tmp, b, 0o600); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, os.Getenv("VERIF_RESULT")); err != nil {
		panic(err)
	}
}

// Begin marks the start of a case, described by desc, for the crash and hang monitors.
func (m *M) Begin(desc string) {
	if m.cur != nil {
		n := copy(m.cur[:len(m.cur)-1], desc)
		m.cur[n] = 0
	}
	m.curStart.Store(time.Now().UnixNano())
}

// End marks the end of a case.
func (m *M) End() { m.curStart.Store(0) }

// Saw records one evaluation of the oracle. key identifies the case; nontrivial cases with distinct keys are counted.
func (m *M) Saw(key string, nontrivial bool) {
	m.mu.Lock()
	m.evals++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(key))
		m.distinct[h.Sum64()] = struct{}{}
	}
	m.mu.Unlock()
}

func (m *M) Count(name string, n int) {
	m.mu.Lock()
	m.counters[name] += n
	m.mu.Unlock()
}

func (m *M) Max(name string, n int) {
	m.mu.Lock()
	if m.counters[name] < n {
		m.counters[name] = n
	}
	m.mu.Unlock()
}

// Sample keeps up to 6 written-out cases.
func (m *M) Sample(v any) {
	m.mu.Lock()
	if len(m.samples) < 6 {
		m.samples = append(m.samples, clip(v))
	}
	m.mu.Unlock()
}

func clip(v any) any {
	s := fmt.Sprintf("%v", v)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return strings.ToValidUTF8(s, "\uFFFD")
}

func (m *M) Assume(s string) { m.assume = append(m.assume, s) }

// Violate records a violation.
func (m *M) Violate(what string, kase, expected, observed any) {
	m.ViolateKey("", what, kase, expected, observed)
}

func (m *M) ViolateKey(key, what string, kase, expected, observed any) {
	m.mu.Lock()
	m.viols = append(m.viols, Violation{Key: key, What: what, Case: long(kase), Expected: long(expected), Observed: long(observed)})
	n := len(m.viols)
	m.mu.Unlock()
	if n >= maxViolations {
		panic(tooMany{})
	}
}

func long(v any) any {
	if v == nil {
		return nil
	}
	s, ok := v.(string)
	if !ok {
		s = fmt.Sprintf("%+v", v)
	}
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return strings.ToValidUTF8(s, "\uFFFD")
}

// Try runs f as one case: a panic in it is a violation. Reports whether f returned normally.
func (m *M) Try(desc string, f func()) (ok bool) {
	m.Begin(desc)
	defer m.End()
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(tooMany); is {
				panic(r)
			}
			st := string(debug.Stack())
			if !strings.Contains(st, "github.com/openrdap/rdap") {
				panic(r) // a defect of the harness
			}
			m.ViolateKey("panic", fmt.Sprintf("panic: %v", r), desc, "no panic", st)
		}
	}()
	f()
	return true
}

// Rand is a seeded generator with helpers.
type Rand struct{ *rand.Rand }

func NewRand(seed uint64, salt string) *Rand {
	h := fnv.New64a()
	h.Write([]byte(salt))
	return &Rand{rand.New(rand.NewPCG(seed, h.Sum64()))}
}

func (r *Rand) Chance(p float64) bool { return r.Float64() < p }

// Range returns an int in [lo, hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.IntN(hi-lo+1) }

func pick[T any](r *Rand, s []T) T { return s[r.IntN(len(s))] }

func shuffled[T any](r *Rand, s []T) []T {
	out := append([]T(nil), s...)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func sortedKeys[V any](mm map[string]V) []string {
	var ks []string
	for k := range mm {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// jsonNoEscape marshals without HTML escaping.
func jsonNoEscape(v any) []byte {
	var sb strings.Builder
	e := json.NewEncoder(&sb)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return []byte(strings.TrimSuffix(sb.String(), "\n"))
}

func q(s string) string { return strconv.Quote(s) }

// scratchDir makes a fresh directory inside the run's scratch space.
func scratchDir(m *M) string {
	base := os.Getenv("VERIF_SCRATCH")
	d, err := os.MkdirTemp(base, "d")
	if err != nil {
		panic(err)
	}
	return d
}

var discardLog = log.New(io.Discard, "", 0)
