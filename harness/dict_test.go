package harness

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"testing"
)

// The dictionary: the string and number constants of the code under test, as material for generated inputs, the way
// coverage-guided fuzzers take tokens from the program they test. Only inputs depend on it, never an expectation.
// Constants that fixtures/literals.json does not list (code that is new) are used more often.

type dictionary struct {
	Strs []string `json:"strings"`
	Nums []int64  `json:"numbers"`
}

var dictAll, dictFresh dictionary

func init() {
	dictAll = harvest(repoDir())
	var base dictionary
	if b, err := fixtures.ReadFile("fixtures/literals.json"); err == nil {
		_ = json.Unmarshal(b, &base)
	}
	if os.Getenv("VERIF_FRESH") != "" { // for trying the harness out: treat everything as new
		base = dictionary{}
	}
	for _, s := range dictAll.Strs {
		if !slices.Contains(base.Strs, s) {
			dictFresh.Strs = append(dictFresh.Strs, s)
		}
	}
	for _, n := range dictAll.Nums {
		if !slices.Contains(base.Nums, n) {
			dictFresh.Nums = append(dictFresh.Nums, n)
		}
	}
}

func harvest(dir string) (d dictionary) {
	strs, nums := map[string]bool{}, map[int64]bool{}
	_ = filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if e.IsDir() {
			if n := e.Name(); n == ".git" || n == "test" || n == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if f == nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				if n.Tag != nil {
					n.Tag = nil
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil {
						for _, part := range append([]string{s}, strings.Fields(s)...) {
							if len(part) > 0 && len(part) <= 64 {
								strs[part] = true
							}
						}
					}
				case token.CHAR:
					if s, err := strconv.Unquote(n.Value); err == nil {
						strs[s] = true
					}
				}
				if v, ok := constOf(n); ok {
					nums[v] = true
				}
			case *ast.BinaryExpr, *ast.SelectorExpr, *ast.UnaryExpr:
				if v, ok := constOf(n.(ast.Expr)); ok {
					nums[v] = true
				}
			}
			return true
		})
		return nil
	})
	d.Strs = sortedKeys(strs)
	for n := range nums {
		d.Nums = append(d.Nums, n)
	}
	slices.Sort(d.Nums)
	return d
}

// constOf evaluates the simple integer constants programs contain.
func constOf(e ast.Expr) (int64, bool) {
	switch e := e.(type) {
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			v, err := strconv.ParseInt(e.Value, 0, 64)
			return v, err == nil
		case token.FLOAT:
			f, err := strconv.ParseFloat(e.Value, 64)
			if err == nil && math.Abs(f) < 1<<62 {
				return int64(f), true
			}
		case token.CHAR:
			if s, err := strconv.Unquote(e.Value); err == nil {
				return int64([]rune(s)[0]), true
			}
		}
	case *ast.ParenExpr:
		return constOf(e.X)
	case *ast.UnaryExpr:
		if v, ok := constOf(e.X); ok && e.Op == token.SUB {
			return -v, true
		}
	case *ast.SelectorExpr:
		v, ok := map[string]int64{"MaxInt8": math.MaxInt8, "MaxUint8": math.MaxUint8, "MaxInt16": math.MaxInt16, "MaxUint16": math.MaxUint16, "MaxInt32": math.MaxInt32, "MaxUint32": math.MaxUint32, "MaxInt64": math.MaxInt64, "MaxInt": math.MaxInt64,
			"MaxRune": 0x10ffff, "Second": 1, "Minute": 60, "Hour": 3600}[e.Sel.Name]
		return v, ok
	case *ast.BinaryExpr:
		a, ok1 := constOf(e.X)
		b, ok2 := constOf(e.Y)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch e.Op {
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		case token.MUL:
			return a * b, true
		case token.SHL:
			if b >= 0 && b < 63 {
				return a << b, true
			}
		case token.QUO:
			if b != 0 {
				return a / b, true
			}
		}
	}
	return 0, false
}

// dictChance is how often a generator should take something from the dictionary.
func dictChance(r *Rand, often float64) bool {
	if len(dictFresh.Strs)+len(dictFresh.Nums) > 0 {
		return r.Chance(min(0.5, often*4))
	}
	return r.Chance(often)
}

// word is a constant of the program, as it is or inside something else. It may contain anything but is never empty.
func (r *Rand) word(filler string) string {
	s := "x"
	if len(dictFresh.Strs) > 0 && r.Chance(0.6) {
		s = pick(r, dictFresh.Strs)
	} else if len(dictAll.Strs) > 0 {
		s = pick(r, dictAll.Strs)
	}
	switch r.IntN(9) {
	case 0, 1:
		s += filler
	case 2, 3:
		s = filler + s
	case 4:
		s = filler + s + filler
	case 5:
		s = strings.ToUpper(s)
	case 6:
		s += s
	}
	return strings.ToValidUTF8(s, "\ufffd")
}

// number is a constant of the program or a neighbour of it, at least lo and at most hi; usual if none is in range.
func (r *Rand) number(lo, hi, usual int64) int64 {
	for range 8 {
		n := int64(0)
		switch {
		case len(dictFresh.Nums) > 0 && r.Chance(0.6):
			n = pick(r, dictFresh.Nums)
		case len(dictAll.Nums) > 0 && r.Chance(0.5):
			n = pick(r, dictAll.Nums)
		default:
			n = pick(r, []int64{3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 25, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 1000, 1023, 1024, 1025, 2048, 4096, 65535, 65536})
		}
		n += pick(r, []int64{0, 0, 0, 1, -1, 1})
		if n >= lo && n <= hi {
			return n
		}
	}
	return usual
}

// size is a length between lo and hi, now and then a remarkable one up to limit.
func (r *Rand) size(lo, hi, limit int) int {
	n := r.Range(lo, hi)
	if dictChance(r, 0.02) {
		return int(r.number(int64(lo), int64(limit), int64(n)))
	}
	return n
}

// TestLiterals writes fixtures/literals.json.
func TestLiterals(t *testing.T) {
	out := os.Getenv("VERIF_LITERALS")
	if out == "" {
		t.Skip("run by tools/gen_literals.sh")
	}
	b, _ := json.MarshalIndent(dictAll, "", " ")
	if err := os.WriteFile(out, append(b, '\n'), 0o644); err != nil {
		t.Fatal(err)
	}
}
