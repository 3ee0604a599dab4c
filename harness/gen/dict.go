package gen

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/refclj"
)

// The dictionary holds the constants in the code under test that the tree the
// machinery was built for (baseline.json) doesn't have, or has less often. A
// fuzzer's dictionary taken from the program, as it were: it makes the inputs
// that a change singles out likely to be generated. It plays no part in
// judging what the code does. It is empty on the unchanged tree.
var dict struct {
	words []string
	ints  []int
}

//go:embed baseline.json
var baselineJSON []byte

// Constants counts the literals in the Go files below a directory, without
// tests.
func Constants(dir string) map[string]int {
	m := map[string]int{}
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		name := fi.Name()
		if fi.IsDir() {
			if path != dir && (strings.HasPrefix(name, ".") || name == "testdata" || name == "example") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
		if err != nil {
			return nil
		}
		imports := map[*ast.BasicLit]bool{}
		for _, i := range f.Imports {
			imports[i.Path] = true
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if lit, ok := n.(*ast.BasicLit); ok && !imports[lit] {
				switch lit.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(lit.Value); err == nil {
						m["s:"+s]++
					}
				case token.CHAR:
					if s, err := strconv.Unquote(lit.Value); err == nil {
						m["s:"+s]++
					}
				case token.INT:
					if n, err := strconv.ParseInt(lit.Value, 0, 64); err == nil {
						m["i:"+fmt.Sprint(n)]++
					}
				}
			}
			return true
		})
		return nil
	})
	return m
}

// LoadDict fills the dictionary from the code under test.
func LoadDict(dir string) {
	base := map[string]int{}
	if err := json.Unmarshal(baselineJSON, &base); err != nil {
		panic(err)
	}
	var words []string
	seen := map[string]bool{}
	add := func(w string) {
		if w != "" && len(w) <= 40 && !seen[w] && utf8.ValidString(w) {
			seen[w] = true
			words = append(words, w)
		}
	}
	for k, n := range Constants(dir) {
		if n <= base[k] {
			continue
		}
		if s := strings.TrimPrefix(k, "i:"); s != k {
			if n, err := strconv.Atoi(s); err == nil && n >= 2 && n <= 1<<20 {
				dict.ints = append(dict.ints, n)
			}
			continue
		}
		w := strings.TrimPrefix(k, "s:")
		if strings.Contains(w, " ") && strings.Contains(w, "%") {
			continue // the text of an error
		}
		add(w)
	}
	sort.Strings(words)
	sort.Ints(dict.ints)
	if len(words) > 60 {
		words = words[:60]
	}
	dict.words = words
}

// DictWords are the strings and characters in the dictionary.
func DictWords() []string { return dict.words }

// hot is true in p percent of the cases if there are words in the dictionary.
func hot(t *rapid.T, p int) bool { return len(dict.words) > 0 && Pct(t, p) }

// Word draws a word from the dictionary, sometimes changed a bit; "" if it is
// empty.
func Word(t *rapid.T) string {
	if len(dict.words) == 0 {
		return ""
	}
	w := dict.words[Int(t, len(dict.words))]
	switch Weighted(t, 12, 3, 3, 2, 1, 1) {
	case 1:
		w += Pick(t, "x", "-x", "1", "?", "s", w)
	case 2:
		w = Pick(t, "x", "x-", "-", "a", "*") + w
	case 3:
		w = Pick(t, "x", "a-") + w + Pick(t, "x", "-a")
	case 4:
		w = strings.ToUpper(w)
	case 5:
		r, n := utf8.DecodeRuneInString(w)
		if r != utf8.RuneError && len(w) > n {
			w = w[n:]
		}
	}
	return w
}

// dictName is a word that can be a segment of a symbol, or "".
func dictName(t *rapid.T) string {
	segs := strings.FieldsFunc(Word(t), func(r rune) bool {
		return !nameRune(r) || r == '/' || r == '.' || r == '\\'
	})
	if len(segs) == 0 {
		return ""
	}
	s := strings.TrimLeft(segs[Int(t, len(segs))], ":#'%+-0123456789")
	s = strings.TrimRight(s, ":")
	if s == "" {
		return ""
	}
	if r := refclj.Parse(s); r.Verdict != refclj.Accept || len(r.Roots) != 1 || r.Roots[0].Kind != refclj.Sym {
		return ""
	}
	return s
}

// dictAtom is a leaf made of a word, or "".
func (g *G) dictAtom() string {
	w := Word(g.T)
	if w == "" {
		return ""
	}
	esc := strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(w)
	s := w
	switch g.W(5, 3, 2, 1, 2, 2, 1, 1) {
	case 1:
		s = ":" + strings.TrimLeft(w, ":")
	case 2:
		s = `"` + esc + `"`
	case 3:
		s = `#"` + esc + `"`
	case 4:
		s = w + "/" + g.Pick("x", "f", "a-b", w)
	case 5:
		s = g.Pick("x", "s", "a.b") + "/" + w
	case 6:
		s = "::" + strings.TrimLeft(w, ":") + "/x"
	case 7:
		s = `\` + w
	}
	r := refclj.Parse(s)
	if r.Verdict != refclj.Accept || len(r.Roots) != 1 {
		return ""
	}
	switch k := r.Roots[0]; k.Kind {
	case refclj.Sym, refclj.Kw, refclj.Num, refclj.Str, refclj.Regex, refclj.Char, refclj.Nil, refclj.Bool:
		return s
	}
	return ""
}

// Threshold draws a number close to one in the dictionary, of at most max; 0 if
// there is none.
func Threshold(t *rapid.T, max int) int {
	if len(dict.ints) == 0 {
		return 0
	}
	n := dict.ints[Int(t, len(dict.ints))] - 1 + Int(t, 4)
	if Pct(t, 15) {
		n *= 2
	}
	if n < 1 || n > max {
		return 0
	}
	return n
}

// threshold is like Threshold in a few places of a text, and 0 elsewhere.
func (g *G) threshold(p, max int) int {
	if len(dict.ints) == 0 || g.P.NoBig || g.thresholds >= 4 || !g.Pct(p) {
		return 0
	}
	n := Threshold(g.T, max)
	if n > 0 {
		g.thresholds++
	}
	return n
}
