// Package gen generates Clojure source text with arbitrary layout.
//
// All choices are drawn from rapid; the first alternative of every choice is
// the simplest, so that cases shrink.
package gen

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/refclj"
)

// A Profile says how likely the parts of a text are, in percent.
type Profile struct {
	Size     int // number of nodes, roughly
	Newline  int // line break in a gap
	Blank    int // of line breaks: extra blank lines
	Comment  int // comment in a gap
	Wide     int // odd horizontal whitespace in a gap
	Tight    int // no whitespace where none is needed
	CR       int // of line breaks: CR LF; of comments: ended by CR alone
	Prefix   int // reader prefix before a form
	Discard  int
	Meta     int
	Tag      int
	Styled   int  // of calls: heads with an indentation style
	NS       int  // a text starts with an ns form
	Exotic   bool // non-ASCII tokens and whitespace
	Strange  bool // strange but valid spacing (layout after prefixes, #^, tag spacing)
	Dangling bool // markers without a form
	NoBig    bool // nothing of unusual size
	NoRename bool // only the names that the generators know
	// PrefixComments allows comments between a prefix and its form.
	PrefixComments bool
	Multiline      int // of strings: containing line breaks
	Heads          []string
	Syms           []string // additional symbols
}

// G builds one text.
type G struct {
	T          *rapid.T
	P          Profile
	b          strings.Builder
	last       rune // last rune of the last token, or 0 after whitespace
	lastOpen   bool // the last token may be extended by following characters
	nodes      int
	comments   int
	inFn       bool
	big        int // remaining parts of unusual size
	ren        *Renamer
	thresholds int // parts whose size is taken from the dictionary
}

// New starts a text. One text in about 200 has parts that are much larger,
// longer, wider or deeper than usual.
func New(t *rapid.T, p Profile) *G {
	g := &G{T: t, P: p}
	if !p.NoBig && (Int(t, 256) == 255 || len(dict.ints) > 0 && Pct(t, 3)) {
		g.big = 1 + Int(t, 3)
	}
	if !p.NoRename && (Pct(t, 20) || hot(t, 40)) {
		g.ren = &Renamer{t: t, m: map[string]string{}, used: map[string]bool{}}
	}
	return g
}

// String returns the text.
func (g *G) String() string {
	s := g.Rename(g.b.String())
	if !g.P.NoRename && (Pct(g.T, 5) || hot(g.T, 25)) {
		s = LookAlike(g.T, s)
	}
	return s
}

// Rename gives the names in s the names they get in the text.
func (g *G) Rename(s string) string {
	if g.ren == nil {
		return s
	}
	return g.ren.Apply(s)
}

// ---- choices

var nibble = rapid.IntRange(0, 15)
var coin = rapid.IntRange(0, 1)

// N draws 0..n-1.
func (g *G) N(n int) int { return Int(g.T, n) }

// Int draws 0..n-1, close to uniformly.
func Int(t *rapid.T, n int) int {
	switch {
	case n <= 1:
		return 0
	case n == 2:
		return coin.Draw(t, "")
	case n <= 16:
		return rapid.IntRange(0, n-1).Draw(t, "")
	case n <= 256:
		return (nibble.Draw(t, "")*16 + nibble.Draw(t, "")) * n / 256
	default:
		return ((nibble.Draw(t, "")*16+nibble.Draw(t, ""))*256 + nibble.Draw(t, "")*16 + nibble.Draw(t, "")) * n / 65536
	}
}

// Pct is true in p percent of the cases.
func (g *G) Pct(p int) bool { return Pct(g.T, p) }

func Pct(t *rapid.T, p int) bool {
	if p <= 0 {
		return false
	}
	if p >= 100 {
		return true
	}
	return Int(t, 100) >= 100-p
}

// W draws an index with the given weights.
func (g *G) W(weights ...int) int { return Weighted(g.T, weights...) }

func Weighted(t *rapid.T, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	x := Int(t, sum)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return len(weights) - 1
}

func (g *G) Pick(ss ...string) string { return ss[g.N(len(ss))] }

func Pick(t *rapid.T, ss ...string) string { return ss[Int(t, len(ss))] }

// ---- writing tokens and gaps

// Tok writes a token; open says that the token would absorb following symbol characters.
func (g *G) Tok(s string, open bool) {
	if s == "" {
		return
	}
	c, _ := utf8.DecodeRuneInString(s)
	if g.last != 0 {
		if g.lastOpen && !refclj.Terminates(c) || g.last == '~' && c == '@' {
			g.b.WriteByte(' ')
		}
	}
	g.b.WriteString(s)
	g.last, _ = utf8.DecodeLastRuneInString(s)
	g.lastOpen = open
}

// Raw writes whitespace.
func (g *G) Raw(s string) {
	if s == "" {
		return
	}
	g.b.WriteString(s)
	g.last = 0
}

func (g *G) spaces() string {
	if n := g.threshold(1, 500); n > 0 {
		return strings.Repeat(" ", n)
	}
	if g.Pct(g.P.Wide) {
		if g.P.Exotic && g.Pct(20) {
			return g.Pick("\f", "\v", "\u2028", "\u3000", "\u1680", "\u2000", "\u2006", "\u2008", "\u200a", "\u2029", "\u205f", "\x1c", "\x1d", "\x1e", " \x1f")
		}
		return g.Pick("  ", ",", "\t", ", ", " ,", "      ", "\r")
	}
	return " "
}

func (g *G) indent() string {
	switch g.W(4, 3, 2, 1) {
	case 0:
		return ""
	case 1:
		return "  "
	case 2:
		return strings.Repeat(" ", g.N(12))
	default:
		return g.Pick("\t", " \t ", ",", " , ")
	}
}

func (g *G) eol() string {
	s := ""
	if g.Pct(8) {
		s = g.Pick(" ", "  ", "\t", ",")
	}
	if g.Pct(g.P.CR) {
		s += "\r"
	}
	return s + "\n"
}

// Newline writes a line break (and sometimes blank lines).
func (g *G) Newline() {
	g.Raw(g.eol())
	if g.Pct(g.P.Blank) {
		n := 1 + g.N(3)
		if k := g.threshold(4, 200); k > 0 {
			n = k
		}
		for i := 0; i < n; i++ {
			g.Raw(g.eol())
		}
	}
	g.Raw(g.indent())
}

// Comment writes a comment and the line break that ends it.
func (g *G) Comment() {
	g.CommentText()
	if g.P.CR > 0 && g.Pct(g.P.CR) {
		g.Raw("\r")
		if g.Pct(50) {
			return
		}
	}
	g.Raw("\n")
	if g.Pct(g.P.Blank) {
		g.Newline()
		return
	}
	g.Raw(g.indent())
}

func (g *G) CommentText() {
	g.comments++
	n := g.comments
	if hot(g.T, 15) {
		if w := Word(g.T); !strings.ContainsAny(w, "\r\n") {
			g.Tok(g.Pick(";", "; ", ";; ", ";x ")+w+g.Pick("", "", " x", ")"), false)
			return
		}
	}
	switch g.W(20, 8, 2, 2, 2, 2, 2, 2, 1) {
	case 8:
		g.Tok(fmt.Sprintf("; \xfc %d \xe2\x82", n), false)
	case 0:
		g.Tok(fmt.Sprintf(";c%d", n), false)
	case 1:
		g.Tok(fmt.Sprintf(";; comment %d", n), false)
	case 2:
		g.Tok(fmt.Sprintf(";%d (\"[", n), false)
	case 3:
		g.Tok(fmt.Sprintf(";%d trailing \t", n), false)
	case 4:
		if g.lastOpen { // # would continue the token
			g.Tok(";", false)
		} else {
			g.Tok(fmt.Sprintf("#!c%d", n), false)
		}
	case 5:
		g.Tok(";", false)
	case 6:
		g.Tok(fmt.Sprintf(";;; é→ %d", n), false)
	case 7:
		g.Tok(fmt.Sprintf("; #_ %d \\", n), false)
	}
}

// Gap writes what stands between two forms.
func (g *G) Gap() { g.gap(1) }

// where: 0 after an opening delimiter, 1 between forms, 2 before a closing delimiter
func (g *G) gap(where int) {
	nl, cm := g.P.Newline, g.P.Comment
	if where != 1 {
		nl, cm = nl/3, cm/3
	}
	switch {
	case g.Pct(cm):
		if g.Pct(70) {
			g.Raw(" ")
		}
		if g.Pct(50) {
			g.Newline()
		}
		g.Comment()
		for n := g.threshold(4, 100); n > 0 || g.Pct(20); n-- {
			g.Comment()
		}
		if g.Pct(g.P.Newline / 4) {
			g.Newline()
		}
	case g.Pct(nl):
		g.Newline()
	case where != 1:
		if g.Pct(g.P.Wide) {
			g.Raw(g.spaces())
		}
	case g.Pct(g.P.Tight):
	default:
		g.Raw(g.spaces())
	}
}

// prefixGap is what stands between a reader prefix and its form.
func (g *G) prefixGap() {
	if !g.P.Strange || !g.Pct(8) {
		return
	}
	switch g.W(4, 3, 1) {
	case 0:
		g.Raw(" ")
	case 1:
		g.Newline()
	case 2:
		if g.P.PrefixComments {
			g.Comment()
		} else {
			g.Raw("\t")
		}
	}
}

// Seq writes a delimited sequence of n elements.
func (g *G) Seq(open, close string, n int, elem func(i int)) { g.seq(open, close, n, true, elem) }

// Call1 is like Seq but the first element follows the opening delimiter.
func (g *G) Call1(open, close string, n int, elem func(i int)) { g.seq(open, close, n, false, elem) }

func (g *G) seq(open, close string, n int, lead bool, elem func(i int)) {
	g.Tok(open, false)
	g.last = 0
	if lead {
		g.gap(0)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.Gap()
		}
		elem(i)
	}
	if n > 0 || g.Pct(30) {
		g.gap(2)
	}
	g.Tok(close, false)
}

// Sym writes a symbol, keyword or number.
func (g *G) Sym(s string) { g.nodes++; g.Tok(s, true) }

// ---- atoms

var simpleSyms = []string{"a", "b", "x", "foo", "bar", "y", "foo-bar", "z1"}
var oddSyms = []string{"a/b", "x/foo", "s/join", "my.ns/f", "+", "-", "->", ".", "/", ".m", "Foo.", "Foo/bar", "*x*",
	"a'", "a#b", "&", "_", "%x", "->x", "a.b.c", "x/", "+a", "-a", "a:b", "<=", "=", "!", "$", "|", "a/b/c", "clojure.core//"}
var uniSyms = []string{"é", "λx", "→", "naïve", "日本", "x\u00a0y", "x\u2007y", "\u202fx", "\u2007", "𝔘", "\u0085", "\xe9", "a\xff\xfeb", "\xed\xa0\x80", "\ufffd"}
var keywords = []string{":a", ":b", ":foo", ":a/b", "::x", "::s/x", ":as", ":else", ":let", ":refer", ":require", "::my.ns/k", ":é", ":>>"}
var numbers = []string{"1", "42", "-1", "+1", "1.5", "0x1F", "1/2", "1e3", "2r101", "36rZ", "1N", "1.0M", "08", "1e+3", "1/0"}
var chars = []string{`\a`, `\(`, `\space`, `\newline`, `\;`, `\"`, `\\`, `\tab`, `\u0041`, `\o101`, `\backspace`, `\return`, `\formfeed`, `\'`, `\#`, `\,`, `\é`, `\%`, `\o7`, `\o12`, `\o377`, `\u03bb`, `\@`, `\]`}

func (g *G) StringContent() string {
	var b strings.Builder
	for i, n := 0, g.N(5); i < n; i++ {
		k := g.N(10)
		if hot(g.T, 10) {
			b.WriteString(strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(Word(g.T)))
		}
		if n := g.threshold(2, 3000); n > 0 {
			b.WriteString(strings.Repeat(g.Pick("x", " ", "\n", "é", "y\n"), n))
		}
		if g.Pct(g.P.Multiline) {
			k = 10 + g.N(6)
		}
		switch k {
		case 0:
			b.WriteString("a")
		case 1:
			b.WriteString("foo bar")
		case 2:
			b.WriteString(`\"`)
		case 3:
			b.WriteString(`\\`)
		case 4:
			b.WriteString(`\n`)
		case 5:
			b.WriteString("; no comment")
		case 6:
			b.WriteString(" ")
		case 7:
			b.WriteString("(")
		case 8:
			if g.P.Exotic {
				b.WriteString(g.Pick("é", "日本", "\u2028", "\u00a0", "\u2007", "\u202f", "\t", "caf\xe9", "\xc3", "\ufeff"))
			} else {
				b.WriteString("x")
			}
		case 9:
			b.WriteString("  ")
		case 10:
			b.WriteString("\n")
		case 11:
			b.WriteString("\n  x")
		case 12:
			b.WriteString("\n" + strings.Repeat(" ", g.N(14)) + "y")
		case 13:
			b.WriteString("  \n")
		case 14:
			b.WriteString("\n\tz")
		case 15:
			b.WriteString("x\n\n")
		}
	}
	return b.String()
}

// Atom writes a leaf.
func (g *G) Atom() {
	g.nodes++
	if hot(g.T, 12) {
		if a := g.dictAtom(); a != "" {
			g.Tok(a, a[0] != '"' && a[0] != '#')
			return
		}
	}
	switch g.W(30, 12, 12, 10, 8, 3, 4, 6, 2, 4) {
	case 9:
		g.anyAtom()
	case 0:
		if len(g.P.Syms) > 0 && g.Pct(40) {
			g.Tok(g.Pick(g.P.Syms...), true)
		} else {
			g.Tok(g.Pick(simpleSyms...), true)
		}
	case 1:
		g.Tok(g.Pick(numbers...), true)
	case 2:
		g.Tok(g.Pick(keywords...), true)
	case 3:
		if g.P.Exotic && g.Pct(30) {
			g.Tok(g.Pick(uniSyms...), true)
		} else {
			g.Tok(g.Pick(oddSyms...), true)
		}
	case 4:
		g.Tok(`"`+g.StringContent()+`"`, false)
	case 5:
		g.Tok(`#"`+g.StringContent()+`"`, false)
	case 6:
		g.Tok(g.Pick(chars...), true)
	case 7:
		g.Tok(g.Pick("nil", "true", "false", "%", "%1", "%&"), true)
	case 8:
		g.Tok("#'", false)
		g.last = 0
		g.Tok(g.Pick("a", "s/join", "foo", "my.ns/f"), true)
	}
}

func (g *G) full() bool { return g.nodes >= g.P.Size }

// Count draws a number of elements.
func (g *G) Count(max int) int {
	if g.full() {
		return g.N(2)
	}
	if n := g.threshold(2, 200); n > 0 {
		return n
	}
	n := g.N(max + 1)
	if n == max && !g.P.NoBig && g.Pct(3) {
		// Now and then more than a handful.
		return n + 1 + g.N(24)
	}
	return n
}

// long replaces a number of elements by a large one now and then: what works
// for a handful can fail from a dozen on (an unstable sort, for one).
func (g *G) long(n int) int {
	if k := g.threshold(5, 200); k > 0 && n > 0 {
		return k
	}
	if g.P.NoBig || n == 0 || !g.Pct(2) {
		return n
	}
	return 12 + g.N(50)
}

// ---- forms

// Marker perhaps writes metadata, a tag or discarded forms before a form.
func (g *G) Marker(d int) {
	for g.Pct(g.P.Discard) && !g.full() {
		g.nodes++
		g.discard(d)
		g.Gap()
	}
	for g.Pct(g.P.Meta) && !g.full() {
		g.nodes++
		if g.Pct(15) && !g.lastOpen {
			g.Tok("#^", false)
		} else {
			g.Tok("^", false)
		}
		g.prefixGap()
		switch g.W(4, 3, 2, 1) {
		case 0:
			g.Tok(g.Pick(":private", ":dynamic", ":a"), true)
		case 1:
			g.Tok(g.Pick("String", "long", "\"[I\""), true)
		case 2:
			g.mapForm(d + 1)
		case 3:
			g.Expr(d + 1)
		}
		g.Gap()
	}
	if g.Pct(g.P.Tag) && !g.full() {
		g.nodes++
		g.tag()
		g.Gap()
	}
	if g.Pct(g.P.Discard/2) && !g.full() {
		g.discard(d)
		g.Gap()
	}
}

func (g *G) tag() {
	if g.P.Strange && g.Pct(20) {
		g.Tok("#", false)
		g.Raw(g.Pick(" ", "\t", ",", "  "))
		g.Tok(g.Pick("foo", "_x", "?x", "=x", "!x", "<x", "inst", "js", "_", "?@x", "my/tag"), true)
		return
	}
	if g.lastOpen {
		g.Raw(" ")
	}
	g.Tok("#"+g.Pick("inst", "js", "uuid", "my/tag", "foo.Bar", "é"), true)
}

func (g *G) discard(d int) {
	if g.last != 0 && g.lastOpen {
		g.Raw(" ")
	}
	g.Tok("#_", false)
	g.prefixGap()
	g.Expr(d + 1)
}

// Expr writes one form, with all it needs (metadata, tags and so on before it).
func (g *G) Expr(d int) {
	g.Marker(d)
	g.Form(d)
}

// Form writes one form without markers.
func (g *G) Form(d int) {
	if g.big > 0 && g.Pct(25) {
		g.big--
		g.bigForm(d)
		return
	}
	if g.full() || d > 7 {
		g.Atom()
		return
	}
	if g.Pct(g.P.Prefix) {
		g.nodes++
		p := g.Pick("'", "@", "`", "~", "~@", "#=")
		if p != "@" && p != "~" && p != "~@" && g.last != 0 && g.lastOpen {
			g.Raw(" ")
		}
		g.Tok(p, false)
		if p == "~" || p == "~@" {
			g.last = '~'
			if p == "~@" {
				g.last = 0
			}
		}
		g.prefixGap()
		g.Expr(d + 1)
		return
	}
	switch g.W(34, 34, 10, 8, 3, 4, 3, 4) {
	case 0:
		g.Atom()
	case 1:
		g.Call(d)
	case 2:
		g.nodes++
		g.Seq("[", "]", g.Count(5), func(int) { g.Expr(d + 1) })
	case 3:
		g.mapForm(d)
	case 4:
		g.nodes++
		g.hash()
		g.Seq("#{", "}", g.Count(4), func(int) { g.Expr(d + 1) })
	case 5:
		if g.inFn {
			g.Atom()
			return
		}
		g.nodes++
		g.inFn = true
		g.hash()
		if g.Pct(60) {
			g.callWith("#(", d)
		} else {
			g.Seq("#(", ")", g.Count(4), func(int) { g.Expr(d + 1) })
		}
		g.inFn = false
	case 6:
		g.nodes++
		g.hash()
		open := g.Pick("#?(", "#?@(")
		if g.P.Strange && g.Pct(10) {
			open = strings.Replace(open, "(", " (", 1)
		}
		g.Seq(open, ")", 2*g.Count(2), func(i int) {
			if i%2 == 0 {
				g.Sym(g.Pick(":clj", ":cljs", ":default"))
			} else {
				g.Expr(d + 1)
			}
		})
	case 7:
		g.nodes++
		g.Seq("(", ")", g.Count(4), func(int) { g.Expr(d + 1) })
	}
}

// bigForm writes a form of unusual size.
func (g *G) bigForm(d int) {
	size := func(bits int) int { // up to 2^bits, the order of magnitude being uniform
		if g.Pct(60) {
			if n := g.threshold(100, 2<<uint(bits)); n > 0 {
				return n
			}
		}
		n := 1 << uint(4+g.N(bits-3))
		return n + g.N(n)
	}
	switch g.W(4, 3, 3, 2) {
	case 0: // deep
		n := size(9)
		kind := g.N(4)
		delims := []string{"[]", "()", "{}", "[]"}
		for i := 0; i < n; i++ {
			if kind == 3 {
				g.Tok(delims[i%3][:1], false)
			} else {
				g.Tok(delims[kind][:1], false)
			}
		}
		g.last = 0
		k := g.N(4)
		for i := 0; i <= k; i++ {
			if i > 0 {
				g.Gap()
			}
			g.Expr(d + 1)
		}
		for i := n - 1; i >= 0; i-- {
			if kind == 3 {
				g.Tok(delims[i%3][1:], false)
			} else {
				g.Tok(delims[kind][1:], false)
			}
		}
	case 1: // a long token
		n := size(16)
		switch g.N(5) {
		case 0:
			g.Tok(strings.Repeat("ab-c", n/4), true)
		case 1:
			g.Tok("\""+strings.Repeat(g.Pick("x", "\\\\", "\\n", "lorem ipsum ", "é"), n/4)+"\"", false)
		case 2:
			g.Tok("\""+strings.Repeat("line\n   ", n/64)+"\"", false)
		case 3:
			g.Tok(strings.Repeat("1234", n/4), true)
		case 4:
			g.Tok(":"+strings.Repeat("k", n), true)
		}
	case 2: // long
		n := size(11)
		every := g.Pick(" ", " ", "\n", " x\n", " ;c\n", " [y\nz]\n")
		if g.P.Comment == 0 {
			every = strings.Replace(every, ";c", "c", 1)
		}
		if g.P.Newline == 0 {
			every = " "
		}
		open, close, elem := "[", "]", g.Pick("1", "a", ":k v", "(f x)", "{:a 1}")
		if g.Pct(40) {
			open, close = "("+g.Pick("f ", "case x ", "do ", "cond ", "-> y ", ""), ")"
		}
		gap := 1 + g.N(12)
		g.Tok(open, false)
		for i := 0; i < n; i++ {
			if i > 0 {
				if i%gap == 0 {
					g.Raw(every)
				} else {
					g.Raw(" ")
				}
			}
			g.Tok(elem, false)
		}
		g.Tok(close, false)
	case 3: // blank
		n := size(10)
		open, close := "[", "]"
		if g.Pct(40) {
			open, close = "(f", ")"
		}
		g.Tok(open, true)
		g.Gap()
		g.Expr(d + 1)
		if g.P.Newline == 0 || g.Pct(50) {
			g.Raw(strings.Repeat(g.Pick(" ", "\t", ","), n))
		} else {
			g.Raw(strings.Repeat("\n", n))
		}
		g.Expr(d + 1)
		g.Tok(close, false)
	}
}

// hash makes room for a token that starts with #.
func (g *G) hash() {
	if g.last != 0 && g.lastOpen {
		g.Raw(" ")
	}
}

func (g *G) mapForm(d int) {
	g.nodes++
	open := "{"
	if g.Pct(8) {
		g.hash()
		open = "#" + g.Pick(":my.ns", ":a", "::s", "::", "::my.ns") + "{"
		if open == "#::{" || !g.P.Strange || !g.Pct(10) {
		} else {
			open = strings.Replace(open, "{", " {", 1)
		}
	}
	n := 2 * g.Count(3)
	if g.Pct(5) {
		n++
	}
	g.Seq(open, "}", n, func(i int) {
		if i%2 == 0 && g.Pct(60) {
			g.Sym(g.Pick(keywords...))
		} else {
			g.Expr(d + 1)
		}
	})
}

// ---- calls

var plainHeads = []string{"foo", "bar", "f", "str", "map", "a/b", "some-function", "quite-a-long-function-name", "x", "eleven-char", "twelve-chars", "thirteen-char", "twelve-cha/é"}

// StyledHeads are the names with a built-in style, by kind of argument list.
var (
	BodyHeads = []string{"do", "when", "if", "if-not", "fn", "catch", "testing", "doto", "as->", "while", "locking", "update", "def", "defn", "defmacro", "defonce", "deftest", "with-foo", "when-bar", "letx", "defx",
		"bound-fn", "definline", "defmethod", "defmulti", "defn-", "defstruct", "deftest-", "extend", "ns", "send-off", "set-test", "update-in", "when-not", "with-bindings", "with-in-str", "with-precision", "with-redefs-fn", "with-test", "my/with-x", "when-", "def-x"}
	LetHeads     = []string{"let", "binding", "loop", "if-let", "when-let", "dotimes", "if-some", "when-first", "when-some", "with-local-vars", "with-open", "with-redefs"}
	ForHeads     = []string{"for", "doseq"}
	CondHeads    = []string{"cond", "cond->", "case", "condp", "assoc", "cond->>", "defproject"}
	DeftypeHeads = []string{"deftype", "defrecord", "defprotocol", "reify", "proxy", "extend-type", "extend-protocol", "definterface"}
	ThreadHeads  = []string{"->", "some->", "cond->", "->>"}
)

// Call writes a list that calls something.
func (g *G) Call(d int) { g.callWith("(", d) }

func (g *G) callWith(open string, d int) {
	g.nodes++
	if !g.Pct(g.P.Styled) {
		n := g.Count(4)
		g.Seq(open, ")", n+1, func(i int) {
			if i > 0 {
				g.Expr(d + 1)
				return
			}
			if hot(g.T, 20) {
				if n := dictName(g.T); n != "" {
					g.Sym(g.Pick("", "", "", "a/", "clojure.core/") + n)
					return
				}
			}
			switch g.W(8, 2, 1, 1) {
			case 0:
				g.Sym(g.Pick(plainHeads...))
			case 1:
				g.Sym(g.Pick(keywords...))
			case 2:
				g.Expr(d + 1)
			case 3:
				g.Sym(g.Pick(oddSyms...))
			}
		})
		return
	}
	switch g.W(10, 8, 3, 8, 5, 4, 2, 6) {
	case 0:
		h := g.Pick(BodyHeads...)
		if len(g.P.Heads) > 0 && g.Pct(50) {
			h = g.Pick(g.P.Heads...)
		}
		g.Head(open, h, g.Count(4), d, nil)
	case 1:
		g.Head(open, g.Pick(LetHeads...), 1+g.Count(2), d, map[int]func(){0: func() { g.bindings(d, false) }})
	case 2:
		g.Head(open, g.Pick(ForHeads...), 1+g.Count(2), d, map[int]func(){0: func() { g.bindings(d, true) }})
	case 3:
		g.CondForm(open, g.Pick(CondHeads...), d)
	case 4:
		g.Head(open, g.Pick(ThreadHeads...), 1+g.Count(4), d, nil)
	case 5:
		n := 1 + g.Count(4)
		spec := map[int]func(){}
		for i := 0; i < n; i++ {
			if g.Pct(60) {
				spec[i] = func() { g.method(d + 1) }
			}
		}
		g.Head(open, g.Pick(DeftypeHeads...), n, d, spec)
	case 6:
		g.Head(open, "letfn", 1+g.Count(2), d, map[int]func(){0: func() {
			g.nodes++
			g.Seq("[", "]", g.Count(2), func(int) { g.method(d + 2) })
		}})
	case 7:
		g.Head(open, g.Pick("if", "if-not", "if-let", "if-some", "s/if"), g.Count(5), d, nil)
	}
}

// Head writes a list with a given head and n arguments; spec overrides some arguments.
func (g *G) Head(open, head string, n, d int, spec map[int]func()) {
	g.nodes++
	g.Seq(open, ")", n+1, func(i int) {
		if i == 0 {
			g.Tok(head, true)
			return
		}
		if f := spec[i-1]; f != nil && !g.Pct(6) {
			f()
			return
		}
		g.Expr(d + 1)
	})
}

func (g *G) method(d int) {
	g.nodes++
	if g.Pct(6) {
		// A method without a name, starting with line breaks.
		g.Tok("(", false)
		for i, n := 0, 1+g.N(3); i < n; i++ {
			g.Newline()
		}
		if g.Pct(40) {
			g.Expr(d + 1)
		}
		g.Tok(")", true)
		return
	}
	n := g.Count(3)
	g.Seq("(", ")", n+2, func(i int) {
		switch i {
		case 0:
			g.Sym(g.Pick("m", "toString", "-get", "when"))
		case 1:
			g.nodes++
			g.Seq("[", "]", g.N(3), func(int) { g.Sym(g.Pick("this", "a", "_")) })
		default:
			g.Expr(d + 1)
		}
	})
}

func (g *G) bindings(d int, isFor bool) {
	g.nodes++
	n := 2 * g.Count(3)
	if g.Pct(5) {
		n++
	}
	let := false
	g.Seq("[", "]", n, func(i int) {
		if i%2 == 0 {
			let = false
			if isFor && g.Pct(35) {
				let = true
				g.Sym(g.Pick(":let", ":when", ":while"))
				return
			}
			if g.Pct(70) {
				g.Sym(g.Pick("a", "b", "[x y]", "{:keys [a b]}"))
				g.lastOpen = g.last != ']' && g.last != '}'
			} else {
				g.Expr(d + 1)
			}
			return
		}
		if let && g.Pct(80) {
			g.bindings(d+1, false)
			return
		}
		g.Expr(d + 1)
	})
}

// CondForm writes a pair-style form.
func (g *G) CondForm(open, head string, d int) {
	lead := map[string]int{"cond": 0, "cond->": 1, "cond->>": 1, "case": 1, "assoc": 1, "condp": 2, "defproject": 2}[head]
	n := lead + 2*g.Count(3)
	if g.Pct(30) {
		n++
	}
	spec := map[int]func(){}
	for i := lead; i < n; i++ {
		switch {
		case head == "condp" && g.Pct(15), g.Pct(2):
			spec[i] = func() { g.Sym(":>>") }
		case g.Pct(30):
			spec[i] = func() { g.Sym(g.Pick(":a", ":else", "1", "x")) }
		}
	}
	g.Head(open, head, n, d, spec)
}

// ---- whole texts

// TopGap is what stands between two top-level forms.
func (g *G) TopGap() {
	switch g.W(10, 4, 2, 1) {
	case 0:
		g.Newline()
	case 1:
		g.Newline()
		g.Newline()
	case 2:
		if g.Pct(g.P.Comment * 4) {
			g.Raw(" ")
			if g.Pct(60) {
				g.Newline()
			}
			g.Comment()
			if g.Pct(50) {
				g.Newline()
			}
		} else {
			g.Newline()
		}
	case 3:
		g.Gap()
	}
}

// TopForm writes a top-level form.
func (g *G) TopForm() {
	switch g.W(6, 6, 4, 3, 2, 3, 3) {
	case 0:
		g.Expr(0)
	case 1:
		g.Defn()
	case 2:
		g.Def()
	case 3:
		g.Defmethod()
	case 4:
		g.nodes++
		g.Head("(", g.Pick("comment", "comment", "comment", "clojure.core/comment", "my/comment", "comment*"), g.Count(3), 0, nil)
	case 5:
		g.Call(0)
	case 6:
		g.Marker(0)
		g.Defn()
	}
}

// Defn writes a defn-like form.
func (g *G) Defn() {
	g.nodes++
	head := g.Pick("defn", "defn", "defmacro", "defmulti", "defn-")
	body := g.Count(3)
	doc := g.Pct(35)
	anonymous := false
	g.Seq("(", ")", 3+body, func(i int) {
		switch i {
		case 0:
			g.Sym(head)
			if g.Pct(8) { // an anonymous one
				anonymous = true
			}
		case 1:
			if anonymous {
				return
			}
			g.Marker(1)
			g.Sym(g.Pick("f", "g", "foo"))
			if doc {
				g.Gap()
				g.Doc()
			}
		case 2:
			if head == "defmulti" {
				g.Expr(1)
				return
			}
			g.Marker(2)
			g.nodes++
			g.Seq("[", "]", g.Count(3), func(int) { g.Expr(2) })
		default:
			g.Expr(1)
		}
	})
}

// Doc writes a string that is likely to be a docstring.
func (g *G) Doc() {
	g.nodes++
	old := g.P.Multiline
	g.P.Multiline = 60
	g.Tok(`"`+g.StringContent()+`"`, false)
	g.P.Multiline = old
}

func (g *G) Def() {
	g.nodes++
	head := g.Pick("def", "def", "defonce", "defmulti")
	doc := g.Pct(40)
	g.Seq("(", ")", 2+g.N(3), func(i int) {
		switch i {
		case 0:
			g.Sym(head)
		case 1:
			g.Marker(1)
			g.Sym(g.Pick("v", "w", "foo"))
			if doc {
				g.Gap()
				g.Doc()
			}
		default:
			if g.Pct(20) {
				g.Doc()
			} else {
				g.Expr(1)
			}
		}
	})
}

func (g *G) Defmethod() {
	g.nodes++
	g.Seq("(", ")", 4+g.Count(2), func(i int) {
		switch i {
		case 0:
			g.Sym("defmethod")
		case 1:
			if g.Pct(8) {
				return
			}
			g.Sym(g.Pick("f", "g"))
		case 2:
			switch g.W(6, 1, 1) {
			case 0:
				g.Sym(g.Pick(":a", ":default"))
			case 1:
				g.Expr(1)
			case 2:
				g.Marker(1)
				g.Sym(":a")
			}
		case 3:
			g.nodes++
			g.Seq("[", "]", g.N(3), func(int) { g.Sym("x") })
		default:
			g.Expr(1)
		}
	})
}

// Dangling perhaps writes a marker that applies to nothing.
func (g *G) dangling() {
	if g.P.Dangling && g.Pct(15) {
		g.Raw(" ")
		if g.Pct(50) {
			g.Tok("^", false)
			g.Atom()
		} else {
			g.tag()
		}
	}
}

// File writes a whole source file.
func (g *G) File() {
	if g.Pct(8) {
		g.Newline()
	}
	if g.Pct(g.P.Comment) {
		g.Comment()
	}
	first := true
	if g.Pct(g.P.NS) {
		g.NSForm()
		first = false
	}
	n := 1 + g.N(4)
	if !first {
		n--
	}
	for i := 0; i < n; i++ {
		if !first {
			g.TopGap()
		}
		first = false
		if i > 0 && g.Pct(g.P.NS/8) {
			g.NSForm()
			continue
		}
		g.TopForm()
	}
	g.dangling()
	switch g.W(6, 2, 1, 1, 1) {
	case 0:
		g.Raw("\n")
	case 1:
	case 2:
		g.Newline()
		g.Newline()
	case 3:
		if g.Pct(g.P.Comment * 3) {
			g.Raw(" ")
			g.CommentText()
		}
	case 4:
		g.Raw("\n")
		if g.Pct(g.P.Comment * 3) {
			g.Comment()
		}
	}
}

// RandomProfile draws the character of a text.
func RandomProfile(t *rapid.T) Profile {
	p := Profile{Size: 6 + Int(t, 40), Styled: 50, NS: 25, Multiline: 15}
	switch Weighted(t, 3, 3, 2, 2) {
	case 0: // code as people write it
		p.Newline, p.Blank, p.Comment, p.Wide, p.Tight = 25, 10, 4, 3, 2
	case 1: // lots of line breaks
		p.Newline, p.Blank, p.Comment, p.Wide, p.Tight = 55, 20, 8, 8, 5
	case 2: // lots of comments
		p.Newline, p.Blank, p.Comment, p.Wide, p.Tight = 30, 15, 30, 8, 5
	case 3: // few
		p.Newline, p.Blank, p.Comment, p.Wide, p.Tight = 8, 5, 2, 10, 30
	}
	switch Weighted(t, 4, 3, 2) {
	case 0:
		p.Prefix, p.Discard, p.Meta, p.Tag = 5, 2, 3, 2
	case 1:
		p.Prefix, p.Discard, p.Meta, p.Tag = 12, 8, 10, 6
	case 2:
	}
	p.Exotic = Pct(t, 30)
	p.Strange = Pct(t, 40)
	if Pct(t, 25) {
		p.CR = 25
	}
	return p
}

// Source generates a whole text with the given adjustments to a random profile.
func Source(t *rapid.T, adjust func(*Profile)) string {
	p := RandomProfile(t)
	if adjust != nil {
		adjust(&p)
	}
	g := New(t, p)
	g.File()
	return g.String()
}
