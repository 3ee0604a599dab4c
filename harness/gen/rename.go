package gen

import (
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// vocabulary holds the segments of the names of libraries, aliases, names and
// classes that the generators use and that may get other names.
var vocabulary = map[string]bool{}

func init() {
	for _, s := range strings.Fields(`a b c d e s t u x y z f g h k m n o p q my lib sub other nsx str join clojure string
		a-b x-y z* zz java util io C K B D F G X Y Foo Date File UUID Map$Entry b$C A$B f' ->x app main core thing Thing
		handler run-all y1 mk other-ns`) {
		vocabulary[s] = true
	}
}

// A Renamer gives the names of a text other names, the same ones everywhere,
// so that properties aren't only tried with the few names that the generators
// know.
type Renamer struct {
	t    *rapid.T
	m    map[string]string
	used map[string]bool
}

func (r *Renamer) segment(s string) string {
	munged := false
	if !vocabulary[s] && strings.Contains(s, "_") {
		// The package of a namespace is written with underscores.
		s = strings.Replace(s, "_", "-", -1)
		munged = true
	}
	if !vocabulary[s] {
		if munged {
			return ""
		}
		return s
	}
	to, ok := r.m[s]
	if !ok {
		to = s
		if Pct(r.t, 60) {
			if n := r.fresh(); n != "" {
				to = n
			}
		}
		r.m[s] = to
	}
	if munged {
		to = strings.Replace(to, "-", "_", -1)
	}
	return to
}

// fresh makes a name that the text doesn't contain.
func (r *Renamer) fresh() string {
	for try := 0; try < 3; try++ {
		n := Name(r.t)
		if !r.used[n] && !vocabulary[n] {
			r.used[n] = true
			return n
		}
	}
	return ""
}

// Name makes a symbol without slashes and dots.
func Name(t *rapid.T) string {
	if hot(t, 35) {
		if n := dictName(t); n != "" {
			return n
		}
	}
	if n := Threshold(t, 2000); n > 0 && Pct(t, 5) {
		return strings.Repeat("n", n)
	}
	var b strings.Builder
	piece := func(ss ...string) { b.WriteString(Pick(t, ss...)) }
	letters := []string{"a", "b", "c", "q", "w", "x", "y", "z", "st", "lib", "io", "ns"}
	switch Weighted(t, 8, 4, 4, 3, 3, 2, 2, 1) {
	case 0: // with dashes
		piece(letters...)
		for i, n := 0, Int(t, 6); i < n; i++ {
			piece("-", "-", "-", "--", "_", "-_")
			piece(letters...)
		}
	case 1: // with digits
		piece(letters...)
		piece("1", "2", "9", "10", "09", "-1", "2a", "100")
	case 2: // with capitals
		piece("A", "B", "Ab", "aB", "Z", "ZZ", "xY", "Util")
		piece("", "a", "B", "-c", "C1")
	case 3: // with other characters
		piece("+", "*x*", "x!", "x?", "<=>", "&", "x'", "_", "$x", "x|y", "->x", "x%", "a#", "a:b", "=", "-", "x->y", "-x", "x*", "_x", ">", "|", "$")
	case 4: // beginnings that have a style
		piece("def", "let", "with-", "when-", "de", "with", "lett", "if-", "ns-")
		piece("x", "y", "", "-a", "s")
		if s := b.String(); s == "def" || s == "let" || s == "lets" {
			b.WriteString("z")
		}
	case 5: // outside ASCII
		piece("é", "λx", "名前", "ẞ", "ﬁ", "😀", "e\u0301", "ß", "x²", "ÀB", "\u200b", "\u2007", "\u202f", "\u00a0", "\ufeff")
		piece("", "a", "-é")
	case 6: // words with a meaning elsewhere
		piece("as", "refer", "all", "only", "require", "import", "use", "comment", "exclude", "rename", "gen-class", "refer-macros", "else", "let'")
	case 7: // long
		piece(letters...)
		b.WriteString(strings.Repeat(Pick(t, "x", "-y", "ab", "é", "z1"), 5+Int(t, 30)))
	}
	return b.String()
}

func nameRune(c rune) bool {
	if unicode.IsSpace(c) || c < ' ' {
		return false
	}
	return !strings.ContainsRune("\",;@^~`()[]{}\\", c)
}

// Apply renames the names in a text.
func (r *Renamer) Apply(src string) string {
	var b strings.Builder
	prev := rune(0)
	start := -1
	flush := func(end int, before rune) {
		if start < 0 {
			return
		}
		w := src[start:end]
		start = -1
		if before == '\\' {
			b.WriteString(w) // a character literal or an escape
			return
		}
		b.WriteString(r.word(w))
	}
	before := rune(0)
	for i, c := range src {
		if nameRune(c) {
			if start < 0 {
				start, before = i, prev
			}
		} else {
			flush(i, before)
			b.WriteString(src[i : i+width(src[i:])])
		}
		prev = c
	}
	flush(len(src), before)
	return b.String()
}

func width(s string) int {
	for i := range s {
		if i > 0 {
			return i
		}
	}
	return len(s)
}

func (r *Renamer) word(w string) string {
	// what may stand before a name: ' #' #_ : :: #: # and so on
	i := 0
	for i < len(w) && strings.IndexByte("'#:_=?", w[i]) >= 0 {
		i++
	}
	if i == len(w) || w[i] >= '0' && w[i] <= '9' {
		return w
	}
	if w[i:] == "_" {
		return w
	}
	var b strings.Builder
	b.WriteString(w[:i])
	for rest := w[i:]; ; {
		j := strings.IndexAny(rest, "./")
		seg := rest
		if j >= 0 {
			seg = rest[:j]
		}
		if to := r.segment(seg); to != "" {
			b.WriteString(to)
		} else {
			b.WriteString(seg)
		}
		if j < 0 {
			return b.String()
		}
		b.WriteByte(rest[j])
		rest = rest[j+1:]
	}
}
