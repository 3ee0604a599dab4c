package gen

import (
	"strings"

	"pgregory.net/rapid"
)

// Chain gives a text in which the same few constructs are nested or repeated
// many times: what takes twice as long with each level shows.
func Chain(t *rapid.T) string {
	heads := []string{"->", "->>", "some->", "cond->", "let", "for", "letfn", "deftype", "defn", "def", "ns", "if", "if-let", "cond", "condp", "case", "comment", "fn", "foo", "defmethod", ":require", ":use", ":import", "quote", "a/b", "when-let", "doseq", "with-x"}
	prefixes := []string{"'", "`", "~", "~@", "@", "^", "#_", "#=", "#^", "^:a ", "^{:a b} ", "#t ", "#_ #_ ", "#_a ", "'#_a ", "~ @"}
	opens := map[string]string{"(": ")", "[": "]", "{": "}", "#{": "}", "#?(:clj ": ")", "#?@(:clj ": ")", "#:a{:b ": "}", "#::{:b ": "}"}
	var names []string
	for _, o := range []string{"(", "[", "{", "#{", "#?(:clj ", "#?@(:clj ", "#:a{:b ", "#::{:b "} {
		names = append(names, o)
	}
	args := func() string {
		if Pct(t, 30) {
			return Pick(t, "", "", "; c\n", "; c\n", "\n", "\n\n; c\n", "#_x", "; c\n\n")
		}
		var b strings.Builder
		for i, n := 0, Int(t, 4); i < n; i++ {
			b.WriteString(Pick(t, "a", ":k", "[]", "[a b]", `"s"`, "1", "()", "(f)", ":let", ":>>", "^:m x", "#_d", "; c\n", "\n", "\n\n", "{:a 1}", "nil"))
			b.WriteString(Pick(t, " ", " ", " ", "\n"))
		}
		return b.String()
	}
	type level struct{ open, close string }
	levels := make([]level, 1+Int(t, 3))
	for i := range levels {
		var l level
		switch Weighted(t, 6, 3, 3) {
		case 0:
			h := Pick(t, heads...)
			if hot(t, 30) {
				h = Word(t)
			}
			l = level{"(" + h + Pick(t, " ", " ", "\n") + args(), args() + ")"}
			if Pct(t, 30) {
				l.open = Pick(t, prefixes...) + l.open
			}
			if Pct(t, 20) {
				l.open += Pick(t, "[", "[a ", "{:a ")
				l.close = Pick(t, "", "b ") + map[byte]string{'[': "]", '{': "}"}[lastOpen(l.open)] + l.close
			}
		case 1:
			o := Pick(t, names...)
			l = level{o + args(), args() + opens[o]}
			if o == "{" && Pct(t, 50) {
				l.open += "a "
			}
		case 2:
			l = level{open: Pick(t, prefixes...)}
		}
		levels[i] = l
	}
	n := 1 << uint(3+Int(t, 5))
	n += Int(t, n)
	var b strings.Builder
	if Pct(t, 75) { // nested
		for i := 0; i < n; i++ {
			b.WriteString(levels[i%len(levels)].open)
		}
		b.WriteString("x ")
		if Pct(t, 95) {
			for i := n - 1; i >= 0; i-- {
				b.WriteString(levels[i%len(levels)].close)
			}
		}
		return b.String()
	}
	l := level{"", ""}
	if Pct(t, 60) {
		l = levels[0]
	}
	b.WriteString(l.open)
	for i := 0; i < n; i++ {
		k := levels[i%len(levels)]
		b.WriteString(k.open + "x " + k.close + " ")
	}
	b.WriteString("y " + l.close)
	return b.String()
}

// lastOpen gives the last opening bracket or brace in s.
func lastOpen(s string) byte {
	return s[strings.LastIndexAny(s, "[{")]
}
