package gen

import (
	"strings"

	"pgregory.net/rapid"

	"verif/refclj"
)

// Pieces of text for token soup: every kind of token, delimiter, prefix and separator.
var pieces = []string{
	" ", "\n", "(", ")", "[", "]", "{", "}", "a", "1", ":k", `"s"`, ";c\n", "'", "`", "~", "~@", "@", "^", "#",
	"#{", "#(", `#"r"`, "#'", "#_", "#^", "#=", "#!x\n", "#<", "#?", "#?@", "#?(", "#?@(", "#:", "#::", "#:a{", "#::a{", "#::{",
	`\a`, `\newline`, `\u0041`, `\o101`, `\`, `\\`, `\(`, `\o7`, `\o400`, `\uD800`, `\foo`, `\u12`, `\o`, `\u`, `\backspace`, `\tab `, `\o-1`, `\u+123`,
	`"`, `"a\"b"`, "\"a\nb\"", `\"`, "nil", "true", "false", "+", "-", "+1", "-x", "%", "%1", "a/b", "::a/b", "::", ":", ".", "/",
	",", "\t", "\r", "\r\n", "\f", "\u00a0", "\u2007", "\u202f", "\u2008", "\u2006", "\u2028", "\u3000", "é", "日", "𝔘", ";", ";;", "comment", "(comment ", "ns", "(ns ", "def", "\x1c", "\x1d", "\x1e", "\u0085", "\xe9", "\xf0\x9f", `\` + "\xe9",
	"#tag", "# tag", "# _x", "#foo/bar", "## ", "##Inf", "#a{", "#_#_", "^:a", "^{", "#?(:clj ", "(:require ", "[a :as b]", "1e3", "3x", "a'b", "a#", "x`",
}

// Soup generates a sequence of random pieces.
func Soup(t *rapid.T) string {
	n := 1 + Int(t, 30)
	var b strings.Builder
	depth := []string{}
	for i := 0; i < n; i++ {
		p := pieces[Int(t, len(pieces))]
		if hot(t, 15) {
			p = Word(t)
		}
		if len(depth) > 0 && Pct(t, 15) {
			p = depth[len(depth)-1]
			depth = depth[:len(depth)-1]
		} else {
			switch p[len(p)-1] {
			case '(':
				depth = append(depth, ")")
			case '[':
				depth = append(depth, "]")
			case '{':
				depth = append(depth, "}")
			}
		}
		b.WriteString(p)
		if Pct(t, 25) {
			b.WriteString(" ")
		}
	}
	if Pct(t, 75) {
		for i := len(depth) - 1; i >= 0; i-- {
			b.WriteString(depth[i])
		}
	}
	return b.String()
}

// Mutate changes a text at one or more places.
func Mutate(t *rapid.T, src string) string {
	n := 1 + Int(t, 3)
	for i := 0; i < n; i++ {
		rs := []rune(src)
		if len(rs) == 0 {
			return pieces[Int(t, len(pieces))]
		}
		at := Int(t, len(rs))
		switch Weighted(t, 5, 3, 2, 2, 1, 1) {
		case 0: // insert a piece
			src = string(rs[:at]) + pieces[Int(t, len(pieces))] + string(rs[at:])
		case 1: // delete a character
			src = string(rs[:at]) + string(rs[at+1:])
		case 2: // cut short
			src = string(rs[:at])
		case 3: // replace a character
			src = string(rs[:at]) + pieces[Int(t, len(pieces))] + string(rs[at+1:])
		case 4: // delete a range
			end := at + Int(t, 8)
			if end > len(rs) {
				end = len(rs)
			}
			src = string(rs[:at]) + string(rs[end:])
		case 5: // duplicate a range
			end := at + Int(t, 12)
			if end > len(rs) {
				end = len(rs)
			}
			src = string(rs[:end]) + string(rs[at:])
		}
	}
	return src
}

// Bytes generates arbitrary bytes, with bytes that matter being likely.
func Bytes(t *rapid.T) string {
	n := Int(t, 40)
	b := make([]byte, n)
	for i := range b {
		if Pct(t, 40) {
			b[i] = byte(Int(t, 256))
		} else {
			s := pieces[Int(t, len(pieces))]
			b[i] = s[Int(t, len(s))]
		}
	}
	return string(b)
}

// Wild generates any text, valid or not.
func Wild(t *rapid.T) string {
	switch Weighted(t, 4, 4, 3) {
	case 0:
		return Soup(t)
	case 1:
		return Mutate(t, Source(t, func(p *Profile) {
			p.PrefixComments = true
			p.Strange = true
			p.Size = 4 + p.Size/2
		}))
	default:
		return Source(t, func(p *Profile) {
			p.PrefixComments = true
			p.Dangling = true
		})
	}
}

// Respace renders the tokens of a text with different horizontal whitespace
// and, if blank is set, different numbers of blank lines. Comments, tokens
// and (unless blank) line breaks are kept.
func Respace(t *rapid.T, src string, blank bool) (string, bool) {
	res := refclj.Parse(src)
	if res.Verdict != refclj.Accept {
		return "", false
	}
	p := Profile{Wide: 30, Tight: 20, CR: 0, NoBig: true, NoRename: true}
	g := New(t, p)
	type tok struct {
		text    string
		open    bool
		prefix  bool
		newline bool
		comment bool
	}
	var toks []tok
	var rec func(n *refclj.Node)
	rec = func(n *refclj.Node) {
		switch {
		case n.IsSeq():
			toks = append(toks, tok{text: n.Open()})
			for _, k := range n.Kids {
				rec(k)
			}
			toks = append(toks, tok{text: n.Close()})
		case n.IsPrefix():
			text := n.Prefix()
			if n.Kind == refclj.Meta && src[n.Start] == '#' {
				text = "#^"
			}
			toks = append(toks, tok{text: text, prefix: true})
			for _, k := range n.Dropped {
				rec(k)
			}
			for _, k := range n.Kids {
				rec(k)
			}
		case n.Kind == refclj.Newline:
			toks = append(toks, tok{text: "\n", newline: true})
		case n.Kind == refclj.Comment:
			toks = append(toks, tok{text: n.Text, comment: true})
		case n.Kind == refclj.Tag:
			s := "#" + n.Text
			if c := n.Text[0]; c == '_' || c == '?' || c == '=' || c == '!' || c == '<' {
				s = "# " + n.Text
			}
			toks = append(toks, tok{text: s, open: true})
		default:
			open := n.Kind != refclj.Str && n.Kind != refclj.Regex
			toks = append(toks, tok{text: n.AtomText(), open: open})
		}
	}
	for _, n := range res.Roots {
		rec(n)
	}
	space := func() {
		switch g.W(5, 3, 2, 1, 1) {
		case 0:
		case 1:
			g.Raw(" ")
		case 2:
			g.Raw(g.indent())
		case 3:
			g.Raw(g.spaces())
		case 4:
			g.Raw("    ")
		}
	}
	for i, tk := range toks {
		if tk.newline {
			prevComment := i > 0 && toks[i-1].comment
			if !prevComment { // (trailing whitespace would be part of the comment)
				if g.Pct(10) {
					g.Raw(g.Pick(" ", "\t", ",", "  "))
				}
			}
			if blank && i > 0 && toks[i-1].newline && g.Pct(50) {
				continue // one break less next to another one
			}
			if g.Pct(8) {
				g.Raw("\r")
			}
			g.Raw("\n")
			if blank {
				// one more break next to an existing one
				for g.Pct(15) {
					g.Raw("\n")
				}
			}
			g.Raw(g.indent())
			continue
		}
		if i > 0 && toks[i-1].comment {
			// A comment not followed by a line break was ended by CR.
			g.Raw("\r")
		}
		// # continues a token, so a space is needed there.
		if i > 0 && (tk.text[0] == '#') && g.last != 0 && g.lastOpen {
			g.Raw(" ")
		}
		if i > 0 && toks[i-1].prefix && g.last == '~' && toks[i-1].text == "~@" {
			g.last = 0
		}
		g.Tok(tk.text, tk.open)
		if tk.prefix {
			if tk.text == "~" {
				g.last = '~'
			} else {
				g.last = 0
			}
			if g.Pct(10) {
				g.Raw(g.Pick(" ", "\t", ","))
			}
			continue
		}
		if !tk.comment {
			space()
		}
	}
	return g.String(), true
}
