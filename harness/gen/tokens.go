package gen

import (
	"fmt"
	"strings"
)

func (g *G) digits(base, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte("0123456789abcdefghijklmnopqrstuvwxyz"[g.N(base)])
	}
	return b.String()
}

// anySym makes a symbol of any kind.
func (g *G) anySym() string {
	s := Name(g.T)
	for i, n := 0, g.W(6, 2, 1, 1); i < n; i++ {
		s += "." + Name(g.T)
	}
	if g.Pct(25) {
		s += "/" + Name(g.T)
	}
	if g.Pct(4) {
		s = "." + s
	} else if g.Pct(4) {
		s += "."
	}
	return s
}

func (g *G) anyNumber() string {
	s := g.Pick("", "", "-", "+")
	switch g.W(4, 2, 2, 2, 2, 1) {
	case 0:
		s += g.digits(10, 1+g.N(25))
	case 1:
		s += g.digits(10, 1+g.N(3)) + "." + g.digits(10, g.N(8))
	case 2:
		s += "0" + g.Pick("x", "X", "", "0") + g.digits(8, 1+g.N(8))
	case 3:
		s += g.digits(10, 1+g.N(3)) + "/" + g.digits(10, 1+g.N(3))
	case 4:
		s += g.digits(10, 1+g.N(3)) + g.Pick("e", "E", "e-", "E+", ".5e") + g.digits(10, 1+g.N(2))
	case 5:
		s += fmt.Sprint(2+g.N(35)) + g.Pick("r", "R") + g.digits(36, 1+g.N(4))
	}
	return s + g.Pick("", "", "", "", "N", "M")
}

// charRunes are characters that may follow the backslash of a character
// literal, among others.
const charRunes = "abcxyznorstu0189!?*+-_<>=&%$#|'./:;,\"()[]{}@^`~\\éλ日\u00a0\u2007\u202f😀"

func (g *G) anyChar() string {
	switch g.W(6, 2, 2) {
	case 0:
		rs := []rune(charRunes)
		return `\` + string(rs[g.N(len(rs))])
	case 1:
		return fmt.Sprintf(`\o%o`, g.N(256))
	default:
		n := 16*g.N(256) + g.N(16) + 4096*g.N(13) // below the surrogates
		if g.Pct(20) {
			n = 0xe000 + g.N(256)*32 + g.N(32)
		}
		format := `\u%04x`
		if g.Pct(50) {
			format = `\u%04X`
		}
		return fmt.Sprintf(format, n)
	}
}

func (g *G) anyString() string {
	var b strings.Builder
	for i, n := 0, g.N(12); i < n; i++ {
		switch g.W(8, 3, 2, 1) {
		case 0:
			b.WriteByte(" !#$%&'()*+,-./09:;<=>?@AZ[]^_`az{|}~"[g.N(37)])
		case 1:
			b.WriteString(g.Pick(`\"`, `\\`, `\n`, `\t`, `\r`, `\b`, `\f`, `\0`, `\377`, `\d`, `\Q`, `\(`))
		case 2:
			b.WriteString(g.Pick("lorem ", "ipsum", ";; x", "(a", "#_", "``", "''"))
		case 3:
			fmt.Fprintf(&b, `\u%04x`, g.N(256)*8)
		}
	}
	return b.String()
}

// anyAtom writes a leaf that isn't one of the usual ones.
func (g *G) anyAtom() {
	switch g.W(6, 3, 3, 3, 2, 1, 1) {
	case 0:
		g.Tok(g.anySym(), true)
	case 1:
		g.Tok(g.Pick(":", "::")+strings.TrimLeft(g.anySym(), "."), true)
	case 2:
		g.Tok(g.anyNumber(), true)
	case 3:
		g.Tok(g.anyChar(), true)
	case 4:
		g.Tok(`"`+g.anyString()+`"`, false)
	case 5:
		g.Tok(`#"`+g.anyString()+`"`, false)
	case 6:
		if g.P.Strange {
			// a character literal of whitespace
			g.Tok(`\`+g.Pick(" ", ",", "\t"), true)
		} else {
			g.Tok("x", true)
		}
	}
}
