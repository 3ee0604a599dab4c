package gen

import "pgregory.net/rapid"

// NSSource writes a file around ns forms as people write them: clauses with
// several entries, comments above and beside them.
func NSSource(t *rapid.T) string {
	p := RandomProfile(t)
	if Pct(t, 50) {
		p.Strange = false
	}
	g := New(t, p)
	if g.Pct(10) {
		g.TopForm()
		g.TopGap()
	}
	if g.Pct(25) {
		g.NSForm()
	} else {
		g.NSForm2()
	}
	for i, n := 0, g.W(5, 3, 1); i < n; i++ {
		g.TopGap()
		switch g.W(4, 1, 1, 1, 1) {
		case 0:
			g.TopForm()
		case 1:
			g.NSForm2()
		case 2: // look-alikes
			g.Tok(g.Pick("#_", "'", "^", "#t ", "`"), false)
			g.NSForm2()
			g.Raw("\n")
			g.Tok("x", true)
		case 3:
			g.clause2(g.Pick("(:require", "(:import", "(:use", "(require"))
		case 4:
			g.Seq("(", ")", 2, func(i int) {
				if i == 0 {
					g.Tok(g.Pick("do", "a/ns", "comment", "nss"), true)
				} else {
					g.NSForm2()
				}
			})
		}
	}
	if g.Pct(80) {
		g.Raw("\n")
	}
	return g.String()
}

// NSForm2 writes an ns form whose clauses stand on lines of their own.
func (g *G) NSForm2() {
	g.Tok("(", false)
	g.Tok("ns", true)
	g.Raw(" ")
	if g.Pct(15) {
		g.Tok("^", false)
		if g.Pct(50) {
			g.Tok(":m", true)
		} else {
			g.Tok("{:doc \"b\\na\"}", false)
		}
		g.Raw(" ")
	}
	g.Tok("my.app", true)
	if g.Pct(12) {
		g.nsBreak()
		g.Tok("\"doc\n  string\"", false)
	}
	for i, n := 0, 1+g.N(4); i < n; i++ {
		g.nsBreak()
		switch g.W(10, 5, 3, 3, 1, 1, 1, 2, 1) {
		case 0:
			g.clause2("(:require")
		case 1:
			g.clause2("(:import")
		case 2:
			g.clause2("(:use")
		case 3:
			g.clause2("(:require-macros")
		case 4:
			g.clause2(g.Pick("(require", "[:require", "[require", "(require-macros"))
		case 5:
			g.clause2(g.Pick("(import", "[:import", "[import"))
		case 6:
			g.clause2(g.Pick("(use", "[:use", "[use"))
		case 7:
			g.Tok(g.Pick("(:refer-clojure :exclude [get])", "(:gen-class)", "(:gen-class :name x)", "(refer-clojure :only [map])",
				"(:refer-clojure)", "(:load \"x\")", "[load \"a\" \"b\"]", "(:refer x)", "(:use-macros [b] [a])", "{:k v}", ":kw", "(gen-class\n:a b)", "(:require)", "(:import)"), false)
		case 8:
			if g.Pct(50) {
				g.Tok(g.Pick("#_", "^:m", "#t", "'", "^{:a 1}\n", "#_ #_"), true)
				g.Raw(" ")
			} else {
				g.Tok(g.Pick("#_", "^:m ", "#t "), false)
			}
			g.clause2(g.Pick("(:require", "(:import", "(:use"))
		}
	}
	if g.Pct(15) {
		g.nsBreak()
	}
	g.Tok(")", false)
}

// nsBreak writes what stands between two clauses.
func (g *G) nsBreak() {
	if g.Pct(g.P.Comment) {
		g.Raw(" ")
		if g.Pct(60) {
			g.CommentText()
		}
		g.Raw("\n  ")
		if g.Pct(60) {
			g.CommentText()
			g.Raw("\n")
		}
		return
	}
	if g.Pct(80) {
		g.Newline()
	} else {
		g.Gap()
	}
}

func (g *G) clause2(open string) {
	close := ")"
	if open[0] == '[' {
		close = "]"
	}
	g.Tok(open[:1], false)
	g.Tok(open[1:], true)
	kind := open[1:]
	if kind[0] == ':' {
		kind = kind[1:]
	}
	n := g.long(g.W(1, 2, 5, 5, 4, 2))
	for i := 0; i < n; i++ {
		switch {
		case i == 0 && g.Pct(50):
			if g.Pct(g.P.Comment / 2) {
				g.Raw(" ")
				g.CommentText()
				g.Raw("\n")
			} else {
				g.Raw(" ")
			}
		default:
			g.entryGap()
		}
		g.entryMarker()
		switch kind {
		case "import":
			g.importEntry2()
		case "use":
			g.UseEntry()
		default:
			g.requireEntry2()
		}
	}
	switch {
	case g.Pct(g.P.Comment):
		g.Raw(" ")
		g.CommentText()
		g.Raw("\n")
		if g.Pct(30) {
			g.CommentText()
			g.Raw("\n")
		}
	case g.Pct(10):
		g.Newline()
	}
	g.Tok(close, false)
}

// entryGap stands between two entries.
func (g *G) entryGap() {
	if g.Pct(g.P.Comment) {
		g.Raw(" ")
		g.CommentText()
	}
	if g.last == 0 || !g.Pct(15) {
		g.Raw("\n")
	} else {
		g.Gap()
		return
	}
	if g.Pct(g.P.Blank) {
		g.Raw("\n")
	}
	for i := 0; i < 2 && g.Pct(g.P.Comment); i++ {
		g.Raw("  ")
		g.CommentText()
		g.Raw("\n")
		if g.Pct(g.P.Blank) {
			g.Raw("\n")
		}
	}
	g.Raw(g.indent())
}

func (g *G) entryMarker() {
	p := g.P.Meta + g.P.Tag + g.P.Discard
	if !g.Pct(p / 2) {
		return
	}
	for {
		switch g.W(g.P.Meta, g.P.Tag, g.P.Discard) {
		case 0:
			g.Tok("^", false)
			g.Tok(g.Pick(":m", "M", "{:a b}"), true)
		case 1:
			g.Tok("#t", true)
		case 2:
			g.Tok("#_", false)
			if g.Pct(30) {
				g.Tok(g.Pick("x", "[z.z]", "(a b)", "^:m z"), true)
				g.Gap()
			}
		}
		g.Gap()
		if !g.Pct(20) {
			return
		}
	}
}

var sortNames = []string{"a", "a.b", "a.b.c", "b", "b.a", "a-b", "ab", "B", "c.d", "é", "my.ns", "a.b"}

func (g *G) requireEntry2() {
	name := g.Pick(sortNames...)
	switch g.W(3, 8, 2, 2, 1, 2, 2) {
	case 0:
		g.Tok(name, true)
	case 1:
		open, close := "[", "]"
		if g.Pct(15) {
			open, close = "(", ")"
		}
		n := g.W(3, 5, 2)
		g.Seq(open, close, 1+n, func(i int) {
			switch {
			case i == 0:
				if g.Pct(g.P.Meta) {
					g.Tok("^:q", true)
					g.Gap()
				}
				g.Tok(name, true)
			case i == 1 && g.Pct(60):
				g.Tok(":as", true)
				g.Gap()
				g.Tok(g.Pick("s", "t", "u"), true)
			default:
				g.Tok(":refer", true)
				g.Gap()
				if g.Pct(20) {
					g.Tok(":all", true)
				} else {
					g.Names()
				}
			}
		})
	case 2: // prefix list
		open, close := "(", ")"
		if g.Pct(40) {
			open, close = "[", "]"
		}
		g.Seq(open, close, 2+g.N(2), func(i int) {
			if i == 0 {
				g.Tok(name, true)
				return
			}
			switch g.W(2, 2, 1) {
			case 0:
				g.Sym(g.Pick("sub", "other"))
			case 1:
				g.libspec("[", "]")
			case 2:
				g.libspec("(", ")")
			}
		})
	case 3:
		g.Tok(g.Pick(`"react"`, `"npm/x"`, `["react" :as r]`, `"b"`), false)
	case 4:
		g.Tok(g.Pick(":reload", ":verbose"), true)
	case 5:
		g.Tok(g.Pick("#?(:clj [x.y :as z])", "#?@(:clj [[x.y] [a.b]] :cljs [c])", "[]", "()", "{a b}", "'a", "[:x a]", "[[b]]", "nil"), false)
	case 6:
		g.RequireEntry()
	}
}

func (g *G) importEntry2() {
	switch g.W(4, 5, 1) {
	case 0:
		g.Tok(g.Pick("java.util.Date", "java.io.File", "a.b.C", "Foo", "x_y.z.K", "java.util.UUID", "B", "java.util.Map$Entry", "a$b.C", "x-y.z*.K'", "A$B"), true)
	case 1:
		open, close := "(", ")"
		if g.Pct(30) {
			open, close = "[", "]"
		}
		g.Seq(open, close, 1+g.N(4), func(i int) {
			if i == 0 {
				g.Tok(g.Pick("java.util", "java.io", "a.b", "x_y.z", "b"), true)
			} else {
				g.Tok(g.Pick("Date", "File", "UUID", "Map$Entry"), true)
			}
		})
	case 2:
		g.ImportEntry()
	}
}
