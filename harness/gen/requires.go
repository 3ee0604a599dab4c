package gen

import "pgregory.net/rapid"

// RequireSource writes a file whose ns form requires libraries and whose body
// mentions some of them.
func RequireSource(t *rapid.T) string {
	if Pct(t, 4) {
		return DenseNS(t)
	}
	p := RandomProfile(t)
	if Pct(t, 60) {
		p.Strange = false
	}
	if Pct(t, 50) {
		p.Meta, p.Tag, p.Discard = 0, 0, 0
	}
	g := New(t, p)
	if g.Pct(8) {
		g.mention(2)
		g.TopGap()
	}
	switch g.W(12, 2, 1) {
	case 0:
		g.nsRequires()
	case 1:
		g.NSForm()
	case 2:
		g.NSForm2()
	}
	for i, n := 0, g.W(2, 4, 4, 2, 1); i < n; i++ {
		g.TopGap()
		switch g.W(12, 2, 1) {
		case 0:
			g.mention(0)
		case 1:
			g.TopForm()
		case 2:
			if g.Pct(50) {
				g.Tok(g.Pick("#_", "'", "^:m ", "#t ", "#?(:clj "), false)
				g.nsRequires()
				g.Raw("\n")
				g.Tok("x", true)
				if g.Pct(30) {
					g.Raw(")")
				}
			} else {
				g.nsRequires()
			}
		}
	}
	if g.Pct(80) {
		g.Raw("\n")
	}
	return g.String()
}

var (
	reqLibs    = []string{"a.b", "a.b", "a-b.c", "lib", "my.ns", "a"}
	reqAliases = []string{"s", "t", "a", "lib"}
	reqNames   = []string{"f", "g", "+", "/", "->x", "s", "f'"}
)

func (g *G) nsRequires() {
	g.Tok("(", false)
	g.Tok("ns", true)
	g.Raw(" ")
	if g.Pct(g.P.Meta) {
		g.Tok("^{:a a.b/f}", false)
		g.Gap()
	}
	g.Tok("my.app", true)
	if g.Pct(8) {
		g.nsBreak()
		g.Tok("\"doc\"", false)
	}
	for i, n := 0, 1+g.N(3); i < n; i++ {
		g.nsBreak()
		if p := g.P.Meta + g.P.Tag + g.P.Discard; g.Pct(p / 3) {
			g.entryMarker()
		}
		switch g.W(8, 5, 2, 2, 1, 1, 1) {
		case 6:
			// A clause that does not count, before or after another one.
			g.Tok("#_", false)
			if g.Pct(40) {
				g.Tok("#_", false)
				g.Tok("x", true)
				g.Raw(" ")
			}
			g.entries("(", g.Pick(":import", ":import", ":require"), g.impEntry)
		case 0:
			g.entries("(", ":require", g.reqEntry)
		case 1:
			g.entries("(", ":use", g.useEntry)
		case 2:
			g.entries("(", ":require-macros", g.reqEntry)
		case 3:
			g.entries("(", ":import", g.impEntry)
		case 4:
			switch g.N(5) {
			case 0:
				g.entries("(", "require", g.reqEntry)
			case 1:
				g.entries("[", ":require", g.reqEntry)
			case 2:
				g.entries("(", "use", g.useEntry)
			case 3:
				g.entries("[", "use", g.useEntry)
			case 4:
				g.entries("[", "import", g.impEntry)
			}
		case 5:
			g.Tok(g.Pick("(:gen-class)", "(:refer-clojure :exclude [f])", "(:gen-class :init a.b/f)", "(refer-clojure)", "(:require)", "(:use)", "(:load \"a\")", "{:a s/f}", "(:use-macros [a.b])"), false)
		}
	}
	if g.Pct(10) {
		g.nsBreak()
	}
	g.Tok(")", false)
}

func (g *G) entries(open, head string, entry func()) {
	close := ")"
	if open == "[" {
		close = "]"
	}
	g.Tok(open, false)
	g.Tok(head, true)
	for i, n := 0, g.long(g.W(1, 4, 5, 4, 2)); i < n; i++ {
		if i == 0 && g.Pct(60) {
			if g.Pct(g.P.Comment / 2) {
				g.Raw(" ")
				g.CommentText()
				g.Raw("\n")
			} else {
				g.Raw(" ")
			}
		} else {
			g.entryGap()
		}
		if g.Pct(50) {
			g.entryMarker()
		}
		entry()
	}
	switch {
	case g.Pct(g.P.Comment):
		g.Raw(" ")
		g.CommentText()
		g.Raw("\n")
		if g.Pct(30) {
			g.CommentText()
			g.Raw("\n")
		}
	case g.Pct(10):
		g.Newline()
	}
	g.Tok(close, false)
}

func (g *G) reqLib() {
	if g.Pct(g.P.Meta / 3) {
		g.Tok(g.Pick("^:m", "^a"), true)
		g.Gap()
	}
	g.Tok(g.Pick(reqLibs...), true)
}

func (g *G) reqNames() {
	open, close := "[", "]"
	if g.Pct(20) {
		open, close = "(", ")"
	}
	g.Call1(open, close, g.long(g.W(1, 5, 5, 2)), func(int) {
		if g.Pct(1) {
			g.Expr(6)
			return
		}
		if g.Pct(g.P.Discard / 4) {
			g.Tok("#_", false)
			g.Tok("g", true)
			g.Gap()
		}
		g.Tok(g.Pick(reqNames...), true)
	})
}

func (g *G) reqEntry() {
	g.nodes++
	switch g.W(3, 14, 3, 2) {
	case 0:
		g.reqLib()
		return
	case 2:
		g.Call1("[", "]", 1, func(int) { g.reqLib() })
		return
	case 3:
		g.RequireEntry()
		return
	}
	open, close := "[", "]"
	if g.Pct(12) {
		open, close = "(", ")"
	}
	opts := [][]int{{0}, {0}, {1}, {1}, {0, 1}, {1, 0}, {0, 1, 2}, {2}, {3}, {0, 3}, {4}, {0, 4}, {4, 1}}
	if g.Pct(5) {
		opts = [][]int{{0, 0}, {1, 1}, {0, 1, 0}, {1, 3}}
	}
	opt := opts[g.N(len(opts))]
	g.Call1(open, close, 1+2*len(opt), func(i int) {
		switch {
		case i == 0:
			g.reqLib()
		case i%2 == 1:
			switch opt[i/2] {
			case 0:
				g.Tok(":as", true)
				g.Gap()
				g.Tok(g.Pick(reqAliases...), true)
			case 1:
				g.Tok(":refer", true)
				g.Gap()
				g.reqNames()
			case 2:
				g.Tok(":refer-macros", true)
				g.Gap()
				g.reqNames()
			case 3:
				g.Tok(":refer", true)
				g.Gap()
				g.Tok(":all", true)
			case 4:
				g.Tok(g.Pick(":include-macros", ":rename", ":exclude", ":as-alias", ":only", ":reload"), true)
				g.Gap()
				g.Tok(g.Pick("true", "{f g}", "[f]", "x"), false)
			}
		}
	})
}

func (g *G) useEntry() {
	g.nodes++
	switch g.W(5, 3, 7, 1, 1, 1) {
	case 0:
		g.reqLib()
	case 1:
		g.Call1("[", "]", 1, func(int) { g.reqLib() })
	case 2:
		open, close := "[", "]"
		if g.Pct(20) {
			open, close = "(", ")"
		}
		g.Call1(open, close, 3, func(i int) {
			switch i {
			case 0:
				g.reqLib()
			case 1:
				g.Tok(":only", true)
			case 2:
				g.reqNames()
			}
		})
	case 3:
		g.Call1("[", "]", 3, func(i int) {
			switch i {
			case 0:
				g.reqLib()
			case 1:
				g.Tok(g.Pick(":as", ":exclude", ":refer"), true)
			case 2:
				if g.Pct(30) {
					g.reqNames()
				} else {
					g.Tok(g.Pick(reqAliases...), true)
				}
			}
		})
	case 4:
		g.Tok(g.Pick(":reload", ":verbose", "[a.b f g]", "(a b c)", "\"a.b\"", "'a.b"), true)
	case 5:
		g.UseEntry()
	}
}

func (g *G) impEntry() {
	g.nodes++
	switch g.W(3, 4, 1) {
	case 0:
		g.Tok(g.Pick("a.b.C", "a_b.c.D", "lib.K", "java.util.Date", "Foo"), true)
	case 1:
		open, close := "(", ")"
		if g.Pct(30) {
			open, close = "[", "]"
		}
		first := true
		g.Seq(open, close, 1+g.N(3), func(int) {
			if first {
				first = false
				if g.Pct(g.P.Meta / 2) {
					g.Tok("^:m", true)
					g.Gap()
				}
				g.Tok(g.Pick("a.b", "a_b.c", "a-b.c", "lib", "java.io"), true)
				return
			}
			g.Tok(g.Pick("C", "D"), true)
		})
	case 2:
		g.ImportEntry()
	}
}

// mention writes code that may use aliases, names and libraries.
func (g *G) mention(d int) {
	g.nodes++
	ns := g.Pick("s", "t", "a", "lib", "a.b", "a-b.c", "a_b.c", "my.ns", "x")
	name := g.Pick(append(reqNames, "k", "f.", "m")...)
	if d < 4 && g.Pct(40) {
		open, close := "(", ")"
		switch g.W(4, 1, 1, 1, 1, 1) {
		case 1:
			open, close = "[", "]"
		case 2:
			open, close = "#(", ")"
		case 3:
			open, close = "#{", "}"
		case 4:
			open, close = "#::"+ns+"{", "}"
		case 5:
			open, close = "#?(", ")"
		}
		n := 2
		if open == "(" || open == "[" {
			n = g.N(4)
		}
		g.Seq(open, close, n, func(i int) {
			if close == "}" && i == 0 {
				g.Tok(g.Pick(":k", "1"), true)
				return
			}
			if open == "#?(" {
				if i == 0 {
					g.Tok(":clj", true)
					return
				}
			}
			g.mention(d + 1)
		})
		return
	}
	switch g.W(8, 8, 2, 2, 2, 1, 1, 1, 1, 1, 1) {
	case 0:
		g.Tok(ns+"/"+g.Pick("f", "g", "/", "k"), true)
	case 1:
		g.Tok(name, true)
	case 2:
		g.Tok("#'"+ns+"/f", true)
	case 3:
		g.Tok("#'"+name, true)
	case 4:
		g.Tok("::"+ns+"/k", true)
	case 5: // these mention nothing
		g.Tok(g.Pick(":"+ns+"/k", "\""+ns+"/f\"", "::"+ns, ":"+name, "::"+name, "#:"+ns+"{:k 1}", "\\f", "#\"f\"", "0"), true)
	case 6:
		g.Tok(g.Pick("'", "`", "~", "@", "#_", "#_ ", "~@"), false)
		g.mention(d + 1)
		g.Gap()
		g.Tok("x", true)
	case 7:
		g.Tok("^", false)
		g.mention(d + 1)
		g.Gap()
		g.Tok("x", true)
	case 8:
		g.Tok("#t", true)
		g.Raw(" ")
		g.mention(d + 1)
	case 9:
		g.Tok("{"+ns+"/k 1}", false)
	case 10:
		g.CommentText()
		g.Raw("\n")
		g.Tok("x", true)
	}
}

// DenseNS writes a file whose ns form has many entries for few libraries, with
// aliases and referred names that resemble one another (so that what is kept in
// a map, or sorted by something else than the whole name, shows).
func DenseNS(t *rapid.T) string {
	similar := func(n int) []string {
		stem := Pick(t, "", "a", "x", "ab", "a-b", "Z")
		tail := Pick(t, "", "", "", "z", "1")
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, stem+Pick(t, "a", "b", "c", "d", "e", "A", "B", "1x", "10", "9", "aa", "-", "?")+tail)
			if c := names[i][0]; c >= '0' && c <= '9' || names[i] == "-" {
				names[i] = "n" + names[i]
			}
		}
		return names
	}
	libs := similar(1 + Int(t, 3))
	for i := range libs {
		libs[i] = Pick(t, "", "l.", "l.m.") + libs[i]
	}
	names := similar(2 + Int(t, 6))
	name := func() string { return names[Int(t, len(names))] }
	list := func() string {
		s := "["
		for i, n := 0, 1+Int(t, 4); i < n; i++ {
			if i > 0 {
				s += " "
			}
			s += name()
		}
		return s + "]"
	}
	s := "(ns " + Pick(t, "n", "my.ns")
	for i, n := 0, 1+Int(t, 4); i < n; i++ {
		use := Pct(t, 30)
		s += "\n  (" + map[bool]string{true: ":use", false: Pick(t, ":require", ":require", ":require", ":require-macros")}[use]
		for j, m := 0, 1+Int(t, 4); j < m; j++ {
			lib := libs[Int(t, len(libs))]
			s += Pick(t, "\n    ", "\n    ", "\n    ", " ")
			if use {
				switch Int(t, 4) {
				case 0:
					s += lib
				case 1:
					s += "[" + lib + " :as " + name() + "]"
				default:
					s += "[" + lib + " :only " + list() + "]"
				}
				continue
			}
			s += "[" + lib
			if Pct(t, 65) {
				s += " :as " + name()
			}
			if Pct(t, 50) {
				s += " :refer " + list()
			}
			if Pct(t, 15) {
				s += " :refer-macros " + list()
			}
			s += "]"
		}
		s += ")"
	}
	s += ")\n"
	for i, n := 0, Int(t, 5); i < n; i++ {
		s += "\n(" + Pick(t, name()+"/", "", libs[0]+"/") + Pick(t, name(), "foo", "let") + " a\n  b\n  c)\n"
	}
	return s
}
