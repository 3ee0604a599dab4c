package gen

import "strings"

// ThreadForm writes a thread-first form with pair-style forms in it.
func (g *G) ThreadForm(open string, d int, heads []string) {
	g.nodes++
	head := g.Pick(heads...)
	n := 1 + g.N(5)
	g.Seq(open, ")", n+1, func(i int) {
		if i == 0 {
			g.Tok(head, true)
			return
		}
		if g.Pct(15) {
			g.Marker(d + 1)
		}
		switch g.W(8, 3, 2, 1, 1, 1) {
		case 0:
			g.CondForm("(", g.Pick(append([]string{"assoc", "assoc", "case", "condp", "cond->", "cond", "foo", "bar", "c2"}, g.P.Heads...)...), d+1)
		case 1:
			if d < 4 {
				g.ThreadForm("(", d+1, heads)
			} else {
				g.Atom()
			}
		case 2:
			g.Atom()
		case 3:
			g.Expr(d + 1)
		case 4:
			g.nodes++
			g.Tok(g.Pick("'", "@", "`"), false)
			g.last = 0
			g.CondForm("(", "assoc", d+1)
		case 5:
			if g.inFn || d > 4 {
				g.Atom()
				return
			}
			g.hash()
			g.inFn = true
			g.ThreadForm("#(", d+1, heads)
			g.inFn = false
		}
	})
}

// ThreadFile writes a text around thread-first forms.
func (g *G) ThreadFile(heads []string) {
	n := 1 + g.N(3)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.TopGap()
		}
		switch g.W(4, 1, 1, 1) {
		case 0:
			g.ThreadForm("(", 0, heads)
		case 1:
			g.Seq("(", ")", 3, func(i int) {
				switch i {
				case 0:
					g.Tok(g.Pick("foo", "let", "defn", "reify", "cond"), true)
				default:
					g.ThreadForm("(", 1, heads)
				}
			})
		case 2:
			g.hash()
			g.inFn = true
			g.ThreadForm("#(", 0, heads)
			g.inFn = false
		case 3:
			g.Expr(0)
		}
	}
	g.Raw("\n")
}

// Names of C13's small world.
var (
	OverLibs    = []string{"my.ns", "other.ns", "lib", "a.b"}
	OverAliases = []string{"m", "o", "n", "my.nsx", "a", "lib"}
	OverNames   = []string{"f", "g", "when", "let", "defx", "cond", "foo", "map"}
)

// Spec describes what an ns form of OverrideFile requires.
type Spec struct {
	Lib    string
	As     string
	Refers []string
}

// OverrideFile writes an ns form (or several) and calls of names with and
// without qualifiers. It returns what the ns forms say.
func (g *G) OverrideFile() []Spec {
	var specs []Spec
	usedAlias := map[string]bool{}
	usedRefer := map[string]bool{}
	libs := append([]string(nil), OverLibs...)
	for i := range libs {
		j := i + g.N(len(libs)-i)
		libs[i], libs[j] = libs[j], libs[i]
	}
	for _, lib := range libs[:g.N(len(libs)+1)] {
		s := Spec{Lib: lib}
		if a := g.Pick(OverAliases...); g.Pct(65) && !usedAlias[a] {
			usedAlias[a] = true
			s.As = a
		}
		if g.Pct(50) {
			for i, n := 0, 1+g.N(3); i < n; i++ {
				if r := g.Pick(OverNames...); !usedRefer[r] {
					usedRefer[r] = true
					s.Refers = append(s.Refers, r)
				}
			}
		}
		specs = append(specs, s)
	}
	// Distribute the specs over one or two ns forms with one or two clauses.
	rest := specs
	forms := 1
	if g.Pct(15) {
		forms = 2
	}
	if len(specs) == 0 && g.Pct(50) {
		forms = 0
	}
	bodyFirst := g.Pct(10)
	body := func() {
		for i, n := 0, 1+g.N(4); i < n; i++ {
			g.overCall(0)
			g.Newline()
		}
	}
	if bodyFirst {
		body()
	}
	decoy := func() {
		if g.Pct(15) {
			g.overDecoy()
			g.Newline()
		}
	}
	decoy()
	for f := 0; f < forms; f++ {
		take := len(rest)
		if f < forms-1 {
			take = g.N(len(rest) + 1)
		}
		mine := rest[:take]
		rest = rest[take:]
		clauses := g.W(1, 5, 2)
		decoyAt := -1
		if g.Pct(12) {
			decoyAt = g.N(clauses + 1)
		}
		if len(mine) > 0 && clauses == 0 {
			clauses = 1
		}
		g.Call1("(", ")", 2+clauses, func(i int) {
			switch i {
			case 0:
				g.Tok("ns", true)
			case 1:
				if g.Pct(10) {
					g.Tok("^", false)
					g.Tok(":a", true)
					g.Gap()
				}
				g.Tok("app", true)
			default:
				k := len(mine)
				if i < 1+clauses {
					k = g.N(len(mine) + 1)
				}
				part := mine[:k]
				mine = mine[k:]
				if decoyAt == i-2 {
					g.overClause(g.Pick(":use", ":import", ":refer-clojure", ":require*", ":requires", ":load", ":Require", "require*", ":x/require", "other"))
					g.Gap()
				}
				g.Call1("(", ")", 1+len(part), func(j int) {
					if j == 0 {
						g.Tok(g.Pick(":require", ":require", ":require-macros"), true)
						return
					}
					g.overSpec(part[j-1])
				})
			}
		})
		g.Newline()
	}
	decoy()
	if !bodyFirst || g.Pct(50) {
		body()
	}
	return specs
}

// overDecoy writes a form that looks like an ns form, or like one that
// requires libraries, but isn't.
func (g *G) overDecoy() {
	switch g.W(4, 2, 2, 2) {
	case 0:
		g.Seq("(", ")", 3, func(i int) {
			switch i {
			case 0:
				g.Tok(g.Pick("in-ns", "do", "my-ns", "NS", "n", "nss", "x", "defns", "module", ":ns", "ns*"), true)
			case 1:
				g.Tok("app", true)
			case 2:
				g.overClause(g.Pick(":require", ":require-macros"))
			}
		})
	case 1:
		g.Seq("(", ")", 2, func(i int) {
			if i == 0 {
				g.Tok(g.Pick("require", ":require", ":require-macros", "require-macros"), true)
				return
			}
			g.Tok(g.Pick("'", ""), false)
			g.last = 0
			g.overSpec(g.decoySpec())
		})
	case 2:
		g.Tok(g.Pick("'", "#_", "`", "@"), false)
		g.last = 0
		g.Seq("(", ")", 3, func(i int) {
			switch i {
			case 0:
				g.Tok("ns", true)
			case 1:
				g.Tok("app", true)
			case 2:
				g.overClause(":require")
			}
		})
	case 3:
		g.Seq("[", "]", 3, func(i int) {
			switch i {
			case 0:
				g.Tok("ns", true)
			case 1:
				g.Tok("app", true)
			case 2:
				g.overClause(":require")
			}
		})
	}
}

func (g *G) decoySpec() Spec {
	s := Spec{Lib: g.Pick(OverLibs...), As: g.Pick(OverAliases...)}
	for i, n := 0, g.N(3); i < n; i++ {
		s.Refers = append(s.Refers, g.Pick(OverNames...))
	}
	return s
}

func (g *G) overClause(head string) {
	g.Seq("(", ")", 2+g.N(2), func(i int) {
		if i == 0 {
			g.Tok(head, true)
			return
		}
		g.overSpec(g.decoySpec())
	})
}

func (g *G) overSpec(s Spec) {
	if g.Pct(8) {
		g.Tok("^:x", true)
		g.Gap()
	}
	open, close := "[", "]"
	if g.Pct(15) {
		open, close = "(", ")"
	}
	type opt func()
	var opts []opt
	if s.As != "" {
		opts = append(opts, func() { g.Tok(":as", true); g.Gap(); g.Tok(s.As, true) })
	}
	if len(s.Refers) > 0 {
		opts = append(opts, func() {
			g.Tok(g.Pick(":refer", ":refer", ":refer-macros"), true)
			g.Gap()
			o, c := "[", "]"
			if g.Pct(20) {
				o, c = "(", ")"
			}
			g.Seq(o, c, len(s.Refers), func(i int) { g.Tok(s.Refers[i], true) })
		})
	}
	if g.Pct(12) {
		opts = append(opts, func() { g.Tok(":include-macros", true); g.Gap(); g.Tok("true", true) })
	}
	if g.Pct(4) {
		opts = append(opts, func() { g.Tok(":rename", true); g.Gap(); g.Tok("{}", false) })
	}
	for i := range opts {
		j := i + g.N(len(opts)-i)
		opts[i], opts[j] = opts[j], opts[i]
	}
	if len(opts) == 0 && g.Pct(50) {
		g.Tok(s.Lib, true)
		return
	}
	g.Seq(open, close, 1+len(opts), func(i int) {
		if i == 0 {
			g.Tok(s.Lib, true)
			return
		}
		opts[i-1]()
	})
}

// OverSym is a symbol as the body may write it.
func (g *G) OverSym() string {
	name := g.Pick(OverNames...)
	switch g.W(3, 5, 3, 1) {
	case 0:
		return name
	case 1:
		return g.Pick(OverAliases...) + "/" + name
	case 2:
		return g.Pick(OverLibs...) + "/" + name
	default:
		return g.Pick("zz", "my", "ns", "my.ns.x", "m.n") + "/" + name
	}
}

func (g *G) overCall(d int) {
	g.nodes++
	n := 2 + g.N(4)
	g.Seq("(", ")", n+1, func(i int) {
		if i == 0 {
			g.Tok(g.OverSym(), true)
			return
		}
		switch g.W(5, 2, 2) {
		case 0:
			g.Tok(g.Pick("x", "y", ":k", "1"), true)
		case 1:
			if d < 3 {
				g.overCall(d + 1)
			} else {
				g.Tok("x", true)
			}
		case 2:
			g.Seq("[", "]", g.N(5), func(int) {
				if g.Pct(30) && d < 3 {
					g.overCall(d + 2)
				} else {
					g.Tok(g.Pick("x", "y", ":let"), true)
				}
			})
		}
	})
}

// BreakFile writes a file of forms whose line breaks get fixed.
func (g *G) BreakFile() {
	for i, n := 0, 1+g.N(4); i < n; i++ {
		if i > 0 {
			g.TopGap()
		}
		switch g.W(4, 4, 6, 2, 2) {
		case 4: // not at top level, or behind a prefix
			form := func(int) {
				if g.Pct(50) {
					g.defnLike("defn")
				} else {
					g.defmethodLike("defmethod")
				}
			}
			switch g.W(1, 1, 3) {
			case 0:
				g.Seq("[", "]", 1, form)
			case 1:
				g.Tok("(do ", false)
				g.last = 0
				form(0)
				g.Tok(")", false)
			case 2:
				g.Tok(g.Pick("#_", "'", "^:x ", "#t "), false)
				g.last = 0
				form(0)
			}
		default:
			g.breakForm(0)
		}
	}
	g.Raw(g.Pick("\n", "", "\n\n"))
}

func (g *G) breakForm(d int) {
	switch g.W(3, 3, 4, 2) {
	case 0:
		g.defnLike(g.Pick("defn", "defn", "defn", "defn-", "defmacro", "a/defn", "fn"))
	case 1:
		g.defmethodLike(g.Pick("defmethod", "defmethod", "defmethod", "defmulti", "a/defmethod"))
	case 2:
		g.ifForm(d)
	case 3:
		g.TopForm()
	}
}

// lineGap is mostly a line break.
func (g *G) lineGap() {
	switch g.W(12, 4, 2, 2) {
	case 0:
		g.Raw("\n")
		g.Raw(g.indent())
	case 1:
		g.Raw(" ")
	case 2:
		g.Newline()
	case 3:
		g.Gap()
	}
}

func (g *G) small(d int) {
	if d < 4 && g.Pct(30) {
		g.ifForm(d + 1)
		return
	}
	switch g.W(4, 2, 2, 1) {
	case 0:
		g.Tok(g.Pick("a", "b", ":k", "1", "nil", "\"s\"", "\"a\n b\""), true)
	case 1:
		g.Tok("(f", true)
		g.Gap()
		g.Tok(g.Pick("x", "y"), true)
		g.Tok(")", false)
	case 2:
		g.Tok("[", false)
		g.Tok(g.Pick("x", "x y"), true)
		g.Tok("]", false)
	case 3:
		g.Expr(5)
	}
}

func (g *G) smallMarker() {
	switch {
	case g.Pct(g.P.Meta):
		g.Tok(g.Pick("^:m", "^{:a 1}", "^String"), true)
		g.Gap()
	case g.Pct(g.P.Tag):
		g.Tok("#t", true)
		g.Gap()
	case g.Pct(g.P.Discard):
		g.Tok(g.Pick("#_x", "#_ (y)", "#_#_ p q"), true)
		g.Gap()
	}
}

func (g *G) defnLike(head string) {
	g.nodes++
	g.Tok("(", false)
	if g.Pct(2) {
		g.Gap()
	}
	g.Tok(head, true)
	switch g.W(20, 1, 1) {
	case 0:
		g.Raw(" ")
	case 1:
		g.Gap()
	case 2:
		g.Raw("\n")
	}
	if g.Pct(95) {
		g.smallMarker()
		g.Tok(g.Pick("f", "foo", "my-fn"), true)
		g.lineGap()
	}
	if g.Pct(10) {
		g.Tok("\"doc\"", false)
		g.lineGap()
	}
	if g.Pct(4) {
		g.smallMarker()
	}
	switch g.W(12, 1, 1, 1) {
	case 0:
		g.Tok(g.Pick("[]", "[x]", "[x & y]", "[{:keys [a]}]", "[x\n y]"), false)
	case 1:
		g.Tok("([x] y)", false)
	case 2:
		g.Tok(":kw", true)
	case 3:
	}
	for i, n := 0, g.W(2, 5, 3, 1); i < n; i++ {
		if i == 0 && g.Pct(55) {
			g.Raw(" ")
		} else {
			g.Gap()
		}
		g.small(1)
	}
	if g.Pct(5) {
		g.Gap()
	}
	g.Tok(")", false)
}

func (g *G) defmethodLike(head string) {
	g.nodes++
	g.Tok("(", false)
	g.Tok(head, true)
	if g.Pct(92) {
		g.Raw(" ")
	} else {
		g.lineGap()
	}
	if g.Pct(95) {
		g.smallMarker()
		g.Tok(g.Pick("m", "print-method", "a/m"), true)
		g.lineGap()
	}
	if g.Pct(4) {
		g.smallMarker()
	}
	g.Tok(g.Pick(":a", ":a", ":b/c", "::d", ":default", "Foo", "[:a :b]", "nil", "\"s\""), true)
	for i, n := 0, g.W(1, 5, 5, 2); i < n; i++ {
		if i == 0 {
			g.lineGap()
		} else {
			g.Gap()
		}
		if i == 0 {
			g.Tok(g.Pick("[x]", "[]", "x"), true)
		} else {
			g.small(1)
		}
	}
	g.Tok(")", false)
}

func (g *G) ifForm(d int) {
	g.nodes++
	open, close := "(", ")"
	if g.Pct(4) {
		open = "#("
	} else if g.Pct(3) {
		open, close = "[", "]"
	}
	if open == "#(" && g.inFn {
		open = "("
	}
	g.Tok(open, false)
	wasFn := g.inFn
	if open == "#(" {
		g.inFn = true
	}
	g.Tok(g.Pick("if", "if", "if-not", "if-let", "if-some", "when", "a/if", "if-x"), true)
	for i, n := 0, g.W(1, 1, 4, 20, 3); i < n; i++ {
		if g.Pct(60) {
			g.Raw(" ")
		} else {
			g.lineGap()
		}
		g.smallMarker()
		g.small(d)
	}
	if g.Pct(4) {
		g.smallMarker()
	}
	if g.Pct(5) {
		g.Gap()
	}
	g.Tok(close, false)
	g.inFn = wasFn
}

// DocString writes a string, mostly of several lines with margins.
func (g *G) DocString() {
	g.nodes++
	var b strings.Builder
	line := func() {
		switch g.W(4, 3, 2, 2, 1, 1, 1) {
		case 0:
			b.WriteString(g.Pick("some text", "x", "(f x) ; y", "Foo  bar"))
		case 1:
		case 2:
			b.WriteString("text" + g.Pick("  ", " ", "\t", "\r", "\u00a0", "\u2007", "\u3000"))
		case 3:
			b.WriteString(g.Pick(`a \"q\" b`, `\\`, `\n`, `- item\t`))
		case 4:
			b.WriteString(g.Pick("é λ", "日本語", "a\u00a0b", "\u2003x"))
		case 5:
			b.WriteString(g.Pick(" ", "    ", "\t", "\r"))
		case 6:
			b.WriteString("a\tb  c")
		}
	}
	line()
	for i, n := 0, g.W(1, 3, 3, 2, 1); i < n; i++ {
		b.WriteString("\n")
		switch g.W(3, 4, 3, 1, 1) {
		case 0:
		case 1:
			b.WriteString(strings.Repeat(" ", 1+g.N(5)))
		case 2:
			b.WriteString(strings.Repeat(" ", g.N(16)))
		case 3:
			b.WriteString(g.Pick("\t", "\t\t", " \t", "\t ", "  \t  "))
		case 4:
			b.WriteString(g.Pick("\u00a0", "\u202f", "\u3000 ", "\f", " \u2028"))
		}
		line()
	}
	g.Tok(`"`+b.String()+`"`, false)
}

// DocFile writes definitions with strings in all places.
func (g *G) DocFile() {
	for i, n := 0, 1+g.N(4); i < n; i++ {
		if i > 0 {
			g.TopGap()
		}
		if g.Pct(12) {
			g.Tok(g.Pick("^:x ", "#_", "'", "#t ", "#_ #_ ", "`", "^{:doc \"a\n  b\"}"), false)
			g.last = 0
		}
		switch g.W(12, 2, 2, 1) {
		case 0:
			g.docDef()
		case 1:
			g.Seq("(", ")", 2, func(i int) {
				if i == 0 {
					g.Tok(g.Pick("do", "comment", "when"), true)
				} else {
					g.docDef()
				}
			})
		case 2:
			g.TopForm()
		case 3:
			g.docExpr(0)
		}
	}
	g.Raw(g.Pick("\n", "", " \n\n"))
}

func (g *G) docDef() {
	g.Tok("(", false)
	g.Tok(g.Pick("def", "def", "defn", "defn", "defmacro", "defmulti", "ns", "ns", "defn-", "defonce", "defprotocol", "a/def", "definition", "let", "deftest"), true)
	docGap := func() {
		switch g.W(4, 4, 1) {
		case 0:
			g.Raw(" ")
		case 1:
			g.Raw("\n")
			g.Raw(g.indent())
		case 2:
			g.Gap()
		}
	}
	docGap()
	if g.Pct(94) {
		if g.Pct(10) {
			g.Tok(g.Pick("^:private", "^String", "^{:doc \"a\n b\"}", "#_x"), true)
			docGap()
		}
		g.Tok(g.Pick("f", "long-name", "é", "λλ", "a.b.c"), true)
		docGap()
	}
	if g.Pct(4) {
		g.smallMarker()
	}
	for i, n := 0, g.W(4, 4, 2, 1); i <= n; i++ {
		if i == 0 && g.Pct(80) {
			g.DocString()
		} else {
			g.docExpr(1)
		}
		if i < n || g.Pct(15) {
			docGap()
		}
	}
	if g.Pct(6) {
		g.Raw(" ")
		switch g.W(2, 1, 1) {
		case 0:
			g.CommentText()
			g.Raw("\n")
		case 1:
			g.Tok("#_x", true)
		case 2:
			g.Tok("#_ #_ x y", true)
		}
	}
	g.Tok(")", false)
}

func (g *G) docExpr(d int) {
	switch g.W(3, 2, 2, 1, 1, 1) {
	case 0:
		g.DocString()
	case 1:
		g.Tok(g.Pick("[]", "[x]", "x", "1"), true)
	case 2:
		g.Seq("(", ")", 2, func(i int) {
			if i == 0 {
				g.Tok(g.Pick("str", "def", "defn", "f"), true)
			} else if d < 3 {
				g.docExpr(d + 1)
			}
		})
	case 3:
		g.Seq("{", "}", 2, func(int) { g.docExpr(d + 2) })
	case 4:
		g.Tok("#\"a\n  b\"", false)
	case 5:
		g.Expr(4)
	}
}
