package gen

// Names used in ns forms. The pools are small so that names meet.
var (
	Libs    = []string{"a.b", "a.c", "b", "my.ns", "clojure.string", "x-y.z", "a", "c.d.e"}
	Aliases = []string{"s", "t", "u", "str", "a"}
	Refers  = []string{"f", "g", "h", "join", "+", "x"}
)

// NSForm writes an ns form.
func (g *G) NSForm() {
	g.nodes++
	n := 1 + g.N(4)
	g.Seq("(", ")", 2+n, func(i int) {
		switch i {
		case 0:
			g.Tok("ns", true)
		case 1:
			g.Marker(1)
			g.Sym(g.Pick("my.app", "app", "my.app-core"))
			if g.Pct(15) {
				g.Gap()
				g.Doc()
			}
		default:
			g.Marker2(2)
			g.NSClause()
		}
	})
}

// Marker2 writes markers rarely.
func (g *G) Marker2(d int) {
	if g.Pct(25) {
		g.Marker(d)
	}
}

// NSClause writes a clause of an ns form.
func (g *G) NSClause() {
	g.nodes++
	switch g.W(12, 5, 4, 2, 2, 2, 2, 1) {
	case 0:
		g.clause("(", ")", ":require", g.RequireEntry)
	case 1:
		g.clause("(", ")", ":import", g.ImportEntry)
	case 2:
		g.clause("(", ")", ":use", g.UseEntry)
	case 3:
		g.clause("(", ")", ":require-macros", g.RequireEntry)
	case 4: // old style
		switch g.W(3, 2, 2, 1, 1) {
		case 0:
			g.clause("(", ")", "require", g.RequireEntry)
		case 1:
			g.clause("[", "]", ":require", g.RequireEntry)
		case 2:
			g.clause("(", ")", "import", g.ImportEntry)
		case 3:
			g.clause("(", ")", "use", g.UseEntry)
		case 4:
			g.clause("[", "]", "import", g.ImportEntry)
		}
	case 5:
		g.Head("(", g.Pick(":refer-clojure", ":gen-class", ":load", "refer-clojure", "gen-class", ":use-macros"), 2*g.N(2), 3, nil)
	case 6:
		g.Expr(4)
	case 7:
		g.clause("(", ")", g.Pick(":require", "require-macros", ":foo", "foo"), g.RequireEntry)
	}
}

func (g *G) clause(open, close, head string, entry func()) {
	n := g.N(5)
	g.Seq(open, close, n+1, func(i int) {
		if i == 0 {
			g.Tok(head, true)
			return
		}
		g.Marker2(3)
		entry()
	})
}

// RequireEntry writes an entry of a require clause.
func (g *G) RequireEntry() {
	g.nodes++
	switch g.W(4, 12, 3, 3, 2, 1, 1, 2) {
	case 0:
		g.Sym(g.Pick(Libs...))
	case 1:
		g.libspec("[", "]")
	case 2:
		g.libspec("(", ")")
	case 3: // lib alone
		g.Seq("[", "]", 1, func(int) { g.Sym(g.Pick(Libs...)) })
	case 4: // prefix list
		open, close := "(", ")"
		if g.Pct(40) {
			open, close = "[", "]"
		}
		g.Seq(open, close, 2+g.N(2), func(i int) {
			if i == 0 {
				g.Sym(g.Pick(Libs...))
				return
			}
			switch g.W(2, 2, 1) {
			case 0:
				g.Sym(g.Pick("sub", "other"))
			case 1:
				g.libspec("[", "]")
			case 2:
				g.libspec("(", ")")
			}
		})
	case 5:
		g.Sym(g.Pick(":reload", ":verbose", ":reload-all"))
	case 6:
		g.Tok(g.Pick(`"react"`, `"npm/x"`), false)
	case 7:
		g.Expr(5)
	}
}

func (g *G) libspec(open, close string) {
	n := g.W(1, 6, 3, 1)
	g.Seq(open, close, 1+2*n, func(i int) {
		if i == 0 {
			g.Marker2(4)
			if g.Pct(3) {
				g.Tok(`"react"`, false)
				return
			}
			g.Sym(g.Pick(Libs...))
			return
		}
		if i%2 == 0 {
			return
		}
		switch g.W(8, 7, 2, 1, 1, 1) {
		case 0:
			g.Sym(":as")
			g.Gap()
			g.Marker2(5)
			g.Sym(g.Pick(Aliases...))
		case 1:
			g.Sym(":refer")
			g.Gap()
			g.Names()
		case 2:
			g.Sym(":refer")
			g.Gap()
			g.Sym(":all")
		case 3:
			g.Sym(":refer-macros")
			g.Gap()
			g.Names()
		case 4:
			g.Sym(g.Pick(":rename", ":exclude", ":include-macros", ":as-alias", ":only"))
			g.Gap()
			switch g.W(1, 1, 1) {
			case 0:
				g.Names()
			case 1:
				g.Tok(g.Pick("true", "q"), true)
			case 2:
				g.Tok("{f ff}", false)
			}
		case 5:
			g.Expr(5)
			g.Gap()
			g.Expr(5)
		}
	})
}

// Names writes a vector or list of referred names.
func (g *G) Names() {
	g.nodes++
	open, close := "[", "]"
	if g.Pct(20) {
		open, close = "(", ")"
	}
	g.Seq(open, close, g.N(4), func(int) {
		if g.Pct(3) {
			g.Expr(6)
			return
		}
		g.Marker2(5)
		g.Sym(g.Pick(Refers...))
	})
}

// ImportEntry writes an entry of an import clause.
func (g *G) ImportEntry() {
	g.nodes++
	switch g.W(5, 6, 4, 1, 1) {
	case 0:
		g.Sym(g.Pick("java.util.Date", "java.io.File", "a.b.C", "Foo", "x_y.z.K", "a.B$C", "a$b.C$1", "a.b-c.D'", "é.Ü", "a.b/c.D", "A$B"))
	case 1, 2:
		open, close := "(", ")"
		if g.Pct(40) {
			open, close = "[", "]"
		}
		g.Seq(open, close, g.N(4), func(i int) {
			if i == 0 {
				g.Sym(g.Pick("java.util", "java.io", "a.b", "x_y.z", "b", "a-b.c", "a_b.c"))
			} else {
				g.Marker2(5)
				g.Sym(g.Pick("Date", "File", "UUID", "Map$Entry", "A.B"))
			}
		})
	case 3:
		g.Expr(5)
	case 4:
		g.Sym(g.Pick(".", "Foo.", ".Foo", "a..b", "a."))
	}
}

// UseEntry writes an entry of a use clause.
func (g *G) UseEntry() {
	g.nodes++
	switch g.W(5, 3, 5, 2, 1, 1, 1) {
	case 0:
		g.Sym(g.Pick(Libs...))
	case 1:
		g.Seq(g.Pick("["), "]", 1, func(int) { g.Sym(g.Pick(Libs...)) })
	case 2:
		g.Seq("[", "]", 3, func(i int) {
			switch i {
			case 0:
				g.Sym(g.Pick(Libs...))
			case 1:
				g.Sym(":only")
			case 2:
				g.Names()
			}
		})
	case 3:
		g.Seq("[", "]", 3, func(i int) {
			switch i {
			case 0:
				g.Sym(g.Pick(Libs...))
			case 1:
				g.Sym(g.Pick(":as", ":exclude"))
			case 2:
				if g.Pct(20) {
					g.Names()
				} else {
					g.Sym(g.Pick(Aliases...))
				}
			}
		})
	case 4:
		g.Expr(5)
	case 5:
		g.libspec("(", ")")
	case 6:
		g.RequireEntry()
	}
}
