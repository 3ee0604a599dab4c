package props

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
	"verif/refclj"
)

// ---- C21: docstrings

// alignedLine says what a continuation line of a docstring may become. The
// second result is a lower bound of the depth if the exact depth isn't specified
// (because the margin has whitespace other than spaces), else -1.
func alignedLine(line string, col int, indent string) (want string, loose bool) {
	text := strings.TrimFunc(line, unicode.IsSpace)
	if text == "" {
		return "", false
	}
	margin := line[:strings.Index(line, text)]
	depth := utf8.RuneCountInString(margin)
	if strings.Trim(margin, " "+indent) != "" {
		return text, true
	}
	if depth < col {
		depth = col
	}
	return strings.Repeat(indent, col) + strings.Repeat(" ", depth-col) + text, false
}

func checkC21(c interface{}, o *core.Out) {
	cc := c.(*FmtCase)
	src := string(cc.Text)
	r, ok := read(src, o)
	if !ok {
		return
	}
	if droppedComments(r.Roots) {
		o.Skip("comment between a prefix and its form")
		return
	}
	for _, n := range []string{"sort-import-require", "use-to-require", "remove-unused-requires"} {
		if cc.Opts.has(n) {
			o.Skip("strings may move")
			return
		}
	}
	if _, ok := refclj.FormsD(r.Roots); !ok {
		o.Skip("dangling marker")
		return
	}
	docs := docstrings(r.Roots)
	for _, n := range r.Roots {
		if n.Kind == refclj.List {
			if k := firstCode(n.Kids); k != nil && k != n.Kids[0] && k.Kind == refclj.Sym && docHeads[k.Text] {
				o.Skip("a definition that starts with a line break or comment")
				return
			}
		}
	}
	out, ok := mustFormat(src, cc.Opts, o)
	if !ok {
		return
	}
	ro, ok := mustRead(out, src, o)
	if !ok {
		return
	}
	fail := func(format string, args ...interface{}) {
		o.Fail("%s (%v)\n--- source\n%s\n--- output\n%s", fmt.Sprintf(format, args...), cc.Opts, show(src), show(out))
	}
	literals := func(roots []*refclj.Node) (ls []*refclj.Node) {
		refclj.Walk(roots, func(n, _ *refclj.Node) {
			if n.Kind == refclj.Str || n.Kind == refclj.Regex {
				ls = append(ls, n)
			}
		})
		return ls
	}
	indent := " "
	if cc.Opts.Tab {
		indent = "\t"
	}
	ws, gs := literals(r.Roots), literals(ro.Roots)
	if len(ws) != len(gs) {
		fail("the output has %d strings instead of %d", len(gs), len(ws))
		return
	}
	for i := range ws {
		w, g := ws[i].Text, gs[i].Text
		if ws[i].Kind != gs[i].Kind {
			fail("string %d is a %v instead of a %v", i+1, gs[i].Kind, ws[i].Kind)
			return
		}
		if !docs[ws[i]] {
			if w != g {
				fail("the string %q, which isn't a docstring, has become %q", w, g)
				return
			}
			if strings.Contains(w, "\n") {
				o.Label("other multi-line string")
			}
			continue
		}
		col := refclj.RuneCol(out, gs[i].Start)
		wl, gl := strings.Split(w, "\n"), strings.Split(g, "\n")
		if len(wl) != len(gl) || wl[0] != gl[0] {
			fail("the docstring %q has become %q", w, g)
			return
		}
		for j := 1; j < len(wl); j++ {
			o.NonTrivial = true
			want, loose := alignedLine(wl[j], col, indent)
			if loose {
				o.Label("margin of other whitespace")
				margin := strings.TrimSuffix(gl[j], want)
				if len(margin)+len(want) != len(gl[j]) || strings.TrimFunc(margin, unicode.IsSpace) != "" || utf8.RuneCountInString(margin) < col {
					fail("line %d of the docstring, %q, has become %q (the quote is in column %d)", j+1, wl[j], gl[j], col)
					return
				}
				continue
			}
			o.LabelIf(want != wl[j], "line of a docstring changes")
			if gl[j] != want {
				fail("line %d of the docstring, %q, has become %q instead of %q (the quote is in column %d)", j+1, wl[j], gl[j], want, col)
				return
			}
		}
	}
}

func init() {
	core.Register(&core.Prop{
		ID: "C21", Quick: 400000, Thorough: 1500000, New: newFmt, Check: checkC21,
		Gen: func(t *rapid.T) interface{} {
			c := &FmtCase{}
			c.Opts.On = genOn(t, "sort-import-require", "use-to-require", "remove-unused-requires")
			genOverrides(t, &c.Opts)
			c.Opts.Tab = gen.Pct(t, 15)
			p := gen.RandomProfile(t)
			p.Multiline = 35
			g := gen.New(t, p)
			if gen.Pct(t, 20) {
				p.NS = 60
				g.P = p
				g.File()
			} else {
				g.DocFile()
			}
			c.Text = Src(g.String())
			return c
		},
		Rule: "generated files of definitions with and without docstrings (names with metadata, comments and line breaks around them, other heads, nested definitions, strings and regular " +
			"expressions in all other places), multi-line strings with all kinds of margins; every literal of the output is compared with the source's, docstrings line by line with the " +
			"reference alignment to the column of the quote in the output. Non-trivial: there is a docstring of several lines.",
	})
}
