package props

import (
	"sort"
	"strings"
	"unicode"

	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
	"verif/refclj"
)

// FmtCase is a text and the options to format it with.
type FmtCase struct {
	Text Src
	Opts Opts
}

func newFmt() interface{} { return new(FmtCase) }

// ---- C01: what the code reads as

var docHeads = map[string]bool{"ns": true, "def": true, "defn": true, "defmacro": true, "defmulti": true}

func trimLines(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		lines[i] = strings.TrimFunc(l, func(r rune) bool { return unicode.IsSpace(r) || refclj.IsWhitespace(r) })
	}
	return strings.Join(lines, "\n")
}

// docstring finds the docstring of a definition.
func docstring(f *refclj.Form) *refclj.Form {
	if f.Kind != refclj.List {
		return nil
	}
	fs := refclj.Live(f.Forms)
	if len(fs) < 3 || len(fs) == 3 && fs[0].Text != "ns" || fs[0].Kind != refclj.Sym || !docHeads[fs[0].Text] {
		return nil
	}
	if fs[1].Target().Kind != refclj.Sym || fs[2].Kind != refclj.Str {
		return nil
	}
	return fs[2]
}

// docstrings finds the docstrings of a file.
func docstrings(roots []*refclj.Node) map[*refclj.Node]bool {
	docs := map[*refclj.Node]bool{}
	for _, n := range roots {
		if n.Kind != refclj.List {
			continue
		}
		fs, _ := refclj.FormsD([]*refclj.Node{n})
		if d := docstring(fs[0]); d != nil {
			docs[d.Node] = true
		}
	}
	return docs
}

// normRoots brings the forms of a file into a form that the permitted
// differences do not affect. It modifies the forms.
func normRoots(roots []*refclj.Node, fs []*refclj.Form) []string {
	docs := docstrings(roots)
	top := map[*refclj.Node]bool{}
	for _, n := range roots {
		top[n] = true
	}
	var norm func(f *refclj.Form)
	norm = func(f *refclj.Form) {
		if f.Kind == refclj.Str && docs[f.Node] {
			f.Text = trimLines(f.Text)
		}
		if f.Kind == refclj.List && top[f.Node] && len(f.Forms) > 0 && f.Forms[0].Kind == refclj.Sym && f.Forms[0].Text == "ns" {
			normNS(f)
		}
		for _, k := range f.Forms {
			norm(k)
		}
	}
	var out []string
	for _, f := range fs {
		norm(f)
		out = append(out, f.String())
	}
	return out
}

var nsClauses = map[string]bool{"refer-clojure": true, "require": true, "require-macros": true, "use": true, "import": true, "load": true, "gen-class": true}

func listForm(k refclj.Kind, forms ...*refclj.Form) *refclj.Form {
	return &refclj.Form{Node: &refclj.Node{Kind: k}, Kind: k, Forms: forms}
}

// retarget rewrites what metadata and tags apply to.
func retarget(f *refclj.Form, fn func(*refclj.Form) *refclj.Form) *refclj.Form {
	if f.Kind == refclj.Meta || f.Kind == refclj.Tag {
		f.Forms[len(f.Forms)-1] = retarget(f.Forms[len(f.Forms)-1], fn)
		return f
	}
	return fn(f)
}

func normNS(ns *refclj.Form) {
	for i := 1; i < len(ns.Forms); i++ {
		ns.Forms[i] = retarget(ns.Forms[i], normClause)
	}
}

func normClause(c *refclj.Form) *refclj.Form {
	if c.Kind != refclj.List && c.Kind != refclj.Vec || len(c.Forms) == 0 {
		return c
	}
	h := c.Forms[0]
	name := h.Text
	switch h.Kind {
	case refclj.Sym:
	case refclj.Kw:
		name = name[1:]
	default:
		return c
	}
	if !nsClauses[name] {
		return c
	}
	args := append([]*refclj.Form(nil), c.Forms[1:]...)
	for i := range args {
		switch name {
		case "require", "require-macros":
			args[i] = styleRequire(args[i])
		case "import":
			args[i] = styleImport(args[i])
		}
	}
	switch name {
	case "require", "require-macros", "import":
		sort.SliceStable(args, func(i, j int) bool { return args[i].String() < args[j].String() })
	}
	return listForm(refclj.List, append([]*refclj.Form{{Node: h.Node, Kind: refclj.Kw, Text: ":" + name}}, args...)...)
}

func checkC01(c interface{}, o *core.Out) {
	src := string(c.(*FmtCase).Text)
	r, ok := read(src, o)
	if !ok {
		return
	}
	want, ok := refclj.FormsD(r.Roots)
	if !ok {
		o.Skip("a reader prefix without a form")
		return
	}
	labelTree(r, o)
	o.NonTrivial = len(src) > 10
	out, ok := mustFormat(src, c.(*FmtCase).Opts, o)
	if !ok {
		return
	}
	r2, ok := mustRead(out, src, o)
	if !ok {
		return
	}
	got, ok := refclj.FormsD(r2.Roots)
	if !ok {
		o.Fail("a reader prefix of the output has nothing to apply to\n--- source\n%s\n--- output\n%s", show(src), show(out))
		return
	}
	w, g := normRoots(r.Roots, want), normRoots(r2.Roots, got)
	for i := 0; i < len(w) || i < len(g); i++ {
		switch {
		case i >= len(w):
			o.Fail("the output has an additional form %s\n--- source\n%s\n--- output\n%s", g[i], show(src), show(out))
		case i >= len(g):
			o.Fail("the form %s is lost\n--- source\n%s\n--- output\n%s", w[i], show(src), show(out))
		case w[i] != g[i]:
			o.Fail("form %d reads differently\n before %s\n after  %s\n--- source\n%s\n--- output\n%s", i, w[i], g[i], show(src), show(out))
		}
	}
}

// ---- C02: transforms off

func checkC02(c interface{}, o *core.Out) {
	cc := c.(*FmtCase)
	src := string(cc.Text)
	r, ok := read(src, o)
	if !ok {
		return
	}
	if droppedComments(r.Roots) {
		o.Skip("comment between a prefix and its form")
		return
	}
	labelTree(r, o)
	o.NonTrivial = strings.Contains(src, "\n") && len(src) > 10
	out, ok := mustFormat(src, cc.Opts, o)
	if !ok {
		return
	}
	r2, ok := mustRead(out, src, o)
	if !ok {
		return
	}
	terminated := refclj.TerminateComments(r.Roots, true)
	w := refclj.Stream(terminated)
	g := refclj.Stream(r2.Roots)
	// Docstrings are compared up to the whitespace around their lines.
	docs := docstrings(terminated)
	for i := 0; i < len(w) || i < len(g); i++ {
		var a, b string
		if i < len(w) {
			a = w[i].Text
		}
		if i < len(g) {
			b = g[i].Text
		}
		if a == b || i < len(w) && i < len(g) && docs[w[i].Node] && trimLines(w[i].Node.Text) == trimLines(g[i].Node.Text) {
			continue
		}
		o.Fail("token %d is %q in the source but %q in the output (%v)\n--- source\n%s\n--- output\n%s", i, a, b, cc.Opts, show(src), show(out))
		return
	}
}

// ---- C03: comments

// commentsAndTokens lists tokens and comments, without line breaks.
func commentsAndTokens(nodes []*refclj.Node) []string {
	var out []string
	for _, t := range refclj.Stream(nodes) {
		if t.Node.Kind == refclj.Newline {
			continue
		}
		s := t.Text
		if t.Node.Kind == refclj.Str {
			s = `"` + trimLines(t.Node.Text) + `"`
		}
		out = append(out, s)
	}
	return out
}

func commentsOf(nodes []*refclj.Node) []string {
	var out []string
	refclj.Walk(nodes, func(n, _ *refclj.Node) {
		if n.Kind == refclj.Comment {
			out = append(out, n.Text)
		}
	})
	return out
}

// splitNS separates ns forms from the other roots, which become segments
// between the ns forms.
func splitNS(roots []*refclj.Node) (ns []*refclj.Node, rest [][]*refclj.Node) {
	rest = append(rest, nil)
	for _, n := range roots {
		if isCall(n, "ns") {
			ns = append(ns, n)
			rest = append(rest, nil)
		} else {
			rest[len(rest)-1] = append(rest[len(rest)-1], n)
		}
	}
	return ns, rest
}

func checkC03(c interface{}, o *core.Out) {
	cc := c.(*FmtCase)
	src := string(cc.Text)
	r, ok := read(src, o)
	if !ok {
		return
	}
	if droppedComments(r.Roots) {
		o.Skip("comment between a prefix and its form (known finding)")
		return
	}
	labelTree(r, o)
	nc := commentsOf(r.Roots)
	o.NonTrivial = len(nc) > 0
	out, ok := mustFormat(src, cc.Opts, o)
	if !ok {
		return
	}
	r2, ok := mustRead(out, src, o)
	if !ok {
		return
	}
	fail := func(what string) {
		o.Fail("%s (%v)\n--- source\n%s\n--- output\n%s", what, cc.Opts, show(src), show(out))
	}
	ns, rest := splitNS(r.Roots)
	ns2, rest2 := splitNS(r2.Roots)
	if len(ns) != len(ns2) {
		fail("the number of ns forms differs")
		return
	}
	for i := range rest {
		w, g := commentsAndTokens(rest[i]), commentsAndTokens(rest2[i])
		for j := 0; j < len(w) || j < len(g); j++ {
			if j >= len(w) || j >= len(g) || w[j] != g[j] {
				fail("outside ns forms, tokens or comments differ: " + at(w, j) + " became " + at(g, j))
				return
			}
		}
	}
	for i := range ns {
		w, g := commentsOf(ns[i:i+1]), commentsOf(ns2[i:i+1])
		left := map[string]int{}
		for _, s := range w {
			left[s]++
		}
		for _, s := range g {
			left[s]--
			if left[s] < 0 {
				fail("the comment " + s + " of the ns form is new or duplicated")
				return
			}
		}
		if cc.Opts.has("remove-unused-requires") {
			continue
		}
		for _, s := range w {
			if left[s] > 0 {
				fail("the comment " + s + " of the ns form is lost")
				return
			}
		}
		o.LabelIf(len(w) > 0, "comments in ns")
	}
}

func at(ss []string, i int) string {
	if i < len(ss) {
		return ss[i]
	}
	return "the end"
}

// ---- C04: idempotence

func checkC04(c interface{}, o *core.Out) {
	cc := c.(*FmtCase)
	src := string(cc.Text)
	once, err := formatText(src, cc.Opts)
	if err != nil {
		o.Skip("rejected")
		return
	}
	o.NonTrivial = strings.Contains(src, "\n") && len(src) > 10
	o.LabelIf(once == src, "already formatted")
	for _, n := range cc.Opts.On {
		o.Label("on: " + n)
	}
	if r := refclj.Parse(src); r.Verdict == refclj.Accept {
		labelTree(&r, o)
	}
	twice, err := formatText(once, cc.Opts)
	if err != nil {
		o.Fail("the output cannot be formatted again: %v\n--- source\n%s\n--- output\n%s", err, show(src), show(once))
		return
	}
	if once != twice {
		o.Fail("formatting again changes the text (%v)\n--- source\n%s\n--- once\n%s\n--- twice\n%s", cc.Opts, show(src), show(once), show(twice))
	}
}

func genFmt(t *rapid.T, adjust func(*gen.Profile)) *FmtCase {
	return &FmtCase{Text: Src(gen.Source(t, adjust))}
}

func init() {
	core.Register(&core.Prop{
		ID: "C01", Quick: 400000, Thorough: 1500000, New: newFmt, Check: checkC01,
		Gen: func(t *rapid.T) interface{} {
			c := genFmt(t, func(p *gen.Profile) { p.PrefixComments = true })
			c.Opts = defaultOpts()
			return c
		},
		Rule: "generated files formatted with the default transforms; the forms the reference reader reads before and after are compared, " +
			"up to ns rewriting/sorting and docstring line margins. Non-trivial: longer than ten bytes.",
	})
	core.Register(&core.Prop{
		ID: "C02", Quick: 400000, Thorough: 1500000, New: newFmt, Check: checkC02,
		Gen: func(t *rapid.T) interface{} {
			c := &FmtCase{}
			if gen.Pct(t, 10) {
				c.Text = Src(gen.Soup(t))
			} else {
				c.Text = Src(gen.Source(t, func(p *gen.Profile) { p.Dangling = true }))
			}
			c.Opts.On = []string{}
			genOverrides(t, &c.Opts)
			c.Opts.Tab = gen.Pct(t, 10)
			return c
		},
		Rule: "generated files and token soup formatted with all transforms off and random overrides; the sequences of tokens, comments and line breaks " +
			"before and after are compared. Non-trivial: longer than ten bytes and several lines.",
	})
	core.Register(&core.Prop{
		ID: "C03", Quick: 400000, Thorough: 1500000, New: newFmt, Check: checkC03,
		Gen: func(t *rapid.T) interface{} {
			c := genFmt(t, func(p *gen.Profile) {
				if p.Comment < 15 {
					p.Comment += 15
				}
				if gen.Pct(t, 40) {
					p.NS = 100
				}
			})
			c.Opts.On = genOn(t)
			return c
		},
		Rule: "generated files with many comments under random sets of transforms. Outside ns forms the sequence of tokens and comments must be kept; " +
			"in each ns form the multiset of comments. Non-trivial: has a comment.",
	})
	core.Register(&core.Prop{
		ID: "C04", Quick: 400000, Thorough: 1500000, New: newFmt, Check: checkC04,
		Gen: func(t *rapid.T) interface{} {
			c := &FmtCase{}
			if gen.Pct(t, 10) {
				c.Text = Src(gen.Wild(t))
			} else {
				c.Text = Src(gen.Source(t, func(p *gen.Profile) {
					p.Dangling = true
					p.PrefixComments = true
					if gen.Pct(t, 20) {
						p.NS = 100
					}
				}))
			}
			c.Opts.On = genOn(t)
			genOverrides(t, &c.Opts)
			c.Opts.Tab = gen.Pct(t, 10)
			return c
		},
		Rule: "generated files and arbitrary accepted texts, formatted twice under random options. Non-trivial: longer than ten bytes and several lines.",
	})
}
