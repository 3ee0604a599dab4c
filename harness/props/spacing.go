package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
	"verif/refclj"
)

// ---- C14: spacing of the source does not matter, that of the output is canonical

// SpaceCase is a text, the same text with other spacing and, if Blank is set,
// other numbers of blank lines.
type SpaceCase struct {
	Text, Respaced Src
	Blank          bool
	Opts           Opts
}

// oneBreak replaces runs of line breaks by single ones.
func oneBreak(nodes []*refclj.Node) []*refclj.Node {
	var out []*refclj.Node
	for i, n := range nodes {
		if n.Kind == refclj.Newline && i > 0 && nodes[i-1].Kind == refclj.Newline {
			continue
		}
		c := *n
		c.Kids = oneBreak(n.Kids)
		out = append(out, &c)
	}
	return out
}

// A codeLine is a line of a text that isn't blank.
type codeLine struct {
	col  int
	text string // the tokens that start on it
}

// codeLines lists the lines on which tokens start.
func codeLines(src string, roots []*refclj.Node) []codeLine {
	var lines []codeLine
	last := -1
	for _, t := range refclj.Stream(roots) {
		if t.Node.Kind == refclj.Newline {
			continue
		}
		line, _ := refclj.LineCol(src, t.Off)
		if line != last {
			lines = append(lines, codeLine{col: refclj.RuneCol(src, t.Off)})
			last = line
		}
		lines[len(lines)-1].text += " " + t.Text
	}
	return lines
}

// canonical checks the spacing of formatted text. It returns "" or what is wrong.
func canonical(out string, roots []*refclj.Node, tab bool) string {
	indent := " "
	if tab {
		indent = "\t"
	}
	toks := refclj.Stream(roots)
	end := 0 // of the token before
	for i, t := range toks {
		// The text of prefixes and tags as the formatter writes it.
		off := t.Off
		between := out[end:off]
		atLineStart := i == 0 || toks[i-1].Node.Kind == refclj.Newline
		line, _ := refclj.LineCol(out, off)
		switch {
		case t.Node.Kind == refclj.Newline:
			if between != "" {
				return fmt.Sprintf("line %d ends with whitespace %q", line, between)
			}
		case atLineStart:
			if strings.Trim(between, indent) != "" {
				return fmt.Sprintf("line %d is indented with %q", line, between)
			}
			if i == 0 && between != "" {
				return fmt.Sprintf("the text starts with %q", between)
			}
		default:
			prev := toks[i-1]
			want := " "
			switch {
			case prev.Node.IsSeq() && prev.Text == prev.Node.Open() && prev.Off == prev.Node.Start:
				want = ""
			case t.Node.IsSeq() && t.Off != t.Node.Start:
				want = "" // a closing delimiter
			case prev.Node.IsPrefix():
				want = ""
				if prev.Node.Kind == refclj.Unquote && t.Node.Kind == refclj.Deref {
					want = " "
				}
			}
			if between != want {
				return fmt.Sprintf("line %d has %q instead of %q between %q and %q", line, between, want, prev.Text, t.Text)
			}
		}
		switch {
		case t.Node.IsSeq() && t.Off == t.Node.Start:
			end = off + len(t.Node.Open())
		case t.Node.IsSeq():
			end = off + 1
		case t.Node.IsPrefix():
			end = off + len(t.Text)
		default:
			end = t.Node.End
		}
	}
	if end < len(out) {
		return fmt.Sprintf("the text ends with whitespace %q", out[end:])
	}
	return ""
}

func checkC14(c interface{}, o *core.Out) {
	cc := c.(*SpaceCase)
	src, src2 := string(cc.Text), string(cc.Respaced)
	r, ok := read(src, o)
	if !ok {
		return
	}
	r2, ok := read(src2, o)
	if !ok {
		return
	}
	a, b := refclj.TerminateComments(r.Roots, true), refclj.TerminateComments(r2.Roots, true)
	if cc.Blank && (cc.Opts.has("use-to-require") || cc.Opts.has("remove-unused-requires")) {
		o.Skip("line breaks between rewritten clauses are not specified")
		return
	}
	if cc.Blank {
		a, b = oneBreak(a), oneBreak(b)
		for _, n := range a {
			if isCall(n, "defn") && cc.Opts.has("fix-defn-arglist-newline") || isCall(n, "defmethod") && cc.Opts.has("fix-defmethod-dispatch-val-newline") {
				o.Skip("a blank line decides whether an arglist or dispatch value is moved")
				return
			}
		}
	}
	if refclj.Dump(a) != refclj.Dump(b) {
		o.Skip("the texts differ in more than spacing")
		return
	}
	labelTree(r, o)
	o.LabelIf(cc.Blank, "blank lines")
	o.NonTrivial = src != src2
	out, ok := mustFormat(src, cc.Opts, o)
	if !ok {
		return
	}
	out2, ok := mustFormat(src2, cc.Opts, o)
	if !ok {
		return
	}
	ro, ok := mustRead(out, src, o)
	if !ok {
		return
	}
	if what := canonical(out, ro.Roots, cc.Opts.Tab); what != "" {
		o.Fail("%s (%v)\n--- source\n%s\n--- output\n%s", what, cc.Opts, show(src), show(out))
		return
	}
	if !cc.Blank {
		if out != out2 {
			o.Fail("texts that differ in horizontal whitespace only are formatted differently (%v)\n--- source\n%s\n--- other source\n%s\n--- output\n%s\n--- other output\n%s",
				cc.Opts, show(src), show(src2), show(out), show(out2))
		}
		return
	}
	ro2, ok := mustRead(out2, src2, o)
	if !ok {
		return
	}
	l, l2 := codeLines(out, ro.Roots), codeLines(out2, ro2.Roots)
	for i := 0; i < len(l) || i < len(l2); i++ {
		if i >= len(l) || i >= len(l2) || l[i] != l2[i] {
			o.Fail("blank lines change a line of code or its indentation (line of code %d; %v)\n--- source\n%s\n--- other source\n%s\n--- output\n%s\n--- other output\n%s",
				i+1, cc.Opts, show(src), show(src2), show(out), show(out2))
			return
		}
	}
	o.Label(fmt.Sprintf("lines of code: %d+", len(l)/10*10))
}

func genC14(t *rapid.T) interface{} {
	c := &SpaceCase{}
	c.Blank = gen.Pct(t, 40)
	if gen.Pct(t, 8) {
		c.Text = Src(gen.Soup(t))
	} else {
		c.Text = Src(gen.Source(t, func(p *gen.Profile) {
			if c.Blank && p.Newline < 25 {
				p.Newline = 25
			}
			if gen.Pct(t, 30) {
				p.NS = 100
			}
		}))
	}
	s, ok := gen.Respace(t, string(c.Text), c.Blank)
	if !ok {
		s = string(c.Text)
	}
	c.Respaced = Src(s)
	if c.Blank {
		c.Opts.On = genOn(t, "fix-defn-arglist-newline", "fix-defmethod-dispatch-val-newline", "use-to-require", "remove-unused-requires")
	} else {
		c.Opts.On = genOn(t)
	}
	genOverrides(t, &c.Opts)
	c.Opts.Tab = gen.Pct(t, 10)
	return c
}

func init() {
	core.Register(&core.Prop{
		ID: "C14", Quick: 180000, Thorough: 1500000, Check: checkC14, Gen: genC14,
		New: func() interface{} { return new(SpaceCase) },
		Rule: "a generated file and the same tokens, comments and line breaks with other spaces, tabs, commas and carriage returns (and, in 40% of cases, other numbers of " +
			"blank lines) formatted under the same random options: outputs must be equal (or, with blank lines, have the same lines of code at the same columns), and the spacing " +
			"of the output must be canonical. Non-trivial: the two texts differ.",
	})
}
