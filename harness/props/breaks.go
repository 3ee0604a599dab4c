package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
	"verif/refclj"
)

// This file has reference models of the transforms that change line breaks.
// Each maps a tree to a new tree.

func newlineNode() *refclj.Node { return &refclj.Node{Kind: refclj.Newline, Text: "\n"} }

// mapTree rebuilds a tree, children first.
func mapTree(nodes []*refclj.Node, f func(n *refclj.Node)) []*refclj.Node {
	var out []*refclj.Node
	for _, n := range nodes {
		c := *n
		c.Kids = mapTree(n.Kids, f)
		f(&c)
		out = append(out, &c)
	}
	return out
}

// collapseBlank leaves one of each run of blank lines.
func collapseBlank(nodes []*refclj.Node, top bool) []*refclj.Node {
	var out []*refclj.Node
	run := 0
	if top {
		run = 1 // at the start of a text, the first line break makes a blank line
	}
	for _, n := range nodes {
		if n.Kind == refclj.Newline {
			if run++; run > 2 {
				continue
			}
		} else {
			run = 0
		}
		out = append(out, n)
	}
	return out
}

func modelExtraBlank(roots []*refclj.Node) []*refclj.Node {
	return collapseBlank(mapTree(roots, func(n *refclj.Node) { n.Kids = collapseBlank(n.Kids, false) }), true)
}

func modelTrailing(roots []*refclj.Node) []*refclj.Node {
	return mapTree(roots, func(n *refclj.Node) {
		switch n.Kind {
		case refclj.List, refclj.Vec, refclj.Map, refclj.Set, refclj.Fn:
		default:
			return
		}
		last := len(n.Kids)
		for last > 0 && n.Kids[last-1].Kind == refclj.Newline {
			last--
		}
		if last > 0 && n.Kids[last-1].Kind == refclj.Comment {
			last++ // the line break that ends the comment
		}
		n.Kids = n.Kids[:last]
	})
}

// afterName is the index of the node after the name of a definition, with its
// metadata; ok is false if the name isn't on the line of the head.
func afterName(n *refclj.Node) (i int, ok bool) {
	gs, ok := refclj.Groups(n.Kids)
	if !ok || len(gs) < 2 {
		return 0, false
	}
	gs = gs[1:]
	for len(gs) > 0 && gs[0].Form.Kind == refclj.Discard {
		gs = gs[1:]
	}
	if len(gs) == 0 || hasBreak(n.Kids[:gs[0].Start]) {
		return 0, false
	}
	return gs[0].End, true
}

func isRun(kids []*refclj.Node, from int, kinds ...refclj.Kind) bool {
	for i, k := range kinds {
		if from+i >= len(kids) || kids[from+i].Kind != k {
			return false
		}
	}
	return true
}

func modelDefn(roots []*refclj.Node) []*refclj.Node {
	var out []*refclj.Node
	for _, n := range roots {
		if isCall(n, "defn") {
			i, ok := afterName(n)
			if ok && isRun(n.Kids, i, refclj.Newline, refclj.Vec) && len(n.Kids) > i+2 && n.Kids[i+2].Kind != refclj.Newline {
				c := *n
				c.Kids = append([]*refclj.Node(nil), n.Kids...)
				c.Kids[i], c.Kids[i+1] = c.Kids[i+1], c.Kids[i]
				n = &c
			}
		}
		out = append(out, n)
	}
	return out
}

func modelDefmethod(roots []*refclj.Node) []*refclj.Node {
	var out []*refclj.Node
	for _, n := range roots {
		if isCall(n, "defmethod") {
			i, ok := afterName(n)
			if ok && isRun(n.Kids, i, refclj.Newline, refclj.Kw) && len(n.Kids) > i+2 {
				c := *n
				c.Kids = append([]*refclj.Node(nil), n.Kids[:i]...)
				c.Kids = append(c.Kids, n.Kids[i+1])
				if n.Kids[i+2].Kind != refclj.Newline {
					c.Kids = append(c.Kids, newlineNode())
				}
				c.Kids = append(c.Kids, n.Kids[i+2:]...)
				n = &c
			}
		}
		out = append(out, n)
	}
	return out
}

// ifArms gives the groups of the test and the arms of an if-like list.
func ifArms(n *refclj.Node) (parts []refclj.Group) {
	gs, ok := refclj.Groups(n.Kids)
	if !ok {
		return nil
	}
	for _, g := range gs[1:] {
		if g.Form.Kind != refclj.Discard {
			parts = append(parts, g)
		}
	}
	return parts
}

func hasBreak(nodes []*refclj.Node) bool { return anyKind(nodes, refclj.Newline) }

func modelIf(roots []*refclj.Node) []*refclj.Node {
	return mapTree(roots, func(n *refclj.Node) {
		if !isCall(n, "if", "if-not", "if-let", "if-some") {
			return
		}
		p := ifArms(n)
		if len(p) < 3 {
			return
		}
		before0 := hasBreak(n.Kids[p[0].End:p[1].Start])
		before1 := hasBreak(n.Kids[p[1].End:p[2].Start])
		if before0 == before1 {
			return
		}
		at := p[1].Start
		if before0 {
			at = p[2].Start
		}
		kids := append([]*refclj.Node(nil), n.Kids[:at]...)
		kids = append(kids, newlineNode())
		n.Kids = append(kids, n.Kids[at:]...)
	})
}

// breakModels are the models by the name of the transform.
var breakModels = map[string]func([]*refclj.Node) []*refclj.Node{
	"remove-extra-blank-lines":           modelExtraBlank,
	"remove-trailing-newlines":           modelTrailing,
	"fix-defn-arglist-newline":           modelDefn,
	"fix-defmethod-dispatch-val-newline": modelDefmethod,
	"fix-if-newline-consistency":         modelIf,
}

// openBreaks says whether the place of line breaks is a matter of opinion.
func openBreaks(roots []*refclj.Node, on Opts) string {
	for _, n := range roots {
		if n.Kind != refclj.List || len(n.Kids) == 0 {
			continue
		}
		first := firstCode(n.Kids)
		for _, name := range []string{"defn", "defmethod"} {
			if first == nil || first.Kind != refclj.Sym || first.Text != name {
				continue
			}
			if first != n.Kids[0] {
				return name + " that starts with a line break, comment or marker"
			}
			if i, ok := afterName(n); ok && i+2 < len(n.Kids) && n.Kids[i+2].Kind == refclj.Comment {
				return name + " with a comment after the arglist or dispatch value"
			}
		}
	}
	return ""
}

func checkBreaks(names ...string) func(c interface{}, o *core.Out) {
	return func(c interface{}, o *core.Out) {
		cc := c.(*FmtCase)
		src := string(cc.Text)
		r, ok := read(src, o)
		if !ok {
			return
		}
		if droppedComments(r.Roots) {
			o.Skip("comment between a prefix and its form")
			return
		}
		if _, ok := refclj.FormsD(r.Roots); !ok {
			o.Skip("dangling marker")
			return
		}
		roots := refclj.TerminateComments(r.Roots, true)
		if names[0] == "fix-defn-arglist-newline" {
			if why := openBreaks(roots, cc.Opts); why != "" {
				o.Skip(why)
				return
			}
		}
		out, ok := mustFormat(src, cc.Opts, o)
		if !ok {
			return
		}
		ro, ok := mustRead(out, src, o)
		if !ok {
			return
		}
		fail := func(format string, args ...interface{}) {
			o.Fail("%s (%v)\n--- source\n%s\n--- output\n%s", fmt.Sprintf(format, args...), cc.Opts, show(src), show(out))
		}
		// If only transforms of the property are on, the output is what the
		// models make of the source.
		exact := true
		for _, n := range cc.Opts.On {
			mine := false
			for _, m := range names {
				mine = mine || n == m
			}
			exact = exact && mine
		}
		for _, n := range names {
			if cc.Opts.has(n) && refclj.Dump(breakModels[n](roots)) != refclj.Dump(roots) {
				o.NonTrivial = true
				o.Label(n + " changes something")
			}
		}
		if exact {
			o.Label("alone")
			want := roots
			// In the order in which they work. (They don't interfere.)
			for _, n := range transformNames {
				if cc.Opts.has(n) {
					want = breakModels[n](want)
				}
			}
			w, g := refclj.Dump(hollow(want, nil)), refclj.Dump(hollow(ro.Roots, nil))
			if w != g {
				fail("the output is\n  %s\ninstead of\n  %s", g, w)
			}
			return
		}
		// Among other transforms, the models must not change the output.
		for _, n := range names {
			if !cc.Opts.has(n) {
				continue
			}
			w, g := refclj.Dump(breakModels[n](ro.Roots)), refclj.Dump(ro.Roots)
			if w != g {
				fail("%s isn't complete: the output is\n  %s\ninstead of\n  %s", n, g, w)
				return
			}
		}
	}
}

func genBreaks(t *rapid.T, names ...string) *FmtCase {
	c := &FmtCase{}
	c.Opts.On = []string{}
	alone := gen.Pct(t, 65)
	for _, n := range transformNames {
		mine := false
		for _, m := range names {
			mine = mine || n == m
		}
		switch {
		case mine && gen.Pct(t, 75), !mine && !alone && gen.Pct(t, 60):
			c.Opts.On = append(c.Opts.On, n)
		}
	}
	return c
}

func init() {
	c17 := []string{"remove-extra-blank-lines", "remove-trailing-newlines"}
	c18 := []string{"fix-defn-arglist-newline", "fix-defmethod-dispatch-val-newline", "fix-if-newline-consistency"}
	core.Register(&core.Prop{
		ID: "C17", Quick: 400000, Thorough: 1500000, New: newFmt, Check: checkBreaks(c17...),
		Gen: func(t *rapid.T) interface{} {
			c := genBreaks(t, c17...)
			p := gen.RandomProfile(t)
			p.Newline += 15
			p.Blank += 25
			g := gen.New(t, p)
			g.File()
			c.Text = Src(g.String())
			if gen.Pct(t, 15) {
				c.Text = Src(strings.Repeat("\n", gen.Int(t, 5))) + c.Text + Src(strings.Repeat("\n", gen.Int(t, 5)))
			}
			return c
		},
		Rule: "generated files with many line breaks and blank lines at all places; with only the two transforms on, the output must be the reference model's, line break by line break; " +
			"among other transforms, the models must find nothing left to do in the output. Non-trivial: a model changes something in the source.",
	})
	core.Register(&core.Prop{
		ID: "C18", Quick: 400000, Thorough: 1500000, New: newFmt, Check: checkBreaks(c18...),
		Gen: func(t *rapid.T) interface{} {
			c := genBreaks(t, c18...)
			p := gen.RandomProfile(t)
			if p.Newline < 25 {
				p.Newline = 25
			}
			g := gen.New(t, p)
			g.BreakFile()
			c.Text = Src(g.String())
			return c
		},
		Rule: "generated files of defn, defmethod and if forms (and look-alikes, nested and top-level) with line breaks, comments, metadata and discards at all places; with only the three " +
			"transforms on, the output must be the reference model's, line break by line break; among other transforms, the models must find nothing left to do in the output. " +
			"Non-trivial: a model changes something in the source.",
	})
}
