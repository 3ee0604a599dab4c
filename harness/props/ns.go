package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
	"verif/refclj"
)

var sortedClauses = map[string]bool{"require": true, "require-macros": true, "import": true}

// ---- C15: sorting

func checkC15(c interface{}, o *core.Out) {
	cc := c.(*FmtCase)
	src := string(cc.Text)
	r, ok := read(src, o)
	if !ok {
		return
	}
	if droppedComments(r.Roots) {
		o.Skip("comment between a prefix and its form")
		return
	}
	style := cc.Opts.has("enforce-ns-style")
	if !cc.Opts.has("sort-import-require") || cc.Opts.has("use-to-require") || cc.Opts.has("remove-unused-requires") {
		o.Skip("sorting is off or entries are rewritten")
		return
	}
	exact := len(cc.Opts.On) == 1
	roots := refclj.TerminateComments(r.Roots, true)
	out, ok := mustFormat(src, cc.Opts, o)
	if !ok {
		return
	}
	ro, ok := mustRead(out, src, o)
	if !ok {
		return
	}
	oroots := ro.Roots
	fail := func(format string, args ...interface{}) {
		o.Fail("%s (%v)\n--- source\n%s\n--- output\n%s", fmt.Sprintf(format, args...), cc.Opts, show(src), show(out))
	}
	ns, ok := nsForms(roots)
	if !ok {
		o.Skip("ns form that starts with a line break or comment")
		return
	}
	ns2, _ := nsForms(oroots)
	if len(ns) != len(ns2) {
		fail("the output has %d ns forms instead of %d", len(ns2), len(ns))
		return
	}
	clauses := map[*refclj.Node]bool{}
	for i := range ns {
		cs, ok := nsClausesOf(ns[i], style)
		if !ok {
			o.Skip("clause that starts with a line break or comment, or dangling marker")
			return
		}
		cs2, ok := nsClausesOf(ns2[i], style)
		if !ok || len(cs) != len(cs2) {
			fail("the output has %d clauses instead of %d", len(cs2), len(cs))
			return
		}
		for j := range cs {
			a, b := cs[j], cs2[j]
			if a.name != b.name {
				fail("clause %d is %s instead of %s", j+1, b.name, a.name)
				return
			}
			if !sortedClauses[a.name] {
				continue
			}
			clauses[a.node], clauses[b.node] = true, true
			es, head, tail, ok := clauseEntries(a.node)
			if !ok {
				o.Skip("dangling marker")
				return
			}
			es2, _, tail2, ok := clauseEntries(b.node)
			if !ok {
				fail("the %s clause has a dangling marker", a.name)
				return
			}
			form := func(e clauseEntry) *refclj.Form {
				switch {
				case style && a.name == "import":
					return styleImport(e.form)
				case style:
					return styleRequire(e.form)
				}
				return e.form
			}
			want := sortEntries(es, form)
			if len(es) > 1 {
				o.NonTrivial = true
			}
			for k := range want {
				if len(want) == len(es) && &want[k].nodes[0] != &es[k].nodes[0] {
					o.Label("entries move")
					if len(want[k].above) > 0 {
						o.Label("comments above a moved entry")
					}
					if want[k].beside != "" {
						o.Label("comment beside a moved entry")
					}
					if len(want[k].nodes) > 1 {
						o.Label("moved entry of several nodes")
					}
				}
			}
			if len(want) != len(es2) {
				fail("the %s clause has %d entries instead of %d", a.name, len(es2), len(want))
				return
			}
			// Comments on the line of the head belong to no entry.
			drop := map[string]bool{}
			for _, h := range head {
				drop[h] = true
			}
			filter := func(cs []string) string {
				var kept []string
				for _, c := range cs {
					if !drop[c] {
						kept = append(kept, c)
					}
				}
				return strings.Join(kept, "\n")
			}
			for k := range want {
				w, g := want[k], es2[k]
				var ws, gs string
				if exact {
					ws, gs = refclj.Dump(w.nodes), refclj.Dump(g.nodes)
				} else {
					ws, gs = form(w).String(), g.form.String()
					ws += strings.Join(commentsOf(w.nodes), "\n")
					gs += strings.Join(commentsOf(g.nodes), "\n")
				}
				switch {
				case ws != gs:
					fail("entry %d of the %s clause is\n  %s\ninstead of\n  %s", k+1, a.name, gs, ws)
				case filter(w.above) != filter(g.above):
					fail("above entry %d of the %s clause there are the comments %q instead of %q", k+1, a.name, g.above, w.above)
				case w.beside != g.beside && !(drop[w.beside] || drop[g.beside]):
					fail("beside entry %d of the %s clause there is the comment %q instead of %q", k+1, a.name, g.beside, w.beside)
				}
				if o.Failed() {
					return
				}
			}
			if filter(tail) != filter(tail2) {
				fail("at the end of the %s clause there are the comments %q instead of %q", a.name, tail2, tail)
				return
			}
			if l := newLayout(a.node, b.node); l != "" {
				fail("the %s clause %s", a.name, l)
				return
			}
		}
	}
	if exact {
		w, g := refclj.Dump(hollow(roots, clauses)), refclj.Dump(hollow(oroots, clauses))
		if w != g {
			fail("something other than the entries of sorted clauses has changed:\n  %s\nbecame\n  %s", w, g)
		}
	}
}

func genC15(t *rapid.T) interface{} {
	c := &FmtCase{}
	if gen.Pct(t, 50) {
		c.Opts.On = []string{"sort-import-require"}
	} else {
		c.Opts.On = []string{"sort-import-require"}
		for _, n := range defaultOn[1:] {
			if gen.Pct(t, 60) {
				c.Opts.On = append(c.Opts.On, n)
			}
		}
	}
	c.Text = Src(gen.NSSource(t))
	return c
}

// ---- C16: style

func checkC16(c interface{}, o *core.Out) {
	cc := c.(*FmtCase)
	src := string(cc.Text)
	r, ok := read(src, o)
	if !ok {
		return
	}
	if droppedComments(r.Roots) {
		o.Skip("comment between a prefix and its form")
		return
	}
	if !cc.Opts.has("enforce-ns-style") {
		o.Skip("enforce-ns-style is off")
		return
	}
	exact := len(cc.Opts.On) == 1
	roots := refclj.TerminateComments(r.Roots, true)
	var want []*refclj.Node
	if _, ok := nsForms(roots); !ok {
		o.Skip("ns form that starts with a line break or comment")
		return
	}
	if _, ok := refclj.FormsD(roots); !ok {
		o.Skip("dangling marker")
		return
	}
	for _, n := range roots {
		if isCall(n, "ns") {
			s, changes, ok := styleNS(n)
			if !ok {
				o.Skip("clause that starts with a line break or comment, or dangling marker")
				return
			}
			if changes > 0 {
				o.NonTrivial = true
			}
			cs, _ := nsClausesOf(n, true)
			for _, c := range cs {
				o.Label("clause " + c.name)
			}
			n = s
		}
		want = append(want, n)
	}
	out, ok := mustFormat(src, cc.Opts, o)
	if !ok {
		return
	}
	ro, ok := mustRead(out, src, o)
	if !ok {
		return
	}
	fail := func(format string, args ...interface{}) {
		o.Fail("%s (%v)\n--- source\n%s\n--- output\n%s", fmt.Sprintf(format, args...), cc.Opts, show(src), show(out))
	}
	if exact {
		o.Label("alone")
		w, g := refclj.Dump(hollow(want, nil)), refclj.Dump(hollow(ro.Roots, nil))
		if w != g {
			fail("the output is\n  %s\ninstead of\n  %s", g, w)
		}
		return
	}
	// With other transforms: what comes out must be in style, so that the
	// style rules don't change it.
	for _, n := range ro.Roots {
		if !isCall(n, "ns") {
			continue
		}
		s, changes, ok := styleNS(n)
		if !ok || changes > 0 {
			fail("the ns form of the output is not in style; it should be\n  %s", refclj.Dump([]*refclj.Node{s}))
			return
		}
	}
}

func genC16(t *rapid.T) interface{} {
	c := &FmtCase{}
	c.Opts.On = []string{"enforce-ns-style"}
	if gen.Pct(t, 40) {
		for _, n := range transformNames {
			if n != "enforce-ns-style" && gen.Pct(t, 50) {
				c.Opts.On = append(c.Opts.On, n)
			}
		}
	}
	c.Text = Src(gen.NSSource(t))
	return c
}

func init() {
	core.Register(&core.Prop{
		ID: "C15", Quick: 400000, Thorough: 1500000, New: newFmt, Check: checkC15, Gen: genC15,
		Rule: "generated ns forms (entries with equal and common prefixes, comments above and beside, metadata, tags, discards, prefix lists, strings, options, multi-line entries, " +
			"look-alike lists elsewhere in the file) with sorting on alone (then everything else must be kept exactly) or among other transforms; the entries of each clause of the output, " +
			"with their comments, are compared with the reference sort. Non-trivial: a sorted clause has at least two entries.",
	})
	core.Register(&core.Prop{
		ID: "C16", Quick: 400000, Thorough: 1500000, New: newFmt, Check: checkC16, Gen: genC16,
		Rule: "generated ns forms with old and new style clauses and entries, comments and markers, formatted with style enforcement alone (the whole output must be the reference " +
			"rewriting of the source, token by token and line break by line break) or among other transforms (the reference rewriting must not change the output). " +
			"Non-trivial: the rewriting changes something in the source.",
	})
}
