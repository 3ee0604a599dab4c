package props

import (
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
	"verif/refclj"
)

// ---- C12: indentation

func genPlainOverrides(t *rapid.T, o *Opts) {
	if gen.Pct(t, 40) {
		o.Indent = map[string]string{}
		for i, n := 0, 1+gen.Int(t, 5); i < n; i++ {
			name := gen.Pick(t, "foo", "bar", "f", "b", "x", "str", "map", "some-function", "quite-a-long-function-name", "defx", "when", "if", "cond", "let", "fn", "case", "->", "for", "reify")
			o.Indent[name] = gen.Pick(t, styleNames...)
		}
	}
	if gen.Pct(t, 15) {
		o.TF = map[string]string{}
		for i, n := 0, 1+gen.Int(t, 2); i < n; i++ {
			o.TF[gen.Pick(t, "foo", "bar", "f", "->>", "cond->", "->", "x")] = gen.Pick(t, "normal", "cond->")
		}
	}
}

func checkC12(c interface{}, o *core.Out) {
	cc := c.(*FmtCase)
	src := string(cc.Text)
	r, ok := read(src, o)
	if !ok {
		return
	}
	for k := range cc.Opts.Indent {
		if strings.Contains(k, "/") {
			o.Skip("override of a qualified name")
			return
		}
	}
	if strings.Contains(src, "\\\n") {
		o.Label("has newline character literal")
	}
	labelTree(r, o)
	out, ok := mustFormat(src, cc.Opts, o)
	if !ok {
		return
	}
	r2, ok := mustRead(out, src, o)
	if !ok {
		return
	}
	m := newIndentModel(out, cc.Opts)
	m.check(r2.Roots)
	for l := range m.labels {
		o.Label(l)
	}
	o.NonTrivial = m.styled > 0
	if m.failure != "" {
		o.Fail("%s (%v)\n--- source\n%s\n--- output\n%s", m.failure, cc.Opts, show(src), show(out))
	}
}

func init() {
	core.Register(&core.Prop{
		ID: "C12", Quick: 450000, Thorough: 2000000, New: newFmt, Check: checkC12,
		Gen: func(t *rapid.T) interface{} {
			c := genFmt(t, func(p *gen.Profile) {
				p.Styled = 75
				p.NS = 5
				p.Dangling = true
			})
			switch gen.Weighted(t, 3, 1, 1) {
			case 0:
				c.Opts = defaultOpts()
			case 1:
				c.Opts.On = []string{}
			case 2:
				c.Opts.On = genOn(t)
			}
			genPlainOverrides(t, &c.Opts)
			c.Opts.Tab = gen.Pct(t, 5)
			return c
		},
		Rule: "generated files full of forms with styles, under random overrides of unqualified names; the column of every form and comment that starts a line of the " +
			"output is compared with a reference model of the documented styles, relative to the enclosing form's place in the output. " +
			"Non-trivial: at least one line start inside a form whose style is not :normal.",
		Assumptions: []string{"not judged: lines after a discarded form in pair positions, metadata or tags as second element of a list with a long head, closing delimiters, names with several slashes"},
	})
}

// ---- C22: threaded forms

func checkC22(c interface{}, o *core.Out) {
	cc := c.(*FmtCase)
	src := string(cc.Text)
	r, ok := read(src, o)
	if !ok {
		return
	}
	for k := range cc.Opts.Indent {
		if strings.Contains(k, "/") {
			o.Skip("override of a qualified name")
			return
		}
	}
	labelTree(r, o)
	out, ok := mustFormat(src, cc.Opts, o)
	if !ok {
		return
	}
	r2, ok := mustRead(out, src, o)
	if !ok {
		return
	}
	m := newIndentModel(out, cc.Opts)
	m.check(r2.Roots)
	for l := range m.labels {
		o.Label(l)
	}
	o.NonTrivial = m.labels["threaded pair form"] && m.styled > 0
	if m.failure != "" {
		o.Fail("%s (%v)\n--- source\n%s\n--- output\n%s", m.failure, cc.Opts, show(src), show(out))
	}
}

// ---- C13: overrides

// nsSpecs gathers the aliases and referred names of the ns forms of a text. An
// alias or name that is given twice is in dup.
func nsSpecs(roots []*refclj.Node) (aliases, refers map[string]string, dup bool) {
	aliases, refers = map[string]string{}, map[string]string{}
	set := func(m map[string]string, k, v string) {
		if m[k] != "" && m[k] != v {
			dup = true
		}
		m[k] = v
	}
	args := func(n *refclj.Node) (out []*refclj.Node) {
		for _, k := range n.Kids {
			if counts(k) && k.Kind != refclj.Discard {
				out = append(out, k)
			}
		}
		return out
	}
	for _, ns := range roots {
		if !isCall(ns, "ns") {
			continue
		}
		for _, c := range ns.Kids {
			if !isKwCall(c, ":require", ":require-macros") {
				continue
			}
			for _, e := range c.Kids[1:] {
				if e.Kind != refclj.List && e.Kind != refclj.Vec {
					continue
				}
				a := args(e)
				if len(a) == 0 || a[0].Kind != refclj.Sym {
					continue
				}
				for i := 1; i+1 < len(a); i += 2 {
					switch {
					case isKw(a[i], ":as") && a[i+1].Kind == refclj.Sym:
						set(aliases, a[i+1].Text, a[0].Text)
					case isKw(a[i], ":refer") || isKw(a[i], ":refer-macros"):
						for _, r := range args(a[i+1]) {
							if r.Kind == refclj.Sym {
								set(refers, r.Text, a[0].Text)
							}
						}
					}
				}
			}
		}
	}
	return
}

func checkC13(c interface{}, o *core.Out) {
	cc := c.(*FmtCase)
	src := string(cc.Text)
	r, ok := read(src, o)
	if !ok {
		return
	}
	out, ok := mustFormat(src, cc.Opts, o)
	if !ok {
		return
	}
	r2, ok := mustRead(out, src, o)
	if !ok {
		return
	}
	m := newIndentModel(out, cc.Opts)
	var dup bool
	m.aliases, m.refers, dup = nsSpecs(r2.Roots)
	if dup {
		o.Skip("an alias or name given twice")
		return
	}
	m.check(r2.Roots)
	for l := range m.labels {
		o.Label(l)
	}
	refclj.Walk(r.Roots, func(n, _ *refclj.Node) {
		if !isCall(n) {
			return
		}
		ns, name, _ := splitSym(n.Kids[0].Text)
		bare := cc.Opts.Indent[name] != "" || defaultStyles[name] != ""
		switch {
		case ns != "" && cc.Opts.Indent[n.Kids[0].Text] != "":
			o.Label("written in full")
			o.LabelIf(bare, "written in full, with a style for the bare name")
			o.NonTrivial = true
		case ns != "" && m.aliases[ns] != "" && cc.Opts.Indent[m.aliases[ns]+"/"+name] != "":
			o.Label("by alias")
			o.LabelIf(bare, "by alias, with a style for the bare name")
			o.NonTrivial = true
		case ns == "" && m.refers[name] != "" && cc.Opts.Indent[m.refers[name]+"/"+name] != "":
			o.Label("referred")
			o.LabelIf(bare, "referred, with a style for the bare name")
			o.NonTrivial = true
		case cc.Opts.Indent[name] != "":
			o.Label("bare override")
			o.LabelIf(ns != "", "bare override, qualified symbol")
			o.NonTrivial = true
		}
	})
	if m.failure != "" {
		o.Fail("%s (%v)\n--- source\n%s\n--- output\n%s", m.failure, cc.Opts, show(src), show(out))
	}
}

// genOverOverrides makes indent overrides for the names of gen.OverrideFile.
func genOverOverrides(t *rapid.T, g *gen.G) map[string]string {
	m := map[string]string{}
	for i, n := 0, 1+gen.Int(t, 6); i < n; i++ {
		name := gen.Pick(t, gen.OverNames...)
		if gen.Pct(t, 70) {
			lib := append(append([]string(nil), gen.OverLibs...), "zz")
			if gen.Pct(t, 15) {
				lib = gen.OverAliases
			}
			name = gen.Pick(t, lib...) + "/" + name
		}
		if g != nil {
			name = g.Rename(name)
		}
		m[name] = gen.Pick(t, "list-body", "list", "cond0", "cond1", "cond2", "normal", "let", "for", "letfn", "deftype", "cond4")
	}
	return m
}

func renameKeys(g *gen.G, m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	renamed := map[string]string{}
	for k, v := range m {
		renamed[k] = v
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys) // Rename may draw
	for _, k := range keys {
		if n := g.Rename(k); n != k {
			delete(renamed, k)
			renamed[n] = m[k]
		}
	}
	return renamed
}

func genC13(t *rapid.T) interface{} {
	c := &FmtCase{}
	p := gen.RandomProfile(t)
	p.Prefix, p.Discard, p.Meta, p.Tag = 0, 0, 0, 0
	p.Strange = false
	if p.Newline < 25 {
		p.Newline = 25
	}
	g := gen.New(t, p)
	g.OverrideFile()
	c.Text = Src(g.String())
	c.Opts.On = genOn(t, "use-to-require", "remove-unused-requires")
	if !c.Opts.has("enforce-ns-style") && gen.Pct(t, 50) {
		c.Opts.On = append(c.Opts.On, "enforce-ns-style")
	}
	c.Opts.Indent = genOverOverrides(t, g)
	return c
}

func init() {
	core.Register(&core.Prop{
		ID: "C22", Quick: 250000, Thorough: 1500000, New: newFmt, Check: checkC22,
		Gen: func(t *rapid.T) interface{} {
			p := gen.RandomProfile(t)
			if p.Newline < 25 {
				p.Newline = 25
			}
			p.Size = 20 + gen.Int(t, 40)
			c := &FmtCase{Opts: defaultOpts()}
			heads := []string{"->", "some->", "cond->", "->", "cond->", "->>", "t1"}
			if gen.Pct(t, 50) {
				c.Opts.TF = map[string]string{}
				for i, n := 0, 1+gen.Int(t, 2); i < n; i++ {
					name := gen.Pick(t, "t1", "t2", "->>", "cond->", "->", "m/t3", "assoc")
					c.Opts.TF[name] = gen.Pick(t, "normal", "cond->")
					heads = append(heads, name)
				}
			}
			if gen.Pct(t, 40) {
				c.Opts.Indent = map[string]string{}
				for i, n := 0, 1+gen.Int(t, 2); i < n; i++ {
					c.Opts.Indent[gen.Pick(t, "foo", "bar", "c2", "assoc", "case", "t1", "cond->")] = gen.Pick(t, "cond2", "cond1", "cond4", "cond0", "list", "list-body", "normal")
				}
			}
			g := gen.New(t, p)
			g.ThreadFile(heads)
			c.Text = Src(g.String())
			c.Opts.TF = renameKeys(g, c.Opts.TF)
			c.Opts.Indent = renameKeys(g, c.Opts.Indent)
			return c
		},
		Rule: "generated nestings of thread-first forms (built in and overridden) with pair-style forms, metadata, discards and comments among the arguments; " +
			"line columns of the output are compared with the reference indentation model. Non-trivial: contains a pair-style form in a threaded position.",
	})
	core.Register(&core.Prop{
		ID: "C13", Quick: 400000, Thorough: 1500000, New: newFmt, Check: checkC13, Gen: genC13,
		Rule: "generated ns forms (several clauses, option orders, :require-macros, :refer-macros, :include-macros, metadata) over four libraries and bodies calling qualified, " +
			"aliased, referred and look-alike names, under random override tables in which qualified and bare names compete; the columns of the output are compared with the reference " +
			"model's resolution of each head. Non-trivial: an override applies to some call.",
		Assumptions: []string{"no alias or referred name is given twice in a file"},
	})
}
