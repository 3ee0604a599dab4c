package props

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
	"verif/refclj"
)

// This file models what the :require and :use clauses of an ns form provide.

// provided is what is known about a library.
type provided struct {
	as       map[string]bool
	all      bool // :refer :all
	refers   map[string]bool
	macros   map[string]bool // :refer-macros
	loadOnly bool            // written as [lib]
}

func newProvided() *provided {
	return &provided{as: map[string]bool{}, refers: map[string]bool{}, macros: map[string]bool{}}
}

// A libEntry is an entry of a :require or :use clause that is understood.
type libEntry struct {
	lib string
	p   *provided
	dup bool // an option is repeated
}

// annotatedForm reports whether there is metadata, a tag or a discard inside f.
func annotatedForm(f *refclj.Form) bool {
	switch f.Kind {
	case refclj.Meta, refclj.Tag, refclj.Discard:
		return true
	}
	for _, k := range f.Forms {
		if annotatedForm(k) {
			return true
		}
	}
	return false
}

func nameList(f *refclj.Form) (names map[string]bool, ok bool) {
	if f.Kind != refclj.List && f.Kind != refclj.Vec {
		return nil, false
	}
	names = map[string]bool{}
	for _, k := range f.Forms {
		if k.Kind != refclj.Sym {
			return nil, false
		}
		names[k.Text] = true
	}
	return names, true
}

// understand reads an entry; nil if it is none of the understood kinds.
func understand(f *refclj.Form, use bool) *libEntry {
	if annotatedForm(f) {
		return nil
	}
	e := &libEntry{p: newProvided()}
	p := e.p
	if f.Kind == refclj.Sym {
		e.lib = f.Text
		p.all = use
		return e
	}
	if f.Kind != refclj.List && f.Kind != refclj.Vec || len(f.Forms)%2 != 1 || f.Forms[0].Kind != refclj.Sym {
		return nil
	}
	e.lib = f.Forms[0].Text
	opts := f.Forms[1:]
	if use && len(opts) > 2 {
		return nil
	}
	seen := map[string]bool{}
	for i := 0; i < len(opts); i += 2 {
		k, v := opts[i], opts[i+1]
		if k.Kind != refclj.Kw {
			return nil
		}
		e.dup = e.dup || seen[k.Text]
		seen[k.Text] = true
		switch {
		case k.Text == ":as":
			if v.Kind != refclj.Sym {
				return nil
			}
			p.as = map[string]bool{v.Text: true}
		case k.Text == ":refer" && !use && v.Kind == refclj.Kw && v.Text == ":all":
			p.all = true
			p.refers = map[string]bool{}
		case k.Text == ":refer" && !use, k.Text == ":only" && use, k.Text == ":refer-macros" && !use:
			names, ok := nameList(v)
			if !ok {
				return nil
			}
			if k.Text == ":refer-macros" {
				p.macros = names
			} else {
				p.refers = names
				p.all = false
			}
		default:
			return nil
		}
	}
	if use && len(opts) == 0 {
		p.all = true
	}
	p.loadOnly = !use && f.Kind == refclj.Vec && len(opts) == 0
	return e
}

func addAll(m, m2 map[string]bool) {
	for k := range m2 {
		m[k] = true
	}
}

// merge adds what another entry provides.
func (p *provided) merge(q *provided) {
	addAll(p.as, q.as)
	addAll(p.refers, q.refers)
	addAll(p.macros, q.macros)
	p.all = p.all || q.all
	p.loadOnly = p.loadOnly || q.loadOnly
}

func setString(m map[string]bool) string {
	var ss []string
	for s := range m {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	return "[" + strings.Join(ss, " ") + "]"
}

func libsString(libs map[string]*provided) string {
	var ss []string
	for lib, p := range libs {
		refers := setString(p.refers)
		if p.all {
			refers = ":all"
		}
		ss = append(ss, fmt.Sprintf("%s as %s refer %s macros %s", lib, setString(p.as), refers, setString(p.macros)))
	}
	sort.Strings(ss)
	return strings.Join(ss, "\n  ")
}

// requires is the summary of an ns form.
type requires struct {
	libs     map[string]*provided
	extra    map[string][]string // by clause: the entries that aren't understood
	others   []string            // the nodes other than these clauses and line breaks
	rest     []*refclj.Node      // the ns form without these clauses
	comments []string
	entries  int
	dup      bool
	// annotated is whether there is metadata or a tag before an entry.
	annotated bool
}

// readRequires summarises the :require and :use clauses of ns. If styled is
// set, entries are taken as the ns style would have them. If exact is set,
// line breaks in entries that aren't understood count.
func readRequires(ns *refclj.Node, style, exact bool) (r *requires, ok bool) {
	r = &requires{libs: map[string]*provided{}, extra: map[string][]string{}}
	cs, ok := nsClausesOf(ns, style)
	if !ok {
		return nil, false
	}
	clause := map[*refclj.Node]string{}
	for _, c := range cs {
		clause[c.node] = c.name
	}
	gs, ok := refclj.Groups(ns.Kids)
	if !ok {
		return nil, false
	}
	mine := map[*refclj.Node]bool{}
	for _, g := range gs {
		n := ns.Kids[g.Start]
		name := clause[n]
		if g.End != g.Start+1 || name != "require" && name != "use" {
			continue
		}
		mine[n] = true
		es, _, _, ok := clauseEntries(n)
		if !ok {
			return nil, false
		}
		for _, e := range es {
			r.entries++
			var le *libEntry
			if len(e.nodes) == 1 {
				le = understand(e.form, name == "use")
			}
			if le == nil {
				f := e.form
				if style && name == "require" {
					f = styleRequire(f)
				}
				s := f.String()
				if exact {
					s = refclj.Dump(e.nodes)
				}
				if t := f.Target(); t != f && understand(t, false) != nil {
					r.annotated = true
				}
				r.extra[name] = append(r.extra[name], s)
				continue
			}
			r.dup = r.dup || le.dup
			if r.libs[le.lib] == nil {
				r.libs[le.lib] = newProvided()
			}
			r.libs[le.lib].merge(le.p)
		}
	}
	for _, k := range ns.Kids {
		if k.Kind == refclj.Newline || mine[k] {
			continue
		}
		r.others = append(r.others, refclj.Dump(hollow([]*refclj.Node{k}, nil)))
		r.rest = append(r.rest, k)
	}
	r.comments = commentsOf(ns.Kids)
	return r, true
}

// outside is the file without its ns forms and the line breaks around them.
func outside(roots []*refclj.Node) string {
	var ns []*refclj.Node
	for _, n := range roots {
		if isCall(n, "ns") {
			ns = append(ns, &refclj.Node{Kind: refclj.Sym, Text: "NS"})
		} else {
			ns = append(ns, n)
		}
	}
	return refclj.Dump(hollow(ns, nil))
}

func sortedCopy(ss []string) []string {
	ss = append([]string(nil), ss...)
	sort.Strings(ss)
	return ss
}

// ---- C19

func checkC19(c interface{}, o *core.Out) {
	cc := c.(*FmtCase)
	src := string(cc.Text)
	r, ok := read(src, o)
	if !ok {
		return
	}
	if droppedComments(r.Roots) {
		o.Skip("comment between a prefix and its form")
		return
	}
	if !cc.Opts.has("use-to-require") || cc.Opts.has("remove-unused-requires") {
		o.Skip("use-to-require is off or entries are removed")
		return
	}
	style := cc.Opts.has("enforce-ns-style")
	exact := len(cc.Opts.On) == 1
	roots := refclj.TerminateComments(r.Roots, true)
	if _, ok := refclj.FormsD(roots); !ok {
		o.Skip("dangling marker")
		return
	}
	ns, ok := nsForms(roots)
	if !ok {
		o.Skip("ns form that starts with a line break or comment")
		return
	}
	var before []*requires
	for _, n := range ns {
		rq, ok := readRequires(n, style, exact)
		if !ok {
			o.Skip("clause that starts with a line break or comment, or dangling marker")
			return
		}
		before = append(before, rq)
		if rq.entries > 1 {
			o.NonTrivial = true
		}
		if len(rq.extra["use"]) > 0 {
			o.Label("entries of :use that aren't understood")
		}
		if len(rq.extra["require"]) > 0 {
			o.Label("entries of :require that aren't understood")
		}
		n := 0
		for _, p := range rq.libs {
			n++
			if len(p.as) > 1 {
				o.Label("several aliases for a library")
			}
			if p.all && len(p.refers) > 0 {
				o.Label("refer all and names of a library")
			}
		}
		if n+len(rq.extra["use"])+len(rq.extra["require"]) < rq.entries {
			o.Label("several entries for a library")
		}
	}
	out, ok := mustFormat(src, cc.Opts, o)
	if !ok {
		return
	}
	ro, ok := mustRead(out, src, o)
	if !ok {
		return
	}
	fail := func(format string, args ...interface{}) {
		o.Fail("%s (%v)\n--- source\n%s\n--- output\n%s", fmt.Sprintf(format, args...), cc.Opts, show(src), show(out))
	}
	ns2, ok := nsForms(ro.Roots)
	if !ok || len(ns2) != len(ns) {
		fail("the output has %d ns forms instead of %d", len(ns2), len(ns))
		return
	}
	for i := range ns {
		b := before[i]
		a, ok := readRequires(ns2[i], style, exact)
		if !ok {
			fail("the clauses of the ns form can't be recognised any more")
			return
		}
		if w, g := libsString(b.libs), libsString(a.libs); w != g {
			fail("the ns form provides\n  %s\ninstead of\n  %s", g, w)
			return
		}
		for _, kind := range []string{"require", "use"} {
			w, g := b.extra[kind], a.extra[kind]
			if !exact {
				w, g = sortedCopy(w), sortedCopy(g)
			}
			if strings.Join(w, "\n  ") != strings.Join(g, "\n  ") {
				fail("the other entries of :%s are\n  %s\ninstead of\n  %s", kind, strings.Join(g, "\n  "), strings.Join(w, "\n  "))
				return
			}
		}
		if strings.Join(sortedCopy(b.comments), "\n") != strings.Join(sortedCopy(a.comments), "\n") {
			fail("the comments in the ns form are %q instead of %q", a.comments, b.comments)
			return
		}
		if exact {
			if w, g := strings.Join(b.others, "\n  "), strings.Join(a.others, "\n  "); w != g {
				fail("the rest of the ns form is\n  %s\ninstead of\n  %s", g, w)
				return
			}
		}
	}
	if exact {
		o.Label("alone")
		if w, g := outside(roots), outside(ro.Roots); w != g {
			fail("the file outside of the ns form is\n  %s\ninstead of\n  %s", g, w)
		}
	}
}

func genC19(t *rapid.T) interface{} {
	c := &FmtCase{}
	c.Opts.On = []string{"use-to-require"}
	if gen.Pct(t, 40) {
		for _, n := range defaultOn {
			if gen.Pct(t, 60) {
				c.Opts.On = append(c.Opts.On, n)
			}
		}
	}
	c.Text = Src(gen.RequireSource(t))
	return c
}

// ---- C20

// mentions are the ways in which names are used outside of ns forms.
type mentions struct {
	names, spaces, packages map[string]bool
}

func readMentions(roots []*refclj.Node, style bool) (m *mentions, ok bool) {
	m = &mentions{map[string]bool{}, map[string]bool{}, map[string]bool{}}
	var body []*refclj.Node
	for _, n := range roots {
		if !isCall(n, "ns") {
			body = append(body, n)
			continue
		}
		cs, ok := nsClausesOf(n, style)
		if !ok {
			return nil, false
		}
		for _, c := range cs {
			if c.name != "import" {
				continue
			}
			fs, ok := refclj.FormsD(c.node.Kids)
			if !ok {
				return nil, false
			}
			for _, f := range refclj.Live(fs)[1:] {
				f = f.Target()
				switch f.Kind {
				case refclj.Sym:
					if i := strings.LastIndexByte(f.Text, '.'); i >= 0 {
						m.packages[f.Text[:i]] = true
					}
				case refclj.List, refclj.Vec:
					if fs := refclj.Live(f.Forms); len(fs) > 0 {
						if f := fs[0].Target(); f.Kind == refclj.Sym {
							m.packages[f.Text] = true
						}
					}
				}
			}
		}
	}
	refclj.Walk(body, func(n, _ *refclj.Node) {
		switch n.Kind {
		case refclj.Sym, refclj.VarQuote:
			if i := strings.IndexByte(n.Text, '/'); i > 0 {
				m.spaces[n.Text[:i]] = true
			} else {
				m.names[n.Text] = true
			}
		case refclj.Kw:
			if strings.HasPrefix(n.Text, "::") {
				if i := strings.IndexByte(n.Text, '/'); i > 2 {
					m.spaces[n.Text[2:i]] = true
				}
			}
		case refclj.Map:
			if strings.HasPrefix(n.Text, "::") {
				m.spaces[n.Text[2:]] = true
			}
		}
	})
	return m, true
}

func (m *mentions) lib(name string) bool {
	return m.spaces[name] || m.packages[strings.Replace(name, "-", "_", -1)]
}

func keepUsed(names, used map[string]bool) map[string]bool {
	kept := map[string]bool{}
	for n := range names {
		if used[n] {
			kept[n] = true
		}
	}
	return kept
}

// trim removes what isn't used; needed is whether anything remains.
func (m *mentions) trim(lib string, p *provided) (needed bool) {
	p.as = keepUsed(p.as, m.spaces)
	p.refers = keepUsed(p.refers, m.names)
	p.macros = keepUsed(p.macros, m.names)
	return p.loadOnly || p.all || len(p.as)+len(p.refers)+len(p.macros) > 0 || m.lib(lib)
}

// trimEntry is an entry of a :require without its unused options, and the
// comments that remain inside. A nil node means that nothing remains.
func (m *mentions) trimEntry(n *refclj.Node, f *refclj.Form) (trimmed *refclj.Form, comments []string, removed int, ok bool) {
	e := understand(f, false)
	if e == nil || e.p.loadOnly {
		return f, commentsOf([]*refclj.Node{n}), 0, true
	}
	if e.dup {
		return nil, nil, 0, false
	}
	p := *e.p
	if !m.trim(e.lib, &p) {
		return nil, nil, 1, true
	}
	if f.Kind == refclj.Sym {
		return f, nil, 0, true
	}
	trimmed = copyForm(f)
	trimmed.Forms = trimmed.Forms[:1]
	gone := map[*refclj.Node]bool{} // nodes that are removed
	for i := 1; i < len(f.Forms); i += 2 {
		k, v := f.Forms[i], copyForm(f.Forms[i+1])
		keep := true
		switch {
		case k.Text == ":as":
			keep = p.as[v.Text]
		case v.Kind != refclj.Kw:
			used := p.refers
			if k.Text == ":refer-macros" {
				used = p.macros
			}
			var names []*refclj.Form
			for _, s := range v.Forms {
				if used[s.Text] {
					names = append(names, s)
				} else {
					removed++
				}
			}
			v.Forms = names
			keep = len(names) > 0
		}
		if keep {
			trimmed.Forms = append(trimmed.Forms, copyForm(k), v)
			continue
		}
		removed++
		in := false
		for _, kid := range n.Kids {
			if kid == k.Node {
				in = true
			}
			if in {
				gone[kid] = true
			}
			if kid == v.Node {
				in = false
			}
		}
	}
	for _, kid := range n.Kids {
		if !gone[kid] {
			comments = append(comments, commentsOf([]*refclj.Node{kid})...)
		}
	}
	return trimmed, comments, removed, true
}

func checkC20(c interface{}, o *core.Out) {
	cc := c.(*FmtCase)
	src := string(cc.Text)
	r, ok := read(src, o)
	if !ok {
		return
	}
	if droppedComments(r.Roots) {
		o.Skip("comment between a prefix and its form")
		return
	}
	if !cc.Opts.has("remove-unused-requires") {
		o.Skip("remove-unused-requires is off")
		return
	}
	style := cc.Opts.has("enforce-ns-style")
	merge := cc.Opts.has("use-to-require")
	exact := len(cc.Opts.On) == 1
	roots := refclj.TerminateComments(r.Roots, true)
	if _, ok := refclj.FormsD(roots); !ok {
		o.Skip("dangling marker")
		return
	}
	ns, ok := nsForms(roots)
	if !ok {
		o.Skip("ns form that starts with a line break or comment")
		return
	}
	m, ok := readMentions(roots, style)
	if !ok {
		o.Skip("clause that starts with a line break or comment, or dangling marker")
		return
	}
	out, ok := mustFormat(src, cc.Opts, o)
	if !ok {
		return
	}
	ro, ok := mustRead(out, src, o)
	if !ok {
		return
	}
	fail := func(format string, args ...interface{}) {
		o.Fail("%s (%v)\n--- source\n%s\n--- output\n%s", fmt.Sprintf(format, args...), cc.Opts, show(src), show(out))
	}
	ns2, ok := nsForms(ro.Roots)
	if !ok || len(ns2) != len(ns) {
		fail("the output has %d ns forms instead of %d", len(ns2), len(ns))
		return
	}
	if merge {
		// Compare what the clauses provide; entries are checked below
		// without use-to-require.
		for i := range ns {
			b, ok := readRequires(ns[i], style, exact)
			if !ok || b.dup || b.annotated {
				o.Skip("repeated option or annotated entry")
				return
			}
			for lib, p := range b.libs {
				if !m.trim(lib, p) {
					delete(b.libs, lib)
					o.NonTrivial = true
				}
			}
			a, ok := readRequires(ns2[i], style, exact)
			if !ok {
				fail("the clauses of the ns form can't be recognised any more")
				return
			}
			if w, g := libsString(b.libs), libsString(a.libs); w != g {
				fail("the ns form provides\n  %s\ninstead of\n  %s", g, w)
				return
			}
			for _, kind := range []string{"require", "use"} {
				w, g := sortedCopy(b.extra[kind]), sortedCopy(a.extra[kind])
				if strings.Join(w, "\n  ") != strings.Join(g, "\n  ") {
					fail("the other entries of :%s are\n  %s\ninstead of\n  %s", kind, strings.Join(g, "\n  "), strings.Join(w, "\n  "))
					return
				}
			}
		}
		o.Label("with use-to-require")
		return
	}
	removed := 0
	clauses, clauses2 := map[*refclj.Node]bool{}, map[*refclj.Node]bool{}
	dropped := map[*refclj.Node]bool{}
	for i := range ns {
		cs, ok := nsClausesOf(ns[i], style)
		if !ok {
			return
		}
		all2, ok := nsClausesOf(ns2[i], style)
		if !ok {
			fail("the clauses of the ns form can't be recognised any more")
			return
		}
		for _, c := range cs {
			if c.name != "require" && c.name != "require-macros" {
				if len(all2) == 0 || all2[0].name != c.name {
					fail("the %s clause is missing", c.name)
					return
				}
				all2 = all2[1:]
				continue
			}
			es, head, tail, ok := clauseEntries(c.node)
			if !ok {
				o.Skip("dangling marker")
				return
			}
			type kept struct {
				clauseEntry
				form     *refclj.Form
				comments []string
				removed  int
			}
			var want []kept
			lost := 0
			headDrop := map[string]bool{}
			for _, h := range head {
				headDrop[h] = true
			}
			if len(head) > 0 && strings.Count("\n"+strings.Join(commentsOf(c.node.Kids), "\n")+"\n", "\n"+head[0]+"\n") > 1 {
				o.Skip("the comment on the line of the head is not unique")
				return
			}
			for _, e := range es {
				k := kept{e, e.form, commentsOf(e.nodes), 0}
				if e.form.Kind != refclj.Discard {
					target := e.form.Target()
					if e.form != target {
						// Metadata or a tag before an entry: it may well be needed.
						o.Label("entry with metadata or tag")
						if f, _, n, ok := m.trimEntry(target.Node, target); !ok || f == nil || n > 0 {
							o.Skip("unused entry with metadata or tag")
							return
						}
					} else {
						f, cs, n, ok := m.trimEntry(target.Node, target)
						if !ok {
							o.Skip("repeated option")
							return
						}
						lost += n
						if f == nil {
							continue
						}
						k.form, k.removed = f, n
						if n > 0 {
							k.comments = cs
						}
					}
				}
				want = append(want, k)
			}
			if style {
				for j := range want {
					want[j].form = styleRequire(want[j].form)
				}
			}
			if cc.Opts.has("sort-import-require") {
				var ces []clauseEntry
				byFirst := map[*refclj.Node]kept{}
				for _, k := range want {
					byFirst[k.nodes[0]] = k
					ces = append(ces, k.clauseEntry)
				}
				want = nil
				for _, e := range sortEntries(ces, func(e clauseEntry) *refclj.Form { return byFirst[e.nodes[0]].form }) {
					want = append(want, byFirst[e.nodes[0]])
				}
			}
			removed += lost
			filter := func(cs []string) string {
				var kept []string
				for _, c := range cs {
					if !headDrop[c] {
						kept = append(kept, c)
					}
				}
				return strings.Join(kept, "\n")
			}
			if len(want) == 0 && filter(tail) == "" {
				// Nothing remains. The clause may stay only if a comment
				// on the line of its head does.
				dropped[c.node] = true
				if len(all2) > 0 && all2[0].name == c.name {
					if es2, head2, _, _ := clauseEntries(all2[0].node); len(es2) == 0 && len(head) > 0 && len(head2) > 0 && head[0] == head2[0] {
						delete(dropped, c.node)
						clauses[c.node], clauses2[all2[0].node] = true, true
						all2 = all2[1:]
					}
				}
				continue
			}
			if len(all2) == 0 || all2[0].name != c.name {
				fail("a %s clause is missing though something in it is needed", c.name)
				return
			}
			c2 := all2[0]
			all2 = all2[1:]
			if exact && lost == 0 {
				o.Label("clause with nothing to remove")
			} else {
				clauses[c.node], clauses2[c2.node] = true, true
			}
			es2, _, tail2, ok := clauseEntries(c2.node)
			if !ok {
				fail("the %s clause has a dangling marker", c.name)
				return
			}
			names := func(forms []*refclj.Form) string {
				var ss []string
				for _, f := range forms {
					ss = append(ss, f.String())
				}
				return strings.Join(ss, "\n  ")
			}
			var wf, gf []*refclj.Form
			for _, k := range want {
				wf = append(wf, k.form)
			}
			for _, e := range es2 {
				gf = append(gf, e.form)
			}
			if w, g := names(wf), names(gf); w != g {
				fail("the entries of the %s clause are\n  %s\ninstead of\n  %s", c.name, g, w)
				return
			}
			for j, w := range want {
				g := es2[j]
				switch {
				case exact && w.removed == 0 && refclj.Dump(w.nodes) != refclj.Dump(g.nodes):
					fail("the entry\n  %s\nbecame\n  %s", refclj.Dump(w.nodes), refclj.Dump(g.nodes))
				case strings.Join(w.comments, "\n") != strings.Join(commentsOf(g.nodes), "\n"):
					fail("in the entry %s there are the comments %q instead of %q", w.form, commentsOf(g.nodes), w.comments)
				case filter(w.above) != filter(g.above):
					fail("above the entry %s there are the comments %q instead of %q", w.form, g.above, w.above)
				case w.beside != g.beside && !headDrop[w.beside] && !headDrop[g.beside]:
					fail("beside the entry %s there is the comment %q instead of %q", w.form, g.beside, w.beside)
				}
				if o.Failed() {
					return
				}
			}
			if filter(tail) != filter(tail2) {
				fail("at the end of the %s clause there are the comments %q instead of %q", c.name, tail2, tail)
				return
			}
			if l := newLayout(c.node, c2.node); l != "" {
				fail("the %s clause %s", c.name, l)
				return
			}
			if exact {
				// Entries are on lines of their own as far as they were.
				var from, from2 []*refclj.Node
				for j, w := range want {
					from, from2 = append(from, w.nodes[0]), append(from2, es2[j].nodes[0])
				}
				b, b2 := breaksBefore(c.node, from), breaksBefore(c2.node, from2)
				for j := range b {
					if b[j] != b2[j] {
						fail("before the entry %s: line break: %v instead of %v", want[j].form, b2[j], b[j])
						return
					}
				}
			}
		}
		if len(all2) > 0 {
			fail("the %s clause should be gone", all2[0].name)
			return
		}
	}
	if removed > 0 {
		o.NonTrivial = true
	}
	if len(dropped) > 0 {
		o.Label("clause removed")
	}
	if !exact {
		return
	}
	o.Label("alone")
	strip := func(roots []*refclj.Node, clauses map[*refclj.Node]bool) string {
		var out []*refclj.Node
		for _, n := range roots {
			if isCall(n, "ns") {
				c := *n
				c.Kids = nil
				for _, k := range n.Kids {
					if dropped[k] || len(dropped) > 0 && k.Kind == refclj.Newline {
						continue
					}
					c.Kids = append(c.Kids, k)
				}
				n = &c
			}
			out = append(out, n)
		}
		return refclj.Dump(hollow(out, clauses))
	}
	// Metadata and tags of a removed clause go with it.
	if len(dropped) > 0 {
		for _, n := range ns {
			gs, _ := refclj.Groups(n.Kids)
			for _, g := range gs {
				for _, k := range n.Kids[g.Start:g.End] {
					if dropped[k] {
						for _, k := range n.Kids[g.Start:g.End] {
							dropped[k] = true
						}
					}
				}
			}
		}
	}
	if w, g := strip(roots, clauses), strip(ro.Roots, clauses2); w != g {
		fail("something other than the requires has changed:\n  %s\nbecame\n  %s", w, g)
	}
}

func genC20(t *rapid.T) interface{} {
	c := &FmtCase{}
	c.Opts.On = []string{"remove-unused-requires"}
	if gen.Pct(t, 45) {
		if gen.Pct(t, 50) {
			c.Opts.On = append(c.Opts.On, "use-to-require")
		}
		for _, n := range defaultOn {
			if gen.Pct(t, 50) {
				c.Opts.On = append(c.Opts.On, n)
			}
		}
	}
	c.Text = Src(gen.RequireSource(t))
	return c
}

func init() {
	core.Register(&core.Prop{
		ID: "C19", Quick: 400000, Thorough: 1500000, New: newFmt, Check: checkC19, Gen: genC19,
		Rule: "generated ns forms with :require and :use clauses over a small pool of libraries, aliases and names (so that several entries for a library are common), entries that aren't " +
			"understood, comments and markers, with use-to-require alone (then the rest of the file must be kept exactly) or among default transforms; what the clauses provide, the entries carried " +
			"over and the comments are compared. Non-trivial: the clauses of an ns form have at least two entries.",
	})
	core.Register(&core.Prop{
		ID: "C20", Quick: 400000, Thorough: 1500000, New: newFmt, Check: checkC20, Gen: genC20,
		Rule: "generated ns forms and bodies that mention aliases, names and libraries in all kinds of ways, with remove-unused-requires alone (then the rest of the file must be kept exactly) or " +
			"among other transforms; entries, options, names and comments that remain are compared with those the reference model keeps. Non-trivial: something is removed.",
	})
}

// breaksBefore tells for each of some kids of n whether there is a line break
// between it and the one before (or the start of n).
func breaksBefore(n *refclj.Node, kids []*refclj.Node) (breaks []bool) {
	found := false
	for _, k := range n.Kids {
		if len(kids) == 0 {
			break
		}
		switch {
		case k == kids[0]:
			breaks = append(breaks, found)
			found, kids = false, kids[1:]
		case k.Kind == refclj.Newline:
			found = true
		}
	}
	return breaks
}
