package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/refclj"
)

// This file is a reference model of ns forms: their clauses, the entries of
// clauses with the comments that belong to them, and what the style rules make
// of an entry.

// nsForms are the ns forms of a file. ok is false if one is written so that it
// is a matter of opinion whether it counts.
func nsForms(roots []*refclj.Node) (ns []*refclj.Node, ok bool) {
	for _, n := range roots {
		if isCall(n, "ns") {
			ns = append(ns, n)
		} else if n.Kind == refclj.List {
			if k := firstCode(n.Kids); k != nil && k.Kind == refclj.Sym && k.Text == "ns" {
				return nil, false
			}
		}
	}
	return ns, true
}

// firstCode is the first node that is neither layout nor a marker.
func firstCode(nodes []*refclj.Node) *refclj.Node {
	for _, n := range nodes {
		if counts(n) {
			return n
		}
	}
	return nil
}

// An nsClause is a clause of an ns form that is recognised.
type nsClause struct {
	node *refclj.Node
	name string // without colon
}

// nsClausesOf finds the clauses of ns: lists headed by a keyword and, if style
// is set, lists and vectors headed by one of the known symbols or keywords. ok
// is false if it is a matter of opinion whether a form is a clause.
func nsClausesOf(ns *refclj.Node, style bool) (cs []nsClause, ok bool) {
	fs, ok := refclj.FormsD(ns.Kids)
	if !ok {
		return nil, false
	}
	for _, f := range refclj.Live(fs)[1:] {
		n := f.Target().Node
		if n.Kind != refclj.List && n.Kind != refclj.Vec {
			continue
		}
		first := firstCode(n.Kids)
		if first == nil || first.Kind != refclj.Kw && first.Kind != refclj.Sym {
			continue
		}
		name := strings.TrimPrefix(first.Text, ":")
		if first != n.Kids[0] {
			if nsClauses[name] {
				return nil, false
			}
			continue
		}
		if first.Kind == refclj.Kw && n.Kind == refclj.List || style && nsClauses[name] {
			if first.Kind == refclj.Kw && name != first.Text[1:] {
				return nil, false // ::require
			}
			cs = append(cs, nsClause{n, name})
		}
	}
	return cs, true
}

// A clauseEntry is an entry of a clause and the comments that belong to it.
type clauseEntry struct {
	nodes  []*refclj.Node
	form   *refclj.Form
	above  []string // comments on the lines above
	beside string
}

// clauseEntries takes a clause apart. head are the comments on the line of
// its head (which count as above the first entry as well), tail the comments
// after the last entry.
func clauseEntries(c *refclj.Node) (entries []clauseEntry, head, tail []string, ok bool) {
	kids := c.Kids
	gs, ok := refclj.Groups(kids)
	if !ok {
		return nil, nil, nil, false
	}
	at := 1
	if at < len(kids) && kids[at].Kind == refclj.Comment {
		head = append(head, kids[at].Text)
	}
	comments := func(to int) (cs []string) {
		for ; at < to; at++ {
			if kids[at].Kind == refclj.Comment {
				cs = append(cs, kids[at].Text)
			}
		}
		return cs
	}
	for _, g := range gs[1:] {
		e := clauseEntry{nodes: kids[g.Start:g.End], form: g.Form}
		e.above = comments(g.Start)
		at = g.End
		if at < len(kids) && kids[at].Kind == refclj.Comment {
			e.beside = kids[at].Text
			at++
		}
		entries = append(entries, e)
	}
	return entries, head, comments(len(kids)), true
}

// sortKey is the name an entry starts with, if it does.
func sortKey(f *refclj.Form) (key string, ok bool) {
	if f.Kind == refclj.Discard {
		return "", false
	}
	f = f.Target()
	switch f.Kind {
	case refclj.Sym:
		return f.Text, true
	case refclj.List, refclj.Vec:
		if fs := refclj.Live(f.Forms); len(fs) > 0 && fs[0].Target().Kind == refclj.Sym {
			return fs[0].Target().Text, true
		}
	}
	return "", false
}

// sortEntries is the documented sort.
func sortEntries(es []clauseEntry, form func(clauseEntry) *refclj.Form) (sorted []clauseEntry) {
	type item struct {
		e   clauseEntry
		key string
		ok  bool
	}
	var items []item
	for _, e := range es {
		k, ok := sortKey(form(e))
		items = append(items, item{e, k, ok})
	}
	sort.SliceStable(items, func(i, j int) bool {
		a, b := items[i], items[j]
		if a.ok && b.ok {
			return a.key < b.key
		}
		return a.ok && !b.ok
	})
	for _, it := range items {
		sorted = append(sorted, it.e)
	}
	return sorted
}

// styleRequire and styleImport are what the ns style makes of an entry. They
// leave the given forms as they are.
func styleRequire(f *refclj.Form) *refclj.Form {
	f = copyForm(f)
	return retarget(f, func(f *refclj.Form) *refclj.Form {
		switch f.Kind {
		case refclj.Sym:
			return listForm(refclj.Vec, f)
		case refclj.List, refclj.Vec:
			v := listForm(refclj.Vec, f.Forms...)
			for j := range v.Forms {
				v.Forms[j] = retarget(v.Forms[j], func(f *refclj.Form) *refclj.Form {
					if f.Kind == refclj.List {
						return listForm(refclj.Vec, f.Forms...)
					}
					return f
				})
			}
			return v
		}
		return f
	})
}

func styleImport(f *refclj.Form) *refclj.Form {
	f = copyForm(f)
	return retarget(f, func(f *refclj.Form) *refclj.Form {
		switch f.Kind {
		case refclj.Vec:
			return listForm(refclj.List, f.Forms...)
		case refclj.Sym:
			if j := strings.LastIndexByte(f.Text, '.'); j > 0 && j < len(f.Text)-1 {
				return listForm(refclj.List,
					&refclj.Form{Node: f.Node, Kind: refclj.Sym, Text: f.Text[:j]},
					&refclj.Form{Node: f.Node, Kind: refclj.Sym, Text: f.Text[j+1:]})
			}
		}
		return f
	})
}

func copyForm(f *refclj.Form) *refclj.Form {
	c := *f
	c.Forms = nil
	for _, k := range f.Forms {
		c.Forms = append(c.Forms, copyForm(k))
	}
	return &c
}

// hollow copies a tree without line breaks and comments in, and entries of,
// the given clauses. The margins of strings' lines are dropped.
func hollow(nodes []*refclj.Node, clauses map[*refclj.Node]bool) []*refclj.Node {
	var out []*refclj.Node
	for _, n := range nodes {
		c := *n
		if clauses[n] {
			c.Kids = c.Kids[:1]
		}
		c.Kids = hollow(c.Kids, clauses)
		if c.Kind == refclj.Str {
			c.Text = trimLines(c.Text)
		}
		out = append(out, &c)
	}
	return out
}

// manyArgs are the clauses whose arguments start on a line of their own.
var manyArgs = map[string]bool{"require": true, "require-macros": true, "use": true, "import": true, "load": true, "gen-class": true}

// styleNS is what the ns style makes of an ns form. ok is false if it is a
// matter of opinion what counts as a clause. The given form is left as it is.
func styleNS(ns *refclj.Node) (styled *refclj.Node, changes int, ok bool) {
	cs, ok := nsClausesOf(ns, true)
	if !ok {
		return nil, 0, false
	}
	replace := map[*refclj.Node]*refclj.Node{}
	for _, c := range cs {
		n := *c.node
		n.Kind = refclj.List
		kw := &refclj.Node{Kind: refclj.Kw, Text: ":" + c.name}
		if c.node.Kind != refclj.List || c.node.Kids[0].Text != kw.Text {
			changes++
		}
		args := n.Kids[1:]
		n.Kids = []*refclj.Node{kw}
		if manyArgs[c.name] && len(args) > 0 && !args[0].Layout() {
			n.Kids = append(n.Kids, &refclj.Node{Kind: refclj.Newline, Text: "\n"})
			changes++
		}
		var entry func(*refclj.Node) *refclj.Node
		switch c.name {
		case "require", "require-macros":
			entry = styleRequireNode
		case "import":
			entry = styleImportNode
		default:
			entry = func(n *refclj.Node) *refclj.Node { return n }
		}
		before := refclj.Dump(args)
		args, ok = mapForms(args, entry)
		if !ok {
			return nil, 0, false
		}
		if refclj.Dump(args) != before {
			changes++
		}
		n.Kids = append(n.Kids, args...)
		replace[c.node] = &n
	}
	c := *ns
	c.Kids = nil
	for _, k := range ns.Kids {
		if r := replace[k]; r != nil {
			k = r
		}
		c.Kids = append(c.Kids, k)
	}
	return &c, changes, true
}

// mapForms replaces the nodes of forms that aren't discarded; metadata and tags
// before them are kept.
func mapForms(nodes []*refclj.Node, f func(*refclj.Node) *refclj.Node) ([]*refclj.Node, bool) {
	gs, ok := refclj.Groups(nodes)
	if !ok {
		return nil, false
	}
	live := map[*refclj.Node]bool{}
	for _, g := range gs {
		if g.Form.Kind != refclj.Discard {
			live[g.Form.Target().Node] = true
		}
	}
	var out []*refclj.Node
	for _, n := range nodes {
		if live[n] {
			n = f(n)
		}
		out = append(out, n)
	}
	return out, true
}

func styleRequireNode(n *refclj.Node) *refclj.Node {
	c := *n
	switch n.Kind {
	case refclj.Sym:
		return &refclj.Node{Kind: refclj.Vec, Kids: []*refclj.Node{n}}
	case refclj.List, refclj.Vec:
		c.Kind = refclj.Vec
		kids, ok := mapForms(n.Kids, func(k *refclj.Node) *refclj.Node {
			if k.Kind == refclj.List {
				v := *k
				v.Kind = refclj.Vec
				return &v
			}
			return k
		})
		if ok {
			c.Kids = kids
		}
	}
	return &c
}

func styleImportNode(n *refclj.Node) *refclj.Node {
	c := *n
	switch n.Kind {
	case refclj.Vec:
		c.Kind = refclj.List
	case refclj.Sym:
		if j := strings.LastIndexByte(n.Text, '.'); j > 0 && j < len(n.Text)-1 {
			return &refclj.Node{Kind: refclj.List, Kids: []*refclj.Node{
				{Kind: refclj.Sym, Text: n.Text[:j]}, {Kind: refclj.Sym, Text: n.Text[j+1:]}}}
		}
	}
	return &c
}

// newLayout tells what line breaks the clause b has that the clause a, which it
// was made from, doesn't account for: blank lines, and a closing delimiter on a
// line of its own.
func newLayout(a, b *refclj.Node) string {
	longest := func(n *refclj.Node) int {
		max, run := 1, 0
		for _, k := range n.Kids {
			if run++; k.Kind != refclj.Newline {
				run = 0
			}
			if run > max {
				max = run
			}
		}
		return max
	}
	closing := func(n *refclj.Node) int {
		i := len(n.Kids)
		for i > 0 && n.Kids[i-1].Kind == refclj.Newline {
			i--
		}
		return len(n.Kids) - i
	}
	last := b.Kids[len(b.Kids)-1-closing(b)]
	switch {
	case longest(b) > longest(a):
		return fmt.Sprintf("has %d line breaks in a row", longest(b))
	case last.Kind != refclj.Comment && closing(b) > closing(a):
		return "has its closing delimiter on a line of its own"
	}
	return ""
}
