package refclj

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Dump writes a tree in a canonical, unambiguous notation.
func Dump(nodes []*Node) string {
	var b strings.Builder
	var rec func(n *Node)
	rec = func(n *Node) {
		fmt.Fprintf(&b, "%s", n.Kind)
		switch n.Kind {
		case Newline:
		case Char:
			fmt.Fprintf(&b, "%q=%d", n.Text, n.Rune)
		default:
			if n.Text != "" || !n.IsSeq() && !n.IsPrefix() {
				fmt.Fprintf(&b, "%q", n.Text)
			}
		}
		if n.IsSeq() || n.IsPrefix() {
			b.WriteByte('<')
			for i, k := range n.Kids {
				if i > 0 {
					b.WriteByte(' ')
				}
				rec(k)
			}
			b.WriteByte('>')
		}
	}
	for i, n := range nodes {
		if i > 0 {
			b.WriteByte(' ')
		}
		rec(n)
	}
	return b.String()
}

// Walk visits all nodes, parents first. Dropped layout nodes are not visited.
func Walk(nodes []*Node, f func(n, parent *Node)) {
	var rec func(n, p *Node)
	rec = func(n, p *Node) {
		f(n, p)
		for _, k := range n.Kids {
			rec(k, n)
		}
	}
	for _, n := range nodes {
		rec(n, nil)
	}
}

// LineCol gives the 1-based line and byte column of an offset.
func LineCol(src string, off int) (line, col int) {
	line = 1 + strings.Count(src[:off], "\n")
	col = off - strings.LastIndexByte(src[:off], '\n')
	return
}

// RuneCol gives the 0-based column of an offset, in characters.
func RuneCol(src string, off int) int {
	i := strings.LastIndexByte(src[:off], '\n') + 1
	return utf8.RuneCountInString(src[i:off])
}

// A Tok is an element of the linear view of a text: a token, a comment or a line break.
type Tok struct {
	Text string
	Node *Node // the node the token belongs to
	Off  int
}

// Stream flattens nodes into tokens, comments and line breaks ("\n"). Prefix
// markers are canonical and joined to their form.
func Stream(nodes []*Node) []Tok {
	var out []Tok
	var rec func(n *Node)
	rec = func(n *Node) {
		switch {
		case n.IsSeq():
			out = append(out, Tok{n.Open(), n, n.Start})
			for _, k := range n.Kids {
				rec(k)
			}
			out = append(out, Tok{n.Close(), n, n.End - 1})
		case n.IsPrefix():
			out = append(out, Tok{n.Prefix(), n, n.Start})
			for _, k := range n.Kids {
				rec(k)
			}
		default:
			out = append(out, Tok{n.AtomText(), n, n.Start})
		}
	}
	for _, n := range nodes {
		rec(n)
	}
	return out
}

// TerminateComments returns a copy of the tree in which every comment is
// followed by a line break (except as the last thing in the file).
func TerminateComments(nodes []*Node, top bool) []*Node {
	var out []*Node
	for i, n := range nodes {
		c := *n
		c.Kids = TerminateComments(n.Kids, false)
		out = append(out, &c)
		if n.Kind == Comment {
			last := i == len(nodes)-1
			if last && top {
				continue
			}
			if last || nodes[i+1].Kind != Newline {
				out = append(out, &Node{Kind: Newline, Text: "\n", Start: n.End, End: n.End})
			}
		}
	}
	return out
}

// A Form is a semantic form, as the reader would produce it.
type Form struct {
	Node *Node
	// Kind is the kind of the node; wrappers have kinds Meta (two forms),
	// Tag (one form), Quote and so on (one form).
	Kind  Kind
	Text  string
	Forms []*Form
}

type dangling struct{}

type stream struct {
	nodes []*Node
	ok    *bool
}

func (s *stream) push(n *Node) {
	s.nodes = append([]*Node{n}, s.nodes...)
}

// next reads one form, or returns nil at the end.
func (s *stream) next() *Form {
	for len(s.nodes) > 0 {
		n := s.nodes[0]
		s.nodes = s.nodes[1:]
		switch {
		case n.Layout():
			continue
		case n.Kind == Discard:
			s.push(n.Kids[0])
			s.must()
			continue
		case n.Kind == Meta:
			s.push(n.Kids[0])
			m := s.must()
			return &Form{Node: n, Kind: Meta, Forms: []*Form{m, s.must()}}
		case n.Kind == Tag:
			return &Form{Node: n, Kind: Tag, Text: n.Text, Forms: []*Form{s.must()}}
		case n.IsPrefix():
			s.push(n.Kids[0])
			return &Form{Node: n, Kind: n.Kind, Forms: []*Form{s.must()}}
		case n.IsSeq():
			return &Form{Node: n, Kind: n.Kind, Text: n.Text, Forms: readAll(n.Kids)}
		default:
			return &Form{Node: n, Kind: n.Kind, Text: n.Text}
		}
	}
	return nil
}

func (s *stream) must() *Form {
	f := s.next()
	if f == nil {
		panic(dangling{})
	}
	return f
}

func readAll(nodes []*Node) []*Form {
	s := &stream{append([]*Node(nil), nodes...), nil}
	var fs []*Form
	for {
		f := s.next()
		if f == nil {
			return fs
		}
		fs = append(fs, f)
	}
}

// Forms gives the semantic forms of a tree; ok is false if a metadata, tag or
// discard marker has nothing to apply to.
func Forms(nodes []*Node) (fs []*Form, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(dangling); !is {
				panic(e)
			}
			fs, ok = nil, false
		}
	}()
	return readAll(nodes), true
}

// String writes a form canonically.
func (f *Form) String() string {
	var b strings.Builder
	f.write(&b)
	return b.String()
}

func (f *Form) write(b *strings.Builder) {
	switch f.Kind {
	case Meta:
		b.WriteString("(META ")
	case Tag:
		b.WriteString("(TAG #" + f.Text + " ")
	case Quote, SynQuote, Unquote, Splice, Deref, Eval, Discard:
		b.WriteString("(" + strings.ToUpper(f.Kind.String()) + " ")
	case List, Vec, Map, Set, Fn, RCond, RCondSplice:
		b.WriteString(f.Node.Open())
	case Str:
		b.WriteString(fmt.Sprintf("%q", f.Text))
		return
	case Regex:
		b.WriteString(fmt.Sprintf("#%q", f.Text))
		return
	case VarQuote:
		b.WriteString("#'" + f.Text)
		return
	default:
		b.WriteString(f.Text)
		return
	}
	for i, k := range f.Forms {
		if i > 0 {
			b.WriteByte(' ')
		}
		k.write(b)
	}
	switch f.Kind {
	case Vec:
		b.WriteByte(']')
	case Map, Set:
		b.WriteByte('}')
	default:
		b.WriteByte(')')
	}
}

// FormsD is like Forms but keeps discarded forms: they appear as forms of kind
// Discard where they stand, the discarded form being the last of their Forms.
// The form that metadata, tags and prefixes apply to is the last of their Forms.
// If ok is false, something is missing there and a placeholder stands for it.
func FormsD(nodes []*Node) (fs []*Form, ok bool) {
	ok = true
	return readAllD(nodes, &ok), ok
}

func readAllD(nodes []*Node, ok *bool) []*Form {
	s := &stream{append([]*Node(nil), nodes...), ok}
	var fs []*Form
	for {
		f := s.nextD()
		if f == nil {
			return fs
		}
		fs = append(fs, f)
	}
}

// nextD reads one form or discarded form.
func (s *stream) nextD() *Form {
	for len(s.nodes) > 0 {
		n := s.nodes[0]
		s.nodes = s.nodes[1:]
		switch {
		case n.Layout():
			continue
		case n.Kind == Meta:
			s.push(n.Kids[0])
			f := &Form{Node: n, Kind: Meta}
			s.mustD(f)
			s.mustD(f)
			return f
		case n.Kind == Tag:
			f := &Form{Node: n, Kind: Tag, Text: n.Text}
			s.mustD(f)
			return f
		case n.IsPrefix(): // discards as well
			s.push(n.Kids[0])
			f := &Form{Node: n, Kind: n.Kind}
			s.mustD(f)
			return f
		case n.IsSeq():
			return &Form{Node: n, Kind: n.Kind, Text: n.Text, Forms: readAllD(n.Kids, s.ok)}
		default:
			return &Form{Node: n, Kind: n.Kind, Text: n.Text}
		}
	}
	return nil
}

// mustD appends discarded forms and one form.
func (s *stream) mustD(f *Form) {
	for {
		k := s.nextD()
		if k == nil {
			*s.ok = false
			f.Forms = append(f.Forms, &Form{Node: f.Node, Kind: Nil, Text: "MISSING"})
			return
		}
		f.Forms = append(f.Forms, k)
		if k.Kind != Discard {
			return
		}
	}
}

// Target strips metadata and tags.
func (f *Form) Target() *Form {
	for f.Kind == Meta || f.Kind == Tag {
		f = f.Forms[len(f.Forms)-1]
	}
	return f
}

// Live gives the forms that are not discarded.
func Live(fs []*Form) []*Form {
	var out []*Form
	for _, f := range fs {
		if f.Kind != Discard {
			out = append(out, f)
		}
	}
	return out
}

// A Group is a run of sibling nodes that make up one form (with its metadata
// and tags) or one discarded form.
type Group struct {
	Start, End int // indexes of its nodes
	Form       *Form
}

// Groups splits sibling nodes into forms. Layout outside the forms is skipped.
// ok is false if a marker has nothing to apply to.
func Groups(nodes []*Node) (gs []Group, ok bool) {
	ok = true
	s := &stream{append([]*Node(nil), nodes...), &ok}
	for {
		for len(s.nodes) > 0 && s.nodes[0].Layout() {
			s.nodes = s.nodes[1:]
		}
		start := len(nodes) - len(s.nodes)
		f := s.nextD()
		if f == nil {
			return gs, ok
		}
		gs = append(gs, Group{start, len(nodes) - len(s.nodes), f})
	}
}
