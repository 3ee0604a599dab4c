package props

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/cespare/goclj/parse"
	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
	"verif/refclj"
)

// TextCase is a case that is just a text.
type TextCase struct{ Text Src }

func newText() interface{} { return new(TextCase) }

// convert turns a goclj tree into the reference representation.
func convert(n parse.Node) *refclj.Node {
	out := &refclj.Node{}
	seq := func(k refclj.Kind, kids []parse.Node) {
		out.Kind = k
		for _, c := range kids {
			out.Kids = append(out.Kids, convert(c))
		}
	}
	one := func(k refclj.Kind, kid parse.Node) {
		out.Kind = k
		out.Kids = []*refclj.Node{convert(kid)}
	}
	if pos := n.Position(); pos != nil {
		out.Start = pos.Offset
	}
	switch n := n.(type) {
	case *parse.BoolNode:
		out.Kind = refclj.Bool
		out.Text = strconv.FormatBool(n.Val)
	case *parse.CharacterNode:
		out.Kind, out.Text, out.Rune = refclj.Char, n.Text, n.Val
	case *parse.CommentNode:
		out.Kind, out.Text = refclj.Comment, n.Text
	case *parse.DerefNode:
		one(refclj.Deref, n.Node)
	case *parse.FnLiteralNode:
		seq(refclj.Fn, n.Nodes)
	case *parse.ReaderCondNode:
		seq(refclj.RCond, n.Nodes)
	case *parse.ReaderCondSpliceNode:
		seq(refclj.RCondSplice, n.Nodes)
	case *parse.ReaderDiscardNode:
		one(refclj.Discard, n.Node)
	case *parse.ReaderEvalNode:
		one(refclj.Eval, n.Node)
	case *parse.KeywordNode:
		out.Kind, out.Text = refclj.Kw, n.Val
	case *parse.ListNode:
		seq(refclj.List, n.Nodes)
	case *parse.MapNode:
		seq(refclj.Map, n.Nodes)
		out.Text = n.Namespace
	case *parse.MetadataNode:
		one(refclj.Meta, n.Node)
	case *parse.NewlineNode:
		out.Kind, out.Text = refclj.Newline, "\n"
	case *parse.NilNode:
		out.Kind, out.Text = refclj.Nil, "nil"
	case *parse.NumberNode:
		out.Kind, out.Text = refclj.Num, n.Val
	case *parse.QuoteNode:
		one(refclj.Quote, n.Node)
	case *parse.RegexNode:
		out.Kind, out.Text = refclj.Regex, n.Val
	case *parse.SetNode:
		seq(refclj.Set, n.Nodes)
	case *parse.StringNode:
		out.Kind, out.Text = refclj.Str, n.Val
	case *parse.SymbolNode:
		out.Kind, out.Text = refclj.Sym, n.Val
	case *parse.SyntaxQuoteNode:
		one(refclj.SynQuote, n.Node)
	case *parse.TagNode:
		out.Kind, out.Text = refclj.Tag, n.Val
	case *parse.UnquoteNode:
		one(refclj.Unquote, n.Node)
	case *parse.UnquoteSpliceNode:
		one(refclj.Splice, n.Node)
	case *parse.VarQuoteNode:
		out.Kind, out.Text = refclj.VarQuote, n.Val
	case *parse.VectorNode:
		seq(refclj.Vec, n.Nodes)
	default:
		panic(fmt.Sprintf("node of unknown type %T", n))
	}
	return out
}

func convertAll(ns []parse.Node) []*refclj.Node {
	var out []*refclj.Node
	for _, n := range ns {
		out = append(out, convert(n))
	}
	return out
}

func labelVerdict(r *refclj.Result, o *core.Out) {
	o.Label(r.Verdict.String())
	if r.Verdict == refclj.Reject {
		o.Label("reject: " + r.Reason)
	}
	if r.Verdict == refclj.Unspecified {
		o.Label("unspecified: " + r.Reason)
	}
}

// C07: differential against the reference reader.
func checkC07(c interface{}, o *core.Out) {
	src := string(c.(*TextCase).Text)
	r := refclj.Parse(src)
	if r.Verdict == refclj.Unspecified {
		o.Skip(r.Reason)
		return
	}
	o.Label(r.Verdict.String())
	tree, err := parseText(src, parse.IncludeNonSemantic)
	if r.Verdict == refclj.Reject {
		o.Label("reject: " + reasonClass(r.Reason))
		o.NonTrivial = len(src) > 3
		if err == nil {
			o.Fail("malformed text (%s) was accepted as %s\n%s", r.Reason, refclj.Dump(convertAll(tree.Roots)), show(src))
		}
		return
	}
	if err != nil {
		o.Fail("well-formed text was rejected: %v\n%s", err, show(src))
		return
	}
	labelTree(&r, o)
	nodes := 0
	refclj.Walk(r.Roots, func(n, _ *refclj.Node) { nodes++ })
	o.NonTrivial = nodes >= 4
	want, got := refclj.Dump(r.Roots), refclj.Dump(convertAll(tree.Roots))
	if want != got {
		o.Fail("tree differs\n want %s\n got  %s\n%s", want, got, show(src))
		return
	}
	var printed strings.Builder
	printTree(&printed, tree.Roots, "")
	if want, got := printed.String(), tree.String(); want != got {
		o.Fail("the printed tree is\n%s\ninstead of\n%s\n%s", got, want, show(src))
	}
}

// printTree prints a tree, each node on its own line below its parent.
func printTree(b *strings.Builder, nodes []parse.Node, indent string) {
	for _, n := range nodes {
		b.WriteString(indent + n.String() + "\n")
		printTree(b, n.Children(), indent+"  ")
	}
}

func reasonClass(s string) string {
	if i := strings.IndexAny(s, "\"%"); i > 0 {
		return s[:i]
	}
	if strings.HasPrefix(s, "unmatched") {
		return "unmatched delimiter"
	}
	return s
}

var errPos = regexp.MustCompile(`at ([^\n]*?):(\d+):(\d+): `)

// C08: positions.
func checkC08(c interface{}, o *core.Out) {
	src := string(c.(*TextCase).Text)
	r := refclj.Parse(src)
	if r.Verdict == refclj.Unspecified {
		o.Skip(r.Reason)
		return
	}
	o.Label(r.Verdict.String())
	name := "dir/some file.clj"
	tree, err := parse.Reader(strings.NewReader(src), name, parse.IncludeNonSemantic)
	if r.Verdict == refclj.Reject {
		if err == nil {
			o.Skip("malformed text accepted") // decided by C07
			return
		}
		o.NonTrivial = strings.Contains(src, "\n")
		m := errPos.FindStringSubmatch(err.Error())
		if m == nil {
			o.Fail("error without a position: %v\n%s", err, show(src))
			return
		}
		line, _ := strconv.Atoi(m[2])
		col, _ := strconv.Atoi(m[3])
		if m[1] != name {
			o.Fail("error names the file %q: %v", m[1], err)
			return
		}
		off, ok := offset(src, line, col)
		if !ok {
			o.Fail("error position %d:%d is outside the text: %v\n%s", line, col, err, show(src))
			return
		}
		if off > r.ErrEnd {
			o.Fail("error position %d:%d is after the problem (%s, apparent at offset %d): %v\n%s", line, col, r.Reason, r.ErrEnd, err, show(src))
		}
		return
	}
	if err != nil {
		o.Skip("well-formed text rejected") // decided by C07
		return
	}
	nodes := 0
	if refclj.Dump(r.Roots) != refclj.Dump(convertAll(tree.Roots)) {
		o.Skip("tree differs") // decided by C07
		return
	}
	var walk func(ref []*refclj.Node, got []parse.Node)
	walk = func(ref []*refclj.Node, got []parse.Node) {
		for i, n := range ref {
			if o.Failed() {
				return
			}
			nodes++
			pos := got[i].Position()
			if pos == nil {
				o.Fail("%s at offset %d has no position\n%s", n.Kind, n.Start, show(src))
				return
			}
			line, col := refclj.LineCol(src, n.Start)
			if pos.Name != name || pos.Offset != n.Start || pos.Line != line || pos.Col != col {
				o.Fail("%s %q starts at offset %d, line %d, column %d but reports %s (offset %d)\n%s",
					n.Kind, n.Text, n.Start, line, col, pos, pos.Offset, show(src))
				return
			}
			if s := pos.String(); s != fmt.Sprintf("%s:%d:%d", name, line, col) {
				o.Fail("position is written %q", s)
			}
			if n.IsSeq() || n.IsPrefix() {
				walk(n.Kids, got[i].Children())
			}
		}
	}
	walk(r.Roots, tree.Roots)
	labelTree(&r, o)
	o.NonTrivial = nodes >= 4 && strings.Contains(src, "\n")
	o.LabelIf(utf8.RuneCountInString(src) != len(src), "non-ASCII")
}

// offset finds the offset of a line and byte column; the end of the text counts as inside.
func offset(src string, line, col int) (int, bool) {
	lines := strings.SplitAfter(src, "\n")
	if line < 1 || line > len(lines) || col < 1 {
		return 0, false
	}
	off := 0
	for _, l := range lines[:line-1] {
		off += len(l)
	}
	l := lines[line-1]
	if col-1 > len(l) || col-1 == len(l) && strings.HasSuffix(l, "\n") {
		return 0, false
	}
	return off + col - 1, true
}

// C06: no crash, and every tree can be printed.
type CrashCase struct {
	Text Src
	Opts Opts
}

func checkC06(c interface{}, o *core.Out) {
	cc := c.(*CrashCase)
	src := string(cc.Text)
	tree, err := parseText(src, parse.IncludeNonSemantic)
	for opts := parse.ParseOpts(0); opts < 8; opts++ {
		parseText(src, opts) // must not panic
	}
	if err != nil {
		o.Label("rejected")
		o.NonTrivial = len(src) > 3
		return
	}
	o.Label("accepted")
	o.LabelIf(!utf8.ValidString(src), "invalid UTF-8")
	o.NonTrivial = len(src) > 3
	_ = tree.String()
	walkNodes(tree.Roots, func(n parse.Node) { _ = n.String(); _ = n.Position() })
	for _, on := range [][]string{cc.Opts.On, nil, defaultOn, transformNames} {
		op := cc.Opts
		op.On = on
		if _, err := formatText(src, op); err != nil {
			o.Fail("a tree the parser returned could not be printed (%v): %v\n%s", op, err, show(src))
			return
		}
	}
}

func walkNodes(ns []parse.Node, f func(parse.Node)) {
	for _, n := range ns {
		f(n)
		walkNodes(n.Children(), f)
	}
}

func genText(t *rapid.T) interface{} { return &TextCase{Src(gen.Wild(t))} }

func init() {
	core.Register(&core.Prop{
		ID: "C07", Quick: 800000, Thorough: 4000000, New: newText, Gen: genText, Check: checkC07,
		Rule: "texts from token soup, mutated generated files and generated files; differential against the reference reader. " +
			"Non-trivial: at least four nodes, or rejected and longer than three bytes.",
		Assumptions: []string{"the reference reader (harness/refclj) states the reader's rules; cases it leaves open (listed in DESIGN.md) are not judged"},
	})
	core.Register(&core.Prop{
		ID: "C08", Quick: 800000, Thorough: 4000000, New: newText, Gen: genText, Check: checkC08,
		Rule: "texts as for C07; every node's position is compared with the reference reader's, every error position with the extent of the text. " +
			"Non-trivial: several lines, and at least four nodes or rejected.",
	})
	core.Register(&core.Prop{
		ID: "C06", Quick: 250000, Thorough: 1500000, New: func() interface{} { return new(CrashCase) },
		Gen: func(t *rapid.T) interface{} {
			c := &CrashCase{}
			if gen.Pct(t, 2) {
				c.Text = Src(gen.Chain(t))
			} else if gen.Pct(t, 25) {
				c.Text = Src(gen.Bytes(t))
			} else {
				c.Text = Src(gen.Wild(t))
			}
			c.Opts.On = genOn(t)
			genOverrides(t, &c.Opts)
			c.Opts.Tab = gen.Pct(t, 10)
			return c
		},
		Check: checkC06,
		Rule: "raw bytes, token soup, mutated and generated files, and constructs nested or repeated up to 500 times, with random options; parsed under all option sets and printed under four transform sets. " +
			"Non-trivial: longer than three bytes.",
		Assumptions: []string{fmt.Sprintf("a case of a few hundred bytes that takes longer than %s (normally milliseconds) counts as hanging if it does so twice", core.HangLimit)},
	})
}
