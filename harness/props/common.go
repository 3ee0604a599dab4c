// Package props contains the executable properties.
package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
	"verif/refclj"
)

type Src = core.Src

// ---- options

// Transform names, in the order of the documentation.
var transformNames = []string{
	"sort-import-require", "enforce-ns-style", "remove-trailing-newlines", "fix-defn-arglist-newline",
	"fix-defmethod-dispatch-val-newline", "remove-extra-blank-lines", "fix-if-newline-consistency",
	"use-to-require", "remove-unused-requires",
}

var transformByName = map[string]format.Transform{
	"sort-import-require":                format.TransformSortImportRequire,
	"enforce-ns-style":                   format.TransformEnforceNSStyle,
	"remove-trailing-newlines":           format.TransformRemoveTrailingNewlines,
	"fix-defn-arglist-newline":           format.TransformFixDefnArglistNewline,
	"fix-defmethod-dispatch-val-newline": format.TransformFixDefmethodDispatchValNewline,
	"remove-extra-blank-lines":           format.TransformRemoveExtraBlankLines,
	"fix-if-newline-consistency":         format.TransformFixIfNewlineConsistency,
	"use-to-require":                     format.TransformUseToRequire,
	"remove-unused-requires":             format.TransformRemoveUnusedRequires,
}

// defaultOn are the transforms that are on by default, as documented.
var defaultOn = []string{
	"sort-import-require", "enforce-ns-style", "remove-trailing-newlines", "fix-defn-arglist-newline",
	"fix-defmethod-dispatch-val-newline", "remove-extra-blank-lines", "fix-if-newline-consistency",
}

var styleByName = map[string]format.IndentStyle{
	"normal": format.IndentNormal, "list": format.IndentList, "list-body": format.IndentListBody,
	"let": format.IndentLet, "letfn": format.IndentLetfn, "for": format.IndentFor, "deftype": format.IndentDeftype,
	"cond0": format.IndentCond0, "cond1": format.IndentCond1, "cond2": format.IndentCond2, "cond4": format.IndentCond4,
}

var styleNames = []string{"list-body", "normal", "list", "let", "letfn", "for", "deftype", "cond0", "cond1", "cond2", "cond4"}

// Opts are the options of one formatting run.
type Opts struct {
	On     []string          // transforms that are on (all others are off)
	Indent map[string]string `json:",omitempty"`
	TF     map[string]string `json:",omitempty"` // "normal" or "cond->"
	Tab    bool              `json:",omitempty"`
}

func (o Opts) has(name string) bool {
	for _, n := range o.On {
		if n == name {
			return true
		}
	}
	return false
}

func (o Opts) transforms() map[format.Transform]bool {
	m := map[format.Transform]bool{}
	for _, t := range transformByName {
		m[t] = false
	}
	for _, n := range o.On {
		m[transformByName[n]] = true
	}
	return m
}

func (o Opts) apply(p *format.Printer) {
	p.Transforms = o.transforms()
	if o.Indent != nil {
		p.IndentOverrides = map[string]format.IndentStyle{}
		for k, v := range o.Indent {
			p.IndentOverrides[k] = styleByName[v]
		}
	}
	if o.TF != nil {
		p.ThreadFirstStyleOverrides = map[string]format.ThreadFirstStyle{}
		for k, v := range o.TF {
			if v == "cond->" {
				p.ThreadFirstStyleOverrides[k] = format.ThreadFirstCondArrow
			} else {
				p.ThreadFirstStyleOverrides[k] = format.ThreadFirstNormal
			}
		}
	}
	if o.Tab {
		p.IndentChar = '\t'
	}
}

func (o Opts) String() string {
	var s []string
	s = append(s, "on="+strings.Join(o.On, ","))
	for _, k := range sortedKeys(o.Indent) {
		s = append(s, k+"="+o.Indent[k])
	}
	for _, k := range sortedKeys(o.TF) {
		s = append(s, "tf:"+k+"="+o.TF[k])
	}
	if o.Tab {
		s = append(s, "tab")
	}
	return strings.Join(s, " ")
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func defaultOpts() Opts { return Opts{On: defaultOn} }

// genOn draws a set of enabled transforms.
func genOn(t *rapid.T, exclude ...string) []string {
	not := map[string]bool{}
	for _, e := range exclude {
		not[e] = true
	}
	var on []string
	switch gen.Weighted(t, 4, 5, 2) {
	case 0:
		for _, n := range defaultOn {
			if !not[n] {
				on = append(on, n)
			}
		}
	case 1:
		for _, n := range transformNames {
			if gen.Pct(t, 50) && !not[n] {
				on = append(on, n)
			}
		}
	case 2:
		for _, n := range transformNames {
			if !not[n] {
				on = append(on, n)
			}
		}
	}
	return on
}

// genOverrides draws indentation and thread-first overrides.
func genOverrides(t *rapid.T, o *Opts) {
	if gen.Pct(t, 40) {
		o.Indent = map[string]string{}
		for i, n := 0, 1+gen.Int(t, 5); i < n; i++ {
			name := gen.Pick(t, "foo", "bar", "f", "a/b", "x", "str", "map", "some-function", "my.ns/f", "a.b/f", "defx", "when", "if", "cond", "let", "g", "clojure.string/join", "s/if", "->", "a")
			o.Indent[name] = gen.Pick(t, styleNames...)
		}
	}
	if gen.Pct(t, 20) {
		o.TF = map[string]string{}
		for i, n := 0, 1+gen.Int(t, 2); i < n; i++ {
			o.TF[gen.Pick(t, "foo", "bar", "f", "a/b", "->>", "cond->", "->", "x")] = gen.Pick(t, "normal", "cond->")
		}
	}
}

// ---- running the code under test

func parseText(src string, opts parse.ParseOpts) (*parse.Tree, error) {
	return parse.Reader(strings.NewReader(src), "test.clj", opts)
}

// formatText formats with the real code.
func formatText(src string, o Opts) (string, error) {
	t, err := parseText(src, parse.IncludeNonSemantic)
	if err != nil {
		return "", fmt.Errorf("parse: %v", err)
	}
	var buf bytes.Buffer
	p := format.NewPrinter(&buf)
	o.apply(p)
	if err := p.PrintTree(t); err != nil {
		return "", fmt.Errorf("print: %v", err)
	}
	return buf.String(), nil
}

// mustFormat formats text that is known to be accepted by the reader.
func mustFormat(src string, o Opts, out *core.Out) (string, bool) {
	s, err := formatText(src, o)
	if err != nil {
		out.Fail("text that the reader accepts could not be formatted: %v\n--- text\n%s", err, src)
		return "", false
	}
	return s, true
}

// ---- the reference reader

// read runs the reference reader; texts it does not accept are outside the domain.
func read(src string, out *core.Out) (*refclj.Result, bool) {
	r := refclj.Parse(src)
	if r.Verdict != refclj.Accept {
		out.Skip(r.Verdict.String())
		return nil, false
	}
	return &r, true
}

// mustRead reads formatter output.
func mustRead(output string, src string, out *core.Out) (*refclj.Result, bool) {
	r := refclj.Parse(output)
	if r.Verdict != refclj.Accept {
		out.Fail("the output cannot be read (%s: %s)\n--- source\n%s\n--- output\n%s", r.Verdict, r.Reason, src, output)
		return nil, false
	}
	return &r, true
}

// droppedComments reports whether a comment stands between a reader prefix and its form.
func droppedComments(roots []*refclj.Node) bool {
	found := false
	refclj.Walk(roots, func(n, _ *refclj.Node) {
		for _, d := range n.Dropped {
			if d.Kind == refclj.Comment {
				found = true
			}
		}
	})
	return found
}

func show(s string) string {
	if len(s) > 100000 {
		return show(s[:50000]) + fmt.Sprintf("\n(%d bytes left out)\n", len(s)-100000) + show(s[len(s)-50000:])
	}
	var b strings.Builder
	for i, line := range strings.Split(s, "\n") {
		if i > 0 {
			b.WriteByte('\n')
		}
		b.WriteString("| " + strings.Replace(line, "\r", "␍", -1))
	}
	return b.String()
}

// kinds counts labels for the interesting parts of a text.
func labelTree(r *refclj.Result, o *core.Out) {
	refclj.Walk(r.Roots, func(n, parent *refclj.Node) {
		switch n.Kind {
		case refclj.Comment:
			o.Label("has comment")
		case refclj.Discard:
			o.Label("has discard")
		case refclj.Meta, refclj.Tag:
			o.Label("has metadata or tag")
		case refclj.Quote, refclj.SynQuote, refclj.Unquote, refclj.Splice, refclj.Deref, refclj.Eval:
			o.Label("has prefix")
		case refclj.RCond, refclj.RCondSplice:
			o.Label("has reader conditional")
		case refclj.Str, refclj.Regex:
			if strings.Contains(n.Text, "\n") {
				o.Label("has multi-line string")
			}
		}
		if parent == nil && isCall(n, "ns") {
			o.Label("has ns form")
		}
	})
}

func isCall(n *refclj.Node, names ...string) bool {
	if n.Kind != refclj.List || len(n.Kids) == 0 || n.Kids[0].Kind != refclj.Sym {
		return false
	}
	for _, name := range names {
		if n.Kids[0].Text == name {
			return true
		}
	}
	return len(names) == 0
}

func isKwCall(n *refclj.Node, names ...string) bool {
	if n.Kind != refclj.List || len(n.Kids) == 0 || n.Kids[0].Kind != refclj.Kw {
		return false
	}
	for _, name := range names {
		if n.Kids[0].Text == name {
			return true
		}
	}
	return len(names) == 0
}
