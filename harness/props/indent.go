package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/refclj"
)

// This file is a reference model of the documented indentation. It computes,
// for each line of a formatted text that starts with a form or comment, the
// column relative to the enclosing form as it stands in the text.

// defaultStyles is the built-in assignment of styles to names.
var defaultStyles = map[string]string{}

func init() {
	for style, names := range map[string]string{
		"list-body": `as-> bound-fn catch def definline defmacro defmethod defmulti defn defn- defonce defstruct deftest deftest-
			doto extend fn if if-not locking ns send-off set-test testing update update-in when when-not while with-bindings
			with-in-str with-precision with-redefs-fn with-test`,
		"let": `binding dotimes if-let if-some let loop when-first when-let when-some with-local-vars with-open with-redefs`,
		"for": "doseq for", "letfn": "letfn",
		"deftype": "definterface defprotocol defrecord deftype extend-protocol extend-type proxy reify",
		"cond0":   "cond", "cond1": "assoc case cond-> cond->>", "cond2": "condp defproject",
	} {
		for _, n := range strings.Fields(names) {
			defaultStyles[n] = style
		}
	}
}

var defaultThread = map[string]string{"->": "normal", "some->": "normal", "cond->": "cond->"}

// An indentModel computes expected columns.
type indentModel struct {
	src    string
	indent map[string]string // overrides
	thread map[string]string // overrides
	// aliases and refers of the file, for overrides of qualified names
	aliases, refers map[string]string

	special  map[*refclj.Node]string // styles forced by the enclosing form
	skip     map[*refclj.Node]bool   // containers whose style is not specified
	threaded map[*refclj.Node]bool
	labels   map[string]bool
	failure  string
	lines    int // how many line starts were judged
	styled   int // of these, in lists with a style of their own
}

func newIndentModel(src string, o Opts) *indentModel {
	return &indentModel{
		src: src, indent: o.Indent, thread: o.TF,
		special: map[*refclj.Node]string{}, skip: map[*refclj.Node]bool{}, threaded: map[*refclj.Node]bool{}, labels: map[string]bool{},
	}
}

// splitSym splits a symbol into namespace and name; ok is false for symbols
// whose parts are a matter of opinion.
func splitSym(s string) (ns, name string, ok bool) {
	i := strings.IndexByte(s, '/')
	switch {
	case i < 0:
		return "", s, true
	case i == 0 || i == len(s)-1 || strings.Count(s, "/") > 1:
		return "", s, s == "/"
	}
	return s[:i], s[i+1:], true
}

// tableStyle finds the style configured or built in for a symbol, or "".
func (m *indentModel) tableStyle(sym string) (style string, ok bool) {
	ns, name, ok := splitSym(sym)
	if !ok {
		return "", false
	}
	var full []string
	if ns != "" {
		// An alias goes before a library of that name.
		if lib := m.aliases[ns]; lib != "" {
			full = append(full, lib+"/"+name)
		}
		full = append(full, sym)
	} else if lib := m.refers[name]; lib != "" {
		full = append(full, lib+"/"+name)
	}
	for _, f := range full {
		if s := m.indent[f]; s != "" {
			return s, true
		}
	}
	if s := m.indent[name]; s != "" {
		return s, true
	}
	return defaultStyles[name], true
}

// callStyle is the style of a list with the given head.
func (m *indentModel) callStyle(sym string) (style string, ok bool) {
	s, ok := m.tableStyle(sym)
	if s != "" || !ok {
		return s, ok
	}
	_, name, _ := splitSym(sym)
	for _, p := range []string{"def", "let", "with-", "when-"} {
		if strings.HasPrefix(name, p) {
			return "list-body", true
		}
	}
	return "list", true
}

// counts says whether a node counts as an argument.
func counts(n *refclj.Node) bool {
	return !n.Layout() && n.Kind != refclj.Meta && n.Kind != refclj.Tag
}

// oddArg says whether a node is discarded or, as in '^a b, only part of a form.
func oddArg(n *refclj.Node) bool {
	if n.Kind == refclj.Discard {
		return true
	}
	for n.IsPrefix() && n.Kind != refclj.Meta {
		n = n.Kids[0]
		if n.Kind == refclj.Meta || n.Kind == refclj.Tag || n.Kind == refclj.Discard {
			return true
		}
	}
	return false
}

func anyKind(nodes []*refclj.Node, kinds ...refclj.Kind) bool {
	for _, n := range nodes {
		for _, k := range kinds {
			if n.Kind == k {
				return true
			}
		}
	}
	return false
}

func isKw(n *refclj.Node, text string) bool { return n.Kind == refclj.Kw && n.Text == text }

// markSpecial records what a call prescribes for the forms inside it.
func (m *indentModel) markSpecial(n *refclj.Node) {
	if len(n.Kids) == 0 || n.Kids[0].Kind != refclj.Sym {
		return
	}
	style, ok := m.tableStyle(n.Kids[0].Text)
	if !ok {
		for _, k := range n.Kids {
			m.skip[k] = true
		}
		return
	}
	switch style {
	case "deftype":
		for _, k := range n.Kids[1:] {
			if k.Kind == refclj.List {
				m.special[k] = "list-body"
			}
		}
	case "let", "for", "letfn":
		for i, k := range n.Kids[1:] {
			if oddArg(k) {
				for _, k2 := range n.Kids[1+i:] {
					m.skip[k2] = true
				}
				return
			}
			if !counts(k) {
				continue
			}
			if k.Kind != refclj.Vec {
				return
			}
			if style == "letfn" {
				for _, f := range k.Kids {
					if f.Kind == refclj.List {
						m.special[f] = "list-body"
					}
				}
				return
			}
			m.special[k] = "pairs"
			if style != "for" {
				return
			}
			idx, let := 0, false
			for _, b := range k.Kids {
				if !counts(b) {
					continue
				}
				if oddArg(b) {
					let = false
					for _, b2 := range k.Kids {
						m.skip[b2] = true
					}
					return
				}
				if let && b.Kind == refclj.Vec {
					m.special[b] = "pairs"
				}
				let = idx%2 == 0 && isKw(b, ":let")
				idx++
			}
			return
		}
	}
}

// markThreads records which lists are in threaded positions.
func (m *indentModel) markThreads(n *refclj.Node) {
	if n.Kind == refclj.List || n.Kind == refclj.Fn {
		if len(n.Kids) > 0 && n.Kids[0].Kind == refclj.Sym {
			name := n.Kids[0].Text
			style := m.thread[name]
			if style == "" {
				style = defaultThread[name]
			}
			if style != "" {
				first := 2 // the first argument is what is threaded
				if m.threaded[n] {
					first = 1 // it is threaded through this form itself
				}
				forms, _ := refclj.FormsD(n.Kids)
				for idx, f := range refclj.Live(forms) {
					// (What metadata and tags apply to is a sibling of theirs.)
					k := f.Target().Node
					if idx >= first && k.Kind == refclj.List && (style == "normal" || (idx-first)%2 == 1) {
						m.threaded[k] = true
					}
				}
			}
		}
	}
	for _, k := range n.Kids {
		m.markThreads(k)
	}
}

func (m *indentModel) check(roots []*refclj.Node) {
	for _, n := range roots {
		m.markThreads(n)
	}
	for i, n := range roots {
		if !n.Layout() || n.Kind == refclj.Comment {
			if i == 0 || roots[i-1].Kind == refclj.Newline {
				m.expect(n, 0, "at top level")
			}
		}
		m.node(n)
	}
}

func (m *indentModel) expect(n *refclj.Node, col int, what string) {
	m.lines++
	got := refclj.RuneCol(m.src, n.Start)
	if got != col && m.failure == "" {
		line, _ := refclj.LineCol(m.src, n.Start)
		end := n.End
		if end > n.Start+40 {
			end = n.Start + 40
		}
		m.failure = fmt.Sprintf("line %d, which starts with %q, is indented to column %d instead of %d (%s)", line, m.src[n.Start:end], got, col, what)
	}
}

func (m *indentModel) node(n *refclj.Node) {
	style := ""
	switch n.Kind {
	case refclj.List, refclj.Fn:
		m.markSpecial(n)
		style = m.listStyle(n)
	case refclj.Vec:
		style = "normal"
		if m.special[n] != "" {
			style = m.special[n]
		}
	case refclj.Set:
		style = "normal"
	case refclj.Map, refclj.RCond, refclj.RCondSplice:
		style = "pairs"
	}
	if n.IsSeq() && !m.skip[n] && style != "" {
		m.seq(n, style)
	}
	for _, k := range n.Kids {
		m.node(k)
	}
}

// listStyle is the style of a list or function literal, "" if unspecified.
func (m *indentModel) listStyle(n *refclj.Node) string {
	style := "normal"
	if s := m.special[n]; s != "" {
		style = s
	} else if len(n.Kids) > 0 {
		switch n.Kids[0].Kind {
		case refclj.Kw:
			style = "list"
		case refclj.Sym:
			s, ok := m.callStyle(n.Kids[0].Text)
			if !ok {
				return ""
			}
			style = s
		}
	}
	if m.threaded[n] {
		switch style {
		case "cond1":
			style = "cond0"
			m.labels["threaded pair form"] = true
		case "cond2":
			style = "cond1"
			m.labels["threaded pair form"] = true
		default:
			m.labels["threaded list"] = true
		}
	}
	return style
}

func (m *indentModel) seq(n *refclj.Node, style string) {
	if len(n.Kids) == 0 {
		return
	}
	open := refclj.RuneCol(m.src, n.Start) + utf8.RuneCountInString(n.Open())
	base := open
	pairs := -1 // how many arguments come before the pairs
	switch style {
	case "normal":
	case "pairs":
		pairs = 0
	case "list", "cond0":
		if style == "cond0" {
			pairs = 1
		}
		if len(n.Kids) < 2 {
			return
		}
		second := n.Kids[1]
		switch {
		case second.Kind == refclj.Newline:
			base = open + 1
		case !counts(second) && utf8.RuneCountInString(n.Kids[0].Text) > 12:
			if second.Kind != refclj.Comment {
				return // not specified
			}
			base = open + 1
		default:
			base = refclj.RuneCol(m.src, second.Start)
		}
	case "list-body", "let", "for", "letfn", "deftype":
		base = open + 1
	case "cond1":
		base, pairs = open+1, 2
	case "cond2":
		base, pairs = open+1, 3
	case "cond4":
		base, pairs = open+1, 5
	default:
		panic("style " + style)
	}
	what := style
	if n.Kids[0].Kind == refclj.Sym && (n.Kind == refclj.List || n.Kind == refclj.Fn) {
		what += " " + n.Kids[0].Text
	} else {
		what += " " + n.Open() + "..."
	}
	seen := 0   // arguments before this one
	inPair := 0 // how many forms of the current pair have been seen
	for i, k := range n.Kids {
		if k.Kind == refclj.Newline {
			continue
		}
		if i > 0 && n.Kids[i-1].Kind == refclj.Newline {
			col := base
			if pairs >= 0 && seen >= pairs && inPair > 0 {
				col += 2
				m.labels["second of a pair on its own line"] = true
			}
			if special := m.special[n]; i == 1 && special == "list-body" {
				// (A line break before the first form of a method.)
				m.labels["line break first in a method"] = true
			}
			m.expect(k, col, what)
			m.labels["style "+style] = true
			if style != "normal" {
				m.styled++
			}
		}
		if !counts(k) {
			continue
		}
		if pairs >= 0 && oddArg(k) {
			return // how discarded forms count is not specified
		}
		seen++
		if pairs >= 0 && seen > pairs {
			inPair++
			if inPair == 2 && isKw(k, ":>>") {
				if style == "pairs" {
					return // documented for condp only
				}
				m.labels["has :>> triple"] = true
				continue
			}
			if inPair >= 2 {
				inPair = 0
			}
		}
	}
}
