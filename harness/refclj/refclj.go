// Package refclj is a reference reader for Clojure source text.
//
// It is written from the rules of Clojure's reader (and the conventions the
// goclj documentation states for its tree: metadata, tags and discards are
// siblings of the forms they apply to), and shares no code with goclj.
package refclj

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type Kind int

const (
	Sym Kind = iota
	Kw
	Num
	Str
	Regex
	Char
	Nil
	Bool
	Comment
	Newline
	List
	Vec
	Map // Text is the namespace (":ns", "::a", "::") or ""
	Set
	Fn
	RCond
	RCondSplice
	Quote
	SynQuote
	Unquote
	Splice
	Deref
	VarQuote // Text is the symbol
	Meta
	Discard
	Eval
	Tag // Text is the symbol
)

var kindNames = [...]string{"sym", "kw", "num", "str", "regex", "char", "nil", "bool", "comment", "newline",
	"list", "vec", "map", "set", "fn", "rcond", "rcondsplice", "quote", "synquote", "unquote", "splice",
	"deref", "varquote", "meta", "discard", "eval", "tag"}

func (k Kind) String() string { return kindNames[k] }

// Node is a node of the concrete syntax tree.
type Node struct {
	Kind       Kind
	Text       string // literal text (contents without quotes for Str and Regex)
	Rune       rune   // value of a Char
	Start, End int    // byte offsets of the whole node
	Kids       []*Node
	// Dropped holds comments and newlines between a reader prefix and the
	// form it applies to. They are not part of Kids.
	Dropped []*Node
}

func (n *Node) IsSeq() bool {
	switch n.Kind {
	case List, Vec, Map, Set, Fn, RCond, RCondSplice:
		return true
	}
	return false
}

// IsPrefix reports whether the node is a reader prefix with one child.
func (n *Node) IsPrefix() bool {
	switch n.Kind {
	case Quote, SynQuote, Unquote, Splice, Deref, Meta, Discard, Eval:
		return true
	}
	return false
}

// Layout reports whether the node is a comment or line break.
func (n *Node) Layout() bool { return n.Kind == Comment || n.Kind == Newline }

func (n *Node) Open() string {
	switch n.Kind {
	case List:
		return "("
	case Vec:
		return "["
	case Map:
		if n.Text != "" {
			return "#" + n.Text + "{"
		}
		return "{"
	case Set:
		return "#{"
	case Fn:
		return "#("
	case RCond:
		return "#?("
	case RCondSplice:
		return "#?@("
	}
	return ""
}

func (n *Node) Close() string {
	switch n.Kind {
	case List, Fn, RCond, RCondSplice:
		return ")"
	case Vec:
		return "]"
	case Map, Set:
		return "}"
	}
	return ""
}

// Prefix is the canonical spelling of a prefix node's marker.
func (n *Node) Prefix() string {
	switch n.Kind {
	case Quote:
		return "'"
	case SynQuote:
		return "`"
	case Unquote:
		return "~"
	case Splice:
		return "~@"
	case Deref:
		return "@"
	case Meta:
		return "^"
	case Discard:
		return "#_"
	case Eval:
		return "#="
	}
	return ""
}

// AtomText is the canonical spelling of a leaf node.
func (n *Node) AtomText() string {
	switch n.Kind {
	case Str:
		return `"` + n.Text + `"`
	case Regex:
		return `#"` + n.Text + `"`
	case VarQuote:
		return "#'" + n.Text
	case Tag:
		return "#" + n.Text
	}
	return n.Text
}

// Verdict of the reference reader on a text.
type Verdict int

const (
	Accept Verdict = iota
	Reject
	Unspecified // the reader's rules and goclj's documentation leave it open
)

func (v Verdict) String() string { return [...]string{"accept", "reject", "unspecified"}[v] }

type Result struct {
	Verdict Verdict
	Reason  string
	Roots   []*Node
	// ErrEnd is, for Reject, the offset by which the problem is apparent.
	ErrEnd int
	// EOFError says that the text was rejected because it ends too early.
	EOFError bool
}

type stop struct {
	v      Verdict
	reason string
	end    int
	eof    bool
}

type reader struct {
	src  string
	pos  int
	inFn bool
}

// Parse reads a whole text.
func Parse(src string) (res Result) {
	r := &reader{src: src}
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(stop)
			if !ok {
				panic(e)
			}
			res = Result{Verdict: s.v, Reason: s.reason, ErrEnd: s.end, EOFError: s.eof}
		}
	}()
	var roots []*Node
	for {
		n := r.next()
		if n == nil {
			return Result{Verdict: Accept, Roots: roots}
		}
		roots = append(roots, n)
	}
}

// IsWhitespace is Clojure's notion of whitespace: what Java calls whitespace, and the comma.
func IsWhitespace(c rune) bool {
	switch c {
	case ',', '\t', '\n', '\v', '\f', '\r', 0x1c, 0x1d, 0x1e, 0x1f:
		return true
	case 0x85, 0xa0, 0x2007, 0x202f:
		return false
	}
	return unicode.In(c, unicode.Zs, unicode.Zl, unicode.Zp)
}

// Terminates reports whether c ends a symbol, keyword or number token.
func Terminates(c rune) bool {
	if IsWhitespace(c) {
		return true
	}
	return strings.ContainsRune(`";@^~()[]{}\`, c)
}

func (r *reader) peek() (rune, int) {
	if r.pos >= len(r.src) {
		return -1, 0
	}
	return utf8.DecodeRuneInString(r.src[r.pos:])
}

func (r *reader) peekAt(i int) rune {
	if i >= len(r.src) {
		return -1
	}
	c, _ := utf8.DecodeRuneInString(r.src[i:])
	return c
}

func (r *reader) reject(format string, args ...interface{}) {
	panic(stop{Reject, fmt.Sprintf(format, args...), r.pos, false})
}

func (r *reader) rejectEOF() {
	panic(stop{Reject, "unexpected end of text", len(r.src), true})
}

func (r *reader) unspecified(reason string) {
	panic(stop{Unspecified, reason, r.pos, false})
}

func (r *reader) skipBlanks() {
	for {
		c, w := r.peek()
		if w == 0 || c == '\n' || !IsWhitespace(c) {
			return
		}
		r.pos += w
	}
}

func (r *reader) token() string {
	start := r.pos
	for {
		c, w := r.peek()
		if w == 0 || Terminates(c) {
			break
		}
		r.pos += w
	}
	s := r.src[start:r.pos]
	if i := strings.IndexByte(s, '`'); i > 0 {
		r.unspecified("backtick inside a token")
	}
	return s
}

// next returns the next node, or nil at the end of the text.
func (r *reader) next() *Node {
	r.skipBlanks()
	c, w := r.peek()
	if w == 0 {
		return nil
	}
	start := r.pos
	leaf := func(k Kind, text string) *Node {
		return &Node{Kind: k, Text: text, Start: start, End: r.pos}
	}
	switch c {
	case '\n':
		r.pos++
		return leaf(Newline, "\n")
	case ';':
		r.comment()
		return leaf(Comment, r.src[start:r.pos])
	case '"':
		s := r.str()
		return leaf(Str, s)
	case '\\':
		return r.char()
	case '(':
		r.pos++
		return r.seq(List, start, ')')
	case '[':
		r.pos++
		return r.seq(Vec, start, ']')
	case '{':
		r.pos++
		return r.seq(Map, start, '}')
	case ')', ']', '}':
		r.pos++
		r.reject("unmatched delimiter %c", c)
	case '\'':
		r.pos++
		return r.prefix(Quote, start)
	case '`':
		r.pos++
		return r.prefix(SynQuote, start)
	case '@':
		r.pos++
		return r.prefix(Deref, start)
	case '^':
		r.pos++
		return r.prefix(Meta, start)
	case '~':
		r.pos++
		if c, _ := r.peek(); c == '@' {
			r.pos++
			return r.prefix(Splice, start)
		}
		return r.prefix(Unquote, start)
	case '#':
		return r.dispatch(start)
	case ':':
		t := r.token()
		return leaf(Kw, t)
	}
	if isDigit(c) || (c == '+' || c == '-') && isDigit(r.peekAt(r.pos+1)) {
		t := r.token()
		return leaf(Num, t)
	}
	t := r.token()
	switch t {
	case "nil":
		return leaf(Nil, t)
	case "true", "false":
		return leaf(Bool, t)
	}
	return leaf(Sym, t)
}

func isDigit(c rune) bool { return c >= '0' && c <= '9' }

func (r *reader) comment() {
	for {
		c, w := r.peek()
		if w == 0 || c == '\n' || c == '\r' {
			return
		}
		r.pos += w
	}
}

// str reads a string literal; r.pos is at the opening quote.
func (r *reader) str() string {
	r.pos++
	start := r.pos
	for i := r.pos; i < len(r.src); i++ {
		switch r.src[i] {
		case '\\':
			i++
		case '"':
			r.pos = i + 1
			return r.src[start:i]
		}
	}
	r.rejectEOF()
	return ""
}

var namedChars = map[string]rune{
	"newline": '\n', "space": ' ', "tab": '\t', "formfeed": '\f', "backspace": '\b', "return": '\r',
}

func (r *reader) char() *Node {
	start := r.pos
	r.pos++
	_, w := r.peek()
	if w == 0 {
		r.rejectEOF()
	}
	r.pos += w
	for {
		c, w := r.peek()
		if w == 0 || Terminates(c) {
			break
		}
		r.pos += w
	}
	text := r.src[start:r.pos]
	body := text[1:]
	n := &Node{Kind: Char, Text: text, Start: start, End: r.pos}
	if utf8.RuneCountInString(body) == 1 {
		n.Rune, _ = utf8.DecodeRuneInString(body)
		if n.Rune > 0xffff {
			r.unspecified("character literal outside the basic plane")
		}
		return n
	}
	if strings.Contains(body, "`") {
		r.unspecified("backtick inside a character literal")
	}
	if v, ok := namedChars[body]; ok {
		n.Rune = v
		return n
	}
	switch {
	case body[0] == 'o':
		if d := body[1:]; len(d) <= 3 {
			v, err := strconv.ParseUint(d, 8, 32)
			if err == nil && v <= 0377 {
				n.Rune = rune(v)
				return n
			}
		}
	case body[0] == 'u':
		if d := body[1:]; len(d) == 4 {
			v, err := strconv.ParseUint(d, 16, 32)
			if err == nil && (v < 0xd800 || v > 0xdfff) {
				n.Rune = rune(v)
				return n
			}
		}
	}
	r.reject("invalid character literal %q", text)
	return nil
}

func (r *reader) seq(k Kind, start int, closer rune) *Node {
	n := &Node{Kind: k, Start: start}
	for {
		r.skipBlanks()
		c, w := r.peek()
		if w == 0 {
			r.rejectEOF()
		}
		if c == closer {
			r.pos += w
			n.End = r.pos
			return n
		}
		n.Kids = append(n.Kids, r.next())
	}
}

func (r *reader) prefix(k Kind, start int) *Node {
	n := &Node{Kind: k, Start: start}
	for {
		kid := r.next()
		if kid == nil {
			r.rejectEOF()
		}
		if kid.Layout() {
			n.Dropped = append(n.Dropped, kid)
			continue
		}
		n.Kids = []*Node{kid}
		n.End = kid.End
		return n
	}
}

func (r *reader) dispatch(start int) *Node {
	r.pos++
	c, w := r.peek()
	if w == 0 {
		r.rejectEOF()
	}
	switch c {
	case '{':
		r.pos++
		return r.seq(Set, start, '}')
	case '(':
		if r.inFn {
			r.pos++
			r.reject("nested function literal")
		}
		r.inFn = true
		r.pos++
		n := r.seq(Fn, start, ')')
		r.inFn = false
		return n
	case '"':
		s := r.str()
		return &Node{Kind: Regex, Text: s, Start: start, End: r.pos}
	case '\'':
		r.pos++
		r.skipBlanks()
		c, w := r.peek()
		if w == 0 {
			r.rejectEOF()
		}
		if !r.symbolStart(c) {
			r.unspecified("#' before something other than a symbol")
		}
		t := r.token()
		return &Node{Kind: VarQuote, Text: t, Start: start, End: r.pos}
	case '_':
		r.pos++
		return r.prefix(Discard, start)
	case '^':
		r.pos++
		return r.prefix(Meta, start)
	case '=':
		r.pos++
		return r.prefix(Eval, start)
	case '!':
		r.comment()
		return &Node{Kind: Comment, Text: r.src[start:r.pos], Start: start, End: r.pos}
	case '<':
		r.pos++
		r.reject("unreadable form")
	case '?':
		r.pos++
		k := RCond
		if c, _ := r.peek(); c == '@' {
			r.pos++
			k = RCondSplice
		}
		r.skipBlanks()
		c, w := r.peek()
		if w == 0 {
			r.rejectEOF()
		}
		if c == '\n' || c == ';' || c == '#' {
			r.unspecified("layout between #? and its list")
		}
		if c != '(' {
			r.pos += w
			r.skipToken()
			r.reject("reader conditional without a list")
		}
		r.pos++
		return r.seq(k, start, ')')
	case ':':
		ns := r.token()
		if ns == ":" {
			r.unspecified("namespaced map without a namespace")
		}
		r.skipBlanks()
		c, w := r.peek()
		if w == 0 {
			r.rejectEOF()
		}
		if c == '\n' || c == ';' || c == '#' {
			r.unspecified("layout between a map namespace and its map")
		}
		if c != '{' {
			r.pos += w
			r.skipToken()
			r.reject("namespaced map without a map")
		}
		r.pos++
		n := r.seq(Map, start, '}')
		n.Text = ns
		return n
	}
	// A tag. (Whitespace may follow the #.)
	r.skipBlanks()
	c, w = r.peek()
	if w == 0 {
		r.rejectEOF()
	}
	if !r.symbolStart(c) {
		switch c {
		case ')', ']', '}':
			r.pos += w
			r.reject("tag without a symbol")
		}
		r.unspecified("# before something other than a symbol")
	}
	t := r.token()
	return &Node{Kind: Tag, Text: t, Start: start, End: r.pos}
}

// skipToken moves past the rest of a token, for the end of an error.
func (r *reader) skipToken() {
	for {
		c, w := r.peek()
		if w == 0 || Terminates(c) {
			return
		}
		r.pos += w
	}
}

// symbolStart reports whether a symbol token starts at c (at r.pos).
func (r *reader) symbolStart(c rune) bool {
	if Terminates(c) || isDigit(c) {
		return false
	}
	switch c {
	case '\'', '`', '#', ':':
		return false
	case '+', '-':
		return !isDigit(r.peekAt(r.pos + 1))
	}
	return true
}
