From 84563b3b1ed004b3d61e4767f1e24cc4a87b073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:05 +0000
Subject: [PATCH 01/49] fix: apply #_, ^ and #= to the next form, not to a line
 break or comment

A line break after one of these markers was taken for the form it applies
to, and printing such a tree panicked.
---
 parse/parse.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 58e8e57..b427bc8 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -431,30 +431,15 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 }
 
 func (t *Tree) parseMetadata(start token) *MetadataNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &MetadataNode{Pos: start.pos, Node: t.parseNext()}
+	return &MetadataNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseRegex(start token) *RegexNode {
-- 
2.43.0


From a7f88f341f80c3966e860559dbdcca0806b98cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:06 +0000
Subject: [PATCH 02/49] fix: keep ~ @x distinct from ~@x

An unquoted deref was parsed, and printed, as unquote-splicing.
---
 format/format.go | 4 ++++
 parse/parse.go   | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 64b2c35..d6faecc 100644
--- a/format/format.go
+++ b/format/format.go
@@ -196,6 +196,10 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		return w + p.writeString("#"+node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
+		if _, ok := node.Node.(*parse.DerefNode); ok {
+			// Without a space this would be unquote-splicing.
+			w += p.writeByte(' ')
+		}
 		return p.printNode(node.Node, w)
 	case *parse.UnquoteSpliceNode:
 		w += p.writeString("~@")
diff --git a/parse/parse.go b/parse/parse.go
index b427bc8..9c685e6 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -189,7 +189,10 @@ func (t *Tree) parseNext() Node {
 			next := t.next()
 			switch next.typ {
 			case tokAtSign:
-				return &UnquoteSpliceNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+				// Only ~@ is unquote-splicing; ~ @x is (unquote (deref x)).
+				if next.pos.Offset == tok.pos.Offset+1 {
+					return &UnquoteSpliceNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+				}
 			case tokEOF:
 				t.unexpectedEOF(next)
 			}
-- 
2.43.0


From 5633ce732a7fe48d53c04ea649e7a87325cc04ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 03/49] fix: print tags such as # _x without turning them into
 dispatch macros

---
 format/format.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index d6faecc..5bdcb95 100644
--- a/format/format.go
+++ b/format/format.go
@@ -193,7 +193,12 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeByte('`')
 		return p.printNode(node.Node, w)
 	case *parse.TagNode:
-		return w + p.writeString("#"+node.Val)
+		prefix := "#"
+		if strings.IndexByte("_?=!<", node.Val[0]) >= 0 {
+			// "# _x" is the tag _x but "#_x" is x discarded, and so on.
+			prefix = "# "
+		}
+		return w + p.writeString(prefix+node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
 		if _, ok := node.Node.(*parse.DerefNode); ok {
-- 
2.43.0


From 054ec3907fc4c497c22bd69b86cc04251e4e80e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 04/49] fix: treat as whitespace what the Clojure reader treats
 as whitespace

Non-breaking spaces and U+0085 are symbol characters to Clojure, so dropping
them changed symbols, and U+001C to U+001F are whitespace.
---
 parse/lex.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parse/lex.go b/parse/lex.go
index 85ad163..429bf5f 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -482,8 +482,17 @@ func lexSymbol(l *lexer) stateFn {
 	return lexOuter
 }
 
+// isWhitespace reports whether the Clojure reader treats r as whitespace.
+// That is anything Java's Character.isWhitespace accepts (which does not include
+// non-breaking spaces) as well as the comma.
 func isWhitespace(r rune) bool {
-	return unicode.IsSpace(r) || r == ','
+	switch r {
+	case ',', '\t', '\n', '\v', '\f', '\r', '\x1c', '\x1d', '\x1e', '\x1f':
+		return true
+	case '\u00a0', '\u2007', '\u202f':
+		return false
+	}
+	return unicode.Is(unicode.Z, r)
 }
 
 func isWhitespaceNotNL(r rune) bool {
-- 
2.43.0


From a4de59d04a8f50a960e390c14af8d94a67044d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 05/49] fix: read character literals as Clojure does

\backspace is U+0008; octal literals have one to three digits and go up to
377; signs and surrogates are not allowed.
---
 parse/parse.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 9c685e6..3433cd7 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 )
 
 type Tree struct {
@@ -249,20 +250,20 @@ func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 		case "formfeed":
 			r = '\f'
 		case "backspace":
-			r = 0x7f
+			r = '\b'
 		case "return":
 			r = '\r'
 		default:
 			switch runes[0] {
 			case 'o':
-				n, err := strconv.ParseInt(val[1:], 8, 32)
-				if len(val) != 4 || err != nil || n < 0 {
+				n, err := strconv.ParseUint(val[1:], 8, 32)
+				if len(val) > 4 || err != nil || n > 0377 {
 					t.errorf(tok.pos, "invalid octal literal")
 				}
 				r = rune(n)
 			case 'u':
-				n, err := strconv.ParseInt(val[1:], 16, 32)
-				if len(val) != 5 || err != nil || n < 0 {
+				n, err := strconv.ParseUint(val[1:], 16, 32)
+				if len(val) != 5 || err != nil || utf16.IsSurrogate(rune(n)) {
 					t.errorf(tok.pos, "invalid unicode literal")
 				}
 				r = rune(n)
-- 
2.43.0


From 1c992645a689c85d0eb0c8b7d03dce21b11f1288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 06/49] fix: report the position of the # for tags and reader
 conditionals

---
 parse/lex.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 429bf5f..91ad97c 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -439,8 +439,8 @@ func lexDispatch(l *lexer) stateFn {
 			l.back()
 		}
 		val = string(l.val)
-		l.skip()
 		l.synth(tokDispatch, val)
+		l.skip()
 		return lexOuter
 	case ':':
 		l.synth(tokDispatch, val)
@@ -460,7 +460,6 @@ func lexDispatch(l *lexer) stateFn {
 		l.errorf("unreadable dispatch macro")
 	default:
 		l.back()
-		l.skip()
 		l.emit(tokOctothorpe)
 	}
 	return lexOuter
-- 
2.43.0


From 03988c83e44971e97423082eca6b777444cb6070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 07/49] fix: scan tokens on demand instead of in a goroutine

The goroutine of the lexer stayed blocked forever when the parser stopped at
an error, and at the end of an input such as # the parser received an empty
token without a position from the closed channel.
---
 parse/lex.go | 49 +++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 91ad97c..bd0d4e9 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -126,20 +126,19 @@ type lexer struct {
 	pos     *Pos // the current position in the input
 	start   *Pos // the start position of the token being scanned
 	lastPos *Pos // the position before the most recent next() call
-	tokens  chan token
-	val     []rune // the literal contents of the token
+	tokens  []token // tokens that were scanned but not consumed yet
+	state   stateFn // the next state, or nil once scanning has ended
+	val     []rune  // the literal contents of the token
 }
 
 func lex(name string, input *bufio.Reader) *lexer {
-	l := &lexer{
-		name:   name,
-		input:  input,
-		pos:    &Pos{Name: name, Line: 1, Col: 1},
-		start:  &Pos{Name: name, Line: 1, Col: 1},
-		tokens: make(chan token),
+	return &lexer{
+		name:  name,
+		input: input,
+		pos:   &Pos{Name: name, Line: 1, Col: 1},
+		start: &Pos{Name: name, Line: 1, Col: 1},
+		state: lexOuter,
 	}
-	go l.run()
-	return l
 }
 
 type inputReadErr struct {
@@ -211,7 +210,7 @@ func (l *lexer) scanUntil(set string) {
 }
 
 func (l *lexer) emit(typ tokType) {
-	l.tokens <- token{typ, l.start, string(l.val)}
+	l.tokens = append(l.tokens, token{typ, l.start, string(l.val)})
 	l.skip()
 }
 
@@ -221,21 +220,28 @@ func (l *lexer) skip() {
 }
 
 func (l *lexer) synth(typ tokType, val string) {
-	l.tokens <- token{typ, l.start, val}
+	l.tokens = append(l.tokens, token{typ, l.start, val})
 }
 
 func (l *lexer) nextToken() token {
-	return <-l.tokens
+	for len(l.tokens) == 0 {
+		if l.state == nil {
+			return token{tokEOF, l.start, ""}
+		}
+		l.step()
+	}
+	tok := l.tokens[0]
+	l.tokens = l.tokens[1:]
+	return tok
 }
 
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf(format, args...)}
+	l.tokens = append(l.tokens, token{tokError, l.start, fmt.Sprintf(format, args...)})
 	return nil
 }
 
 func (l *lexer) scanError(err error) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf("error while scanning: %s", err)}
-	return nil
+	return l.errorf("error while scanning: %s", err)
 }
 
 func (l *lexer) eof() stateFn {
@@ -246,20 +252,19 @@ func (l *lexer) eof() stateFn {
 // stateFn represents a single state in the scanner.
 type stateFn func(*lexer) stateFn
 
-func (l *lexer) run() {
+// step runs the current state.
+func (l *lexer) step() {
 	defer func() {
 		if e := recover(); e != nil {
 			if e2, ok := e.(inputReadErr); ok {
-				l.scanError(e2.err)
+				l.state = l.scanError(e2.err)
 				return
 			}
 			panic(e)
 		}
 	}()
 
-	for state := lexOuter; state != nil; state = state(l) {
-	}
-	close(l.tokens)
+	l.state = l.state(l)
 }
 
 func lexOuter(l *lexer) stateFn {
@@ -457,7 +462,7 @@ func lexDispatch(l *lexer) stateFn {
 		return lexComment
 	case '<':
 		// #< is the 'unreadable' reader dispatch macro.
-		l.errorf("unreadable dispatch macro")
+		return l.errorf("unreadable dispatch macro")
 	default:
 		l.back()
 		l.emit(tokOctothorpe)
-- 
2.43.0


From e4f477a4f4f754bf71f5e467086e1033587d0948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 08/49] fix: ignore exactly the discarded and comment forms

With IgnoreReaderDiscard, #_ applied to another discard (#_#_ a b) or to a
form with metadata or a tag left part of what it discards in the tree, and a
quote before a discarded form applied to the discarded form. With
IgnoreCommentForm and IncludeNonSemantic, a line break after the opening
parenthesis hid a comment form.
---
 parse/parse.go | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 3433cd7..b707d36 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -224,12 +224,41 @@ func (t *Tree) parseNextSemantic() Node {
 		}
 		t.backup()
 		n := t.parseNext()
+		if _, ok := n.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
+			continue
+		}
 		if isSemantic(n) {
 			return n
 		}
 	}
 }
 
+// parseDiscarded parses the form that a #_ applies to. Metadata and tags are
+// nodes of their own, so if discarded forms are to be ignored then the nodes
+// that they apply to have to be consumed as well.
+func (t *Tree) parseDiscarded() Node {
+	n := t.parseNextSemantic()
+	if t.ignoreReaderDiscard {
+		for missing := missingNodes(n); missing > 0; missing-- {
+			missing += missingNodes(t.parseNextSemantic())
+		}
+	}
+	return n
+}
+
+// missingNodes counts the nodes following n that are part of the same form.
+func missingNodes(n Node) int {
+	switch n := n.(type) {
+	case *MetadataNode:
+		return 1 + missingNodes(n.Node)
+	case *TagNode:
+		return 1
+	case *DerefNode, *QuoteNode, *ReaderEvalNode, *SyntaxQuoteNode, *UnquoteNode, *UnquoteSpliceNode:
+		return missingNodes(n.Children()[0])
+	}
+	return 0
+}
+
 func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 	var r rune
 	val := tok.val[1:]
@@ -439,7 +468,7 @@ func (t *Tree) parseMetadata(start token) *MetadataNode {
 }
 
 func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
-	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNextSemantic()}
+	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseDiscarded()}
 }
 
 func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
@@ -488,14 +517,15 @@ func (t *Tree) parseVarQuote(start token) *VarQuoteNode {
 }
 
 func (t *Tree) includeNode(node Node) bool {
-	if list, ok := node.(*ListNode); ok {
-		children := list.Children()
-		if len(children) > 0 {
-			if sym, ok := children[0].(*SymbolNode); ok {
-				if sym.Val == "comment" && t.ignoreCommentForm {
-					return false
-				}
+	if list, ok := node.(*ListNode); ok && t.ignoreCommentForm {
+		for _, n := range list.Nodes {
+			if !isSemantic(n) {
+				continue
 			}
+			if sym, ok := n.(*SymbolNode); ok && sym.Val == "comment" {
+				return false
+			}
+			break
 		}
 	}
 	if _, ok := node.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
-- 
2.43.0


From d11dd1425fec21cfbd400ad1e8baf056b6ffa97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 09/49] fix: report the position of the # for namespaced maps

---
 parse/parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse/parse.go b/parse/parse.go
index b707d36..8542904 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -459,6 +459,7 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 		t.errorf(tok.pos, "namespaced map must have a map")
 	}
 	m := t.parseMap(tok)
+	m.Pos = start.pos
 	m.Namespace = ns
 	return m
 }
-- 
2.43.0


From 916aa78fb5bcfbe6e8ec2542ed488014b59b5850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 10/49] fix: end the line after a comment that a carriage
 return ended

The lexer ends a comment at a carriage return as well as at a newline. When
the next thing in the source was not a newline, it was printed on the
comment's line and became part of the comment.
---
 format/format.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/format/format.go b/format/format.go
index 5bdcb95..ec8e9fe 100644
--- a/format/format.go
+++ b/format/format.go
@@ -92,6 +92,7 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 			}
 		}
 	}()
+	t.Roots = terminateComments(t.Roots, true)
 	applyTransforms(t, p.Transforms)
 	for _, node := range t.Roots {
 		p.markDocstrings(node)
@@ -102,6 +103,31 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 	return p.bw.Flush()
 }
 
+// terminateComments ensures that every comment inside nodes is followed by a
+// newline. (In the source, a comment may also be ended by a lone carriage
+// return, which is not part of the tree.) The last comment of a file doesn't
+// need a newline.
+func terminateComments(nodes []parse.Node, top bool) []parse.Node {
+	terminated := make([]parse.Node, 0, len(nodes))
+	for i, n := range nodes {
+		if children := n.Children(); len(children) > 0 {
+			n.SetChildren(terminateComments(children, false))
+		}
+		terminated = append(terminated, n)
+		if !goclj.Comment(n) {
+			continue
+		}
+		if i == len(nodes)-1 {
+			if !top {
+				terminated = append(terminated, &parse.NewlineNode{})
+			}
+		} else if !goclj.Newline(nodes[i+1]) {
+			terminated = append(terminated, &parse.NewlineNode{})
+		}
+	}
+	return terminated
+}
+
 // printNode prints a representation of node using w, the given indent level
 // as a baseline. It returns the new indent.
 func (p *Printer) printNode(node parse.Node, w int) int {
-- 
2.43.0


From ddc72eaf7e0cd15720448f16be3e238edafb1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 11/49] fix: don't take a def's value for a docstring if only a
 comment follows

A string is a docstring only if something else follows it, but a comment or a
discarded form counted as something else, so that the contents of the string
were changed.
---
 format/docstring.go | 37 +++++++++++++++++++++++++------------
 format/forms.go     | 22 ++++++++++++++++++++++
 2 files changed, 47 insertions(+), 12 deletions(-)
 create mode 100644 format/forms.go

diff --git a/format/docstring.go b/format/docstring.go
index 4a0db83..10cbc17 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -18,28 +18,41 @@ func (p *Printer) markDocstrings(n parse.Node) {
 	if !goclj.Symbol(nodes[1]) {
 		return
 	}
-	var docstring *parse.StringNode
-	for _, node := range nodes[2:] {
+	for i, node := range nodes[2:] {
 		if goclj.Newline(node) {
 			continue
 		}
-		// Once we've found what looks like a docstring, we need to keep
-		// going to ensure that there is something else inside this
-		// form. Otherwise what we found is not a docstring:
+		// Once we've found what looks like a docstring, we need to
+		// ensure that there is something else inside this form.
+		// Otherwise what we found is not a docstring:
 		//
 		//   (def s "this is not a docstring")
 		//   (def s "this is a docstring" "x")
 		//
-		if docstring != nil {
-			p.docstrings[docstring] = struct{}{}
-			return
+		if s, ok := node.(*parse.StringNode); ok && hasForm(nodes[2+i+1:]) {
+			p.docstrings[s] = struct{}{}
 		}
-		if s, ok := node.(*parse.StringNode); ok {
-			docstring = s
-		} else {
-			return
+		return
+	}
+}
+
+// hasForm reports whether nodes contains a form; newlines, comments, and
+// discarded forms don't count.
+func hasForm(nodes []parse.Node) bool {
+	discard := 0 // how many forms are still to be discarded
+	for _, node := range nodes {
+		switch n := node.(type) {
+		case *parse.NewlineNode, *parse.CommentNode:
+		case *parse.ReaderDiscardNode:
+			discard += missingForms(n.Node)
+		default:
+			if discard == 0 {
+				return true
+			}
+			discard += missingForms(n) - 1
 		}
 	}
+	return false
 }
 
 func (p *Printer) alignDocstring(docstring string, w int) string {
diff --git a/format/forms.go b/format/forms.go
new file mode 100644
index 0000000..5432db7
--- /dev/null
+++ b/format/forms.go
@@ -0,0 +1,22 @@
+package format
+
+import "github.com/cespare/goclj/parse"
+
+// missingForms counts the forms after n that belong together with n: metadata
+// and tags are followed by the form they apply to, and #_ #_ discards the form
+// after the first one as well.
+func missingForms(n parse.Node) int {
+	switch n := n.(type) {
+	case *parse.MetadataNode:
+		return 1 + missingForms(n.Node)
+	case *parse.TagNode:
+		return 1
+	case *parse.ReaderDiscardNode:
+		// If n is discarded itself, it isn't the form that is.
+		return 1 + missingForms(n.Node)
+	case *parse.DerefNode, *parse.QuoteNode, *parse.ReaderEvalNode,
+		*parse.SyntaxQuoteNode, *parse.UnquoteNode, *parse.UnquoteSpliceNode:
+		return missingForms(n.Children()[0])
+	}
+	return 0
+}
-- 
2.43.0


From c665203a6f03395288e938589b59845daecff1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 12/49] fix: don't split imports such as . and Foo. into empty
 symbols

---
 format/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index 2e29b3b..d7bd07e 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -335,7 +335,7 @@ func enforceImportStyle(nodes []parse.Node) {
 			nodes[i] = &parse.ListNode{Nodes: n.Nodes}
 		case *parse.SymbolNode:
 			j := strings.LastIndexByte(n.Val, '.')
-			if j < 0 {
+			if j <= 0 || j == len(n.Val)-1 {
 				break
 			}
 			nodes[i] = &parse.ListNode{
-- 
2.43.0


From 4708b75caeee7af9d5f9a5e1c97330bae24686b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 13/49] fix: recognize old-style ns clauses before looking at
 their requires

Clauses such as (require ...) were rewritten to (:require ...) only after
use-to-require and remove-unused-requires, so that those took effect only when
the result was formatted again, and classes named in (import ...) did not count
as used.
---
 format/transform.go | 54 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index d7bd07e..1511d33 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -125,6 +125,14 @@ var DefaultTransforms = map[Transform]bool{
 }
 
 func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
+	if transforms[TransformEnforceNSStyle] {
+		// The transforms for requires need to recognize the clauses.
+		for _, root := range t.Roots {
+			if goclj.FnFormSymbol(root, "ns") {
+				enforceNSClauses(root)
+			}
+		}
+	}
 	var syms *symbolCache
 	if transforms[TransformRemoveUnusedRequires] {
 		syms = findSymbols(t.Roots)
@@ -246,7 +254,20 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 	ns.SetChildren(nodes)
 }
 
-func enforceNSStyle(ns parse.Node) {
+// nsClauses are the clauses of an ns form that enforceNSStyle recognizes;
+// the value tells whether a clause takes multiple args.
+var nsClauses = map[string]bool{
+	"refer-clojure":  false,
+	"require":        true,
+	"require-macros": true,
+	"use":            true,
+	"import":         true,
+	"load":           true,
+	"gen-class":      true,
+}
+
+// enforceNSClauses makes each clause of ns a list headed by a keyword.
+func enforceNSClauses(ns parse.Node) {
 	children := ns.Children()
 	for i := 1; i < len(children); i++ {
 		n := children[i]
@@ -273,18 +294,30 @@ func enforceNSStyle(ns parse.Node) {
 		default:
 			continue
 		}
-		multipleArgs := false
-		switch clause {
-		case "refer-clojure":
-		case "require", "require-macros", "use", "import", "load", "gen-class":
-			multipleArgs = true
-		default:
+		if _, ok := nsClauses[clause]; !ok {
 			continue
 		}
 		if isSym {
 			clauseChildren[0] = &parse.KeywordNode{Val: ":" + clause}
+			n.SetChildren(clauseChildren)
+		}
+		if isVec {
+			children[i] = &parse.ListNode{Nodes: clauseChildren}
+		}
+	}
+	ns.SetChildren(children)
+}
+
+// enforceNSStyle formats the args of the clauses of ns.
+// It expects that enforceNSClauses has been applied.
+func enforceNSStyle(ns parse.Node) {
+	for _, n := range ns.Children()[1:] {
+		if !goclj.FnFormKeyword(n) {
+			continue
 		}
-		if multipleArgs && len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
+		clauseChildren := n.Children()
+		clause := clauseChildren[0].(*parse.KeywordNode).Val[1:]
+		if nsClauses[clause] && len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
 			clauseChildren = append(
 				[]parse.Node{clauseChildren[0], newline},
 				clauseChildren[1:]...,
@@ -297,12 +330,7 @@ func enforceNSStyle(ns parse.Node) {
 			enforceImportStyle(clauseChildren)
 		}
 		n.SetChildren(clauseChildren)
-		if isVec {
-			n = &parse.ListNode{Nodes: n.Children()}
-		}
-		children[i] = n
 	}
-	ns.SetChildren(children)
 }
 
 func enforceRequireStyle(nodes []parse.Node) {
-- 
2.43.0


From 4404cd947406953ccc53c103cf605eee723ebf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 14/49] fix: keep metadata and tags with their form when
 sorting ns clauses

Metadata, tags and the second form of #_ #_ x y are siblings of the form they
apply to, so sorting could attach them to another form or leave them without
one. Also find the name of an entry if a newline or metadata precedes it.
---
 format/forms.go     | 40 +++++++++++++++++++++++++++++++++++++++-
 format/transform.go | 32 +++++++++++++++++---------------
 2 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/format/forms.go b/format/forms.go
index 5432db7..a79891c 100644
--- a/format/forms.go
+++ b/format/forms.go
@@ -1,6 +1,9 @@
 package format
 
-import "github.com/cespare/goclj/parse"
+import (
+	"github.com/cespare/goclj"
+	"github.com/cespare/goclj/parse"
+)
 
 // missingForms counts the forms after n that belong together with n: metadata
 // and tags are followed by the form they apply to, and #_ #_ discards the form
@@ -20,3 +23,38 @@ func missingForms(n parse.Node) int {
 	}
 	return 0
 }
+
+// formLen returns how many of nodes make up the form that starts at nodes[0].
+// For example, metadata and the form it applies to count as one form here.
+// A form discarded with #_ counts as a form of its own.
+func formLen(nodes []parse.Node) int {
+	var missing int
+	if n, ok := nodes[0].(*parse.ReaderDiscardNode); ok {
+		missing = missingForms(n.Node)
+	} else {
+		missing = missingForms(nodes[0])
+	}
+	length := 1
+	for i := 1; i < len(nodes) && missing > 0; i++ {
+		switch n := nodes[i].(type) {
+		case *parse.NewlineNode, *parse.CommentNode:
+			continue
+		case *parse.ReaderDiscardNode:
+			missing += missingForms(n.Node)
+		default:
+			missing += missingForms(n) - 1
+		}
+		length = i + 1
+	}
+	return length
+}
+
+// firstSemantic returns the first semantic node, or nil if there is none.
+func firstSemantic(nodes []parse.Node) parse.Node {
+	for _, n := range nodes {
+		if goclj.Semantic(n) {
+			return n
+		}
+	}
+	return nil
+}
diff --git a/format/transform.go b/format/transform.go
index 1511d33..5f41ce4 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -392,8 +392,8 @@ func sortImportRequire(n *parse.ListNode) {
 		initialNewline    = false
 		afterSemanticNode = false
 	)
-	for i, node := range nodes[1:] {
-		switch node := node.(type) {
+	for i := 1; i < len(nodes); i++ {
+		switch node := nodes[i].(type) {
 		case *parse.CommentNode:
 			if afterSemanticNode {
 				sorted[len(sorted)-1].commentBeside = node
@@ -401,15 +401,18 @@ func sortImportRequire(n *parse.ListNode) {
 				lineComments = append(lineComments, node)
 			}
 		case *parse.NewlineNode:
-			if i == 0 {
+			if i == 1 {
 				initialNewline = true
 			}
 			afterSemanticNode = false
 		default:
+			// Metadata and the like stay with what they apply to.
+			n := formLen(nodes[i:])
 			ir := &importRequire{
 				commentsAbove: lineComments,
-				node:          node,
+				nodes:         nodes[i : i+n],
 			}
+			i += n - 1
 			sorted = append(sorted, ir)
 			lineComments = nil
 			afterSemanticNode = true
@@ -424,7 +427,7 @@ func sortImportRequire(n *parse.ListNode) {
 		for _, cn := range ir.commentsAbove {
 			newNodes = append(newNodes, cn, newline)
 		}
-		newNodes = append(newNodes, ir.node)
+		newNodes = append(newNodes, ir.nodes...)
 		if ir.commentBeside != nil {
 			newNodes = append(newNodes, ir.commentBeside)
 		}
@@ -597,7 +600,7 @@ func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
 type importRequire struct {
 	commentsAbove []*parse.CommentNode
 	commentBeside *parse.CommentNode
-	node          parse.Node
+	nodes         []parse.Node // a form with its metadata and so on
 }
 
 type importRequireList []*importRequire
@@ -609,8 +612,8 @@ func (l importRequireList) Less(i, j int) bool {
 	// We only consider nodes comparable if they are symbols or
 	// lists/vectors with a symbol as a first child. Everything else
 	// compares as greater than one of these (and equal to one another).
-	k0, ok0 := getImportRequireSortKey(l[i].node)
-	k1, ok1 := getImportRequireSortKey(l[j].node)
+	k0, ok0 := getImportRequireSortKey(l[i].nodes)
+	k1, ok1 := getImportRequireSortKey(l[j].nodes)
 	if ok0 {
 		if ok1 {
 			return k0 < k1
@@ -620,16 +623,15 @@ func (l importRequireList) Less(i, j int) bool {
 	return false // junk == junk, junk > valid
 }
 
-func getImportRequireSortKey(n parse.Node) (key string, ok bool) {
-	switch n := n.(type) {
+func getImportRequireSortKey(nodes []parse.Node) (key string, ok bool) {
+	if _, ok := nodes[0].(*parse.ReaderDiscardNode); ok {
+		return "", false
+	}
+	switch n := nodes[len(nodes)-1].(type) {
 	case *parse.SymbolNode:
 		return n.Val, true
 	case *parse.ListNode, *parse.VectorNode:
-		children := n.Children()
-		if len(children) == 0 {
-			return "", false
-		}
-		sym, ok := children[0].(*parse.SymbolNode)
+		sym, ok := firstSemantic(n.Children()).(*parse.SymbolNode)
 		if !ok {
 			return "", false
 		}
-- 
2.43.0


From 8feb970636c808b480bbfe8e29a441f7492b8f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 15/49] fix: don't rewrite discarded and quoted forms in ns
 clauses

In #_ #_ a b, ^ #_ a b c and '^a b, the nodes after the first are siblings that
ns style enforcement took for clauses or requires.
---
 format/forms.go     | 50 +++++++++++++++++++++++++++++++++++++++++++++
 format/transform.go | 22 ++++++++++++--------
 2 files changed, 63 insertions(+), 9 deletions(-)

diff --git a/format/forms.go b/format/forms.go
index a79891c..11fd4e8 100644
--- a/format/forms.go
+++ b/format/forms.go
@@ -49,6 +49,56 @@ func formLen(nodes []parse.Node) int {
 	return length
 }
 
+// formIndexes returns the indexes of the nodes that are forms, disregarding
+// any metadata and tags before them, and that aren't discarded or (as b in
+// '^a b) part of another form.
+func formIndexes(nodes []parse.Node) []int {
+	var indexes []int
+	for i := 0; i < len(nodes); {
+		var form int
+		form, i = nextForm(nodes, i)
+		if form >= 0 {
+			indexes = append(indexes, form)
+		}
+	}
+	return indexes
+}
+
+// nextForm finds the form that starts at or after nodes[i]. It returns its
+// index (disregarding metadata and tags; -1 if it isn't a single node or if
+// there is none) and the index of the node that follows it.
+func nextForm(nodes []parse.Node, i int) (form, next int) {
+	for i < len(nodes) {
+		n := nodes[i]
+		i++
+		discarded := false
+		missing := missingForms(n)
+		switch n := n.(type) {
+		case *parse.NewlineNode, *parse.CommentNode:
+			continue
+		case *parse.ReaderDiscardNode:
+			discarded = true
+			missing = missingForms(n.Node)
+		}
+		form = i - 1
+		for ; missing > 0; missing-- {
+			form, i = nextForm(nodes, i)
+		}
+		if discarded {
+			continue
+		}
+		switch n.(type) {
+		case *parse.MetadataNode, *parse.TagNode:
+		default:
+			if form != i-1 || nodes[form] != n {
+				form = -1
+			}
+		}
+		return form, i
+	}
+	return -1, i
+}
+
 // firstSemantic returns the first semantic node, or nil if there is none.
 func firstSemantic(nodes []parse.Node) parse.Node {
 	for _, n := range nodes {
diff --git a/format/transform.go b/format/transform.go
index 5f41ce4..9377384 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -269,7 +269,7 @@ var nsClauses = map[string]bool{
 // enforceNSClauses makes each clause of ns a list headed by a keyword.
 func enforceNSClauses(ns parse.Node) {
 	children := ns.Children()
-	for i := 1; i < len(children); i++ {
+	for _, i := range formIndexes(children)[1:] {
 		n := children[i]
 		var isVec bool
 		switch n.(type) {
@@ -311,7 +311,9 @@ func enforceNSClauses(ns parse.Node) {
 // enforceNSStyle formats the args of the clauses of ns.
 // It expects that enforceNSClauses has been applied.
 func enforceNSStyle(ns parse.Node) {
-	for _, n := range ns.Children()[1:] {
+	children := ns.Children()
+	for _, i := range formIndexes(children) {
+		n := children[i]
 		if !goclj.FnFormKeyword(n) {
 			continue
 		}
@@ -334,9 +336,9 @@ func enforceNSStyle(ns parse.Node) {
 }
 
 func enforceRequireStyle(nodes []parse.Node) {
-	for i, n := range nodes {
+	for _, i := range formIndexes(nodes) {
 		var v *parse.VectorNode
-		switch n := n.(type) {
+		switch n := nodes[i].(type) {
 		case *parse.ListNode:
 			v = &parse.VectorNode{Nodes: n.Nodes}
 		case *parse.SymbolNode:
@@ -347,8 +349,8 @@ func enforceRequireStyle(nodes []parse.Node) {
 		if v == nil {
 			continue
 		}
-		for i, child := range v.Nodes {
-			if l, ok := child.(*parse.ListNode); ok {
+		for _, i := range formIndexes(v.Nodes) {
+			if l, ok := v.Nodes[i].(*parse.ListNode); ok {
 				v.Nodes[i] = &parse.VectorNode{Nodes: l.Nodes}
 			}
 		}
@@ -357,8 +359,8 @@ func enforceRequireStyle(nodes []parse.Node) {
 }
 
 func enforceImportStyle(nodes []parse.Node) {
-	for i, n := range nodes {
-		switch n := n.(type) {
+	for _, i := range formIndexes(nodes) {
+		switch n := nodes[i].(type) {
 		case *parse.VectorNode:
 			nodes[i] = &parse.ListNode{Nodes: n.Nodes}
 		case *parse.SymbolNode:
@@ -377,7 +379,9 @@ func enforceImportStyle(nodes []parse.Node) {
 }
 
 func sortNS(ns parse.Node) {
-	for _, n := range ns.Children()[1:] {
+	children := ns.Children()
+	for _, i := range formIndexes(children) {
+		n := children[i]
 		if goclj.FnFormKeyword(n, ":require", ":require-macros", ":import") {
 			sortImportRequire(n.(*parse.ListNode))
 		}
-- 
2.43.0


From 0efe83ddd4be5cf1e5666b935cdf18495951cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 16/49] fix: keep the order, comments and metadata of requires
 when rewriting them

use-to-require and remove-unused-requires rebuilt all requires from a map, in
random order, dropping comments and metadata inside them as well as
:refer-macros next to :refer :all. Now requires that aren't merged are kept as
they are, and remove-unused-requires removes only what is unused.
---
 format/require.go   | 179 +++++++++++++++++++++++++++++++++++++++-----
 format/transform.go | 126 +++++++++++++++++++++----------
 format/unused.go    |  80 ++++++++++++++++++++
 3 files changed, 325 insertions(+), 60 deletions(-)

diff --git a/format/require.go b/format/require.go
index 9a58714..cb58cdd 100644
--- a/format/require.go
+++ b/format/require.go
@@ -75,6 +75,11 @@ func (rl *referList) merge(rl1 *referList) {
 	}
 }
 
+// comments returns the comments inside this referList.
+func (rl *referList) comments() []*parse.CommentNode {
+	return findComments(rl.origRefer)
+}
+
 // render returns a parse.VectorNode for all symbols in this referList,
 // or nil if there are no symbols.
 func (rl *referList) render() *parse.VectorNode {
@@ -135,6 +140,16 @@ type require struct {
 	refer       referList
 	referMacros referList
 
+	// orig holds the parts of the vector or list that this require was
+	// parsed from. It is preserved and reused if possible, but if two
+	// requires are merged, it is set to nil.
+	orig []parse.Node
+	// inner holds the comments inside the original vector or list, except
+	// for those inside refer and referMacros.
+	inner []*parse.CommentNode
+	// sideEffects is whether the namespace was required as [foo].
+	sideEffects bool
+
 	comments nodeComments
 }
 
@@ -171,12 +186,13 @@ func (nc *nodeComments) attachCommentBeside(c *parse.CommentNode) {
 }
 
 type nodeWithComments struct {
-	n        parse.Node
+	nodes    []parse.Node // a form with its metadata and so on
 	comments nodeComments
 }
 
 type requireList struct {
-	m map[string]*require
+	m     map[string]*require
+	names []string // the keys of m in order of appearance
 	// macros is true if this represents a :require-macros list.
 	macros bool
 
@@ -195,8 +211,12 @@ func (rl *requireList) merge(r *require) *require {
 	r2, ok := rl.m[r.name]
 	if !ok {
 		rl.m[r.name] = r
+		rl.names = append(rl.names, r.name)
 		return r
 	}
+	r2.orig = nil
+	r2.inner = append(r2.inner, r.inner...)
+	r2.sideEffects = r2.sideEffects || r.sideEffects
 	if r.as != nil {
 		if r2.as == nil {
 			r2.as = make(map[string]struct{})
@@ -206,8 +226,16 @@ func (rl *requireList) merge(r *require) *require {
 		}
 	}
 	r2.referAll = r.referAll || r2.referAll
-	r2.refer.merge(&r.refer)
-	r2.referMacros.merge(&r.referMacros)
+	for _, refs := range [][2]*referList{
+		{&r2.refer, &r.refer},
+		{&r2.referMacros, &r.referMacros},
+	} {
+		comments := append(refs[0].comments(), refs[1].comments()...)
+		refs[0].merge(refs[1])
+		if len(refs[0].comments()) < len(comments) {
+			r2.inner = append(r2.inner, comments...)
+		}
+	}
 	return r2
 }
 
@@ -227,8 +255,8 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 	case ":require-macros", ":use-macros":
 		rl.macros = true
 	}
-	for _, node := range nodes[1:] {
-		switch node := node.(type) {
+	for i := 1; i < len(nodes); i++ {
+		switch node := nodes[i].(type) {
 		case *parse.CommentNode:
 			if afterSemanticNode {
 				prevComments.attachCommentBeside(node)
@@ -238,14 +266,20 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 		case *parse.NewlineNode:
 			afterSemanticNode = false
 		default:
-			if r := parseFn(node); r != nil {
+			n := formLen(nodes[i:])
+			var r *require
+			if n == 1 && !annotated(node) {
+				r = parseFn(node)
+			}
+			if r != nil {
 				r2 := rl.merge(r)
 				prevComments = &r2.comments
 			} else {
-				nc := &nodeWithComments{n: node}
+				nc := &nodeWithComments{nodes: nodes[i : i+n]}
 				*extra = append(*extra, nc)
 				prevComments = &nc.comments
 			}
+			i += n - 1
 			prevComments.attachCommentsAbove(lineComments)
 			afterSemanticNode = true
 			lineComments = nil
@@ -254,6 +288,18 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 	rl.commentsBelow = append(rl.commentsBelow, lineComments...)
 }
 
+// removeUnused removes unused requires that aren't going to be rendered as they
+// were; removeUnusedRequires handles the others.
+func (rl *requireList) removeUnused(sc *symbolCache) {
+	var names []string
+	for _, name := range rl.names {
+		if r := rl.m[name]; r.orig != nil || !sc.unused(r) {
+			names = append(names, name)
+		}
+	}
+	rl.names = names
+}
+
 func (rl *requireList) render() []parse.Node {
 	var nodes []parse.Node
 	if rl.macros {
@@ -262,10 +308,27 @@ func (rl *requireList) render() []parse.Node {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
 	nodes = append(nodes, newline)
-	for _, r := range rl.m {
+	for _, name := range rl.names {
+		r := rl.m[name]
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newline)
 		}
+		if r.orig != nil {
+			nodes = append(nodes, &parse.VectorNode{Nodes: r.orig})
+			if r.comments.commentBeside != nil {
+				nodes = append(nodes, r.comments.commentBeside)
+			}
+			nodes = append(nodes, newline)
+			continue
+		}
+		for _, c := range r.inner {
+			nodes = append(nodes, c, newline)
+		}
+		if r.referAll {
+			for _, c := range r.refer.comments() {
+				nodes = append(nodes, c, newline)
+			}
+		}
 		parts := []parse.Node{&parse.SymbolNode{Val: r.name}}
 		as := sortStringSet(r.as)
 		// If there are multiple :as definitions, emit a separate
@@ -294,9 +357,9 @@ func (rl *requireList) render() []parse.Node {
 			if n := r.refer.render(); n != nil {
 				parts = append(parts, &parse.KeywordNode{Val: ":refer"}, n)
 			}
-			if n := r.referMacros.render(); n != nil {
-				parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
-			}
+		}
+		if n := r.referMacros.render(); n != nil {
+			parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
 		}
 		nodes = append(nodes, &parse.VectorNode{Nodes: parts})
 		if r.comments.commentBeside != nil {
@@ -308,7 +371,7 @@ func (rl *requireList) render() []parse.Node {
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newline)
 		}
-		nodes = append(nodes, r.n)
+		nodes = append(nodes, r.nodes...)
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
@@ -318,9 +381,9 @@ func (rl *requireList) render() []parse.Node {
 		nodes = append(nodes, c, newline)
 	}
 
-	list := []parse.Node{
-		&parse.ListNode{Nodes: nodes},
-		newline,
+	var list []parse.Node
+	if len(nodes) > 2 || len(rl.extraUse) == 0 {
+		list = append(list, &parse.ListNode{Nodes: nodes}, newline)
 	}
 	if len(rl.extraUse) > 0 {
 		extra := []parse.Node{
@@ -330,7 +393,7 @@ func (rl *requireList) render() []parse.Node {
 			for _, c := range n.comments.commentsAbove {
 				extra = append(extra, c, newline)
 			}
-			extra = append(extra, n.n)
+			extra = append(extra, n.nodes...)
 			if n.comments.commentBeside != nil {
 				extra = append(extra, n.comments.commentBeside)
 			}
@@ -357,8 +420,14 @@ func parseRequire(n parse.Node) *require {
 	switch n := n.(type) {
 	case *parse.SymbolNode:
 		return newRequire(n.Val)
-	case *parse.ListNode, *parse.VectorNode:
-		return parseRequireSeq(n.Children())
+	case *parse.ListNode:
+		return parseRequireSeq(n.Nodes)
+	case *parse.VectorNode:
+		r := parseRequireSeq(n.Nodes)
+		if r != nil {
+			r.sideEffects = isSideEffectsRequire(n)
+		}
+		return r
 	default:
 		return nil
 	}
@@ -377,6 +446,7 @@ func parseRequireSeq(nodes []parse.Node) *require {
 	r := newRequire(semNodes[0].(*parse.SymbolNode).Val)
 	var as string
 	var refer []parse.Node
+	var referAll bool
 	var referMacros []parse.Node
 	if (len(semNodes)-1)%2 != 0 {
 		return nil
@@ -399,7 +469,13 @@ func parseRequireSeq(nodes []parse.Node) *require {
 			}
 			as = vs.Val
 		case ":refer", ":refer-macros":
+			if kw.Val == ":refer" && isKeywordNode(v, ":all") {
+				referAll = true
+				refer = nil
+				continue
+			}
 			if kw.Val == ":refer" {
+				referAll = false
 				refer = v.Children()
 			} else {
 				referMacros = v.Children()
@@ -424,11 +500,67 @@ func parseRequireSeq(nodes []parse.Node) *require {
 	if as != "" {
 		r.as = map[string]struct{}{as: {}}
 	}
+	r.referAll = referAll
 	r.refer.origRefer = refer
 	r.referMacros.origRefer = referMacros
+	r.setOrig(nodes)
 	return r
 }
 
+// isSideEffectsRequire reports whether n has the form [foo].
+func isSideEffectsRequire(n parse.Node) bool {
+	v, ok := n.(*parse.VectorNode)
+	if !ok {
+		return false
+	}
+	count := 0
+	for _, n := range v.Nodes {
+		if goclj.Semantic(n) {
+			count++
+		}
+	}
+	return count == 1
+}
+
+func (r *require) setOrig(nodes []parse.Node) {
+	r.orig = nodes
+	refs := make(map[*parse.CommentNode]struct{})
+	for _, c := range append(r.refer.comments(), r.referMacros.comments()...) {
+		refs[c] = struct{}{}
+	}
+	for _, c := range findComments(nodes) {
+		if _, ok := refs[c]; !ok {
+			r.inner = append(r.inner, c)
+		}
+	}
+}
+
+// findComments returns the comments in nodes, at any depth.
+func findComments(nodes []parse.Node) []*parse.CommentNode {
+	var comments []*parse.CommentNode
+	for _, n := range nodes {
+		if c, ok := n.(*parse.CommentNode); ok {
+			comments = append(comments, c)
+		}
+		comments = append(comments, findComments(n.Children())...)
+	}
+	return comments
+}
+
+// annotated reports whether there is metadata or a tag inside n.
+func annotated(n parse.Node) bool {
+	switch n.(type) {
+	case *parse.MetadataNode, *parse.TagNode:
+		return true
+	}
+	for _, n := range n.Children() {
+		if annotated(n) {
+			return true
+		}
+	}
+	return false
+}
+
 func parseUse(n parse.Node) *require {
 	switch n := n.(type) {
 	case *parse.SymbolNode:
@@ -443,6 +575,13 @@ func parseUse(n parse.Node) *require {
 }
 
 func parseUseSeq(nodes []parse.Node) *require {
+	orig := nodes
+	nodes = make([]parse.Node, 0, len(orig))
+	for _, n := range orig {
+		if goclj.Semantic(n) {
+			nodes = append(nodes, n)
+		}
+	}
 	if len(nodes) == 0 || !goclj.Symbol(nodes[0]) {
 		return nil
 	}
@@ -484,5 +623,7 @@ func parseUseSeq(nodes []parse.Node) *require {
 	default:
 		return nil
 	}
+	r.setOrig(orig)
+	r.orig = nil // it isn't a require
 	return r
 }
diff --git a/format/transform.go b/format/transform.go
index 9377384..b9614c6 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -140,7 +140,7 @@ func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 	for _, root := range t.Roots {
 		if goclj.FnFormSymbol(root, "ns") {
 			if transforms[TransformUseToRequire] {
-				useToRequire(root)
+				useToRequire(root, syms)
 			}
 			if transforms[TransformRemoveUnusedRequires] {
 				removeUnusedRequires(root, syms)
@@ -175,19 +175,27 @@ func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 	}
 }
 
-func useToRequire(ns parse.Node) {
+// useToRequire consolidates the :require and :use clauses of ns.
+// If syms is non-nil, unused requires are removed.
+func useToRequire(ns parse.Node, syms *symbolCache) {
 	rl := newRequireList()
 	insertIndex := -1
 	prevSkipped := false
 	nodes := []parse.Node{&parse.SymbolNode{Val: "ns"}}
 	i := 0
-	for _, n := range ns.Children()[1:] {
+	rest := ns.Children()[1:]
+	for len(rest) > 0 {
+		n := rest[0]
 		if prevSkipped && goclj.Newline(n) {
+			rest = rest[1:]
 			prevSkipped = false
 			continue
 		}
 		prevSkipped = false
-		if goclj.FnFormKeyword(n, ":require", ":use") {
+		length := formLen(rest)
+		form := rest[:length]
+		rest = rest[length:]
+		if length == 1 && goclj.FnFormKeyword(n, ":require", ":use") {
 			children := n.Children()
 			name := children[0].(*parse.KeywordNode).Val
 			rl.parseRequireUse(children, name == ":use")
@@ -197,10 +205,13 @@ func useToRequire(ns parse.Node) {
 			prevSkipped = true
 			continue
 		}
-		nodes = append(nodes, n)
-		i++
+		nodes = append(nodes, form...)
+		i += length
 	}
 	if insertIndex != -1 {
+		if syms != nil {
+			rl.removeUnused(syms)
+		}
 		nodes = append(nodes[:insertIndex],
 			append(rl.render(), nodes[insertIndex:]...)...)
 	}
@@ -209,49 +220,82 @@ func useToRequire(ns parse.Node) {
 
 func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 	children := ns.Children()
-	nodes := children[:0]
-	for i := 0; i < len(children); i++ {
-		n := children[i]
-		if !goclj.FnFormKeyword(n, ":require", ":require-macros") {
-			nodes = append(nodes, n)
-			continue
-		}
-		// As a special case, never remove requires of the form [foo]
-		// because they may be needed for their side-effects.
-		var keep []parse.Node
-		var requires []parse.Node
-		for i, child := range n.Children() {
-			if i == 0 {
-				requires = append(requires, child)
+	clauses := make(map[int]bool)
+	for _, i := range formIndexes(children) {
+		if goclj.FnFormKeyword(children[i], ":require", ":require-macros") {
+			clauses[i] = true
+		}
+	}
+	nodes := make([]parse.Node, 0, len(children))
+	for i := 0; i < len(children); {
+		form := children[i : i+formLen(children[i:])]
+		i += len(form)
+		if clauses[i-1] {
+			clause := form[len(form)-1]
+			removeUnusedEntries(clause, syms)
+			if len(clause.Children()) == 1 {
+				// If all that's left is (:require), drop it.
+				// If there's a newline afterwards, drop that too.
+				if i < len(children) && goclj.Newline(children[i]) {
+					i++
+				}
 				continue
 			}
-			if vec, ok := child.(*parse.VectorNode); ok && len(vec.Children()) == 1 {
-				keep = append(keep, child)
-			} else {
-				requires = append(requires, child)
-			}
 		}
+		nodes = append(nodes, form...)
+	}
+	ns.SetChildren(nodes)
+}
 
-		rl := newRequireList()
-		rl.parseRequireUse(requires, false)
-		for name, r := range rl.m {
-			if syms.unused(r) {
-				delete(rl.m, name)
+// removeUnusedEntries removes the unused entries of a :require clause together
+// with the comments above and beside them.
+func removeUnusedEntries(clause parse.Node, syms *symbolCache) {
+	nodes := clause.Children()
+	unused := make(map[int]bool)
+	for _, i := range formIndexes(nodes) {
+		unused[i] = !syms.trimRequire(nodes[i])
+	}
+	kept := []parse.Node{nodes[0]}
+	entries := 0
+	needNewline := false
+	for i := 1; i < len(nodes); {
+		start := i
+		for i < len(nodes) && (goclj.Newline(nodes[i]) || goclj.Comment(nodes[i])) {
+			i++
+		}
+		above := nodes[start:i]
+		if len(above) > 0 && goclj.Newline(above[0]) {
+			needNewline = false
+		}
+		if i == len(nodes) {
+			if entries > 0 || len(findComments(above)) > 0 {
+				kept = append(kept, above...)
 			}
+			break
 		}
-		require := rl.render()[0].(*parse.ListNode)
-		require.Nodes = append(require.Nodes, keep...)
-		if len(require.Nodes) <= 2 {
-			// If all that's left is (:require), drop it.
-			// If there's a newline afterwards, drop that too.
-			if i < len(children)-1 && goclj.Newline(children[i+1]) {
-				i++
-			}
-		} else {
-			nodes = append(nodes, require)
+		start = i
+		i += formLen(nodes[i:])
+		remove := unused[i-1]
+		if i < len(nodes) && goclj.Comment(nodes[i]) {
+			i++
 		}
+		if remove {
+			// Keep the line break between the entries around this one.
+			needNewline = needNewline || len(above) > 0
+			continue
+		}
+		if needNewline {
+			kept = append(kept, newline)
+			needNewline = false
+		}
+		kept = append(kept, above...)
+		kept = append(kept, nodes[start:i]...)
+		entries++
 	}
-	ns.SetChildren(nodes)
+	if goclj.Comment(kept[len(kept)-1]) {
+		kept = append(kept, newline)
+	}
+	clause.SetChildren(kept)
 }
 
 // nsClauses are the clauses of an ns form that enforceNSStyle recognizes;
diff --git a/format/unused.go b/format/unused.go
index 7e0512d..15b2a27 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -121,6 +121,86 @@ func (sc *symbolCache) unused(r *require) bool {
 		!sc.usesRequireAsImport(r.name) &&
 		len(r.as) == 0 &&
 		!r.referAll &&
+		!r.sideEffects &&
 		r.refer.origRefer == nil && len(r.refer.refer) == 0 &&
 		r.referMacros.origRefer == nil && len(r.referMacros.refer) == 0
 }
+
+// trimRequire removes unused :as, :refer, and :refer-macros options from n,
+// an entry of a :require clause. It reports whether n is still needed.
+func (sc *symbolCache) trimRequire(n parse.Node) bool {
+	r := parseRequire(n)
+	if r == nil || r.sideEffects || annotated(n) {
+		return true
+	}
+	needed := sc.usesNamespace(r.name) || sc.usesRequireAsImport(r.name)
+	if goclj.Symbol(n) {
+		return needed
+	}
+	nodes := n.Children()
+	for i := 0; i < len(nodes); {
+		if !goclj.Keyword(nodes[i]) {
+			i++
+			continue
+		}
+		j := i + 1
+		for !goclj.Semantic(nodes[j]) {
+			j++
+		}
+		var used bool
+		switch v := nodes[j].(type) {
+		case *parse.SymbolNode: // :as
+			used = sc.usesNamespace(v.Val)
+		case *parse.KeywordNode: // :refer :all
+			used = true
+		default:
+			used = sc.trimRefers(v)
+		}
+		if used {
+			needed = true
+			i = j + 1
+		} else {
+			nodes, i = removeNodes(nodes, i, j+1)
+		}
+	}
+	n.SetChildren(nodes)
+	return needed
+}
+
+// trimRefers removes the names that aren't used from n, the list of names after
+// :refer. It reports whether there are any left.
+func (sc *symbolCache) trimRefers(n parse.Node) bool {
+	used := false
+	nodes := n.Children()
+	for i := 0; i < len(nodes); {
+		sym, ok := nodes[i].(*parse.SymbolNode)
+		switch {
+		case !ok:
+			i++
+		case sc.usesSym(sym.Val):
+			used = true
+			i++
+		default:
+			nodes, i = removeNodes(nodes, i, i+1)
+		}
+	}
+	n.SetChildren(nodes)
+	return used
+}
+
+// removeNodes removes nodes[i:j] along with the newlines before them (or after
+// them, if they are the first). It returns the remaining nodes and the index of
+// the node that followed the removed nodes.
+func removeNodes(nodes []parse.Node, i, j int) ([]parse.Node, int) {
+	for i > 0 && goclj.Newline(nodes[i-1]) {
+		i--
+	}
+	if i > 0 && goclj.Comment(nodes[i-1]) {
+		i++ // This newline ends the comment.
+	}
+	for i == 0 && j < len(nodes) && goclj.Newline(nodes[j]) {
+		j++
+	}
+	kept := append([]parse.Node{}, nodes[:i]...)
+	return append(kept, nodes[j:]...), i
+}
-- 
2.43.0


From 16cb6a93a86183031e74d484562076291ea807f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 17/49] fix: break the line after :require even if a comment or
 metadata follows

---
 format/transform.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index b9614c6..29155a5 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -363,7 +363,8 @@ func enforceNSStyle(ns parse.Node) {
 		}
 		clauseChildren := n.Children()
 		clause := clauseChildren[0].(*parse.KeywordNode).Val[1:]
-		if nsClauses[clause] && len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
+		if nsClauses[clause] && len(clauseChildren) >= 2 &&
+			!goclj.Newline(clauseChildren[1]) && !goclj.Comment(clauseChildren[1]) {
 			clauseChildren = append(
 				[]parse.Node{clauseChildren[0], newline},
 				clauseChildren[1:]...,
@@ -466,7 +467,15 @@ func sortImportRequire(n *parse.ListNode) {
 			afterSemanticNode = true
 		}
 	}
-	sort.Stable(sorted)
+	if len(sorted) > 0 && goclj.Comment(nodes[1]) {
+		// The newline after the comment was the initial one, if another
+		// form comes first now.
+		first := sorted[0]
+		sort.Stable(sorted)
+		initialNewline = sorted[0] != first
+	} else {
+		sort.Stable(sorted)
+	}
 	newNodes := []parse.Node{nodes[0]}
 	if initialNewline {
 		newNodes = append(newNodes, newline)
-- 
2.43.0


From f4a4e3c4c430755ea20ab8d2e9178ee3e769e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 18/49] fix: keep the depth of docstring lines indented with
 IndentChar

---
 format/docstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/docstring.go b/format/docstring.go
index 10cbc17..0e3e766 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -63,7 +63,7 @@ func (p *Printer) alignDocstring(docstring string, w int) string {
 	)
 	for _, line := range lines[1:] {
 		prefix := indent
-		n := strings.IndexFunc(line, func(r rune) bool { return r != ' ' })
+		n := strings.IndexFunc(line, func(r rune) bool { return r != ' ' && r != p.IndentChar })
 		if n > w {
 			prefix += strings.Repeat(" ", n-w)
 		}
-- 
2.43.0


From 01359b35e58433f79de313fdfd432d3b045f40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 19/49] fix: don't move a defn arglist or dispatch value up
 into a comment

---
 format/transform.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 29155a5..eb77ce1 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -528,7 +528,7 @@ func fixDefnArglist(defn parse.Node) {
 	if len(nodes) < 5 {
 		return
 	}
-	if !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {
+	if goclj.Comment(nodes[1]) || !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {
 		return
 	}
 	if !goclj.Vector(nodes[3]) {
@@ -544,7 +544,7 @@ func fixDefmethodDispatchVal(defmethod parse.Node) {
 	if len(nodes) < 5 {
 		return
 	}
-	if !goclj.Newline(nodes[2]) {
+	if goclj.Comment(nodes[1]) || !goclj.Newline(nodes[2]) {
 		return
 	}
 	if !goclj.Keyword(nodes[3]) {
-- 
2.43.0


From c7f5131eea637371a824f6ce089ab5fd4f4a73ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 20/49] fix: treat a refer list without names like a missing
 one when merging

---
 format/require.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/format/require.go b/format/require.go
index cb58cdd..c08acf2 100644
--- a/format/require.go
+++ b/format/require.go
@@ -75,6 +75,16 @@ func (rl *referList) merge(rl1 *referList) {
 	}
 }
 
+// newReferList makes a referList of the names in nodes.
+func newReferList(nodes []parse.Node) referList {
+	for _, n := range nodes {
+		if goclj.Symbol(n) {
+			return referList{origRefer: nodes}
+		}
+	}
+	return referList{}
+}
+
 // comments returns the comments inside this referList.
 func (rl *referList) comments() []*parse.CommentNode {
 	return findComments(rl.origRefer)
@@ -501,8 +511,8 @@ func parseRequireSeq(nodes []parse.Node) *require {
 		r.as = map[string]struct{}{as: {}}
 	}
 	r.referAll = referAll
-	r.refer.origRefer = refer
-	r.referMacros.origRefer = referMacros
+	r.refer = newReferList(refer)
+	r.referMacros = newReferList(referMacros)
 	r.setOrig(nodes)
 	return r
 }
@@ -607,8 +617,8 @@ func parseUseSeq(nodes []parse.Node) *require {
 			default:
 				return nil
 			}
-			r.refer.origRefer = nodes[2].Children()
-			for _, n := range r.refer.origRefer {
+			refer := nodes[2].Children()
+			for _, n := range refer {
 				switch n.(type) {
 				case *parse.SymbolNode,
 					*parse.CommentNode,
@@ -617,6 +627,7 @@ func parseUseSeq(nodes []parse.Node) *require {
 					return nil
 				}
 			}
+			r.refer = newReferList(refer)
 		default:
 			return nil
 		}
-- 
2.43.0


From f0a050a95753844be274f01b34f86c4b6b952a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 21/49] fix: don't move an arglist or dispatch value up if
 there is no name

---
 format/transform.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index eb77ce1..8377e9d 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -528,7 +528,10 @@ func fixDefnArglist(defn parse.Node) {
 	if len(nodes) < 5 {
 		return
 	}
-	if goclj.Comment(nodes[1]) || !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {
+	if goclj.Newline(nodes[1]) || goclj.Comment(nodes[1]) {
+		return // There's no name to move it next to.
+	}
+	if !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {
 		return
 	}
 	if !goclj.Vector(nodes[3]) {
@@ -544,7 +547,10 @@ func fixDefmethodDispatchVal(defmethod parse.Node) {
 	if len(nodes) < 5 {
 		return
 	}
-	if goclj.Comment(nodes[1]) || !goclj.Newline(nodes[2]) {
+	if goclj.Newline(nodes[1]) || goclj.Comment(nodes[1]) {
+		return // There's no name to move it next to.
+	}
+	if !goclj.Newline(nodes[2]) {
 		return
 	}
 	if !goclj.Keyword(nodes[3]) {
-- 
2.43.0


From bebc11ec8cbaba3ea41d451fbff6833f2bef4fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 22/49] fix: don't share a newline node between trees

---
 format/require.go   | 31 ++++++++++++++++---------------
 format/transform.go | 14 +++++++-------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/format/require.go b/format/require.go
index c08acf2..80f0834 100644
--- a/format/require.go
+++ b/format/require.go
@@ -175,7 +175,8 @@ type nodeComments struct {
 	commentsBesideMerged bool
 }
 
-var newline = &parse.NewlineNode{}
+// newline makes a new node each time because a node belongs to one tree.
+func newline() parse.Node { return new(parse.NewlineNode) }
 
 func (nc *nodeComments) attachCommentsAbove(cs []*parse.CommentNode) {
 	nc.commentsAbove = append(nc.commentsAbove, cs...)
@@ -317,26 +318,26 @@ func (rl *requireList) render() []parse.Node {
 	} else {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
-	nodes = append(nodes, newline)
+	nodes = append(nodes, newline())
 	for _, name := range rl.names {
 		r := rl.m[name]
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newline())
 		}
 		if r.orig != nil {
 			nodes = append(nodes, &parse.VectorNode{Nodes: r.orig})
 			if r.comments.commentBeside != nil {
 				nodes = append(nodes, r.comments.commentBeside)
 			}
-			nodes = append(nodes, newline)
+			nodes = append(nodes, newline())
 			continue
 		}
 		for _, c := range r.inner {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newline())
 		}
 		if r.referAll {
 			for _, c := range r.refer.comments() {
-				nodes = append(nodes, c, newline)
+				nodes = append(nodes, c, newline())
 			}
 		}
 		parts := []parse.Node{&parse.SymbolNode{Val: r.name}}
@@ -351,7 +352,7 @@ func (rl *requireList) render() []parse.Node {
 					&parse.SymbolNode{Val: as[0]},
 				},
 			}
-			nodes = append(nodes, n, newline)
+			nodes = append(nodes, n, newline())
 			as = as[1:]
 		}
 		if len(as) > 0 {
@@ -375,25 +376,25 @@ func (rl *requireList) render() []parse.Node {
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newline())
 	}
 	for _, r := range rl.extraRequire {
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newline())
 		}
 		nodes = append(nodes, r.nodes...)
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newline())
 	}
 	for _, c := range rl.commentsBelow {
-		nodes = append(nodes, c, newline)
+		nodes = append(nodes, c, newline())
 	}
 
 	var list []parse.Node
 	if len(nodes) > 2 || len(rl.extraUse) == 0 {
-		list = append(list, &parse.ListNode{Nodes: nodes}, newline)
+		list = append(list, &parse.ListNode{Nodes: nodes}, newline())
 	}
 	if len(rl.extraUse) > 0 {
 		extra := []parse.Node{
@@ -401,17 +402,17 @@ func (rl *requireList) render() []parse.Node {
 		}
 		for _, n := range rl.extraUse {
 			for _, c := range n.comments.commentsAbove {
-				extra = append(extra, c, newline)
+				extra = append(extra, c, newline())
 			}
 			extra = append(extra, n.nodes...)
 			if n.comments.commentBeside != nil {
 				extra = append(extra, n.comments.commentBeside)
 			}
-			extra = append(extra, newline)
+			extra = append(extra, newline())
 		}
 		list = append(list,
 			&parse.ListNode{Nodes: extra},
-			newline,
+			newline(),
 		)
 	}
 	return list
diff --git a/format/transform.go b/format/transform.go
index 8377e9d..3a5c99d 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -285,7 +285,7 @@ func removeUnusedEntries(clause parse.Node, syms *symbolCache) {
 			continue
 		}
 		if needNewline {
-			kept = append(kept, newline)
+			kept = append(kept, newline())
 			needNewline = false
 		}
 		kept = append(kept, above...)
@@ -293,7 +293,7 @@ func removeUnusedEntries(clause parse.Node, syms *symbolCache) {
 		entries++
 	}
 	if goclj.Comment(kept[len(kept)-1]) {
-		kept = append(kept, newline)
+		kept = append(kept, newline())
 	}
 	clause.SetChildren(kept)
 }
@@ -366,7 +366,7 @@ func enforceNSStyle(ns parse.Node) {
 		if nsClauses[clause] && len(clauseChildren) >= 2 &&
 			!goclj.Newline(clauseChildren[1]) && !goclj.Comment(clauseChildren[1]) {
 			clauseChildren = append(
-				[]parse.Node{clauseChildren[0], newline},
+				[]parse.Node{clauseChildren[0], newline()},
 				clauseChildren[1:]...,
 			)
 		}
@@ -478,21 +478,21 @@ func sortImportRequire(n *parse.ListNode) {
 	}
 	newNodes := []parse.Node{nodes[0]}
 	if initialNewline {
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newline())
 	}
 	for _, ir := range sorted {
 		for _, cn := range ir.commentsAbove {
-			newNodes = append(newNodes, cn, newline)
+			newNodes = append(newNodes, cn, newline())
 		}
 		newNodes = append(newNodes, ir.nodes...)
 		if ir.commentBeside != nil {
 			newNodes = append(newNodes, ir.commentBeside)
 		}
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newline())
 	}
 	// unattached comments at the bottom
 	for _, cn := range lineComments {
-		newNodes = append(newNodes, cn, newline)
+		newNodes = append(newNodes, cn, newline())
 	}
 	// drop trailing newline
 	if len(newNodes) >= 2 && !goclj.Comment(newNodes[len(newNodes)-2]) {
-- 
2.43.0


From 994f4d478f36437c5074802d8681ad1bfc28e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:35 +0000
Subject: [PATCH 23/49] fix: don't change the caller's or the default
 transforms when printing

---
 format/format.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/format/format.go b/format/format.go
index ec8e9fe..bfc6d7d 100644
--- a/format/format.go
+++ b/format/format.go
@@ -71,14 +71,12 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 	for k, v := range p.ThreadFirstStyleOverrides {
 		p.threadFirstStyles[k] = v
 	}
-	if p.Transforms == nil {
-		p.Transforms = DefaultTransforms
-	} else {
-		for k, v := range DefaultTransforms {
-			if _, ok := p.Transforms[k]; !ok {
-				p.Transforms[k] = v
-			}
-		}
+	transforms := make(map[Transform]bool)
+	for k, v := range DefaultTransforms {
+		transforms[k] = v
+	}
+	for k, v := range p.Transforms {
+		transforms[k] = v
 	}
 	defer func() {
 		if e := recover(); e != nil {
@@ -93,7 +91,7 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 		}
 	}()
 	t.Roots = terminateComments(t.Roots, true)
-	applyTransforms(t, p.Transforms)
+	applyTransforms(t, transforms)
 	for _, node := range t.Roots {
 		p.markDocstrings(node)
 		p.markThreadFirsts(node)
-- 
2.43.0


From 121b76160570e886b5d0b0d7e41bc045a520267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 24/49] fix: don't indent the second form of a pair once per
 blank line

---
 format/format.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/format.go b/format/format.go
index bfc6d7d..4d53032 100644
--- a/format/format.go
+++ b/format/format.go
@@ -679,8 +679,10 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 				IndentCond2,
 				IndentCond4:
 				if pairIdx > 0 {
-					w += 2
-					extraIndent = true
+					if !extraIndent {
+						w += 2
+						extraIndent = true
+					}
 				} else if i == 1 && semanticIdx == 1 {
 					w++
 				}
-- 
2.43.0


From 0bbb00d90df12a9fe2daa3cc7fb9ea6e857186a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 25/49] fix: count columns in characters from the start of the
 line

---
 format/format.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/format/format.go b/format/format.go
index 4d53032..e319468 100644
--- a/format/format.go
+++ b/format/format.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/cespare/goclj"
 	"github.com/cespare/goclj/parse"
@@ -137,9 +138,9 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 			return w + p.writeString("false")
 		}
 	case *parse.CharacterNode:
-		return w + p.writeString(node.Text)
+		return p.writeText(node.Text, w)
 	case *parse.CommentNode:
-		return w + p.writeString(node.Text)
+		return p.writeText(node.Text, w)
 	case *parse.DerefNode:
 		w += p.writeByte('@')
 		return p.printNode(node.Node, w)
@@ -162,7 +163,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeString("#=")
 		return p.printNode(node.Node, w)
 	case *parse.KeywordNode:
-		return w + p.writeString(node.Val)
+		return p.writeText(node.Val, w)
 	case *parse.ListNode:
 		p.applySpecialIndentRules(node)
 		var style IndentStyle
@@ -181,7 +182,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	case *parse.MapNode:
 		if node.Namespace != "" {
 			w += p.writeString("#")
-			w += p.writeString(node.Namespace)
+			w = p.writeText(node.Namespace, w)
 		}
 		w += p.writeString("{")
 		w = p.printSequence(node.Nodes, w, indentBindings)
@@ -194,12 +195,12 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	case *parse.NilNode:
 		return w + p.writeString("nil")
 	case *parse.NumberNode:
-		return w + p.writeString(node.Val)
+		return p.writeText(node.Val, w)
 	case *parse.QuoteNode:
 		w += p.writeByte('\'')
 		return p.printNode(node.Node, w)
 	case *parse.RegexNode:
-		return w + p.writeString(`#"`+node.Val+`"`)
+		return p.writeText(`#"`+node.Val+`"`, w)
 	case *parse.SetNode:
 		w += p.writeString("#{")
 		w = p.printSequence(node.Nodes, w, IndentNormal)
@@ -210,9 +211,9 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 			val = p.alignDocstring(val, w)
 			delete(p.docstrings, node)
 		}
-		return w + p.writeString(`"`+val+`"`)
+		return p.writeText(`"`+val+`"`, w)
 	case *parse.SymbolNode:
-		return w + p.writeString(node.Val)
+		return p.writeText(node.Val, w)
 	case *parse.SyntaxQuoteNode:
 		w += p.writeByte('`')
 		return p.printNode(node.Node, w)
@@ -222,7 +223,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 			// "# _x" is the tag _x but "#_x" is x discarded, and so on.
 			prefix = "# "
 		}
-		return w + p.writeString(prefix+node.Val)
+		return p.writeText(prefix+node.Val, w)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
 		if _, ok := node.Node.(*parse.DerefNode); ok {
@@ -234,7 +235,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeString("~@")
 		return p.printNode(node.Node, w)
 	case *parse.VarQuoteNode:
-		return w + p.writeString("#'"+node.Val)
+		return p.writeText("#'"+node.Val, w)
 	case *parse.VectorNode:
 		style, ok := p.specialIndent[node]
 		if ok {
@@ -771,6 +772,17 @@ func (bw *bufWriter) writeString(s string) int {
 	}
 	return n
 }
+
+// writeText writes s, which may contain newlines and non-ASCII characters,
+// starting at column w. It returns the column after s.
+func (bw *bufWriter) writeText(s string, w int) int {
+	bw.writeString(s)
+	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
+		s, w = s[i+1:], 0
+	}
+	return w + utf8.RuneCountInString(s)
+}
+
 func (bw *bufWriter) writeByte(b byte) int {
 	if err := bw.bw.WriteByte(b); err != nil {
 		panic(bufErr{err})
-- 
2.43.0


From a7cd4e86ac243e620806066ff513d7b6715adbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 26/49] fix: indent relative to the actual column of a form
 that starts a line

---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index e319468..18e30e7 100644
--- a/format/format.go
+++ b/format/format.go
@@ -714,6 +714,7 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 		}
 		if needIndent {
 			p.writeString(strings.Repeat(string(p.IndentChar), w))
+			w2 = w
 		}
 		if needSpace {
 			w2 += p.writeByte(' ')
-- 
2.43.0


From fbcf0abe75eb1bde59c01fad2391555e5fa870af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 27/49] fix: apply the let, for, letfn, and deftype rules in
 function literals as well

---
 format/format.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/format/format.go b/format/format.go
index 18e30e7..8f0b4bc 100644
--- a/format/format.go
+++ b/format/format.go
@@ -145,6 +145,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeByte('@')
 		return p.printNode(node.Node, w)
 	case *parse.FnLiteralNode:
+		p.applySpecialIndentRules(node.Nodes)
 		w += p.writeString("#(")
 		w = p.printSequence(node.Nodes, w, p.chooseIndent(node.Nodes))
 		return w + p.writeString(")")
@@ -165,7 +166,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	case *parse.KeywordNode:
 		return p.writeText(node.Val, w)
 	case *parse.ListNode:
-		p.applySpecialIndentRules(node)
+		p.applySpecialIndentRules(node.Nodes)
 		var style IndentStyle
 		var ok bool
 		if style, ok = p.specialIndent[node]; ok {
@@ -255,24 +256,24 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 // TODO: Create a simple rules interface or something to easily specify the
 // special rules below.
 
-func (p *Printer) applySpecialIndentRules(node *parse.ListNode) {
-	if len(node.Nodes) == 0 {
+func (p *Printer) applySpecialIndentRules(nodes []parse.Node) {
+	if len(nodes) == 0 {
 		return
 	}
-	s, ok := node.Nodes[0].(*parse.SymbolNode)
+	s, ok := nodes[0].(*parse.SymbolNode)
 	if !ok {
 		return
 	}
 	if style, ok := p.indentStyleForSymbol(s.Val); ok {
 		switch style {
 		case IndentLet:
-			p.applySpecialLet(node.Nodes)
+			p.applySpecialLet(nodes)
 		case IndentLetfn:
-			p.applySpecialLetfn(node.Nodes)
+			p.applySpecialLetfn(nodes)
 		case IndentFor:
-			p.applySpecialFor(node.Nodes)
+			p.applySpecialFor(nodes)
 		case IndentDeftype:
-			p.applySpecialDeftype(node.Nodes)
+			p.applySpecialDeftype(nodes)
 		}
 	}
 }
-- 
2.43.0


From 55a52162f566ce46fff041da7c644ea76845fc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 28/49] fix: don't count metadata and discarded forms as
 threaded positions

---
 format/threadfirst.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/format/threadfirst.go b/format/threadfirst.go
index 88b1884..65b29c5 100644
--- a/format/threadfirst.go
+++ b/format/threadfirst.go
@@ -27,24 +27,25 @@ func (p *Printer) markThreadFirstStyle(form parse.Node, style ThreadFirstStyle)
 	if _, ok := p.threadFirst[form]; ok {
 		begin = 1 // nested thread-first forms
 	}
-	idxSemantic := 0
-	for _, node := range form.Children() {
-		switch n := node.(type) {
-		case *parse.CommentNode, *parse.NewlineNode:
-			continue
-		case *parse.ListNode:
-			if idxSemantic >= begin {
+	idxForm := 0
+	nodes := form.Children()
+	for i := 0; i < len(nodes); {
+		// Metadata and the like don't count as positions.
+		var idx int
+		idx, i = nextForm(nodes, i)
+		if idx >= 0 && idxForm >= begin {
+			if n, ok := nodes[idx].(*parse.ListNode); ok {
 				switch style {
 				case ThreadFirstNormal:
 					p.threadFirst[n] = struct{}{}
 				case ThreadFirstCondArrow:
-					if (begin-idxSemantic)&1 > 0 {
+					if (begin-idxForm)&1 > 0 {
 						// Only apply to the second of a pair.
 						p.threadFirst[n] = struct{}{}
 					}
 				}
 			}
 		}
-		idxSemantic++
+		idxForm++
 	}
 }
-- 
2.43.0


From 2be663ec9e181dca637201f9c28f04821ee3bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 29/49] fix: apply the letfn rule to the first vector only

---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index 8f0b4bc..9e4ab4a 100644
--- a/format/format.go
+++ b/format/format.go
@@ -338,6 +338,7 @@ func (p *Printer) applySpecialLetfn(nodes []parse.Node) {
 				p.specialIndent[fn] = IndentListBody
 			}
 		}
+		return
 	}
 }
 
-- 
2.43.0


From a116291af02cda836769b9b7719a3094229bed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 30/49] fix: prefer an indent override for a symbol as written
 to one for its bare name

---
 format/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/format.go b/format/format.go
index 9e4ab4a..fcbdd0a 100644
--- a/format/format.go
+++ b/format/format.go
@@ -385,6 +385,9 @@ func (p *Printer) indentStyleForSymbol(name string) (IndentStyle, bool) {
 				return style, true
 			}
 		}
+		if style, ok := p.indentStyles[name]; ok {
+			return style, true
+		}
 		if style, ok := p.indentStyles[unqualified]; ok {
 			return style, true
 		}
-- 
2.43.0


From 74c7709d86d0a8250ec26c0b86ea64ef5955d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 31/49] fix: use the aliases and referred names of requires
 with other options

---
 format/require.go | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/format/require.go b/format/require.go
index 80f0834..300547e 100644
--- a/format/require.go
+++ b/format/require.go
@@ -15,22 +15,41 @@ func (p *Printer) markRequires(n parse.Node) {
 		if !goclj.FnFormKeyword(n, ":require", ":require-macros") {
 			continue
 		}
-		for _, n := range n.Children()[1:] {
-			r := parseRequire(n)
-			if r == nil {
-				continue
+		nodes := n.Children()
+		for _, i := range formIndexes(nodes) {
+			switch n := nodes[i].(type) {
+			case *parse.ListNode, *parse.VectorNode:
+				p.markRequire(n.Children())
 			}
-			for as := range r.as {
-				p.requires[as] = r.name
+		}
+	}
+}
+
+// markRequire records the aliases and the referred names of a single require.
+// Options other than :as, :refer, and :refer-macros don't matter here.
+func (p *Printer) markRequire(nodes []parse.Node) {
+	var forms []parse.Node
+	for _, i := range formIndexes(nodes) {
+		forms = append(forms, nodes[i])
+	}
+	if len(forms) == 0 || !goclj.Symbol(forms[0]) {
+		return
+	}
+	name := forms[0].(*parse.SymbolNode).Val
+	for i := 1; i+1 < len(forms); i += 2 {
+		kw, ok := forms[i].(*parse.KeywordNode)
+		if !ok {
+			continue
+		}
+		switch kw.Val {
+		case ":as":
+			if as, ok := forms[i+1].(*parse.SymbolNode); ok {
+				p.requires[as.Val] = name
 			}
-			for _, ref := range []*referList{&r.refer, &r.referMacros} {
-				for _, n := range ref.origRefer {
-					if n, ok := n.(*parse.SymbolNode); ok {
-						p.refers[n.Val] = r.name
-					}
-				}
-				for ref := range ref.refer {
-					p.refers[ref] = r.name
+		case ":refer", ":refer-macros":
+			for _, n := range forms[i+1].Children() {
+				if ref, ok := n.(*parse.SymbolNode); ok {
+					p.refers[ref.Val] = name
 				}
 			}
 		}
-- 
2.43.0


From e31e0fc2101da370c0ef2ca2fe721b932d8d3524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 32/49] fix: don't use the requires of previously printed trees

---
 format/format.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/format/format.go b/format/format.go
index fcbdd0a..9087979 100644
--- a/format/format.go
+++ b/format/format.go
@@ -46,18 +46,19 @@ type Printer struct {
 // NewPrinter creates a printer to the given writer.
 func NewPrinter(w io.Writer) *Printer {
 	return &Printer{
-		bufWriter:     &bufWriter{bufio.NewWriter(w)},
-		IndentChar:    ' ',
-		specialIndent: make(map[parse.Node]IndentStyle),
-		threadFirst:   make(map[parse.Node]struct{}),
-		docstrings:    make(map[*parse.StringNode]struct{}),
-		requires:      make(map[string]string),
-		refers:        make(map[string]string),
+		bufWriter:  &bufWriter{bufio.NewWriter(w)},
+		IndentChar: ' ',
 	}
 }
 
 // PrintTree writes t to p's writer.
 func (p *Printer) PrintTree(t *parse.Tree) (err error) {
+	// Forget what was found in the trees printed before.
+	p.specialIndent = make(map[parse.Node]IndentStyle)
+	p.threadFirst = make(map[parse.Node]struct{})
+	p.docstrings = make(map[*parse.StringNode]struct{})
+	p.requires = make(map[string]string)
+	p.refers = make(map[string]string)
 	p.indentStyles = make(map[string]IndentStyle)
 	for k, v := range defaultIndents {
 		p.indentStyles[k] = v
-- 
2.43.0


From c570f2d235cb06a31a6c0131d3d1a402b13cf08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:53 +0000
Subject: [PATCH 33/49] fix: sort ns entries by their first form, disregarding
 discarded ones

---
 format/transform.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 3a5c99d..6630d58 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -690,11 +690,20 @@ func getImportRequireSortKey(nodes []parse.Node) (key string, ok bool) {
 	if _, ok := nodes[0].(*parse.ReaderDiscardNode); ok {
 		return "", false
 	}
-	switch n := nodes[len(nodes)-1].(type) {
+	form, _ := nextForm(nodes, 0)
+	if form < 0 {
+		return "", false
+	}
+	switch n := nodes[form].(type) {
 	case *parse.SymbolNode:
 		return n.Val, true
 	case *parse.ListNode, *parse.VectorNode:
-		sym, ok := firstSemantic(n.Children()).(*parse.SymbolNode)
+		children := n.Children()
+		first, _ := nextForm(children, 0)
+		if first < 0 {
+			return "", false
+		}
+		sym, ok := children[first].(*parse.SymbolNode)
 		if !ok {
 			return "", false
 		}
-- 
2.43.0


From 2ecbd2ab108bf5ff7d426f6ac7c2319dae117774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:02 +0000
Subject: [PATCH 34/49] fix: leave a single blank line at the start of the file
 as well

---
 format/transform.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 6630d58..045d2ab 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -171,7 +171,7 @@ func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 		}
 	}
 	if transforms[TransformRemoveExtraBlankLines] {
-		t.Roots = removeExtraBlankLines(t.Roots)
+		t.Roots = removeExtraBlankLines(t.Roots, true)
 	}
 }
 
@@ -572,7 +572,7 @@ func removeExtraBlankLinesRec(n parse.Node) {
 		return
 	}
 	if len(nodes) > 2 {
-		nodes = removeExtraBlankLines(nodes)
+		nodes = removeExtraBlankLines(nodes, false)
 		n.SetChildren(nodes)
 	}
 	for _, node := range nodes {
@@ -580,9 +580,12 @@ func removeExtraBlankLinesRec(n parse.Node) {
 	}
 }
 
-func removeExtraBlankLines(nodes []parse.Node) []parse.Node {
+func removeExtraBlankLines(nodes []parse.Node, top bool) []parse.Node {
 	newNodes := make([]parse.Node, 0, len(nodes))
 	newlines := 0
+	if top {
+		newlines = 1 // A newline at the start of the file makes a blank line.
+	}
 	for _, node := range nodes {
 		if goclj.Newline(node) {
 			newlines++
-- 
2.43.0


From d8a344b5f3567baa70bffea889185430cca72aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 35/49] fix: compare the line breaks before the arms of an if
 only

---
 format/forms.go     | 22 ++++++++++++++++++
 format/transform.go | 54 +++++++++++++++------------------------------
 2 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/format/forms.go b/format/forms.go
index 11fd4e8..07b9360 100644
--- a/format/forms.go
+++ b/format/forms.go
@@ -49,6 +49,28 @@ func formLen(nodes []parse.Node) int {
 	return length
 }
 
+// A span is the range of nodes (from start up to end) that make up a form.
+type span struct{ start, end int }
+
+// formSpans returns where the forms of nodes are, including their metadata and
+// tags but not including discarded forms.
+func formSpans(nodes []parse.Node) []span {
+	var spans []span
+	for i := 0; i < len(nodes); {
+		start := i
+		switch nodes[i].(type) {
+		case *parse.NewlineNode, *parse.CommentNode:
+			i++
+		case *parse.ReaderDiscardNode:
+			i += formLen(nodes[i:])
+		default:
+			i += formLen(nodes[i:])
+			spans = append(spans, span{start, i})
+		}
+	}
+	return spans
+}
+
 // formIndexes returns the indexes of the nodes that are forms, disregarding
 // any metadata and tags before them, and that aren't discarded or (as b in
 // '^a b) part of another form.
diff --git a/format/transform.go b/format/transform.go
index 045d2ab..8363c0b 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -609,59 +609,41 @@ func enforceConsistentIfNewlinesRec(n parse.Node) {
 }
 
 func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
-	var arm0, arm1 int
-	var newlineBeforeArm0, newlineBeforeArm1 bool
-	var foundTest bool
-	i := 1
-	for ; i < len(nodes); i++ {
-		n := nodes[i]
-		if !goclj.Semantic(n) {
-			if goclj.Newline(n) {
-				newlineBeforeArm0 = true
-			}
-			continue
-		}
-		if !foundTest {
-			foundTest = true
-			continue
-		}
-		arm0 = i
-		break
-	}
-	i++
-	for ; i < len(nodes); i++ {
-		n := nodes[i]
-		if !goclj.Semantic(n) {
-			if goclj.Newline(n) {
-				newlineBeforeArm1 = true
-			}
-			continue
-		}
-		arm1 = i
-		break
-	}
-	if arm1 == 0 { // only one arm
+	spans := formSpans(nodes)
+	if len(spans) < 4 { // only one arm
 		return nodes
 	}
+	test, arm0, arm1 := spans[1], spans[2], spans[3]
+	newlineBeforeArm0 := hasNewline(nodes[test.end:arm0.start])
+	newlineBeforeArm1 := hasNewline(nodes[arm0.end:arm1.start])
 	if newlineBeforeArm0 && !newlineBeforeArm1 {
 		// (if x?
 		//   a b)
 		return append(
-			nodes[:arm1],
-			append([]parse.Node{new(parse.NewlineNode)}, nodes[arm1:]...)...,
+			nodes[:arm1.start],
+			append([]parse.Node{new(parse.NewlineNode)}, nodes[arm1.start:]...)...,
 		)
 	}
 	if !newlineBeforeArm0 && newlineBeforeArm1 {
 		// (if x? a
 		//   b)
 		return append(
-			nodes[:arm0],
-			append([]parse.Node{new(parse.NewlineNode)}, nodes[arm0:]...)...,
+			nodes[:arm0.start],
+			append([]parse.Node{new(parse.NewlineNode)}, nodes[arm0.start:]...)...,
 		)
 	}
 	return nodes
 }
 
+func hasNewline(nodes []parse.Node) bool {
+	for _, n := range nodes {
+		if goclj.Newline(n) {
+			return true
+		}
+	}
+	return false
+}
+
 // An importRequire is an import/require with associated comment nodes.
 type importRequire struct {
 	commentsAbove []*parse.CommentNode
-- 
2.43.0


From 21e162c718137c5d3dc9c28879ee1e5a42b4b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:33 +0000
Subject: [PATCH 36/49] fix: don't let blank lines change the indentation of an
 empty method

---
 format/format.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/format/format.go b/format/format.go
index 9087979..bfedfea 100644
--- a/format/format.go
+++ b/format/format.go
@@ -661,6 +661,10 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 		//      123)      ; 1
 		pairIdx int
 
+		// bodyIdx is the index of the node from which on IndentListBody
+		// and the like indent by one more than the first node.
+		bodyIdx = 1
+
 		// If we had a newline during a paired element, extraIndent
 		// indicates this so that we can remove the indent afterward.
 		extraIndent = false
@@ -668,6 +672,10 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 	if pairStartIdx > 0 {
 		pairIdx = -1
 	}
+	for len(nodes) > 0 && goclj.Newline(nodes[0]) &&
+		bodyIdx < len(nodes) && goclj.Newline(nodes[bodyIdx]) {
+		bodyIdx++
+	}
 	for i, n := range nodes {
 		if goclj.Newline(n) {
 			switch style {
@@ -677,7 +685,7 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 				IndentLetfn,
 				IndentFor,
 				IndentDeftype:
-				if i == 1 {
+				if i == bodyIdx {
 					w++
 				}
 			case indentBindings,
@@ -714,7 +722,7 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 			}
 		case IndentNormal, indentBindings:
 		default:
-			if i == 1 {
+			if i == bodyIdx {
 				w++
 			}
 		}
-- 
2.43.0


From 7060d6ac6c7acf867381927e092261fcbeb2cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:01 +0000
Subject: [PATCH 37/49] fix: recognize docstrings after metadata and comments
 and in bare ns forms

---
 format/docstring.go | 50 +++++++++++++++------------------------------
 1 file changed, 16 insertions(+), 34 deletions(-)

diff --git a/format/docstring.go b/format/docstring.go
index 0e3e766..602d401 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -12,47 +12,29 @@ func (p *Printer) markDocstrings(n parse.Node) {
 		return
 	}
 	nodes := n.Children()
-	if len(nodes) < 3 {
+	spans := formSpans(nodes)
+	if len(spans) < 3 {
 		return
 	}
-	if !goclj.Symbol(nodes[1]) {
+	name, _ := nextForm(nodes, spans[1].start)
+	if name < 0 || !goclj.Symbol(nodes[name]) {
 		return
 	}
-	for i, node := range nodes[2:] {
-		if goclj.Newline(node) {
-			continue
-		}
-		// Once we've found what looks like a docstring, we need to
-		// ensure that there is something else inside this form.
-		// Otherwise what we found is not a docstring:
-		//
-		//   (def s "this is not a docstring")
-		//   (def s "this is a docstring" "x")
-		//
-		if s, ok := node.(*parse.StringNode); ok && hasForm(nodes[2+i+1:]) {
-			p.docstrings[s] = struct{}{}
-		}
+	s, ok := nodes[spans[2].start].(*parse.StringNode)
+	if !ok {
 		return
 	}
-}
-
-// hasForm reports whether nodes contains a form; newlines, comments, and
-// discarded forms don't count.
-func hasForm(nodes []parse.Node) bool {
-	discard := 0 // how many forms are still to be discarded
-	for _, node := range nodes {
-		switch n := node.(type) {
-		case *parse.NewlineNode, *parse.CommentNode:
-		case *parse.ReaderDiscardNode:
-			discard += missingForms(n.Node)
-		default:
-			if discard == 0 {
-				return true
-			}
-			discard += missingForms(n) - 1
-		}
+	// Once we've found what looks like a docstring, we need to
+	// ensure that there is something else inside this form.
+	// Otherwise what we found is not a docstring:
+	//
+	//   (def s "this is not a docstring")
+	//   (def s "this is a docstring" "x")
+	//
+	// The string after the name of an ns is always a docstring.
+	if len(spans) > 3 || goclj.FnFormSymbol(n, "ns") {
+		p.docstrings[s] = struct{}{}
 	}
-	return false
 }
 
 func (p *Printer) alignDocstring(docstring string, w int) string {
-- 
2.43.0


From 0a2d44d31119a594963d4c4431a91f89ebc8a6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:38 +0000
Subject: [PATCH 38/49] fix: find the arglist and dispatch value after names
 with metadata

---
 format/transform.go | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 8363c0b..3a46ba9 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -523,45 +523,51 @@ func removeTrailingNewlines(n parse.Node) {
 	}
 }
 
+// nameEnd returns the index of the node after the name (with its metadata) of a
+// definition. It returns -1 if the name isn't on the first line.
+func nameEnd(nodes []parse.Node) int {
+	spans := formSpans(nodes)
+	if len(spans) < 2 || hasNewline(nodes[:spans[1].start]) {
+		return -1
+	}
+	return spans[1].end
+}
+
 func fixDefnArglist(defn parse.Node) {
 	nodes := defn.Children()
-	if len(nodes) < 5 {
+	i := nameEnd(nodes)
+	if i < 0 || i+2 >= len(nodes) {
 		return
 	}
-	if goclj.Newline(nodes[1]) || goclj.Comment(nodes[1]) {
-		return // There's no name to move it next to.
-	}
-	if !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {
+	if !goclj.Newline(nodes[i]) || goclj.Newline(nodes[i+2]) {
 		return
 	}
-	if !goclj.Vector(nodes[3]) {
+	if !goclj.Vector(nodes[i+1]) {
 		return
 	}
 	// Move the newline to be after the arglist.
-	nodes[2], nodes[3] = nodes[3], nodes[2]
+	nodes[i], nodes[i+1] = nodes[i+1], nodes[i]
 	defn.SetChildren(nodes)
 }
 
 func fixDefmethodDispatchVal(defmethod parse.Node) {
 	nodes := defmethod.Children()
-	if len(nodes) < 5 {
+	i := nameEnd(nodes)
+	if i < 0 || i+2 >= len(nodes) {
 		return
 	}
-	if goclj.Newline(nodes[1]) || goclj.Comment(nodes[1]) {
-		return // There's no name to move it next to.
-	}
-	if !goclj.Newline(nodes[2]) {
+	if !goclj.Newline(nodes[i]) {
 		return
 	}
-	if !goclj.Keyword(nodes[3]) {
+	if !goclj.Keyword(nodes[i+1]) {
 		return
 	}
 	// Move the dispatch-val up to the same line.
 	// Insert a newline after if there wasn't one already.
-	if goclj.Newline(nodes[4]) {
-		nodes = append(nodes[:2], nodes[3:]...)
+	if goclj.Newline(nodes[i+2]) {
+		nodes = append(nodes[:i], nodes[i+1:]...)
 	} else {
-		nodes[2], nodes[3] = nodes[3], nodes[2]
+		nodes[i], nodes[i+1] = nodes[i+1], nodes[i]
 	}
 	defmethod.SetChildren(nodes)
 }
-- 
2.43.0


From 078d347127a72ec4fd2281da61512bf35e261201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:05 +0000
Subject: [PATCH 39/49] fix: don't take the symbol / for one with a namespace

---
 format/unused.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/unused.go b/format/unused.go
index 15b2a27..b2f38f6 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -44,7 +44,8 @@ func findSymbols(roots []parse.Node) *symbolCache {
 			}
 		}
 		if name != "" {
-			if i := strings.IndexRune(name, '/'); i < 0 {
+			// The symbol / has no namespace.
+			if i := strings.IndexByte(name, '/'); i <= 0 {
 				syms.symbols[name] = struct{}{}
 			} else {
 				syms.namespaces[name[:i]] = struct{}{}
-- 
2.43.0


From a769363058050bfc23abb7963640ff4b40954e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:54 +0000
Subject: [PATCH 40/49] fix: find the packages of import lists that don't start
 with a plain symbol

---
 format/unused.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/format/unused.go b/format/unused.go
index b2f38f6..546a893 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -59,8 +59,9 @@ func findSymbols(roots []parse.Node) *symbolCache {
 		if goclj.FnFormSymbol(root, "ns") {
 			for _, n := range root.Children()[1:] {
 				if goclj.FnFormKeyword(n, ":import") {
-					for _, n1 := range n.Children()[1:] {
-						syms.findImports(n1)
+					entries := n.Children()
+					for _, i := range formIndexes(entries) {
+						syms.findImports(entries[i])
 					}
 				}
 			}
@@ -84,8 +85,8 @@ func (sc *symbolCache) findImports(n parse.Node) {
 		}
 	case *parse.ListNode, *parse.VectorNode:
 		nodes := n.Children()
-		if len(nodes) > 0 {
-			if sym, ok := nodes[0].(*parse.SymbolNode); ok {
+		if indexes := formIndexes(nodes); len(indexes) > 0 {
+			if sym, ok := nodes[indexes[0]].(*parse.SymbolNode); ok {
 				sc.imports[sym.Val] = struct{}{}
 			}
 		}
-- 
2.43.0


From 4d12671c27baefa5bf64938896f86511e84f46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 41/49] fix: remove unused requires written as (lib) when
 consolidating requires as well

---
 format/require.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/require.go b/format/require.go
index 300547e..0565756 100644
--- a/format/require.go
+++ b/format/require.go
@@ -318,12 +318,12 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 	rl.commentsBelow = append(rl.commentsBelow, lineComments...)
 }
 
-// removeUnused removes unused requires that aren't going to be rendered as they
-// were; removeUnusedRequires handles the others.
+// removeUnused removes unused requires. It leaves the options of those that are
+// going to be rendered as they were to removeUnusedRequires.
 func (rl *requireList) removeUnused(sc *symbolCache) {
 	var names []string
 	for _, name := range rl.names {
-		if r := rl.m[name]; r.orig != nil || !sc.unused(r) {
+		if !sc.unused(rl.m[name]) {
 			names = append(names, name)
 		}
 	}
-- 
2.43.0


From 84e060e23f4d175b5c2715082dd936c2527af04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:14 +0000
Subject: [PATCH 42/49] fix: disregard discarded import clauses when removing
 unused requires

---
 format/unused.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/unused.go b/format/unused.go
index 546a893..ee523e1 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -57,8 +57,9 @@ func findSymbols(roots []parse.Node) *symbolCache {
 	}
 	for _, root := range roots {
 		if goclj.FnFormSymbol(root, "ns") {
-			for _, n := range root.Children()[1:] {
-				if goclj.FnFormKeyword(n, ":import") {
+			clauses := root.Children()
+			for _, i := range formIndexes(clauses) {
+				if n := clauses[i]; goclj.FnFormKeyword(n, ":import") {
 					entries := n.Children()
 					for _, i := range formIndexes(entries) {
 						syms.findImports(entries[i])
-- 
2.43.0


From 16eec8b6464721773414d28bdd40bcfb2657c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:57 +0000
Subject: [PATCH 43/49] fix: report errors writing to standard output

---
 cljfmt/cljfmt.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index 5035238..b263456 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -215,7 +215,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 	}
 	if !bytes.Equal(buf1.Bytes(), buf2.Bytes()) {
 		if c.list {
-			fmt.Println(filename)
+			if _, err := fmt.Println(filename); err != nil {
+				return err
+			}
 		}
 		if c.write {
 			if err := ioutil.WriteFile(filename, buf2.Bytes(), perm); err != nil {
@@ -224,7 +226,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 		}
 	}
 	if !c.list && !c.write {
-		io.Copy(os.Stdout, &buf2)
+		if _, err := io.Copy(os.Stdout, &buf2); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 33f8639a27992ff8a0f89e2adcf24278067b5898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:58 +0000
Subject: [PATCH 44/49] fix: report configuration keys that aren't keywords

---
 cljfmt/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cljfmt/config.go b/cljfmt/config.go
index e06298a..387b302 100644
--- a/cljfmt/config.go
+++ b/cljfmt/config.go
@@ -42,7 +42,7 @@ func (c *config) parseDotConfig(r io.Reader, name string) error {
 		k := m.Nodes[i]
 		sym, ok := k.(*parse.KeywordNode)
 		if !ok {
-			continue
+			return unexpectedNodeError{k}
 		}
 		switch sym.Val {
 		case ":extensions":
-- 
2.43.0


From 8cf81077174c56655a4c6d9ba6268694be9892e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 45/49] fix: put the contents of a file back if it can't be
 written completely

---
 cljfmt/cljfmt.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index b263456..cce45d0 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -5,7 +5,6 @@ import (
 	"flag"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"log"
 	"os"
 	"path/filepath"
@@ -178,18 +177,12 @@ var (
 // processFile formats the given file.
 // If in == nil, the input is the file of the given name.
 func (c *config) processFile(filename string, in io.Reader) error {
-	var perm os.FileMode = 0644
 	if in == nil {
 		f, err := os.Open(filename)
 		if err != nil {
 			return err
 		}
 		defer f.Close()
-		stat, err := f.Stat()
-		if err != nil {
-			return err
-		}
-		perm = stat.Mode().Perm()
 		in = f
 	}
 
@@ -220,7 +213,7 @@ func (c *config) processFile(filename string, in io.Reader) error {
 			}
 		}
 		if c.write {
-			if err := ioutil.WriteFile(filename, buf2.Bytes(), perm); err != nil {
+			if err := writeFile(filename, buf1.Bytes(), buf2.Bytes()); err != nil {
 				return err
 			}
 		}
@@ -233,6 +226,29 @@ func (c *config) processFile(filename string, in io.Reader) error {
 	return nil
 }
 
+// writeFile replaces the contents (orig) of the given file with formatted.
+// If that fails, it puts the original contents back.
+func writeFile(filename string, orig, formatted []byte) error {
+	f, err := os.OpenFile(filename, os.O_WRONLY, 0)
+	if err != nil {
+		return err
+	}
+	n, err := f.Write(formatted)
+	if err == nil {
+		err = f.Truncate(int64(len(formatted)))
+	}
+	if err != nil {
+		if n > len(orig) {
+			n = len(orig)
+		}
+		f.WriteAt(orig[:n], 0)
+		f.Truncate(int64(len(orig)))
+		f.Close()
+		return err
+	}
+	return f.Close()
+}
+
 func (c *config) walkDir(path string) {
 	walk := func(path string, f os.FileInfo, err error) error {
 		if err != nil {
-- 
2.43.0


From 5a022074c358dc70c16b741423a34669848b8e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:03 +0000
Subject: [PATCH 46/49] fix: ignore discarded forms in the configuration

---
 cljfmt/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cljfmt/config.go b/cljfmt/config.go
index 387b302..b7c8310 100644
--- a/cljfmt/config.go
+++ b/cljfmt/config.go
@@ -20,7 +20,7 @@ func (e unexpectedNodeError) Error() string {
 func (c *config) parseDotConfig(r io.Reader, name string) error {
 	// We don't ask the parser for non-semantic nodes, so we don't need to
 	// prune out comments.
-	tree, err := parse.Reader(r, name, 0)
+	tree, err := parse.Reader(r, name, parse.IgnoreReaderDiscard)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 95ce0de5f38315d93b132671b5f3afce857804ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 47/49] fix: cljfmt skipped directories given as symbolic links

filepath.Walk doesn't follow a symbolic link, even if it is the root, so
nothing below a directory named through a link was processed, without any
error.
---
 cljfmt/cljfmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index cce45d0..4004bb6 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -266,6 +266,10 @@ func (c *config) walkDir(path string) {
 		}
 		return nil // not a Clojure file
 	}
+	if fi, err := os.Lstat(path); err == nil && fi.Mode()&os.ModeSymlink != 0 {
+		// Walk doesn't follow a symbolic link unless a separator follows.
+		path += string(filepath.Separator)
+	}
 	if err := filepath.Walk(path, walk); err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 860765fb295b8588283938e7ec83af0147c3608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 48/49] fix: cljfmt failed on links to directories named like
 Clojure files

A symbolic link to a directory isn't a directory for filepath.Walk, so it
was read as if it was a file and nothing after it was processed.
---
 cljfmt/cljfmt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index 4004bb6..84306ea 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -262,6 +262,9 @@ func (c *config) walkDir(path string) {
 			return nil
 		}
 		if _, ok := c.extensions[filepath.Ext(name)]; ok {
+			if fi, err := os.Stat(path); err == nil && fi.IsDir() {
+				return nil // a symbolic link to a directory
+			}
 			return c.processFile(path, nil)
 		}
 		return nil // not a Clojure file
-- 
2.43.0


From 2324866c3e33526aecb5acfdbc7c1fe1786ad84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 49/49] fix: keep bytes that aren't valid UTF-8 as they are

---
 parse/lex.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index bd0d4e9..5365d80 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"unicode"
+	"unicode/utf8"
 )
 
 // Pos is a position in source text.
@@ -128,7 +129,8 @@ type lexer struct {
 	lastPos *Pos // the position before the most recent next() call
 	tokens  []token // tokens that were scanned but not consumed yet
 	state   stateFn // the next state, or nil once scanning has ended
-	val     []rune  // the literal contents of the token
+	val     []byte  // the literal contents of the token
+	width   int     // the length in val of the rune read by the most recent next() call
 }
 
 func lex(name string, input *bufio.Reader) *lexer {
@@ -160,19 +162,41 @@ func (l *lexer) next() (r rune, eof bool) {
 		l.pos.Line++
 		l.pos.Col = 1
 	}
-	l.val = append(l.val, r)
+	if r == utf8.RuneError && w == 1 {
+		// Keep the byte as it is although it isn't valid UTF-8.
+		l.val = append(l.val, l.lastByte())
+	} else {
+		l.val = append(l.val, string(r)...)
+	}
+	l.width = w
 	return r, false
 }
 
+// lastByte returns the last byte of the input that was read.
+func (l *lexer) lastByte() byte {
+	if err := l.input.UnreadByte(); err != nil {
+		panic("should not happen")
+	}
+	b, err := l.input.ReadByte()
+	if err != nil {
+		panic("should not happen")
+	}
+	return b
+}
+
 func (l *lexer) back() {
 	if l.lastPos == nil {
 		panic("back() call not preceded by a next()")
 	}
-	if err := l.input.UnreadRune(); err != nil {
+	unread := l.input.UnreadRune
+	if l.width == 1 {
+		unread = l.input.UnreadByte // the byte may have been read as such
+	}
+	if err := unread(); err != nil {
 		panic("should not happen")
 	}
 	l.pos = l.lastPos
-	l.val = l.val[:len(l.val)-1]
+	l.val = l.val[:len(l.val)-l.width]
 	l.lastPos = nil
 }
 
-- 
2.43.0

