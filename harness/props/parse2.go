package props

import (
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"bufio"
	"bytes"
	"context"
	"errors"

	"github.com/cespare/goclj"
	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
	"verif/refclj"
)

// ---- C09: parse options

// filter is the reference for the effect of the parse options.
type filter struct {
	nonSemantic, ignoreComment, ignoreDiscard bool
	undecided                                 string
}

type nodeQueue []*refclj.Node

func (q *nodeQueue) pop() *refclj.Node {
	if len(*q) == 0 {
		return nil
	}
	n := (*q)[0]
	*q = (*q)[1:]
	return n
}

func (q *nodeQueue) push(n *refclj.Node) { *q = append(nodeQueue{n}, *q...) }

func (f *filter) seq(nodes []*refclj.Node) []*refclj.Node {
	q := append(nodeQueue(nil), nodes...)
	var out []*refclj.Node
	for {
		n := q.pop()
		if n == nil {
			return out
		}
		switch {
		case n.Layout():
			if f.nonSemantic {
				out = append(out, n)
			}
		case n.Kind == refclj.Discard && f.ignoreDiscard:
			q.push(n.Kids[0])
			f.skipForm(&q)
		case f.ignoreComment && f.commentForm(n):
		default:
			out = append(out, f.node(n, &q))
		}
	}
}

// skipForm drops one whole form.
func (f *filter) skipForm(q *nodeQueue) {
	n := f.nextReal(q)
	switch {
	case n == nil:
		f.undecided = "marker without a form"
	case n.Kind == refclj.Meta:
		q.push(n.Kids[0])
		f.skipForm(q)
		f.skipForm(q)
	case n.Kind == refclj.Tag:
		f.skipForm(q)
	case n.IsPrefix():
		q.push(n.Kids[0])
		f.skipForm(q)
	}
}

// nextReal gives the next node that is not layout and not discarded.
func (f *filter) nextReal(q *nodeQueue) *refclj.Node {
	for {
		n := q.pop()
		if n == nil {
			return nil
		}
		if n.Layout() {
			continue
		}
		if n.Kind == refclj.Discard && f.ignoreDiscard {
			q.push(n.Kids[0])
			f.skipForm(q)
			continue
		}
		return n
	}
}

func (f *filter) node(n *refclj.Node, q *nodeQueue) *refclj.Node {
	c := *n
	switch {
	case n.IsSeq():
		c.Kids = f.seq(n.Kids)
	case n.IsPrefix():
		if f.ignoreDiscard && n.Kids[0].Kind == refclj.Discard {
			q.push(n.Kids[0])
			k := f.nextReal(q)
			if k == nil {
				f.undecided = "marker without a form"
				return &c
			}
			c.Kids = []*refclj.Node{f.node(k, q)}
		} else {
			c.Kids = []*refclj.Node{f.node(n.Kids[0], q)}
		}
	}
	return &c
}

func (f *filter) commentForm(n *refclj.Node) bool {
	if n.Kind != refclj.List {
		return false
	}
	for _, k := range n.Kids {
		if k.Layout() {
			continue
		}
		if k.Kind == refclj.Discard {
			f.undecided = "discard before the head of a list"
			return false
		}
		return k.Kind == refclj.Sym && k.Text == "comment"
	}
	return false
}

func checkC09(c interface{}, o *core.Out) {
	src := string(c.(*TextCase).Text)
	r := refclj.Parse(src)
	if r.Verdict == refclj.Unspecified {
		o.Skip(r.Reason)
		return
	}
	o.Label(r.Verdict.String())
	if r.Verdict == refclj.Accept {
		if _, ok := refclj.Forms(r.Roots); !ok {
			o.Skip("marker without a form")
			return
		}
		hasComment, hasDiscard := false, false
		refclj.Walk(r.Roots, func(n, _ *refclj.Node) {
			f := &filter{}
			hasComment = hasComment || f.commentForm(n)
			hasDiscard = hasDiscard || n.Kind == refclj.Discard
		})
		o.LabelIf(hasComment, "has comment form")
		o.LabelIf(hasDiscard, "has discard")
		o.NonTrivial = hasComment || hasDiscard
	}
	for opts := parse.ParseOpts(0); opts < 8; opts++ {
		tree, err := parseText(src, opts)
		if (err == nil) != (r.Verdict == refclj.Accept) {
			o.Fail("with options %d the %sed text gives error %v\n%s", opts, r.Verdict, err, show(src))
			return
		}
		if err != nil {
			continue
		}
		f := &filter{
			nonSemantic:   opts&parse.IncludeNonSemantic != 0,
			ignoreComment: opts&parse.IgnoreCommentForm != 0,
			ignoreDiscard: opts&parse.IgnoreReaderDiscard != 0,
		}
		want := refclj.Dump(f.seq(r.Roots))
		if f.undecided != "" {
			o.Label("undecided: " + f.undecided)
			continue
		}
		if got := refclj.Dump(convertAll(tree.Roots)); got != want {
			o.Fail("options %03b (ignore-discard, ignore-comment, non-semantic)\n want %s\n got  %s\n%s", int(opts), want, got, show(src))
			return
		}
	}
}

// ---- C10: parent links

type LinkOp struct {
	Kind    string // reorder, remove, move, fresh, root, replace
	A, B, C int
}

type LinkCase struct {
	Text Src
	Ops  []LinkOp
}

func canSetChildren(n parse.Node) bool {
	switch n.(type) {
	case *parse.ListNode, *parse.VectorNode, *parse.MapNode, *parse.SetNode, *parse.FnLiteralNode,
		*parse.ReaderCondNode, *parse.ReaderCondSpliceNode:
		return true
	}
	return false
}

func isWrapper(n parse.Node) bool {
	switch n.(type) {
	case *parse.DerefNode, *parse.ReaderDiscardNode, *parse.ReaderEvalNode, *parse.MetadataNode, *parse.QuoteNode,
		*parse.SyntaxQuoteNode, *parse.UnquoteNode, *parse.UnquoteSpliceNode:
		return true
	}
	return false
}

func checkC10(c interface{}, o *core.Out) {
	lc := c.(*LinkCase)
	src := string(lc.Text)
	if _, ok := read(src, o); !ok {
		return
	}
	tree, err := parseText(src, parse.IncludeNonSemantic)
	if err != nil {
		o.Skip("rejected") // decided by C07
		return
	}
	roots := append([]parse.Node(nil), tree.Roots...)
	model := map[parse.Node]parse.Node{} // parent of every node seen
	kids := map[parse.Node][]parse.Node{}
	var all []parse.Node
	var learn func(n, p parse.Node)
	learn = func(n, p parse.Node) {
		model[n] = p
		all = append(all, n)
		kids[n] = append([]parse.Node(nil), n.Children()...)
		for _, k := range n.Children() {
			learn(k, n)
		}
	}
	for _, n := range roots {
		learn(n, nil)
	}
	verify := func(when string) {
		for i, n := range all {
			if n.Parent() != model[n] {
				o.Fail("%s: parent of node %d (%s) is %v, want %v\n%s\nops %v", when, i, n, n.Parent(), model[n], show(src), lc.Ops)
				return
			}
			got := n.Children()
			if len(got) != len(kids[n]) {
				o.Fail("%s: node %d (%s) has %d children, want %d\n%s", when, i, n, len(got), len(kids[n]), show(src))
				return
			}
			for j := range got {
				if got[j] != kids[n][j] {
					o.Fail("%s: child %d of node %d (%s) is not the node that was set", when, j, i, n)
					return
				}
			}
		}
	}
	verify("after parsing")
	if o.Failed() {
		return
	}
	// setAs gives n the children to; slice holds the same nodes.
	setAs := func(n parse.Node, to, slice []parse.Node) {
		for _, k := range kids[n] {
			model[k] = nil
		}
		kids[n] = append([]parse.Node(nil), to...)
		for _, k := range to {
			model[k] = n
		}
		n.SetChildren(slice)
	}
	set := func(n parse.Node, to []parse.Node) {
		setAs(n, to, append([]parse.Node(nil), to...))
	}
	var spare [][]parse.Node // slices of children that nodes had
	under := func(n, anc parse.Node) bool {
		for ; n != nil; n = model[n] {
			if n == anc {
				return true
			}
		}
		return false
	}
	without := func(list []parse.Node, x parse.Node) []parse.Node {
		var out []parse.Node
		for _, n := range list {
			if n != x {
				out = append(out, n)
			}
		}
		return out
	}
	insert := func(list []parse.Node, x parse.Node, at int) []parse.Node {
		at %= len(list) + 1
		out := append([]parse.Node(nil), list[:at]...)
		out = append(out, x)
		return append(out, list[at:]...)
	}
	steps := 0
	for _, op := range lc.Ops {
		var seqs []parse.Node
		for _, n := range all {
			if canSetChildren(n) {
				seqs = append(seqs, n)
			}
		}
		if len(seqs) == 0 {
			break
		}
		a := seqs[op.A%len(seqs)]
		b := seqs[op.B%len(seqs)]
		switch op.Kind {
		case "reorder":
			l := append([]parse.Node(nil), kids[a]...)
			if len(l) < 2 {
				continue
			}
			k := 1 + op.C%(len(l)-1)
			set(a, append(append([]parse.Node(nil), l[k:]...), l[:k]...))
		case "remove":
			if len(kids[a]) == 0 {
				continue
			}
			x := kids[a][op.C%len(kids[a])]
			set(a, without(kids[a], x))
		case "clear":
			if l := a.Children(); len(l) > 0 {
				spare = append(spare, l)
			}
			set(a, nil)
		case "spare":
			// a slice of children that a node had earlier
			if len(spare) == 0 {
				continue
			}
			l := spare[op.C%len(spare)]
			ok := true
			for _, k := range l {
				ok = ok && model[k] == nil && !under(b, k)
			}
			if !ok {
				continue
			}
			setAs(b, append([]parse.Node(nil), l...), l)
		case "move":
			if len(kids[a]) == 0 {
				continue
			}
			x := kids[a][op.C%len(kids[a])]
			if under(b, x) {
				continue
			}
			set(a, without(kids[a], x))
			set(b, insert(kids[b], x, op.C))
		case "swap":
			// exchange the children of two nodes, neither inside the other
			if a == b || under(a, b) || under(b, a) {
				continue
			}
			la, lb := kids[a], kids[b]
			if op.C%2 == 0 {
				// with the very slices the nodes had
				sa, sb := a.Children(), b.Children()
				setAs(a, nil, nil)
				setAs(b, la, sa)
				setAs(a, lb, sb)
				break
			}
			set(a, nil)
			set(b, la)
			set(a, lb)
		case "give":
			// the children of one node become those of another
			if a == b || under(b, a) {
				continue
			}
			la, sa := kids[a], a.Children()
			setAs(a, nil, nil)
			setAs(b, la, sa)
			if op.C%2 == 0 && len(spare) > 0 {
				l := spare[op.C%len(spare)]
				ok := true
				for _, k := range l {
					ok = ok && model[k] == nil && !under(a, k)
				}
				if ok {
					setAs(a, append([]parse.Node(nil), l...), l)
				}
			}
		case "fresh":
			t2, err := parseText("(p [q]) ^m 'r", parse.IncludeNonSemantic)
			if err != nil || len(t2.Roots) == 0 {
				continue
			}
			x := t2.Roots[op.C%len(t2.Roots)]
			learn(x, nil)
			set(b, insert(kids[b], x, op.C))
		case "reattach":
			// a node that was removed earlier goes back somewhere
			var free []parse.Node
			for _, n := range all {
				if model[n] == nil && !under(b, n) {
					free = append(free, n)
				}
			}
			if len(free) == 0 {
				continue
			}
			set(b, insert(kids[b], free[op.C%len(free)], op.A))
		case "same":
			// the children a node has already are set again
			var ps []parse.Node
			for _, n := range all {
				if len(kids[n]) > 0 && (canSetChildren(n) || isWrapper(n)) {
					ps = append(ps, n)
				}
			}
			if len(ps) == 0 {
				continue
			}
			n := ps[op.A%len(ps)]
			l := n.Children()
			if canSetChildren(n) && op.B%2 == 0 {
				// or only some of them: the slice is a part of the node's own
				k := op.C % len(l)
				if op.B%4 == 0 {
					l = l[k:]
				} else {
					l = l[:k]
				}
			}
			list := append([]parse.Node(nil), l...)
			for _, k := range kids[n] {
				model[k] = nil
			}
			for _, k := range list {
				model[k] = n
			}
			kids[n] = list
			n.SetChildren(l)
		case "wrap":
			// replace the child of a prefix
			var ws []parse.Node
			for _, n := range all {
				if isWrapper(n) {
					ws = append(ws, n)
				}
			}
			if len(ws) == 0 {
				continue
			}
			w := ws[op.A%len(ws)]
			var free []parse.Node
			for _, n := range all {
				if model[n] == nil && !under(w, n) {
					free = append(free, n)
				}
			}
			if len(free) == 0 {
				continue
			}
			set(w, []parse.Node{free[op.C%len(free)]})
			o.Label("prefix child replaced")
		}
		steps++
		o.Label("op " + op.Kind)
		verify("after " + op.Kind)
		if o.Failed() {
			return
		}
	}
	o.NonTrivial = steps >= 2 && len(all) >= 4
}

// ---- C11: I/O faults

// ioErrors are the errors that readers and writers fail with, the first one by
// default. None of them is the end of the text.
var ioErrors = []error{
	errors.New("injected failure"),
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	io.ErrShortBuffer,
	os.ErrClosed,
	os.ErrNotExist,
	syscall.EINTR,
	syscall.EAGAIN,
	syscall.EIO,
	syscall.EPIPE,
	context.DeadlineExceeded,
	timeoutError{},
	&os.PathError{Op: "read", Path: "x.clj", Err: syscall.EISDIR},
	bufio.ErrTooLong,
	errors.New("EOF while reading from the server"),
	errors.New(""),
}

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

type IOCase struct {
	Text   Src
	Repeat int   // the text is repeated, to be larger than buffers
	Chunks []int // sizes of reads, repeated; 0 is a read without data
	Fault  int   // -1: no read failure; otherwise the offset (in per mille of the text)
	Late   bool  // the error comes in a call of its own, not with the last data
	WFault int   // -1: no write failure; otherwise the offset (in per mille of the output)
	Short  bool  // short write instead of an error
	Err    int   `json:",omitempty"` // which of ioErrors
	Resume bool  `json:",omitempty"` // the reader and the writer fail only once
	File   bool
}

type chunkReader struct {
	data   []byte
	chunks []int
	i      int
	err    error
	late   bool
	rest   []byte // what can be read after the failure
	failed bool
}

func (r *chunkReader) fail() error {
	err := r.err
	r.failed = true
	if r.rest != nil {
		r.data, r.rest, r.err = r.rest, nil, io.EOF
	}
	return err
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, r.fail()
	}
	n := len(p)
	if len(r.chunks) > 0 {
		n = r.chunks[r.i%len(r.chunks)]
		r.i++
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && !r.late {
		return n, r.fail()
	}
	return n, nil
}

type faultWriter struct {
	buf    bytes.Buffer
	limit  int
	short  bool
	failed bool
	resume bool // fail only once
	err    error
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.limit < 0 || w.buf.Len()+len(p) <= w.limit && !w.failed || w.failed && w.resume {
		return w.buf.Write(p)
	}
	w.failed = true
	n := w.limit - w.buf.Len()
	if n < 0 {
		n = 0
	}
	w.buf.Write(p[:n])
	if w.short && n < len(p) {
		return n, nil
	}
	return n, w.err
}

func checkC11(c interface{}, o *core.Out) {
	ic := c.(*IOCase)
	text := string(ic.Text)
	errInjected := ioErrors[ic.Err%len(ioErrors)]
	if ic.Repeat > 1 {
		text = strings.Repeat(text+"\n", ic.Repeat)
	}
	r := refclj.Parse(text)
	if r.Verdict == refclj.Unspecified {
		o.Skip(r.Reason)
		return
	}
	before := runtime.NumGoroutine()
	settle := func(what string) {
		for i := 0; ; i++ {
			if runtime.NumGoroutine() <= before {
				return
			}
			if i > 2000 {
				o.Fail("%s left %d goroutines running\n%s", what, runtime.NumGoroutine()-before, show(shortText(text)))
				return
			}
			if i < 50 {
				runtime.Gosched()
			} else {
				time.Sleep(5 * time.Millisecond)
			}
		}
	}
	ref, refErr := parse.Reader(strings.NewReader(text), "test.clj", parse.IncludeNonSemantic)
	settle("a parse")
	if (refErr == nil) != (r.Verdict == refclj.Accept) {
		o.Skip("acceptance differs") // decided by C07
		return
	}
	o.Label(r.Verdict.String())
	o.LabelIf(len(text) > 4096, "larger than a buffer")
	if ic.File && !o.Failed() {
		checkFile(text, ref, refErr, o)
		settle("parsing a file")
	}
	if o.Failed() {
		return
	}

	// chunking
	cr := &chunkReader{data: []byte(text), chunks: ic.Chunks, err: io.EOF, late: ic.Late}
	got, err := parse.Reader(cr, "test.clj", parse.IncludeNonSemantic)
	settle("a chunked parse")
	if d := sameParse(ref, refErr, got, err); d != "" {
		o.Fail("reading in chunks %v changes the result: %s\n%s", ic.Chunks, d, show(shortText(text)))
		return
	}

	// a read failure
	if ic.Fault >= 0 {
		at := len(text) * ic.Fault / 1000
		cr := &chunkReader{data: []byte(text[:at]), chunks: ic.Chunks, err: errInjected, late: ic.Late}
		if ic.Resume && at < len(text) {
			cr.rest = []byte(text[at:])
			o.Label("read failure, then more data")
		}
		got, err := parse.Reader(cr, "test.clj", parse.IncludeNonSemantic)
		settle("a failed parse")
		o.Label("read failure")
		o.NonTrivial = len(text) > 3
		switch {
		case err == nil:
			o.Fail("the reader failed at offset %d of %d but parsing succeeded with %s\n%s", at, len(text), refclj.Dump(convertAll(got.Roots)), show(shortText(text)))
		case got != nil:
			o.Fail("the reader failed at offset %d but parsing returned a tree along with %v", at, err)
		case r.Verdict == refclj.Accept && !strings.Contains(err.Error(), errInjected.Error()):
			o.Fail("the reader failed at offset %d of %d with %q, but parsing returned %q\n%s", at, len(text), errInjected, err, show(shortText(text)))
		}
		if o.Failed() {
			return
		}
	}

	// a write failure
	if ic.WFault >= 0 && refErr == nil {
		var full bytes.Buffer
		if err := format.NewPrinter(&full).PrintTree(ref); err != nil {
			o.Skip("printing failed") // decided by C06
			return
		}
		if full.Len() == 0 {
			return
		}
		again, err := parseText(text, parse.IncludeNonSemantic)
		if err != nil {
			o.Fail("second parse of the same text fails: %v", err)
			return
		}
		at := (full.Len() - 1) * ic.WFault / 1000
		fw := &faultWriter{limit: at, short: ic.Short, err: errInjected, resume: ic.Resume}
		err = format.NewPrinter(fw).PrintTree(again)
		settle("a failed print")
		o.Label("write failure")
		o.LabelIf(ic.Short, "short write")
		o.LabelIf(at > 4096, "write failure after the first buffer")
		o.NonTrivial = true
		switch {
		case err == nil:
			o.Fail("the writer failed at offset %d of %d but PrintTree succeeded\n%s", at, full.Len(), show(shortText(text)))
		case ic.Short && err.Error() != io.ErrShortWrite.Error() || !ic.Short && !strings.Contains(err.Error(), errInjected.Error()):
			o.Fail("the writer failed at offset %d but PrintTree returned %q", at, err)
		case !strings.HasPrefix(full.String(), fw.buf.String()):
			o.Fail("what was written before the failure is not a prefix of the output\n%q\n%q", fw.buf.String(), full.String())
		case fw.buf.Len() != at:
			o.Fail("%d bytes were written before the failure at %d", fw.buf.Len(), at)
		}
	}
}

func shortText(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// openFile reports whether a descriptor of this process refers to the file.
func openFile(name string) bool {
	fds, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		return false
	}
	want, err := os.Stat(name)
	if err != nil {
		return false
	}
	for _, fd := range fds {
		if st, err := os.Stat("/proc/self/fd/" + fd.Name()); err == nil && os.SameFile(st, want) {
			return true
		}
	}
	return false
}

func checkFile(text string, ref *parse.Tree, refErr error, o *core.Out) {
	f, err := ioutil.TempFile("", "io*.clj")
	if err != nil {
		panic(err)
	}
	name := f.Name()
	defer os.Remove(name)
	f.WriteString(text)
	f.Close()
	// A file nobody closes is closed when it is collected: not while we look.
	gc := debug.SetGCPercent(-1)
	got, err := parse.File(name, parse.IncludeNonSemantic)
	open := openFile(name)
	debug.SetGCPercent(gc)
	o.Label("file")
	if open {
		o.Fail("the file is still open after parse.File returned (error: %v)", err)
	}
	if (err == nil) != (refErr == nil) {
		o.Fail("parse.File returns %v for a text for which parse.Reader returns %v", err, refErr)
	} else if err == nil && refclj.Dump(convertAll(got.Roots)) != refclj.Dump(convertAll(ref.Roots)) {
		o.Fail("parse.File and parse.Reader differ\n%s", show(shortText(text)))
	} else if err != nil && got != nil {
		o.Fail("parse.File returns a tree along with %v", err)
	}
	if t, err := parse.File(name+".missing", parse.IncludeNonSemantic); err == nil || t != nil {
		o.Fail("parse.File of a missing file returns %v, %v", t, err)
	}
	if t, err := parse.File(os.TempDir(), parse.IncludeNonSemantic); err == nil || t != nil {
		o.Fail("parse.File of a directory returns %v, %v", t, err)
	}
}

func sameParse(a *parse.Tree, aerr error, b *parse.Tree, berr error) string {
	if (aerr == nil) != (berr == nil) || aerr != nil && aerr.Error() != berr.Error() {
		return fmt.Sprintf("errors %v and %v", aerr, berr)
	}
	if aerr != nil {
		if a != nil || b != nil {
			return "a tree along with an error"
		}
		return ""
	}
	da, db := dumpPos(a.Roots), dumpPos(b.Roots)
	if da != db {
		return fmt.Sprintf("trees\n%s\n%s", da, db)
	}
	return ""
}

func dumpPos(ns []parse.Node) string {
	var b strings.Builder
	walkNodes(ns, func(n parse.Node) { fmt.Fprintf(&b, "%s@%s ", n, n.Position()) })
	return refclj.Dump(convertAll(ns)) + b.String()
}

// ---- C26: predicates

type PredCase struct {
	Text  Src
	Names []string
}

// nearNames gives lists of names with and close to the one at the head of n.
func nearNames(n *refclj.Node, others []string) [][]string {
	if n.Kind != refclj.List || len(n.Kids) == 0 {
		return nil
	}
	h := n.Kids[0].Text
	if h == "" {
		return nil
	}
	bare := strings.TrimLeft(h, ":")
	near := []string{h + "x", h[:len(h)-1], strings.ToUpper(h), strings.ToLower(h), strings.Title(h), bare, ":" + bare, "::" + bare, " " + h, h + " ", bare[strings.LastIndex(bare, "/")+1:], "clojure.core/" + bare, "x/" + bare}
	var far []string
	for _, x := range near {
		if x != h {
			far = append(far, x)
		}
	}
	return [][]string{{h}, far, append(append([]string{}, far...), h), append(append([]string{}, others...), h), append([]string{h}, others...), {"", h}, {h, h}, {""}}
}

func checkC26(c interface{}, o *core.Out) {
	pc := c.(*PredCase)
	tree, err := parseText(string(pc.Text), parse.IncludeNonSemantic)
	if err != nil {
		o.Skip("rejected")
		return
	}
	nodes := 0
	try := func(n parse.Node) {
		nodes++
		r := convert(n)
		var tried []string
		check := func(name string, got, want bool) {
			if got != want {
				o.Fail("%s(%s, %q) = %v\n%s", name, n, tried, got, show(string(pc.Text)))
			}
		}
		check("Symbol", goclj.Symbol(n), r.Kind == refclj.Sym)
		check("Newline", goclj.Newline(n), r.Kind == refclj.Newline)
		check("Vector", goclj.Vector(n), r.Kind == refclj.Vec)
		check("Keyword", goclj.Keyword(n), r.Kind == refclj.Kw)
		check("Comment", goclj.Comment(n), r.Kind == refclj.Comment)
		check("Semantic", goclj.Semantic(n), !(r.Kind == refclj.Newline || r.Kind == refclj.Comment || r.Kind == refclj.Meta || r.Kind == refclj.Tag))
		first := func(k refclj.Kind, names []string) bool {
			if r.Kind != refclj.List || len(r.Kids) == 0 || r.Kids[0].Kind != k {
				return false
			}
			for _, nm := range names {
				if nm == r.Kids[0].Text {
					return true
				}
			}
			return len(names) == 0
		}
		for _, names := range append(nearNames(r, pc.Names), nil, pc.Names, pc.Names[:len(pc.Names)/2]) {
			s, k := first(refclj.Sym, names), first(refclj.Kw, names)
			tried = names
			check("FnFormSymbol", goclj.FnFormSymbol(n, names...), s)
			check("FnFormKeyword", goclj.FnFormKeyword(n, names...), k)
			o.LabelIf(s && names != nil, "symbol form with a given name")
			o.LabelIf(k && names != nil, "keyword form with a given name")
		}
	}
	walkNodes(tree.Roots, try)
	// nodes that did not come from the parser
	try(&parse.ListNode{})
	try(&parse.ListNode{Nodes: []parse.Node{&parse.SymbolNode{Val: "a"}}})
	try(&parse.VectorNode{Nodes: []parse.Node{&parse.SymbolNode{Val: "a"}}})
	try(&parse.ListNode{Nodes: []parse.Node{&parse.NewlineNode{}, &parse.SymbolNode{Val: "a"}}})
	o.NonTrivial = nodes >= 8
}

func init() {
	core.Register(&core.Prop{
		ID: "C09", Quick: 350000, Thorough: 2500000, New: newText, Check: checkC09,
		Gen: func(t *rapid.T) interface{} {
			if gen.Pct(t, 25) {
				return genText(t)
			}
			return &TextCase{Src(gen.Source(t, func(p *gen.Profile) {
				p.Discard = 10 + gen.Int(t, 20)
				p.Prefix += 8
				p.Meta += 4
				p.Heads = []string{"comment", "comment", "comment", "comment", "comments", "commen", "Comment", "comment*", "clojure.core/comment", "my/comment", "core/comment", "comment/x", "-comment", "comment-", "COMMENT", ".comment", "comment.", "_", "do"}
				p.Strange = true
			}))}
		},
		Rule: "generated files rich in discards, comment forms, prefixes and metadata, and wild texts; all eight option sets compared with a filter over the reference tree. " +
			"Non-trivial: contains a discard or comment form.",
		Assumptions: []string{"a (comment ...) list whose first element is a discarded form is not judged"},
	})
	core.Register(&core.Prop{
		ID: "C10", Quick: 400000, Thorough: 1200000, New: func() interface{} { return new(LinkCase) }, Check: checkC10,
		Gen: func(t *rapid.T) interface{} {
			c := &LinkCase{Text: Src(gen.Source(t, func(p *gen.Profile) { p.Size = 5 + gen.Int(t, 25); p.NS = 10 }))}
			n := gen.Int(t, 12)
			if gen.Pct(t, 3) {
				n = gen.Int(t, 120)
				if k := gen.Threshold(t, 300); k > 0 {
					n = k + 3
				}
			}
			for i := 0; i < n; i++ {
				c.Ops = append(c.Ops, LinkOp{
					Kind: gen.Pick(t, "reorder", "remove", "move", "move", "swap", "fresh", "reattach", "clear", "same", "same", "wrap", "wrap", "give", "spare"),
					A:    gen.Int(t, 60), B: gen.Int(t, 60), C: gen.Int(t, 20),
				})
			}
			return c
		},
		Rule:        "trees of generated files and histories of up to 12 (seldom 120) child replacements (move, remove, reorder, swap, insert, replace), nodes being detached before they are attached; parents and children compared with a model after every step. Non-trivial: at least two effective steps and four nodes.",
		Assumptions: []string{"a node is removed from its old parent before it is given to another, as the property's 'one place at a time' says"},
	})
	core.Register(&core.Prop{
		ID: "C11", Quick: 120000, Thorough: 600000, New: func() interface{} { return new(IOCase) }, Check: checkC11,
		Gen: func(t *rapid.T) interface{} {
			c := &IOCase{Fault: -1, WFault: -1}
			if gen.Pct(t, 70) {
				c.Err = gen.Int(t, len(ioErrors))
			}
			if gen.Pct(t, 25) {
				c.Text = Src(gen.Wild(t))
			} else {
				c.Text = Src(gen.Source(t, nil))
			}
			if gen.Pct(t, 15) {
				c.Repeat = 10 + gen.Int(t, 60)
			}
			for i, n := 0, gen.Int(t, 4); i < n; i++ {
				c.Chunks = append(c.Chunks, []int{1, 2, 3, 5, 8, 64, 4096, 0}[gen.Int(t, 8)])
			}
			nonzero := false
			for _, n := range c.Chunks {
				nonzero = nonzero || n > 0
			}
			if !nonzero {
				c.Chunks = append(c.Chunks, 1+gen.Int(t, 7))
			}
			if gen.Pct(t, 70) {
				c.Fault = gen.Int(t, 1001)
			}
			c.Late = gen.Pct(t, 50)
			if gen.Pct(t, 60) {
				c.WFault = gen.Int(t, 1001)
				c.Short = gen.Pct(t, 25)
			}
			c.File = gen.Pct(t, 5)
			c.Resume = gen.Pct(t, 35)
			return c
		},
		Rule:        "generated texts, some larger than the buffers, read in generated chunk sizes (also empty reads), with a read failure at a generated offset (with or after the last data, for good or once) and a write failure or short write at a generated offset. Non-trivial: a failure was injected.",
		Assumptions: []string{"a parse error takes precedence over a later read failure only for texts that are malformed anyway"},
	})
	core.Register(&core.Prop{
		ID: "C26", Quick: 300000, Thorough: 2000000, New: func() interface{} { return new(PredCase) }, Check: checkC26,
		Gen: func(t *rapid.T) interface{} {
			c := &PredCase{Text: Src(gen.Source(t, func(p *gen.Profile) { p.Dangling = true }))}
			for i, n := 0, gen.Int(t, 5); i < n; i++ {
				c.Names = append(c.Names, gen.Pick(t, "foo", "ns", ":require", "bar", "a/b", ":a", "def", "", "defn", ":import", "if", ":foo", "x", "str", "let", "f"))
			}
			return c
		},
		Rule: "every node of generated files (and a few nodes built by hand) against each predicate with no names, some names and more names. Non-trivial: at least eight nodes.",
	})
}
