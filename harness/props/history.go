package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
)

// ---- C05: output depends on source and options only

// HistCase is a set of texts and option sets, and what is done with them.
type HistCase struct {
	Texts []Src
	Opts  []HistOpts
	// Items pair a text with options.
	Items []HistItem
	// Reused are the items formatted one after another with a single printer.
	Reused []int
	// Steps are unrelated things done before items are formatted again.
	Steps []HistStep
	// Rounds is how many times all items are formatted at the same time.
	Rounds int
	// Procs says that each item is also formatted in a process of its own, to
	// be compared with processes that format all of them.
	Procs bool `json:",omitempty"`
	// Names are the names that the files have, in turn: a different one each
	// time the same text is formatted.
	Names []string `json:",omitempty"`

	named int32
}

type HistItem struct{ Text, Opts int }

// HistOpts are options whose Transforms map may be nil or partial.
type HistOpts struct {
	Mode string          // "nil", "partial" or "full"
	Set  map[string]bool `json:",omitempty"` // for "partial"
	Opts                 // for everything else
}

func (o HistOpts) maps() (tr map[format.Transform]bool, in map[string]format.IndentStyle, tf map[string]format.ThreadFirstStyle) {
	p := &format.Printer{}
	o.Opts.apply(p)
	switch o.Mode {
	case "nil":
		p.Transforms = nil
	case "partial":
		p.Transforms = map[format.Transform]bool{}
		for k, v := range o.Set {
			p.Transforms[transformByName[k]] = v
		}
	}
	return p.Transforms, p.IndentOverrides, p.ThreadFirstStyleOverrides
}

// HistStep is an unrelated call: formatting Item ("format"), formatting it to
// a writer that fails after N bytes ("fail"), parsing it with options N
// ("parse"), or parsing its first N bytes ("cut").
type HistStep struct {
	Kind string
	Item int
	N    int
}

type failWriter struct{ n int }

func (w *failWriter) Write(b []byte) (int, error) {
	if len(b) > w.n {
		n := w.n
		w.n = 0
		return n, errors.New("disk full")
	}
	w.n -= len(b)
	return len(b), nil
}

var defaultTransformsAtStart = copyTransforms(format.DefaultTransforms)

func copyTransforms(m map[format.Transform]bool) map[format.Transform]bool {
	c := map[format.Transform]bool{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

type histMaps struct {
	tr map[format.Transform]bool
	in map[string]format.IndentStyle
	tf map[string]format.ThreadFirstStyle
}

func (m histMaps) equal(m2 histMaps) bool {
	return reflect.DeepEqual(m.tr, m2.tr) && reflect.DeepEqual(m.in, m2.in) && reflect.DeepEqual(m.tf, m2.tf)
}

func (m histMaps) set(p *format.Printer, o HistOpts) {
	p.Transforms, p.IndentOverrides, p.ThreadFirstStyleOverrides = m.tr, m.in, m.tf
	p.IndentChar = ' '
	if o.Tab {
		p.IndentChar = '\t'
	}
}

func checkC05(c interface{}, o *core.Out) {
	cc := c.(*HistCase)
	if len(cc.Texts) == 0 || len(cc.Opts) == 0 {
		o.Skip("empty")
		return
	}
	for _, t := range cc.Texts {
		if _, err := parseText(string(t), parse.IncludeNonSemantic); err != nil {
			o.Skip("rejected")
			return
		}
	}
	if cc.Procs {
		checkProcs(cc, o)
		return
	}
	item := cc.item
	// What each item gives with a fresh printer and maps of its own, the
	// transforms given in full.
	base := make([]string, len(cc.Items))
	for i := range cc.Items {
		src, ho, _ := item(i)
		var err error
		if base[i], err = formatText(src, ho.full()); err != nil {
			o.Fail("cannot be formatted: %v\n%s", err, show(src))
			return
		}
	}
	o.NonTrivial = len(cc.Items) > 1 && cc.Rounds > 0
	shared := make([]histMaps, len(cc.Opts))
	orig := make([]histMaps, len(cc.Opts))
	for i, ho := range cc.Opts {
		shared[i].tr, shared[i].in, shared[i].tf = ho.maps()
		orig[i].tr, orig[i].in, orig[i].tf = ho.maps()
		o.Label("transforms: " + ho.Mode)
	}
	checkMaps := func(when string) bool {
		for i := range shared {
			if !shared[i].equal(orig[i]) {
				o.Fail("%s, the caller's option maps have changed from %v to %v", when, orig[i], shared[i])
				return false
			}
		}
		if !reflect.DeepEqual(format.DefaultTransforms, defaultTransformsAtStart) {
			o.Fail("%s, DefaultTransforms has changed from %v to %v", when, defaultTransformsAtStart, format.DefaultTransforms)
			return false
		}
		return true
	}
	differ := func(how string, i int, got string) {
		src, ho, _ := item(i)
		o.Fail("%s, the output differs (%s %v %v)\n--- source\n%s\n--- fresh\n%s\n--- now\n%s", how, ho.Mode, ho.Set, ho.Opts, show(src), show(base[i]), show(got))
	}
	fresh := func(i int) (string, error) {
		src, ho, oi := item(i)
		t, err := parseNamed(src, cc.name())
		if err != nil {
			return "", err
		}
		var buf bytes.Buffer
		p := format.NewPrinter(&buf)
		shared[oi].set(p, ho)
		err = p.PrintTree(t)
		// A caller may go on to set transforms of this printer, which must
		// not change the defaults.
		if ho.Mode == "nil" && reflect.ValueOf(p.Transforms).Pointer() == reflect.ValueOf(format.DefaultTransforms).Pointer() {
			return "", errors.New("the printer's Transforms now are the package's DefaultTransforms, so that setting one changes the defaults")
		}
		return buf.String(), err
	}
	// Repetition.
	for n := 0; n < 2; n++ {
		for i := range cc.Items {
			got, err := fresh(i)
			if err != nil {
				o.Fail("formatting again fails: %v", err)
				return
			}
			if got != base[i] {
				differ("formatting again with a new printer", i, got)
				return
			}
		}
	}
	if !checkMaps("after formatting") {
		return
	}
	// One printer for several trees.
	if len(cc.Items) > 0 && len(cc.Reused) > 0 {
		var buf bytes.Buffer
		p := format.NewPrinter(&buf)
		for _, i := range cc.Reused {
			i %= len(cc.Items)
			src, ho, oi := item(i)
			shared[oi].set(p, ho)
			t, err := parseText(src, parse.IncludeNonSemantic)
			if err == nil {
				err = p.PrintTree(t)
			}
			if err != nil {
				o.Fail("formatting with a used printer fails: %v", err)
				return
			}
			if got := buf.String(); got != base[i] {
				differ("formatting with a printer that was used before", i, got)
				return
			}
			buf.Reset()
		}
		if !checkMaps("after formatting with one printer") {
			return
		}
		o.LabelIf(len(cc.Reused) > 1, "printer reused")
	}
	// Unrelated calls in between.
	for _, st := range cc.Steps {
		if len(cc.Items) == 0 {
			break
		}
		i := st.Item % len(cc.Items)
		src, ho, oi := item(i)
		o.Label("step: " + st.Kind)
		switch st.Kind {
		case "format":
			got, err := fresh(i)
			if err != nil {
				o.Fail("formatting after other calls fails: %v", err)
				return
			}
			if got != base[i] {
				differ("after other calls", i, got)
				return
			}
		case "fail":
			t, err := parseText(src, parse.IncludeNonSemantic)
			if err != nil {
				o.Fail("parsing again fails: %v", err)
				return
			}
			p := format.NewPrinter(&failWriter{st.N})
			shared[oi].set(p, ho)
			p.PrintTree(t)
		case "parse":
			parseText(src, parse.ParseOpts(st.N&7))
		case "cut":
			parseText(src[:st.N%(len(src)+1)], parse.IncludeNonSemantic)
		}
	}
	for i := range cc.Items {
		got, err := fresh(i)
		if err != nil || got != base[i] {
			differ(fmt.Sprintf("after all other calls (%v)", err), i, got)
			return
		}
	}
	if !checkMaps("after other calls") {
		return
	}
	// At the same time.
	for n := 0; n < cc.Rounds; n++ {
		got := make([]string, len(cc.Items))
		errs := make([]error, len(cc.Items))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range cc.Items {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						errs[i] = fmt.Errorf("panic: %v", e)
					}
				}()
				<-start
				got[i], errs[i] = fresh(i)
			}(i)
		}
		close(start)
		wg.Wait()
		for i := range cc.Items {
			if errs[i] != nil {
				o.Fail("formatting fails while other goroutines format: %v", errs[i])
				return
			}
			if got[i] != base[i] {
				differ("formatting while other goroutines format", i, got[i])
				return
			}
		}
	}
	checkMaps("after formatting concurrently")
}

// name gives the names of the files in turn.
func (c *HistCase) name() string {
	if len(c.Names) == 0 {
		return "test.clj"
	}
	return c.Names[int(atomic.AddInt32(&c.named, 1))%len(c.Names)]
}

func parseNamed(src, name string) (*parse.Tree, error) {
	return parse.Reader(strings.NewReader(src), name, parse.IncludeNonSemantic)
}

func (c *HistCase) item(i int) (string, HistOpts, int) {
	it := c.Items[i%len(c.Items)]
	oi := it.Opts % len(c.Opts)
	return string(c.Texts[it.Text%len(c.Texts)]), c.Opts[oi], oi
}

// full gives the same options with all transforms listed.
func (ho HistOpts) full() Opts {
	full := ho.Opts
	switch ho.Mode {
	case "nil":
		full.On = defaultOn
	case "partial":
		full.On = nil
		for _, n := range transformNames {
			v, ok := ho.Set[n]
			if !ok {
				v = Opts{On: defaultOn}.has(n)
			}
			if v {
				full.On = append(full.On, n)
			}
		}
	}
	return full
}

// HistJob is what a process made by checkProcs does: "alone" formats one item
// and nothing else, "sequence" formats the items one after another with the
// other steps in between, and "together" formats all of them at the same time.
type HistJob struct {
	Case HistCase
	Mode string
	Item int
}

type HistRes struct {
	Out []Src
	Err string
}

// HistChild does a HistJob.
func HistChild(r io.Reader, w io.Writer) error {
	var job HistJob
	if err := json.NewDecoder(r).Decode(&job); err != nil {
		return err
	}
	c := &job.Case
	var res HistRes
	format1 := func(i int) string {
		src, ho, _ := c.item(i)
		var m histMaps
		m.tr, m.in, m.tf = ho.maps()
		t, err := parseNamed(src, c.name())
		var buf bytes.Buffer
		if err == nil {
			p := format.NewPrinter(&buf)
			m.set(p, ho)
			err = p.PrintTree(t)
		}
		if err != nil {
			return "error: " + err.Error()
		}
		return buf.String()
	}
	switch job.Mode {
	case "alone":
		src, ho, _ := c.item(job.Item)
		s, err := formatText(src, ho.full())
		if err != nil {
			s = "error: " + err.Error()
		}
		res.Out = []Src{Src(s)}
	case "sequence":
		for i := range c.Items {
			if i < len(c.Steps) {
				st := c.Steps[i]
				src, ho, _ := c.item(st.Item)
				switch st.Kind {
				case "fail":
					if t, err := parseText(src, parse.IncludeNonSemantic); err == nil {
						p := format.NewPrinter(&failWriter{st.N})
						var m histMaps
						m.tr, m.in, m.tf = ho.maps()
						m.set(p, ho)
						p.PrintTree(t)
					}
				case "parse":
					parseText(src, parse.ParseOpts(st.N&7))
				case "cut":
					parseText(src[:st.N%(len(src)+1)], parse.IncludeNonSemantic)
				}
			}
			res.Out = append(res.Out, Src(format1(i)))
		}
	case "together":
		res.Out = make([]Src, len(c.Items))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range c.Items {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				res.Out[i] = Src(format1(i))
			}(i)
		}
		close(start)
		wg.Wait()
	}
	return json.NewEncoder(w).Encode(res)
}

func histProc(c *HistCase, mode string, i int) ([]Src, error) {
	b, err := json.Marshal(HistJob{*c, mode, i})
	if err != nil {
		return nil, err
	}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), core.HangLimit*2/3)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "hist")
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	if mode != "alone" {
		// The environment is not part of the options.
		cmd.Dir = os.TempDir()
		cmd.Env = append(cmd.Env, "TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "COLUMNS=40", "TERM=dumb", "NO_COLOR=1", "USER=x", "HOME=/nonexistent", "DEBUG=1", "VERBOSE=1", "CI=true", "CLJFMT_CONFIG_PATH=/nonexistent/x", "GOMAXPROCS=2")
		for _, w := range gen.DictWords() {
			if !strings.ContainsAny(w, "=\x00 ") && !strings.HasPrefix(w, "GO") {
				cmd.Env = append(cmd.Env, w+"=1")
			}
		}
	}
	cmd.Stdin = bytes.NewReader(b)
	var out, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &stderr
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("%v\n%s", err, shortText(stderr.String()))
	}
	var res HistRes
	if err := json.Unmarshal(out.Bytes(), &res); err != nil {
		return nil, err
	}
	return res.Out, nil
}

// checkProcs compares processes that format one item each with processes that
// format all of them. That shows state that is kept by the first call already.
func checkProcs(cc *HistCase, o *core.Out) {
	o.Label("separate processes")
	o.NonTrivial = len(cc.Items) > 1
	alone := map[HistItem]Src{}
	for i, it := range cc.Items {
		if _, ok := alone[it]; ok {
			continue
		}
		out, err := histProc(cc, "alone", i)
		if err != nil {
			o.Fail("a process that formats a single text ends with %v", err)
			return
		}
		alone[it] = out[0]
	}
	for _, mode := range []string{"sequence", "together"} {
		out, err := histProc(cc, mode, 0)
		if err != nil {
			o.Fail("a process that formats all texts (%s) ends with %v", mode, err)
			return
		}
		for i, it := range cc.Items {
			if out[i] != alone[it] {
				src, ho, _ := cc.item(i)
				o.Fail("item %d: a process that formats all texts (%s) gives something else than one that formats this text only (%s %v %v)\n--- source\n%s\n--- alone\n%s\n--- %s\n%s",
					i, mode, ho.Mode, ho.Set, ho.Opts, show(src), show(string(alone[it])), mode, show(string(out[i])))
				return
			}
		}
	}
}

// fileName gives the name under which a text may be parsed.
func fileName(t *rapid.T) string {
	n := gen.Pick(t, "", "<stdin>", "-", "project.clj", "a.cljs", "a.cljc", "a.edn", "a.bb", "build.boot", "data_readers.clj", "src/a/b.clj", "/x/y_test.clj", "deps.edn", ".x.clj", "A.CLJ")
	if gen.Pct(t, 30) {
		n = oddName(t) + anyExt(t)
	}
	return n
}

func genC05(t *rapid.T) interface{} {
	c := &HistCase{}
	nt := 2 + gen.Int(t, 3)
	// Files whose ns forms give aliases and names to the same libraries, so
	// that state kept from one file would show in the next.
	over := gen.Pct(t, 40)
	thread := gen.Pct(t, 25)
	tnames := []string{"t1", "->>", "cond->", "->", "m/t3", "foo", "bar"}
	dense := gen.Pct(t, 15)
	for i := 0; i < nt; i++ {
		if dense && gen.Pct(t, 70) {
			c.Texts = append(c.Texts, Src(gen.DenseNS(t)))
			continue
		}
		if thread && gen.Pct(t, 70) {
			p := gen.RandomProfile(t)
			if p.Newline < 30 {
				p.Newline = 30
			}
			p.Size = 10 + gen.Int(t, 30)
			p.NoRename = true
			g := gen.New(t, p)
			g.ThreadFile(append([]string{"->", "some->", "cond->"}, tnames...))
			c.Texts = append(c.Texts, Src(g.String()))
			continue
		}
		if over && gen.Pct(t, 75) {
			p := gen.RandomProfile(t)
			p.Prefix, p.Discard, p.Meta, p.Tag = 0, 0, 0, 0
			p.Strange = false
			if p.Newline < 30 {
				p.Newline = 30
			}
			p.NoRename = true
			g := gen.New(t, p)
			g.OverrideFile()
			c.Texts = append(c.Texts, Src(g.String()))
			continue
		}
		c.Texts = append(c.Texts, Src(gen.Source(t, func(p *gen.Profile) {
			p.Size = 4 + gen.Int(t, 20)
			if gen.Pct(t, 60) {
				p.NS = 100
			}
			if gen.Pct(t, 50) {
				p.Styled = 80
			}
		})))
	}
	for i, n := 0, 1+gen.Int(t, 2); i < n; i++ {
		var o HistOpts
		switch gen.Weighted(t, 3, 3, 3) {
		case 0:
			o.Mode = "nil"
		case 1:
			o.Mode = "partial"
			o.Set = map[string]bool{}
			for j, m := 0, gen.Int(t, 4); j < m; j++ {
				o.Set[gen.Pick(t, transformNames...)] = gen.Pct(t, 60)
			}
		case 2:
			o.Mode = "full"
			o.On = genOn(t)
		}
		if dense && gen.Pct(t, 70) {
			if o.Mode = "partial"; o.Set == nil {
				o.Set = map[string]bool{}
			}
			o.Set["use-to-require"] = true
			if gen.Pct(t, 30) {
				o.Set["remove-unused-requires"] = true
			}
		}
		genOverrides(t, &o.Opts)
		if over && gen.Pct(t, 80) {
			o.Indent = genOverOverrides(t, nil)
		}
		if thread && gen.Pct(t, 70) {
			o.TF = map[string]string{}
			for i, n := 0, 1+gen.Int(t, 3); i < n; i++ {
				o.TF[gen.Pick(t, tnames...)] = gen.Pick(t, "normal", "cond->")
			}
		}
		o.Tab = gen.Pct(t, 20)
		c.Opts = append(c.Opts, o)
	}
	for i, n := 0, 2+gen.Int(t, 5); i < n; i++ {
		c.Items = append(c.Items, HistItem{gen.Int(t, nt), gen.Int(t, len(c.Opts))})
	}
	for i, n := 0, gen.Int(t, 5); i < n; i++ {
		c.Reused = append(c.Reused, gen.Int(t, len(c.Items)))
	}
	for i, n := 0, gen.Int(t, 5); i < n; i++ {
		c.Steps = append(c.Steps, HistStep{gen.Pick(t, "format", "fail", "parse", "cut"), gen.Int(t, len(c.Items)), gen.Int(t, 300)})
	}
	c.Rounds = 1 + gen.Int(t, 2)
	for i, n := 0, gen.Int(t, 4); i < n; i++ {
		c.Names = append(c.Names, fileName(t))
	}
	c.Procs = gen.Pct(t, 8)
	return c
}

func init() {
	core.Register(&core.Prop{
		ID: "C05", Quick: 16000, Thorough: 200000, Race: true,
		New: func() interface{} { return new(HistCase) }, Check: checkC05, Gen: genC05,
		Rule: "several files and option sets (transform maps nil, partial or full, shared by all calls); every (file, options) pair is formatted with fresh state, " +
			"then repeatedly, with one reused printer, after unrelated parses, failed writes and formats, and concurrently in goroutines of a race-detecting build; " +
			"all outputs must equal the fresh one and no option map may change. For some cases each pair is formatted by a process of its own, and processes that format all pairs " +
			"in sequence or at the same time must give the same. Non-trivial: at least two pairs and one concurrent round.",
		Assumptions: []string{"the Go race detector reports the races that the executed schedules contain"},
	})
}
