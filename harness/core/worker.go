package core

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Result of a worker.
type Result struct {
	Evaluations int
	Skipped     int
	Hashes      []uint64 // distinct non-trivial cases
	Labels      map[string]int
	Samples     []json.RawMessage
	Failure     *Failure
	Error       string
}

type Failure struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Origin   string          `json:"origin"`
}

type WorkerConfig struct {
	Prop    string
	Seed    uint64
	Checks  int
	Out     string // result file
	Current string // file that holds the current case, for crashes
	Corpus  string // directory of fixed cases to run first, or ""
	Shrink  time.Duration
}

// HangLimit is the time after which a single case counts as hanging. Cases
// take milliseconds.
const HangLimit = 90 * time.Second

// memoryLimit is far above what any case needs.
const memoryLimit = 3 << 30

// WatchMemory ends the process if a case takes ever more memory, before the
// machine runs out of it.
func WatchMemory() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(sample)
		if sample[0].Value.Uint64() > memoryLimit {
			fmt.Fprintln(os.Stderr, "VERIF-HANG: a case takes ever more memory")
			os.Exit(4)
		}
	}
}

type runner struct {
	p       *Prop
	res     *Result
	seen    map[uint64]bool
	failed  bool
	fail    *Failure
	current *os.File
	started int64 // unix nano of the current case, or 0
	sampleN int
}

// eval runs one case, turning panics of the check itself into failures.
func (r *runner) eval(c interface{}) *Out {
	o := &Out{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				if strings.Contains(fmt.Sprintf("%T", e), "rapid.") {
					panic(e)
				}
				o.Fail("panic: %v\n%s", e, trimStack(st))
			}
		}()
		r.p.Check(c, o)
	}()
	return o
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func (r *runner) writeCurrent(b []byte) {
	if r.current == nil {
		return
	}
	r.current.Truncate(0)
	r.current.WriteAt(b, 0)
}

func (r *runner) one(c interface{}, origin string) *Out {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	r.writeCurrent(b)
	atomic.StoreInt64(&r.started, time.Now().UnixNano())
	o := r.eval(c)
	atomic.StoreInt64(&r.started, 0)
	if !r.failed {
		r.res.Evaluations++
		if o.Skipped {
			r.res.Skipped++
		}
		for _, l := range o.Labels {
			r.res.Labels[l]++
		}
		if o.NonTrivial && !o.Skipped {
			s := sha256.Sum256(b)
			h := binary.LittleEndian.Uint64(s[:])
			if !r.seen[h] {
				r.seen[h] = true
				// keep a few samples, spread over the run
				r.sampleN++
				if r.sampleN&(r.sampleN-1) == 0 && len(b) < 3000 {
					r.res.Samples = append(r.res.Samples, json.RawMessage(b))
					if len(r.res.Samples) > 12 {
						r.res.Samples = r.res.Samples[1:]
					}
				}
			}
		}
	}
	if o.Failed() {
		r.failed = true
		r.fail = &Failure{Property: r.p.ID, Message: o.Failure, Case: b, Origin: origin}
	}
	return o
}

// tb is rapid's view of a test.
type tb struct {
	failed bool
	logs   []string
}

type tbStop struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return "property" }
func (t *tb) Logf(format string, args ...interface{}) {
	t.logs = append(t.logs, fmt.Sprintf(format, args...))
	if len(t.logs) > 50 {
		t.logs = t.logs[len(t.logs)-50:]
	}
}
func (t *tb) Log(args ...interface{})                   { t.Logf("%s", fmt.Sprint(args...)) }
func (t *tb) Skipf(format string, args ...interface{})  { panic(tbStop{}) }
func (t *tb) Skip(args ...interface{})                  { panic(tbStop{}) }
func (t *tb) SkipNow()                                  { panic(tbStop{}) }
func (t *tb) Errorf(format string, args ...interface{}) { t.Logf(format, args...); t.failed = true }
func (t *tb) Error(args ...interface{})                 { t.Log(args...); t.failed = true }
func (t *tb) Fatalf(format string, args ...interface{}) { t.Errorf(format, args...); panic(tbStop{}) }
func (t *tb) Fatal(args ...interface{})                 { t.Error(args...); panic(tbStop{}) }
func (t *tb) FailNow()                                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                                     { t.failed = true }
func (t *tb) Failed() bool                              { return t.failed }

// Worker runs one shard in this process.
func Worker(cfg WorkerConfig) int {
	debug.SetMaxStack(256 << 20)
	p := Lookup(cfg.Prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", cfg.Prop)
		return 2
	}
	r := &runner{p: p, res: &Result{Labels: map[string]int{}}, seen: map[uint64]bool{}}
	if cfg.Current != "" {
		f, err := os.OpenFile(cfg.Current, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r.current = f
	}
	go WatchMemory()
	go func() {
		for {
			time.Sleep(time.Second)
			if s := atomic.LoadInt64(&r.started); s != 0 && time.Since(time.Unix(0, s)) > HangLimit {
				fmt.Fprintln(os.Stderr, "VERIF-HANG: a case did not finish")
				os.Exit(4)
			}
		}
	}()

	if cfg.Corpus != "" {
		for _, name := range corpusFiles(cfg.Corpus, p.ID) {
			c, err := loadCase(p, name)
			if err != nil {
				fmt.Fprintln(os.Stderr, name, err)
				return 2
			}
			if r.one(c, "corpus "+filepath.Base(name)); r.failed {
				break
			}
		}
	}
	if !r.failed && cfg.Checks > 0 {
		testing.Init()
		flag.CommandLine.Parse(nil)
		setFlag("rapid.checks", fmt.Sprint(cfg.Checks))
		setFlag("rapid.seed", fmt.Sprint(cfg.Seed))
		setFlag("rapid.nofailfile", "true")
		setFlag("rapid.shrinktime", cfg.Shrink.String())
		t := &tb{}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(tbStop); !ok {
						panic(e)
					}
				}
			}()
			rapid.Check(t, func(rt *rapid.T) {
				c := p.Gen(rt)
				if o := r.one(c, "generated"); o.Failed() {
					rt.Fatalf("property violated")
				}
			})
		}()
		if t.failed && !r.failed {
			r.res.Error = strings.Join(t.logs, "\n")
		}
	}
	if r.failed {
		// Confirm outside the library, from the serialised case.
		c := p.New()
		if err := json.Unmarshal(r.fail.Case, c); err != nil {
			r.res.Error = "cannot decode failing case: " + err.Error()
		} else if o := r.eval(c); o.Failed() {
			if r.fail.Origin == "generated" && !p.Race {
				r.fail.Case = r.reduce(r.fail.Case, cfg.Shrink)
				c = p.New()
				json.Unmarshal(r.fail.Case, c)
				o = r.eval(c)
			}
			r.fail.Message = o.Failure
		} else {
			r.fail.Message += "\n(this failure did not repeat when the case was run again)"
		}
		r.res.Failure = r.fail
	}
	for h := range r.seen {
		r.res.Hashes = append(r.res.Hashes, h)
	}
	b, err := json.Marshal(r.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := ioutil.WriteFile(cfg.Out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		panic(err)
	}
}

func loadCase(p *Prop, file string) (interface{}, error) {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	c := p.New()
	if err := json.Unmarshal(f.Case, c); err != nil {
		return nil, err
	}
	return c, nil
}

func corpusFiles(dir, id string) []string {
	names, _ := filepath.Glob(filepath.Join(dir, id, "*.json"))
	sort.Strings(names)
	return names
}

// RunCase evaluates the case of a replay file.
func RunCase(file string) (*Out, string, error) {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		return nil, "", err
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, "", err
	}
	p := Lookup(f.Property)
	if p == nil {
		return nil, "", fmt.Errorf("unknown property %q", f.Property)
	}
	c, err := loadCase(p, file)
	if err != nil {
		return nil, "", err
	}
	r := &runner{p: p}
	return r.eval(c), f.Property, nil
}
