package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
)

type DriverConfig struct {
	Prop      string
	Verif     string // /verif
	Tier      string
	Seed      uint64
	Workers   int
	Checks    int // 0: the property's count for the tier
	KnownFile string
}

type shard struct {
	res    *Result
	err    error
	state  *os.ProcessState
	stderr string
	cur    string
	crash  *Failure // what the worker died of
	why    string   // or why that is not a violation
}

var errStopped = errors.New("stopped")

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// Drive runs a check and returns the exit status.
func Drive(cfg DriverConfig) int {
	start := time.Now()
	p := Lookup(cfg.Prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", cfg.Prop)
		return 2
	}
	total := cfg.Checks
	if total == 0 {
		total = p.Quick
		if cfg.Tier == "thorough" {
			total = p.Thorough
		}
	}
	if total < cfg.Workers {
		total = cfg.Workers
	}
	tmp, err := ioutil.TempDir("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	os.Chmod(tmp, 0755) // cljfmt may run as another user

	// A bound on the whole run, well inside what a check is given.
	limit := 13 * time.Minute
	// Once there is a violation, the other workers needn't go on.
	stop := make(chan struct{})
	var once sync.Once
	shards := make([]*shard, cfg.Workers)
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for i := range shards {
		i := i
		sh := &shard{cur: filepath.Join(tmp, fmt.Sprintf("cur%d", i))}
		shards[i] = sh
		out := filepath.Join(tmp, fmt.Sprintf("out%d", i))
		seed := splitmix(splitmix(cfg.Seed+uint64(len(p.ID))) + uint64(i)*1000003)
		for _, c := range p.ID {
			seed = splitmix(seed + uint64(c))
		}
		if seed == 0 {
			seed = 1
		}
		args := []string{"worker", "-prop", p.ID, "-seed", fmt.Sprint(seed),
			"-checks", strconv.Itoa(total / cfg.Workers), "-out", out, "-current", sh.cur}
		if i == 0 {
			args = append(args, "-corpus", filepath.Join(cfg.Verif, "corpus"))
		}
		scratch := filepath.Join(tmp, fmt.Sprintf("scratch%d", i))
		os.Mkdir(scratch, 0755)
		wg.Add(1)
		go func() {
			defer wg.Done()
			state, stderr, err := runProc(limit, stop, scratch, self, args...)
			sh.state, sh.stderr, sh.err = state, stderr, err
			b, rerr := ioutil.ReadFile(out)
			if rerr == nil {
				var res Result
				if jerr := json.Unmarshal(b, &res); jerr == nil {
					sh.res = &res
				}
			}
			if err == errStopped {
				return
			}
			if sh.res == nil {
				// The worker died. If it dies again on the case it was
				// running, that is reproducible.
				sh.crash, sh.why = crashFailure(p, sh, self, tmp, i)
			}
			if sh.crash != nil || sh.res != nil && sh.res.Failure != nil {
				once.Do(func() { close(stop) })
			}
		}()
	}
	wg.Wait()

	merged := &Result{Labels: map[string]int{}}
	distinct := map[uint64]bool{}
	var failure *Failure
	broken := ""
	for _, sh := range shards {
		if sh.res == nil {
			if sh.crash != nil {
				if failure == nil {
					failure = sh.crash
				}
			} else if broken == "" {
				broken = sh.why
			}
			continue
		}
		if sh.res.Error != "" && broken == "" {
			broken = sh.res.Error
		}
		if sh.res.Failure != nil && failure == nil {
			failure = sh.res.Failure
		}
		merged.Evaluations += sh.res.Evaluations
		merged.Skipped += sh.res.Skipped
		for l, n := range sh.res.Labels {
			merged.Labels[l] += n
		}
		for _, h := range sh.res.Hashes {
			distinct[h] = true
		}
		if n := len(sh.res.Samples); n > 0 && len(merged.Samples) < 6 {
			merged.Samples = append(merged.Samples, sh.res.Samples[n-1])
			if n > 4 && len(merged.Samples) < 6 {
				merged.Samples = append(merged.Samples, sh.res.Samples[n/2])
			}
		}
	}

	violations := 0
	if failure != nil {
		violations = 1
	}
	writeEvidence(cfg, p, merged, len(distinct), violations, time.Since(start))
	if failure != nil {
		dir := filepath.Join(cfg.Verif, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, p.ID+".json")
		b, _ := json.MarshalIndent(failure, "", "  ")
		if err := ioutil.WriteFile(path, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s\ncase: %s\n", Printable(indent(failure.Message)), shorten(string(failure.Case), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if broken != "" {
		fmt.Fprintf(os.Stderr, "%s: the check could not finish:\n%s\n", p.ID, broken)
		return 2
	}
	fmt.Printf("%s held: %d cases, %d distinct non-trivial, %d outside the domain, %.1fs\n",
		p.ID, merged.Evaluations, len(distinct), merged.Skipped, time.Since(start).Seconds())
	for _, line := range knownFindings(cfg.KnownFile, p.ID) {
		fmt.Println(line)
	}
	return 0
}

func indent(s string) string { return "  " + strings.Replace(s, "\n", "\n  ", -1) }

func shorten(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// knownFindings gives a KNOWN-FINDING line for each finding listed for a property.
func knownFindings(file, id string) []string {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []string
	prefix := "known: property=" + id + " "
	for _, line := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(line, prefix) {
			out = append(out, "KNOWN-FINDING: property="+id+" "+strings.TrimPrefix(line, prefix))
		}
	}
	return out
}

func runProc(limit time.Duration, stop <-chan struct{}, scratch, self string, args ...string) (*os.ProcessState, string, error) {
	cmd := exec.Command(self, args...)
	var stderr bytes.Buffer
	cmd.Stderr = &tailWriter{buf: &stderr}
	cmd.Env = append(os.Environ(), "TMPDIR="+scratch, "GOTRACEBACK=single",
		"GORACE=halt_on_error=1 exitcode=66 history_size=3")
	cmd.Dir = scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-stop:
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		err = errStopped
	case <-time.After(limit):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		err = fmt.Errorf("ran out of time")
	}
	return cmd.ProcessState, stderr.String(), err
}

type tailWriter struct {
	buf *bytes.Buffer
	mu  sync.Mutex
}

func (w *tailWriter) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.buf.Len() < 20000 {
		w.buf.Write(b)
	}
	return len(b), nil
}

// crashFailure decides what a worker's death means.
func crashFailure(p *Prop, sh *shard, self, tmp string, i int) (*Failure, string) {
	why := fmt.Sprintf("worker %d ended: %v\n%s", i, sh.err, shorten(sh.stderr, 4000))
	if sh.state == nil {
		return nil, why
	}
	code := sh.state.ExitCode()
	if code != 2 && code != 4 && code != 66 {
		return nil, why // killed, out of memory, out of time
	}
	b, err := ioutil.ReadFile(sh.cur)
	if err != nil || !json.Valid(b) {
		return nil, why
	}
	f := &Failure{Property: p.ID, Case: b, Origin: "process died", Message: shorten(sh.stderr, 6000)}
	if code == 66 {
		// The race detector's report is evidence in itself.
		if p.Race && strings.Contains(sh.stderr, "DATA RACE") {
			return f, ""
		}
		return nil, why
	}
	if code == 2 && !strings.Contains(sh.stderr, "fatal error: ") && !strings.Contains(sh.stderr, "panic: ") {
		return nil, why // not a crash
	}
	// Does it happen again?
	rf := filepath.Join(tmp, fmt.Sprintf("crash%d.json", i))
	fb, _ := json.Marshal(f)
	if err := ioutil.WriteFile(rf, fb, 0644); err != nil {
		return nil, why
	}
	scratch := filepath.Join(tmp, fmt.Sprintf("crash%d", i))
	os.Mkdir(scratch, 0755)
	state, stderr, rerr := runProc(3*time.Minute, nil, scratch, self, "replay1", rf)
	if state == nil {
		return nil, why
	}
	c2 := state.ExitCode()
	if c2 == 0 || c2 != code && c2 != 1 {
		return nil, why + fmt.Sprintf("\n(did not happen again: %v)\n%s", rerr, stderr)
	}
	return f, ""
}

func writeEvidence(cfg DriverConfig, p *Prop, r *Result, distinct, violations int, wall time.Duration) {
	type lab struct {
		name string
		n    int
	}
	var labs []lab
	for l, n := range r.Labels {
		labs = append(labs, lab{l, n})
	}
	sort.Slice(labs, func(i, j int) bool { return labs[i].name < labs[j].name })
	dist := map[string]int{}
	for _, l := range labs {
		dist[l.name] = l.n
	}
	samples := r.Samples
	if samples == nil {
		samples = []json.RawMessage{}
	}
	assumptions := p.Assumptions
	if assumptions == nil {
		assumptions = []string{}
	}
	ev := map[string]interface{}{
		"property": p.ID,
		"tier":     cfg.Tier,
		"seed":     cfg.Seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         r.Evaluations,
			"distinct_nontrivial": distinct,
			"outside_domain":      r.Skipped,
			"rule":                p.Rule,
			"samples":             samples,
			"classes":             dist,
		},
		"assumptions": assumptions,
		"wall_s":      float64(int(wall.Seconds()*100)) / 100,
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	dir := filepath.Join(cfg.Verif, "evidence")
	os.MkdirAll(dir, 0755)
	if err := ioutil.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// Printable escapes the bytes of s that aren't valid UTF-8.
func Printable(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		if r == utf8.RuneError && n == 1 {
			fmt.Fprintf(&b, "\\x%02x", s[0])
		} else {
			b.WriteString(s[:n])
		}
		s = s[n:]
	}
	return b.String()
}
