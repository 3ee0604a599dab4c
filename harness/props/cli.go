package props

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
	"verif/refclj"
)

// This file runs the real cljfmt binary in scratch directories.

type cmdResult struct {
	stdout, stderr string
	exit           int
	signaled       bool
	crashed        bool // with the traces of goroutines
}

// scratch makes a scratch directory that is removed by the returned function.
func scratch() (string, func()) {
	dir, err := ioutil.TempDir("", "verif-case-")
	if err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

// Where the output of the command goes.
const (
	outPipe   = ""
	outFull   = "full"   // a device that is full
	outClosed = "closed" // a pipe that nobody reads
)

// runCljfmt runs the command. If limit is positive, it can't make files larger.
func runCljfmt(dir string, env []string, stdin string, out string, nobody bool, limit int, args ...string) cmdResult {
	bin := os.Getenv("VERIF_CLJFMT")
	if bin == "" {
		panic("VERIF_CLJFMT is not set")
	}
	if limit > 0 {
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		args = append([]string{"limit", fmt.Sprint(limit), bin}, args...)
		bin = self
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin"}, env...)
	cmd.Stdin = strings.NewReader(stdin)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	switch out {
	case outFull:
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdout = f
	case outClosed:
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		r.Close()
		defer w.Close()
		cmd.Stdout = w
	}
	if nobody {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	err := cmd.Run()
	res := cmdResult{stdout: stdout.String(), stderr: stderr.String()}
	res.crashed = err != nil && strings.Contains(res.stderr, "\ngoroutine ") && strings.Contains(res.stderr, ".go:")
	if ctx.Err() != nil {
		res.exit = -2
		res.stderr += "\n(killed after 30 s)"
		return res
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			// Writing to the command's input fails if it doesn't read all of it.
			if strings.Contains(err.Error(), "broken pipe") {
				return res
			}
			if nobody {
				res.exit = -3 // can't change the user here
				return res
			}
			panic(err)
		}
		res.exit = ee.ExitCode()
		if limit > 0 && res.exit == 97 {
			res.exit = -3
			return res
		}
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.signaled = true
		}
	}
	return res
}

// formatDefault formats as cljfmt does without a configuration.
func formatDefault(src string) (string, error) { return formatText(src, defaultOpts()) }

// ---- C23

type CmdFile struct {
	Name   string
	Text   Src
	Mode   uint32
	Repeat int  `json:",omitempty"` // the content is Text this many times more, each on lines of its own
	Link   bool `json:",omitempty"` // the name is that of a symbolic link
}

func (f CmdFile) content() string {
	// (Without the line breaks, the text could be indented further and further.)
	return strings.Repeat(string(f.Text)+"\n", f.Repeat) + string(f.Text)
}

// ModeCase is a set of input files and flags.
type ModeCase struct {
	Files       []CmdFile
	Args        []string // paths, in order; may name missing files
	List, Write bool
	Stdin       bool // no paths: read Files[0].Text from standard input
	Out         string
	Nobody      bool // run without permission to write
	Limit       int  `json:",omitempty"` // files can't be made larger than this
}

var oldTime = time.Unix(1500000000, 0)

func checkC23(c interface{}, o *core.Out) {
	cc := *c.(*ModeCase)
	cc.Files = append([]CmdFile{}, cc.Files...)
	dir, cleanup := scratch()
	defer cleanup()
	os.Chmod(dir, 0755)
	targets, cleanup2 := scratch()
	defer cleanup2()
	os.Chmod(targets, 0755)
	byName := map[string]CmdFile{}
	for i, f := range cc.Files {
		if byName[f.Name].Name != "" {
			o.Skip("duplicate name")
			return
		}
		f.Text, f.Repeat = Src(f.content()), 0
		if len(f.Text) > 1<<20 {
			o.Label("file of more than 1 MB")
		}
		byName[f.Name] = f
		cc.Files[i] = f
		p := filepath.Join(dir, f.Name)
		if f.Link {
			o.Label("symbolic link")
			target := filepath.Join(targets, fmt.Sprintf("target%d", i))
			if err := os.Symlink(target, p); err != nil {
				panic(err)
			}
			p = target
		}
		if err := ioutil.WriteFile(p, []byte(f.Text), 0600); err != nil {
			panic(err)
		}
		os.Chmod(p, os.FileMode(f.Mode))
		os.Chtimes(p, oldTime, oldTime)
	}
	var args []string
	if cc.List {
		args = append(args, "-l")
	}
	if cc.Write {
		args = append(args, "-w")
	}
	stdin := ""
	if cc.Stdin {
		stdin = string(cc.Files[0].Text)
	} else {
		args = append(args, cc.Args...)
	}

	// The model. content is what each file holds afterwards.
	content := map[string]string{}
	for _, f := range cc.Files {
		content[f.Name] = string(f.Text)
	}
	wantOut := ""
	fails := false
	changed := map[string]bool{}
	touched := map[string]bool{} // files written and put back
	unknown := map[string]bool{} // files after a failure
	switch {
	case cc.Stdin && cc.Write:
		fails = true
		o.Label("-w with standard input")
	case cc.Stdin:
		s, err := formatDefault(stdin)
		if err != nil {
			fails = true
			o.Label("malformed standard input")
		} else {
			wantOut = s
		}
		o.Label("standard input")
	default:
		for _, a := range cc.Args {
			f, ok := byName[a]
			if fails {
				unknown[a] = true
				continue
			}
			if !ok {
				fails = true
				o.Label("missing file")
				continue
			}
			s, err := formatDefault(content[f.Name])
			if err != nil {
				fails = true
				o.Label("malformed file")
				continue
			}
			if s != content[f.Name] {
				o.Label("file that is not formatted")
				if cc.List {
					wantOut += a + "\n"
				}
				if cc.Write {
					if cc.Nobody {
						fails = true
						o.Label("file that can't be written")
						continue
					}
					if cc.Limit > 0 && len(s) > cc.Limit {
						fails = true
						o.Label("file that can't be written completely")
						touched[f.Name] = true
						continue
					}
					content[f.Name] = s
					changed[f.Name] = true
				}
			} else {
				o.Label("file that is formatted")
			}
			if !cc.List && !cc.Write {
				wantOut += s
			}
		}
	}
	if cc.Out != outPipe && wantOut != "" {
		o.Label("output can't be delivered")
	}
	o.Label(fmt.Sprintf("list %v write %v", cc.List, cc.Write))

	res := runCljfmt(dir, []string{"HOME=" + dir + "/nohome"}, stdin, cc.Out, cc.Nobody, cc.Limit, args...)
	if res.exit == -3 {
		o.Skip("can't run as another user or with limits")
		return
	}
	fail := func(format string, args2 ...interface{}) {
		var files string
		for _, f := range cc.Files {
			files += fmt.Sprintf("--- file %s (mode %o)\n%s\n", f.Name, f.Mode, show(string(f.Text)))
		}
		o.Fail("%s\nargs: %q stdin: %v stdout: %q as nobody: %v limit: %d\n%s--- exit status %d, stdout\n%s\n--- stderr\n%s", fmt.Sprintf(format, args2...), args, cc.Stdin, cc.Out, cc.Nobody, cc.Limit,
			files, res.exit, show(res.stdout), res.stderr)
	}
	if res.exit == -2 {
		fail("the command hangs")
		return
	}
	if res.crashed {
		fail("the command crashes")
		return
	}
	o.NonTrivial = true
	if cc.Out != outPipe && wantOut != "" {
		// The output is lost, which must show; the files must be intact:
		// either as they were or formatted.
		if res.exit == 0 {
			fail("the exit status is 0 though the output could not be delivered")
			return
		}
		for _, f := range cc.Files {
			b, _ := ioutil.ReadFile(filepath.Join(dir, f.Name))
			s, err := formatDefault(string(f.Text))
			if string(b) != string(f.Text) && !(cc.Write && err == nil && string(b) == s) {
				fail("%s is damaged:\n%s", f.Name, show(string(b)))
				return
			}
		}
		return
	}
	if (res.exit != 0) != fails {
		fail("the exit status is %d; an input fails: %v", res.exit, fails)
		return
	}
	if fails && res.stderr == "" {
		fail("nothing is reported for an input that fails")
		return
	}
	if len(unknown) == 0 || cc.Out != outPipe {
		if res.stdout != wantOut {
			fail("the output should be\n%s", show(wantOut))
			return
		}
	} else if !strings.HasPrefix(res.stdout, wantOut) {
		fail("the output should begin with\n%s", show(wantOut))
		return
	}
	for _, f := range cc.Files {
		p := filepath.Join(dir, f.Name)
		b, err := ioutil.ReadFile(p)
		if err != nil {
			fail("%v", err)
			return
		}
		if lst, err := os.Lstat(p); err != nil || (lst.Mode()&os.ModeSymlink != 0) != f.Link {
			fail("%s was replaced", f.Name)
			return
		}
		st, _ := os.Stat(p)
		if st.Mode().Perm() != os.FileMode(f.Mode) {
			fail("%s has the permissions %o", f.Name, st.Mode().Perm())
			return
		}
		if unknown[f.Name] && !changed[f.Name] {
			s, err := formatDefault(string(f.Text))
			if string(b) != string(f.Text) && !(cc.Write && err == nil && string(b) == s) {
				fail("%s is damaged:\n%s", f.Name, show(string(b)))
				return
			}
			continue
		}
		if string(b) != content[f.Name] {
			fail("%s holds\n%s\ninstead of\n%s", f.Name, show(string(b)), show(content[f.Name]))
			return
		}
		if !changed[f.Name] && !touched[f.Name] && !st.ModTime().Equal(oldTime) {
			fail("%s was written though nothing changed", f.Name)
			return
		}
	}
	es, _ := ioutil.ReadDir(dir)
	if len(es) != len(cc.Files) {
		fail("%d files are left behind", len(es)-len(cc.Files))
	}
}

func cmdText(t *rapid.T) Src {
	switch gen.Weighted(t, 6, 4, 2, 2) {
	case 0:
		return Src(gen.Source(t, func(p *gen.Profile) { p.Size = 1 + p.Size/3 }))
	case 1: // formatted
		s := gen.Source(t, func(p *gen.Profile) { p.Size = 1 + p.Size/3 })
		if f, err := formatDefault(s); err == nil {
			return Src(f)
		}
		return Src(s)
	case 2:
		return Src(gen.Wild(t))
	}
	return Src(gen.Pick(t, "", "\n", "(a", ")", "(a)\n", "(a)", "( a )\n", "\"", ";c", "\r\n", "(a)\r\n", "(a) \\", "a\n\n\n\nb\n", "(a\n)\n"))
}

func genC23(t *rapid.T) interface{} {
	c := &ModeCase{}
	n := 1 + gen.Weighted(t, 4, 4, 2, 1)
	odd := gen.Pct(t, 15)
	if gen.Pct(t, 2) {
		n, odd = 5+gen.Int(t, 30), true
	}
	if k := gen.Threshold(t, 100); k > 0 && gen.Pct(t, 10) {
		n, odd = k, true
	}
	for i := 0; i < n; i++ {
		name := gen.Pick(t, "a", "b", "c", "é", ".d", "e f") + gen.Pick(t, ".clj", ".clj", ".cljs", ".txt", "", ".edn")
		if odd {
			name = oddName(t) + gen.Pick(t, ".clj", ".clj", ".txt", "")
			if strings.HasPrefix(name, "-") || strings.Trim(name, ".") == "" || name == "missing.clj" {
				name = "x" + name
			}
		}
		f := CmdFile{Name: name, Text: cmdText(t), Mode: []uint32{0644, 0600, 0755, 0664, 0640, 0444}[gen.Int(t, 6)]}
		if gen.Pct(t, 20) {
			f.Mode = uint32(gen.Int(t, 0777+1))
		}
		f.Link = gen.Pct(t, 10)
		if k := gen.Threshold(t, 1<<20); k > 0 && gen.Pct(t, 5) && len(f.Text) > 0 {
			f.Repeat = 1 + k/len(f.Text)
		} else if gen.Pct(t, 2) && gen.Pct(t, 50) && len(f.Text) > 0 {
			// Sizes from kilobytes to more than two megabytes.
			size := 1 << uint(10+gen.Int(t, 12))
			f.Repeat = (size + gen.Int(t, size)) / len(f.Text)
		}
		if max := 20000; f.Repeat > 1 && f.Repeat*len(f.Text) > max && refclj.Parse(string(f.Text)).Verdict != refclj.Accept {
			// Unclosed delimiters add up: a limit of the stack.
			f.Repeat = 1 + max/len(f.Text)
		}
		c.Files = append(c.Files, f)
	}
	seen := map[string]bool{}
	var fs []CmdFile
	for _, f := range c.Files {
		if !seen[f.Name] {
			fs = append(fs, f)
		}
		seen[f.Name] = true
	}
	c.Files = fs
	if gen.Pct(t, 10) {
		c.Stdin = true
		c.Files = c.Files[:1]
	} else {
		for _, f := range c.Files {
			if gen.Pct(t, 90) {
				c.Args = append(c.Args, f.Name)
			}
		}
		if gen.Pct(t, 10) || len(c.Args) == 0 {
			c.Args = append(c.Args, c.Files[gen.Int(t, len(c.Files))].Name)
		}
		if gen.Pct(t, 5) {
			i := gen.Int(t, len(c.Args)+1)
			c.Args = append(c.Args[:i:i], append([]string{"missing.clj"}, c.Args[i:]...)...)
		}
	}
	c.List = gen.Pct(t, 35)
	c.Write = gen.Pct(t, 45)
	if c.Stdin {
		c.Write = gen.Pct(t, 8)
	}
	switch gen.Weighted(t, 80, 12, 6) {
	case 1:
		c.Out = outFull
	case 2:
		c.Out = outClosed
	}
	if c.Write && gen.Pct(t, 25) {
		c.Limit = 1 + gen.Int(t, 120)
		if gen.Pct(t, 50) {
			// About the size of a file as it is or as it will be, or between.
			f := &c.Files[gen.Int(t, len(c.Files))]
			if gen.Pct(t, 40) {
				k := 1 + gen.Int(t, 80)
				open := gen.Pick(t, "[\n", "(a\n", "{a\n", "(def x\n")
				f.Text = Src(strings.Repeat(open, k) + "x" + strings.Repeat(map[byte]string{'[': "]", '(': ")", '{': "}"}[open[0]], k))
				f.Repeat = 0
			}
			orig := f.content()
			if out, err := formatDefault(orig); err == nil {
				lo, hi := len(orig), len(out)
				if lo > hi {
					lo, hi = hi, lo
				}
				switch gen.Int(t, 3) {
				case 0:
					c.Limit = lo + gen.Int(t, hi-lo+1)
				case 1:
					c.Limit = lo + gen.Int(t, 3) - 1
				case 2:
					c.Limit = hi + gen.Int(t, 3) - 1
				}
			}
			if c.Limit < 1 {
				c.Limit = 1
			}
		}
	} else if !c.Stdin && gen.Pct(t, 12) {
		c.Nobody = true
		for i := range c.Files {
			c.Files[i].Mode = []uint32{0644, 0444, 0755}[gen.Int(t, 3)]
		}
	}
	return c
}

// ---- C24

type TreeFile struct {
	Path string // below the scratch directory
	Bad  bool   // its content can't be parsed
	Link bool   `json:",omitempty"` // it is a symbolic link to a file elsewhere
}

// DirLink is a symbolic link to a directory.
type DirLink struct{ Path, To string }

// TreeCase is a directory tree.
type TreeCase struct {
	Files []TreeFile
	Dirs  []string // further, empty directories
	Args  []string
	Ext   []string `json:",omitempty"`
	Set   bool     // Ext is configured
	Mode  string   // "", "-l", "-w"
	// Locked are files and directories that the user running the command
	// can't read.
	Locked []string  `json:",omitempty"`
	Links  []DirLink `json:",omitempty"`
}

func clean(p string) string { return filepath.Clean(p) }

func checkC24(c interface{}, o *core.Out) {
	cc := c.(*TreeCase)
	dir, cleanup := scratch()
	defer cleanup()
	root := filepath.Join(dir, "root")
	os.Mkdir(root, 0755)
	isDir := map[string]bool{".": true}
	file := map[string]int{}
	mkdir := func(p string) bool {
		for q := clean(p); q != "."; q = filepath.Dir(q) {
			if _, ok := file[q]; ok {
				return false
			}
			isDir[q] = true
		}
		return os.MkdirAll(filepath.Join(root, p), 0755) == nil
	}
	text := func(i int) string {
		if cc.Files[i].Bad {
			return fmt.Sprintf("( bad%d", i)
		}
		return fmt.Sprintf("( file%d )\n", i)
	}
	for i, f := range cc.Files {
		p := clean(f.Path)
		if _, ok := file[p]; ok || isDir[p] || !mkdir(filepath.Dir(p)) {
			o.Skip("names clash")
			return
		}
		file[p] = i
		name := filepath.Join(root, p)
		if f.Link {
			target := filepath.Join(dir, fmt.Sprintf("target%d", i))
			if err := os.Symlink(target, name); err != nil {
				panic(err)
			}
			name = target
		}
		if err := ioutil.WriteFile(name, []byte(text(i)), 0644); err != nil {
			panic(err)
		}
	}
	for _, d := range cc.Dirs {
		if !mkdir(d) {
			o.Skip("names clash")
			return
		}
	}
	links := map[string]string{}
	for _, l := range cc.Links {
		p := clean(l.Path)
		if _, ok := file[p]; ok || isDir[p] || links[p] != "" || !isDir[clean(l.To)] || !mkdir(filepath.Dir(p)) {
			o.Skip("names clash")
			return
		}
		links[p] = clean(l.To)
		if err := os.Symlink(filepath.Join(root, l.To), filepath.Join(root, p)); err != nil {
			panic(err)
		}
	}
	locked := map[string]bool{}
	for _, p := range cc.Locked {
		p = clean(p)
		if _, ok := file[p]; !ok && !isDir[p] || p == "." {
			o.Skip("missing path")
			return
		}
		locked[p] = true
	}
	// lockedBy returns the outermost locked directory that p is in, or "".
	lockedBy := func(p string) (by string) {
		for ; p != "."; p = filepath.Dir(p) {
			if locked[p] {
				by = p
			}
		}
		return by
	}
	if len(locked) > 0 {
		os.Chmod(dir, 0755)
		for p := range locked {
			os.Chmod(filepath.Join(root, p), 0)
		}
	}
	exts := []string{".clj", ".cljs", ".cljc", ".edn"}
	if cc.Set {
		exts = cc.Ext
		o.Label("extensions configured")
	}
	matches := func(name string) bool {
		if strings.HasPrefix(name, ".") {
			return false
		}
		ext := ""
		if i := strings.LastIndexByte(name, '.'); i >= 0 {
			ext = name[i:]
		}
		for _, e := range exts {
			if e == ext {
				return true
			}
		}
		return false
	}
	var all []string
	for p := range file {
		all = append(all, p)
	}
	// The order of a walk: by the parts of the path.
	walkKey := func(p string) string { return strings.Replace(p, "/", "\x00", -1) }
	sort.Slice(all, func(i, j int) bool { return walkKey(all[i]) < walkKey(all[j]) })
	// The directories that can't be read come before the files in them; they are -1.
	var stops []string
	for p := range locked {
		if isDir[p] && lockedBy(filepath.Dir(p)) == "" {
			stops = append(stops, p)
		}
	}
	var want []int
	fails := false
	for _, a := range cc.Args {
		a = strings.TrimPrefix(a, "ABS/")
		p := clean(a)
		if i, ok := file[p]; ok {
			if lockedBy(p) != "" {
				i = -1
			}
			want = append(want, i)
			o.Label("file named")
			continue
		}
		if to := links[p]; to != "" {
			p = to
			o.Label("link to a directory named")
		}
		if lockedBy(p) != "" || lockedBy(clean(a)) != "" {
			want = append(want, -1)
			continue
		}
		if !isDir[p] {
			want = append(want, -1)
			o.Label("missing file named")
			continue
		}
		walked := all
		if len(stops) > 0 {
			walked = append(append([]string{}, all...), stops...)
			sort.Slice(walked, func(i, j int) bool { return walkKey(walked[i]) < walkKey(walked[j]) })
		}
		for _, f := range walked {
			below := p == "." || strings.HasPrefix(f, p+"/")
			if below && (isDir[f] || locked[f] && matches(filepath.Base(f)) || lockedBy(f) != "" && lockedBy(f) != f) {
				want = append(want, -1)
				continue
			}
			if (p == "." || strings.HasPrefix(f, p+"/")) && matches(filepath.Base(f)) {
				want = append(want, file[f])
			} else if p == "." || strings.HasPrefix(f, p+"/") {
				o.Label("file to leave out")
			}
			if strings.Contains(f, "/.") || strings.HasPrefix(f, ".") && strings.Contains(f, "/") {
				o.Label("file in a hidden directory")
			}
		}
	}
	for i, w := range want {
		if w == -1 {
			fails = true
			want = want[:i]
			o.Label("file or directory that can't be read")
			break
		}
		if cc.Files[w].Bad {
			fails = true
			want = want[:i]
			o.Label("malformed file to format")
			break
		}
	}
	var args []string
	if cc.Set {
		var b strings.Builder
		b.WriteString("{:extensions [")
		for _, e := range cc.Ext {
			fmt.Fprintf(&b, " %q", e)
		}
		b.WriteString("]}")
		cfg := filepath.Join(dir, "config")
		if err := ioutil.WriteFile(cfg, []byte(b.String()), 0644); err != nil {
			panic(err)
		}
		args = append(args, "-c", cfg)
	}
	if cc.Mode != "" {
		args = append(args, cc.Mode)
	}
	for _, a := range cc.Args {
		if strings.HasPrefix(a, "ABS/") {
			a = filepath.Join(root, a[4:])
		}
		args = append(args, a)
	}
	o.NonTrivial = len(want) > 0
	o.Label("mode " + cc.Mode)
	nobody := len(locked) > 0
	if nobody && cc.Mode == "-w" {
		for _, p := range all {
			os.Chown(filepath.Join(root, p), 65534, 65534)
		}
	}
	res := runCljfmt(root, []string{"HOME=" + dir + "/nohome"}, "", outPipe, nobody, 0, args...)
	for p := range locked {
		os.Chmod(filepath.Join(root, p), 0755)
	}
	if res.exit == -3 {
		o.Skip("can't run as another user")
		return
	}
	fail := func(format string, args2 ...interface{}) {
		o.Fail("%s\nfiles: %q\nlocked: %q links: %v\nargs: %q\nextensions: %q\n--- exit status %d, stdout\n%s\n--- stderr\n%s", fmt.Sprintf(format, args2...), all, cc.Locked, cc.Links, args, exts, res.exit, show(res.stdout), res.stderr)
	}
	if res.crashed {
		fail("the command crashes")
		return
	}
	if (res.exit != 0) != fails {
		fail("the exit status is %d; an input can't be parsed: %v", res.exit, fails)
		return
	}
	var got []int
	lines := strings.Split(res.stdout, "\n")
	lines = lines[:len(lines)-1]
	switch cc.Mode {
	case "":
		for _, l := range lines {
			var i int
			if _, err := fmt.Sscanf(l, "(file%d)", &i); err != nil {
				fail("unexpected output %q", l)
				return
			}
			got = append(got, i)
		}
	case "-l":
		for _, l := range lines {
			p := clean(l)
			if filepath.IsAbs(p) {
				p, _ = filepath.Rel(root, p)
			}
			i, ok := file[p]
			for l, to := range links {
				if strings.HasPrefix(p, l+"/") {
					i, ok = file[clean(to+p[len(l):])]
				}
			}
			if !ok {
				fail("unexpected output %q", l)
				return
			}
			got = append(got, i)
		}
	case "-w":
		done := map[int]bool{}
		for _, i := range want {
			if !done[i] {
				done[i] = true
			}
		}
		for _, p := range all {
			i := file[p]
			b, _ := ioutil.ReadFile(filepath.Join(root, p))
			switch {
			case string(b) == text(i) && done[i]:
				fail("%s was not formatted", p)
			case string(b) != text(i) && !done[i] && !fails:
				fail("%s was formatted", p)
			case string(b) != text(i) && string(b) != fmt.Sprintf("(file%d)\n", i):
				fail("%s is damaged", p)
			}
			if o.Failed() {
				return
			}
		}
		if res.stdout != "" {
			fail("unexpected output")
		}
		return
	}
	if fails {
		if len(got) > len(want) {
			got = got[:len(want)]
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		fail("the files processed are %v instead of %v", got, want)
	}
}

// oddName gives a file name without a slash: names tools are known to treat
// specially, and random ones.
func oddName(t *rapid.T) string {
	if w := gen.Word(t); w != "" && gen.Pct(t, 40) && !strings.ContainsAny(w, "/\n\x00") && w != "." && w != ".." {
		return w
	}
	if gen.Pct(t, 50) {
		return gen.Pick(t, "-", "--", "#a#", "#a", "~a", "a~", "_a", "$a", "%a", "%20", "@a", "+a", "=a", "!a", "a!", "*", "?", "[a]", "{a}", "(a)", "a,b", "a;b", "a:b", "a|b", "a&b", "a'b", "a\"b", "a\\b", " a", "a ", "CVS", "RCS", "vendor", "testdata", "out", "bin", "build",
			"project", "data_readers", "deps", "build.boot", "user", "scratch", "README", "LICENSE", "Makefile", "node_modules", "tmp", "temp", "a.tmp", "0", "1", "A", "flycheck_a", ".#a", "..a", "a..", "...", "a.b.c", "日本", "e\u0301", "a_test", "test", "package-info")
	}
	const chars = "abcXYZ019-_.,~#$%@+=! ()[]{}é"
	rs := []rune(chars)
	var b []rune
	for i, n := 0, 1+gen.Int(t, 6); i < n; i++ {
		b = append(b, rs[gen.Int(t, len(rs))])
	}
	return string(b)
}

func treeName(t *rapid.T) string {
	stem := gen.Pick(t, "a", "b", "core", "x.y", "", "é", ".hid", "Makefile", "-a", "b c", ".", "a-b")
	if gen.Pct(t, 25) {
		stem = oddName(t)
	}
	return stem + gen.Pick(t, ".clj", ".clj", ".cljs", ".cljc", ".edn", ".clj.bak", ".CLJ", ".txt", "", ".cljx", ".bb", ".", "clj", ".clj~", ".cl")
}

func treeDir(t *rapid.T) string {
	if gen.Pct(t, 20) {
		if n := oddName(t); n != "" && n != "." && n != ".." {
			return n
		}
	}
	return gen.Pick(t, "src", "test", "a", "b", "a-b", ".git", ".hidden", "x.clj", "d.d", "B", "target", "node_modules", "e é")
}

func genC24(t *rapid.T) interface{} {
	c := &TreeCase{}
	dirs := []string{"."}
	chain, nd, nf := gen.Pct(t, 12), gen.Int(t, 6), 1+gen.Int(t, 8)
	if gen.Pct(t, 3) {
		nd, nf = gen.Int(t, 20), 8+gen.Int(t, 30)
	}
	if n := gen.Threshold(t, 300); n > 0 && gen.Pct(t, 15) {
		if gen.Pct(t, 50) {
			nf = n
		} else if n <= 40 {
			nd, chain = n, true
		}
	}
	for i := 0; i < nd; i++ {
		up := dirs[gen.Int(t, len(dirs))]
		if chain && gen.Pct(t, 80) {
			up = dirs[len(dirs)-1]
		}
		d := filepath.Join(up, treeDir(t))
		dirs = append(dirs, d)
		if gen.Pct(t, 30) {
			c.Dirs = append(c.Dirs, d)
		}
	}
	seen := map[string]bool{}
	for _, d := range dirs {
		seen[d] = true
	}
	for i := 0; i < nf; i++ {
		name := treeName(t)
		if name == "" || name == "." || name == ".." {
			continue
		}
		p := filepath.Join(dirs[gen.Int(t, len(dirs))], name)
		if seen[p] {
			continue
		}
		seen[p] = true
		c.Files = append(c.Files, TreeFile{Path: p, Bad: gen.Pct(t, 4)})
	}
	if gen.Pct(t, 3) {
		c.Args = append(c.Args, gen.Pick(t, "nowhere", "nowhere.clj", "no/where", "./nowhere/"))
	}
	if gen.Pct(t, 3) && !seen["-"] {
		c.Files = append(c.Files, TreeFile{Path: "-"})
		c.Args = append(c.Args, "-")
	}
	used := map[string]bool{".": true}
	for _, f := range c.Files {
		for d := filepath.Dir(f.Path); d != "."; d = filepath.Dir(d) {
			used[d] = true
		}
	}
	for _, d := range c.Dirs {
		for ; d != "."; d = filepath.Dir(d) {
			used[d] = true
		}
	}
	var ds []string
	for d := range used {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for i, n := 0, 1+gen.Weighted(t, 6, 2, 1); i < n; i++ {
		var a string
		switch {
		case gen.Pct(t, 20) && len(c.Files) > 0:
			a = c.Files[gen.Int(t, len(c.Files))].Path
		case gen.Pct(t, 60):
			a = "."
		default:
			a = ds[gen.Int(t, len(ds))]
		}
		switch gen.Weighted(t, 5, 1, 1, 1) {
		case 1:
			a = "./" + a
		case 2:
			a = "ABS/" + a
		case 3:
			if used[a] {
				a += "/"
			} else {
				a = "./" + a
			}
		}
		// A dash is a name like any other; it is the flags that dashes begin.
		if strings.HasPrefix(a, "-") && a != "-" {
			a = "./" + a
		}
		c.Args = append(c.Args, a)
	}
	if gen.Pct(t, 40) {
		c.Set = true
		for i, n := 0, gen.Int(t, 4); i < n; i++ {
			c.Ext = append(c.Ext, gen.Pick(t, ".clj", ".edn", ".bb", ".txt", ".cljx", "", "clj", ".clj.bak", ".bak", ".", ".y", ".cl"))
		}
	}
	c.Mode = gen.Pick(t, "", "-l", "-w")
	for i := range c.Files {
		c.Files[i].Link = gen.Pct(t, 6)
	}
	if gen.Pct(t, 15) {
		for i, n := 0, 1+gen.Int(t, 2); i < n; i++ {
			if k := gen.Int(t, len(c.Files)+len(ds)); k < len(c.Files) {
				c.Locked = append(c.Locked, c.Files[k].Path)
			} else if d := ds[k-len(c.Files)]; d != "." {
				c.Locked = append(c.Locked, d)
			}
		}
	}
	if gen.Pct(t, 15) {
		l := DirLink{filepath.Join(ds[gen.Int(t, len(ds))], gen.Pick(t, "link", "l.d", ".l", "src2", "l.clj")), ds[gen.Int(t, len(ds))]}
		c.Links = append(c.Links, l)
		if gen.Pct(t, 60) {
			c.Args = append(c.Args, l.Path+gen.Pick(t, "", "", "/"))
		}
	}
	return c
}

func init() {
	core.Register(&core.Prop{
		ID: "C23", Quick: 30000, Thorough: 300000, New: func() interface{} { return new(ModeCase) }, Check: checkC23, Gen: genC23, NeedsCLI: true,
		Rule: "sets of generated files (formatted, not formatted, malformed, empty, raw bytes; with various permissions), paths in any order with repetitions and missing files, standard input, " +
			"-l and -w, standard output to a pipe, a full device or a closed pipe, also without permission to write or with a limit on the size of files; the real binary runs in a scratch directory and its output, exit status and the " +
			"files (contents, permissions, modification times) are compared with a model of the command. Every case in the domain is non-trivial.",
	})
	core.Register(&core.Prop{
		ID: "C24", Quick: 45000, Thorough: 300000, New: func() interface{} { return new(TreeCase) }, Check: checkC24, Gen: genC24, NeedsCLI: true,
		Rule: "generated directory trees (hidden files and directories, directories named like Clojure files, names with several and no dots), paths to directories and files, written in several " +
			"ways, symbolic links to files and directories, files and directories that can't be read, with default or configured extensions, without flags or with -l or -w; the files that the real binary processed, and their order, are compared with a model of the walk. " +
			"Non-trivial: at least one file is to be processed.",
	})
}
