package props

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/core"
	"verif/gen"
)

// ---- C25

// A Config is a configuration file: well-formed settings or a broken text.
type Config struct {
	Present bool
	Text    string // not shortened on its own, as it goes with the fields below
	Bad     bool   // malformed
	Ext     []string
	ExtSet  bool
	Indent  map[string]string
	TF      map[string]string
}

// ConfigCase is a text with the configurations and flags to format it with.
type ConfigCase struct {
	Text                Src
	Flag, Env, Home     Config
	UseFlag             bool // -c is given
	UseEnv, UseHome     bool // CLJFMT_CONFIG_PATH and HOME are set
	Transforms          []string
	FlagFirst, SetTwice bool // order of -c; -c is given twice
	EmptyFlag, EmptyEnv bool `json:",omitempty"` // the path is empty: no configuration
	Write               bool
	Ext2                string `json:",omitempty"` // extension of the second file; .txt if empty
	// Decoy is the text of files that look like configurations, but aren't
	// where one is looked for.
	Decoy string   `json:",omitempty"`
	Noise []string `json:",omitempty"` // other environment variables
}

// quoted gives a string literal: as it is, without escapes where it can be.
// (The program doesn't interpret escapes in the configuration.)
func quoted(s string) string {
	if strings.ContainsAny(s, "\"\\") {
		return strconv.Quote(s)
	}
	return `"` + s + `"`
}

var decoyNames = []string{".cljfmt", "d/.cljfmt", "cljfmt", ".cljfmt.edn", "cljfmt.edn", ".cljfmt.clj.cfg", ".config/cljfmt", "home/cljfmt", "home/.cljfmt.edn", "home/.cljfmtrc", "home/.cljfmt.bak", "home/.config/cljfmt", "home/.config/.cljfmt", "home/.config/cljfmt/config", "home/d/.cljfmt"}

// environmentNoise gives variables that mean nothing to the program.
func environmentNoise(t *rapid.T) []string {
	var l []string
	for i, n := 0, gen.Int(t, 4); i < n; i++ {
		name := gen.Pick(t, "CLJFMT", "CLJFMT_CONFIG", "CLJFMT_PATH", "CLJFMT_OPTS", "CLJFMT_CONFIG_PATH_X", "cljfmt_config_path", "XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "PWD", "OLDPWD", "USER", "USERPROFILE", "LANG", "LC_ALL", "TZ", "COLUMNS", "TERM", "NO_COLOR", "EDITOR", "DEBUG", "VERBOSE", "CI", "TMPDIR", "CLJFMT_EXTENSIONS", "CLJFMT_DISABLE", "CLJFMT_WRITE")
		l = append(l, name+"="+gen.Pick(t, "1", "0", "true", "x", "", ".", "home", "home/.config", "d/.cljfmt", "tr_TR.UTF-8", "40"))
	}
	for _, w := range gen.DictWords() {
		if gen.Pct(t, 25) && !strings.ContainsAny(w, "=\x00 ") && !strings.HasPrefix(w, "GO") {
			l = append(l, w+"="+gen.Pick(t, "1", "true", "x", "0"))
		}
	}
	return l
}

func (c *ConfigCase) second() string {
	if c.Ext2 == "" {
		return "in.txt"
	}
	return "in" + c.Ext2
}

func (c *ConfigCase) effective() *Config {
	switch {
	case c.UseFlag && c.EmptyFlag, !c.UseFlag && c.UseEnv && c.EmptyEnv:
		return &Config{}
	case c.UseFlag:
		return &c.Flag
	case c.UseEnv:
		return &c.Env
	case c.UseHome:
		return &c.Home
	}
	return &Config{}
}

func checkC25(c interface{}, o *core.Out) {
	cc := c.(*ConfigCase)
	dir, cleanup := scratch()
	defer cleanup()
	write := func(name, text string) {
		if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0755); err != nil {
			panic(err)
		}
		if err := ioutil.WriteFile(filepath.Join(dir, name), []byte(text), 0644); err != nil {
			panic(err)
		}
	}
	// The walk shows the extensions, the file the overrides.
	src := string(cc.Text)
	write("d/in.clj", src)
	in2 := cc.second()
	write("d/"+in2, src)
	write("home/unrelated", "")
	env := append([]string(nil), cc.Noise...)
	var args []string
	if cc.Decoy != "" {
		for _, n := range decoyNames {
			if strings.HasPrefix(n, "d/") && strings.Contains(cc.Flag.Text+cc.Env.Text+cc.Home.Text, ".cljfmt") {
				continue // it may be one of the files to format
			}
			if n == ".config/cljfmt" || n == "home/.config/cljfmt" {
				n += "/.cljfmt"
			}
			write(n, cc.Decoy)
		}
	}
	flagPath, envPath := filepath.Join(dir, "flag.cfg"), filepath.Join(dir, "env.cfg")
	if cc.EmptyFlag {
		flagPath = ""
	}
	if cc.EmptyEnv {
		envPath = ""
	}
	if cc.UseEnv {
		env = append(env, "CLJFMT_CONFIG_PATH="+envPath)
	}
	if cc.UseHome {
		env = append(env, "HOME="+filepath.Join(dir, "home"))
	}
	if cc.Flag.Present {
		write("flag.cfg", cc.Flag.Text)
	}
	if cc.Env.Present {
		write("env.cfg", cc.Env.Text)
	}
	if cc.Home.Present {
		write("home/.cljfmt", cc.Home.Text)
	}
	if cc.UseFlag && cc.FlagFirst {
		if cc.SetTwice {
			args = append(args, "-c", filepath.Join(dir, "other.cfg"))
		}
		args = append(args, "-c", flagPath)
	}
	on := map[string]bool{}
	for _, n := range defaultOn {
		on[n] = true
	}
	unknown := false
	for i, t := range cc.Transforms {
		name := t[1:]
		flag := "-enable-transform"
		if t[0] == '-' {
			flag = "-disable-transform"
		}
		if (i+len(name))%2 == 0 {
			flag = "-" + flag
		}
		if transformByName[name] == 0 && name != transformNames[0] {
			unknown = true
		}
		on[name] = t[0] == '+'
		if i%3 == 0 {
			args = append(args, flag+"="+name)
		} else {
			args = append(args, flag, name)
		}
	}
	if cc.UseFlag && !cc.FlagFirst {
		args = append(args, "-c="+flagPath)
	}
	if cc.Write {
		args = append(args, "-w")
	}
	args = append(args, "d")

	cfg := cc.effective()
	var opts Opts
	exts := []string{".clj", ".cljs", ".cljc", ".edn"}
	bad := unknown
	if cfg.Present {
		bad = bad || cfg.Bad
		opts.Indent, opts.TF = cfg.Indent, cfg.TF
		if cfg.ExtSet {
			exts = cfg.Ext
			o.Label("extensions")
		}
		if cfg.Bad {
			o.Label("malformed configuration")
		}
		if len(cfg.Indent) > 0 {
			o.Label("indent overrides")
		}
		if len(cfg.TF) > 0 {
			o.Label("thread-first overrides")
		}
	} else if cc.UseFlag && cc.EmptyFlag || !cc.UseFlag && cc.UseEnv && cc.EmptyEnv {
		o.Label("empty path")
	} else if cc.UseFlag {
		o.Label("missing file after -c")
	}
	o.LabelIf(unknown, "unknown transform")
	for _, n := range transformNames {
		if on[n] {
			opts.On = append(opts.On, n)
		}
	}
	formatted, err := formatText(src, opts)
	if err != nil {
		o.Skip("malformed source")
		return
	}
	var want string
	processed := map[string]bool{}
	for _, f := range []string{"in.clj", in2} {
		for _, e := range exts {
			if filepath.Ext(f) == e && !processed[f] {
				processed[f] = true
				if !cc.Write {
					want += formatted
				}
			}
		}
	}
	if plain, err := formatText(src, defaultOpts()); bad || err == nil && plain != formatted && len(processed) > 0 {
		o.NonTrivial = true
	}

	res := runCljfmt(dir, env, "", outPipe, false, 0, args...)
	fail := func(format string, args2 ...interface{}) {
		o.Fail("%s\nargs: %q env: %q\n--- flag.cfg (present: %v)\n%s\n--- env.cfg (present: %v)\n%s\n--- home/.cljfmt (present: %v)\n%s\n--- source\n%s\n--- exit status %d, stdout\n%s\n--- stderr\n%s",
			fmt.Sprintf(format, args2...), args, env, cc.Flag.Present, show(cc.Flag.Text), cc.Env.Present, show(cc.Env.Text), cc.Home.Present, show(cc.Home.Text),
			show(src), res.exit, show(res.stdout), res.stderr)
	}
	files := map[string]string{}
	for _, f := range []string{"in.clj", in2} {
		b, _ := ioutil.ReadFile(filepath.Join(dir, "d", f))
		files[f] = string(b)
	}
	if bad {
		switch {
		case res.crashed:
			fail("the command crashes")
		case res.exit == 0:
			fail("the exit status is 0 though a setting is malformed or unknown")
		case res.stderr == "":
			fail("the malformed or unknown setting is not reported")
		case res.stdout != "":
			fail("there is output though a setting is malformed or unknown")
		case files["in.clj"] != src || files[in2] != src:
			fail("a file is formatted though a setting is malformed or unknown")
		}
		return
	}
	if res.exit != 0 {
		fail("the exit status is %d though all settings are fine", res.exit)
		return
	}
	if missing := cc.UseFlag && !cc.EmptyFlag && !cc.Flag.Present; missing && res.stderr == "" {
		fail("the file named by -c is missing and that is not reported")
		return
	} else if !missing && res.stderr != "" {
		fail("all settings are fine and there is a report on standard error")
		return
	}
	if res.stdout != want {
		fail("the output should be (%v)\n%s", opts, show(want))
		return
	}
	for f, got := range files {
		w := src
		if cc.Write && processed[f] {
			w = formatted
		}
		if got != w {
			fail("d/%s should hold (%v)\n%s\nbut holds\n%s", f, opts, show(w), show(got))
			return
		}
	}
}

// anyExt gives a file extension.
func anyExt(t *rapid.T) string {
	if gen.Pct(t, 50) {
		return gen.Pick(t, ".clj", ".cljs", ".cljc", ".edn", ".cljx", ".cljr", ".bb", ".CLJ", ".Clj", ".cl", ".c", ".", ".clj~", ".hl", ".boot", ".joke", ".cljd", ".lpy")
	}
	return "." + randomWord(t, 5)
}

func randomWord(t *rapid.T, max int) string {
	if w := gen.Word(t); w != "" && gen.Pct(t, 30) && strings.Trim(w, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_") == "" {
		return w
	}
	const chars = "abcdefghijklmnopqrstuvwxyzABXYZ0189-_"
	var b []byte
	for i, n := 0, 1+gen.Int(t, max); i < n; i++ {
		b = append(b, chars[gen.Int(t, len(chars))])
	}
	return string(b)
}

// misspelt changes a word into one that is not among the good ones.
func misspelt(t *rapid.T, w string, good []string) string {
	x := w
	i := gen.Int(t, len(w))
	switch gen.Int(t, 7) {
	case 0:
		x = w[:i] + w[i+1:]
	case 1:
		x = w[:i] + randomWord(t, 1) + w[i:]
	case 2:
		x = w[:i]
	case 3:
		x = w + randomWord(t, 3)
	case 4:
		x = strings.ToUpper(w[:i+1]) + w[i+1:]
	case 5:
		x = randomWord(t, 10)
	case 6:
		x = strings.Replace(w, "-", gen.Pick(t, "_", "", "--", "."), 1)
	}
	for _, g := range good {
		if x == g {
			return w + "x"
		}
	}
	return x
}

var configKeys = []string{"extensions", "indent-overrides", "thread-first-overrides"}

// badKey gives a keyword that is not a setting.
func badKey(t *rapid.T) string {
	if gen.Pct(t, 50) {
		return gen.Pick(t, ":extension", ":indent", "::extensions", ":indent-override", ":thread-first", ":transforms", ":Extensions", ":cljfmt/extensions", ":disable-transforms", ":enable-transforms")
	}
	w := misspelt(t, gen.Pick(t, configKeys...), configKeys)
	if w == "" || strings.Contains("0123456789", w[:1]) || w == "-" {
		w = "k" + w
	}
	return ":" + w
}

// badStyleName gives a keyword that is not one of the styles.
func badStyleName(t *rapid.T, styles []string) string {
	if gen.Pct(t, 50) {
		return gen.Pick(t, ":cond3", ":Normal", ":listbody", ":cond", ":none", "::normal", ":true", ":body", ":inner", ":block")
	}
	w := misspelt(t, gen.Pick(t, styles...), styles)
	if w == "" || strings.Contains("0123456789", w[:1]) || w == "-" {
		w = "s" + w
	}
	return ":" + w
}

// cfgGap is layout between the elements of a configuration.
func cfgGap(t *rapid.T) string {
	return gen.Pick(t, " ", " ", " ", "\n", "  ", ",", " ; c\n", ";)\n", "\t", " #_ x ", " #_\"y\" ", "\n\n")
}

// genConfig writes a configuration file.
func genConfig(t *rapid.T, indent, tf map[string]string) Config {
	c := Config{Present: gen.Pct(t, 88)}
	broken := ""
	if gen.Pct(t, 12) {
		c.Bad = true
		broken = gen.Pick(t, "syntax", "key", "odd", "kind", "two", "style", "name", "odd2", "styletype", "seq", "keytype", "exttype", "tfstyle")
	}
	type setting struct{ k, v string }
	var settings []setting
	pairs := func(m map[string]string, styles []string, badStyle bool) string {
		var names []string
		for n := range m {
			names = append(names, n)
		}
		sort.Strings(names)
		if len(names) > 1 && gen.Pct(t, 50) {
			i := gen.Int(t, len(names))
			names[0], names[i] = names[i], names[0]
		}
		var b strings.Builder
		open, close := "[", "]"
		if gen.Pct(t, 25) {
			open, close = "(", ")"
		}
		b.WriteString(open)
		first := true
		gap := func() {
			if !first || gen.Pct(t, 15) {
				b.WriteString(cfgGap(t))
			}
			first = false
		}
		done := map[string]bool{}
		for _, n := range names {
			if done[n] {
				continue
			}
			group := []string{n}
			done[n] = true
			for _, n2 := range names {
				if !done[n2] && m[n2] == m[n] && gen.Pct(t, 60) {
					group = append(group, n2)
					done[n2] = true
				}
			}
			if gen.Pct(t, 15) { // given again later
				gap()
				b.WriteString(quoted(gen.Pick(t, group...)))
				gap()
				b.WriteString(":" + gen.Pick(t, styles...))
			}
			if gen.Pct(t, 15) { // in a long sequence, next to names that occur nowhere
				var l []string
				for i, k := 0, 1+gen.Int(t, 8); i < k; i++ {
					l = append(l, fmt.Sprintf("zz-pad%d", i))
				}
				at := gen.Int(t, len(l)+1)
				group = append(l[:at:at], append(group, l[at:]...)...)
			}
			gap()
			if len(group) > 1 || gen.Pct(t, 30) {
				o, cl := "[", "]"
				if gen.Pct(t, 30) {
					o, cl = "(", ")"
				}
				b.WriteString(o)
				for i, g := range group {
					if i > 0 {
						b.WriteString(cfgGap(t))
					}
					b.WriteString(quoted(g))
				}
				b.WriteString(cl)
			} else {
				b.WriteString(quoted(group[0]))
			}
			gap()
			b.WriteString(":" + m[n])
		}
		switch {
		case badStyle:
			gap()
			b.WriteString("\"q\" " + badStyleName(t, styles))
		case broken == "odd2":
			gap()
			b.WriteString("\"q\"")
		case broken == "name":
			gap()
			b.WriteString(gen.Pick(t, "q", ":q", "1", "[q]", "[\"q\" r]", "nil", "{\"a\" \"b\"}", "#{\"a\"}") + " :normal")
		case broken == "styletype":
			gap()
			b.WriteString("\"q\" " + gen.Pick(t, "\"normal\"", "normal", "[:normal]", "1", "nil"))
		}
		b.WriteString(close)
		return b.String()
	}
	if c.Ext, c.ExtSet = nil, gen.Pct(t, 35); c.ExtSet || broken == "exttype" {
		c.ExtSet = true
		open, close := "[", "]"
		if gen.Pct(t, 50) {
			open, close = "(", ")"
		}
		v := open
		for i, n := 0, gen.Int(t, 4); i < n; i++ {
			e := gen.Pick(t, ".clj", ".txt", ".edn", ".x", "txt", "")
			if gen.Pct(t, 30) {
				e = anyExt(t)
			}
			c.Ext = append(c.Ext, e)
			if i > 0 {
				v += cfgGap(t)
			}
			v += quoted(e)
		}
		if broken == "exttype" {
			v += " " + gen.Pick(t, "clj", ":clj", "1", "[\".clj\"]", "nil")
		}
		settings = append(settings, setting{":extensions", v + close})
	}
	if len(indent) > 0 || gen.Pct(t, 10) || broken == "style" || broken == "name" || broken == "odd2" || broken == "styletype" {
		c.Indent = indent
		settings = append(settings, setting{":indent-overrides", pairs(indent, styleNames, broken == "style")})
	}
	if len(tf) > 0 || gen.Pct(t, 5) || broken == "tfstyle" {
		c.TF = tf
		settings = append(settings, setting{":thread-first-overrides", pairs(tf, []string{"normal", "cond->"}, broken == "tfstyle")})
	}
	if broken == "seq" {
		i := gen.Int(t, 3)
		k := []string{":extensions", ":indent-overrides", ":thread-first-overrides"}[i]
		v := gen.Pick(t, "\"x\"", ":x", "x", "{\"a\" :normal}", "nil", "#{\".clj\"}", "'(\"a\" :normal)", "1")
		found := false
		for j := range settings {
			if settings[j].k == k {
				settings[j].v = v
				found = true
			}
		}
		if !found {
			settings = append(settings, setting{k, v})
		}
	}
	switch broken {
	case "key":
		settings = append(settings, setting{badKey(t), gen.Pick(t, "[]", "()", "1")})
	case "keytype":
		settings = append(settings, setting{gen.Pick(t, "extensions", "\"extensions\"", "[:extensions]", "1", "nil", "\":extensions\""), gen.Pick(t, "[]", "(\".clj\")")})
	}
	if len(settings) > 1 {
		i := gen.Int(t, len(settings))
		settings[0], settings[i] = settings[i], settings[0]
	}
	var b strings.Builder
	if gen.Pct(t, 20) {
		b.WriteString(cfgGap(t))
	}
	if broken == "" && len(settings) == 0 && gen.Pct(t, 30) {
		// Nothing at all.
		b.WriteString(gen.Pick(t, "", "\n", "; nothing\n", "{}"))
		c.Text = b.String()
		return c
	}
	open, close := "{", "}"
	if broken == "kind" {
		open, close = gen.Pick(t, "[", "(", "#{"), ""
		close = map[string]string{"[": "]", "(": ")", "#{": "}"}[open]
	}
	b.WriteString(open)
	for i, s := range settings {
		if i > 0 || gen.Pct(t, 15) {
			b.WriteString(cfgGap(t))
		}
		b.WriteString(s.k)
		b.WriteString(cfgGap(t))
		b.WriteString(s.v)
	}
	if broken == "odd" {
		b.WriteString(" " + gen.Pick(t, ":extensions", ":indent-overrides", ":x"))
	}
	if gen.Pct(t, 15) {
		b.WriteString(cfgGap(t))
	}
	if broken == "syntax" {
		b.WriteString(gen.Pick(t, "", "]", "\"", ")"))
	} else {
		b.WriteString(close)
	}
	if gen.Pct(t, 30) {
		b.WriteString(gen.Pick(t, "\n", " ; end\n", " ", "\n\n", " #_{:x 1}\n"))
	}
	if broken == "two" {
		b.WriteString(gen.Pick(t, " {}", " x", "{:extensions []}", " \"\"", " nil"))
	}
	c.Text = b.String()
	return c
}

func genC25(t *rapid.T) interface{} {
	c := &ConfigCase{}
	var heads []string
	switch gen.Weighted(t, 5, 3, 2) {
	case 0:
		g := gen.New(t, gen.RandomProfile(t))
		g.OverrideFile()
		for _, n := range gen.OverNames {
			heads = append(heads, n, g.Rename(gen.Pick(t, gen.OverLibs...))+"/"+n)
		}
		c.Text = Src(g.String())
	case 1:
		g := gen.New(t, gen.RandomProfile(t))
		heads = []string{"foo", "->", "x->", "f", "cond->"}
		g.ThreadFile(heads)
		c.Text = Src(g.String())
	case 2:
		switch gen.Int(t, 3) {
		case 0:
			c.Text = Src(gen.RequireSource(t))
		case 1:
			c.Text = Src(gen.NSSource(t))
		case 2:
			g := gen.New(t, gen.RandomProfile(t))
			g.BreakFile()
			c.Text = Src(g.String())
		}
		heads = []string{"defn", "if", "foo"}
	}
	cfg := func() Config {
		indent, tf := map[string]string{}, map[string]string{}
		if gen.Pct(t, 70) {
			for i, n := 0, gen.Int(t, 5); i < n; i++ {
				indent[gen.Pick(t, heads...)] = gen.Pick(t, styleNames...)
			}
		}
		if gen.Pct(t, 40) {
			for i, n := 0, gen.Int(t, 3); i < n; i++ {
				tf[gen.Pick(t, heads...)] = gen.Pick(t, "normal", "cond->")
			}
		}
		return genConfig(t, indent, tf)
	}
	c.Flag, c.Env, c.Home = cfg(), cfg(), cfg()
	c.UseFlag, c.UseEnv, c.UseHome = gen.Pct(t, 50), gen.Pct(t, 50), gen.Pct(t, 80)
	c.FlagFirst, c.SetTwice, c.Write = gen.Pct(t, 50), gen.Pct(t, 20), gen.Pct(t, 20)
	if gen.Pct(t, 40) {
		c.Ext2 = anyExt(t)
		if c.Ext2 == ".clj" {
			c.Ext2 = ""
		}
		for _, cfg := range []*Config{&c.Flag, &c.Env, &c.Home} {
			if cfg.ExtSet && !cfg.Bad && len(cfg.Ext) > 0 && gen.Pct(t, 50) {
				c.Ext2 = cfg.Ext[gen.Int(t, len(cfg.Ext))]
				if c.Ext2 == ".clj" || !strings.HasPrefix(c.Ext2, ".") {
					c.Ext2 = ""
				}
			}
		}
	}
	c.EmptyFlag, c.EmptyEnv = gen.Pct(t, 6), gen.Pct(t, 6)
	if gen.Pct(t, 25) {
		if d := cfg(); d.Present && !strings.Contains(d.Text, "\x00") {
			c.Decoy = d.Text
		}
	}
	if gen.Pct(t, 30) {
		c.Noise = environmentNoise(t)
	}
	if gen.Pct(t, 60) {
		for i, n := 0, gen.Int(t, 6); i < n; i++ {
			name := gen.Pick(t, transformNames...)
			if gen.Pct(t, 2) {
				name = gen.Pick(t, "nope", "sort", "use-to-requires", "Sort-import-require", "remove_extra_blank_lines", "")
				if gen.Pct(t, 60) {
					name = misspelt(t, gen.Pick(t, transformNames...), transformNames)
				}
			}
			c.Transforms = append(c.Transforms, gen.Pick(t, "+", "-")+name)
		}
	}
	return c
}

func init() {
	core.Register(&core.Prop{
		ID: "C25", Quick: 60000, Thorough: 300000, New: func() interface{} { return new(ConfigCase) }, Check: checkC25, Gen: genC25, NeedsCLI: true,
		Rule: "up to three configuration files (after -c, in CLJFMT_CONFIG_PATH, in HOME), each present or missing or (the first two) with an empty path, well-formed (names singly and in sequences, any layout, comments, discards, " +
			"lists and vectors, repeated names) or malformed in one of 13 ways, sequences of -enable-transform and -disable-transform in several spellings, and a source that the settings " +
			"affect; the output of the real binary must be what the library gives with the options that the reference reading of the settings yields. Non-trivial: the result differs from that " +
			"with the default settings, or a setting is malformed.",
	})
}
