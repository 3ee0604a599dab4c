// Command verif checks the properties of goclj listed in /verif/properties.jsonl.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"syscall"
	"time"

	"verif/core"
	"verif/gen"
	"verif/props"
)

// repo is the directory of the code under test.
func repo() string {
	if dir := os.Getenv("VERIF_REPO"); dir != "" {
		return dir
	}
	return "/repo"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif run|worker|replay|list ...")
		os.Exit(2)
	}
	args := os.Args[2:]
	switch os.Args[1] {
	case "list":
		for _, id := range core.IDs() {
			fmt.Println(id)
		}
	case "run":
		var cfg core.DriverConfig
		fs := flag.NewFlagSet("run", flag.ExitOnError)
		fs.StringVar(&cfg.Prop, "prop", "", "")
		fs.StringVar(&cfg.Verif, "verif", "/verif", "")
		fs.StringVar(&cfg.Tier, "tier", "quick", "")
		fs.IntVar(&cfg.Workers, "workers", 8, "")
		fs.IntVar(&cfg.Checks, "checks", 0, "")
		fs.Parse(args)
		cfg.KnownFile = filepath.Join(cfg.Verif, "known_findings.txt")
		cfg.Seed = 1
		if s := os.Getenv("VERIF_SEED"); s != "" {
			n, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				for _, c := range s {
					n = n*131 + uint64(c)
				}
			}
			cfg.Seed = n
		}
		os.Exit(core.Drive(cfg))
	case "worker":
		var cfg core.WorkerConfig
		fs := flag.NewFlagSet("worker", flag.ExitOnError)
		fs.StringVar(&cfg.Prop, "prop", "", "")
		fs.Uint64Var(&cfg.Seed, "seed", 1, "")
		fs.IntVar(&cfg.Checks, "checks", 100, "")
		fs.StringVar(&cfg.Out, "out", "", "")
		fs.StringVar(&cfg.Current, "current", "", "")
		fs.StringVar(&cfg.Corpus, "corpus", "", "")
		fs.DurationVar(&cfg.Shrink, "shrink", 8*time.Second, "")
		fs.Parse(args)
		gen.LoadDict(repo())
		os.Exit(core.Worker(cfg))
	case "constants":
		// constants prints the constants in the Go files below a directory.
		b, err := json.MarshalIndent(gen.Constants(args[0]), "", " ")
		if err != nil {
			panic(err)
		}
		fmt.Println(string(b))
	case "hist":
		if err := props.HistChild(os.Stdin, os.Stdout); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	case "limit":
		// limit runs a command that can't make files larger than a number of bytes.
		n, err := strconv.ParseUint(args[0], 10, 64)
		if err == nil {
			err = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
		}
		if err == nil {
			err = syscall.Exec(args[1], args[1:], os.Environ())
		}
		fmt.Fprintln(os.Stderr, "limit:", err)
		os.Exit(97)
	case "replay", "replay1":
		// replay evaluates the case of a replay file: exit 1 if the property is violated.
		if len(args) != 1 {
			fmt.Fprintln(os.Stderr, "usage: verif replay FILE")
			os.Exit(2)
		}
		go core.WatchMemory()
		go func() {
			time.Sleep(core.HangLimit)
			fmt.Fprintln(os.Stderr, "VERIF-HANG: the case did not finish")
			os.Exit(4)
		}()
		o, id, err := core.RunCase(args[0])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if o.Failed() {
			fmt.Println(core.Printable(o.Failure))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, args[0])
			os.Exit(1)
		}
		fmt.Printf("%s holds for this case (labels: %v)\n", id, o.Labels)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}
