// hx runs the property checks. See /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
)

// Prop is one property.
type Prop struct {
	ID       string
	Fn       func(c *Case)
	Quick    int // cases
	Thorough int
	Workers  int    // processes, 8 by default
	Procs    int    // GOMAXPROCS of a worker, 2 by default
	Batch    int    // cases of one process (types made at run time stay in memory), 100000 by default
	Race     bool   // built with the race detector
	Pure     bool   // half of the workers are built without the C libraries
	NoLimit  bool   // no limit of the address space
	Rule     string // how cases are made, and what makes one non-trivial
	Setup    func() // in every worker, before the first case
	Teardown func()
	Assume   []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func main() {
	if len(os.Args) < 2 {
		fatal("usage: hx run|worker|replay|list ...")
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet("hx", flag.ExitOnError)
	var o opts
	fs.StringVar(&o.prop, "prop", "", "property")
	fs.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	fs.Uint64Var(&o.seed, "seed", 1, "seed")
	fs.IntVar(&o.checks, "checks", 0, "cases (0: by tier)")
	fs.IntVar(&o.worker, "worker", 0, "number of the worker")
	fs.StringVar(&o.dir, "dir", "", "scratch directory")
	fs.StringVar(&o.verif, "verif", "/verif", "where evidence and replays go")
	fs.StringVar(&o.failfile, "failfile", "", "fail file to replay")
	fs.BoolVar(&o.single, "single", false, "run the one case of this seed")
	fs.Parse(os.Args[2:])
	switch mode {
	case "run":
		os.Exit(run(o))
	case "worker":
		worker(o)
	case "replay":
		os.Exit(replay(o, fs.Arg(0)))
	case "list":
		var l []string
		for id := range props {
			l = append(l, id)
		}
		sort.Strings(l)
		for _, id := range l {
			fmt.Println(id)
		}
	default:
		if f := tools[mode]; f != nil {
			f(o, fs.Args())
			return
		}
		fatal("unknown mode " + mode)
	}
}

var tools = map[string]func(o opts, args []string){}

type opts struct {
	prop, tier, dir, verif, failfile string
	seed                             uint64
	checks, worker                   int
	single, pure                     bool
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"hx:"}, a...)...)
	os.Exit(2)
}

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Kind     string `json:"kind"` // choices or seed
	Pure     bool   `json:"pure,omitempty"`
	Seed     uint64 `json:"seed"`
	Choices  string `json:"choices,omitempty"` // rapid's fail file
	Message  string `json:"message"`
	HowTo    string `json:"how_to_replay"`
}

func saveReplay(o opts, r replayFile) string {
	dir := filepath.Join(o.verif, "replays")
	os.MkdirAll(dir, 0o777)
	r.HowTo = "/verif/check --replay FILE rebuilds the harness from /repo and runs exactly this case"
	b, _ := json.MarshalIndent(r, "", " ")
	p := filepath.Join(dir, r.Property+"-"+strconv.FormatUint(fnv(b), 16)+".json")
	if err := os.WriteFile(p, append(b, '\n'), 0o666); err != nil {
		fatal(err)
	}
	return p
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}
