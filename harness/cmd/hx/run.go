package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

type outcome struct {
	pure   bool
	ran    bool
	start  uint64
	res    *result
	j      journal
	err    error
	code   int
	stderr string
	hashes []uint64
}

func (o outcome) died() bool { return o.res == nil }

// launch runs one worker process.
func launch(o opts, p *Prop, dir string, seed uint64, checks int, extra ...string) outcome {
	out := outcome{start: seed, pure: o.pure}
	os.MkdirAll(dir, 0o777)
	args := append([]string{"worker", "-prop", p.ID, "-tier", o.tier, "-seed", fmt.Sprint(seed), "-checks", fmt.Sprint(checks),
		"-dir", dir, "-verif", o.verif}, extra...)
	self, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	if o.pure {
		self = os.Getenv("VERIF_PURE")
	}
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all")
	errf, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		fatal(err)
	}
	cmd.Stderr = errf
	cmd.Stdout = errf
	out.err = cmd.Run()
	errf.Close()
	out.code = cmd.ProcessState.ExitCode()
	b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	if len(b) > 12000 {
		b = append(b[:6000:6000], b[len(b)-6000:]...)
	}
	out.stderr = string(b)
	if b, err := os.ReadFile(filepath.Join(dir, "journal")); err == nil && len(b) >= int(unsafe.Sizeof(journal{})) {
		out.j = journal{binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:]), binary.LittleEndian.Uint64(b[16:]), binary.LittleEndian.Uint64(b[24:])}
	}
	if b, err := os.ReadFile(filepath.Join(dir, "result")); err == nil && (out.err == nil || out.code == 3) {
		out.res = new(result)
		if err := json.Unmarshal(b, out.res); err != nil {
			out.res = nil
		}
	}
	if b, err := os.ReadFile(filepath.Join(dir, "hashes")); err == nil {
		for len(b) >= 8 {
			out.hashes = append(out.hashes, binary.LittleEndian.Uint64(b))
			b = b[8:]
		}
	}
	return out
}

type violation struct {
	r replayFile
}

func run(o opts) int {
	start := time.Now()
	p := props[o.prop]
	if p == nil {
		fatal("no property", o.prop)
	}
	total := p.Quick
	if o.tier == "thorough" {
		total = p.Thorough
	}
	if o.checks > 0 {
		total = o.checks
	}
	nw := p.Workers
	if nw == 0 {
		nw = 8
	}
	per := (total + nw - 1) / nw
	batch := p.Batch
	if batch == 0 {
		batch = 100000
	}
	nb := (per + batch - 1) / batch
	per = (per + nb - 1) / nb
	scratch, err := os.MkdirTemp(o.dir, "hx-"+p.ID+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(scratch)

	outs := make([]outcome, nw*nb)
	var wg sync.WaitGroup
	var stop atomic.Bool
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int, o opts) {
			defer wg.Done()
			o.pure = p.Pure && i%2 == 1 && os.Getenv("VERIF_PURE") != ""
			for k := 0; k < nb && !stop.Load(); k++ {
				w := i + nw*k
				seed := fnv([]byte(fmt.Sprintf("%d %s %d", o.seed, p.ID, w)))&(1<<48-1) | 1
				dir := filepath.Join(scratch, fmt.Sprint("w", w))
				outs[w] = launch(o, p, dir, seed, per)
				if outs[w].died() || outs[w].res.Failed || outs[w].res.Harness != "" {
					stop.Store(true)
				}
				outs[w].ran = true
				os.RemoveAll(dir)
			}
		}(i, o)
	}
	wg.Wait()

	var viols []violation
	var broken []string
	evals, nontriv := 0, 0
	classes := map[string]int{}
	var samples []string
	distinct := map[uint64]struct{}{}
	for i, out := range outs {
		if !out.ran {
			continue
		}
		for _, h := range out.hashes {
			distinct[h] = struct{}{}
		}
		o := o
		o.pure = out.pure
		if out.died() {
			// does the case it was running kill a process again?
			if out.j.Seed == 0 {
				broken = append(broken, fmt.Sprintf("worker %d did not start: %v (%d)\n%s", i, out.err, out.code, out.stderr))
				continue
			}
			evals += int(out.j.Iter)
			again := launch(o, p, filepath.Join(scratch, fmt.Sprint("r", i)), out.j.Seed, 1, "-single")
			if p.Race && !again.died() && !again.res.Failed { // schedules differ
				for k := 0; k < 20 && !again.died() && !again.res.Failed; k++ {
					again = launch(o, p, filepath.Join(scratch, fmt.Sprint("r", i, "-", k)), out.j.Seed, 1, "-single")
				}
			}
			race := strings.Contains(out.stderr, "DATA RACE")
			switch {
			case again.died() && again.j.Seed != 0:
				viols = append(viols, violation{replayFile{Property: p.ID, Tier: o.tier, Pure: out.pure, Kind: "seed", Seed: out.j.Seed, Message: deathMessage(again)}})
			case !again.died() && again.res.Failed:
				viols = append(viols, violation{replayFile{Property: p.ID, Tier: o.tier, Pure: out.pure, Kind: "seed", Seed: out.j.Seed, Message: again.res.Message}})
			case race:
				// the detector has no false positives
				viols = append(viols, violation{replayFile{Property: p.ID, Tier: o.tier, Pure: out.pure, Kind: "seed", Seed: out.j.Seed, Message: deathMessage(out)}})
			default:
				// was it ended from outside, for want of memory?
				second := launch(o, p, filepath.Join(scratch, fmt.Sprint("s", i)), out.start, per)
				if !second.died() && !second.res.Failed && second.res.Harness == "" {
					evals += second.res.Evals - int(out.j.Iter)
					for _, h := range second.hashes {
						distinct[h] = struct{}{}
					}
					continue
				}
				broken = append(broken, fmt.Sprintf("worker %d died in case %d (seed %d), which is fine alone: %v (%d)\n%s", i, out.j.Iter, out.j.Seed, out.err, out.code, out.stderr))
			}
			continue
		}
		r := out.res
		evals += r.Evals
		nontriv += r.NonTriv
		for k, v := range r.Classes {
			classes[k] += v
		}
		samples = append(samples, r.Samples...)
		if r.Harness != "" {
			broken = append(broken, "harness: "+r.Harness)
			continue
		}
		if r.Failed {
			msg := r.Message
			if msg == "" {
				msg = r.FirstMsg
			}
			v := replayFile{Property: p.ID, Tier: o.tier, Pure: out.pure, Kind: "seed", Seed: r.FailSeed, Message: msg}
			if r.Choices != "" {
				v.Kind, v.Choices = "choices", r.Choices
			}
			viols = append(viols, violation{v})
		} else if r.Evals < per {
			broken = append(broken, fmt.Sprintf("worker %d ran %d of %d cases: %s", i, r.Evals, per, r.RapidText))
		}
	}

	sort.Strings(samples)
	if len(samples) > 12 {
		var l []string
		for i := 0; i < 12; i++ {
			l = append(l, samples[i*len(samples)/12])
		}
		samples = l
	}
	if samples == nil {
		samples = []string{}
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     o.tier,
		"seed":     o.seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             samples,
			"classes":             classes,
			"workers":             nw,
		},
		"assumptions": append([]string{"the format model in harness/spec reads the specification correctly"}, p.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viols),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err)
	}
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o777)
	if err := os.WriteFile(filepath.Join(o.verif, "evidence", p.ID+".json"), append(b, '\n'), 0o666); err != nil {
		fatal(err)
	}

	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs\n", p.ID, o.tier, o.seed, evals, len(distinct), time.Since(start).Seconds())
	if os.Getenv("HX_CLASSES") != "" {
		var ks []string
		for k := range classes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-40s %d\n", k, classes[k])
		}
	}
	for _, v := range viols {
		path := saveReplay(o, v.r)
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", p.ID, path, indent(v.r.Message))
	}
	if len(viols) > 0 {
		return 1
	}
	if len(broken) > 0 {
		for i, s := range broken {
			if i == 2 {
				break
			}
			if len(s) > 1200 {
				s = s[:1200] + "..."
			}
			fmt.Fprintln(os.Stderr, s)
		}
		return 2
	}
	return 0
}

func deathMessage(o outcome) string {
	s := o.stderr
	if len(s) > 3000 {
		s = s[:3000]
	}
	if o.code == exitHang {
		return fmt.Sprintf("the case used more than %v of CPU time\n%s", hangCPU, s)
	}
	return fmt.Sprintf("the process died: %v\n%s", o.err, s)
}

func indent(s string) string {
	return "    " + strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n    ")
}

func replay(o opts, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err)
	}
	p := props[r.Property]
	if p == nil {
		fatal("no property", r.Property)
	}
	o.tier, o.pure = r.Tier, r.Pure
	scratch, err := os.MkdirTemp(o.dir, "hx-replay-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(scratch)
	var out outcome
	tries := 1
	if p.Race {
		tries = 50
	}
	for i := 0; i < tries; i++ {
		dir := filepath.Join(scratch, fmt.Sprint("w", i))
		if r.Kind == "choices" {
			os.MkdirAll(dir, 0o777)
			ff := filepath.Join(dir, "replay.fail")
			os.WriteFile(ff, []byte(r.Choices), 0o666)
			out = launch(o, p, dir, r.Seed, 1, "-single", "-failfile", ff)
		} else {
			out = launch(o, p, dir, r.Seed, 1, "-single")
		}
		if out.died() || out.res.Failed || out.res.Harness != "" {
			break
		}
	}
	switch {
	case out.died():
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", p.ID, file, indent(deathMessage(out)))
		return 1
	case out.res.Harness != "":
		fmt.Fprintln(os.Stderr, out.res.Harness)
		return 2
	case out.res.Failed:
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", p.ID, file, indent(out.res.Message))
		return 1
	}
	fmt.Println("not reproduced: the case passes")
	return 0
}
