package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"pgregory.net/rapid"
)

// Case is one generated case.
type Case struct {
	T        *rapid.T
	Thorough bool
	w        *work
	desc     []func() string
	key      uint64
	nontriv  bool
	classes  []string
}

// Describe adds to the description of the case, which is made only if needed.
func (c *Case) Describe(f func() string) { c.desc = append(c.desc, f) }

// Descf is Describe with a format; arguments are rendered late.
func (c *Case) Descf(f string, a ...any) {
	c.Describe(func() string { return fmt.Sprintf(f, a...) })
}

// Key identifies the case by some bytes of it.
func (c *Case) Key(b []byte) {
	h := (c.key ^ fnv(b)) + 0x9e3779b97f4a7c15
	h = (h ^ h>>30) * 0xbf58476d1ce4e5b9
	c.key = h ^ h>>27
}

// KeyStr identifies the case by a string.
func (c *Case) KeyStr(s string) { c.Key([]byte(s)) }

// NonTrivial marks the case if ok.
func (c *Case) NonTrivial(ok bool) {
	if ok {
		c.nontriv = true
	}
}

// Class counts the case in a class.
func (c *Case) Class(s string) { c.classes = append(c.classes, s) }

// ClassIf counts the case in a class if ok.
func (c *Case) ClassIf(ok bool, s string) {
	if ok {
		c.classes = append(c.classes, s)
	}
}

// Fail ends the case with a violation.
func (c *Case) Fail(f string, a ...any) {
	c.message(fmt.Sprintf(f, a...))
	c.T.Fatalf("violation") // always the same text, or rapid would take failures for different ones
}

func (c *Case) message(s string) string {
	var sb strings.Builder
	sb.WriteString(s)
	for _, d := range c.desc {
		x := d()
		if len(x) > 4000 {
			x = x[:4000] + "..."
		}
		sb.WriteString("\n  ")
		sb.WriteString(x)
	}
	c.w.lastMsg = sb.String()
	return c.w.lastMsg
}

// journal is shared with the parent process: it tells which case was running when the process died.
type journal struct {
	Iter    uint64
	Seed    uint64
	Failing uint64 // a violation was found, rapid is shrinking it
	Hang    uint64
}

type work struct {
	o        opts
	p        *Prop
	j        *journal
	iter     uint64
	seed     uint64
	failed   bool
	failSeed uint64
	firstMsg string
	lastMsg  string
	evals    int
	hashes   map[uint64]struct{}
	nontriv  int
	classes  map[string]int
	samples  []string
	harness  string // the harness itself failed
	logs     []string
	started  atomic.Int64 // CPU time at the start of the case
}

// result of a worker.
type result struct {
	Evals     int
	NonTriv   int
	Classes   map[string]int
	Samples   []string
	Failed    bool
	FailSeed  uint64
	Message   string
	FirstMsg  string
	Choices   string
	Harness   string
	RapidText string
}

const (
	exitHang    = 77
	hangCPU     = 40 * time.Second
	maxStack    = 700 << 20
	addrSpace   = 8 << 30
	shrinkQuick = "15s"
	shrinkSlow  = "60s"
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func worker(o opts) {
	p := props[o.prop]
	if p == nil {
		fatal("no property", o.prop)
	}
	procs := p.Procs
	if procs == 0 {
		procs = 2
	}
	runtime.GOMAXPROCS(procs)
	debug.SetMaxStack(maxStack)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(3 << 30) // a goal only: collect before the limit below is near
	if !p.Race && !p.NoLimit {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: addrSpace, Max: addrSpace})
	}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	if err := os.Chdir(o.dir); err != nil {
		fatal(err)
	}
	w := &work{o: o, p: p, hashes: map[uint64]struct{}{}, classes: map[string]int{}, seed: o.seed}
	f, err := os.OpenFile("journal", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
	if err != nil {
		fatal(err)
	}
	f.Truncate(4096)
	m, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal(err)
	}
	w.j = (*journal)(unsafe.Pointer(&m[0]))
	if p.Setup != nil {
		p.Setup()
	}
	w.started.Store(int64(cpuTime()))
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if cpuTime()-time.Duration(w.started.Load()) > hangCPU {
				w.j.Hang = 1
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(exitHang)
			}
		}
	}()
	shrink := shrinkQuick
	if o.tier == "thorough" {
		shrink = shrinkSlow
	}
	if o.single {
		shrink = "0s"
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	flag.Set("rapid.seed", fmt.Sprint(o.seed))
	flag.Set("rapid.checks", fmt.Sprint(o.checks))
	flag.Set("rapid.shrinktime", shrink)
	if o.failfile != "" {
		flag.Set("rapid.failfile", o.failfile)
	}
	func() {
		defer func() {
			if r := recover(); r != nil && r != errFailNow {
				panic(r)
			}
		}()
		rapid.Check(&tbx{w: w}, w.check)
	}()
	if p.Teardown != nil {
		p.Teardown()
	}
	w.finish()
	os.Exit(0)
}

// check runs one case.
func (w *work) check(t *rapid.T) {
	if !w.failed {
		// as rapid does it
		if w.iter > 0 {
			w.seed += w.iter
		}
		w.j.Iter = w.iter
		w.j.Seed = w.seed
		w.iter++
	}
	w.started.Store(int64(cpuTime()))
	c := &Case{T: t, Thorough: w.o.tier == "thorough", w: w}
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		if r == nil { // Goexit
			return
		}
		if tn := fmt.Sprintf("%T", r); strings.HasPrefix(tn, "rapid.") || strings.HasPrefix(tn, "*rapid.") {
			if strings.Contains(tn, "stopTest") {
				w.note(c)
			}
			panic(r)
		}
		stack := string(debug.Stack())
		if !fromLibrary(stack) {
			w.harness = fmt.Sprintf("panic: %v\n%s", r, stack)
			w.finish()
			os.Exit(3)
		}
		c.message(fmt.Sprintf("panic: %v\n%s", r, trimStack(stack)))
		w.note(c)
		t.Fatalf("panic")
	}()
	w.p.Fn(c)
	ok = true
	if w.failed {
		return
	}
	w.evals++
	for _, s := range c.classes {
		w.classes[s]++
	}
	if c.nontriv {
		w.nontriv++
		if c.key == 0 {
			panic("a case without a key")
		}
		if _, old := w.hashes[c.key]; !old {
			n := len(w.hashes)
			w.hashes[c.key] = struct{}{}
			if len(w.samples) < 6 && n&(n-1) == 0 && n != 1 && n != 2 {
				w.samples = append(w.samples, c.sample())
			}
		}
	}
}

func (c *Case) sample() string {
	var l []string
	for _, d := range c.desc {
		l = append(l, d())
	}
	s := strings.Join(l, "; ")
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return strings.ToValidUTF8(s, "?")
}

// note records the first violation.
func (w *work) note(c *Case) {
	if !w.failed {
		w.failed = true
		w.failSeed = w.seed
		w.firstMsg = w.lastMsg
		w.j.Failing = 1
	}
}

// fromLibrary tells whether a panic came out of the code under test.
func fromLibrary(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "github.com/Sereal/Sereal/Go/sereal.") {
			return true
		}
		if strings.HasPrefix(l, "verif/harness/") || strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func trimStack(s string) string {
	if i := strings.LastIndex(s, "panic("); i >= 0 {
		s = s[i:]
	}
	l := strings.Split(s, "\n")
	if len(l) > 24 {
		l = l[:24]
	}
	return strings.Join(l, "\n")
}

func (w *work) finish() {
	r := result{Evals: w.evals, NonTriv: w.nontriv, Classes: w.classes, Samples: w.samples, Failed: w.failed, FailSeed: w.failSeed,
		Message: w.lastMsg, FirstMsg: w.firstMsg, Harness: w.harness, RapidText: strings.Join(w.logs, "\n")}
	if w.failed {
		fl, _ := filepath.Glob("testdata/rapid/*/*.fail")
		if len(fl) > 0 {
			b, _ := os.ReadFile(fl[len(fl)-1])
			r.Choices = string(b)
		}
	}
	var hb bytes.Buffer
	for h := range w.hashes {
		binary.Write(&hb, binary.LittleEndian, h)
	}
	os.WriteFile("hashes", hb.Bytes(), 0o666)
	b, err := json.Marshal(r)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile("result.tmp", b, 0o666); err != nil {
		fatal(err)
	}
	os.Rename("result.tmp", "result")
}

var errFailNow = new(int)

// tbx stands in for *testing.T.
type tbx struct {
	w      *work
	failed bool
}

func (t *tbx) Helper()      {}
func (t *tbx) Name() string { return t.w.p.ID }
func (t *tbx) log(s string) {
	if len(t.w.logs) < 50 {
		t.w.logs = append(t.w.logs, s)
	}
}
func (t *tbx) Logf(f string, a ...any)   { t.log(fmt.Sprintf(f, a...)) }
func (t *tbx) Log(a ...any)              { t.log(fmt.Sprint(a...)) }
func (t *tbx) Skipf(f string, a ...any)  { t.Logf(f, a...); panic(errFailNow) }
func (t *tbx) Skip(a ...any)             { t.Log(a...); panic(errFailNow) }
func (t *tbx) SkipNow()                  { panic(errFailNow) }
func (t *tbx) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tbx) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tbx) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tbx) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tbx) FailNow()                  { t.failed = true; panic(errFailNow) }
func (t *tbx) Fail()                     { t.failed = true }
func (t *tbx) Failed() bool              { return t.failed }
