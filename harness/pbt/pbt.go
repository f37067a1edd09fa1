// Package pbt is the engine all checks share. A property is a list of parts; a part is a
// generator of cases (plain data, JSON) and an oracle that runs one case against the code in
// /repo. rapid draws and shrinks the cases; a case alone is enough to replay a failure.
package pbt

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx is what an oracle reports about a case it runs.
type Ctx struct {
	nontrivial bool
	classes    map[string]bool
	Scratch    string // A directory of this process, emptied by whoever uses it
}

// Class counts the case under a name in the evidence.
func (c *Ctx) Class(format string, a ...any) { c.classes[fmt.Sprintf(format, a...)] = true }

// Nontrivial marks the case as non-trivial, by the rule of the property.
func (c *Ctx) Nontrivial() { c.nontrivial = true }

// NontrivialIf marks it if cond.
func (c *Ctx) NontrivialIf(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Part is one executable form of a property.
type Part interface {
	name() string
	checks(tier string) int
	check(e *engine, t *testing.T)
	runJSON(e *engine, raw []byte) error
}

type part[T any] struct {
	nm              string
	quick, thorough int
	gen             func(*rapid.T) T
	run             func(*Ctx, T) error
}

// NewPart makes a part out of a generator and an oracle, with the number of cases per tier
// (thorough: per process).
func NewPart[T any](name string, quick, thorough int, gen func(*rapid.T) T, run func(*Ctx, T) error) Part {
	return &part[T]{name, quick, thorough, gen, run}
}

func (p *part[T]) name() string { return p.nm }

// checks is the number of cases: the driver asks for more where they are cheap, and has parts
// of a few expensive ones done by one of the processes.
func (p *part[T]) checks(tier string) int {
	n := p.quick
	if tier == "thorough" {
		n = p.thorough
	} else if n < 10 && os.Getenv("VERIF_SHARD") != "" && os.Getenv("VERIF_SHARD") != "0" {
		return 0
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SCALE")); err == nil && s > 1 && n >= 100 {
		n *= s
	}
	return n
}

// B is a string of any bytes that survives JSON.
type B string

func (b B) MarshalText() ([]byte, error) { return []byte(strconv.QuoteToASCII(string(b))), nil }
func (b *B) UnmarshalText(t []byte) error {
	s, err := strconv.Unquote(string(t))
	*b = B(s)
	return err
}

type failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error,omitempty"`
	Before   []prior         `json:"before,omitempty"` // run first, where the failure needs a past
}

type prior struct {
	Part string          `json:"part"`
	Case json.RawMessage `json:"case"`
}

// history is the file of the cases a process ran, one to a line, written before they run: the
// last is the one a process died of. The driver needs the others where a case fails for what
// was left behind by those before.
type history struct {
	path string
	f    *os.File
	n    int
}

func openHistory(path string) (*history, error) {
	f, err := os.Create(path)
	return &history{path: path, f: f}, err
}

func (h *history) add(part string, js []byte) {
	if h.n > 1<<20 { // An older half is enough
		h.f.Close()
		os.Rename(h.path, h.path+".old")
		h.f, _ = os.Create(h.path)
		h.n = 0
	}
	rec, _ := json.Marshal(prior{part, js})
	n, _ := h.f.Write(append(rec, '\n'))
	h.n += n
}

// keep sets aside what led to the first failure; what follows is shrinking.
func (h *history) keep() {
	h.f.Close()
	os.Rename(h.path, h.path+".first")
	os.Rename(h.path+".old", h.path+".first.old")
	h.f, _ = os.Create(h.path)
	h.n = 0
}

type result struct {
	Status      string         `json:"status"` // pass, fail
	Evaluations int            `json:"evaluations"`
	Parts       map[string]int `json:"parts"`
	Distinct    int            `json:"distinct_nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []any          `json:"samples"`
	Stopped     bool           `json:"time_budget_hit"`
	Failure     *failure       `json:"failure,omitempty"`
}

type engine struct {
	id      string
	tier    string
	cur     *history
	crash   []byte // The case that ended an earlier process, to be shrunk
	crashed bool   // It was drawn
	res     result
	seen    map[uint64]struct{}
	fail    *failure
	end     time.Time // of the part
	scratch string
	caseMax time.Duration
	nsamp   map[string]int
}

// Main runs a property. The environment says what to do (see /verif/check).
func Main(t *testing.T, id string, parts ...Part) {
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_RAPID_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.failfile", "")
	flag.Set("rapid.shrinktime", "20s")
	catchFatal()
	debug.SetGCPercent(200)

	e := &engine{id: id, tier: os.Getenv("VERIF_TIER"), seen: map[uint64]struct{}{}, nsamp: map[string]int{}}
	e.caseMax = 60 * time.Second
	if s := os.Getenv("VERIF_CASE_SECS"); s != "" {
		n, _ := strconv.Atoi(s)
		e.caseMax = time.Duration(n) * time.Second
	}
	e.res.Parts = map[string]int{}
	e.res.Classes = map[string]int{}
	e.scratch = os.Getenv("VERIF_SCRATCH")
	if e.scratch == "" {
		e.scratch = t.TempDir()
	}
	Scratch = e.scratch

	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		e.replay(t, f, parts)
		return
	}
	if f := os.Getenv("VERIF_CUR"); f != "" {
		var err error
		if e.cur, err = openHistory(f); err != nil {
			t.Fatal(err)
		}
	}
	if f := os.Getenv("VERIF_CRASH"); f != "" {
		raw, err := os.ReadFile(f)
		var c failure
		if err == nil {
			err = json.Unmarshal(raw, &c)
		}
		if err != nil {
			t.Fatal(err)
		}
		e.crash = c.Case
	}
	budget := 100 * time.Second
	if e.tier == "thorough" {
		budget = 25 * time.Minute
	}
	if s := os.Getenv("VERIF_BUDGET_SECS"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	start := time.Now()
	only := os.Getenv("VERIF_PART")
	for i, p := range parts {
		if only != "" && only != p.name() {
			continue
		}
		if p.checks(e.tier) == 0 {
			continue
		}
		left := budget - time.Since(start)
		e.end = time.Now().Add(left / time.Duration(len(parts)-i))
		flag.Set("rapid.checks", strconv.Itoa(p.checks(e.tier)))
		flag.Set("rapid.seed", strconv.FormatUint(seed+uint64(i)*104729, 10))
		t.Run(p.name(), func(t *testing.T) { p.check(e, t) })
		if e.fail != nil {
			break
		}
	}
	e.res.Status = "pass"
	if e.fail != nil {
		e.res.Status = "fail"
		e.res.Failure = e.fail
	} else if t.Failed() {
		e.res.Status = "error" // rapid is not happy with the generator
	}
	e.res.Distinct = len(e.seen)
	if f := os.Getenv("VERIF_OUT"); f != "" {
		js, err := json.Marshal(e.res)
		if err != nil {
			t.Fatal(err)
		}
		hs := make([]uint64, 0, len(e.seen))
		for h := range e.seen {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		var hb bytes.Buffer
		binary.Write(&hb, binary.LittleEndian, hs)
		os.WriteFile(f+".hashes", hb.Bytes(), 0o644)
		if err := os.WriteFile(f+".tmp", js, 0o644); err != nil {
			t.Fatal(err)
		}
		os.Rename(f+".tmp", f)
	}
}

// stdout is where the driver looks; a check may silence the code under test's.
var stdout = os.Stdout

// Scratch is the scratch directory of this process.
var Scratch string

func (e *engine) replay(t *testing.T, file string, parts []Part) {
	raw, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var f failure
	if err = json.Unmarshal(raw, &f); err != nil {
		t.Fatal(err)
	}
	n, _ := strconv.Atoi(os.Getenv("VERIF_REPLAY_TIMES"))
	if n < 1 {
		n = 1
	}
	for _, p := range parts {
		if p.name() != f.Part {
			continue
		}
		for _, b := range f.Before {
			for _, q := range parts {
				if q.name() != b.Part {
					continue
				}
				if err := q.runJSON(e, b.Case); err != nil {
					fmt.Fprintf(stdout, "REPLAY-FAILS part=%s: %v\n", b.Part, err)
					t.Fail()
					return
				}
			}
		}
		for i := 0; i < n; i++ {
			if err := p.runJSON(e, f.Case); err != nil {
				fmt.Fprintf(stdout, "REPLAY-FAILS part=%s: %v\n", f.Part, err)
				t.Fail()
				return
			}
		}
		fmt.Fprintf(stdout, "REPLAY-PASSES part=%s\n", f.Part)
		return
	}
	t.Fatalf("no part %q", f.Part)
}

// guard runs f and turns a panic, a log.Fatal or a case that does not end into an error.
func (e *engine) guard(f func() error) error {
	done := make(chan error, 1)
	go func() {
		var err error
		ok := false
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, trim(debug.Stack()))
			} else if !ok {
				err = fmt.Errorf("goroutine of the case ended early")
			}
			done <- err
		}()
		err = f()
		ok = true
	}()
	select {
	case err := <-done:
		return err
	case <-time.After(e.caseMax):
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(stdout, "HANG: a case did not end within %v\n%s\n", e.caseMax, trim(buf))
		os.Exit(97)
	}
	return nil
}

func trim(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

func (p *part[T]) runJSON(e *engine, raw []byte) error {
	var c T
	if err := json.Unmarshal(raw, &c); err != nil {
		return fmt.Errorf("bad replay file: %w", err)
	}
	return e.guard(func() error { return p.run(&Ctx{classes: map[string]bool{}, Scratch: e.scratch}, c) })
}

func (p *part[T]) check(e *engine, t *testing.T) {
	crash := ""
	if e.crash != nil { // as Go would write it
		var c T
		if err := json.Unmarshal(e.crash, &c); err != nil {
			t.Fatal(err)
		}
		js, _ := json.Marshal(c)
		crash = string(js)
	}
	rapid.Check(t, func(rt *rapid.T) {
		if e.fail == nil && e.crash == nil && time.Now().After(e.end) {
			e.res.Stopped = true
			return // out of time: nothing more is evaluated, nor counted
		}
		c := p.gen(rt)
		js, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if e.crash != nil {
			// All before the crash is as it was; from then on each case gets a process of its own
			if e.crashed = e.crashed || string(js) == crash; !e.crashed {
				return
			}
			if msg := e.dies(p.nm, js); msg != "" {
				e.fail = &failure{Property: e.id, Part: p.nm, Case: js, Error: msg}
				rt.Fatalf("%s", "the process ended")
			}
			return
		}
		if e.cur != nil {
			e.cur.add(p.nm, js)
		}
		ctx := &Ctx{classes: map[string]bool{}, Scratch: e.scratch}
		// The oracle runs the case as the replay file would give it
		var c2 T
		if err := json.Unmarshal(js, &c2); err != nil {
			panic(err)
		}
		err = e.guard(func() error { return p.run(ctx, c2) })
		if err != nil {
			msg := err.Error()
			if e.fail == nil && e.cur != nil {
				e.cur.keep()
			}
			e.fail = &failure{Property: e.id, Part: p.nm, Case: js, Error: msg}
			rt.Fatalf("%s", firstline(msg)) // rapid takes it from here, the last one is minimal
		}
		if e.fail != nil {
			return // shrinking
		}
		e.res.Evaluations++
		e.res.Parts[p.nm]++
		for k := range ctx.classes {
			e.res.Classes[p.nm+":"+k]++
		}
		if ctx.nontrivial {
			h := fnv.New64a()
			io.WriteString(h, p.nm)
			h.Write(js)
			s := h.Sum64()
			if _, ok := e.seen[s]; !ok {
				e.seen[s] = struct{}{}
				if e.nsamp[p.nm] < 2 && len(js) < 1500 && e.res.Parts[p.nm] > 20 {
					e.nsamp[p.nm]++
					e.res.Samples = append(e.res.Samples, map[string]any{"part": p.nm, "case": json.RawMessage(js)})
				}
			}
		}
	})
}

// dies runs a case in a process of its own, and says what it left if it ends badly.
func (e *engine) dies(part string, js []byte) string {
	f := e.scratch + ".case.json"
	raw, _ := json.Marshal(failure{Property: e.id, Part: part, Case: js})
	if err := os.WriteFile(f, raw, 0o644); err != nil {
		panic(err)
	}
	defer os.Remove(f)
	scratch := e.scratch + ".dies"
	if err := os.Mkdir(scratch, 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(scratch)
	c := exec.Command(os.Args[0], "-test.run=^TestProp$", "-test.timeout=0")
	c.Dir = scratch
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "VERIF_OUT=") && !strings.HasPrefix(v, "VERIF_CUR=") && !strings.HasPrefix(v, "VERIF_CRASH=") &&
			!strings.HasPrefix(v, "VERIF_SCRATCH=") && !strings.HasPrefix(v, "SARDIR=") && !strings.HasPrefix(v, "VERIF_TTY=") {
			c.Env = append(c.Env, v)
		}
	}
	c.Env = append(c.Env, "VERIF_REPLAY="+f, "VERIF_SCRATCH="+scratch, "SARDIR="+scratch)
	out, err := c.CombinedOutput()
	if err == nil {
		return ""
	}
	return fmt.Sprintf("the process ended (%v):\n%s", err, trim(out))
}

func firstline(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// fatalWriter is where the log package writes: it turns log.Fatal into a panic, which the
// engine reports, before it can end the process.
type fatalWriter struct{}

func (fatalWriter) Write(b []byte) (int, error) {
	pc := make([]uintptr, 16)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "log.Fatal") || strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
			panic("log.Fatal: " + string(b))
		}
		if !more {
			return len(b), nil
		}
	}
}

func catchFatal() { log.SetOutput(fatalWriter{}) }

// Errf makes an error.
func Errf(format string, a ...any) error { return fmt.Errorf(format, a...) }
