package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"flag"

	"pgregory.net/rapid"
)

// A facet is one generator plus one oracle for one property. The case that the
// generator draws is a plain JSON value: it is serialised, decoded again and only
// then judged, so that a stored case replays without the generator.
type facet struct {
	prop, name string
	quick      int // cases in the quick tier (thorough multiplies this)
	race       bool
	gen        func(t *rapid.T) any
	decode     func(raw []byte) (any, error)
	check      func(c any, x *ctx) error
}

var facets []*facet

func addFacet[T any](prop, name string, quick int, gen func(t *rapid.T) T, check func(c T, x *ctx) error) *facet {
	f := &facet{
		prop: prop, name: name, quick: quick,
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(raw []byte) (any, error) {
			var c T
			err := json.Unmarshal(raw, &c)
			return c, err
		},
		check: func(c any, x *ctx) error { return check(c.(T), x) },
	}
	facets = append(facets, f)
	return f
}

// ctx collects what one evaluation of a case exercised.
type ctx struct {
	nontrivial bool
	classes    map[string]bool
}

func (x *ctx) nt(cond bool) {
	if cond {
		x.nontrivial = true
	}
}

func (x *ctx) class(format string, a ...any) {
	if x.classes == nil {
		x.classes = map[string]bool{}
	}
	if len(a) == 0 {
		x.classes[format] = true
	} else {
		x.classes[fmt.Sprintf(format, a...)] = true
	}
}

// violation is the verdict of an oracle. Any other error (or a panic outside the
// engine) is an error of the check itself.
type violation struct{ msg string }

func (v *violation) Error() string { return v.msg }

func violated(format string, a ...any) error { return &violation{fmt.Sprintf(format, a...)} }

// guarded runs engine code and turns a panic there into a violation.
func guarded(what string, f func()) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			err = violated("%s panicked: %v\n%s", what, p, engineFrames(st))
		}
	}()
	f()
	return nil
}

func engineFrames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, "\n")
}

type replayFile struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Why      string          `json:"why"`
	Case     json.RawMessage `json:"case"`
}

type facetResult struct {
	Facet       string
	Evaluations int
	Nontrivial  int
	Distinct    int
	Hashes      [][8]byte `json:"-"`
	Classes     map[string]int
	Samples     []json.RawMessage
	Violation   *replayFile
	Error       string
	WallS       float64
}

// runner executes the cases of one facet.
type runner struct {
	f       *facet
	res     facetResult
	seen    map[[8]byte]bool
	journal string
	last    *replayFile
	fatal   string
	budget  time.Duration

	mu       sync.Mutex
	caseJSON []byte
	caseCPU  int64 // CPU ns of the process at the start of the case, 0 when idle
}

const hangCPU = 100 * time.Second // CPU spent on one case that normally takes well under 10 ms

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func (r *runner) watchdog(hang func(caseJSON []byte)) {
	for {
		time.Sleep(time.Second)
		start := atomic.LoadInt64(&r.caseCPU)
		if start != 0 && cpuNow()-start > int64(hangCPU) {
			r.mu.Lock()
			cj := r.caseJSON
			r.mu.Unlock()
			if atomic.LoadInt64(&r.caseCPU) == start {
				hang(cj)
			}
		}
	}
}

// judge evaluates one case. It returns a non-nil replay record for a violation.
func (r *runner) judge(raw []byte, count bool) (rep *replayFile, err error) {
	c, err := r.f.decode(raw)
	if err != nil {
		return nil, fmt.Errorf("decode case: %v", err)
	}
	if r.journal != "" {
		rf, _ := json.Marshal(replayFile{r.f.prop, r.f.name, "process died while evaluating this case", raw})
		if err := os.WriteFile(r.journal, rf, 0o644); err != nil {
			return nil, err
		}
	}
	r.mu.Lock()
	r.caseJSON = raw
	r.mu.Unlock()
	atomic.StoreInt64(&r.caseCPU, cpuNow()+1)
	x := &ctx{}
	var verr error
	func() {
		defer atomic.StoreInt64(&r.caseCPU, 0)
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(runtime.Error); ok || true {
					verr = fmt.Errorf("harness panic: %v\n%s", p, debug.Stack())
				}
			}
		}()
		verr = r.f.check(c, x)
	}()
	if count {
		r.res.Evaluations++
		for k := range x.classes {
			r.res.Classes[k]++
		}
		if x.nontrivial {
			r.res.Nontrivial++
			h := sha256.Sum256(raw)
			var k [8]byte
			copy(k[:], h[:8])
			if !r.seen[k] {
				r.seen[k] = true
				r.res.Distinct++
				// spread the samples over the run
				if n := r.res.Distinct; len(r.res.Samples) < 3 && (n == 1 || n == 50 || n == 400) && len(raw) < 6000 {
					r.res.Samples = append(r.res.Samples, append(json.RawMessage{}, raw...))
				}
			}
		}
	}
	if verr == nil {
		return nil, nil
	}
	if v, ok := verr.(*violation); ok {
		return &replayFile{r.f.prop, r.f.name, v.msg, append(json.RawMessage{}, raw...)}, nil
	}
	return nil, verr
}

// tb lets rapid run outside of "go test".
type tb struct {
	failed bool
	log    strings.Builder
}

type tbStop struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return "verif-no-such-test" }
func (t *tb) Logf(format string, a ...any) {
	if t.log.Len() < 1<<16 {
		fmt.Fprintf(&t.log, format+"\n", a...)
	}
}
func (t *tb) Log(a ...any)                   { t.Logf("%s", fmt.Sprint(a...)) }
func (t *tb) Skipf(format string, a ...any)  { panic("skip") }
func (t *tb) Skip(a ...any)                  { panic("skip") }
func (t *tb) SkipNow()                       { panic("skip") }
func (t *tb) Errorf(format string, a ...any) { t.Logf(format, a...); t.failed = true }
func (t *tb) Error(a ...any)                 { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(format string, a ...any) { t.Errorf(format, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)                 { t.Error(a...); t.FailNow() }
func (t *tb) FailNow()                       { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                          { t.failed = true }
func (t *tb) Failed() bool                   { return t.failed }

// run generates n cases and judges them; on a violation rapid shrinks, and its
// final re-run of the minimal case leaves that case in r.last.
func (r *runner) run(n int, seed uint64) {
	start := time.Now()
	r.res.Facet = r.f.name
	r.res.Classes = map[string]int{}
	r.seen = map[[8]byte]bool{}
	if seed == 0 {
		seed = 0x9e3779b97f4a7c15 // rapid treats 0 as "choose one at random"
	}
	flag.Set("rapid.checks", fmt.Sprint(n))
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	if d := os.Getenv("VH_SHRINKTIME"); d != "" { // for experiments
		flag.Set("rapid.shrinktime", d)
	}
	t := &tb{}
	found := false
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbStop); !ok {
					r.fatal = fmt.Sprintf("rapid panicked: %v\n%s", p, debug.Stack())
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			if r.budget > 0 && !found && time.Since(start) > r.budget {
				return // out of time: the remaining cases are simply not run
			}
			c := r.f.gen(rt)
			raw, err := json.Marshal(c)
			if err != nil {
				r.fatal = fmt.Sprintf("marshal case: %v", err)
				return
			}
			if r.fatal != "" {
				return
			}
			rep, err := r.judge(raw, !found)
			if err != nil {
				r.fatal = err.Error() + "\ncase: " + string(raw)
				return
			}
			if rep != nil {
				found = true
				r.last = rep
				rt.Fatalf("violated")
			}
		})
	}()
	r.res.WallS = time.Since(start).Seconds()
	if r.fatal != "" {
		r.res.Error = r.fatal
		return
	}
	if t.failed && !found {
		r.res.Error = "rapid: " + t.log.String()
		return
	}
	if found {
		r.res.Violation = r.last
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
