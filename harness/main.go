package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 error of the check.

func main() {
	testing.Init()
	log.SetOutput(io.Discard) // the engine logs a line for many ordinary outcomes
	debug.SetMaxStack(64 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run|worker|probes|replay|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.CommandLine
	prop := fs.String("prop", "", "property id")
	facetName := fs.String("facet", "", "facet name")
	n := fs.Int("n", 0, "number of cases")
	seed := fs.Uint64("seed", 1, "PRNG seed")
	out := fs.String("out", "", "result file")
	journal := fs.String("journal", "", "write every case here before it is judged")
	budget := fs.Duration("budget", 0, "stop generating after this time")
	root := fs.String("root", ".", "the /verif directory")
	tier := fs.String("tier", "quick", "quick or thorough")
	only := fs.String("only", "", "run: only facets whose name contains this")
	scale := fs.Float64("scale", 1, "run: multiply the number of cases")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "run":
		os.Exit(runProperty(*root, *prop, *tier, *seed, *only, *scale))
	case "worker":
		os.Exit(worker(*prop, *facetName, *n, *seed, *out, *journal, *budget))
	case "fresh":
		os.Exit(fresh())
	case "probes":
		os.Exit(runProbes(*prop, *out))
	case "replay":
		code := replay(fs.Args())
		if scratchPath != "" {
			os.RemoveAll(scratchPath)
		}
		os.Exit(code)
	case "list":
		for _, f := range facets {
			fmt.Println(f.prop, f.name, f.quick)
		}
		for _, p := range probes {
			fmt.Println(p.prop, "probe", p.key)
		}
	default:
		os.Exit(2)
	}
}

func findFacet(prop, name string) *facet {
	for _, f := range facets {
		if f.prop == prop && f.name == name {
			return f
		}
	}
	return nil
}

type workerOut struct {
	Result facetResult
	Hashes []byte
}

func worker(prop, name string, n int, seed uint64, out, journal string, budget time.Duration) int {
	f := findFacet(prop, name)
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such facet", prop, name)
		return 2
	}
	r := &runner{f: f, journal: journal, budget: budget}
	write := func() int {
		w := workerOut{Result: r.res}
		for h := range r.seen {
			w.Hashes = append(w.Hashes, h[:]...)
		}
		b, err := json.Marshal(w)
		if err == nil {
			err = os.WriteFile(out, b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		return 0
	}
	var once sync.Once
	go r.watchdog(func(cj []byte) {
		once.Do(func() {
			res := facetResult{Facet: name, Classes: map[string]int{}, Evaluations: r.res.Evaluations,
				Violation: &replayFile{prop, name, fmt.Sprintf("evaluation did not finish within %v of CPU time", hangCPU), cj}}
			b, _ := json.Marshal(workerOut{Result: res})
			os.WriteFile(out, b, 0o644)
			os.Exit(0)
		})
	})
	r.run(n, seed)
	code := 2
	once.Do(func() { code = write() })
	return code
}

// replay judges stored cases directly, without the generators.
func replay(files []string) int {
	code := 0
	for _, file := range files {
		b, err := os.ReadFile(file)
		var rf replayFile
		if err == nil {
			err = json.Unmarshal(b, &rf)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, file, err)
			return 2
		}
		if strings.HasPrefix(rf.Facet, "probe:") {
			p := findProbe(rf.Property, strings.TrimPrefix(rf.Facet, "probe:"))
			if p == nil {
				fmt.Fprintln(os.Stderr, "no such probe", rf.Facet)
				return 2
			}
			if err := p.fn(); err != nil {
				fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", err, rf.Property, file)
				code = 1
			} else {
				fmt.Printf("holds: %s\n", file)
			}
			continue
		}
		f := findFacet(rf.Property, rf.Facet)
		if f == nil {
			fmt.Fprintln(os.Stderr, "no such facet", rf.Property, rf.Facet)
			return 2
		}
		r := &runner{f: f, seen: map[[8]byte]bool{}}
		go r.watchdog(func(cj []byte) {
			fmt.Printf("did not finish\nVIOLATION property=%s replay=%s\n", rf.Property, file)
			os.Exit(1)
		})
		bad := false
		for i := 0; i < 30 && !bad; i++ { // repeat: some failures depend on map iteration order
			rep, err := r.judge(rf.Case, false)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			if rep != nil {
				fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", rep.Why, rf.Property, file)
				bad = true
				code = 1
			}
		}
		if !bad {
			fmt.Printf("holds: %s\n", file)
		}
	}
	return code
}

type job struct {
	f     *facet
	n     int
	seed  uint64
	shard int
}

type jobOut struct {
	res    facetResult
	hashes []byte
	err    string
}

const workerWall = 780 * time.Second

func runChild(self string, args []string, wall time.Duration, env []string) (string, error) {
	cmd := exec.Command(self, args...)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.Env = append(os.Environ(), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return "", err
	}
	timer := time.AfterFunc(wall, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !timer.Stop() {
		err = fmt.Errorf("killed after %v", wall)
	}
	s := buf.String()
	if len(s) > 1<<15 {
		s = s[:1<<14] + "\n...\n" + s[len(s)-1<<14:]
	}
	return s, err
}

func selfFor(f *facet) string {
	self, _ := os.Executable()
	if f != nil && f.race {
		return self + "-race"
	}
	return self
}

// crashed tells a crash that the engine can cause (fatal error of the Go runtime,
// race report) from an environmental one (killed, out of memory).
func crashed(output string, err error) bool {
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return false
	}
	ws := ee.Sys().(syscall.WaitStatus)
	if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		return false
	}
	if strings.Contains(output, "out of memory") || strings.Contains(output, "cannot allocate memory") {
		return false
	}
	return strings.Contains(output, "fatal error:") || strings.Contains(output, "DATA RACE") ||
		strings.Contains(output, "goroutine ") && strings.Contains(output, "panic:")
}

var childEnv = []string{"GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB"}

func runJob(tmp string, j job, budget time.Duration) jobOut {
	out := filepath.Join(tmp, fmt.Sprintf("%s-%d.json", j.f.name, j.shard))
	jr := filepath.Join(tmp, fmt.Sprintf("%s-%d.journal", j.f.name, j.shard))
	args := []string{"worker", "-prop", j.f.prop, "-facet", j.f.name, "-n", strconv.Itoa(j.n),
		"-seed", strconv.FormatUint(j.seed, 10), "-out", out, "-budget", budget.String()}
	output, err := runChild(selfFor(j.f), args, workerWall, childEnv)
	if err != nil && crashed(output, err) {
		// Find the case that kills the process and confirm it on its own.
		o2, err2 := runChild(selfFor(j.f), append(args, "-journal", jr), workerWall, childEnv)
		if err2 != nil && crashed(o2, err2) {
			if b, e := os.ReadFile(jr); e == nil {
				var rf replayFile
				if json.Unmarshal(b, &rf) == nil {
					o3, err3 := runChild(selfFor(j.f), []string{"replay", jr}, workerWall, childEnv)
					if err3 != nil && crashed(o3, err3) {
						rf.Why = "the process died: " + headOf(o3)
						return jobOut{res: facetResult{Facet: j.f.name, Evaluations: 1, Violation: &rf}}
					}
					if j.f.race { // a race report does not repeat on every schedule
						rf.Why = "the process died (seen twice in the search): " + headOf(o2)
						return jobOut{res: facetResult{Facet: j.f.name, Evaluations: 1, Violation: &rf}}
					}
				}
			}
		}
		return jobOut{err: fmt.Sprintf("worker died and the case could not be isolated: %v\n%s", err, output)}
	}
	if err != nil {
		return jobOut{err: fmt.Sprintf("worker: %v\n%s", err, output)}
	}
	b, err := os.ReadFile(out)
	var w workerOut
	if err == nil {
		err = json.Unmarshal(b, &w)
	}
	if err != nil {
		return jobOut{err: fmt.Sprintf("worker result: %v\n%s", err, output)}
	}
	if w.Result.Error != "" {
		return jobOut{err: w.Result.Error}
	}
	return jobOut{res: w.Result, hashes: w.Hashes}
}

func headOf(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 12 {
		lines = lines[:12]
	}
	return strings.Join(lines, "\n")
}

// boost multiplies the number of cases where they are cheap.
func boost(prop string) float64 {
	switch prop {
	case "C21":
		return 1
	case "C04", "C13":
		return 1.5
	case "C15", "C09":
		return 2
	}
	return 4
}

func runProperty(root, prop, tier string, seed uint64, only string, scale float64) int {
	start := time.Now()
	root, _ = filepath.Abs(root)
	tmp, err := os.MkdirTemp("", "vh-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	os.Setenv("VH_SCRATCH", tmp) // the workers keep their files there

	var mine []*facet
	for _, f := range facets {
		if f.prop == prop && strings.Contains(f.name, only) {
			mine = append(mine, f)
		}
	}
	if len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "no facets for", prop)
		return 2
	}
	budget := 200 * time.Second
	scale *= boost(prop)
	if tier == "thorough" {
		scale *= 6
		budget = 600 * time.Second
	}

	// 1. known findings and regression cases
	known, err := readKnown(filepath.Join(root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	violations := 0
	report := func(rf *replayFile) {
		violations++
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", prop, strings.ReplaceAll(rf.Facet, ":", "_")))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("facet %s: %s\ncase: %s\n", rf.Facet, rf.Why, rf.Case)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}
	probeOut := filepath.Join(tmp, "probes.json")
	probesRun := 0
	if output, err := runChild(selfFor(nil), []string{"probes", "-prop", prop, "-out", probeOut}, workerWall, childEnv); err != nil {
		fmt.Fprintf(os.Stderr, "probes: %v\n%s\n", err, output)
		return 2
	}
	var pr []probeResult
	if b, err := os.ReadFile(probeOut); err != nil || json.Unmarshal(b, &pr) != nil {
		fmt.Fprintln(os.Stderr, "probes: no result")
		return 2
	}
	knownNow := []string{}
	for _, p := range pr {
		probesRun++
		k, listed := known[prop+"/"+p.Key]
		if p.Why == "" {
			continue
		}
		if listed {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			knownNow = append(knownNow, k)
			continue
		}
		report(&replayFile{prop, "probe:" + p.Key, p.Why, json.RawMessage("{}")})
	}
	corpus, _ := filepath.Glob(filepath.Join(root, "corpus", prop+"-*.json"))
	sort.Strings(corpus)
	corpusRun := 0
	for _, c := range corpus {
		corpusRun++
		b, err := os.ReadFile(c)
		var rf replayFile
		if err != nil || json.Unmarshal(b, &rf) != nil {
			fmt.Fprintln(os.Stderr, "bad corpus file", c)
			return 2
		}
		output, err := runChild(selfFor(nil), []string{"replay", c}, workerWall, childEnv)
		if err == nil {
			continue
		}
		if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 1 || crashed(output, err)) {
			rf.Why = headOf(output)
			rf.Property = prop
			report(&rf)
			continue
		}
		fmt.Fprintf(os.Stderr, "corpus %s: %v\n%s\n", c, err, output)
		return 2
	}

	// 2. generated search
	const par = 8 // the cases do not depend on the machine
	var jobs []job
	total := 0
	for _, f := range mine {
		total += f.quick
	}
	for fi, f := range mine {
		n := int(float64(f.quick) * scale)
		if n < 1 {
			n = 1
		}
		shards := 1
		for n/shards > 400 && shards*total < f.quick*par*2 && shards < par {
			shards++
		}
		if f.race {
			shards = 1
		}
		for s := 0; s < shards; s++ {
			m := n / shards
			if s < n%shards {
				m++
			}
			jobs = append(jobs, job{f, m, seed*1000003 + uint64(fi)*7919 + uint64(s)*104729 + 17, s})
		}
	}
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].n > jobs[b].n })
	outs := make([]jobOut, len(jobs))
	var wg sync.WaitGroup
	sem := make(chan bool, max(2, min(par, runtime.NumCPU())))
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			runtime.LockOSThread() // Pdeathsig is tied to the creating thread
			outs[i] = runJob(tmp, jobs[i], budget)
		}(i)
	}
	wg.Wait()

	evals, distinct, trivial := 0, 0, 0
	perFacet := map[string]any{}
	var samples []any
	var errs []string
	for _, f := range mine {
		ev, nt := 0, 0
		seen := map[string]bool{}
		classes := map[string]int{}
		var viol *replayFile
		ns := 0
		for i, j := range jobs {
			if j.f != f {
				continue
			}
			o := outs[i]
			if o.err != "" {
				errs = append(errs, fmt.Sprintf("%s: %s", f.name, o.err))
				continue
			}
			ev += o.res.Evaluations
			nt += o.res.Nontrivial
			for k := 0; k+8 <= len(o.hashes); k += 8 {
				seen[string(o.hashes[k:k+8])] = true
			}
			for k, v := range o.res.Classes {
				classes[k] += v
			}
			if o.res.Violation != nil && (viol == nil || len(o.res.Violation.Case) < len(viol.Case)) {
				viol = o.res.Violation
			}
			for _, s := range o.res.Samples {
				if ns < 2 {
					ns++
					samples = append(samples, map[string]any{"facet": f.name, "case": s})
				}
			}
		}
		evals += ev
		distinct += len(seen)
		trivial += ev - nt
		perFacet[f.name] = map[string]any{"evaluations": ev, "nontrivial": nt, "distinct_nontrivial": len(seen), "classes": classes}
		if viol != nil {
			report(viol)
		}
	}
	wall := time.Since(start).Seconds()
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": distinct,
		"trivial":             trivial,
		"rule":                rules[prop],
		"samples":             samples,
		"facets":              perFacet,
		"regression_cases":    corpusRun,
		"probes":              probesRun,
	}
	if len(knownNow) > 0 {
		cov["known_findings_reproduced"] = knownNow
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(seed), "level": "exploration", "coverage": cov,
		"wall_s": wall, "violations": violations,
		"assumptions": []string{
			"the reference model in harness/ states the intended semantics independently of the engine's code",
			"cases outside the generated domain described in DESIGN.md are not covered",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evDir := filepath.Join(root, "evidence")
	os.MkdirAll(evDir, 0o755)
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "ERROR", e)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", prop, tier, seed, evals, distinct, violations, wall)
	if violations > 0 {
		return 1
	}
	if len(errs) > 0 {
		return 2
	}
	if distinct < 2 {
		fmt.Fprintln(os.Stderr, "ERROR: almost nothing non-trivial was generated")
		return 2
	}
	return 0
}
