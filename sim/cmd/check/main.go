// Command check runs the simulations of one property. It is built with the
// code under test instrumented (see cmd/instrument and run.sh).
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"simv/props"
	"simv/simrt"
	"simv/simsync"
)

var (
	fProp   = flag.String("prop", "", "property")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Uint64("seed", 1, "seed")
	fWorker = flag.Bool("worker", false, "run a batch (internal)")
	fFirst  = flag.Int("first", 0, "first run of the batch")
	fCount  = flag.Int("count", 1, "runs in the batch")
	fTrace  = flag.Bool("trace", false, "print the events of every run")
	fReplay = flag.String("replay", "", "replay file")
	fExec   = flag.Bool("exec", false, "execute the replay in this process (internal)")
	fShrink = flag.Bool("shrink", false, "minimise the replay file in place (internal)")
	fSites  = flag.String("sites", "", "sites.json of the instrumenter")
	fVerif  = flag.String("verif", "/verif", "directory of the framework")
	fRuns   = flag.Int("runs", 0, "override the number of runs")
	fWall   = flag.Duration("wall", 0, "override the wall-clock budget")
	fJobs   = flag.Int("jobs", 0, "worker processes")
	fProf   = flag.String("cpuprofile", "", "with -worker: write a profile")
	fList   = flag.Bool("list", false, "list properties; -prop ID: whether it needs the race detector")
)

// Replay is the replay file.
type Replay struct {
	Property string         `json:"property"`
	Class    string         `json:"class"`
	Message  string         `json:"message"`
	Seed     uint64         `json:"seed"`
	Index    int            `json:"index"`
	Streams  *simrt.Streams `json:"streams,omitempty"` // nil: draw from seed and index
	Warmup   []int          `json:"warmup,omitempty"`  // runs to execute first in the same process
	Trace    []string       `json:"trace,omitempty"`
	Note     string         `json:"note,omitempty"`
}

type sum struct {
	T        string
	Idx      int
	Runs     int
	Steps    int64
	Sim      time.Duration
	Switches int
	Events   int
	Tasks    int
	Faults   map[string]int
	FaultRun int // runs in which at least one fault fired
	Probes   map[string]int
	Hashes   []uint64
	Nontriv  []uint64
	Interl   []uint64
	Unseen   []int
	Failure  *simrt.Failure
	Streams  *simrt.Streams
	Samples  []sample
}

type sample struct {
	Run    int            `json:"run"`
	Steps  int64          `json:"statements"`
	Events int            `json:"events"`
	Faults map[string]int `json:"faults"`
	Log    []string       `json:"first_events"`
}

func main() {
	flag.Parse()
	if *fList {
		if *fProp != "" {
			p := props.All[*fProp]
			if p == nil {
				fatal("no property %q", *fProp)
			}
			fmt.Println(p.Race)
			return
		}
		var ids []string
		for id := range props.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	var rp *Replay
	if *fReplay != "" {
		b, err := os.ReadFile(*fReplay)
		if err != nil {
			fatal("%v", err)
		}
		rp = new(Replay)
		if err := json.Unmarshal(b, rp); err != nil {
			fatal("%v", err)
		}
		*fProp = rp.Property
	}
	p := props.All[*fProp]
	if p == nil {
		fatal("no property %q", *fProp)
	}
	switch {
	case *fWorker:
		if *fProf != "" {
			f, err := os.Create(*fProf)
			if err != nil {
				fatal("%v", err)
			}
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		limits(p)
		worker(p)
	case *fShrink:
		limits(p)
		shrink(p, rp)
	case *fExec:
		limits(p)
		os.Exit(execReplay(p, rp))
	case rp != nil:
		os.Exit(replay(rp))
	default:
		os.Exit(parent(p))
	}
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "check: "+format+"\n", args...)
	os.Exit(2)
}

func limits(p *props.Prop) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1 << 30)
	if p.MemLimit > 0 && !simrt.RaceEnabled {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: uint64(p.MemLimit), Max: uint64(p.MemLimit)})
	}
}

func seedOf(p *props.Prop, seed uint64, idx int) uint64 {
	return simrt.Mix(seed, simrt.HashString(p.ID), uint64(idx))
}

func one(p *props.Prop, cfg simrt.Config) *simrt.Result {
	cfg.MaxSteps = p.MaxSteps
	simrt.SnapshotGlobals()
	races := simrt.RaceErrors()
	res := simrt.Run(cfg, func(s *simrt.Sim) {
		p.Body(props.NewEnv(s))
		simsync.CheckPools(s)
	})
	if n := simrt.RaceErrors(); n > races && (res.Failure == nil || res.Failure.Class != "data-race") {
		res.Failure = &simrt.Failure{Class: "data-race", Msg: fmt.Sprintf("the race detector reported %d data race(s); see stderr of the replay", n-races)}
	}
	return res
}

func worker(p *props.Prop) {
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	defer out.Flush()
	t := sum{T: "sum", Faults: map[string]int{}, Probes: map[string]int{}}
	hs, is := map[uint64]bool{}, map[uint64]bool{}
	enc := json.NewEncoder(out)
	for i := *fFirst; i < *fFirst+*fCount; i++ {
		fmt.Fprintf(out, "R %d\n", i)
		out.Flush()
		trace := *fTrace || i == *fFirst
		res := one(p, simrt.Config{Seed: seedOf(p, *fSeed, i), Trace: trace})
		if *fTrace {
			for _, l := range res.Log {
				fmt.Fprintf(os.Stderr, "%d %s\n", i, l)
			}
		}
		t.Runs++
		t.Steps += res.Steps
		t.Sim += res.Now
		t.Switches += res.Switches
		t.Events += res.Events
		t.Tasks += res.Tasks
		n := 0
		for k, v := range res.Faults {
			t.Faults[k] += v
			n += v
		}
		if n > 0 {
			t.FaultRun++
		}
		for k, v := range res.Probes {
			t.Probes[k] += v
		}
		t.Hashes = append(t.Hashes, res.Hash)
		if res.Probes["nontrivial"] > 0 && !hs[res.Hash] {
			hs[res.Hash] = true
			t.Nontriv = append(t.Nontriv, res.Hash)
		}
		if res.Switches > 0 && !is[res.Interl] {
			is[res.Interl] = true
			t.Interl = append(t.Interl, res.Interl)
		}
		if i == *fFirst {
			lg := res.Log
			if len(lg) > 12 {
				lg = lg[:12]
			}
			for j := range lg {
				if len(lg[j]) > 160 {
					lg[j] = lg[j][:160] + "..."
				}
			}
			t.Samples = append(t.Samples, sample{i, res.Steps, res.Events, res.Faults, lg})
		}
		if res.Failure != nil {
			enc.Encode(sum{T: "fail", Idx: i, Failure: res.Failure, Streams: &res.Streams})
			break
		}
	}
	for i := range simrt.Seen {
		if simrt.Seen[i] {
			t.Unseen = append(t.Unseen, i) // seen, in fact; inverted by the parent
		}
	}
	enc.Encode(t)
}

type batch struct{ first, count int }

type outcome struct {
	b      batch
	sum    *sum
	fail   *sum
	last   int
	err    error
	stderr string
	killed bool
}

func self(timeout time.Duration, stdout func(*bufio.Reader), args ...string) (string, error, bool) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0", "GOTRACEBACK=single")
	var eb bytes.Buffer
	cmd.Stderr = &limited{b: &eb}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return "", err, false
	}
	if err := cmd.Start(); err != nil {
		return "", err, false
	}
	killed := false
	tm := time.AfterFunc(timeout, func() { killed = true; cmd.Process.Kill() })
	stdout(bufio.NewReaderSize(pipe, 1<<16))
	err = cmd.Wait()
	tm.Stop()
	return eb.String(), err, killed
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func runBatch(p *props.Prop, b batch, timeout time.Duration) *outcome {
	o := &outcome{b: b, last: -1}
	o.stderr, o.err, o.killed = self(timeout, func(r *bufio.Reader) {
		for {
			line, err := r.ReadBytes('\n')
			if len(line) > 2 && line[0] == 'R' {
				o.last, _ = strconv.Atoi(strings.TrimSpace(string(line[2:])))
			} else if len(line) > 0 && line[0] == '{' {
				s := new(sum)
				if json.Unmarshal(line, s) == nil {
					if s.T == "fail" {
						o.fail = s
					} else {
						o.sum = s
					}
				}
			}
			if err != nil {
				return
			}
		}
	}, "-worker", "-prop", p.ID, "-seed", fmt.Sprint(*fSeed), "-first", fmt.Sprint(b.first), "-count", fmt.Sprint(b.count))
	return o
}

func parent(p *props.Prop) int {
	start := time.Now()
	runs, wall := p.Runs, 150*time.Second
	if *fTier == "thorough" {
		runs, wall = p.Thorough, 12*time.Minute
		if runs == 0 {
			runs = 40 * p.Runs
		}
	}
	if *fRuns > 0 {
		runs = *fRuns
	}
	if *fWall > 0 {
		wall = *fWall
	}
	jobs := runtime.NumCPU()
	if *fJobs > 0 {
		jobs = *fJobs
	}
	size := runs / (jobs * 4)
	if size < 1 {
		size = 1
	}
	if size > 2000 {
		size = 2000
	}
	var batches []batch
	for i := 0; i < runs; i += size {
		n := size
		if i+n > runs {
			n = runs - i
		}
		batches = append(batches, batch{i, n})
	}
	var mu sync.Mutex
	var outs []*outcome
	stop := false
	next := 0
	var wg sync.WaitGroup
	for j := 0; j < jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(batches) || time.Since(start) > wall {
					mu.Unlock()
					return
				}
				b := batches[next]
				next++
				mu.Unlock()
				o := runBatch(p, b, 400*time.Second)
				mu.Lock()
				outs = append(outs, o)
				if o.fail != nil || o.sum == nil || o.err != nil {
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(outs, func(i, j int) bool { return outs[i].b.first < outs[j].b.first })

	// The same seeds in another process must give the same histories.
	recheck, mismatch := 0, 0
	if !stop && len(outs) > 0 {
		var rc []batch
		for _, k := range []int{0, len(outs) / 2} {
			b := outs[k].b
			if b.count > 60 {
				b.count = 60
			}
			rc = append(rc, b)
		}
		for i, b := range rc {
			o := runBatch(p, b, 400*time.Second)
			if o.sum == nil {
				continue
			}
			ref := outs[[]int{0, len(outs) / 2}[i]].sum.Hashes
			for k, h := range o.sum.Hashes {
				recheck++
				if k < len(ref) && ref[k] != h {
					mismatch++
				}
			}
		}
		if mismatch > 0 {
			fmt.Fprintf(os.Stderr, "check: warning: %d of %d re-executed runs had a different event history\n", mismatch, recheck)
		}
	}

	known := loadKnown(p.ID)
	var unknown []*Replay
	seenKnown := map[string]bool{}
	trouble := ""
	seenClass := map[string]bool{}
	for _, o := range outs {
		switch {
		case o.fail != nil:
			f := o.fail.Failure
			if k := known.match(f); k != "" {
				seenKnown[k] = true
				continue
			}
			if seenClass[f.Class] {
				continue
			}
			rp := &Replay{Property: p.ID, Class: f.Class, Message: f.Msg, Seed: *fSeed, Index: o.fail.Idx, Streams: o.fail.Streams}
			if confirm(p, rp, o.b.first) {
				seenClass[f.Class] = true
				unknown = append(unknown, rp)
			} else {
				trouble = fmt.Sprintf("run %d failed (%s: %s) but the failure cannot be reproduced", o.fail.Idx, f.Class, f.Msg)
			}
		case o.killed:
			trouble = fmt.Sprintf("run %d did not end within the watchdog's time", o.last)
		case o.err != nil || o.sum == nil:
			rp := crashed(p, o)
			if rp == nil {
				trouble = fmt.Sprintf("worker died in run %d and the crash cannot be reproduced: %v\n%s", o.last, o.err, tail(o.stderr))
			} else if !seenClass[rp.Class] {
				seenClass[rp.Class] = true
				unknown = append(unknown, rp)
			}
		}
	}
	for k := range seenKnown {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	writeEvidence(p, outs, start, runs, recheck, mismatch, len(unknown))
	if len(unknown) > 0 {
		for _, rp := range unknown {
			path := save(rp)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("  %s: %s\n", rp.Class, rp.Message)
			tr := rp.Trace
			if len(tr) > 40 {
				fmt.Printf("    (%d earlier events are in the replay file)\n", len(tr)-40)
				tr = tr[len(tr)-40:]
			}
			for _, l := range tr {
				if len(l) > 200 {
					l = l[:200] + "..."
				}
				fmt.Println("   ", l)
			}
		}
		return 1
	}
	if trouble != "" {
		fmt.Fprintln(os.Stderr, "check:", trouble)
		return 2
	}
	total := 0
	for _, o := range outs {
		total += o.sum.Runs
	}
	fmt.Printf("%s held in %d simulated runs (%.1fs)\n", p.ID, total, time.Since(start).Seconds())
	return 0
}

func tail(s string) string {
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// tryReplay executes a replay in a fresh process.
func tryReplay(rp *Replay) (class, msg string, trace []string, stderr string) {
	f, err := os.CreateTemp("", "replay")
	if err != nil {
		fatal("%v", err)
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(rp)
	f.Write(b)
	f.Close()
	var out Replay
	got := false
	eb, err, killed := self(300*time.Second, func(r *bufio.Reader) {
		for {
			line, err := r.ReadBytes('\n')
			if len(line) > 0 && line[0] == '{' && json.Unmarshal(line, &out) == nil {
				got = true
			}
			if err != nil {
				return
			}
		}
	}, "-exec", "-replay", f.Name())
	if killed {
		return "", "", nil, eb
	}
	if !got {
		return "crash", fmt.Sprintf("the process died: %v: %s", err, firstLines(eb, 6)), nil, eb
	}
	return out.Class, out.Message, out.Trace, eb
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func execReplay(p *props.Prop, rp *Replay) int {
	for _, w := range rp.Warmup {
		one(p, simrt.Config{Seed: seedOf(p, rp.Seed, w)})
	}
	cfg := simrt.Config{Replay: rp.Streams, Trace: true}
	if rp.Streams == nil {
		cfg.Seed = seedOf(p, rp.Seed, rp.Index)
	}
	res := one(p, cfg)
	out := Replay{Property: p.ID, Trace: res.Log}
	if res.Failure != nil {
		out.Class, out.Message = res.Failure.Class, res.Failure.Msg
	}
	json.NewEncoder(os.Stdout).Encode(out)
	return 0
}

// confirm reproduces a failure in a fresh process and minimises it.
func confirm(p *props.Prop, rp *Replay, first int) bool {
	ok := func(r *Replay) bool {
		c, m, tr, _ := tryReplay(r)
		if c == r.Class {
			r.Message, r.Trace = m, tr
			return true
		}
		return false
	}
	if !ok(rp) {
		found := false
		// state left by earlier runs of the process
		for n := 1; n <= rp.Index-first && !found; n *= 4 {
			w := *rp
			w.Warmup = seq(max(first, rp.Index-n), rp.Index)
			if ok(&w) {
				*rp, found = w, true
			}
		}
		if !found && rp.Index > first {
			w := *rp
			w.Warmup = seq(first, rp.Index)
			if ok(&w) {
				*rp, found = w, true
			}
		}
		for try := 0; try < 12 && !found; try++ {
			if ok(rp) {
				found = true
				rp.Note = "the code under test draws on nondeterminism outside the simulator; the replay may need several attempts"
			}
		}
		if !found {
			return false
		}
		// drop warm-up runs that are not needed
		for i := 0; i < len(rp.Warmup) && len(rp.Warmup) > 1 && i < 40; {
			w := *rp
			w.Warmup = append(append([]int(nil), rp.Warmup[:i]...), rp.Warmup[i+1:]...)
			if ok(&w) {
				*rp = w
			} else {
				i++
			}
		}
	}
	if rp.Class == "crash" {
		return true
	}
	orig := *rp
	f, err := os.CreateTemp("", "shrink")
	if err != nil {
		return true
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(rp)
	f.Write(b)
	f.Close()
	self(90*time.Second, func(r *bufio.Reader) { r.WriteTo(discard{}) }, "-shrink", "-replay", f.Name())
	if b, err := os.ReadFile(f.Name()); err == nil {
		small := new(Replay)
		if json.Unmarshal(b, small) == nil && small.Class == rp.Class && ok(small) {
			*rp = *small
			return true
		}
	}
	*rp = orig
	return true
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

func seq(a, b int) []int {
	var out []int
	for i := a; i < b; i++ {
		out = append(out, i)
	}
	return out
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// crashed reproduces the death of a worker.
func crashed(p *props.Prop, o *outcome) *Replay {
	rp := &Replay{Property: p.ID, Seed: *fSeed, Index: o.last}
	for _, w := range [][]int{nil, seq(o.b.first, o.last)} {
		rp.Warmup = w
		if c, m, _, _ := tryReplay(rp); c == "crash" {
			rp.Class, rp.Message = c, m
			return rp
		}
	}
	return nil
}

func save(rp *Replay) string {
	dir := filepath.Join(*fVerif, "replays")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(rp, "", " ")
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", rp.Property, clean(rp.Class), simrt.HashBytes(b)&0xffffff))
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r >= 'A' && r <= 'Z' {
			return r
		}
		return '_'
	}, s)
}

func replay(rp *Replay) int {
	c, m, tr, eb := tryReplay(rp)
	for i := 0; c == "" && rp.Note != "" && i < 12; i++ {
		c, m, tr, eb = tryReplay(rp)
	}
	for _, l := range tr {
		fmt.Println(l)
	}
	if strings.Contains(eb, "DATA RACE") {
		fmt.Println(eb)
	}
	if c == "" {
		fmt.Printf("no violation of %s in this replay\n", rp.Property)
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n", rp.Property, *fReplay, c, m)
	return 1
}

// ---- known findings -------------------------------------------------------

type knownList []struct{ text, class, match string }

func loadKnown(id string) knownList {
	var out knownList
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" ")
		if !ok {
			continue
		}
		// known: property=ID class=C match="text" description
		var class, match string
		class, rest, _ = strings.Cut(strings.TrimPrefix(rest, "class="), " ")
		rest = strings.TrimPrefix(rest, "match=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		match, _ = strconv.Unquote(q)
		out = append(out, struct{ text, class, match string }{strings.TrimSpace(rest[len(q):]), class, match})
	}
	return out
}

func (k knownList) match(f *simrt.Failure) string {
	for _, e := range k {
		if e.class == f.Class && strings.Contains(f.Msg, e.match) {
			return e.text
		}
	}
	return ""
}
