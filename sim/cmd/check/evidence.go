package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"simv/props"
)

func writeEvidence(p *props.Prop, outs []*outcome, start time.Time, planned, recheck, mismatch, violations int) {
	wall := time.Since(start).Seconds()
	var runs, faultRuns, switches, events, tasks int
	var steps int64
	var sim time.Duration
	faults, probes := map[string]int{}, map[string]int{}
	hs, is := map[uint64]bool{}, map[uint64]bool{}
	seen := map[int]bool{}
	var samples []any
	for _, o := range outs {
		if o.sum == nil {
			continue
		}
		t := o.sum
		runs += t.Runs
		faultRuns += t.FaultRun
		switches += t.Switches
		events += t.Events
		tasks += t.Tasks
		steps += t.Steps
		sim += t.Sim
		for k, v := range t.Faults {
			faults[k] += v
		}
		for k, v := range t.Probes {
			probes[k] += v
		}
		for _, h := range t.Nontriv {
			hs[h] = true
		}
		for _, h := range t.Interl {
			is[h] = true
		}
		for _, i := range t.Unseen {
			seen[i] = true
		}
		if len(samples) < 4 {
			for _, s := range t.Samples {
				samples = append(samples, s)
			}
		}
	}
	delete(probes, "nontrivial")
	var sites []string
	if b, err := os.ReadFile(*fSites); err == nil {
		json.Unmarshal(b, &sites)
	}
	total := 0
	notSeen := map[string]map[int]bool{}
	for i := 1; i < len(sites); i++ {
		total++
		if seen[i] {
			continue
		}
		s := sites[i][strings.Index(sites[i], "/")+1:]
		c := strings.LastIndex(s, ":")
		n, err := strconv.Atoi(s[c+1:])
		if c < 0 || err != nil {
			continue
		}
		if notSeen[s[:c]] == nil {
			notSeen[s[:c]] = map[int]bool{}
		}
		notSeen[s[:c]][n] = true
	}
	missed := map[string]string{}
	for f, m := range notSeen {
		var ns []int
		for n := range m {
			ns = append(ns, n)
		}
		sort.Ints(ns)
		var parts []string
		for i := 0; i < len(ns); {
			j := i
			for j+1 < len(ns) && ns[j+1] == ns[j]+1 {
				j++
			}
			if i == j {
				parts = append(parts, strconv.Itoa(ns[i]))
			} else {
				parts = append(parts, strconv.Itoa(ns[i])+"-"+strconv.Itoa(ns[j]))
			}
			i = j + 1
		}
		missed[f] = strings.Join(parts, " ")
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(runs) / wall * 3600
	}
	cov := map[string]any{
		"evaluations":                          runs,
		"distinct_nontrivial":                  len(hs),
		"rule":                                 p.Rule + " Two runs are distinct when their event histories (every call that crosses a seam, every fault, every checked result) differ.",
		"samples":                              samples,
		"planned_runs":                         planned,
		"simulated_runs_per_hour":              int(perHour),
		"seeds_per_hour":                       int(perHour),
		"simulated_time_s":                     sim.Seconds(),
		"statements_executed":                  steps,
		"seam_events":                          events,
		"simulated_tasks":                      tasks,
		"task_switches":                        switches,
		"distinct_interleavings":               len(is),
		"interleaving_measure":                 "hash over the sequence of (statement, task) at which the scheduler preempted",
		"runs_with_faults":                     faultRuns,
		"faults_fired":                         faults,
		"probes":                               probes,
		"statements_of_code_under_test":        total,
		"statements_reached":                   countSeen(seen, len(sites)),
		"statements_not_reached":               missed,
		"reexecuted_runs_in_another_process":   recheck,
		"reexecuted_runs_with_another_history": mismatch,
		"real_code":                            []string{"github.com/qmuntal/gltf and all of its packages, statement-instrumented from the working tree", "encoding/json, encoding/base64, bufio, io, io/fs, net/url, reflect"},
		"stubs":                                []string{"os (simulated disk)", "sync (simulated locks and pools)", "path/filepath, io/ioutil", "the go statement and map iteration order (scheduler)", "caller's readers, writers and file systems"},
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": p.Level, "coverage": cov,
		"assumptions": append([]string{"sampling: a clean batch is evidence, not proof"}, p.Assumptions...),
		"wall_s":      wall, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func countSeen(m map[int]bool, n int) int {
	c := 0
	for i := range m {
		if i > 0 && i < n {
			c++
		}
	}
	return c
}
