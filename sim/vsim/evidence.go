package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

func writeEvidence(prop *property, tier string, seed int, t *tally, t0 time.Time, buildS, searchS float64, violations int, known map[string]int) {
	perHour := 0.0
	if searchS > 0 {
		perHour = float64(t.runs) / searchS * 3600
	}
	cov := map[string]interface{}{
		"evaluations":                         t.runs,
		"distinct_nontrivial":                 len(t.distinct),
		"rule":                                prop.Rule,
		"samples":                             t.samples,
		"runs_by_scenario":                    t.perScenario,
		"runs_per_hour":                       int64(perHour),
		"seeds_per_hour":                      int64(perHour),
		"simulated_steps":                     t.steps,
		"simulated_nanoseconds":               t.ns,
		"calls_made":                          t.ops,
		"switches":                            t.switches,
		"preemptions":                         t.preempts,
		"blocked_on_a_lock":                   t.blocked,
		"sync_operations":                     t.syncs,
		"distinct_schedules":                  len(t.sched),
		"distinct_measure":                    "distinct_schedules counts different sequences of (step, task) scheduling decisions of an episode; distinct_nontrivial counts different hashes over every decision and every observed result of a whole run",
		"faults_injected":                     t.faults,
		"probes":                              t.probes,
		"c_memory_accesses":                   t.cacc,
		"c_allocations":                       t.allocs,
		"reference_runs":                      t.refRuns,
		"violations_of_other_properties_seen": t.offTopic,
		"repeated_runs":                       t.detChecked,
		"repeated_runs_that_differed":         t.detBad,
		"real_components":                     prop.Real,
		"stub_components":                     prop.Stub,
		"build_s":                             buildS,
		"search_s":                            searchS,
		"known_findings_seen":                 known,
	}
	if t.samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": prop.ID, "tier": tier, "seed": seed, "level": prop.level(),
		"coverage": cov, "assumptions": prop.Assume, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die(3, "%v", err)
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
	}
}
