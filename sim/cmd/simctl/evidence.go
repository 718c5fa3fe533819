package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"time"

	"verif.local/sim/plan"
)

type stats struct {
	id         string
	sp         *spec
	n, runs    int
	steps      int64
	simns      int64
	sys        int64
	switches   int64
	faults     map[string]int64
	probes     map[string]int64
	status     map[string]int64
	keys       map[uint64]bool
	inter      map[uint64]bool
	trivial    int
	samples    []any
	wall       time.Duration
	violations int
	invalid    int
	invalidMsg string
	cut        bool
}

func newStats(id string, sp *spec) *stats {
	return &stats{id: id, sp: sp, faults: map[string]int64{}, probes: map[string]int64{}, status: map[string]int64{}, keys: map[uint64]bool{}, inter: map[uint64]bool{}}
}

func (s *stats) add(o *plan.Outcome) {
	if o.Invalid != "" {
		s.invalid++
		s.invalidMsg = o.Invalid
		return
	}
	s.n++
	s.runs += o.Runs
	s.steps += o.Steps
	s.simns += o.SimNS
	s.sys += o.Sys
	s.switches += o.Sw
	for k, v := range o.Faults {
		s.faults[k] += v
	}
	for k, v := range o.Probes {
		s.probes[k] += v
	}
	s.status[o.Status]++
	s.inter[o.Inter] = true
	if o.Trivial {
		s.trivial++
	} else {
		s.keys[o.Key] = true
	}
	if o.Scen != nil && len(s.samples) < 4 {
		b, _ := json.Marshal(o.Scen)
		if len(b) < 6000 {
			s.samples = append(s.samples, o.Scen)
		} else if len(s.samples) < 2 && len(b) < 200000 {
			s.samples = append(s.samples, map[string]any{"index": o.Index, "scenario_excerpt": string(b[:3000])})
		}
	}
}

func (s *stats) write(buildTime time.Duration, real, stub []string) error {
	perHour := func(n int) int { return int(float64(n) / (s.wall.Seconds() + 1e-9) * 3600) }
	if s.samples == nil {
		s.samples = []any{}
	}
	cov := map[string]any{
		"evaluations":                     s.n,
		"distinct_nontrivial":             len(s.keys),
		"rule":                            s.sp.rule,
		"samples":                         s.samples,
		"simulator_runs":                  s.runs,
		"simulator_runs_per_hour":         perHour(s.runs),
		"seeds_per_hour":                  perHour(s.n),
		"search_wall_s":                   s.wall.Seconds(),
		"build_wall_s":                    buildTime.Seconds(),
		"simulated_seconds":               float64(s.simns) / 1e9,
		"scheduler_steps":                 s.steps,
		"context_switches":                s.switches,
		"simulated_system_calls":          s.sys,
		"faults_injected":                 s.faults,
		"rare_conditions_reached":         s.probes,
		"run_endings":                     s.status,
		"distinct_interleavings":          len(s.inter),
		"distinct_interleavings_measured": "hash over the sequence of context switches (task, steps since the last one) of all runs of a scenario",
		"distinct_executions_measured":    "hash over the stored bytes, the sequence of system calls with their outcomes, and the interleaving",
		"trivial_scenarios":               s.trivial,
		"stopped_by_wall_clock_guard":     s.cut,
		"components_real":                 real,
		"components_stubbed":              stub,
	}
	ev := map[string]any{
		"property": s.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": s.violations,
		"assumptions": []string{
			"the simulated kernel answers like Linux for the calls the standard library makes",
			"interleavings are explored at the yield points inserted at function entries, loop heads, statements and synchronisation; weak-memory effects are covered only through the race detector",
			"a clean batch is evidence from sampled executions, not a proof",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0755)
	return os.WriteFile(filepath.Join(dir, s.id+".json"), append(b, '\n'), 0644)
}
