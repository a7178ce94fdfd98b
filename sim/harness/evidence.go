package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"time"
)

func mode(note string) string {
	if note == "" {
		return "many runs per process; the sample of runs repeated in another process was identical"
	}
	return note
}

func writeEvidence(prop, tier string, seed int64, t0 time.Time, workers int, tot *msg, ilv map[uint64]bool, viols, checked int, note string) {
	wall := time.Since(t0).Seconds()
	var samples []interface{}
	for _, s := range tot.Samp {
		samples = append(samples, s)
	}
	if samples == nil {
		samples = []interface{}{}
	}
	cov := map[string]interface{}{
		"evaluations":               tot.Runs,
		"distinct_nontrivial":       len(ilv),
		"rule":                      "one evaluation is one simulated execution of a plan drawn from (VERIF_SEED, property, run number): workload, faults, configuration and scheduling policy; it is non-trivial when the scenario's oracle judged at least one completed operation of the kind the property speaks about; distinct executions have different digests of the sequence of scheduled tasks (interleavings); where a scenario runs a single task, of its event sequence",
		"samples":                   samples,
		"nontrivial_runs":           tot.Non,
		"inconclusive_runs":         tot.Incon,
		"runs_per_hour":             int64(float64(tot.Runs) / wall * 3600),
		"seeds_per_hour":            int64(float64(tot.Runs) / wall * 3600),
		"simulated_hours":           float64(tot.SimNs) / 3.6e12,
		"yield_points_executed":     tot.Yld,
		"task_switches":             tot.Swi,
		"faults_fired":              tot.Flt,
		"reach_probes":              tot.Prb,
		"runs_per_scenario":         tot.Scen,
		"runs_reexecuted_identical": checked,
		"workers":                   workers,
		"mode":                      mode(note),
		"real_code":                 "all of coniks-go outside tests (instrumented source copy of the working tree), goleveldb with its file storage, go-twitter client, toml, cobra, zap encoders, ed25519/VRF/SHA3",
		"stubbed":                   "Go scheduler choices, clocks and timers, sockets, TLS record layer, file system, randomness, signals, process exit, Twitter service (HTTP transport)",
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": viols,
		"assumptions": []string{
			"seeded sampling, not enumeration: a clean batch is evidence, not proof",
			"interleavings are explored at statement granularity; data races below that (torn words) are out of scope",
			"the simulated network, disk, TLS and signal semantics stand for the real ones",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644)
}
