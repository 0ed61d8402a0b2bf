package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func (r *runner) evidence(tier string, build, search time.Duration, workers, same, differ int, reported []string, known *knownList, knownHit map[string]*finding) {
	faults := map[string]int64{}
	other := map[string]int64{}
	for k, v := range r.counters {
		if strings.HasPrefix(k, "fault:") {
			faults[strings.TrimPrefix(k, "fault:")] = v
		} else {
			other[k] = v
		}
	}
	hours := search.Hours()
	perHour := func(n float64) float64 {
		if hours == 0 {
			return 0
		}
		return float64(int64(n / hours))
	}
	steps := other["simulated steps"]
	delete(other, "simulated steps")
	samples := r.samples
	sort.Slice(samples, func(i, j int) bool { return samples[i].Index < samples[j].Index })
	if len(samples) > 4 {
		samples = samples[:4]
	}
	var ss []interface{}
	for _, s := range samples {
		ss = append(ss, s)
	}
	if len(ss) == 0 {
		ss = append(ss, "no run ended without a violation")
	}
	var kf []map[string]interface{}
	for _, k := range known.list {
		n := 0
		if f := knownHit[k.sig]; f != nil {
			n = f.count
		}
		kf = append(kf, map[string]interface{}{"signature": k.sig, "what": k.what, "runs that met it": n})
	}
	doc := map[string]interface{}{
		"property": r.id,
		"tier":     tier,
		"seed":     r.seed,
		"level":    "exploration",
		"wall_s":   (build + search).Seconds(),
		"coverage": map[string]interface{}{
			"evaluations":            r.runs,
			"distinct_nontrivial":    len(r.distinct),
			"rule":                   "One evaluation is one simulated run: every choice (workload, schedule, faults, enumeration order) is drawn from one seed derived from VERIF_SEED, the property and the run index. " + r.conf.rule + " Runs are distinct when the hash of all choices made and of the recorded history differs.",
			"samples":                ss,
			"technique":              "deterministic simulation with fault injection, seeded search",
			"runs_per_hour":          perHour(float64(r.runs)),
			"seeds_per_hour":         perHour(float64(r.runs)),
			"search_s":               search.Seconds(),
			"build_s":                build.Seconds(),
			"processes":              r.procs,
			"workers":                workers,
			"simulated_steps":        steps,
			"simulated_time":         "logical clock: one step per statement of the library executed; " + (time.Duration(steps) * time.Microsecond).String() + " at one microsecond per step",
			"faults_injected":        faults,
			"counters":               other,
			"distinct_states":        len(r.states),
			"state_measure":          "distinct hashes of the canonical results (font sets, layouts, file system contents) reached",
			"distinct_interleavings": len(r.inter),
			"interleaving_measure":   "distinct sequences of (task, step) switches",
			"repeatability":          map[string]int{"runs repeated in another process": same + differ, "identical": same, "different": differ},
			"instrumentation":        r.stats,
			"real_components":        r.conf.real,
			"stub_components":        r.conf.stub,
			"known_findings":         kf,
			"violations_reported":    reported,
		},
	}
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
