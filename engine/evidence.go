package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func writeEvidence(verif, prop, tier string, seed int, t0 time.Time, exs []*Explorer, nat *native, validated int, loadS float64, notes []string, viols int, failure string) {
	cov := map[string]any{}
	states, trans := 0, int64(0)
	var hs []map[string]any
	funcs := map[string]bool{}
	q, qs, qu, qk, asserts, assertQ, concA := 0, 0, 0, 0, 0, 0, 0
	solver := 0.0
	var samples []any
	exhaustive := len(exs) > 0
	var incomplete []string
	for _, ex := range exs {
		states += ex.Paths
		trans += ex.Decisions.Load()
		q += ex.Queries
		qs += ex.QSat
		qu += ex.QUnsat
		qk += ex.QUnknown
		asserts += ex.Asserts
		assertQ += ex.AssertQ
		concA += ex.AssertTriv
		solver += ex.SolverTime.Seconds()
		for f := range ex.Funcs {
			funcs[strings.ReplaceAll(f.name, repoMod+"/", "")] = true
		}
		if ex.Incomplete != "" {
			incomplete = append(incomplete, ex.harness+": "+ex.Incomplete)
			exhaustive = false
		}
		if ex.Unsup > 0 || ex.StepLimit > 0 {
			exhaustive = false
			incomplete = append(incomplete, fmt.Sprintf("%s: %d paths left the encodable fragment %s, %d hit the step limit", ex.harness, ex.Unsup, unsupStr(ex), ex.StepLimit))
		}
		hs = append(hs, map[string]any{
			"harness": ex.harness, "paths": ex.Paths, "assumption_pruned": ex.Infeasible, "decisions": ex.Decisions.Load(),
			"decided_by_byte_domains": ex.DomainDec.Load(), "assertion_instances": ex.Asserts, "assertions_decided_by_solver": ex.AssertQ,
			"assertions_constant_after_simplification": ex.AssertTriv, "labels": ex.Labels, "reached": ex.Reached,
			"solver_queries": ex.Queries, "sat": ex.QSat, "unsat": ex.QUnsat, "unknown": ex.QUnknown, "byte_domain_literals_confirmed": ex.Audited, "coverage_query": ex.Cover, "interpreted_instructions": ex.Steps,
		})
		for i, w := range ex.Witnesses {
			if i >= 2 {
				break
			}
			samples = append(samples, w)
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive
	cov["harnesses"] = hs
	cov["functions_encoded"] = fl
	cov["solver"] = map[string]any{"name": "z3 (z3-new -in), cvc5/z3 fallback", "queries": q, "sat": qs, "unsat": qu, "unknown": qk, "seconds": round(solver), "assertion_instances": asserts, "decided_by_query": assertQ, "constant": concA}
	cov["bounds"] = boundsOf(verif, prop, tier)
	cov["bounds_used"] = tier
	if deepQuick(verif, prop) {
		cov["bounds_used"] = "thorough (in both tiers)"
	}
	cov["incomplete"] = incomplete
	cov["load_s"] = round(loadS)
	if nat != nil {
		cov["native_runs"] = nat.Runs
	}
	if len(notes) > 0 {
		if len(notes) > 10 {
			notes = notes[:10]
		}
		cov["notes"] = notes
	}
	if failure != "" {
		cov["failure"] = failure
	}
	var stubs []string
	stubMu.Lock()
	for s := range stubsUsed {
		stubs = append(stubs, s)
	}
	stubMu.Unlock()
	sort.Strings(stubs)
	assumptions := append([]string{
		"Go SSA (golang.org/x/tools/go/ssa) of the instrumented sources means what the compiler's output means; spot-checked by replaying models natively",
		"zerolog calls have no effect on behaviour",
		"gin and gron are replaced by models (routes recorded; job table without the real-time timer)",
		"map iteration follows insertion order in the encoding",
	}, stubs...)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": viols,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// boundsOf collects the "bound:" comments of the harness sources.
func boundsOf(verif, prop, tier string) []string {
	var out []string
	ms, _ := filepath.Glob(filepath.Join(verif, "harness", strings.ToLower(prop), "*.go"))
	for _, m := range ms {
		b, _ := os.ReadFile(m)
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if s, ok := strings.CutPrefix(l, "// bound:"); ok {
				out = append(out, strings.TrimSpace(s))
			}
		}
	}
	return out
}
