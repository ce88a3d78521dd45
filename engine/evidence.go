package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"
)

func writeEvidence(prop string, hs []*Harness, mism []string, wall time.Duration, errs string, validated int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{}
	states, trans := 0, 0
	q, sat, unsat, unk := 0, 0, 0, 0
	paths, asserts, triv, instr := 0, 0, 0, 0
	solver := 0.0
	fns := map[string]bool{}
	var per []interface{}
	var samples []interface{}
	var reduced []string
	viol := 0
	exhaustive := true
	for _, h := range hs {
		r := h.Res
		if r == nil {
			continue
		}
		states += r.States + r.Paths
		trans += r.Trans + r.Paths
		q += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unk
		solver += r.SolverS
		paths += r.Paths
		triv += r.Trivial
		instr += r.Instrs
		viol += len(r.Viol)
		for _, n := range r.Asserts {
			asserts += n
		}
		for _, f := range r.Functions {
			fns[f] = true
		}
		for k, n := range r.Inconc {
			reduced = append(reduced, h.Name+": "+strconv.Itoa(n)+" paths not explored: "+k)
			exhaustive = false
		}
		if r.Truncated != "" {
			reduced = append(reduced, h.Name+": "+r.Truncated)
			exhaustive = false
		}
		if r.Err != "" {
			reduced = append(reduced, h.Name+": engine: "+r.Err)
			exhaustive = false
		}
		per = append(per, map[string]interface{}{
			"harness": h.Name, "what": join(h.Doc), "bounds": h.Opt, "preemption_bound": r.Preempt, "threads": max(1, r.MaxThreads), "complete_paths": r.Paths, "scheduling_states": r.States,
			"merged_states": r.Merged, "ssa_instructions": r.Instrs, "queries": r.Queries, "sat": r.Sat, "unsat": r.Unsat, "unknown": r.Unk,
			"cache_hits": r.CacheHit, "model_reuse": r.ModelHit, "solver_s": r.SolverS, "wall_s": r.Wall, "assertions": r.Asserts, "assertions_sent_to_solver": r.AssertQ, "assertions_folded_constant": r.Trivial,
			"reachability_witnesses_hit": r.Reached, "reachability_witnesses_missed": r.NotReached, "racy_pairs_made_visible": r.Races, "violations": len(r.Viol),
		})
		for i, s := range r.Samples {
			if i < 2 {
				samples = append(samples, map[string]interface{}{"harness": h.Name, "path_model": s})
			}
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	reduced = append(reduced, droppedFiles...)
	sort.Strings(reduced)
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive && errs == ""
	cov["functions_encoded"] = fl
	cov["harnesses"] = per
	cov["queries"] = q
	cov["queries_sat"] = sat
	cov["queries_unsat"] = unsat
	cov["queries_unknown"] = unk
	cov["solver_s"] = solver
	cov["complete_paths"] = paths
	cov["assertions_checked"] = asserts
	cov["ssa_instructions_executed"] = instr
	cov["reduced_bounds"] = reduced
	cov["solver_errors"] = solverErrors
	if len(mism) > 0 {
		cov["native_mismatches"] = mism
	}
	if errs != "" {
		cov["inconclusive"] = errs
	}
	ev := map[string]interface{}{"property": prop, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": []string{
			"bounds: every loop, input size, schedule length and preemption count is bounded as listed per harness; nothing is claimed outside",
			"environment stubs (logging, clock, uuid, redis and grpc transports, JSON/JWT text) behave as described in DESIGN.md",
			"sequentially consistent interleavings at visible operations; racy plain accesses are made visible and explored",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0755)
	os.WriteFile(filepath.Join(*fVerif, "evidence", prop+".json"), b, 0644)
}

func join(a []string) string {
	s := ""
	for i, x := range a {
		if i > 0 {
			s += " "
		}
		s += x
	}
	return s
}
