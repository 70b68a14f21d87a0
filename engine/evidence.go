package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strconv"
)

const jinPkg = "github.com/ecoshub/jin"

// writeEvidence rewrites evidence/<id>.json from what this run measured.
func writeEvidence(e *Explorer, m map[string]any) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var nodes int64
	for _, h := range e.hs {
		nodes += h.nodes
	}
	fns := e.functions(jinPkg)
	lib := []string{}
	for f := range e.fnSeen {
		if f.pkg != "" && f.pkg != jinPkg && f.pkg != "jinverif/h" {
			lib = append(lib, f.name)
		}
	}
	trunc := m["truncated"].([]string)
	reasons := m["reasons"].(map[string]int)
	cov := map[string]any{
		"explanation": "Symbolic execution of the Go SSA of the working tree's package. Every harness path is explored for all values of its symbolic bytes; " +
			"per path the negated assertions that term rewriting did not already decide go to z3 together with the path condition. " +
			"states counts the nodes of the decision tree that were visited, transitions the SSA instructions executed symbolically.",
		"states":                          nodes,
		"transitions":                     m["steps"],
		"paths":                           m["paths"],
		"infeasible_paths":                m["infeasible"],
		"incomplete_paths":                m["incomplete"],
		"incomplete_reasons":              reasons,
		"exhaustive":                      len(trunc) == 0 && len(reasons) == 0,
		"truncated_harnesses":             trunc,
		"traces_validated_against_impl":   m["validated"],
		"native_mismatches":               m["mismatches"],
		"native_replays":                  m["replays"],
		"unconfirmed_candidates":          m["unconfirmed"],
		"assertions_checked":              m["asserts"],
		"assertions_decided_by_rewriting": m["folded"],
		"solver": map[string]any{"name": "z3 4.8.12 (QF_BV)", "batch_queries": e.batches, "paths_in_batches": e.batchPaths, "batches_refuted": e.batchBad, "queries": m["queries"], "sat": m["sat"], "unsat": m["unsat"], "unknown": m["unknown"], "seconds": m["solver_s"],
			"path_condition_checks": e.pcChecks, "path_conditions_found_unsat": e.pcUnsat, "cross_checked_with_second_solver": e.crossN, "cross_check_disagreements": e.crossBad},
		"max_symbolic_bytes":                      m["maxvars"],
		"functions_encoded":                       fns,
		"library_functions_executed_symbolically": len(lib),
		"harnesses":                               m["harnesses"],
		"bounds":                                  "per harness: see covers, max_symbolic_bytes and the bounds column of /verif/DESIGN.md; step limit per path " + strconv.FormatInt(e.stepLimit, 10) + " SSA instructions",
		"samples":                                 m["samples"],
		"notes":                                   e.notes,
	}
	ev := map[string]any{
		"property": *fID, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"amd64, gc growth rules for append, strings and errors as modelled in engine/models.go",
			"symbolic bytes range over the sets the harness names; document shapes over the enumerated ones",
			"floating-point parsing and formatting of symbolic text is opaque beyond syntax",
		},
		"wall_s": m["total_s"], "violations": len(m["violations"].([]any)),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*fRoot, "evidence", *fID+".json"), append(b, '\n'), 0o644)
}
