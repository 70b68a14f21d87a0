package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	fID      = flag.String("id", "", "property id, e.g. C01")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fRoot    = flag.String("root", "/verif", "root of the verification tree")
	fBudget  = flag.Duration("budget", 0, "exploration time limit")
	fWorkers = flag.Int("workers", 8, "workers")
	fOnly    = flag.String("only", "", "only harnesses whose name contains this")
	fReplay  = flag.String("replay", "", "replay a violation file")
	fProf    = flag.String("cpuprofile", "", "write a CPU profile")
	fAll     = flag.Bool("all", false, "do not stop at the first violation")
	fV       = flag.Bool("v", false, "verbose")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(1000)
	debug.SetMemoryLimit(10 << 30)
	if *fProf != "" {
		f, _ := os.Create(*fProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		realMain()
		return
	}
	os.Exit(realMain())
}

type known struct {
	Property string  `json:"property"`
	Status   string  `json:"status"` // "known" or "fixed"
	Harness  string  `json:"harness"`
	Label    string  `json:"label"`
	Inputs   []int64 `json:"inputs,omitempty"`
	Commit   string  `json:"commit,omitempty"`
	What     string  `json:"what"`
}

func realMain() int {
	t0 := time.Now()
	harnessDir := filepath.Join(*fRoot, "harness")
	work, err := os.MkdirTemp("", "vengine")
	if err != nil {
		fmt.Println("cannot make a scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(work)
	p, err := load(harnessDir, "./h", "./model")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var names []string
	for _, f := range p.harnesses("H_") {
		names = append(names, f.Name())
	}
	th := *fTier == "thorough"
	if *fReplay != "" {
		return replayFile(harnessDir, work, names)
	}
	type built struct {
		bin string
		err error
	}
	bc := make(chan built, 1)
	go func() {
		bin, err := buildReplay(harnessDir, work, names, false)
		bc <- built{bin, err}
	}()
	e := &Explorer{p: p, models: map[string]*Fn{}, thorough: th, ufs: map[string]int{}, fnSeen: map[*Fn]bool{}, stepLimit: 50000000, sampleMax: 60, candMax: 4}
	if *fAll {
		e.candMax = 200
	}
	if th {
		e.sampleMax = 400
	}
	var fs []*ssa.Function
	for _, f := range p.harnesses("H_" + *fID + "_") {
		if *fOnly == "" || strings.Contains(f.Name(), *fOnly) {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		fmt.Println("no harness for", *fID)
		return 2
	}
	for _, f := range fs {
		fn := p.fn(f)
		e.hs = append(e.hs, &Harness{name: f.Name(), fn: fn, covers: map[string]bool{}, incomplete: map[string]int{}, cands: map[string][]*sample{}})
	}
	for _, n := range []string{"ParseFloat", "FloatErr", "ErrorsIs", "RuneCount", "Quote", "WrapErr", "Marshal"} {
		if m := p.harnesses(n); len(m) == 1 {
			e.models[n] = p.fn(m[0])
		}
	}
	b := <-bc
	if b.err != nil {
		fmt.Println(b.err)
		return 2
	}
	rp := &Replayer{bin: b.bin, th: th}
	defer rp.stop()
	var raceBin *Replayer
	knowns := readKnown(filepath.Join(*fRoot, "known_findings.json"))
	e.confirm = func(c *sample) bool {
		a := rp.run(c.h.name, c.inputs, 10*time.Second, 1)
		ok := false
		switch c.kind {
		case "race":
			// a data race is confirmed by the race detector or by a wrong result
			e.mu.Lock()
			if raceBin == nil {
				bin, err := buildReplay(harnessDir, work, names, true)
				if err == nil {
					raceBin = &Replayer{bin: bin, th: th}
				}
			}
			e.mu.Unlock()
			if raceBin != nil {
				for i := 0; i < 20 && !ok; i++ {
					a = raceBin.run(c.h.name, c.inputs, 60*time.Second, 50)
					ok = a.Status == "race" || a.Status == "fail" || a.Status == "panic" || a.Status == "crash"
				}
			}
		case "steps":
			ok = a.Status == "hang" || a.Status == "crash" || a.Status == "fail" || a.Status == "panic"
		default:
			ok = a.Status == "fail" || a.Status == "panic" || a.Status == "hang" || a.Status == "crash"
		}
		if c.sched && !ok && a.Status == "ok" {
			for i := 0; i < 10 && !ok; i++ {
				a = rp.run(c.h.name, c.inputs, 60*time.Second, 2000)
				ok = a.Status == "fail" || a.Status == "panic" || a.Status == "crash"
			}
		}
		e.mu.Lock()
		defer e.mu.Unlock()
		if ok {
			e.confirmed = append(e.confirmed, &violation{c, a.Status + ": " + a.Label})
			known := false
			for _, k := range knowns {
				if matchKnown(k, c, a) {
					known = true
				}
			}
			if !known && !*fAll {
				e.stopped = true
				e.cond.Broadcast()
			}
		} else {
			e.unconf = append(e.unconf, fmt.Sprintf("%s %s:%s native %s %s inputs %v", c.h.name, c.kind, c.label, a.Status, a.Label, c.inputs))
		}
		return ok
	}
	budget := *fBudget
	if budget == 0 {
		budget = 240 * time.Second
		if th {
			budget = 700 * time.Second
		}
	}
	loadT := time.Since(t0)
	e.deadline = time.Now().Add(budget)
	e.run(*fWorkers)
	if raceBin != nil {
		raceBin.stop()
	}
	if debugForks {
		for k, v := range forkSites {
			fmt.Println("fork", v, k)
		}
	}
	exploreT := time.Since(e.start)

	// native validation of sampled paths
	validated, mismatches := 0, 0
	var mism []string
	valDeadline := time.Now().Add(30 * time.Second)
	for _, h := range e.hs {
		for _, s := range h.samples {
			if time.Now().After(valDeadline) {
				break
			}
			a := rp.run(s.h.name, s.inputs, 10*time.Second, 1)
			ok := a.Status == "ok"
			if ok && len(a.Obs) != len(s.obs) {
				ok = len(s.obs) < len(a.Obs) // opaque observations are not compared
			} else if ok {
				for i := range s.obs {
					if string(a.Obs[i].V) != s.obs[i].Val || a.Obs[i].L != s.obs[i].Label {
						ok = false
					}
				}
			}
			if ok {
				validated++
			} else {
				mismatches++
				if len(mism) < 10 {
					mism = append(mism, fmt.Sprintf("%s inputs %v: native %s %s obs %v, symbolic obs %v", s.h.name, s.inputs, a.Status, a.Label, a.Obs, s.obs))
				}
				// a path the engine calls fine but the real code fails is a violation
				if a.Status == "fail" || a.Status == "panic" || a.Status == "hang" || a.Status == "crash" {
					s.kind, s.label = "sample", a.Label
					e.confirmed = append(e.confirmed, &violation{s, a.Status + ": " + a.Label})
				}
			}
		}
	}
	return report(e, rp, knowns, validated, mismatches, mism, loadT, exploreT, time.Since(t0))
}

func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []known
	if json.Unmarshal(b, &ks) != nil {
		return nil
	}
	return ks
}

func matchKnown(k known, c *sample, a nativeAnswer) bool {
	if k.Status != "known" || k.Harness != c.h.name || !strings.Contains(a.Status+": "+a.Label, k.Label) {
		return false
	}
	if len(k.Inputs) > 0 {
		if len(k.Inputs) > len(c.inputs) {
			return false
		}
		for i, x := range k.Inputs {
			if x >= 0 && x != c.inputs[i] {
				return false
			}
		}
	}
	return true
}

func report(e *Explorer, rp *Replayer, knowns []known, validated, mismatches int, mism []string, loadT, exploreT, total time.Duration) int {
	var paths, steps, asserts, folded, infeas, incomplete, queries int64
	maxVars := 0
	truncated := []string{}
	var hsum []map[string]any
	incReasons := map[string]int{}
	var samples []any
	sum := ""
	for _, h := range e.hs {
		paths += h.paths
		steps += h.steps
		asserts += h.asserts
		folded += h.folded
		infeas += h.infeasible
		incomplete += h.incompleteN
		queries += h.queries
		if h.maxVars > maxVars {
			maxVars = h.maxVars
		}
		if h.truncated {
			truncated = append(truncated, h.name)
		}
		for k, v := range h.incomplete {
			incReasons[h.name+": "+k] += v
		}
		var cov []string
		for c := range h.covers {
			cov = append(cov, c)
		}
		sort.Strings(cov)
		hsum = append(hsum, map[string]any{"harness": h.name, "paths": h.paths, "infeasible": h.infeasible, "incomplete": h.incompleteN,
			"steps": h.steps, "assertions": h.asserts, "folded_by_term_rewriting": h.folded, "max_symbolic_bytes": h.maxVars,
			"max_decisions": h.maxPicks, "truncated": h.truncated, "left_on_queue": len(h.stack), "solver_queries": h.queries, "covers": cov, "seconds": h.used.Seconds()})
		for i, s := range h.samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]any{"harness": h.name, "inputs": s.inputs, "observed": s.obs})
		}
		sum += fmt.Sprintf("  %-34s paths %7d infeasible %5d incomplete %4d queries %6d asserts %8d (folded %d) vars<=%d %.1fs%s\n", h.name, h.paths, h.infeasible, h.incompleteN, h.queries, h.asserts, h.folded, h.maxVars, h.used.Seconds(), map[bool]string{true: " TRUNCATED"}[h.truncated])
	}
	var sat, unsat, unk int64
	var sdur time.Duration
	var z2q int64
	for _, w := range e.workers {
		sat += w.z.sat
		unsat += w.z.unsat
		unk += w.z.unknown
		sdur += w.z.dur
		if w.z2 != nil {
			z2q += w.z2.queries
		}
	}
	fmt.Print(sum)
	fmt.Printf("%s %s: load %.1fs explore %.1fs total %.1fs; solver queries %d (sat %d unsat %d unknown %d) %.1fs; native: validated %d mismatched %d\n", *fID, *fTier, loadT.Seconds(), exploreT.Seconds(), total.Seconds(), queries, sat, unsat, unk, sdur.Seconds(), validated, mismatches)
	if *fV {
		for k, v := range incReasons {
			fmt.Println("  incomplete:", v, k)
		}
		for _, n := range e.notes {
			fmt.Println("  note:", n)
		}
	}
	for _, m := range mism {
		fmt.Println("  mismatch:", m)
	}
	for i, u := range e.unconf {
		if i < 10 {
			fmt.Println("  not confirmed:", u)
		}
	}
	// verdict
	viol := 0
	knownHit := map[int]bool{}
	evDir := filepath.Join(*fRoot, "evidence")
	os.MkdirAll(evDir, 0o755)
	violList := []any{}
	seen := map[string]bool{}
	for _, v := range e.confirmed {
		isKnown := false
		st := strings.SplitN(v.native, ": ", 2)
		for i, k := range knowns {
			if k.Property == *fID && matchKnown(k, v.s, nativeAnswer{Status: st[0], Label: st[1]}) {
				knownHit[i] = true
				isKnown = true
			}
		}
		if isKnown {
			continue
		}
		key := v.s.h.name + v.native
		if seen[key] {
			continue
		}
		seen[key] = true
		viol++
		rf := filepath.Join(evDir, fmt.Sprintf("replay_%s_%d.json", *fID, viol))
		b, _ := json.MarshalIndent(map[string]any{"property": *fID, "harness": v.s.h.name, "inputs": v.s.inputs, "thorough": e.thorough, "kind": v.s.kind, "assertion": v.s.label, "native": v.native, "rerun": "bash /verif/check.sh --replay " + rf}, "", " ")
		os.WriteFile(rf, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fID, rf)
		fmt.Printf("  %s: %s (native: %s) inputs %v\n", v.s.h.name, v.s.label, v.native, v.s.inputs)
		violList = append(violList, map[string]any{"harness": v.s.h.name, "assertion": v.s.label, "native": v.native, "replay": rf})
	}
	for i, k := range knowns {
		if k.Status == "known" && k.Property == *fID {
			_ = knownHit
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fID, k.What)
			_ = i
		}
	}
	writeEvidence(e, map[string]any{
		"paths": paths, "steps": steps, "asserts": asserts, "folded": folded, "infeasible": infeas, "incomplete": incomplete,
		"queries": queries, "sat": sat, "unsat": unsat, "unknown": unk, "solver_s": sdur.Seconds(), "z2q": z2q,
		"validated": validated, "mismatches": mismatches, "maxvars": maxVars, "harnesses": hsum, "truncated": truncated,
		"reasons": incReasons, "samples": samples, "violations": violList, "total_s": total.Seconds(), "load_s": loadT.Seconds(),
		"unconfirmed": len(e.unconf), "replays": atomic.LoadInt64(&rp.runs),
	})
	if viol > 0 {
		return 1
	}
	return 0
}

func replayFile(harnessDir, work string, names []string) int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Harness  string
		Inputs   []int64
		Thorough bool
		Kind     string
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	bin, err := buildReplay(harnessDir, work, names, r.Kind == "race")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rp := &Replayer{bin: bin, th: r.Thorough}
	defer rp.stop()
	rep := 1
	if r.Kind == "race" {
		rep = 200
	}
	a := rp.run(r.Harness, r.Inputs, 60*time.Second, rep)
	fmt.Println(a.Status, a.Label)
	for _, o := range a.Obs {
		fmt.Printf("  %s = %q\n", o.L, o.V)
	}
	if a.Status == "ok" {
		return 0
	}
	return 1
}
