package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type replayResp struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Vals   []jval   `json:"vals"`
}

// replayBatch runs recorded inputs through the real code.
func (e *Engine) replayBatch(pkg string, reqs []map[string]any, limit time.Duration) []replayResp {
	bin := e.replayBin[pkg]
	if bin == "" {
		return nil
	}
	var buf bytes.Buffer
	for _, r := range reqs {
		b, _ := json.Marshal(r)
		buf.Write(b)
		buf.WriteByte('\n')
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", "-c", `ulimit -v 12000000; exec "$0"`, bin)
	cmd.Stdin = &buf
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var out []replayResp
	sc := bufio.NewScanner(&so)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var r replayResp
		if json.Unmarshal(sc.Bytes(), &r) == nil && r.Status != "" {
			out = append(out, r)
		}
	}
	if len(out) < len(reqs) {
		st := "crash"
		if ctx.Err() != nil {
			st = "timeout"
		}
		msg := se.String()
		if len(msg) > 200 {
			msg = msg[:200]
		}
		if err != nil && !strings.Contains(msg, "out of memory") && !strings.Contains(msg, "stack exceeds") && !strings.Contains(msg, "fatal error") {
			if st == "crash" {
				st = "error"
			}
		}
		out = append(out, replayResp{Status: st, Msg: strings.SplitN(msg, "\n", 2)[0]})
	}
	return out
}

func (e *Engine) replay(h *Harness, vals []jval, limit time.Duration) replayResp {
	rs := e.replayBatch(h.pkg, []map[string]any{{"h": h.name, "thorough": e.thorough, "vals": vals}}, limit)
	if len(rs) == 0 {
		return replayResp{Status: "norun"}
	}
	return rs[0]
}

// search looks for values of the inputs named ~ for which the real code fails like the counterexample.
func (e *Engine) search(h *Harness, vals []jval) replayResp {
	rs := e.replayBatch(h.pkg, []map[string]any{{"h": h.name, "thorough": e.thorough, "vals": vals, "search": 25}}, 60*time.Second)
	if len(rs) == 0 {
		return replayResp{Status: "norun"}
	}
	return rs[0]
}

type knownEntry struct{ harness, label, text string }

func (e *Engine) isKnown(h, label string) *knownEntry {
	for i := range e.known {
		k := &e.known[i]
		if k.harness == h && k.label == label {
			return k
		}
	}
	return nil
}

// loadKnown reads lines: known: property=<id> harness=<h> label="<label>" <text>
func (e *Engine) loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		f := strings.SplitN(l, " ", 3)
		if len(f) < 3 || f[0] != "property="+e.prop || !strings.HasPrefix(f[1], "harness=") {
			continue
		}
		rest := f[2]
		if !strings.HasPrefix(rest, `label="`) {
			continue
		}
		rest = rest[len(`label="`):]
		i := strings.IndexByte(rest, '"')
		if i < 0 {
			continue
		}
		e.known = append(e.known, knownEntry{harness: strings.TrimPrefix(f[1], "harness="), label: rest[:i], text: strings.TrimSpace(rest[i+1:])})
	}
}

func main() {
	var (
		repo    = flag.String("repo", "/repo", "")
		hdir    = flag.String("harness", "/verif/harness", "")
		workDir = flag.String("work", "", "")
		prop    = flag.String("prop", "", "")
		tier    = flag.String("tier", "quick", "")
		budget  = flag.Int("budget", 0, "seconds of exploration")
		only    = flag.String("only", "", "substring of harness names")
		verbose = flag.Bool("v", false, "")
		keep    = flag.Bool("all", false, "keep going after a violation")
		workers = flag.Int("j", 8, "")
		evid    = flag.String("evidence", "", "")
		known   = flag.String("known", "/verif/known_findings.txt", "")
		rfile   = flag.String("replay", "", "replay a counterexample file")
		prof    = flag.String("prof", "", "")
	)
	flag.Parse()
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	e := &Engine{repo: *repo, harnessDir: *hdir, prop: *prop, thorough: *tier == "thorough", seed: seed,
		notes: map[string]int{}, funcs: map[string]bool{}, replayBin: map[string]string{}, verbose: *verbose, only: *only,
		keepGoing: *keep, start: time.Now(), maxStep: 40_000_000}
	pkg := strings.ToLower(*prop)
	if *rfile != "" {
		b, err := os.ReadFile(*rfile)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v struct {
			Property, Harness, Pkg, Label string
			Thorough                      bool
			Values                        []jval
		}
		json.Unmarshal(b, &v)
		e.prop, pkg, e.thorough = v.Property, v.Pkg, v.Thorough
		e.work, _ = os.MkdirTemp("", "zzreplay")
		defer os.RemoveAll(e.work)
		if err := e.collectOverlay([]string{pkg}); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if err := e.buildReplay(pkg); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		r := e.replay(&Harness{name: v.Harness, pkg: pkg}, v.Values, 60*time.Second)
		fmt.Printf("harness %s: expected %q; real code: %s %s\n", v.Harness, v.Label, r.Status, r.Msg)
		if r.Status == "ok" || r.Status == "assume" {
			return
		}
		os.Exit(1)
	}
	if *workDir == "" {
		d, err := os.MkdirTemp("", "zzwork")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		*workDir = d
		defer os.RemoveAll(d)
	} else {
		os.MkdirAll(*workDir, 0o755)
	}
	e.work = *workDir
	e.loadKnown(*known)
	if *budget == 0 {
		*budget = 150
		if e.thorough {
			*budget = 780
		}
	}
	code := e.run(pkg, *budget, *workers, *evid)
	if *workDir != "" {
		os.RemoveAll(e.work)
	}
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func (e *Engine) run(pkg string, budget, workers int, evid string) int {
	e.buildIntrinsics()
	if err := e.collectOverlay([]string{pkg}); err != nil {
		fmt.Println("no answer: overlay:", err)
		return 2
	}
	rb := make(chan error, 1)
	go func() { rb <- e.buildReplay(pkg) }()
	if err := e.load([]string{pkg}); err != nil {
		fmt.Println("note: load:", err)
	}
	loadT := time.Since(e.start)
	if err := <-rb; err != nil {
		fmt.Println("note:", err)
	}
	e.deadline = time.Now().Add(time.Duration(budget) * time.Second)
	hardEnd := e.deadline
	if len(e.harnesses) > 0 {
		e.explore(workers)
	}
	exploreT := time.Since(e.start) - loadT
	_ = hardEnd
	e.validateTraces(pkg)
	for _, s := range e.skipped {
		fmt.Println("note: harness package skipped (does not build against this tree):", s)
	}
	if e.verbose || os.Getenv("ZZ_SUMMARY") != "" {
		e.summary(loadT, exploreT)
	}
	if forkProf {
		var l []string
		for k, n := range forkN {
			l = append(l, fmt.Sprintf("%9d forks %s", n, k))
		}
		sort.Sort(sort.Reverse(sort.StringSlice(l)))
		for _, x := range l {
			fmt.Println(x)
		}
	}
	e.writeEvidence(evid, len(e.vios))
	for _, k := range e.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", e.prop, k.text)
	}
	if len(e.vios) > 0 {
		for _, v := range e.vios {
			fmt.Printf("harness %s: %s (%s)\n", v.Harness, v.Label, v.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop, e.vios[0].File)
		return 1
	}
	complete := 0
	for _, h := range e.harnesses {
		if h.complete() {
			complete++
		}
	}
	explored := int64(0)
	for _, h := range e.harnesses {
		explored += h.done
	}
	if explored == 0 {
		fmt.Println("no answer: nothing could be explored")
		return 2
	}
	fmt.Printf("%s: %d/%d harnesses explored completely, no violation (%.1fs)\n", e.prop, complete, len(e.harnesses), time.Since(e.start).Seconds())
	return 0
}

func (h *Harness) complete() bool {
	return h.dropped == 0 && h.bound == 0 && h.unsup == 0 && h.assertU == 0 && h.inconc == 0 && len(h.reach) > 0
}

func (e *Engine) validateTraces(pkg string) {
	for _, h := range e.harnesses {
		if len(h.pending) == 0 {
			continue
		}
		var reqs []map[string]any
		for _, p := range h.pending {
			reqs = append(reqs, map[string]any{"h": h.name, "thorough": e.thorough, "vals": p.vals})
		}
		rs := e.replayBatch(pkg, reqs, 120*time.Second)
		for i, p := range h.pending {
			if i >= len(rs) {
				break
			}
			r := rs[i]
			ok := r.Status == "ok" && len(r.Obs) == len(p.obs)
			if ok {
				for k := range p.obs {
					if !obsMatch(p.obs[k], r.Obs[k]) {
						ok = false
					}
				}
			}
			if ok {
				e.traceOK++
			} else if r.Status == "timeout" || r.Status == "norun" {
				e.traceSkip++
			} else {
				e.traceBad++
				b, _ := json.Marshal(p.vals)
				e.badTraces = append(e.badTraces, fmt.Sprintf("%s: engine %.300v real %s %s %.300v inputs %.400s", h.name, p.obs, r.Status, r.Msg, r.Obs, b))
			}
		}
	}
}

func obsMatch(a, b string) bool {
	if a == b {
		return true
	}
	// '*' stands for one byte depending on an uninterpreted function
	if !strings.Contains(a, "*") {
		return false
	}
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] == '*' {
			i++
			j += 2
			continue
		}
		if a[i] != b[j] {
			return false
		}
		i++
		j++
	}
	return i == len(a) && j == len(b)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (e *Engine) summary(loadT, exploreT time.Duration) {
	fmt.Fprintf(os.Stderr, "load %.1fs explore %.1fs; queries %d (sat %d unsat %d unknown %d, fallback %d) %.1fs; cross %d disagree %d bad %d; traces ok %d bad %d skip %d\n",
		loadT.Seconds(), exploreT.Seconds(), e.st.Queries, e.st.SatN, e.st.UnsatN, e.st.UnknownN, e.st.Fallbacks, float64(e.st.Nanos)/1e9, e.st.Cross, e.st.CrossDisagree, e.st.BadModels, e.traceOK, e.traceBad, e.traceSkip)
	for _, h := range e.harnesses {
		fmt.Fprintf(os.Stderr, "  %-40s complete=%v paths=%d done=%d assumed=%d bound=%d unsup=%d unk=%d inconc=%d dropped=%d asserts=%d steps=%d cpu=%.1fs reach=%v\n",
			h.name, h.complete(), h.paths, h.done, h.assumed, h.bound, h.unsup, h.assertU, h.inconc, h.dropped, h.asserts, h.steps, float64(h.cpu)/1e9, sortedKeys(h.reach))
		for _, r := range sortedKeys(h.reasons) {
			fmt.Fprintf(os.Stderr, "      %s x%d\n", r, h.reasons[r])
		}
	}
	for i, b := range e.badTraces {
		if i < 10 {
			fmt.Fprintln(os.Stderr, "  TRACE MISMATCH", b)
		}
	}
	for n, c := range e.notes {
		fmt.Fprintf(os.Stderr, "  note x%d: %s\n", c, n)
	}
}

func (e *Engine) writeEvidence(path string, vios int) {
	if path == "" {
		return
	}
	var hs []map[string]any
	var paths, steps, forks, asserts, trunc, unk int64
	var samples []any
	assum := map[string]bool{}
	bounds := []string{}
	unreached := []string{}
	for _, h := range e.harnesses {
		paths += h.paths
		steps += h.steps
		forks += h.forks
		asserts += h.asserts
		trunc += h.bound + h.unsup + int64(h.dropped)
		unk += h.assertU
		if len(h.reach) == 0 {
			unreached = append(unreached, h.name)
		}
		hs = append(hs, map[string]any{"harness": h.name, "complete_within_bounds": h.complete(), "paths": h.paths, "paths_finished": h.done,
			"paths_outside_assumptions": h.assumed, "paths_truncated": h.bound, "paths_unsupported": h.unsup, "paths_dropped_on_time": h.dropped,
			"assertions_checked": h.asserts, "assertions_unknown": h.assertU, "counterexamples_not_reproduced": h.inconc,
			"labels": h.labels, "witnesses_reached": sortedKeys(h.reach), "incomplete_because": h.reasons, "bounds": sortedKeys(h.bounds), "known_findings_hit": sortedKeys(h.knownHit)})
		for _, s := range h.samples {
			if len(samples) < 6 {
				samples = append(samples, map[string]any{"harness": h.name, "inputs": s})
			}
		}
		for _, b := range sortedKeys(h.bounds) {
			bounds = append(bounds, h.name+": "+b)
		}
		for a := range h.assumes {
			assum[a] = true
		}
	}
	assumptions := append([]string{
		"the SSA-to-SMT translator (validated per run by replaying path models natively) and z3/cvc5 are trusted",
		"nothing is claimed outside the bounds listed in coverage.bounds",
	}, sortedKeys(assum)...)
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	fl := sortedKeys(e.funcs)
	cov := map[string]any{
		"states": paths + forks, "transitions": steps, "traces_validated_against_impl": e.traceOK, "samples": samples,
		"paths": paths, "forks": forks, "ssa_instructions_executed": steps,
		"functions_encoded": fl, "functions_encoded_count": len(fl),
		"bounds": bounds, "queries": atomic.LoadInt64(&e.st.Queries), "queries_sat": e.st.SatN, "queries_unsat": e.st.UnsatN, "queries_unknown": e.st.UnknownN,
		"solver_seconds": float64(e.st.Nanos) / 1e9, "solver": "z3 5.3.2 incremental (QF_BV), fallback one-shot z3/cvc5 race",
		"cross_checked_with_cvc5": e.st.Cross, "cross_check_disagreements": e.st.CrossDisagree, "answers_discarded_as_no_model": e.st.BadModels,
		"assertions_checked": asserts, "assertions_unknown": unk, "paths_truncated_or_dropped": trunc,
		"trace_mismatches": e.traceBad, "trace_mismatch_samples": e.badTraces[:min(3, len(e.badTraces))], "traces_not_replayable": e.traceSkip,
		"harnesses": hs, "harness_packages_skipped": e.skipped, "vacuous_harnesses": unreached,
		"explanation": "Symbolic execution of the real code's SSA regenerated from /repo on this run; each assertion decided by the solver for all values within the bounds; counterexamples replayed natively before being reported.",
		"exhaustive":  trunc == 0 && unk == 0 && len(e.skipped) == 0,
	}
	tier := "quick"
	if e.thorough {
		tier = "thorough"
	}
	ev := map[string]any{"property": e.prop, "tier": tier, "seed": e.seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(e.start).Seconds(), "violations": vios}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
}
