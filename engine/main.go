package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	for _, v := range [][2]string{{"GOFLAGS", "-mod=mod"}, {"GOPROXY", "off"}, {"GOTOOLCHAIN", "local"}, {"GONOSUMDB", "*"}, {"CGO_ENABLED", "0"}, {"GOWORK", "off"}} {
		os.Setenv(v[0], v[1])
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check [flags] <property>... | replay <file>")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(2)
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	root := fs.String("root", "/verif", "verification directory")
	fs.Parse(args)
	e := &Engine{}
	if err := e.buildReplay(filepath.Join(*root, "harness")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer e.cleanup()
	js, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	res, out := runReplay(e.replayBin, js)
	fmt.Println(res, out)
	if res == "ok" || res == "assume" {
		return 0
	}
	return 1
}

type known struct {
	property, label string
	text            string
}

// knownFindings reads lines "finding: property=<id> label=<harness/label> <text>"; other lines are history.
func knownFindings(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		k := known{text: strings.TrimPrefix(l, "finding: ")}
		for _, x := range f {
			if strings.HasPrefix(x, "property=") {
				k.property = x[9:]
			}
			if strings.HasPrefix(x, "label=") {
				k.label = x[6:]
			}
		}
		out = append(out, k)
	}
	return out
}

// knownText: the listed finding for a native outcome. The label of the assertion that failed natively is the stable name.
func knownText(kf []known, prop, harness, kind, out string) *known {
	lab := harness + "/" + kind
	if kind == "violation" {
		lab = harness + "/" + strings.Fields(out + " ?")[0]
	}
	for i := range kf {
		if kf[i].property == prop && kf[i].label == lab {
			return &kf[i]
		}
	}
	return nil
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	root := fs.String("root", "/verif", "verification directory")
	verbose := fs.Bool("v", false, "verbose")
	only := fs.String("h", "", "only harnesses with this substring")
	nw := fs.Int("j", 0, "workers")
	limit := fs.Int("t", 0, "time limit in seconds for the whole check")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	var props []string
	for fs.Parse(args); fs.NArg() > 0; fs.Parse(fs.Args()[1:]) {
		props = append(props, fs.Arg(0))
	}
	t0 := time.Now()
	if *tier == "" {
		*tier = "quick"
	}
	thorough := *tier == "thorough"
	if *limit == 0 {
		*limit = 480
		if thorough {
			*limit = 3 * 3600
		}
	}
	if *nw == 0 {
		*nw = runtime.NumCPU()
	}
	hdir := filepath.Join(*root, "harness")
	eb := &Engine{}
	ch := make(chan error, 1)
	go func() { ch <- eb.buildReplay(hdir) }()
	e, err := loadEngine(hdir, *verbose)
	if err2 := <-ch; err2 != nil {
		fmt.Fprintln(os.Stderr, err2)
		return 2
	}
	defer eb.cleanup()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e.replayBin = eb.replayBin
	e.thorough = thorough
	if thorough {
		e.tmo = 60000
		e.maxDecisions, e.maxSteps = 500000, 1000000000
	}
	for i := 0; i < *nw; i++ {
		e.workers = append(e.workers, newWorker(e, i))
	}
	code := 0
	for _, prop := range props {
		if c := e.checkProp(*root, prop, *tier, *only, time.Duration(*limit)*time.Second, t0); c > code {
			code = c
		}
		t0 = time.Now()
	}
	return code
}

func (e *Engine) checkProp(root, prop, tier, only string, limit time.Duration, t0 time.Time) int {
	names := e.harnesses(prop)
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	deadline := time.Now().Add(limit)
	e.fnsRepo, e.fnsOther, e.stubs = map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, w := range e.workers {
		for _, c := range w.code {
			c.counted = false
		}
	}
	e.queries, e.sats, e.unsats, e.unknowns, e.solverTime, e.replays = 0, 0, 0, 0, 0, 0
	kf := knownFindings(filepath.Join(root, "known-findings.txt"))
	e.stopAt.Store(0)
	e.isKnown = func(h *harness, kind, out string) bool { return knownText(kf, prop, h.name, kind, out) != nil }
	var hs []*harness
	for i, n := range names {
		if only != "" && !strings.Contains(n, only) {
			continue
		}
		h := newHarness(n)
		// share what is left
		left := time.Until(deadline)
		share := left / time.Duration(len(names)-i) * 3
		if share > left {
			share = left
		}
		h.deadline = time.Now().Add(share)
		h.maxPaths = 1 << 40
		e.run(h)
		hs = append(hs, h)
		e.printHarness(h)
	}
	for _, w := range e.workers {
		e.addSolver(w.smt)
	}
	code := 0
	rdir := filepath.Join(root, "replays")
	nv := 0
	var findings []string
	for _, h := range hs {
		var ls []string
		for l := range h.viol {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			for _, v := range h.viol[l] {
				if k := knownText(kf, prop, h.name, v.kind, v.out); k != nil {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
					findings = append(findings, k.text)
					continue
				}
				os.MkdirAll(rdir, 0o755)
				f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, nv))
				nv++
				js, _ := json.MarshalIndent(replayFile{Property: prop, Harness: h.name, Label: l, Result: v.kind + " " + v.out, Thorough: e.thorough, Inputs: *v.assign}, "", " ")
				os.WriteFile(f, js, 0o644)
				fmt.Printf("  %s: %s: %s\n    %s\n", h.name, v.kind, v.out, v.assign.brief(600))
				if code == 0 || nv <= 20 {
					fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
				}
				code = 1
			}
		}
	}
	e.writeEvidence(root, prop, tier, hs, findings, nv, time.Since(t0))
	if code == 0 {
		printForks()
		fmt.Printf("%s: held on everything explored (%.1f s)\n", prop, time.Since(t0).Seconds())
	}
	return code
}

func (e *Engine) printHarness(h *harness) {
	fmt.Printf("%s: paths %d completed %d infeasible %d cut %d unsupported %d; decisions %d; asserts %d discharged %d; unknown %d; validated %d; %.1f s\n",
		h.name, h.paths, h.completed, h.infeasible, h.cut, h.unsup, h.decisions, h.asserts, h.discharged, h.unknown, h.validated, h.elapsed.Seconds())
	for _, k := range sortedKeys(h.cutMsgs) {
		fmt.Printf("  reduced: %s (x%d)\n", k, h.cutMsgs[k])
	}
	for _, k := range sortedKeys(h.inconcl) {
		fmt.Printf("  inconclusive: %s (x%d)\n", k, h.inconcl[k])
	}
	if h.timedOut {
		fmt.Printf("  reduced: stopped with %d paths queued\n", len(h.queue))
	}
	for _, c := range e.missingCovers(h) {
		fmt.Printf("  reduced: never reached %q\n", c)
	}
	for _, v := range h.validErr {
		fmt.Printf("  engine and native run disagree: %s\n", v)
	}
}

func (e *Engine) missingCovers(h *harness) []string {
	var out []string
	for c := range h.wantCov {
		if !h.covers[c] {
			out = append(out, c)
		}
	}
	sort.Strings(out)
	return out
}

func setList(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (e *Engine) writeEvidence(root, prop, tier string, hs []*harness, findings []string, nv int, wall time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var paths, dec, val, oh, asserts, disch, unk, cut, uns, steps int64
	samples := []string{}
	per := []map[string]interface{}{}
	for _, h := range hs {
		paths += h.completed + h.panics
		dec += h.decisions
		val += h.validated
		oh += h.otherHash
		asserts += h.asserts
		disch += h.discharged
		unk += h.unknown
		cut += h.cut
		uns += h.unsup
		steps += h.steps
		samples = append(samples, h.samples...)
		reduced := sortedKeys(h.cutMsgs)
		if h.timedOut {
			reduced = append(reduced, fmt.Sprintf("time limit with %d paths queued", len(h.queue)))
		}
		for _, c := range e.missingCovers(h) {
			reduced = append(reduced, "never reached: "+c)
		}
		cov := setList(h.covers)
		per = append(per, map[string]interface{}{
			"harness": h.name, "paths_completed": h.completed, "paths_infeasible": h.infeasible, "paths_cut": h.cut,
			"paths_unsupported": h.unsup, "decisions": h.decisions, "assertions": h.asserts, "assertions_discharged": h.discharged,
			"reached": cov, "reduced_bounds": reduced, "inconclusive": sortedKeys(h.inconcl), "seconds": h.elapsed.Seconds(),
			"symbolic_inputs_max": h.inputsMax,
		})
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if len(samples) == 0 {
		samples = []string{"no completed path had a model to sample"}
	}
	others := setList(e.fnsOther)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(),
		"coverage": map[string]interface{}{
			"states": paths, "transitions": dec, "traces_validated_against_impl": val, "validated_with_other_hash_values": oh, "samples": samples,
			"assertions": asserts, "assertions_discharged": disch,
			"functions_encoded_libsv": setList(e.fnsRepo), "functions_encoded_other": others, "functions_replaced_by_engine": setList(e.stubs),
			"solver": "z3 4.8.12 (QF_UFBV, incremental)", "solver_queries": e.queries, "solver_sat": e.sats, "solver_unsat": e.unsats,
			"solver_unknown": e.unknowns, "solver_seconds": e.solverTime.Seconds(), "branch_queries_unknown": unk,
			"instructions_executed": steps, "native_replays": e.replays, "violations": nv, "known_findings": findings,
			"harnesses": per, "engine_notes": sortedKeys(e.notes), "solver_errors": len(e.errs), "load_seconds": e.loadTime.Seconds(),
			"paths_cut": cut, "paths_unsupported": uns,
		},
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(js, '\n'), 0o644)
	for i, s := range e.errs {
		if i < 3 {
			fmt.Fprintln(os.Stderr, "solver:", s)
		}
	}
}
