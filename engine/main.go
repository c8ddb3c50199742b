package main

// xtv: bounded symbolic verification of google/xtoproto.
//
//   xtv check P01            run the check (tier from VERIF_TIER, seed from VERIF_SEED)
//   xtv replay FILE          replay a recorded counterexample natively

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Harness struct {
	Pkg          string         `json:"pkg"`
	Func         string         `json:"func"`
	Quick        map[string]int `json:"quick"`
	Thorough     map[string]int `json:"thorough"`
	Bounds       string         `json:"bounds"`
	Reach        []string       `json:"reach"`
	MaxSteps     int64          `json:"max_steps"`
	MaxConc      int            `json:"max_conc"`
	QueryMs      int            `json:"query_ms"`
	Weight       float64        `json:"weight"`
	NoHang       bool           `json:"no_hang"`
	ThoroughOnly bool           `json:"thorough_only"`
	Fresh        bool           `json:"fresh"` // a new process for each native run: the code keeps state in variables
}

func (h *Harness) Name() string { return h.Pkg + "." + h.Func }
func (h *Harness) queryTimeout() int {
	if h.QueryMs > 0 {
		return h.QueryMs
	}
	return 20000
}

type Check struct {
	Property    string     `json:"property"`
	Harnesses   []*Harness `json:"harnesses"`
	InPkg       []string   `json:"inpkg"`
	ExtraPkgs   []string   `json:"extra_pkgs"`
	Tags        string     `json:"tags"`
	Assumptions []string   `json:"assumptions"`
	Gen         []string   `json:"gen"`
	Instrument  []string   `json:"instrument"`
	QuickS      int        `json:"quick_s"`
	ThoroughS   int        `json:"thorough_s"`
}

type hReport struct {
	Harness      string           `json:"harness"`
	Bounds       string           `json:"bounds"`
	Params       map[string]int   `json:"params"`
	Paths        map[string]int64 `json:"paths_by_outcome"`
	Complete     bool             `json:"explored_completely_within_bounds"`
	Pending      int              `json:"paths_left_unexplored_by_budget"`
	Forks        int64            `json:"forks"`
	Merges       int64            `json:"merged_branches"`
	Instr        int64            `json:"ssa_instructions_executed"`
	AssertQ      int64            `json:"assertion_queries"`
	Asserts      int64            `json:"assertions_checked_on_completed_paths"`
	Unknown      int64            `json:"undecided_queries"`
	Validated    int              `json:"paths_replayed_natively"`
	Mismatch     int              `json:"translation_mismatches"`
	Reached      map[string]int64 `json:"witnesses_reached"`
	Unreached    []string         `json:"witnesses_not_reached"`
	Inconclusive map[string]int64 `json:"inconclusive_paths"`
	WallS        float64          `json:"wall_s"`
}

func main() {
	if len(os.Args) < 2 {
		fatalf("usage: xtv check PROPERTY | replay FILE")
	}
	// All caches and memory stay modest
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2], os.Args[3:]))
	case "replay":
		os.Exit(runReplay(os.Args[2]))
	default:
		fatalf("unknown command %s", os.Args[1])
	}
}

func loadCheck(id string) *Check {
	b, err := os.ReadFile(filepath.Join(verifDir, "checks", id+".json"))
	if err != nil {
		fatalf("%v", err)
	}
	var c Check
	if err := json.Unmarshal(b, &c); err != nil {
		fatalf("checks/%s.json: %v", id, err)
	}
	return &c
}

func knownFindings(prop string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// KNOWN-FINDING: property=P05 id=KF1 text
		if !strings.HasPrefix(l, "KNOWN-FINDING:") {
			continue
		}
		fs := strings.Fields(l)
		if len(fs) < 4 || fs[1] != "property="+prop {
			continue
		}
		out[strings.TrimPrefix(fs[2], "id=")] = strings.Join(fs[3:], " ")
	}
	return out
}

func runCheck(id string, args []string) int {
	t0 := time.Now()
	tier := envOr("VERIF_TIER", "quick")
	only := ""
	for _, a := range args {
		switch {
		case a == "quick" || a == "thorough":
			tier = a
		case strings.HasPrefix(a, "only="):
			only = a[5:]
		}
	}
	seed, _ := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	if p := os.Getenv("XTV_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	c := loadCheck(id)
	var hs []*Harness
	pk := map[string]bool{}
	for _, h := range c.Harnesses {
		if only != "" && h.Func != only {
			continue
		}
		if h.ThoroughOnly && tier != "thorough" {
			continue
		}
		hs = append(hs, h)
		pk[h.Pkg] = true
	}
	for _, p := range c.ExtraPkgs {
		pk[p] = true
	}
	var pkgs, pats []string
	for p := range pk {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	for _, h := range hs {
		pats = append(pats, repoModule+"/zz_verif/"+h.Pkg)
	}
	pats = append(pats, "runtime")
	scratch, err := os.MkdirTemp("", "xtv-"+id+"-")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(scratch)
	ov := overlayFiles(scratch, pkgs, c.InPkg)
	if msg := generate(c, ov, scratch); msg != "" {
		p := writeReplay(id, tier, Cex{Kind: "generate", Msg: msg}, map[string]int{})
		logf("VIOLATION: %s", msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		writeEvidence(id, tier, seed, c, nil, map[string]int64{}, nil, 1, 0, time.Since(t0), map[string]int{})
		return 1
	}
	instrument(c, ov, scratch)
	nativeCh := make(chan *Native, 1)
	nativeErr := make(chan error, 1)
	go func() {
		n, err := buildNative(hs, ov, scratch, c.Tags)
		nativeErr <- err
		nativeCh <- n
	}()
	prog, _ := loadProgram(ov, pats, c.Tags)
	if err := <-nativeErr; err != nil {
		fatalf("%v", err)
	}
	nat := <-nativeCh
	defer nat.stop()

	budget := time.Duration(c.QuickS) * time.Second
	if budget == 0 {
		budget = 120 * time.Second
	}
	if tier == "thorough" {
		budget = time.Duration(c.ThoroughS) * time.Second
		if budget == 0 {
			budget = 600 * time.Second
		}
	}
	known := knownFindings(id)
	knownSeen := map[string]int{}
	var reports []*hReport
	violations := 0
	var firstViol string
	fnNames := map[string]int64{}
	var samples []any
	totalW := 0.0
	for _, h := range hs {
		if h.Weight == 0 {
			h.Weight = 1
		}
		totalW += h.Weight
	}
	left := budget
	unrepro := 0
	for _, h := range hs {
		params := h.Quick
		if tier == "thorough" && h.Thorough != nil {
			params = h.Thorough
		}
		if params == nil {
			params = map[string]int{}
		}
		var pkg *ssa.Package
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == repoModule+"/zz_verif/"+h.Pkg {
				pkg = p
			}
		}
		if pkg == nil {
			fatalf("harness package %s not loaded", h.Pkg)
		}
		pkg.Build()
		fn := pkg.Func(h.Func)
		if fn == nil {
			fatalf("harness %s not found", h.Name())
		}
		share := time.Duration(float64(left) * h.Weight / totalW)
		totalW -= h.Weight
		hStart := time.Now()
		e := newEngine(prog, h, params, share, seed, nWorkers())
		e.run(fn)
		rep := &hReport{Harness: h.Name(), Bounds: h.Bounds, Params: params, Paths: e.paths, Complete: e.complete(), Pending: e.pendingEnd, Forks: e.forks,
			Merges: e.merges, Instr: e.instr, AssertQ: e.assertQ, Asserts: e.asserts, Unknown: e.unkTerms, Reached: e.reached, Inconclusive: e.reasons}
		for f, n := range e.fnHits {
			fnNames[strings.TrimPrefix(f.name, repoModule+"/")] += n
		}
		for _, l := range h.Reach {
			if e.reached[l] == 0 {
				rep.Unreached = append(rep.Unreached, l)
			}
		}
		report := func(kind, hid, msg string, in []uint64) {
			violations++
			p := writeReplay(id, tier, Cex{h.Name(), kind, hid, msg, in}, params)
			if firstViol == "" {
				firstViol = p
			}
			first := msg
			if len(first) > 1500 {
				first = first[:1500]
			}
			logf("VIOLATION in %s: %s %s: %s\n  input %v", h.Name(), kind, hid, first, in)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
		// counterexamples: replay each class until one reproduces
		var keys []string
		for k := range e.cexs {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			confirmed := false
			var lastRes natRes
			for _, cx := range e.cexs[k] {
				r := nat.runOne(h, params, cx.In, 10*time.Second)
				lastRes = r
				switch r.Status {
				case "violation", "panic", "hang":
					if f, ok := known[h.Func+"/"+r.Msg]; ok && r.Status == "violation" {
						knownSeen[h.Func+"/"+r.Msg+" "+f]++
						confirmed = true
						continue
					}
					if !confirmed {
						report(r.Status, cx.ID, r.Msg, cx.In)
					}
					confirmed = true
				case "known":
					if f, ok := known[r.Msg]; ok {
						knownSeen[r.Msg+" "+f]++
						confirmed = true
					} else {
						report("violation", r.Msg, "finding not in known_findings.txt", cx.In)
						confirmed = true
					}
				}
				if confirmed {
					break
				}
			}
			if !confirmed {
				unrepro++
				logf("counterexample class %q of %s did not reproduce natively (%s %s); inputs %v: %s", k, h.Name(), lastRes.Status, lastRes.Msg, e.cexs[k][0].In, e.cexs[k][0].Msg)
			}
		}
		// translation validation
		broken := 0
		for _, s := range e.samples {
			if broken >= 3 {
				break // a run that hangs takes 10 s
			}
			r := nat.runOne(h, params, s.in, 10*time.Second)
			rep.Validated++
			switch r.Status {
			case "ok":
				if strings.Join(r.Obs, "\n") != strings.Join(s.obs, "\n") {
					rep.Mismatch++
					if rep.Mismatch <= 3 {
						logf("translation mismatch in %s: in=%v\n  symbolic %v\n  native   %v", h.Name(), s.in, s.obs, r.Obs)
					}
				}
			case "violation", "panic", "hang":
				rep.Mismatch++
				if violations == 0 {
					report(r.Status, "found by native replay of an explored path", r.Msg, s.in)
				}
				broken++
			case "known":
				rep.Mismatch++
			default:
				rep.Mismatch++
				if rep.Mismatch <= 3 {
					logf("translation mismatch in %s: in=%v obs=%v native status %s %s", h.Name(), s.in, s.obs, r.Status, r.Msg)
				}
			}
		}
		// concolic fallback for paths the encoding could not finish
		for _, s := range e.incModels {
			if violations > 0 && broken >= 3 {
				break
			}
			r := nat.runOne(h, params, s.in, 10*time.Second)
			switch r.Status {
			case "violation", "panic", "hang":
				broken++
				if violations == 0 {
					report(r.Status, "found by native run of a path outside the encoding", r.Msg, s.in)
				}
			case "known":
				if f, ok := known[r.Msg]; ok {
					knownSeen[r.Msg+" "+f]++
				}
			}
		}
		for i, s := range e.samples {
			if i >= 3 {
				break
			}
			samples = append(samples, map[string]any{"harness": h.Name(), "input": s.in, "observed": s.obs})
		}
		rep.WallS = time.Since(hStart).Seconds()
		left -= time.Since(hStart)
		if left < time.Second {
			left = time.Second
		}
		reports = append(reports, rep)
		logf("%-40s %s forks=%d merges=%d instr=%d q=%d hits=%d unk=%d complete=%v val=%d/%d mism=%d %.1fs", h.Name(), e.summary(), e.forks, e.merges, e.instr,
			atomic.LoadInt64(&sstats.queries), atomic.LoadInt64(&sstats.cacheHits), e.unkTerms, rep.Complete, rep.Validated, len(e.samples), rep.Mismatch, rep.WallS)
		for r, n := range e.reasons {
			logf("   inconclusive x%d: %s", n, r)
		}
		if len(rep.Unreached) > 0 {
			logf("   NOT REACHED: %v", rep.Unreached)
		}
		if violations > 0 && only == "" && os.Getenv("XTV_ALL") == "" {
			break
		}
		// release the term table between harnesses
		resetTerms()
		runtime.GC()
	}
	writeEvidence(id, tier, seed, c, reports, fnNames, samples, violations, unrepro, time.Since(t0), knownSeen)
	var ks []string
	for k := range knownSeen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if violations > 0 {
		return 1
	}
	fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", id, tier, time.Since(t0).Seconds())
	return 0
}

func nWorkers() int {
	if v, err := strconv.Atoi(os.Getenv("XTV_J")); err == nil && v > 0 {
		return v
	}
	return runtime.NumCPU()
}

func writeReplay(id, tier string, c Cex, params map[string]int) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, time.Now().UnixNano()%1_000_000_000))
	b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "params": params, "cex": c}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func runReplay(path string) int {
	var rp struct {
		Property string         `json:"property"`
		Params   map[string]int `json:"params"`
		Cex      Cex            `json:"cex"`
	}
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	if err := json.Unmarshal(b, &rp); err != nil {
		fatalf("%v", err)
	}
	c := loadCheck(rp.Property)
	var hs []*Harness
	var pkgs []string
	for _, h := range c.Harnesses {
		if h.Name() == rp.Cex.Harness {
			hs = append(hs, h)
			pkgs = append(pkgs, h.Pkg)
		}
	}
	pkgs = append(pkgs, c.ExtraPkgs...)
	scratch, _ := os.MkdirTemp("", "xtv-replay-")
	defer os.RemoveAll(scratch)
	ov := overlayFiles(scratch, pkgs, c.InPkg)
	if msg := generate(c, ov, scratch); msg != "" {
		fmt.Println(msg)
		return 1
	}
	if rp.Cex.Kind == "generate" {
		fmt.Println("the code is generated and compiles")
		return 0
	}
	instrument(c, ov, scratch)
	n, err := buildNative(hs, ov, scratch, c.Tags)
	if err != nil {
		fatalf("%v", err)
	}
	defer n.stop()
	r := n.run(rp.Cex.Harness, rp.Params, rp.Cex.In, 10*time.Second)
	out, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(out))
	if r.Status == "ok" || r.Status == "assume" {
		return 0
	}
	return 1
}

func writeEvidence(id, tier string, seed int64, c *Check, reps []*hReport, fns map[string]int64, samples []any, violations, unrepro int, wall time.Duration, known map[string]int) {
	var states, trans, valid, mism int64
	complete := true
	for _, r := range reps {
		for _, n := range r.Paths {
			states += n
		}
		trans += r.Instr
		valid += int64(r.Validated)
		mism += int64(r.Mismatch)
		complete = complete && r.Complete
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]any{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": valid,
		"translation_mismatches":        mism,
		"unreproduced_counterexamples":  unrepro,
		"samples":                       samples,
		"exhaustive":                    complete,
		"meaning":                       "states = symbolic paths explored (each a set of inputs described by a path condition); transitions = SSA instructions executed symbolically; exhaustive refers to the stated bounds",
		"functions_encoded":             fl,
		"harnesses":                     reps,
		"solver": map[string]any{"binary": solverBin, "queries": sstats.queries, "sat": sstats.sat, "unsat": sstats.unsat, "unknown": sstats.unknown, "cache_hits": sstats.cacheHits,
			"second_solver": sstats.second, "errors": sstats.errors, "seconds": float64(sstats.ns) / 1e9, "slowest_query_s": float64(sstats.maxNs) / 1e9},
		"known_findings_seen": known,
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": c.Assumptions,
		"wall_s": wall.Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0o644)
}

func resetTerms() {
	for i := range tshards {
		tshards[i].m = map[tkey]*Term{}
	}
	for i := range qcache {
		qcache[i].m = map[string]cacheEnt{}
	}
	keepBoolTerms()
}

var _ types.Type
