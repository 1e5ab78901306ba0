package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type propConf struct {
	Bounds      []string `json:"bounds"`
	Outside     []string `json:"outside"`
	Assumptions []string `json:"assumptions"`
	Covers      []string `json:"covers"`
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough (default $VERIF_TIER)")
	verif := flag.String("verif", "/verif", "verification directory")
	hdir := flag.String("harness", "", "harness module (default <verif>/harness)")
	only := flag.String("only", "", "run a single harness function")
	debug := flag.Bool("debug", false, "print details of inconclusive paths")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	budget := flag.Int("time", 0, "time budget in seconds")
	prof := flag.String("cpuprofile", "", "")
	dump := flag.String("dump", "", "dump the SSA of functions whose name contains this string")
	replay := flag.String("replay", "", "replay a counterexample file on the compiled code")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *hdir == "" {
		*hdir = filepath.Join(*verif, "harness")
	}
	if *replay != "" {
		os.Exit(replayFile(*replay, *hdir))
	}
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *hdir,
		Env: append(os.Environ(), "CGO_ENABLED=0", "GOEXPERIMENT=nojsonv2", "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off")}
	pkgs, err := packages.Load(cfg, "./h")
	if err != nil {
		fatal("load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "gosym: load:", e)
			bad = true
		}
	})
	if bad {
		os.Exit(3)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	hp := spkgs[0]
	loadT := time.Since(t0)

	e := &Explorer{prog: prog, mainInit: hp.Func("init"), nworkers: *workers, maxSteps: 30_000_000, maxSamples: 24,
		solverCmd: []string{"z3-new", "-in", "-smt2"}, timeoutMS: 20000, debug: *debug, tier: *tier,
		orderPkgs: map[string]bool{"github.com/tc-hib/winres": true, "github.com/tc-hib/winres/version": true}}
	if s := os.Getenv("GOSYM_SOLVER"); s != "" {
		e.solverCmd = strings.Fields(s)
	}
	tierThorough = *tier == "thorough"
	e.repl = map[string]*ssa.Function{}
	for _, mem := range prog.AllPackages() {
		if mem.Pkg.Path() == "winresverif/model" {
			for name, x := range mem.Members {
				if f, ok := x.(*ssa.Function); ok && modelFor[name] != "" {
					e.repl[modelFor[name]] = f
				}
			}
		}
	}
	if *dump != "" {
		for f := range ssautil.AllFunctions(prog) {
			if strings.Contains(f.String(), *dump) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	var hs []*Harness
	for name, mem := range hp.Members {
		f, ok := mem.(*ssa.Function)
		if !ok || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 0 {
			continue
		}
		if *only != "" {
			if name == *only {
				hs = append(hs, &Harness{name: name, fn: f})
			}
			continue
		}
		if strings.HasPrefix(name, *prop+"_") {
			hs = append(hs, &Harness{name: name, fn: f})
		}
	}
	if len(hs) == 0 {
		fatal("no harness for %s", *prop)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	lim := *budget
	if lim == 0 {
		lim = 420
		if *tier == "thorough" {
			lim = 3600
		}
	}
	e.deadline = time.Now().Add(time.Duration(lim) * time.Second)
	if *tier != "thorough" {
		e.grace = 90
	}

	// build the native runner while exploring
	runDir, err := os.MkdirTemp("", "gosym-run-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(runDir)
	runner := filepath.Join(runDir, "runner")
	built := make(chan error, 1)
	go func() { built <- buildRunner(*hdir, runner) }()
	e.Run(hs)
	if err := <-built; err != nil {
		fatal("building the native runner: %v", err)
	}
	r := &report{e: e, hs: hs, prop: *prop, tier: *tier, verif: *verif, runner: runner, loadT: loadT, t0: t0}
	code := r.finish()
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.RemoveAll(runDir)
	os.Exit(code)
}

var tierThorough bool

func buildRunner(hdir, runner string) error {
	c := exec.Command("go", "build", "-o", runner, "./cmd/run")
	c.Dir = hdir
	c.Env = append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off")
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, out)
	}
	return nil
}

func replayFile(path, hdir string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var f struct {
		Property, Tier string
		Vector         Vector
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("%v", err)
	}
	dir, err := os.MkdirTemp("", "gosym-run-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	r := &report{tier: f.Tier, runner: filepath.Join(dir, "runner")}
	if err := buildRunner(hdir, r.runner); err != nil {
		fatal("%v", err)
	}
	rr := r.native([]Vector{f.Vector})[0]
	fmt.Printf("%s: %s %s %s\n", f.Vector.Harness, rr.Status, rr.Label, rr.Msg)
	if violates(rr.Status) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return 1
	}
	return 0
}

func violates(s string) bool {
	switch s {
	case "assert", "panic", "crash", "hang", "alloc":
		return true
	}
	return false
}

type report struct {
	e      *Explorer
	hs     []*Harness
	prop   string
	tier   string
	verif  string
	runner string
	loadT  time.Duration
	t0     time.Time
}

type RunResult struct {
	ID     int      `json:"id"`
	Status string   `json:"status"` // ok assert panic assume hang stop badvec
	Label  string   `json:"label"`
	Msg    string   `json:"msg"`
	Obs    []ObsVal `json:"obs"`
	Alloc  uint64   `json:"alloc"`
}

// native runs vectors on the compiled implementation.
func (r *report) native(vs []Vector) []RunResult {
	out := make([]RunResult, len(vs))
	for i := range out {
		out[i] = RunResult{ID: -1, Status: "lost"}
	}
	todo := make([]int, len(vs))
	for i := range todo {
		todo[i] = i
	}
	// a crash or hang ends the runner process: restart after the offending vector
	for tries := 0; len(todo) > 0 && tries < 200; tries++ {
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, i := range todo {
			v := vs[i]
			v.ID = i
			v.Tier = r.tier
			enc.Encode(v)
		}
		c := exec.Command(r.runner)
		c.Stdin = &in
		var so, se bytes.Buffer
		c.Stdout, c.Stderr = &so, &se
		c.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
		err := c.Run()
		got := map[int]bool{}
		started := -1
		for _, l := range strings.Split(so.String(), "\n") {
			if strings.HasPrefix(l, "START ") {
				started, _ = strconv.Atoi(l[6:])
				continue
			}
			var rr RunResult
			if l != "" && json.Unmarshal([]byte(l), &rr) == nil {
				out[rr.ID] = rr
				got[rr.ID] = true
			}
		}
		var rest []int
		for _, i := range todo {
			if got[i] {
				continue
			}
			if i == started && err != nil {
				msg := se.String()
				if len(msg) > 600 {
					msg = msg[:600]
				}
				out[i] = RunResult{ID: i, Status: "crash", Msg: msg}
				continue
			}
			rest = append(rest, i)
		}
		if len(rest) == len(todo) {
			fmt.Fprintf(os.Stderr, "gosym: native runner failed: %v %s\n", err, se.String())
			break
		}
		todo = rest
	}
	return out
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func (r *report) known() []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(r.verif, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fatal("known-findings.jsonl: %v", err)
		}
		out = append(out, k)
	}
	return out
}

func confirmed(v Violation, rr RunResult) bool {
	switch {
	case v.Label == "no-termination":
		return rr.Status == "hang"
	case v.Label == "allocation":
		return rr.Status == "alloc" || rr.Status == "crash"
	case strings.HasPrefix(v.Label, "panic in "):
		return rr.Status == "panic" || rr.Status == "crash"
	}
	return rr.Status == "assert" || rr.Status == "panic" || rr.Status == "crash" || rr.Status == "hang" || rr.Status == "alloc"
}

func (r *report) finish() int {
	e := r.e
	code := 0
	var notes []string
	known := r.known()

	// solver models of sampled paths, re-run on the compiled code
	var svec []Vector
	var sref []Sample
	var sh []string
	for _, h := range r.hs {
		for _, s := range h.st.samples {
			svec = append(svec, s.Vec)
			sref = append(sref, s)
			sh = append(sh, h.name)
		}
	}
	var srr []RunResult
	if len(svec) > 0 {
		srr = r.native(svec)
		for i, rr := range srr {
			if rr.Status == "nosuch" {
				fatal("harness %s is not registered", sh[i])
			}
			if rr.Status == "assert" || rr.Status == "panic" {
				// the compiled code fails where the encoding did not: report what really happens
				for _, h := range r.hs {
					if h.name == sh[i] {
						l := rr.Label
						if rr.Status == "panic" {
							l = "panic in compiled code"
						}
						h.st.violations[l] = append(h.st.violations[l], Violation{Harness: h.name, Label: l, Msg: rr.Msg, Vec: svec[i]})
					}
				}
			}
		}
	}

	// 1. replay violations on the compiled code
	type cand struct {
		v  Violation
		rr RunResult
	}
	var cands []cand
	var vecs []Vector
	for _, h := range r.hs {
		for _, l := range sortedKeys(h.st.violations) {
			for _, v := range h.st.violations[l] {
				if v.Order {
					v.Vec.Repeat = 300
				}
				cands = append(cands, cand{v: v})
				vecs = append(vecs, v.Vec)
			}
		}
	}
	nviol := 0
	if len(vecs) > 0 {
		rrs := r.native(vecs)
		byKey := map[string]bool{}
		conf := map[string]*cand{}
		var keys []string
		for i := range cands {
			cands[i].rr = rrs[i]
			k := cands[i].v.Harness + "|" + cands[i].v.Label
			if !byKey[k] {
				byKey[k] = true
				keys = append(keys, k)
			}
			if conf[k] == nil && confirmed(cands[i].v, rrs[i]) {
				conf[k] = &cands[i]
			}
		}
		for _, k := range keys {
			c := conf[k]
			if c == nil {
				for i := range cands {
					if cands[i].v.Harness+"|"+cands[i].v.Label == k {
						notes = append(notes, fmt.Sprintf("counterexample for %s not reproduced by the compiled code (%s %s %s; %s: %s)", k, cands[i].rr.Status, cands[i].rr.Label, cands[i].rr.Msg, cands[i].v.Where, cands[i].v.Msg))
						break
					}
				}
				continue
			}
			label := c.v.Label
			if c.rr.Label != "" {
				label = c.rr.Label
			}
			var kf *knownFinding
			for i := range known {
				if known[i].Property == r.prop && known[i].Harness == c.v.Harness && (known[i].Label == label || known[i].Label == c.v.Label) {
					kf = &known[i]
				}
			}
			if kf != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, kf.What)
				continue
			}
			nviol++
			dir := filepath.Join(r.verif, "evidence", "replay")
			os.MkdirAll(dir, 0o755)
			name := fmt.Sprintf("%s-%s-%d.json", r.prop, c.v.Harness, nviol)
			p := filepath.Join(dir, name)
			b, _ := json.MarshalIndent(map[string]any{"property": r.prop, "tier": r.tier, "harness": c.v.Harness, "label": c.v.Label, "message": c.v.Msg,
				"where": c.v.Where, "vector": c.v.Vec, "native": c.rr,
				"how": "./run.sh replay " + p}, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, p)
			fmt.Printf("  %s: %s (%s) native: %s %s %s\n", c.v.Harness, c.v.Label, c.v.Msg, c.rr.Status, c.rr.Label, c.rr.Msg)
			code = 1
		}
	}

	// 2. validate sampled paths against the compiled code
	validated, mismatched := 0, 0
	var mism []string
	if len(svec) > 0 {
		for i, rr := range srr {
			ok := rr.Status == "ok" && len(rr.Obs) == len(sref[i].Obs)
			if ok {
				for k := range rr.Obs {
					if rr.Obs[k] != sref[i].Obs[k] {
						ok = false
						break
					}
				}
			}
			if ok {
				validated++
				continue
			}
			mismatched++
			if len(mism) < 6 {
				mism = append(mism, fmt.Sprintf("%s: native %s %s %s obs=%v want=%v vec=%v", sh[i], rr.Status, rr.Label, rr.Msg, trunc(rr.Obs), trunc(sref[i].Obs), truncV(sref[i].Vec)))
			}
		}
	}
	for _, x := range mism {
		notes = append(notes, "path not confirmed by the compiled code: "+x)
	}

	// 3. evidence
	var states, trans, asserts, assertQ, forks int64
	per := map[string]any{}
	exhaustive := true
	reduced := 0
	for _, h := range r.hs {
		st := h.st
		states += st.paths + st.skipped
		trans += st.instrs
		asserts += st.asserts
		assertQ += st.assertQ
		forks += st.forks
		for k, n := range st.inconclusive {
			reduced += n
			notes = append(notes, fmt.Sprintf("%s: %d path(s) inconclusive: %s", h.name, n, k))
		}
		if st.stopped {
			notes = append(notes, h.name+": time budget exhausted before the exploration finished")
			reduced++
		}
		if len(st.covers) == 0 && len(st.violations) == 0 {
			notes = append(notes, h.name+": no reachability witness reached (vacuous)")
		}
		per[h.name] = map[string]any{"paths": st.paths, "assumption_cut": st.ended, "stopped_at_violation": st.skipped,
			"instructions": st.instrs, "assertions_evaluated": st.asserts, "assertion_queries": st.assertQ, "witnesses": st.covers,
			"longest_path_instructions": st.maxSteps, "wall_s": st.wall.Seconds()}
	}
	if reduced > 0 || mismatched > 0 {
		exhaustive = false
	}
	var fnsT []string
	nf := 0
	for _, f := range sortedKeys(e.funcs) {
		nf++
		if strings.Contains(f, "tc-hib/winres") {
			fnsT = append(fnsT, strings.ReplaceAll(f, "github.com/tc-hib/", ""))
		}
	}
	samples := []any{}
	for i := range sref {
		if i%(len(sref)/4+1) == 0 {
			samples = append(samples, map[string]any{"harness": sref[i].Vec.Harness, "inputs": truncV(sref[i].Vec), "observed": trunc(sref[i].Obs)})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	conf := r.conf()
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"exhaustive": exhaustive, "harnesses": per,
		"explanation":               "states = feasible symbolic paths explored to completion; transitions = SSA instructions executed symbolically; traces_validated_against_impl = solver models of sampled paths re-run on the compiled implementation with identical observations",
		"functions_encoded_in_repo": fnsT, "functions_encoded_total": nf,
		"bounds": conf.Bounds, "outside_the_claim": conf.Outside,
		"solver": map[string]any{"command": strings.Join(e.solverCmd, " "), "queries": e.queries, "sat": e.sat, "unsat": e.unsat,
			"unknown": e.unk, "cache_hits": e.cacheHit, "time_s": e.solverTime.Seconds(), "longest_query_s": e.maxQuery.Seconds()},
		"assertions_evaluated": asserts, "assertion_queries": assertQ, "forks": forks,
		"traces_not_confirmed": mismatched,
	}
	if len(notes) > 0 {
		cov["reduced"] = notes
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{"property": r.prop, "tier": r.tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": conf.Assumptions, "wall_s": time.Since(r.t0).Seconds(), "violations": nviol}
	if conf.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
	if r.prop != "" {
		if err := os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	for _, h := range r.hs {
		st := h.st
		fmt.Printf("%s: %d paths, %d cut, %d stopped, %d instrs, asserts %d (%d queries), covers %v, %.1fs\n", h.name, st.paths, st.ended, st.skipped, st.instrs, st.asserts, st.assertQ, st.covers, st.wall.Seconds())
	}
	for _, n := range notes {
		fmt.Println("REDUCED:", n)
	}
	fmt.Printf("%s %s: load %.1fs init %.1fs queries %d (sat %d unsat %d unknown %d, cache %d) solver %.1fs (max %.2fs); validated %d/%d; wall %.1fs\n", r.prop, r.tier,
		r.loadT.Seconds(), e.initTime.Seconds(), e.queries, e.sat, e.unsat, e.unk, e.cacheHit, e.solverTime.Seconds(), e.maxQuery.Seconds(), validated, len(svec), time.Since(r.t0).Seconds())
	return code
}

func (r *report) conf() propConf {
	var all map[string]propConf
	b, err := os.ReadFile(filepath.Join(r.verif, "props.json"))
	if err == nil {
		if err := json.Unmarshal(b, &all); err != nil {
			fatal("props.json: %v", err)
		}
	}
	return all[r.prop]
}

func trunc(o []ObsVal) []ObsVal {
	var out []ObsVal
	for i, x := range o {
		if i >= 12 {
			break
		}
		if len(x.V) > 80 {
			x.V = x.V[:80] + "..."
		}
		out = append(out, x)
	}
	return out
}

func truncV(v Vector) string {
	var sb strings.Builder
	for _, in := range v.Inputs {
		if sb.Len() > 400 {
			sb.WriteString("...")
			break
		}
		if in.K == "blob" {
			fmt.Fprintf(&sb, "%s[%d]{", in.N, in.V)
			var ks []int
			for k := range in.Pts {
				n, _ := strconv.Atoi(k)
				ks = append(ks, n)
			}
			sort.Ints(ks)
			for i, k := range ks {
				if i > 30 {
					sb.WriteString("...")
					break
				}
				fmt.Fprintf(&sb, "%d:%02x ", k, in.Pts[strconv.Itoa(k)])
			}
			sb.WriteString("} ")
			continue
		}
		fmt.Fprintf(&sb, "%s=%d ", in.N, in.V)
	}
	return sb.String()
}
