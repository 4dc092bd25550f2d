package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HarnessCfg is one harness of a check.
type HarnessCfg struct {
	Func     string         `json:"func"` // "<dir>.<Func>"
	Params   map[string]int `json:"params"`
	ParamsT  map[string]int `json:"params_thorough"`
	Preempt  *int           `json:"preempt"`
	PreemptT *int           `json:"preempt_thorough"`
	Secs     int            `json:"secs"`
	SecsT    int            `json:"secs_thorough"`
	MaxSteps int64          `json:"max_steps"`
	Samples  *int           `json:"samples"`
	Reach    []string       `json:"reach"`
	Labels   []string       `json:"labels"` // assertion labels that must have been evaluated
	Bounds   string         `json:"bounds"`
	BoundsT  string         `json:"bounds_thorough"`
	Thorough bool           `json:"thorough_only"`
	Tries    int            `json:"replay_tries"`
	Hang     int            `json:"native_timeout"` // seconds

	Shims map[string]string `json:"shims"` // harness file -> repo path: access to unexported functions
}

// CheckCfg is the configuration of one property's check.
type CheckCfg struct {
	Property    string            `json:"property"`
	Harnesses   []HarnessCfg      `json:"harnesses"`
	InPkg       map[string]string `json:"inpkg"`      // harness file -> repo path (overlay)
	Models      map[string]string `json:"models"`     // function -> "<dir>.<Func>" stand-in
	ModReplace  map[string]string `json:"modreplace"` // module -> dir under harness/
	Outside     string            `json:"outside"`
	Assumptions []string          `json:"assumptions"`
}

type HarnessResult struct {
	Func        string           `json:"harness"`
	Bounds      string           `json:"bounds"`
	Params      map[string]int   `json:"params,omitempty"`
	Complete    bool             `json:"exhaustive_within_bounds"`
	StopWhy     string           `json:"stopped,omitempty"`
	Paths       int64            `json:"paths"`
	Pruned      int64            `json:"paths_pruned_by_assumption"`
	Incomplete  int64            `json:"paths_incomplete"`
	Forks       int64            `json:"forks"`
	Steps       int64            `json:"ssa_instructions"`
	Asserts     int64            `json:"assertions"`
	AssertSolv  int64            `json:"assertions_discharged_by_solver"`
	Labels      map[string]int64 `json:"assertion_labels"`
	Reach       map[string]int64 `json:"reached"`
	ReachMiss   []string         `json:"not_reached,omitempty"`
	Queries     int64            `json:"solver_queries"`
	Sat         int64            `json:"sat"`
	Unsat       int64            `json:"unsat"`
	Unknown     int64            `json:"unknown"`
	SolverS     float64          `json:"solver_s"`
	MaxQueryMs  float64          `json:"max_query_ms"`
	WallS       float64          `json:"wall_s"`
	Validated   int              `json:"native_paths_agreeing"`
	Mismatch    []string         `json:"native_mismatches,omitempty"`
	Unsupported map[string]int64 `json:"unsupported,omitempty"`
	Unconfirmed []string         `json:"counterexamples_not_reproduced,omitempty"`
	Functions   []string         `json:"functions_encoded"`
	Cases       []Sample         `json:"cases,omitempty"`
}

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Match    string `json:"match"` // substring of the counterexample's key inputs
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

var (
	flRepo    = flag.String("repo", "/repo", "")
	flVerif   = flag.String("verif", "", "")
	flTier    = flag.String("tier", "quick", "")
	flTrace   = flag.Bool("trace", false, "")
	flOnly    = flag.String("only", "", "run only this harness")
	flNoNat   = flag.Bool("nonative", false, "")
	flWorkers = flag.Int("j", 0, "")
	flSecs    = flag.Int("secs", 0, "")
	flPar     = flag.String("p", "", "k=v,... override params")
	flStat    = flag.Bool("stats", false, "print stats")
	flSamples = flag.Int("samples", -1, "")
	flReplay  = flag.String("replay", "", "run this counterexample against the real code")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if *flVerif == "" {
		exe, _ := os.Executable()
		*flVerif = filepath.Dir(filepath.Dir(exe))
	}
	if flag.NArg() != 1 {
		die("usage: symgo [flags] <property>")
	}
	os.Exit(check(flag.Arg(0), false))
}

// check runs the check of a property. With noShim, harnesses that need access
// to unexported functions (which a refactoring may have renamed) are left out.
func check(id string, noShim bool) int {
	start := time.Now()
	verif := *flVerif
	var cfg CheckCfg
	b, err := os.ReadFile(filepath.Join(verif, "checks", id+".json"))
	if err != nil {
		die("%v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&cfg); err != nil {
		die("%s: %v", id, err)
	}
	shims := false
	var kept []HarnessCfg
	for _, h := range cfg.Harnesses {
		shims = shims || len(h.Shims) > 0
		if len(h.Shims) == 0 || !noShim {
			kept = append(kept, h)
		}
	}
	cfg.Harnesses = kept
	thorough := *flTier == "thorough"

	scratch, err := os.MkdirTemp("", "symgo-"+id+"-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(scratch)

	// overlay: harness packages under /repo/zzvf, in-package files where asked
	overlay := map[string][]byte{}
	disk := map[string]string{}
	hroot := filepath.Join(verif, "harness")
	addFile := func(dst, src string) {
		c, err := os.ReadFile(src)
		if err != nil {
			die("%v", err)
		}
		overlay[dst] = c
		disk[dst] = src
	}
	ents, _ := os.ReadDir(hroot)
	for _, d := range ents {
		if !d.IsDir() || strings.HasPrefix(d.Name(), "_") {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(hroot, d.Name(), "*.go"))
		for _, f := range fs {
			dst := filepath.Join(*flRepo, "zzvf", d.Name(), filepath.Base(f))
			if d.Name() == "vf" {
				dst = filepath.Join(*flRepo, "zzvf", filepath.Base(f))
			}
			addFile(dst, f)
		}
	}
	for src, dst := range cfg.InPkg {
		addFile(filepath.Join(*flRepo, dst), filepath.Join(hroot, src))
	}
	for _, h := range cfg.Harnesses {
		for src, dst := range h.Shims {
			addFile(filepath.Join(*flRepo, dst), filepath.Join(hroot, src))
		}
	}
	dirs := map[string]bool{}
	var funcs []string
	for _, h := range cfg.Harnesses {
		d, _, _ := strings.Cut(h.Func, ".")
		dirs[d] = true
		funcs = append(funcs, h.Func)
	}
	for _, f := range cfg.Models {
		d, _, _ := strings.Cut(f, ".")
		dirs[d] = true
	}
	var pats []string
	for d := range dirs {
		pats = append(pats, vfPkg+"/"+d)
	}
	sort.Strings(pats)
	pats = append(pats, vfPkg)

	// replay driver
	mainSrc := genMain(funcs)
	mainPath := filepath.Join(*flRepo, "zzvf", "zzreplay", "main.go")
	mainDisk := filepath.Join(scratch, "main.go")
	must(os.WriteFile(mainDisk, []byte(mainSrc), 0o644))
	disk[mainPath] = mainDisk

	// the go command may rewrite go.mod, so it is given a copy
	mf := filepath.Join(scratch, "go.mod")
	gm, err := os.ReadFile(filepath.Join(*flRepo, "go.mod"))
	must(err)
	gms := string(gm)
	for m, d := range cfg.ModReplace {
		gms += fmt.Sprintf("\nreplace %s => %s\n", m, filepath.Join(hroot, d))
	}
	must(os.WriteFile(mf, []byte(gms), 0o644))
	gm, err = os.ReadFile(filepath.Join(*flRepo, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(scratch, "go.sum"), gm, 0o644))
	flags := []string{"-modfile=" + mf, "-mod=mod"}

	// native build in the background
	natBin := filepath.Join(scratch, "replay")
	natDone := make(chan error, 1)
	natStart := func() {
		ob, _ := json.Marshal(map[string]any{"Replace": disk})
		of := filepath.Join(scratch, "overlay.json")
		must(os.WriteFile(of, ob, 0o644))
		args := append([]string{"build"}, flags...)
		args = append(args, "-overlay", of, "-o", natBin, vfPkg+"/zzreplay")
		cmd := exec.Command("go", args...)
		cmd.Dir = *flRepo
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v: %s", err, out)
		}
		natDone <- err
	}
	natOK := !*flNoNat
	if natOK {
		go natStart()
	}

	if *flReplay != "" {
		var r struct {
			Harness string
			Label   string
			Kind    string
		}
		b, err := os.ReadFile(*flReplay)
		must(err)
		must(json.Unmarshal(b, &r))
		natOK = true
		if *flNoNat {
			go natStart()
		}
		must(<-natDone)
		for _, h := range cfg.Harnesses {
			if h.Func != r.Harness {
				continue
			}
			p, err := filepath.Abs(*flReplay)
			must(err)
			o := runNative(natBin, h, p)
			for _, e := range o.events {
				fmt.Println("  " + e)
			}
			fmt.Printf("expected: %s %s\nnative:   %s %s %s\n", r.Kind, r.Label, o.status, strings.Join(o.failed, ", "), o.tail)
			if o.status == "ok" {
				return 0
			}
			return 1
		}
		die("no such harness %s", r.Harness)
	}

	var results []HarnessResult
	var viols []foundViol
	fault := ""
	prog, errs := LoadProgram(*flRepo, overlay, flags, nil, pats)
	loadS := time.Since(start).Seconds()
	if len(errs) > 0 && shims && !noShim {
		if natOK {
			<-natDone
		}
		return check(id, true)
	}
	if len(errs) > 0 {
		for i, e := range errs {
			if i < 10 {
				fmt.Fprintf(os.Stderr, "load: %v\n", e)
			}
		}
		fault = fmt.Sprintf("the harness does not load against the current tree: %v", errs[0])
		fmt.Printf("INCONCLUSIVE property=%s %s\n", id, fault)
	}
	var natErr error
	natReady := false
	waitNat := func() bool {
		if !natOK {
			return false
		}
		if !natReady {
			natErr = <-natDone
			natReady = true
			if natErr != nil {
				fmt.Fprintf(os.Stderr, "native build: %v\n", natErr)
			}
		}
		return natErr == nil
	}
	if prog != nil {
		if mf := prog.findFunc("mock.MergeFrom"); mf != nil {
			prog.models["sigs.k8s.io/controller-runtime/pkg/client.MergeFrom"] = mf
			prog.models["sigs.k8s.io/controller-runtime/pkg/client.MergeFromWithOptions"] = prog.findFunc("mock.MergeFromWithOptions")
		}
		for fn, f := range cfg.Models {
			mf := prog.findFunc(f)
			if mf == nil {
				die("no model function %s", f)
			}
			prog.models[fn] = mf
		}
	}
	budget := 780
	if thorough {
		budget = 6 * 3600
	}
	for hi, h := range cfg.Harnesses {
		if prog == nil {
			break
		}
		if len(viols) > 0 && !thorough && hasNew(id, viols) {
			break
		}
		if *flOnly != "" && !strings.HasSuffix(h.Func, *flOnly) {
			continue
		}
		if h.Thorough && !thorough {
			continue
		}
		fn := prog.findFunc(h.Func)
		if fn == nil {
			die("no harness %s", h.Func)
		}
		par := map[string]int{}
		for k, v := range h.Params {
			par[k] = v
		}
		if thorough {
			for k, v := range h.ParamsT {
				par[k] = v
			}
		}
		for _, kv := range strings.Split(*flPar, ",") {
			if k, v, ok := strings.Cut(kv, "="); ok {
				n, _ := strconv.Atoi(v)
				par[k] = n
			}
		}
		secs := h.Secs
		if secs == 0 {
			secs = 60
		}
		if thorough {
			if h.SecsT > 0 {
				secs = h.SecsT
			} else {
				secs *= 6
			}
		}
		if *flSecs > 0 {
			secs = *flSecs
		}
		if left := budget - int(time.Since(start).Seconds()); secs > left {
			secs = max(left, 5)
		}
		pre := -1
		if h.Preempt != nil {
			pre = *h.Preempt
		}
		if thorough && h.PreemptT != nil {
			pre = *h.PreemptT
		}
		ns := 12
		if h.Samples != nil {
			ns = *h.Samples
		}
		if thorough {
			ns *= 3
		}
		if *flSamples >= 0 {
			ns = *flSamples
		}
		steps := h.MaxSteps
		if steps == 0 {
			steps = 4_000_000
		}
		nw := *flWorkers
		if nw == 0 {
			nw = runtime.NumCPU()
		}
		opt := Options{MaxSteps: steps, Workers: nw, Preempt: pre, MaxViol: 4, Samples: ns, SolverBin: solverBin(), SolverMs: 10000, FallbackS: 30,
			MaxConcVals: 300, Params: par, Deadline: time.Now().Add(time.Duration(secs) * time.Second), Trace: *flTrace}
		if thorough {
			opt.SolverMs, opt.FallbackS = 60000, 180
		}
		hs := time.Now()
		ex := NewExplorer(prog, fn, h.Func, opt)
		ex.Run()
		r := HarnessResult{Func: h.Func, Bounds: h.Bounds, Params: par, StopWhy: ex.stopWhy, Paths: ex.stats.Paths, Pruned: ex.stats.Pruned,
			Incomplete: ex.stats.Incomplete, Forks: ex.stats.Forks, Steps: ex.stats.Steps, Asserts: ex.stats.Asserts, AssertSolv: ex.stats.AssertSolv,
			Labels: ex.labels, Reach: ex.reach, Queries: ex.sstats.Queries, Sat: ex.sstats.Sat, Unsat: ex.sstats.Unsat, Unknown: ex.sstats.Unknown,
			SolverS: ex.sstats.Time.Seconds(), MaxQueryMs: float64(ex.sstats.MaxTime.Microseconds()) / 1000, WallS: time.Since(hs).Seconds(), Unsupported: ex.unsup}
		if thorough && h.BoundsT != "" {
			r.Bounds = h.BoundsT
		}
		for _, l := range h.Reach {
			if ex.reach[l] == 0 {
				r.ReachMiss = append(r.ReachMiss, l)
			}
		}
		for _, l := range h.Labels {
			if ex.labels[l] == 0 {
				r.ReachMiss = append(r.ReachMiss, "assertion "+l)
			}
		}
		for i, s := range ex.samples {
			if i < 2 {
				r.Cases = append(r.Cases, s)
			}
		}
		r.Complete = ex.stopWhy == "" && ex.stats.Incomplete == 0
		for f := range ex.fnSeen {
			o := f
			if f.Origin() != nil {
				o = f.Origin()
			}
			n := o.String()
			if strings.Contains(n, "github.com/cybozu-go/moco") && !strings.Contains(n, vfPkg) {
				r.Functions = append(r.Functions, strings.ReplaceAll(n, "github.com/cybozu-go/moco/", ""))
			}
		}
		sort.Strings(r.Functions)
		if *flTrace || *flStat {
			for k, v := range ex.unsup {
				fmt.Fprintf(os.Stderr, "  unsupported x%d: %s\n     e.g. %s\n", v, k, trunc(ex.unsupEx[k], 1500))
			}
		}
		// counterexamples are believed only when the real code reproduces them
		for i, v := range ex.viols {
			rp := filepath.Join(verif, "evidence", "replay", fmt.Sprintf("%s-%d-%s-%d.json", id, hi, strings.ReplaceAll(h.Func, "/", "_"), i))
			must(os.MkdirAll(filepath.Dir(rp), 0o755))
			jb, _ := json.MarshalIndent(map[string]any{"property": id, "harness": v.Harness, "label": v.Label, "kind": v.Kind, "detail": v.Detail,
				"inputs": v.Inputs, "params": par, "sched": v.Sched, "events": v.Events, "how": "run /verif/scripts/replay.sh <this file>"}, "", "  ")
			must(os.WriteFile(rp, jb, 0o644))
			if *flStat || *flTrace {
				fmt.Fprintf(os.Stderr, "  candidate: %s %s: %s\n    inputs %s\n", v.Kind, v.Label, v.Detail, jsons(v.Inputs))
				for _, e := range v.Events {
					fmt.Fprintf(os.Stderr, "      %s\n", e)
				}
			}
			if !waitNat() {
				if natOK {
					r.Unconfirmed = append(r.Unconfirmed, v.Kind+" "+v.Label+" (no native build)")
				}
				continue
			}
			ok, why := confirm(natBin, h, v, rp)
			if ok {
				viols = append(viols, foundViol{v, h, par, rp})
			} else {
				r.Unconfirmed = append(r.Unconfirmed, fmt.Sprintf("%s %s: %s (native: %s)", v.Kind, v.Label, v.Detail, why))
			}
		}
		// translation validation: the native build must agree on sampled paths
		if len(ex.samples) > 0 && len(ex.viols) == 0 && waitNat() {
			type vr struct {
				ok  bool
				why string
			}
			ch := make(chan vr, len(ex.samples))
			sem := make(chan bool, 8)
			for i, s := range ex.samples {
				go func(i int, s Sample) {
					sem <- true
					defer func() { <-sem }()
					sp := filepath.Join(scratch, fmt.Sprintf("s-%d-%s-%d.json", hi, strings.ReplaceAll(h.Func, "/", "_"), i))
					jb, _ := json.Marshal(map[string]any{"inputs": s.Inputs, "params": par})
					must(os.WriteFile(sp, jb, 0o644))
					o := runNative(natBin, h, sp)
					if o.status != "ok" {
						ch <- vr{false, "native " + o.status + " " + o.tail + " inputs " + jsons(s.Inputs)}
						return
					}
					if d := diffEvents(s.Events, o.events); d != "" {
						ch <- vr{false, d + " inputs " + jsons(s.Inputs)}
						return
					}
					ch <- vr{true, ""}
				}(i, s)
			}
			for range ex.samples {
				x := <-ch
				if x.ok {
					r.Validated++
				} else {
					r.Mismatch = append(r.Mismatch, trunc(x.why, 600))
				}
			}
		}
		results = append(results, r)
		fmt.Printf("%s %s: paths=%d incomplete=%d forks=%d asserts=%d queries=%d (sat %d unsat %d unknown %d) solver=%.1fs wall=%.1fs native-agree=%d%s%s\n", id, h.Func, r.Paths, r.Incomplete, r.Forks, r.Asserts,
			r.Queries, r.Sat, r.Unsat, r.Unknown, r.SolverS, r.WallS, r.Validated, cond(r.StopWhy != "", " STOPPED:"+r.StopWhy), cond(len(r.ReachMiss) > 0, " NOT-REACHED:"+strings.Join(r.ReachMiss, ",")))
		if len(r.Mismatch) > 0 {
			fmt.Printf("  ENCODING-MISMATCH %s\n", trunc(r.Mismatch[0], 2000))
		}
		for _, u := range r.Unconfirmed {
			fmt.Printf("  UNCONFIRMED %s\n", trunc(u, 1000))
		}
		if r.Incomplete > 0 {
			for k, v := range r.Unsupported {
				fmt.Printf("  UNSUPPORTED x%d %s\n", v, trunc(k, 300))
			}
		}
		runtime.GC()
	}
	if natOK {
		waitNat()
	}
	known := loadKnown()
	rc := 0
	var outV []map[string]any
	printed := map[string]bool{}
	for _, x := range viols {
		kf := knownAs(known, id, x.v)
		if kf != "" {
			if !printed[kf] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf)
			}
			printed[kf] = true
			continue
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, x.path)
		fmt.Printf("  %s: %s %s %s\n", x.v.Harness, x.v.Kind, x.v.Label, x.v.Detail)
		outV = append(outV, map[string]any{"harness": x.v.Harness, "label": x.v.Label, "kind": x.v.Kind, "detail": x.v.Detail, "replay": x.path})
		rc = 1
	}
	writeEvidence(id, cfg, results, outV, fault, loadS, time.Since(start).Seconds(), natErr)
	return rc
}

// the known findings, identified by property, harness, assertion and input
func loadKnown() (known []Known) {
	if b, err := os.ReadFile(filepath.Join(*flVerif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			die("known_findings.json: %v", err)
		}
	}
	return known
}

func knownAs(known []Known, id string, v Violation) string {
	for _, k := range known {
		if k.Status == "known" && k.Property == id && k.Harness == v.Harness && k.Label == v.Label && strings.Contains(v.Detail+" "+jsons(v.Inputs), k.Match) {
			return k.What
		}
	}
	return ""
}

func hasNew(id string, viols []foundViol) bool {
	known := loadKnown()
	for _, x := range viols {
		if knownAs(known, id, x.v) == "" {
			return true
		}
	}
	return false
}

type foundViol struct {
	v    Violation
	h    HarnessCfg
	par  map[string]int
	path string
}

func cond(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

func jsons(v any) string { b, _ := json.Marshal(v); return string(b) }

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func (p *Program) findFunc(f string) *ssa.Function {
	d, n, _ := strings.Cut(f, ".")
	sp := p.pkgs[vfPkg+"/"+d]
	if sp == nil {
		return nil
	}
	return sp.Func(n)
}

func genMain(funcs []string) string {
	var sb strings.Builder
	dirs := map[string]bool{}
	for _, f := range funcs {
		d, _, _ := strings.Cut(f, ".")
		dirs[d] = true
	}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\n\tvf \"" + vfPkg + "\"\n")
	for _, d := range ds {
		fmt.Fprintf(&sb, "\t%s \"%s/%s\"\n", d, vfPkg, d)
	}
	sb.WriteString(")\n\nfunc main() {\n\tif err := vf.Load(os.Args[2]); err != nil {\n\t\tpanic(err)\n\t}\n\tswitch os.Args[1] {\n")
	seen := map[string]bool{}
	for _, f := range funcs {
		if seen[f] {
			continue
		}
		seen[f] = true
		fmt.Fprintf(&sb, "\tcase %q:\n\t\t%s()\n", f, f)
	}
	sb.WriteString("\tdefault:\n\t\tpanic(\"no such harness\")\n\t}\n\tvf.Finish(\"ok\", 0)\n}\n")
	return sb.String()
}

type natOut struct {
	status string
	events []string
	failed []string
	tail   string
}

func runNative(bin string, h HarnessCfg, inputs string) natOut {
	to := h.Hang
	if to == 0 {
		to = 20
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(to)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, h.Func, inputs)
	cmd.Env = append(os.Environ(), "MOCO_CHECK_INTERVAL=1ms", "MOCO_CLONE_WAIT_DURATION=1ms", "MOCO_ROLE_WAIT_DURATION=1ms")
	cmd.Dir = filepath.Dir(bin)
	out, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return natOut{status: "timeout"}
	}
	for _, l := range strings.Split(string(out), "\n") {
		if rest, ok := strings.CutPrefix(l, "VF-RESULT "); ok {
			var r struct {
				Status string
				Events []string
				Failed []string
			}
			if json.Unmarshal([]byte(rest), &r) == nil {
				return natOut{status: r.Status, events: r.Events, failed: r.Failed}
			}
		}
	}
	s := string(out)
	if strings.Contains(s, "all goroutines are asleep - deadlock") {
		return natOut{status: "deadlock", tail: trunc(s, 400)}
	}
	if i := strings.Index(s, "panic:"); i >= 0 {
		return natOut{status: "panic", tail: trunc(s[i:], 1500)}
	}
	return natOut{status: fmt.Sprintf("error %v", err), tail: trunc(s, 400)}
}

func confirm(bin string, h HarnessCfg, v Violation, path string) (bool, string) {
	tries := h.Tries
	if tries == 0 {
		tries = 3
	}
	why := ""
	for i := 0; i < tries; i++ {
		o := runNative(bin, h, path)
		why = o.status + " " + strings.Join(o.failed, ",") + " " + o.tail
		switch v.Kind {
		case "assert":
			// a crash of the real code on the same input breaks the property just as well
			if o.status == "fail" || o.status == "panic" {
				return true, ""
			}
		case "panic":
			if o.status == "panic" || o.status == "fail" {
				return true, ""
			}
		case "deadlock":
			if o.status == "deadlock" || o.status == "timeout" {
				return true, ""
			}
		}
	}
	return false, why
}

func diffEvents(a, b []string) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] && !strings.HasPrefix(a[i], "<symbolic") {
			return fmt.Sprintf("event %d: encoding %q, native %q", i, a[i], b[i])
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("encoding has %d events, native %d (encoding %q native %q)", len(a), len(b), a, b)
	}
	return ""
}

func writeEvidence(id string, cfg CheckCfg, rs []HarnessResult, viols []map[string]any, fault string, loadS, wall float64, natErr error) {
	var st, tr, val, q, un, uk, as, ad int64
	var sol float64
	fset := map[string]bool{}
	complete := len(rs) > 0
	var bounds []string
	mism := 0
	var samples []any
	for _, r := range rs {
		st += r.Paths + r.Pruned
		tr += r.Forks
		val += int64(r.Validated)
		q += r.Queries
		un += r.Unsat
		uk += r.Unknown
		as += r.Asserts
		ad += r.AssertSolv
		sol += r.SolverS
		mism += len(r.Mismatch)
		for _, f := range r.Functions {
			fset[f] = true
		}
		if !r.Complete {
			complete = false
		}
		bounds = append(bounds, r.Func+": "+r.Bounds)
		samples = append(samples, map[string]any{"harness": r.Func, "paths": r.Paths, "queries": r.Queries, "unsat": r.Unsat, "cases": r.Cases})
	}
	var fl []string
	for f := range fset {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states": st, "transitions": tr, "traces_validated_against_impl": val, "samples": samples,
		"exhaustive_within_bounds": complete, "functions_encoded": fl, "bounds": bounds, "outside_bounds": cfg.Outside,
		"queries_discharged": q, "queries_unsat": un, "queries_unknown": uk, "solver_time_s": round(sol),
		"assertions_evaluated": as, "assertions_discharged_by_solver": ad, "native_mismatches": mism, "harnesses": rs,
		"program_load_s": round(loadS), "encoding": "SSA of /repo's working tree, regenerated in this run", "tree": treeHash(),
		"explored": "states = execution paths of the encoding decided; transitions = solver-decided forks between them",
	}
	if fault != "" {
		cov["fault"] = fault
	}
	if natErr != nil {
		cov["native_build_error"] = trunc(natErr.Error(), 500)
	}
	ev := map[string]any{"property": id, "tier": *flTier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(wall)}
	if len(cfg.Assumptions) > 0 {
		ev["assumptions"] = cfg.Assumptions
	}
	ev["violations"] = len(viols)
	if viols != nil {
		cov["violations_found"] = viols
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	p := filepath.Join(*flVerif, "evidence", id+".json")
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, append(b, '\n'), 0o644))
}

func round(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

func treeHash() string {
	h := sha256.New()
	_ = filepath.Walk(*flRepo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); n == ".git" || n == "node_modules" || n == "bin" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			b, _ := os.ReadFile(p)
			h.Write(b)
		}
		return nil
	})
	return hex.EncodeToString(h.Sum(nil))[:16]
}

func solverBin() string {
	if b := os.Getenv("VF_SOLVER"); b != "" {
		return b
	}
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}
