package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type vector struct {
	ID      int               `json:"id"`
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Repeat  int               `json:"repeat"`
}

type verdict struct {
	ID     int      `json:"id"`
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Known  string   `json:"known"`
	Tries  int      `json:"tries"`
}

type job struct {
	Vectors []vector `json:"vectors"`
	Tier    int      `json:"tier"`
	Known   []string `json:"known"`
}

type finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Status   string `json:"status"` // known or fixed
	Commit   string `json:"commit,omitempty"`
}

type env struct {
	repo, verif, prop string
	tier              int
	seed              int64
	scratch           string
	pkgDir            string // package directory relative to repo
	overlay           map[string][]byte
	harnesses         []string
	known             []finding
	replayIn          string
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func main() {
	e := &env{}
	var tier, only string
	var budget int
	flag.StringVar(&e.repo, "repo", "/repo", "")
	flag.StringVar(&e.verif, "verif", "/verif", "")
	flag.StringVar(&e.prop, "prop", "", "property")
	flag.StringVar(&tier, "tier", "quick", "")
	flag.StringVar(&only, "only", "", "run one harness")
	flag.IntVar(&budget, "budget", 0, "seconds of exploration")
	flag.StringVar(&e.replayIn, "replay", "", "replay a counterexample file on the native build")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	noNative := flag.Bool("nonative", false, "")
	verbose := flag.Bool("v", false, "")
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(8 << 30)
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	start := time.Now()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer f.Close()
		}
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		e.seed = s
	} else {
		e.seed = 1
	}
	if tier == "thorough" {
		e.tier = 1
	}
	if budget == 0 {
		budget = 200
		if e.tier == 1 {
			budget = 600
		}
	}
	var err error
	e.scratch, err = ioutil.TempDir("", "vp")
	if err != nil {
		fatal("%v", err)
	}
	code := 3
	func() {
		defer os.RemoveAll(e.scratch)
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VP_DEBUG") != "" {
					panic(r)
				}
				fmt.Fprintln(os.Stderr, "error:", r)
			}
		}()
		code = e.run(start, tier, only, budget, *workers, *noNative, *verbose)
	}()
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

var reHarness = regexp.MustCompile(`(?m)^func (vpH_\w+)\(\)`)

// load collects the harness files into an overlay of the package.
func (e *env) load() {
	main, err := ioutil.ReadFile(filepath.Join(e.verif, "harness", e.prop+".go"))
	if err != nil {
		fatal("%v", err)
	}
	pkg := "xgen"
	if regexp.MustCompile(`(?m)^package main`).Match(main) {
		pkg, e.pkgDir = "main", "cmd/xgen"
	}
	e.overlay = map[string][]byte{}
	files := map[string][]byte{"p.go": main}
	libs := []string{"vp.go"}
	for _, m := range regexp.MustCompile(`(?m)^//vp:use (\S+)`).FindAllSubmatch(main, -1) {
		libs = append(libs, string(m[1]))
		if string(m[1]) == "lib.go" {
			libs = append(libs, "tok.go")
			if pkg == "xgen" {
				libs = append(libs, "run.go")
			}
		}
	}
	for _, l := range libs {
		b, err := ioutil.ReadFile(filepath.Join(e.verif, "harness", l))
		if err != nil {
			fatal("%v", err)
		}
		b = regexp.MustCompile(`(?m)^package \w+`).ReplaceAll(b, []byte("package "+pkg))
		files[l] = b
	}
	for n, b := range files {
		e.overlay[filepath.Join(e.repo, e.pkgDir, "zz_vp_"+n)] = b
		for _, m := range reHarness.FindAllSubmatch(b, -1) {
			e.harnesses = append(e.harnesses, string(m[1]))
		}
	}
	sort.Strings(e.harnesses)
	kf, err := ioutil.ReadFile(filepath.Join(e.verif, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(kf, &e.known); err != nil {
			fatal("known_findings.json: %v", err)
		}
	}
}

func (e *env) knownIDs() []string {
	var out []string
	for _, k := range e.known {
		if k.Status == "known" {
			out = append(out, k.ID)
		}
	}
	return out
}

func (e *env) goEnv() []string {
	return append(os.Environ(), "GOPROXY=off", "GOFLAGS=", "GOWORK=off", "GOTOOLCHAIN=local")
}

func (e *env) program() *Prog {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: e.repo, Env: e.goEnv(), Overlay: e.overlay}
	ps, err := packages.Load(cfg, "./"+e.pkgDir)
	if err != nil {
		panic(fmt.Sprintf("load: %v", err))
	}
	for _, p := range ps {
		for _, er := range p.Errors {
			panic(fmt.Sprintf("load: %v", er))
		}
	}
	sp, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	pr := &Prog{ssa: sp, gIdx: map[*ssa.Global]int{}, pkgs: map[string]*ssa.Package{}, appPkgs: map[*ssa.Package]bool{},
		intr: map[string]Intrinsic{}, known: map[string]bool{}, tier: e.tier}
	for _, p := range sp.AllPackages() {
		pr.pkgs[p.Pkg.Path()] = p
	}
	for _, n := range []string{"github.com/xuri/xgen", "github.com/xuri/xgen/cmd/xgen"} {
		if p := pr.pkgs[n]; p != nil {
			p.Build()
			pr.appPkgs[p] = true
			pr.appList = append(pr.appList, p)
		}
	}
	for _, k := range e.knownIDs() {
		pr.known[k] = true
	}
	pr.initIntrinsics()
	return pr
}

type hresult struct {
	ex   *Explorer
	wall time.Duration
}

func (e *env) run(start time.Time, tier, only string, budget, workers int, noNative, verbose bool) int {
	e.load()
	type nat struct {
		bin string
		err error
	}
	nch := make(chan nat, 1)
	go func() {
		b, err := e.buildNative()
		nch <- nat{b, err}
	}()
	if e.replayIn != "" {
		n := <-nch
		if n.err != nil {
			fatal("native build: %v", n.err)
		}
		return e.replay(n.bin)
	}
	pr := e.program()
	loadT := time.Since(start)
	stats := &SolverStats{}
	var ws []*Worker
	for i := 0; i < workers; i++ {
		ws = append(ws, newWorker(pr, stats, e.seed+int64(i)))
	}
	defer func() {
		for _, w := range ws {
			w.solver.close()
		}
	}()
	var list []string
	for _, h := range e.harnesses {
		if only == "" || only == h {
			list = append(list, h)
		}
	}
	var res []*hresult
	end := time.Now().Add(time.Duration(budget) * time.Second)
	appPkg := pr.pkgs["github.com/xuri/xgen"]
	if e.pkgDir != "" {
		appPkg = pr.pkgs["github.com/xuri/xgen/cmd/xgen"]
	}
	for i, h := range list {
		fn := appPkg.Func(h)
		if fn == nil {
			panic("no harness " + h)
		}
		ex := newExplorer(pr, fn, e.seed)
		left := time.Until(end)
		share := left / time.Duration(len(list)-i)
		if share < left/2 { // most harnesses need far less than their share
			share = left / 2
		}
		ex.deadline = time.Now().Add(share)
		t0 := time.Now()
		ex.run(ws)
		r := &hresult{ex, time.Since(t0)}
		res = append(res, r)
		if verbose {
			fmt.Fprintf(os.Stderr, "%s: paths %d forks %d depth %d asserts %d (folded %d) %.2fs timedout=%v maxsteps %d\n", h, ex.paths.Load(), ex.forks.Load(), ex.depthMax.Load(), ex.asserts.Load(), ex.asFolded.Load(), r.wall.Seconds(), ex.timedOut, ex.stepsMax.Load())
			for k, n := range ex.aborted {
				fmt.Fprintf(os.Stderr, "   aborted %d: %s\n", n, k)
			}
			var cv []string
			for k, n := range ex.covers {
				cv = append(cv, fmt.Sprintf("%s:%d", k, n))
			}
			sort.Strings(cv)
			fmt.Fprintln(os.Stderr, "   covers", strings.Join(cv, " "))
			for _, vs := range ex.viol {
				b, _ := json.Marshal(vs[0])
				fmt.Fprintln(os.Stderr, "   violation", string(b))
			}
			for k, v := range ex.knownHit {
				b, _ := json.Marshal(v)
				fmt.Fprintln(os.Stderr, "   known", k, string(b))
			}
		}
	}
	if stepProf {
		dumpSteps()
	}
	if noNative {
		return 0
	}
	n := <-nch
	if n.err != nil {
		panic(fmt.Sprintf("native build: %v", n.err))
	}
	return e.conclude(n.bin, res, stats, start, loadT, tier, verbose)
}

// buildNative compiles the same harness with the real code.
func (e *env) buildNative() (string, error) {
	ov := map[string]map[string]string{"Replace": {}}
	i := 0
	for p, b := range e.overlay {
		f := filepath.Join(e.scratch, fmt.Sprintf("ov%d.go", i))
		i++
		if err := ioutil.WriteFile(f, b, 0644); err != nil {
			return "", err
		}
		ov["Replace"][p] = f
	}
	drv, err := ioutil.ReadFile(filepath.Join(e.verif, "harness", "driver_test.go.txt"))
	if err != nil {
		return "", err
	}
	var tab strings.Builder
	for _, h := range e.harnesses {
		fmt.Fprintf(&tab, "\t\t%q: %s,\n", h, h)
	}
	drv = bytes.Replace(drv, []byte("//TABLE"), []byte(tab.String()), 1)
	if e.pkgDir != "" {
		drv = bytes.Replace(drv, []byte("package xgen"), []byte("package main"), 1)
	}
	f := filepath.Join(e.scratch, "driver_test.go")
	ioutil.WriteFile(f, drv, 0644)
	ov["Replace"][filepath.Join(e.repo, e.pkgDir, "zz_vp_driver_test.go")] = f
	// leave the repository's own tests out of the driver binary
	if m, _ := filepath.Glob(filepath.Join(e.repo, e.pkgDir, "*_test.go")); m != nil {
		for _, t := range m {
			ov["Replace"][t] = ""
		}
	}
	oj, _ := json.Marshal(ov)
	of := filepath.Join(e.scratch, "overlay.json")
	ioutil.WriteFile(of, oj, 0644)
	bin := filepath.Join(e.scratch, "native.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./"+e.pkgDir)
	cmd.Dir = e.repo
	cmd.Env = e.goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	if e.pkgDir != "" {
		cmd := exec.Command("go", "build", "-o", filepath.Join(e.scratch, "xgen.bin"), "./"+e.pkgDir)
		cmd.Dir = e.repo
		cmd.Env = e.goEnv()
		if out, err := cmd.CombinedOutput(); err != nil {
			return "", fmt.Errorf("%v: %s", err, out)
		}
	}
	return bin, nil
}

// native runs vectors on the real build, restarting after a process exit.
func (e *env) native(bin string, vs []vector) map[int]verdict {
	out := map[int]verdict{}
	left := vs
	hangs := 0
	for round := 0; len(left) > 0 && round < 200; round++ {
		jf := filepath.Join(e.scratch, "job.json")
		rf := filepath.Join(e.scratch, "out.json")
		os.Remove(rf)
		jb, _ := json.Marshal(job{Vectors: left, Tier: e.tier, Known: e.knownIDs()})
		ioutil.WriteFile(jf, jb, 0644)
		sc := filepath.Join(e.scratch, "run")
		os.MkdirAll(sc, 0755)
		cmd := exec.Command(bin, "-test.run", "^TestVPDriver$", "-test.timeout", "45s")
		cmd.Dir = sc
		cmd.Env = append(os.Environ(), "VP_JOB="+jf, "VP_OUT="+rf, "VP_SCRATCH="+sc, "VP_BIN="+filepath.Join(e.scratch, "xgen.bin"), "GOGC=200")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		cmd.Stdout = &eb
		err := cmd.Run()
		n := 0
		if f, err2 := os.Open(rf); err2 == nil {
			d := json.NewDecoder(f)
			for {
				var v verdict
				if d.Decode(&v) != nil {
					break
				}
				out[v.ID] = v
				n++
			}
			f.Close()
		}
		if n < len(left) {
			msg := "process ended"
			if err != nil {
				msg += ": " + err.Error()
			}
			if t := strings.TrimSpace(eb.String()); t != "" {
				if len(t) > 2000 {
					t = t[:2000]
				}
				msg += ": " + t
			}
			out[left[n].ID] = verdict{ID: left[n].ID, Status: "panic", Msg: msg}
			n++
			if strings.Contains(msg, "test timed out") {
				if hangs++; hangs == 3 {
					return out
				}
			}
		}
		left = left[n:]
		os.RemoveAll(sc)
	}
	return out
}

func (e *env) replay(bin string) int {
	b, err := ioutil.ReadFile(e.replayIn)
	if err != nil {
		fatal("%v", err)
	}
	var v vector
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	r := e.native(bin, []vector{v})[v.ID]
	j, _ := json.Marshal(r)
	fmt.Println(string(j))
	if r.Status == "fail" || r.Status == "panic" {
		return 1
	}
	return 0
}

func bad(v verdict) bool { return v.Status == "fail" || v.Status == "panic" }

func (e *env) conclude(bin string, res []*hresult, stats *SolverStats, start time.Time, loadT time.Duration, tier string, verbose bool) int {
	var vs []vector
	type src struct {
		kind string // viol, known, sample, partial
		v    *Violation
		s    *Sample
	}
	var srcs []src
	add := func(s src, h string, in map[string]string, rep int) {
		vs = append(vs, vector{ID: len(vs), Harness: h, Inputs: in, Repeat: rep})
		srcs = append(srcs, s)
	}
	rep := func(orders []int) int {
		if len(orders) > 0 {
			return 80
		}
		return 1
	}
	for _, r := range res {
		var keys []string
		for k := range r.ex.viol {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			for _, v := range r.ex.viol[k] {
				add(src{kind: "viol", v: v}, v.Harness, v.Inputs, rep(v.Orders))
			}
		}
		for _, v := range r.ex.knownHit {
			add(src{kind: "known", v: v}, v.Harness, v.Inputs, rep(v.Orders))
		}
		for _, s := range r.ex.samples {
			if s != nil {
				add(src{kind: "sample", s: s}, s.Harness, s.Inputs, 1)
			}
		}
		for _, s := range r.ex.partial {
			add(src{kind: "partial", s: s}, s.Harness, s.Inputs, 1)
		}
	}
	out := e.native(bin, vs)
	var confirmed []int
	unconfirmed := 0
	validated, mismatched, skipped := 0, 0, 0
	var mism []string
	knownSeen := map[string]string{}
	for i, s := range srcs {
		v := out[i]
		if bad(v) {
			confirmed = append(confirmed, i)
			continue
		}
		if v.Status == "known" {
			knownSeen[v.Known] = v.Msg
		}
		switch s.kind {
		case "viol":
			if v.Status != "known" {
				unconfirmed++
			}
			if verbose {
				fmt.Fprintf(os.Stderr, "not confirmed: %+v %v -> %+v\n", s.v.Msg, s.v.Inputs, v)
			}
		case "sample":
			switch v.Status {
			case "pass":
				if squeeze(v.Obs) == squeeze(s.s.Obs) {
					validated++
				} else {
					mismatched++
					for k := range v.Obs {
						if k >= len(s.s.Obs) || squeeze(v.Obs[k:k+1]) != squeeze(s.s.Obs[k:k+1]) {
							w := ""
							if k < len(s.s.Obs) {
								w = s.s.Obs[k]
							}
							mism = append(mism, fmt.Sprintf("%s %v: native %q model %q", s.s.Harness, s.s.Inputs, v.Obs[k], w))
							break
						}
					}
				}
			case "known":
			default:
				skipped++
			}
		}
	}
	if verbose {
		for i, m := range mism {
			if i < 5 {
				fmt.Fprintln(os.Stderr, "MISMATCH", m)
			}
		}
		fmt.Fprintf(os.Stderr, "native: %d vectors, validated %d mismatched %d skipped %d unconfirmed %d\n", len(vs), validated, mismatched, skipped, unconfirmed)
	}
	// evidence
	var paths, forks, asserts, folded, asSolver int64
	aborted := map[string]int{}
	covers := map[string]int64{}
	bounds := map[string]string{}
	timedOut := []string{}
	var hs []map[string]interface{}
	maxDepth := int64(0)
	for _, r := range res {
		x := r.ex
		paths += x.paths.Load()
		forks += x.forks.Load()
		asserts += x.asserts.Load()
		folded += x.asFolded.Load()
		asSolver += x.asSolver.Load()
		if d := x.depthMax.Load(); d > maxDepth {
			maxDepth = d
		}
		for k, n := range x.aborted {
			aborted[k] += n
		}
		for k, n := range x.covers {
			covers[k] += n
		}
		for k, b := range x.bounds {
			bounds[x.name+"."+k] = b
		}
		if x.timedOut {
			timedOut = append(timedOut, x.name)
		}
		hs = append(hs, map[string]interface{}{"harness": x.name, "paths": x.paths.Load(), "decisions_forked": x.forks.Load(),
			"assertions": x.asserts.Load(), "complete": !x.timedOut && len(x.aborted) == 0, "wall_s": r.wall.Seconds()})
	}
	prog := res[0].ex.prog
	var fns []string
	prog.code.Range(func(k, v interface{}) bool {
		fn := k.(*ssa.Function)
		fc := v.(*fcode)
		if fc.nat != nil || fn.Pkg == nil || !prog.appPkgs[fn.Pkg] {
			return true
		}
		if strings.HasPrefix(fn.Name(), "vp") || fn.Parent() != nil || fn.Synthetic != "" {
			return true
		}
		if strings.Contains(prog.ssa.Fset.Position(fn.Pos()).Filename, "zz_vp_") {
			return true
		}
		fns = append(fns, fn.RelString(fn.Pkg.Pkg))
		return true
	})
	sort.Strings(fns)
	var samples []interface{}
	for _, r := range res {
		for i, s := range r.ex.samples {
			if s != nil && i < 2 {
				samples = append(samples, map[string]interface{}{"harness": s.Harness, "inputs": s.Inputs, "observed": trunc(s.Obs)})
			}
		}
	}
	violations := len(confirmed)
	cov := map[string]interface{}{
		"states":                         paths,
		"transitions":                    forks + paths,
		"traces_validated_against_impl":  validated,
		"traces_mismatched":              mismatched,
		"samples":                        samples,
		"functions_encoded":              fns,
		"harnesses":                      hs,
		"bounds":                         bounds,
		"assertions_checked":             asserts,
		"assertions_decided_by_solver":   asSolver,
		"assertions_folded":              folded,
		"solver":                         filepath.Base(solverBinary()),
		"solver_queries":                 stats.queries.Load(),
		"solver_sat":                     stats.sat.Load(),
		"solver_unsat":                   stats.unsat.Load(),
		"solver_unknown":                 stats.unknown.Load(),
		"solver_cached":                  stats.cached.Load(),
		"decided_by_domain":              stats.byDomain.Load(),
		"solver_seconds":                 float64(stats.nanos.Load()) / 1e9,
		"reduced_bounds":                 aborted,
		"incomplete_harnesses":           timedOut,
		"reached":                        covers,
		"max_decisions_on_a_path":        maxDepth,
		"counterexamples_not_reproduced": unconfirmed,
		"exhaustive":                     len(timedOut) == 0 && len(aborted) == 0,
		"explanation":                    "symbolic execution of the SSA of the current source; states are completed paths, transitions the decisions between them; every path condition and assertion decided by the solver (or by exact single-byte domain evaluation)",
	}
	ev := map[string]interface{}{"property": e.prop, "tier": tier, "seed": e.seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{"XML tokenising is encoding/xml's (documents are token sequences)", "the file system is the model in engine/intr_os.go", "bounds as listed"},
		"wall_s":      time.Since(start).Seconds(), "violations": violations, "load_s": loadT.Seconds()}
	os.MkdirAll(filepath.Join(e.verif, "evidence"), 0755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := ioutil.WriteFile(filepath.Join(e.verif, "evidence", e.prop+".json"), append(eb, '\n'), 0644); err != nil {
		panic(err)
	}
	for _, k := range e.known {
		if k.Property == e.prop && k.Status == "known" {
			if _, ok := knownSeen[k.ID]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", e.prop, k.ID, k.What)
			} else if verbose {
				fmt.Fprintln(os.Stderr, "known finding not seen:", k.ID)
			}
		}
	}
	if violations > 0 {
		seen := map[string]bool{}
		for _, i := range confirmed {
			v := out[i]
			k := v.Msg
			if j := strings.IndexByte(k, '|'); j >= 0 {
				k = k[:j]
			}
			if seen[k] || len(seen) >= 5 {
				continue
			}
			seen[k] = true
			f := filepath.Join(e.verif, "evidence", fmt.Sprintf("replay-%s-%d.json", e.prop, len(seen)))
			rb, _ := json.MarshalIndent(map[string]interface{}{"id": 0, "harness": vs[i].Harness, "inputs": vs[i].Inputs, "repeat": vs[i].Repeat, "message": v.Msg, "found_as": srcs[i].kind}, "", " ")
			ioutil.WriteFile(f, append(rb, '\n'), 0644)
			fmt.Printf("violated: %s\n", strings.TrimSpace(v.Msg))
			fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop, f)
		}
		return 1
	}
	fmt.Printf("ok property=%s paths=%d assertions=%d queries=%d validated=%d wall=%.1fs%s\n", e.prop, paths, asserts, stats.queries.Load(), validated, time.Since(start).Seconds(), incomplete(timedOut, aborted))
	return 0
}

func incomplete(t []string, a map[string]int) string {
	s := ""
	if len(t) > 0 {
		s += fmt.Sprintf(" incomplete=%v", t)
	}
	n := 0
	for _, k := range a {
		n += k
	}
	if n > 0 {
		s += fmt.Sprintf(" aborted=%d", n)
	}
	return s
}

// squeeze drops white space: gofmt's layout of text with symbolic parts is
// not modelled.
func squeeze(a []string) string {
	return strings.NewReplacer(" ", "", "\n", "", "\r", "", "\t", "").Replace(strings.Join(a, "\x00"))
}

func trunc(a []string) []string {
	var out []string
	for _, s := range a {
		if len(s) > 300 {
			s = s[:300] + "…"
		}
		out = append(out, s)
	}
	return out
}

var _ = types.Identical
