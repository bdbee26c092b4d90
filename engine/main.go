package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Config struct {
	MaxSteps int64
	SolverMs int
	MaxViol  int
	Debug    bool
	Tier     int
}

type Engine struct {
	cfg       Config
	prog      *ssa.Program
	fset      *token.FileSet
	hpkg      *ssa.Package
	rtErrT    *TInfo
	jsonErrT  *TInfo
	timeT     *TInfo
	byteT     *TInfo
	traceFns  bool
	debugInit bool
	harness   string
	st        *pathStats
	stop      bool
	timedOut  bool
	jobs      []*job
	jmu       sync.Mutex
	jcond     *sync.Cond
	busy      int
	workers   []*Worker
	loadS     float64
	softRace  bool
	racyMu    sync.Mutex
	racyNew   map[*instr]bool
}

var modelFns = map[string]*ssa.Function{}

func modelFor(f *Fn) (*ssa.Function, bool) {
	if m, ok := modelFns[f.name]; ok {
		return m, true
	}
	return nil, false
}

// goEnv is the environment the analysed code is loaded and built with.
func goEnv() []string {
	root := "/opt/veriftools/go1.24.13"
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	drop := map[string]bool{"PATH": true, "GOROOT": true, "GOFLAGS": true, "GOPROXY": true, "GOSUMDB": true, "GOTOOLCHAIN": true, "GOWORK": true, "GOENV": true, "HOME": true, "GOPATH": true, "GOMODCACHE": true, "GOOS": true, "GOARCH": true, "GOEXPERIMENT": true, "CGO_ENABLED": true}
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		if !drop[k] {
			env = append(env, e)
		}
	}
	gp := "/root/go"
	if _, err := os.Stat(gp); err != nil {
		gp = home + "/go"
	}
	return append(env, "PATH="+root+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "GOROOT="+root, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOENV=off", "HOME="+home, "GOPATH="+gp, "GOMODCACHE="+gp+"/pkg/mod", "CGO_ENABLED=0")
}

func load(dir string, cfg Config) (*Engine, error) {
	t0 := time.Now()
	env := goEnv()
	for _, e := range env {
		if strings.HasPrefix(e, "PATH=") {
			os.Setenv("PATH", e[5:])
		}
	}
	fset := token.NewFileSet()
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Fset: fset}, "harness/h", "harness/models", "harness/sym")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, "harness") || p.PkgPath == repoPkg {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{cfg: cfg, prog: prog, fset: fset}
	e.jcond = sync.NewCond(&e.jmu)
	get := func(path string) *ssa.Package { return prog.ImportedPackage(path) }
	e.hpkg = get("harness/h")
	mp := get("harness/models")
	for _, p := range []string{"harness/h", "harness/models", "harness/fake", repoPkg} {
		if x := get(p); x != nil {
			x.Build()
		}
	}
	if e.hpkg == nil || mp == nil {
		return nil, fmt.Errorf("harness packages missing")
	}
	for k, v := range modelNames {
		f := mp.Func(v)
		if f == nil {
			return nil, fmt.Errorf("no model %s", v)
		}
		modelFns[k] = f
	}
	e.rtErrT = tinfo(mp.Pkg.Scope().Lookup("RuntimeError").Type())
	e.jsonErrT = tinfo(types.NewPointer(mp.Pkg.Scope().Lookup("JSONError").Type()))
	e.byteT = tinfo(types.Typ[types.Uint8])
	if t := get("time"); t != nil {
		e.timeT = tinfo(t.Pkg.Scope().Lookup("Time").Type())
	}
	e.loadS = time.Since(t0).Seconds()
	return e, nil
}

func (e *Engine) startWorkers(n int) {
	for i := 0; i < n; i++ {
		e.workers = append(e.workers, newWorker(e, i))
	}
	// warm up package state once per worker, outside any path
	warm := e.hpkg.Func("Warm")
	var wg sync.WaitGroup
	for _, w := range e.workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.side = map[any]any{}
			w.nameCnt = map[string]int{}
			w.now = timeBase
			w.initPkg(e.hpkg)
			w.initMode = true
			if warm != nil {
				w.callSync(getFn(warm), nil, true)
			}
			w.initMode = false
		}()
	}
	wg.Wait()
}

// ---- specification of the checks ----

type HSpec struct {
	Fn       string `json:"fn"`
	Bounds   string `json:"bounds"`
	Quick    int    `json:"quick_s"`
	Thorough int    `json:"thorough_s"`
	Only     string `json:"only,omitempty"` // "thorough"
	Note     string `json:"note,omitempty"`
}

type PSpec struct {
	ID        string   `json:"id"`
	Harnesses []HSpec  `json:"harnesses"`
	Assume    []string `json:"assumptions"`
	Outside   []string `json:"outside"`
}

func readSpec(path string) (map[string]*PSpec, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var l []*PSpec
	if err := json.Unmarshal(b, &l); err != nil {
		return nil, err
	}
	m := map[string]*PSpec{}
	for _, p := range l {
		m[p.ID] = p
	}
	return m, nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(2)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func nworkers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func (e *Engine) entry(name string) (*Fn, error) {
	f := e.hpkg.Func(name)
	if f == nil {
		return nil, fmt.Errorf("no harness %s", name)
	}
	return getFn(f), nil
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	budget := fs.Int("t", 60, "seconds per harness")
	tier := fs.String("tier", "quick", "")
	debug := fs.Bool("debug", false, "")
	dinit := fs.Bool("dinit", false, "")
	workers := fs.Int("w", nworkers(), "")
	steps := fs.Int64("steps", 20_000_000, "")
	maxv := fs.Int("maxviol", 8, "")
	noNative := fs.Bool("nonative", false, "")
	prof := fs.Bool("fns", false, "")
	validate := fs.Int("val", 0, "sampled paths to validate natively")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	cfg := Config{MaxSteps: *steps, SolverMs: 20000, MaxViol: *maxv, Debug: *debug}
	if *tier == "thorough" {
		cfg.Tier = 1
	}
	e, err := load(verifDir()+"/harness", cfg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e.debugInit = *dinit
	e.startWorkers(*workers)
	fmt.Printf("loaded in %.1fs\n", e.loadS)
	names := fs.Args()
	if len(names) == 1 && strings.HasSuffix(names[0], "*") {
		pre := strings.TrimSuffix(names[0], "*")
		names = nil
		for n, m := range e.hpkg.Members {
			if _, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, pre) {
				names = append(names, n)
			}
		}
		sort.Strings(names)
	}
	nativeNames = names
	rc := 0
	for _, n := range names {
		f, err := e.entry(n)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r := e.runHarness(n, f, time.Duration(*budget)*time.Second)
		viol := r.Viol
		r.Viol = nil
		if *validate > 0 {
			for _, d := range e.validate(r, *validate) {
				fmt.Println("  DIVERGENCE", d)
			}
		}
		if *verbose {
			b, _ := json.MarshalIndent(r, "", " ")
			fmt.Println(string(b))
		} else {
			fmt.Printf("%-28s %6.1fs paths=%d queries=%d (sat %d unsat %d unk %d) solver=%.1fs steps=%dM exhaustive=%v left=%d ends=%v covers=%v viol=%d\n", n, r.Wall, r.Paths, r.Queries, r.Sat, r.Unsat, r.Unknown, r.SolverS, r.Steps/1000000, r.Exhaustive, r.Left, r.Ends, r.Covers, len(viol))
			for k, c := range r.Notes {
				fmt.Printf("   note x%d: %s\n", c, k)
			}
		}
		for _, v := range viol {
			rc = 1
			if !*noNative {
				e.confirm(v)
			}
			fmt.Printf("  VIOL [%s] %s\n    inputs %v\n    choices %v native=%s preempt=%d sel=%d\n", v.Kind, v.Msg, v.Inputs, v.Sched, v.Native, v.SchedN, v.SelN)
			if *verbose {
				for _, t := range v.Trace {
					fmt.Println("      ", t)
				}
			}
		}
		if *prof {
			fmt.Println(e.covered())
		}
	}
	cleanupNative()
	return rc
}

func (e *Engine) covered() []string {
	m := map[string]bool{}
	for _, w := range e.workers {
		for f := range w.covFn {
			if f.inRepo && f.ssa.Synthetic == "" {
				n := f.name
				if o := f.ssa.Origin(); o != nil {
					n = o.String()
				}
				m[strings.ReplaceAll(n, repoPkg, "snapws")] = true
			}
		}
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---- confirmation of counterexamples ----

type ReplayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Message  string            `json:"message"`
	Tier     int               `json:"tier"`
	Inputs   map[string]uint64 `json:"inputs"`
	Preempt  int               `json:"preemptions"`
	Selects  int               `json:"select_choices"`
	Trace    []string          `json:"schedule"`
	Dec      [][2]uint64       `json:"decisions"`
	Model    map[string]uint64 `json:"model"`
	Native   string            `json:"native_replay"`
	How      string            `json:"how_to_replay"`
}

// nativeNames are the harnesses linked into the native replay binary.
var nativeNames []string

func nativeBinary() (string, error) {
	d, err := os.MkdirTemp("", "gosym-replay")
	if err != nil {
		return "", err
	}
	src := "package main\n\nimport \"harness/h\"\n\nvar targets = map[string]func(){\n"
	for _, n := range nativeNames {
		src += fmt.Sprintf("\t%q: h.%s,\n", n, n)
	}
	src += "}\n"
	tf := filepath.Join(d, "target.go")
	os.WriteFile(tf, []byte(src), 0o644)
	ov := filepath.Join(d, "overlay.json")
	vd := verifDir()
	ob, _ := json.Marshal(map[string]any{"Replace": map[string]string{vd + "/harness/cmd/replay/target.go": tf}})
	os.WriteFile(ov, ob, 0o644)
	bin := filepath.Join(d, "replay")
	c := exec.Command("go", "build", "-overlay", ov, "-o", bin, "harness/cmd/replay")
	c.Dir = vd + "/harness"
	c.Env = append(goEnv(), "GOEXPERIMENT=synctest")
	out, err := c.CombinedOutput()
	if err != nil {
		os.RemoveAll(d)
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

// confirm replays v against the natively compiled code.
func (e *Engine) confirm(v *Violation) { e.confirmFor(v, 20*time.Second) }

func (e *Engine) confirmFor(v *Violation, max time.Duration) {
	if v.Kind == "race" {
		v.Native = "not attempted: happens-before race found by the interpreter"
		return
	}
	bin, err := natBin()
	if err != nil {
		v.Native = "build failed: " + err.Error()
		return
	}
	rf := bin + ".json"
	b, _ := json.Marshal(map[string]any{"inputs": v.Inputs, "tier": e.cfg.Tier})
	os.WriteFile(rf, b, 0o644)
	// goroutine, map and pool orders differ from run to run
	n := 60
	limit := 4 * time.Second
	if v.Kind == "deadlock" || v.Kind == "steps" {
		limit = 3 * time.Second
	}
	t0 := time.Now()
	last := ""
	for i := 0; i < n && time.Since(t0) < max; i++ {
		c := exec.Command(bin, v.Harness, rf)
		var sb strings.Builder
		c.Stdout = &sb
		c.Stderr = &sb
		if err := c.Start(); err != nil {
			v.Native = "start: " + err.Error()
			return
		}
		done := make(chan error, 1)
		go func() { done <- c.Wait() }()
		select {
		case err := <-done:
			last = sb.String()
			if err != nil {
				v.Native = fmt.Sprintf("confirmed on run %d: %s", i+1, replayLine(last))
				return
			}
		case <-time.After(limit):
			c.Process.Kill()
			<-done
			v.Native = fmt.Sprintf("confirmed on run %d: did not terminate", i+1)
			return
		}
	}
	v.Native = "not reproduced: " + firstLine(strings.TrimSpace(last))
}

var (
	natPath string
	natErr  error
)

// natBin builds the native binary once.
func natBin() (string, error) {
	if natPath == "" && natErr == nil {
		natPath, natErr = nativeBinary()
	}
	return natPath, natErr
}

func replayLine(out string) string {
	for _, x := range strings.Split(out, "\n") {
		if strings.HasPrefix(x, "REPLAY-VIOLATION") || strings.HasPrefix(x, "panic:") || strings.HasPrefix(x, "fatal error:") {
			return x
		}
	}
	return firstLine(strings.TrimSpace(out))
}

func writeJSON(p string, v any) {
	b, _ := json.Marshal(v)
	os.WriteFile(p, b, 0o644)
}

func cleanupNative() {
	if natPath != "" {
		os.RemoveAll(filepath.Dir(natPath))
	}
}

func (e *Engine) writeReplay(prop string, v *Violation, dir string, i int) string {
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
	var dec [][2]uint64
	for _, d := range v.Dec {
		dec = append(dec, [2]uint64{uint64(d.k), d.v})
	}
	rf := ReplayFile{Property: prop, Harness: v.Harness, Kind: v.Kind, Message: v.Msg, Tier: e.cfg.Tier, Inputs: v.Inputs, Preempt: v.SchedN, Selects: v.SelN, Trace: v.Trace, Dec: dec, Native: v.Native, How: "/verif/check.sh replay " + p}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

// cmdReplay re-executes a counterexample: the recorded decisions in the
// interpreter (schedule included), and the inputs natively.
func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cfg := Config{MaxSteps: 20_000_000, SolverMs: 20000, MaxViol: 1, Tier: rf.Tier}
	e, err := load(verifDir()+"/harness", cfg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e.startWorkers(1)
	f, err := e.entry(rf.Harness)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e.harness = rf.Harness
	nativeNames = []string{rf.Harness}
	e.st = newStats()
	j := &job{}
	for _, d := range rf.Dec {
		j.dec = append(j.dec, decision{decK(d[0]), d[1]})
	}
	e.jobs = nil
	e.workers[0].replaying = true
	e.workers[0].runPath(j, f)
	rc := 0
	for _, v := range e.st.viol {
		rc = 1
		e.confirm(v)
		fmt.Printf("interpreter: [%s] %s\ninputs: %v\nnative: %s\n", v.Kind, v.Msg, v.Inputs, v.Native)
		for _, t := range v.Trace {
			fmt.Println("  ", t)
		}
	}
	if rc == 0 {
		fmt.Println("not reproduced on the current tree:", e.st.ends, e.st.notes)
	}
	cleanupNative()
	return rc
}
