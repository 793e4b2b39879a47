package main

// Loading, the program-wide tables and native replay.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog         *ssa.Program
	sizes        types.Sizes
	errorString  types.Type
	workers      []*Worker
	maxDecisions int
	maxSteps     int
	tmo          int
	verbose      bool
	thorough     bool
	props        *ssa.Package
	pkgs         map[string]*ssa.Package
	replayBin    string
	stopAt       atomic.Int64
	isKnown      func(h *harness, kind, out string) bool

	mu       sync.Mutex
	mmu      sync.Mutex
	notes    map[string]int
	fnsRepo  map[string]bool
	fnsOther map[string]bool
	stubs    map[string]bool

	queries, sats, unsats, unknowns int64
	solverTime                      time.Duration
	errs                            []string
	replays                         int64
	loadTime                        time.Duration
}

const modPath = "github.com/libsv/libsv"

func loadEngine(dir string, verbose bool) (*Engine, error) {
	t0 := time.Now()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        dir,
		Env:        os.Environ(),
		BuildFlags: []string{"-tags=purego,math_big_pure_go,verif_symbolic"},
	}
	ps, err := packages.Load(cfg, "./props")
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(msgs, "; "))
	}
	prog, ssaPs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, sizes: types.SizesFor("gc", "amd64"), maxDecisions: 20000, maxSteps: 60000000, tmo: 20000,
		verbose: verbose, props: ssaPs[0], pkgs: map[string]*ssa.Package{}, notes: map[string]int{}, fnsRepo: map[string]bool{},
		fnsOther: map[string]bool{}, stubs: map[string]bool{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	if rt := e.pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			e.errorString = t.Type()
		}
	}
	e.loadTime = time.Since(t0)
	return e, nil
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	n := e.notes[s]
	e.mu.Unlock()
	if n == 1 && e.verbose {
		fmt.Fprintln(os.Stderr, "note:", s)
	}
}

func (e *Engine) addSolver(s *Solver) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.queries += int64(s.queries)
	e.sats += int64(s.sats)
	e.unsats += int64(s.unsats)
	e.unknowns += int64(s.unknowns)
	e.solverTime += s.time
	e.errs = append(e.errs, s.errs...)
	s.queries, s.sats, s.unsats, s.unknowns, s.time, s.errs = 0, 0, 0, 0, 0, nil
}

func (e *Engine) countFn(h *harness, fn *ssa.Function) {
	p := ""
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		p = fn.Object().Pkg().Path()
	}
	e.mu.Lock()
	if strings.HasPrefix(p, modPath+"/") || p == modPath {
		e.fnsRepo[fn.String()] = true
	} else if !strings.HasPrefix(p, "verif/") {
		e.fnsOther[fn.String()] = true
	}
	e.mu.Unlock()
}

func (e *Engine) stub(name string) {
	e.mu.Lock()
	e.stubs[name] = true
	e.mu.Unlock()
}

func (e *Engine) fnByName(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (e *Engine) typeByName(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (e *Engine) harnessFn(name string) *ssa.Function { return e.props.Func(name) }

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	e.mmu.Lock()
	defer e.mmu.Unlock()
	return types.Implements(t, it)
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.mmu.Lock()
	defer e.mmu.Unlock()
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

// harnesses: the functions Cxx_name of the props package for a property (sorted).
func (e *Engine) harnesses(prop string) []string {
	var out []string
	for n, m := range e.props.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prop+"_") && f.Signature.Params().Len() == 0 {
			if strings.HasSuffix(n, "_T") && !e.thorough {
				continue
			}
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// ---- native replay --------------------------------------------------------------

func (e *Engine) buildReplay(dir string) error {
	tmp, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		return err
	}
	e.replayBin = filepath.Join(tmp, "replay")
	reg := filepath.Join(tmp, "registry.go")
	ov := filepath.Join(tmp, "overlay.json")
	defer os.Remove(reg)
	defer os.Remove(ov)
	if err := writeRegistry(dir, reg); err != nil {
		return err
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{filepath.Join(dir, "replay", "registry.go"): reg}})
	if err := os.WriteFile(ov, js, 0o644); err != nil {
		return err
	}
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", e.replayBin, "./replay")
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("build of the native harness: %v\n%s", err, out)
	}
	return nil
}

var harnessRE = regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\) \{`)

// writeRegistry lists the harness functions for the native replay program.
func writeRegistry(dir, file string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "props", "*.go"))
	if err != nil {
		return err
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport \"verif/harness/props\"\n\nvar registry = map[string]func(){\n")
	for _, f := range fs {
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		for _, m := range harnessRE.FindAllSubmatch(src, -1) {
			fmt.Fprintf(&b, "\t%q: props.%s,\n", m[1], m[1])
		}
	}
	b.WriteString("}\n")
	return os.WriteFile(file, []byte(b.String()), 0o644)
}

func (e *Engine) cleanup() {
	if e.replayBin != "" {
		os.Remove(e.replayBin)
		os.Remove(filepath.Dir(e.replayBin))
	}
}

type replayFile struct {
	Property string     `json:"property,omitempty"`
	Harness  string     `json:"harness"`
	Label    string     `json:"label,omitempty"`
	Result   string     `json:"result,omitempty"`
	Thorough bool       `json:"thorough,omitempty"`
	Inputs   Assignment `json:"inputs"`
}

func (e *Engine) replay(name string, a *Assignment) (string, string) {
	e.mu.Lock()
	e.replays++
	e.mu.Unlock()
	js, _ := json.Marshal(replayFile{Harness: name, Inputs: *a, Thorough: e.thorough})
	return runReplay(e.replayBin, js)
}

func runReplay(bin string, js []byte) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Stdin = bytes.NewReader(js)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB", "GOTRACEBACK=single")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		return "hang", "no result within 20 s"
	}
	out := so.String()
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			f := strings.SplitN(l[7:], " ", 2)
			r := ""
			if len(f) > 1 {
				r = f[1]
			}
			return f[0], r
		}
	}
	if err != nil {
		s := se.String()
		if i := strings.Index(s, "\n"); i > 0 {
			s = s[:i]
		}
		return "panic", "process died: " + s
	}
	return "error", out
}
