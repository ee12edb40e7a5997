package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const zzPath = "github.com/keyfuse/tokucore/zzverif"
const repoMod = "github.com/keyfuse/tokucore"

// Engine holds the program under analysis.
type Engine struct {
	repo, harnessDir, work string
	prop                   string
	thorough               bool
	prog                   *ssa.Program
	built                  map[*ssa.Package]bool
	rtErrType              types.Type
	overlay                map[string][]byte
	overlayJSON            string
	harnesses              []*Harness
	repoPkgs               []*ssa.Package
	skipped                []string // harness packages that do not build against the tree
	replayBin              map[string]string
	intrTab                map[string]bigFn
	stubTab                map[string]string
	zz                     *ssa.Package

	notesMu sync.Mutex
	notes   map[string]int
	st      SolverStats
	seed    int64
	maxStep int64

	funcsMu sync.Mutex
	funcs   map[string]bool

	known     []knownEntry
	nextMu    sync.Mutex
	stopAll   atomic.Bool
	start     time.Time
	deadline  time.Time
	verbose   bool
	only      string
	keepGoing bool
	vioMu     sync.Mutex
	vios      []*Violation
	traceOK   int64
	traceBad  int64
	traceSkip int64
	badTraces []string
}

// Violation is one confirmed counterexample.
type Violation struct {
	Harness string
	Label   string
	Vals    []jval
	File    string
	Detail  string
}

type jval struct {
	N string `json:"n"`
	W int    `json:"w"`
	V string `json:"v"` // hex
}

// Harness is one entry point.
type Harness struct {
	e     *Engine
	name  string // pkg.Func
	pkg   string
	fn    *ssa.Function
	mu    sync.Mutex
	queue [][]Dec

	active   int
	paths    int64
	done     int64
	assumed  int64
	infeas   int64
	bound    int64
	unsup    int64
	steps    int64
	forks    int64
	merges   int64
	asserts  int64
	assertU  int64 // unknown
	inconc   int64
	reach    map[string]bool
	labels   map[string]int64
	reasons  map[string]int64
	dropped  int
	samples  []string
	pending  []traceRec
	nval     int64
	stopped  bool
	cpu      int64
	started  int64 // sum of the start times of active paths
	searches map[string]int
	vioSeen  map[string]bool
	bounds   map[string]bool
	knownHit map[string]bool
	assumes  map[string]bool
}

type traceRec struct {
	vals []jval
	obs  []string
}

func (h *Harness) push(p []Dec) {
	h.mu.Lock()
	h.queue = append(h.queue, p)
	h.forks++
	h.mu.Unlock()
}

func (e *Engine) note(s string) {
	e.notesMu.Lock()
	if e.notes[s] == 0 && e.verbose {
		fmt.Fprintln(os.Stderr, "note:", s)
	}
	e.notes[s]++
	e.notesMu.Unlock()
}

func (e *Engine) isRepo(path string) bool {
	return (path == repoMod || strings.HasPrefix(path, repoMod+"/")) && !strings.HasPrefix(path, zzPath)
}

// collectOverlay maps the harness tree into the module.
func (e *Engine) collectOverlay(props []string) error {
	e.overlay = map[string][]byte{}
	files := map[string]string{}
	add := func(src, dst string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		e.overlay[dst] = b
		files[dst] = src
		return nil
	}
	ents, err := filepath.Glob(filepath.Join(e.harnessDir, "zzverif", "*.go"))
	if err != nil {
		return err
	}
	for _, f := range ents {
		if err := add(f, filepath.Join(e.repo, "zzverif", filepath.Base(f))); err != nil {
			return err
		}
	}
	// helper packages shared by harnesses
	libs, _ := filepath.Glob(filepath.Join(e.harnessDir, "lib", "*", "*.go"))
	for _, f := range libs {
		d := filepath.Base(filepath.Dir(f))
		if err := add(f, filepath.Join(e.repo, "zzverif", "lib", d, filepath.Base(f))); err != nil {
			return err
		}
	}
	for _, p := range props {
		fs, _ := filepath.Glob(filepath.Join(e.harnessDir, p, "*.go"))
		for _, f := range fs {
			if err := add(f, filepath.Join(e.repo, "zzverif", p, filepath.Base(f))); err != nil {
				return err
			}
		}
	}
	// replay drivers
	for _, p := range props {
		names := harnessNames(e.overlay, filepath.Join(e.repo, "zzverif", p))
		var sb strings.Builder
		fmt.Fprintf(&sb, "package main\n\nimport (\n\tzz %q\n\th %q\n)\n\nfunc main() {\n\tzz.Main(map[string]func(){\n", zzPath, zzPath+"/"+p)
		for _, n := range names {
			fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", n, n)
		}
		sb.WriteString("\t})\n}\n")
		src := filepath.Join(e.work, "replay_"+p+".go")
		if err := os.WriteFile(src, []byte(sb.String()), 0o644); err != nil {
			return err
		}
		if err := add(src, filepath.Join(e.repo, "zzverif", "replay_"+p, "main.go")); err != nil {
			return err
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": files}, "", " ")
	e.overlayJSON = filepath.Join(e.work, "overlay.json")
	return os.WriteFile(e.overlayJSON, b, 0o644)
}

func harnessNames(ov map[string][]byte, dir string) []string {
	var out []string
	for f, b := range ov {
		if filepath.Dir(f) != dir {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func ZZ_") {
				n := strings.TrimPrefix(l, "func ")
				if i := strings.IndexByte(n, '('); i > 0 && strings.HasPrefix(n[i:], "()") {
					out = append(out, n[:i])
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOPROXY=") || strings.HasPrefix(kv, "GOWORK=") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on")
}

// load builds SSA for the harness packages.
func (e *Engine) load(props []string) error {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     e.repo,
		Overlay: e.overlay,
		Env:     append(goEnv(), "CGO_ENABLED=0"),
	}
	var pats []string
	for _, p := range props {
		pats = append(pats, zzPath+"/"+p)
	}
	pats = append(pats, zzPath)
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return err
	}
	var good []*packages.Package
	for _, p := range pkgs {
		bad := ""
		packages.Visit([]*packages.Package{p}, nil, func(q *packages.Package) {
			if !strings.HasPrefix(q.PkgPath, repoMod) {
				return
			}
			for _, er := range q.Errors {
				bad = er.Error()
			}
		})
		if bad != "" {
			e.skipped = append(e.skipped, p.PkgPath+": "+bad)
			continue
		}
		good = append(good, p)
	}
	prog, spkgs := ssautil.AllPackages(good, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	e.prog = prog
	e.built = map[*ssa.Package]bool{}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		path := good[i].PkgPath
		if path == zzPath {
			e.zz = sp
			continue
		}
		var names []string
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "ZZ_") && f.Signature.Params().Len() == 0 {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			if e.only != "" && !strings.Contains(n, e.only) {
				continue
			}
			e.harnesses = append(e.harnesses, &Harness{e: e, name: n, pkg: filepath.Base(path), fn: sp.Func(n),
				queue: [][]Dec{nil}, reach: map[string]bool{}, labels: map[string]int64{}, reasons: map[string]int64{},
				vioSeen: map[string]bool{}, bounds: map[string]bool{}, knownHit: map[string]bool{}, assumes: map[string]bool{}})
		}
	}
	for _, p := range prog.AllPackages() {
		if e.isRepo(p.Pkg.Path()) {
			e.repoPkgs = append(e.repoPkgs, p)
		}
	}
	sort.Slice(e.repoPkgs, func(i, j int) bool { return e.repoPkgs[i].Pkg.Path() < e.repoPkgs[j].Pkg.Path() })
	// a synthetic runtime error type
	tn := types.NewTypeName(token.NoPos, nil, "runtimeError", nil)
	e.rtErrType = types.NewNamed(tn, types.Typ[types.String], nil)
	return nil
}

func (e *Engine) buildReplay(p string) error {
	out := filepath.Join(e.work, "replay_"+p)
	cmd := exec.Command("go", "build", "-overlay", e.overlayJSON, "-o", out, zzPath+"/replay_"+p)
	cmd.Dir = e.repo
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("replay build: %v: %s", err, b)
	}
	e.replayBin[p] = out
	return nil
}

var sizesAMD = types.SizesFor("gc", "amd64")
var sizeofMu sync.Mutex
var sizeofTab = map[types.Type]int{}

func (e *Engine) sizeof(t types.Type) int {
	sizeofMu.Lock()
	defer sizeofMu.Unlock()
	if n, ok := sizeofTab[t]; ok {
		return n
	}
	n := int(sizesAMD.Sizeof(t))
	sizeofTab[t] = n
	return n
}

var methMu sync.Mutex

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	if t == e.rtErrType {
		return nil
	}
	methMu.Lock()
	defer methMu.Unlock()
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (e *Engine) intr(name string) bigFn {
	if f, ok := e.intrTab[name]; ok {
		return f
	}
	// generic instances: name[T] -> name
	if i := strings.IndexByte(name, '['); i > 0 && strings.HasSuffix(name, "]") {
		if f, ok := e.intrTab[name[:i]]; ok {
			return f
		}
	}
	return nil
}

func (e *Engine) stub(name string) *ssa.Function {
	if s, ok := e.stubTab[name]; ok && e.zz != nil {
		if s != "" && s[0] == '@' {
			// a stand-in that the harness package brings along
			for _, h := range e.harnesses {
				if f := h.fn.Pkg.Func(s[1:]); f != nil {
					return f
				}
			}
			return nil
		}
		return e.zz.Func(s)
	}
	return nil
}

// ---- exploration

// job is a path taken from a queue and when.
type job struct {
	path  []Dec
	start int64
}

// next takes a path of the harness that has had the least time so far, so that none is starved by slow ones.
func (e *Engine) next(rr *int) (*Harness, job) {
	e.nextMu.Lock()
	defer e.nextMu.Unlock()
	now := time.Now().UnixNano()
	n := len(e.harnesses)
	var best *Harness
	var least int64
	for k := 0; k < n; k++ {
		h := e.harnesses[(*rr+k)%n]
		h.mu.Lock()
		if len(h.queue) > 0 && !h.stopped {
			cost := h.cpu + int64(h.active)*now - h.started + int64(h.active)*int64(time.Millisecond)
			if best == nil || cost < least {
				best, least = h, cost
			}
		}
		h.mu.Unlock()
	}
	if best == nil {
		return nil, job{}
	}
	h := best
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.queue) == 0 {
		return nil, job{}
	}
	p := h.queue[len(h.queue)-1]
	h.queue = h.queue[:len(h.queue)-1]
	h.active++
	h.started += now
	*rr++
	return h, job{p, now}
}

func (e *Engine) idle() bool {
	for _, h := range e.harnesses {
		h.mu.Lock()
		b := h.active > 0 || len(h.queue) > 0 && !h.stopped
		h.mu.Unlock()
		if b {
			return false
		}
	}
	return true
}

func (e *Engine) explore(workers int) {
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := e.newWorker(id)
			defer func() { w.s.Close() }()
			rr := id * len(e.harnesses) / workers
			for {
				if e.stopAll.Load() || time.Now().After(e.deadline) {
					return
				}
				h, p := e.next(&rr)
				if h == nil {
					if e.idle() {
						return
					}
					time.Sleep(2 * time.Millisecond)
					continue
				}
				w.runPath(h, p.path)
				h.mu.Lock()
				h.active--
				h.started -= p.start
				h.cpu += time.Now().UnixNano() - p.start
				h.mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	for _, h := range e.harnesses {
		h.dropped = len(h.queue)
	}
}

func (e *Engine) newWorker(id int) *Worker {
	w := &Worker{e: e, mergeFail: map[int]int{}, mergeOK: map[int]int{}, funcs: map[*FnInfo]bool{}}
	w.resetCtx()
	return w
}

func (w *Worker) resetCtx() {
	if w.s != nil {
		w.s.Close()
	}
	w.c = NewCtx()
	w.s = NewSolver(w.c, &w.e.st, w.e.quickMs(), w.e.slowMs())
	w.globals = map[*ssa.Global]*Value{}
	w.inited = map[*ssa.Package]int{}
	w.maxStep = 1 << 40
	w.deadline = w.e.deadline
	for _, p := range w.e.repoPkgs {
		w.initPkg(p)
	}
	if w.e.zz != nil {
		w.initPkg(w.e.zz)
	}
}

func (e *Engine) quickMs() int {
	if e.thorough {
		return 3000
	}
	return 600
}
func (e *Engine) slowMs() int {
	if e.thorough {
		return 150000
	}
	return 40000
}

func (w *Worker) runPath(h *Harness, prefix []Dec) {
	if w.c.size() > 4_000_000 {
		w.resetCtx()
	}
	w.h = h
	w.prefix = prefix
	w.log = w.log[:0]
	w.pc = nil
	w.c.zero, w.c.facts, w.c.dom, w.c.ent = nil, nil, nil, nil
	w.model = nil
	w.mergeD = 0
	w.msteps = 0
	w.steps = 0
	w.maxStep = w.e.maxStep
	w.depth = 0
	w.nondet = nil
	w.nvar = 0
	w.ufs, w.ufEager = nil, 0
	w.obs = nil
	w.allocMax = 0
	w.trail = w.trail[:0]
	w.undo = nil
	w.trailOn = true
	w.funcs = map[*FnInfo]bool{}
	w.deadline = w.e.deadline
	w.pts = nil
	w.onces = map[*Value]bool{}
	w.locks = map[any]int{}
	w.task = 0
	w.abs = map[string]bool{}
	kind, msg := "done", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathEnd:
				kind, msg = x.kind, x.msg
			case targetPanic:
				kind, msg = "panic", x.msg
			case abortMerge:
				kind, msg = "unsupported", "abortMerge escaped: "+x.why
			default:
				if w.e.verbose {
					panic(r)
				}
				kind, msg = "unsupported", fmt.Sprintf("internal: %v", r)
				w.s.Close()
			}
		}()
		w.callSSA(h.fn, nil, nil, nil)
	}()
	if kind == "panic" {
		// an uncaught panic of the harness is a violation
		func() {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(pathEnd); ok {
						kind, msg = x.kind, x.msg
						return
					}
					panic(r)
				}
			}()
			w.mergeD = 0
			w.violation("panic: " + msg)
		}()
	}
	if kind == "done" {
		w.traceCheck(h)
	}
	// restore
	w.trailOn = false
	w.rollback(0)
	for i := len(w.undo) - 1; i >= 0; i-- {
		w.undo[i]()
	}
	w.undo = nil
	h.mu.Lock()
	h.paths++
	h.steps += w.steps
	switch kind {
	case "done":
		h.done++
	case "assume":
		h.assumed++
	case "infeasible":
		h.infeas++
	case "bound":
		h.bound++
		h.reasons["bound: "+msg]++
	case "unsupported":
		h.unsup++
		h.reasons["unsupported: "+msg]++
		if w.e.verbose && h.reasons["unsupported: "+msg] == 1 {
			fmt.Fprintf(os.Stderr, "%s: unsupported: %s\n", h.name, msg)
		}
	case "violation", "inconclusive":
	default:
		h.reasons[kind+": "+msg]++
	}
	if w.e.verbose && h.paths%500 == 0 {
		fmt.Fprintf(os.Stderr, "%s paths=%d queue=%d done=%d\n", h.name, h.paths, len(h.queue), h.done)
	}
	h.mu.Unlock()
	w.e.funcsMu.Lock()
	for f := range w.funcs {
		w.e.funcs[f.name] = true
	}
	w.e.funcsMu.Unlock()
}

// values of the nondeterministic inputs under a model.
func (w *Worker) inputVals(m *Model) []jval {
	out := make([]jval, 0, len(w.nondet))
	for _, r := range w.nondet {
		var sb strings.Builder
		wd := max(1, r.W)
		for _, v := range r.V {
			if t := v.sym(); t != nil {
				if t.w == 0 {
					sb.WriteString(fmt.Sprintf("%02x", b2u(w.c.EvalBool(t, m))))
				} else {
					sb.WriteString(fmt.Sprintf("%0*x", (wd+7)/8*2, w.c.EvalBV(t, m)))
				}
			} else {
				sb.WriteString(fmt.Sprintf("%0*x", (wd+7)/8*2, v.N&mask(max(wd, 1))))
			}
		}
		out = append(out, jval{r.Name, r.W, sb.String()})
	}
	return out
}

func (w *Worker) obsVals(m *Model) []string {
	var out []string
	for _, o := range w.obs {
		var sb strings.Builder
		sb.WriteString(o.Label + "=")
		for _, v := range o.V {
			if t := v.sym(); t != nil {
				if w.usesUF(t) {
					sb.WriteString("*")
					continue
				}
				if t.w == 0 {
					fmt.Fprintf(&sb, "%02x", b2u(w.c.EvalBool(t, m)))
				} else {
					fmt.Fprintf(&sb, "%0*x", (o.W+7)/8*2, w.c.EvalBV(t, m))
				}
			} else {
				fmt.Fprintf(&sb, "%0*x", (max(o.W, 1)+7)/8*2, v.N&mask(max(o.W, 1)))
			}
		}
		out = append(out, sb.String())
	}
	return out
}

func (w *Worker) usesUF(t *Term) bool {
	for _, v := range collectVars([]*Term{t}) {
		if strings.HasPrefix(v.name, "uf_") {
			return true
		}
	}
	return false
}

// traceCheck queues a finished path for replay against the real code.
func (w *Worker) traceCheck(h *Harness) {
	h.mu.Lock()
	n := h.nval
	h.mu.Unlock()
	lim := int64(40)
	if w.e.thorough {
		lim = 150
	}
	if n >= lim {
		return
	}
	for _, t := range w.pc {
		if w.usesUF(t) {
			atomic.AddInt64(&w.e.traceSkip, 1)
			return
		}
	}
	ok := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(pathEnd); is {
					return
				}
				panic(r)
			}
		}()
		ok = w.ensureModel()
	}()
	if !ok {
		return
	}
	rec := traceRec{vals: w.inputVals(w.model), obs: w.obsVals(w.model)}
	h.mu.Lock()
	h.nval++
	h.pending = append(h.pending, rec)
	if len(h.samples) < 3 {
		b, _ := json.Marshal(rec.vals)
		s := string(b)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		h.samples = append(h.samples, s)
	}
	h.mu.Unlock()
}
