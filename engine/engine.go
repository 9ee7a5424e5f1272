package main

// Loading the target, the per-worker interpreter state, and the exploration of paths.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var buildMu sync.Mutex

type Engine struct {
	prog      *ssa.Program
	pkg       *ssa.Package // harness package
	errStrTI  *TI
	wrapErrTI *TI
	workers   []*Worker
	loadSecs  float64
	initSecs  float64
	runner    *Runner
	hdir      string
	repo      string
	raceMu    sync.Mutex
	race      *Runner
	raceErr   error
}


type Worker struct {
	e       *Engine
	id      int
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]*Obj
	solver  Solver
	meths   map[methKey]*Fn
	impls   map[implKey]bool
	fmtMeth map[int]bool
	jfields map[int][]jsonField
	initBad []string
}

// overlayFiles maps the harness sources to the (virtual) paths they get inside the repository.
func overlayFiles(hdir, repo string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, p)
		out[filepath.Join(repo, "zzverif", rel)] = p
		return nil
	})
	return out, err
}

func targetEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "PATH", "GOFLAGS", "GOPROXY", "GOROOT", "GOTOOLCHAIN", "CGO_ENABLED", "GOWORK":
			continue
		}
		env = append(env, kv)
	}
	goroot := "/opt/veriftools/go1.23.12"
	return append(env, "PATH="+goroot+"/bin:"+os.Getenv("PATH"), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOROOT="+goroot,
		"GOTOOLCHAIN=local", "GOWORK=off")
}

func load(hdir, repo string, nworkers int) (*Engine, error) {
	t0 := time.Now()
	files, err := overlayFiles(hdir, repo)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	// go list must see the overlay directories: packages.Config.Overlay covers file contents and new files.
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: append(targetEnv(), "CGO_ENABLED=0"), Overlay: ov}
	pkgs, err := packages.Load(cfg, modPath+"/zzverif/h")
	if err != nil {
		return nil, err
	}
	bad := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				fmt.Fprintln(os.Stderr, "load:", p.PkgPath, e)
				bad++
			}
		}
	})
	if bad > 0 {
		return nil, fmt.Errorf("the target or harness does not type-check")
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkg: spkgs[0]}
	if e.pkg == nil {
		return nil, fmt.Errorf("no harness package")
	}
	if p := prog.ImportedPackage("errors"); p != nil {
		e.errStrTI = tiOf(types.NewPointer(p.Type("errorString").Type()))
	}
	if p := prog.ImportedPackage("fmt"); p != nil {
		e.wrapErrTI = tiOf(types.NewPointer(p.Type("wrapError").Type()))
	}
	e.loadSecs = time.Since(t0).Seconds()
	t0 = time.Now()
	for i := 0; i < nworkers; i++ {
		w := &Worker{e: e, id: i, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Obj{}, meths: map[methKey]*Fn{},
			impls: map[implKey]bool{}, fmtMeth: map[int]bool{}, jfields: map[int][]jsonField{}}
		e.workers = append(e.workers, w)
	}
	w0 := e.workers[0]
	if err := w0.initAll(); err != nil {
		return nil, err
	}
	fillPreds(w0)
	var wg sync.WaitGroup
	errs := make([]error, nworkers)
	for i := 1; i < nworkers; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); errs[i] = e.workers[i].initAll() }(i)
	}
	wg.Wait()
	for _, er := range errs {
		if er != nil {
			return nil, er
		}
	}
	e.initSecs = time.Since(t0).Seconds()
	return e, nil
}

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "sync": true, "sync/atomic": true,
	"io/fs": true, "net": true, "unsafe": true, "time": true, "log": true, "runtime/debug": true, "path/filepath": true,
	"os/exec": true, "context": true, "iter": true, "slices": true, "math/rand": true}

func (w *Worker) wantInit(p *ssa.Package) bool {
	if p == nil {
		return false
	}
	path := p.Pkg.Path()
	if noInit[path] || strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "runtime/") {
		return false
	}
	return true
}

func (w *Worker) newM(h *Harness, model []uint64) *M {
	m := &M{w: w, ts: newTermStore(model), h: h, decided: map[*Term]bool{}, limit: 1 << 62, reached: map[string]bool{},
		origin: map[*Term]*Str{}, pools: map[poolKey][]V{}}
	return m
}

func (w *Worker) initAll() (err error) {
	m := w.newM(&Harness{Params: map[string]int{}}, nil)
	m.inits = true
	m.limit = 500_000_000
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *pathEnd:
				err = fmt.Errorf("package initialisation: %s %s", x.why, x.info)
			case *targetPanic:
				err = fmt.Errorf("package initialisation panicked: %s at %s", x.msg, x.at)
			default:
				err = fmt.Errorf("package initialisation: %v at %s\n%s", r, m.where(), debug.Stack())
			}
		}
	}()
	m.Call(w.fnOf(w.e.pkg.Func("init")), nil, nil)
	return nil
}

// initTolerant runs a library package's initialiser, tolerating constructs the executor does not model.
func (m *M) initTolerant(f func()) {
	fr, fd, st, sp := m.frame, m.fdepth, m.stack, m.sp
	defer func() {
		if r := recover(); r != nil {
			m.w.initBad = append(m.w.initBad, fmt.Sprintf("%v in %s", r, m.where()))
			if x, ok := r.(*pathEnd); ok {
				m.w.initBad[len(m.w.initBad)-1] = x.why + " " + x.info
			}
			if x, ok := r.(*targetPanic); ok {
				m.w.initBad[len(m.w.initBad)-1] = x.msg + " " + x.at
			}
			m.frame, m.fdepth, m.stack, m.sp = fr, fd, st, sp
		}
	}()
	f()
}

// fillPreds reads the unicode tables of the target's standard library out of the initialised globals.
func fillPreds(w *Worker) {
	p := w.e.prog.ImportedPackage("unicode")
	if p == nil {
		return
	}
	for op, name := range map[Op]string{OpIsLetter: "Letter", OpIsUpper: "Upper", OpIsLower: "Lower", OpIsDigit: "Digit", OpIsSpace: "White_Space"} {
		g := p.Var(name)
		if g == nil {
			continue
		}
		o := w.globalObj(g)
		tab, ok := o.s[0].o.(*Obj)
		if !ok {
			continue
		}
		base := int(o.s[0].n)
		ti := tiOf(g.Type().Underlying().(*types.Pointer).Elem()).el() // RangeTable
		var rs [][2]uint32
		for fi := 0; fi < 2; fi++ {
			sv := tab.s[base+ti.fldO[fi]]
			if sv.o == nil {
				continue
			}
			s := sv.o.(*Slice)
			for i := 0; i < s.len; i++ {
				e := s.obj.s[s.off+3*i : s.off+3*i+3]
				lo, hi, st := uint32(e[0].n), uint32(e[1].n), uint32(e[2].n)
				if st == 1 {
					rs = append(rs, [2]uint32{lo, hi})
					continue
				}
				for x := lo; x <= hi; x += st {
					rs = append(rs, [2]uint32{x, x})
				}
			}
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i][0] < rs[j][0] })
		var mg [][2]uint32
		for _, r := range rs {
			if n := len(mg); n > 0 && mg[n-1][1]+1 >= r[0] {
				if r[1] > mg[n-1][1] {
					mg[n-1][1] = r[1]
				}
				continue
			}
			mg = append(mg, r)
		}
		predRanges[op] = mg
	}
}

// ---- exploration --------------------------------------------------------------------------------

type item struct {
	model []uint64
	need  []byte
	depth int
}

type Harness struct {
	Name    string
	Params  map[string]int
	MaxSecs float64
	Steps   int64
	Prop    string
	known   []knownFinding

	mu     sync.Mutex
	cond   *sync.Cond
	work   []item
	busy   int
	stop   bool
	t0     time.Time
	fnName string

	// results
	Paths, Infeasible, Checks, Proved, Unknown, Conc int
	Decisions                                        int
	StepsTotal                                       int64
	Unsup                                            map[string]int
	Limits                                           int
	Reached                                          map[string]int
	Truncated                                        bool
	Left                                             int
	incomplete                                       map[string]int
	Viol                                             []*Confirmed
	Unconfirmed                                      []string
	Validated, Mismatch                              int
	MismatchMsgs                                     []string
	Samples                                          []Sample
	Wall                                             float64
	MaxVars                                          int
	KnownHits                                        map[string]int
	Races                                            map[string]int
	nextVal                                          int
}

type Sample struct {
	Tape []uint64 `json:"tape"`
	Log  []string `json:"log"`
}

type Confirmed struct {
	Harness string
	Params  map[string]int
	Tape    []uint64
	Msg     string
	Kind    string
	Native  string
}

func (h *Harness) push(m *M, model []uint64, depth int) {
	it := item{model: append([]uint64(nil), model...), depth: depth, need: append([]byte(nil), m.need[:depth]...)}
	h.mu.Lock()
	h.work = append(h.work, it)
	h.mu.Unlock()
	h.cond.Signal()
}

func (h *Harness) noteIncomplete(s string) {
	h.mu.Lock()
	h.incomplete[s]++
	h.mu.Unlock()
}

type pathOut struct {
	end   string // "ok", or a pathEnd reason, "panic", "internal"
	info  string
	m     *M
	viol  *Violation
	model []uint64
}

func (w *Worker) runPath(h *Harness, fn *Fn, it item) (out pathOut) {
	m := w.newM(h, append([]uint64(nil), it.model...))
	m.depth = it.depth
	m.need = append([]byte(nil), it.need...)
	m.limit = h.Steps
	out.m = m
	defer m.undo()
	defer func() {
		out.model = m.ts.model
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *pathEnd:
				out.end, out.info = x.why, x.info
				out.viol = m.found
				if x.why == "exit" {
					out.end = "ok"
				}
			case *targetPanic:
				out.end = "panic"
				msg := x.msg
				if msg == "panic" {
					msg = m.panicText(x.v)
				}
				out.info = msg + " at " + x.at
				out.viol = &Violation{msg: "panic: " + out.info, kind: "panic", model: append([]uint64(nil), m.ts.model...)}
			default:
				out.end = "unsupported"
				out.info = fmt.Sprintf("internal: %v in %s", r, m.where())
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}
	}()
	out.end = "ok"
	m.Call(fn, nil, nil)
	m.runGo()
	return
}

func (m *M) panicText(v V) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "(value)"
		}
	}()
	if i, ok := v.o.(*Iface); ok && i.ti.kind == kString {
		return m.str(i.v).s
	}
	return "(value)"
}

// tapeOf lists the values the harness's choice points take, in order.
func tapeOf(m *M, model []uint64) []uint64 {
	t := []uint64{}
	for i, v := range m.ts.vars {
		if v.name == "maporder" || v.name == "sched" {
			continue
		}
		x := v.lo
		if i < len(model) {
			x = model[i]
		}
		t = append(t, x)
	}
	return t
}

func (e *Engine) run(h *Harness) {
	h.cond = sync.NewCond(&h.mu)
	h.Unsup, h.Reached, h.incomplete, h.KnownHits = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	h.t0 = time.Now()
	h.work = []item{{}}
	if h.Steps == 0 {
		h.Steps = 20_000_000
	}
	f := e.pkg.Func(h.Name)
	if f == nil {
		h.incomplete["no such harness "+h.Name]++
		return
	}
	var wg sync.WaitGroup
	for _, w := range e.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			fn := w.fnOf(f)
			for {
				h.mu.Lock()
				for len(h.work) == 0 && h.busy > 0 && !h.stop {
					h.cond.Wait()
				}
				if h.stop || len(h.work) == 0 {
					h.mu.Unlock()
					h.cond.Broadcast()
					return
				}
				if h.MaxSecs > 0 && time.Since(h.t0).Seconds() > h.MaxSecs {
					h.Truncated = true
					h.stop = true
					h.mu.Unlock()
					h.cond.Broadcast()
					return
				}
				it := h.work[len(h.work)-1]
				h.work = h.work[:len(h.work)-1]
				h.busy++
				h.mu.Unlock()
				out := w.runPath(h, fn, it)
				e.finish(h, w, out)
				h.mu.Lock()
				h.busy--
				h.mu.Unlock()
				h.cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
	h.Left = len(h.work)
	h.work = nil
	h.Wall = time.Since(h.t0).Seconds()
}

func (e *Engine) finish(h *Harness, w *Worker, out pathOut) {
	m := out.m
	h.mu.Lock()
	h.Checks += m.checks
	h.Proved += m.proved
	h.Unknown += m.unk
	h.Conc += m.conc
	h.Decisions += m.ndec
	h.StepsTotal += m.steps
	if len(m.ts.vars) > h.MaxVars {
		h.MaxVars = len(m.ts.vars)
	}
	for k := range m.reached {
		h.Reached[k]++
	}
	sample := false
	switch out.end {
	case "assume":
		h.Infeasible++
	case "ok":
		h.Paths++
		// validate paths 1,2,4,8,... and then a steady trickle against the native build
		if h.Paths >= h.nextVal {
			sample = true
			if h.nextVal < 16 {
				h.nextVal++
			} else {
				h.nextVal += h.nextVal / 4
			}
		}
	case "limit":
		h.Limits++
	case "unsupported":
		h.Unsup[out.info]++
	}
	nUns := h.Unsup[out.info]
	var races []string
	for at := range m.races {
		if h.Races == nil {
			h.Races = map[string]int{}
		}
		if h.Races[at]++; h.Races[at] <= 3 {
			races = append(races, at)
		}
	}
	nLim := h.Limits
	h.mu.Unlock()
	for _, at := range races {
		e.confirm(h, m, out.model, "unsynchronised write to memory shared between parsers in "+at, "race")
	}
	switch out.end {
	case "violation", "panic":
		e.confirm(h, m, out.viol.model, out.viol.msg, out.viol.kind)
	case "limit":
		if nLim <= 5 {
			e.confirm(h, m, out.model, "step bound exceeded ("+out.info+")", "limit")
		}
	case "unsupported":
		if nUns <= 20 {
			e.confirm(h, m, out.model, out.info, "unsupported")
		}
	case "ok":
		if sample && e.runner != nil {
			tape := tapeOf(m, out.model)
			r := e.runner.run(h.Name, h.Params, tape, 1)
			h.mu.Lock()
			if r.Status == "ok" && sameLogs(r.Log, m.logs) {
				h.Validated++
				if len(h.Samples) < 6 {
					h.Samples = append(h.Samples, Sample{tape, clip(m.logs)})
				}
			} else {
				h.Mismatch++
				if len(h.MismatchMsgs) < 5 {
					h.MismatchMsgs = append(h.MismatchMsgs, fmt.Sprintf("tape %v: symbolic %q, native %s %q %s", tape, m.logs, r.Status, r.Log, r.Msg))
				}
			}
			h.mu.Unlock()
			if r.Status == "violation" || r.Status == "panic" || r.Status == "hang" || r.Status == "crash" {
				e.report(h, h.Params, tape, "native replay of a sampled path: "+r.Msg, r.Status, r)
			}
		}
	}
}

func clip(l []string) []string {
	var o []string
	for _, s := range l {
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		o = append(o, s)
	}
	return o
}

func sameLogs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// confirm replays a model against the natively built target and records the outcome.
func (e *Engine) confirm(h *Harness, m *M, model []uint64, msg, kind string) {
	tape := tapeOf(m, model)
	if e.runner == nil {
		h.mu.Lock()
		h.Unconfirmed = append(h.Unconfirmed, kind+": "+msg+fmt.Sprintf(" tape=%v", tape))
		if len(h.Unconfirmed) > 5 {
			h.stop = true
		}
		h.mu.Unlock()
		return
	}
	reps := 1
	if m.mapOrd > 0 {
		reps = 64
	}
	rn, params := e.runner, h.Params
	if m.epoch > 0 { // verif.Race: run the callbacks in goroutines over and over
		params = map[string]int{"stress": 1}
		for k, v := range h.Params {
			params[k] = v
		}
		if kind == "race" {
			var err error
			if rn, err = e.raceRunner(); err != nil {
				h.noteIncomplete("no race detector: " + err.Error())
				return
			}
		}
	}
	r := rn.run(h.Name, params, tape, reps)
	switch r.Status {
	case "violation", "panic", "hang", "crash":
		e.report(h, params, tape, msg, kind, r)
	default:
		h.mu.Lock()
		if kind == "race" || kind == "violation" || kind == "check" || kind == "panic" {
			if len(h.Unconfirmed) < 20 {
				h.Unconfirmed = append(h.Unconfirmed, fmt.Sprintf("%s: %s tape=%v native=%s %s", kind, msg, tape, r.Status, r.Msg))
			}
		}
		h.mu.Unlock()
	}
}

func (e *Engine) report(h *Harness, params map[string]int, tape []uint64, msg, kind string, r RunRes) {
	h.mu.Lock()
	defer h.mu.Unlock()
	full := r.Msg
	for _, k := range h.known {
		if k.matches(h.Name, full) {
			h.KnownHits[k.Desc]++
			return
		}
	}
	h.Viol = append(h.Viol, &Confirmed{Harness: h.Name, Params: params, Tape: tape, Msg: msg, Kind: kind, Native: r.Status + ": " + r.Msg})
	h.stop = true
}
