package main

import (
	"bufio"
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	verbose  int
	thorough bool
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "symgo: "+f+"\n", a...)
	os.Exit(2)
}

// Config holds the bounds of one harness.
type Config struct {
	idealCRC    bool // checksums of different symbolic contents differ
	loopLimit   int
	noMerge     bool
	symIndexMax int
	maxAlloc    int
	mapOrder    bool
	preempt     int
	delay       bool // preempt bounds the deviations from taking turns
	race        bool
	maxMoves    int
	stepLimit   int64
	native      bool
	hang        bool // step limit means the code hangs
	reach       []string
	inits       []string // packages initialised before the harness starts
	timeout     time.Duration
	validate    int
	bounds      string
	solverSecs  int
	models      map[string]bool // models that are only used on request
}

func defaultConfig() Config {
	return Config{loopLimit: 5000, symIndexMax: 300, maxAlloc: 1 << 17, preempt: -1, race: true, maxMoves: 3000, stepLimit: 3000000,
		timeout: 600 * time.Second, validate: 6, solverSecs: 60}
}

func (c *Config) set(k, v string) {
	atoi := func() int {
		n, err := strconv.Atoi(v)
		if err != nil {
			fatal("bad option %s=%s", k, v)
		}
		return n
	}
	switch k {
	case "loop":
		c.loopLimit = atoi()
	case "nomerge":
		c.noMerge = atoi() == 1
	case "symindex":
		c.symIndexMax = atoi()
	case "maxalloc":
		c.maxAlloc = atoi()
	case "maporder":
		c.mapOrder = atoi() == 1
	case "delay":
		c.delay = true
		c.preempt = atoi()
	case "preempt":
		c.preempt = atoi()
	case "race":
		c.race = atoi() == 1
	case "moves":
		c.maxMoves = atoi()
	case "steps":
		c.stepLimit = int64(atoi())
	case "native":
		c.native = atoi() == 1
	case "idealcrc":
		c.idealCRC = atoi() == 1
	case "hang":
		c.hang = atoi() == 1
	case "reach":
		c.reach = strings.Split(v, ",")
	case "init":
		c.inits = strings.Split(v, ",")
	case "timeout":
		c.timeout = time.Duration(atoi()) * time.Second
	case "validate":
		c.validate = atoi()
	case "solver":
		c.solverSecs = atoi()
	case "models":
		c.models = map[string]bool{}
		for _, m := range strings.Split(v, ",") {
			c.models[m] = true
		}
	default:
		fatal("unknown option %s", k)
	}
}

// Harness is one entry point.
type Harness struct {
	name   string
	pkg    string // directory relative to the repository
	file   string
	cfg    Config
	fn     *ssa.Function
	bounds string
	tier   string
}

var harnessRe = regexp.MustCompile(`^func (ZZ_(C\d+)_\w+)\(`)

// findHarnesses scans the harness tree.
func findHarnesses(verif, prop string) []*Harness {
	root := filepath.Join(verif, "harness")
	var out []*Harness
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		f, err := os.Open(p)
		if err != nil {
			return nil
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		cfg := defaultConfig()
		var bounds []string
		tier := ""
		for sc.Scan() {
			l := sc.Text()
			if strings.HasPrefix(l, "//zz:cfg ") {
				for _, kv := range strings.Fields(l[9:]) {
					k, v, _ := strings.Cut(kv, "=")
					if strings.HasPrefix(k, "t.") {
						if thorough {
							cfg.set(k[2:], v)
						}
						continue
					}
					if k == "tier" {
						tier = v
						continue
					}
					cfg.set(k, v)
				}
				continue
			}
			if strings.HasPrefix(l, "//zz:bounds ") {
				bounds = append(bounds, l[12:])
				continue
			}
			if m := harnessRe.FindStringSubmatch(l); m != nil {
				if m[2] == prop {
					d, _ := filepath.Rel(root, filepath.Dir(p))
					out = append(out, &Harness{name: m[1], pkg: d, file: p, cfg: cfg, bounds: strings.Join(bounds, " "), tier: tier})
				}
				cfg = defaultConfig()
				bounds = nil
				tier = ""
			}
		}
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// overlayFiles maps repository paths to harness files needed for prop.
func overlayFiles(verif, repo, prop string, native bool) map[string]string {
	root := filepath.Join(verif, "harness")
	out := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b := filepath.Base(p)
		rel, _ := filepath.Rel(root, p)
		d := filepath.Dir(rel)
		if d == "internal/zzverif" || d == "internal/zzmodel" || strings.HasPrefix(b, "zz_common") || strings.HasPrefix(b, "zz_"+prop+"_") || b == "zz_"+prop+".go" {
			out[filepath.Join(repo, rel)] = p
		}
		return nil
	})
	return out
}

type workItem struct {
	prefix []Decision
	model  Model
}

// Violation is one counterexample.
type Violation struct {
	Harness   string            `json:"harness"`
	Pkg       string            `json:"pkg"`
	Msg       string            `json:"message"`
	Inputs    map[string]string `json:"inputs"`
	Order     []string          `json:"input_order"`
	Decisions []Decision        `json:"decisions,omitempty"`
	Schedule  []string          `json:"schedule,omitempty"`
	Notes     []string          `json:"notes,omitempty"`
	Confirmed string            `json:"confirmed,omitempty"`
	Known     string            `json:"known,omitempty"`
	key       string
	native    bool
	hang      bool
}

// Sample is a completed path kept for validation against the real build.
type Sample struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Obs     []string          `json:"obs"`
}

type Engine struct {
	repo, verif, prop string
	prog              *ssa.Program
	pkgs              map[string]*ssa.Package
	redirs            map[string]*hookInfo
	rtErr             types.Type
	modelPkg          *ssa.Package

	mu     sync.Mutex
	cond   *sync.Cond
	work   []workItem
	active int
	stop   bool
	h      *Harness

	deadline    time.Time
	paths       atomic.Int64
	pathsOK     atomic.Int64
	pathsAssume atomic.Int64
	pathsSleep  atomic.Int64
	transitions atomic.Int64
	decisions   atomic.Int64
	steps       atomic.Int64
	asserts     atomic.Int64
	merges      atomic.Int64
	viol        map[string]*Violation
	violOrder   []string
	violAt      time.Time
	violNano    atomic.Int64
	incompl     map[string]int
	reached     map[string]int
	hit         map[string]bool
	samples     []Sample
	nsample     int
	rng         *rand.Rand
	known       []knownFinding
	replayOnly  []Decision
}

var buildMu sync.Mutex
var builtPkgs sync.Map

func ensurePkgBuilt(p *ssa.Package) {
	if _, ok := builtPkgs.Load(p); ok {
		return
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	if _, ok := builtPkgs.Load(p); ok {
		return
	}
	p.Build()
	builtPkgs.Store(p, true)
}

func ensureBuilt(fn *ssa.Function) {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		ensurePkgBuilt(f.Pkg)
	}
	if fn.Pkg != nil {
		ensurePkgBuilt(fn.Pkg)
	}
}

func (e *Engine) load(hs []*Harness) {
	ovf := overlayFiles(e.verif, e.repo, e.prop, false)
	ov := map[string][]byte{}
	for dst, src := range ovf {
		b, err := os.ReadFile(src)
		if err != nil {
			fatal("%v", err)
		}
		ov[dst] = b
	}
	pats := []string{"./internal/zzverif", "./internal/zzmodel"}
	seen := map[string]bool{}
	for _, h := range hs {
		if !seen[h.pkg] {
			seen[h.pkg] = true
			pats = append(pats, "./"+h.pkg)
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: e.repo, Overlay: ov, Fset: token.NewFileSet(),
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "CGO_ENABLED=0")}
	if os.Getenv("SYMGO_GOFLAGS") != "" {
		cfg.Env = append(cfg.Env, "GOFLAGS="+os.Getenv("SYMGO_GOFLAGS"))
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		fatal("load: %v", err)
	}
	bad := false
	packages.Visit(initial, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, "github.com/vivint/rothko") {
			for _, er := range p.Errors {
				fmt.Fprintf(os.Stderr, "load error: %v\n", er)
				bad = true
			}
		}
	})
	if bad {
		fatal("the package does not compile with the harness")
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	e.prog = prog
	e.pkgs = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.modelPkg = e.pkgs[modelPath]
	if e.modelPkg == nil {
		fatal("model package missing")
	}
	ensurePkgBuilt(e.modelPkg)
	if rt := e.pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			e.rtErr = t.Type()
		}
	}
	for _, h := range hs {
		p := e.pkgs["github.com/vivint/rothko/"+h.pkg]
		if h.pkg == "." {
			p = e.pkgs["github.com/vivint/rothko"]
		}
		if p == nil {
			fatal("package %s not loaded", h.pkg)
		}
		ensurePkgBuilt(p)
		h.fn = p.Func(h.name)
		if h.fn == nil {
			fatal("harness %s not found", h.name)
		}
	}
	e.setupRedirs()
}

func (e *Engine) runtimeErrType() types.Type { return e.rtErr }

func (e *Engine) modelFunc(n string) *ssa.Function {
	f := e.modelPkg.Func(n)
	if f == nil {
		fatal("model function %s missing", n)
	}
	return f
}

// setupRedirs reads the redirection table from the model package: every
// function documented with "//zz:for <name> [vis]" replaces <name>; "plain" ones do not run as one
// atomic step.
func (e *Engine) setupRedirs() {
	e.redirs = map[string]*hookInfo{}
	dir := filepath.Join(e.verif, "harness/internal/zzmodel")
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		type pend struct {
			name string
			vis  string
		}
		var cur []pend
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//zz:for ") {
				w := strings.Fields(l[9:])
				p := pend{name: w[0]}
				if len(w) > 1 {
					p.vis = w[1]
				}
				cur = append(cur, p)
				continue
			}
			if strings.HasPrefix(l, "func ") {
				n := l[5:strings.IndexByte(l, '(')]
				for _, p := range cur {
					hi := &hookInfo{redir: e.modelFunc(n)}
					switch {
					case p.vis == "":
					case p.vis == "plain":
						hi.plain = true
					case strings.HasPrefix(p.vis, "if="):
						hi.only = p.vis[3:]
					case p.vis == "arg0":
						hi.vis = objVis
					default:
						key := p.vis
						hi.vis = func(in *Interp, g *Gor, args []Value) visInfo {
							return visInfo{enabled: true, objs: []any{key}}
						}
					}
					e.redirs[p.name] = hi
				}
				cur = nil
			}
		}
	}
}

var msetMu sync.Mutex

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	msetMu.Lock()
	defer msetMu.Unlock()
	pkg := m.Pkg()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(pkg, m.Name())
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

// ---- workers

type Worker struct {
	id     int
	eng    *Engine
	in     *Interp
	merges int64
	h      *Harness
}

func (w *Worker) newInterp() {
	if w.in != nil {
		w.in.sol.Stop()
	}
	tb := NewTB()
	in := &Interp{tb: tb, sol: NewSolver(tb), w: w, tc: newTypeCache(), fns: map[*ssa.Function]*fnInfo{},
		fnClosures: map[*ssa.Function]*Closure{}, prog: w.eng.prog, globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]bool{},
		hooks: map[*ssa.Function]*hookInfo{}, hit: map[*ssa.Function]bool{}, crcPoly: map[Ptr]uint64{}}
	in.sol.timeout = time.Duration(w.h.cfg.solverSecs) * time.Second
	in.cfg = &w.h.cfg
	in.stepLimit = w.h.cfg.stepLimit
	w.in = in
}

func (w *Worker) fork(trace []Decision, d Decision, m Model) {
	p := make([]Decision, len(trace)+1)
	copy(p, trace)
	p[len(trace)] = d
	e := w.eng
	e.decisions.Add(1)
	e.mu.Lock()
	e.work = append(e.work, workItem{p, m})
	e.cond.Signal()
	e.mu.Unlock()
}

func (w *Worker) incomplete(msg string) {
	e := w.eng
	e.mu.Lock()
	e.incompl[msg]++
	n := e.incompl[msg]
	e.mu.Unlock()
	if verbose > 0 && n == 1 {
		fmt.Fprintf(os.Stderr, "incomplete: %s\n", msg)
	}
}

var numRe = regexp.MustCompile(`:\d+`)

func (w *Worker) report(msg string, in *Interp) {
	e := w.eng
	v := &Violation{Harness: w.h.name, Pkg: w.h.pkg, Msg: msg, Inputs: map[string]string{}, native: w.h.cfg.native}
	memo := map[*Term]uint64{}
	for _, iv := range in.inputs {
		v.Inputs[iv.Name] = in.inputStr(iv, memo)
		v.Order = append(v.Order, iv.Name)
	}
	v.Decisions = append([]Decision(nil), in.trace...)
	if in.sched != nil {
		v.Schedule = append([]string(nil), in.sched.trace...)
	}
	v.Notes = append([]string(nil), in.notes...)
	v.key = numRe.ReplaceAllString(msg, "")
	if i := strings.Index(v.key, " ["); i > 0 && strings.HasPrefix(v.key, "assert:") {
		v.key = v.key[:i]
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if o, ok := e.viol[v.key]; ok {
		// keep the simplest one
		if len(v.Decisions) < len(o.Decisions) {
			e.viol[v.key] = v
		}
		return
	}
	e.viol[v.key] = v
	e.violOrder = append(e.violOrder, v.key)
	isKnown := false
	kk := keyOf(v)
	for _, k := range e.known {
		isKnown = isKnown || k.key == kk
	}
	if e.violAt.IsZero() && !isKnown {
		e.violAt = time.Now()
		e.violNano.Store(e.violAt.UnixNano())
	}
	if verbose > 0 {
		fmt.Fprintf(os.Stderr, "violation in %s: %s\n  inputs %v\n  notes %v\n", w.h.name, msg, v.Inputs, v.Notes)
	}
}

func (in *Interp) inputStr(iv inputVar, memo map[*Term]uint64) string {
	x := in.tb.Eval(iv.Term, in.model, memo)
	switch iv.Kind {
	case "int":
		return strconv.FormatInt(sext(x, iv.Term.sort), 10)
	}
	return strconv.FormatUint(x, 10)
}

func (w *Worker) loop() {
	e := w.eng
	for {
		e.mu.Lock()
		for len(e.work) == 0 && e.active > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.stop || len(e.work) == 0 {
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		it := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.active++
		e.mu.Unlock()
		w.path(it)
		e.mu.Lock()
		e.active--
		if e.active == 0 && len(e.work) == 0 {
			e.cond.Broadcast()
		}
		late := time.Now().After(e.deadline)
		if late || (!e.violAt.IsZero() && time.Since(e.violAt) > 20*time.Second) {
			if late && len(e.work) > 0 {
				e.incompl["time budget used up"]++
			}
			e.stop = true
			e.cond.Broadcast()
		}
		e.mu.Unlock()
	}
}

// expire ends a path that still runs long after a violation was found.
func (in *Interp) expire() {
	if at := in.w.eng.violNano.Load(); at != 0 && time.Now().UnixNano()-at > int64(30*time.Second) {
		panic(pathEnd{"incomplete", "stopped after a violation"})
	}
}

func (w *Worker) path(it workItem) {
	e := w.eng
	if w.in == nil || w.in.tb.nextID > 6000000 {
		w.newInterp()
	}
	in := w.in
	in.resetPath()
	in.prefix = it.prefix
	in.pos = 0
	in.model = make(Model, len(it.model)+8)
	for k, v := range it.model {
		in.model[k] = v
	}
	in.noteOn = true
	end := pathEnd{"ok", ""}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					end = x
				case unsupportedErr:
					end = pathEnd{"unsupported", x.msg + in.where()}
				default:
					if os.Getenv("SYMGO_PANIC") != "" {
						panic(r)
					}
					end = pathEnd{"unsupported", fmt.Sprintf("internal: %v%s", r, in.where())}
				}
			}
		}()
		g := &Gor{id: 0, vc: []int{1}}
		in.gors = []*Gor{g}
		in.cur = g
		for _, p := range in.cfg.inits {
			in.ensureInit(e.pkgs["github.com/vivint/rothko/"+p])
		}
		in.call(g, w.h.fn, nil, nil, -1)
		in.runSched()
	}()
	e.paths.Add(1)
	e.steps.Add(in.steps)
	e.asserts.Add(int64(in.asserts))
	if verbose > 1 {
		fmt.Fprintf(os.Stderr, "path %s %s steps=%d pc=%d dec=%d\n", end.kind, end.msg, in.steps, len(in.pc), len(in.trace))
	}
	switch end.kind {
	case "ok":
		e.pathsOK.Add(1)
		w.sample(in)
	case "assume":
		e.pathsAssume.Add(1)
	case "sleep":
		e.pathsSleep.Add(1)
	case "violation":
		w.report(end.msg, in)
	case "violation-reported":
	case "incomplete":
		if w.h.cfg.hang && (strings.HasPrefix(end.msg, "step limit") || strings.HasPrefix(end.msg, "loop limit")) {
			w.report("hang: "+end.msg, in)
		} else {
			w.incomplete(end.msg)
		}
	case "unsupported":
		w.incomplete("unsupported: " + end.msg)
	}
	e.mu.Lock()
	for l := range in.reached {
		e.reached[l]++
	}
	e.mu.Unlock()
}

func (w *Worker) sample(in *Interp) {
	e := w.eng
	if !w.h.cfg.native || w.h.cfg.validate == 0 {
		return
	}
	e.mu.Lock()
	e.nsample++
	n := e.nsample
	k := -1
	if len(e.samples) < w.h.cfg.validate {
		k = len(e.samples)
		e.samples = append(e.samples, Sample{})
	} else if r := e.rng.Intn(n); r < w.h.cfg.validate {
		k = r
	}
	e.mu.Unlock()
	if k < 0 {
		return
	}
	s := Sample{Harness: w.h.name, Inputs: map[string]string{}}
	memo := map[*Term]uint64{}
	for _, iv := range in.inputs {
		s.Inputs[iv.Name] = in.inputStr(iv, memo)
	}
	for _, o := range in.obs {
		s.Obs = append(s.Obs, in.obsStr(o, memo))
	}
	e.mu.Lock()
	e.samples[k] = s
	e.mu.Unlock()
}

// obsStr prints an observation the same way the native API does.
func (in *Interp) obsStr(o obsEnt, memo map[*Term]uint64) string {
	var sb strings.Builder
	sb.WriteString(o.label)
	for i, v := range o.vals {
		sb.WriteByte(' ')
		switch x := v.(type) {
		case *Term:
			val := in.tb.Eval(x, in.model, memo)
			switch {
			case x.sort == SBool:
				sb.WriteString(strconv.FormatBool(val == 1))
			case x.sort == SF64:
				if f := f64(&Term{val: val}); f != f {
					sb.WriteString("nan")
				} else {
					fmt.Fprintf(&sb, "f%x", val)
				}
			case x.sort == SF32:
				fmt.Fprintf(&sb, "f%x", val)
			case isSigned(o.typs[i]):
				sb.WriteString(strconv.FormatInt(sext(val, x.sort), 10))
			default:
				sb.WriteString(strconv.FormatUint(val, 10))
			}
		case string:
			fmt.Fprintf(&sb, "%q", x)
		case *SymStr:
			b := make([]byte, len(x.b))
			for j, t := range x.b {
				b[j] = byte(in.tb.Eval(t, in.model, memo))
			}
			fmt.Fprintf(&sb, "%q", string(b))
		case nil:
			sb.WriteString("nil")
		default:
			sb.WriteString("?")
		}
	}
	return sb.String()
}

type hresult struct {
	h         *Harness
	paths     int64
	ok        int64
	assume    int64
	sleep     int64
	trans     int64
	decisions int64
	steps     int64
	asserts   int64
	queries   int64
	secs      float64
	wall      float64
	viol      []*Violation
	incompl   map[string]int
	reached   map[string]int
	samples   []Sample
	hit       []string
	merges    int64
	maxMs     float64
}

// explore runs one harness to completion.
func (e *Engine) explore(h *Harness, nw int, budget time.Duration) *hresult {
	t0 := time.Now()
	e.h = h
	e.cond = sync.NewCond(&e.mu)
	e.work = []workItem{{e.replayOnly, Model{}}}
	e.active, e.stop = 0, false
	e.viol = map[string]*Violation{}
	e.violOrder = nil
	e.violAt = time.Time{}
	e.violNano.Store(0)
	e.incompl = map[string]int{}
	e.reached = map[string]int{}
	e.samples, e.nsample = nil, 0
	for _, c := range []*atomic.Int64{&e.paths, &e.pathsOK, &e.pathsAssume, &e.pathsSleep, &e.transitions, &e.decisions, &e.steps, &e.asserts} {
		c.Store(0)
	}
	if h.cfg.timeout < budget {
		budget = h.cfg.timeout
	}
	e.deadline = time.Now().Add(budget)
	q0, n0 := stats.queries.Load(), stats.nanos.Load()
	ws := make([]*Worker, nw)
	var wg sync.WaitGroup
	for i := range ws {
		ws[i] = &Worker{id: i, eng: e, h: h}
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.loop()
			if w.in != nil {
				w.in.sol.Stop()
			}
		}(ws[i])
	}
	wg.Wait()
	r := &hresult{h: h, paths: e.paths.Load(), ok: e.pathsOK.Load(), assume: e.pathsAssume.Load(), sleep: e.pathsSleep.Load(),
		trans: e.transitions.Load(), decisions: e.decisions.Load(), steps: e.steps.Load(), asserts: e.asserts.Load(),
		queries: stats.queries.Load() - q0, secs: float64(stats.nanos.Load()-n0) / 1e9, wall: time.Since(t0).Seconds(),
		incompl: e.incompl, reached: e.reached, samples: e.samples}
	for _, k := range e.violOrder {
		r.viol = append(r.viol, e.viol[k])
	}
	hits := map[string]bool{}
	for _, w := range ws {
		r.merges += w.merges
		if w.in == nil {
			continue
		}
		for fn := range w.in.hit {
			if fn.Pkg == nil {
				continue
			}
			pp := fn.Pkg.Pkg.Path()
			if strings.HasPrefix(pp, "github.com/vivint/rothko") && !strings.HasPrefix(pp, zzPath) && !strings.HasPrefix(pp, modelPath) {
				n := fn.String()
				if !strings.Contains(n, ".ZZ_") && !strings.Contains(n, ".zz") {
					hits[shortName(n)] = true
				}
			}
		}
	}
	for n := range hits {
		r.hit = append(r.hit, n)
	}
	sort.Strings(r.hit)
	return r
}
